//! C12: external functions are called as bound: right arguments, order and timing.
//!
//! (a) Every program of a small language of call sites (statements, inline, assignments, strings,
//! choice texts and conditions, nested calls, functions, tunnels, before and after glue) up to a
//! length, with the external bound look-ahead safe, unsafe, or replaced by its Ink fallback,
//! under blocking and sliced continues. Oracle: the same program with the function written in
//! Ink; for the unsafe binding the call log must be the executed calls, once, in order, each after
//! everything before it was delivered. (b) Every tuple of argument values up to three arguments,
//! echoed. (c) Every combination of bindings, fallbacks and permissions for missing externals.
use crate::{host::*, prog::*, util::*};
use serde_json::json;

const ITEMS: [&str; 19] = [
    "T", "S", "I", "A", "Q", "C", "B", "N", "F", "G", "U", "K", "M", "D", "P", "V", "W", "X", "H",
];

fn program(items: &[usize], external: bool, fallback: bool) -> String {
    let mut s = String::new();
    if external {
        s.push_str("EXTERNAL ext(x)\n");
    }
    s.push_str("VAR a = 0\nVAR s = \"\"\n-> start\n== start\n");
    for (i, it) in items.iter().enumerate() {
        let n = i + 1;
        s.push_str(&match ITEMS[*it] {
            "T" => format!("T{n}.\n"),
            "S" => format!("~ ext({n})\n"),
            "I" => format!("I{n} {{ext({n})}} tail.\n"),
            "A" => format!("~ a = ext({n})\nA{n} {{a}}.\n"),
            "Q" => format!("~ s = \"x{{ext({n})}}y\"\nQ{n} {{s}}.\n"),
            "C" => format!("* [c{n} {{ext({n})}}]\n-\n"),
            "B" => format!("{{ext({n}) > 0: B{n}.}}\n"),
            "N" => format!("N{n} {{twice(ext({n}))}}.\n"),
            "F" => format!("F{n} {{fn({n})}}.\n"),
            "G" => format!("<> G{n}.\n"),
            "U" => format!("-> tun({n}) ->\n"),
            "K" => format!("* {{ext({n}) > 0}} [k{n}]\n-\n"),
            "M" => format!("M{n} {{ext({n})}} <>\n"),
            "D" => format!("{{ext({n}):\n - 0: Zero.\n - {n}: D{n}.\n}}\n"),
            "V" => format!("~ silent({n})\n"),
            "W" => format!("{{fn({n}) > 0: W{n}.}}\n"),
            "X" => format!("~ a = fn({n})\nX{n} {{a}}.\n"),
            "H" => format!("* {{fn({n}) > 0}} [h{n}]\n-\n"),
            "P" => format!("P{n} # tag {{ext({n})}}\n"),
            _ => unreachable!(),
        });
    }
    s.push_str("Last.\n-> END\n== tun(x)\n~ ext(x)\nU{x}.\n->->\n== function twice(x)\n~ return x * 2\n== function fn(x)\n~ temp y = ext(x)\n~ return y\n== function silent(x)\n~ ext(x)\n");
    if fallback {
        s.push_str("== function ext(x)\n~ return x\n");
    }
    s
}

/// Lines with tags and choices in the order shown, and for every operation the calls it caused.
struct Run {
    shown: Vec<String>,
    /// (operation, argument)
    calls: Vec<(usize, String)>,
    /// results by operation
    results: Vec<String>,
    ops: Vec<Op>,
    error: Option<String>,
    vars: String,
}

fn play(p: &Prog, bind: Option<bool>, fallbacks: bool, slice: Option<i64>) -> Result<Run, String> {
    let cfg = Cfg {
        seed: Some(1),
        no_bind: true,
        ..Default::default()
    };
    let mut h = Host::new(p, &cfg)?;
    if let Some(safe) = bind {
        h.apply(&Op::Bind("ext".into(), safe));
    }
    if fallbacks {
        h.apply(&Op::Fallbacks(true));
    }
    let mut run = Run {
        shown: vec![],
        calls: vec![],
        results: vec![],
        ops: vec![],
        error: None,
        vars: String::new(),
    };
    for _ in 0..200 {
        let op = if h.can() {
            match slice {
                None => Op::Cont,
                Some(n) => Op::Sliced(n),
            }
        } else if h.n_choices() > 0 {
            Op::Choose(0)
        } else {
            break;
        };
        let r = h.apply(&op);
        if h.dead {
            return Err(format!("{op} gives {r}"));
        }
        let n = run.ops.len();
        for l in h.take_log() {
            if let Some(c) = l.strip_prefix("external ext(") {
                run.calls.push((n, c.trim_end_matches(')').to_string()));
            }
        }
        if op != Op::Choose(0) {
            if r.starts_with("Err") {
                run.error = Some(r.clone());
            }
            let tags = h.story.get_current_tags().unwrap_or_default();
            run.shown.push(format!("{r} {tags:?}"));
            for c in h.story.get_current_choices() {
                run.shown.push(format!("* {} {:?}", c.text, c.tags));
            }
        } else if r != "Ok" {
            return Err(format!("{op} gives {r}"));
        }
        run.results.push(r);
        run.ops.push(op);
        if run.error.is_some() {
            break;
        }
    }
    run.vars = h
        .memory()
        .lines()
        .filter(|l| l.starts_with("var"))
        .collect::<Vec<_>>()
        .join("\n");
    Ok(run)
}

fn generated(r: &Report) {
    let k = ITEMS.len() as u64;
    let len = r.tier.pick(4u32, 5);
    let mut total = 0u64;
    let mut sizes = vec![];
    for l in 1..=len {
        sizes.push((l, total));
        total += k.pow(l);
    }
    r.count("call-site programs", total);
    par_range(r, total, 16, |n| {
        if r.expired() {
            return;
        }
        let (l, base) = *sizes.iter().rev().find(|s| s.1 <= n).unwrap();
        let mut x = n - base;
        let mut items = Vec::new();
        for _ in 0..l {
            items.push((x % k) as usize);
            x /= k;
        }
        let name: String = items.iter().map(|i| ITEMS[*i]).collect();
        let ink = program(&items, false, true);
        let src = program(&items, true, true);
        let (pi, pe) = match (from_source("ink", &ink), from_source(&name, &src)) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => {
                r.count("call-site programs that do not compile", 1);
                r.note(format!("{name}: {:?} {:?}", a.err(), b.err()));
                return;
            }
        };
        let fail = |what: &str, d: String| {
            r.violation(
                &format!("site:{name}:{what}"),
                format!("source:\n{src}\nexternal ext: {what}\n{d}"),
            )
        };
        let want = match play(&pi, None, false, None) {
            Ok(w) => w,
            Err(e) => return fail("written in Ink", e),
        };
        r.outcome(&want.shown.join("\n"));
        // The call log of an execution: arguments of the items that call, in order.
        let expected: Vec<String> = items
            .iter()
            .enumerate()
            .filter(|(_, it)| !matches!(ITEMS[**it], "T" | "G"))
            .map(|(i, _)| format!("int:{}", i + 1))
            .collect();
        let same = |a: &Run, b: &Run| -> Option<String> {
            // A call that has to wait for its line can leave a continue without text.
            let lines = |r: &Run| {
                r.shown
                    .iter()
                    .filter(|l| *l != "Ok(\"\") []")
                    .cloned()
                    .collect::<Vec<_>>()
                    .join("\n")
            };
            if lines(a) != lines(b) {
                return Some(first_diff(&lines(a), &lines(b)));
            }
            if a.vars != b.vars {
                return Some(first_diff(&a.vars, &b.vars));
            }
            None
        };
        for slice in [None, Some(0), Some(2)] {
            r.states(3);
            r.traces(3);
            // Ink fallback of an unbound external.
            match play(&pe, None, true, slice) {
                Err(e) => return fail("unbound with fallback", e),
                Ok(g) => {
                    r.transitions(g.ops.len() as u64);
                    if let Some(d) = same(&want, &g) {
                        return fail("unbound with fallback", d);
                    }
                }
            }
            // Look-ahead safe: the output of one run per call.
            match play(&pe, Some(true), false, slice) {
                Err(e) => return fail("look-ahead safe", e),
                Ok(g) => {
                    r.transitions(g.ops.len() as u64);
                    if let Some(d) = same(&want, &g) {
                        return fail("look-ahead safe", d);
                    }
                    let mut seen: Vec<&String> = Vec::new();
                    for c in &g.calls {
                        if !seen.contains(&&c.1) {
                            seen.push(&c.1);
                        }
                    }
                    let order: Vec<String> = seen.into_iter().cloned().collect();
                    let mut e: Vec<String> = expected.clone();
                    e.dedup();
                    if order != e {
                        return fail(
                            "look-ahead safe",
                            format!("calls {:?}, first calls {order:?} expected {e:?}", g.calls),
                        );
                    }
                }
            }
            // Unsafe.
            match play(&pe, Some(false), true, slice) {
                Err(e) => return fail("look-ahead unsafe", e),
                Ok(g) => {
                    r.transitions(g.ops.len() as u64);
                    let stop = items.iter().position(|i| matches!(ITEMS[*i], "Q" | "C"));
                    let n_calls = match stop {
                        Some(s) => items[..s]
                            .iter()
                            .filter(|i| !matches!(ITEMS[**i], "T" | "G"))
                            .count(),
                        None => expected.len(),
                    };
                    let got: Vec<&String> = g.calls.iter().map(|c| &c.1).collect();
                    if got != expected[..n_calls].iter().collect::<Vec<_>>() {
                        return fail(
                            "look-ahead unsafe",
                            format!(
                                "calls {got:?}, expected {:?}\noperations {}\nresults {:?}",
                                &expected[..n_calls],
                                show_ops(&g.ops),
                                g.results
                            ),
                        );
                    }
                    if stop.is_some() != g.error.is_some() {
                        return fail(
                            "look-ahead unsafe",
                            format!(
                                "call from a string or choice text: {}, error: {:?}",
                                stop.is_some(),
                                g.error
                            ),
                        );
                    }
                    // Everything before the call has been delivered by then.
                    for (op, arg) in &g.calls {
                        let i: usize = arg.trim_start_matches("int:").parse().unwrap();
                        let given = g.results[..*op].concat();
                        for j in 1..i {
                            let token = match ITEMS[items[j - 1]] {
                                "S" | "C" | "K" | "Q" | "V" | "H" => continue,
                                // Ends in glue or has its end of line still to come.
                                "M" => continue,
                                "A" => format!("A{j} "),
                                "I" => format!("I{j} "),
                                "N" => format!("N{j} "),
                                "F" => format!("F{j} "),
                                "X" => format!("X{j} "),
                                "P" => format!("P{j}"),
                                t => format!("{t}{j}."),
                            };
                            // A line that glue holds open is not complete.
                            let open = items[j..i - 1]
                                .iter()
                                .any(|k| matches!(ITEMS[*k], "M" | "G"))
                                || items[..j - 1].iter().any(|k| ITEMS[*k] == "M");
                            if !open && !given.contains(&token) {
                                return fail(
                                    "look-ahead unsafe",
                                    format!(
                                        "ext({i}) is called before {token:?} is delivered\noperations {}\nresults {:?}",
                                        show_ops(&g.ops),
                                        g.results
                                    ),
                                );
                            }
                        }
                    }
                    let glue = items.iter().any(|i| matches!(ITEMS[*i], "G" | "M"));
                    if stop.is_none() {
                        if !glue {
                            if let Some(d) = same(&want, &g) {
                                return fail("look-ahead unsafe", d);
                            }
                        } else {
                            // An unsafe call ends the line before it; otherwise the text is the same.
                            let text = |r: &Run| -> String {
                                r.results
                                    .iter()
                                    .filter_map(|t| {
                                        serde_json::from_str::<String>(
                                            t.strip_prefix("Ok(")?.strip_suffix(')')?,
                                        )
                                        .ok()
                                    })
                                    .collect::<String>()
                                    .split_whitespace()
                                    .collect::<Vec<_>>()
                                    .join(" ")
                            };
                            if text(&want) != text(&g) || want.vars != g.vars {
                                return fail(
                                    "look-ahead unsafe",
                                    format!("text {:?} expected {:?}", text(&g), text(&want)),
                                );
                            }
                        }
                    }
                }
            }
        }
    });
}

/// Argument values and return values.
fn arguments(r: &Report) {
    // (Ink expression, value as the host sees it)
    let vals: [(&str, &str); 14] = [
        ("1", "int:1"),
        ("-7", "int:-7"),
        ("2147483647", "int:2147483647"),
        ("2.5", "float:2.5"),
        ("true", "bool:true"),
        ("1 == 2", "bool:false"),
        ("\"text\"", "str:\"text\""),
        ("\"\"", "str:\"\""),
        ("\"a {1 + 1} b\"", "str:\"a 2 b\""),
        ("gi", "int:5"),
        ("gl", "list:[(1, \"L.p\"), (3, \"L.r\")] of [\"L\"]"),
        ("()", "list:[] of []"),
        ("-> dest", "target:dest"),
        ("add(gi, 2)", "int:7"),
    ];
    let head = "LIST L = p, q, r\nVAR gi = 5\nVAR gl = (p, r)\nVAR res = 0\nVAR fb = 0\n";
    let tail = "-> END\n== dest\nDest.\n-> END\n== function add(a, b)\n~ return a + b\n";
    let mut cases: Vec<Vec<usize>> = vec![vec![]];
    for a in 0..vals.len() {
        cases.push(vec![a]);
        for b in 0..vals.len() {
            cases.push(vec![a, b]);
            if r.tier == Tier::Thorough || (a + b) % 3 == 0 {
                for c in 0..vals.len() {
                    cases.push(vec![a, b, c]);
                }
            }
        }
    }
    r.count("argument tuples", cases.len() as u64);
    par_each(r, &cases, |c| {
        let ar = c.len();
        let params: Vec<String> = (0..ar).map(|i| format!("a{i}")).collect();
        let args: Vec<&str> = c.iter().map(|i| vals[*i].0).collect();
        let want: Vec<&str> = c.iter().map(|i| vals[*i].1).collect();
        for (name, safe) in [
            ("echo", true),
            ("echo", false),
            ("strfn", true),
            ("void", false),
            ("num", true),
        ] {
            let call = format!("{name}({})", args.join(", "));
            let used = match name {
                "void" => format!("~ {call}\nLine.\n[{{{call}}}]\n"),
                _ => format!("~ res = {call}\n~ {call}\nLine.\n[{{{call}}}]\n"),
            };
            if name == "echo" && ar == 0 {
                continue;
            }
            let src = format!(
                "EXTERNAL {name}({})\n{head}Start.\n{used}{tail}",
                params.join(", ")
            );
            let p = match from_source(&call, &src) {
                Ok(p) => p,
                Err(e) => {
                    r.violation(&format!("args:{call}"), format!("source:\n{src}\n{e}"));
                    return;
                }
            };
            let cfg = Cfg {
                seed: Some(1),
                no_bind: true,
                ..Default::default()
            };
            let Ok(mut h) = Host::new(&p, &cfg) else {
                r.violation(
                    &format!("args:{call}"),
                    format!("source:\n{src}\ndoes not load"),
                );
                return;
            };
            h.apply(&Op::Bind(name.into(), safe));
            let mut lines = Vec::new();
            let mut calls = Vec::new();
            for _ in 0..10 {
                if !h.can() {
                    break;
                }
                lines.push(h.apply(&Op::Cont));
                calls.extend(
                    h.take_log()
                        .into_iter()
                        .filter(|l| l.starts_with("external")),
                );
            }
            r.states(1);
            r.traces(1);
            r.transitions(lines.len() as u64);
            r.outcome(&lines.join("|"));
            let expect = format!("external {name}({})", want.join(","));
            let mut bad = None;
            let n = if name == "void" { 2 } else { 3 };
            if calls.iter().any(|c| *c != expect)
                || (if safe {
                    calls.len() < n
                } else {
                    calls.len() != n
                })
            {
                bad = Some(format!("calls {calls:?}, expected {n} times {expect}"));
            }
            // The value stands where the call stands.
            let shown = match name {
                "void" => Some("[]".to_string()),
                "num" if ar == 0 => Some("[7]".into()),
                "echo" => match vals[c[0]].0 {
                    "1 == 2" => Some("[false]".into()),
                    "\"text\"" => Some("[text]".into()),
                    "\"\"" | "()" => Some("[]".into()),
                    "\"a {1 + 1} b\"" => Some("[a 2 b]".into()),
                    "gi" => Some("[5]".into()),
                    "gl" => Some("[p, r]".into()),
                    "-> dest" => None,
                    "add(gi, 2)" => Some("[7]".into()),
                    o => Some(format!("[{o}]")),
                },
                _ => None,
            };
            if bad.is_none()
                && let Some(s) = shown
                && lines.last().map(String::as_str) != Some(&format!("Ok({:?})", format!("{s}\n")))
            {
                bad = Some(format!("lines {lines:?}, expected the last to be {s}"));
            }
            if bad.is_none() && name == "echo" {
                let v = h
                    .story
                    .get_variable("res")
                    .map(|v| render(&v))
                    .unwrap_or_default();
                // An empty list takes the origins of the variable it is assigned to, if any.
                if v != vals[c[0]].1 {
                    bad = Some(format!("stored {v}, expected {}", vals[c[0]].1));
                }
            }
            if let Some(d) = bad {
                r.violation(
                    &format!("args:{call}:{safe}"),
                    format!("source:\n{src}\nlook-ahead safe {safe}\n{d}"),
                );
                return;
            }
        }
    });
}

/// Missing bindings.
fn bindings(r: &Report) {
    // Each external: bound (safe/unsafe), or unbound; with or without a fallback; called or not.
    let states = ["safe", "unsafe", "unbound"];
    let mut cases = Vec::new();
    for s0 in 0..3 {
        for s1 in 0..3 {
            for fb in 0..4u8 {
                for called in 0..4u8 {
                    for allow in [false, true] {
                        for slice in [false, true] {
                            cases.push(([s0, s1], fb, called, allow, slice));
                        }
                    }
                }
            }
        }
    }
    r.count("binding configurations", cases.len() as u64);
    par_each(r, &cases, |(st, fb, called, allow, slice)| {
        let names = ["one", "two"];
        let mut src =
            String::from("EXTERNAL one(x)\nEXTERNAL two(x, y)\n-> main\n== main\nStart.\n");
        if called & 1 != 0 {
            src.push_str("One {one(4)}.\n");
        }
        if called & 2 != 0 {
            src.push_str("Two {two(3, 2)}.\n");
        }
        src.push_str("-> END\n");
        if fb & 1 != 0 {
            src.push_str("== function one(x)\n~ return \"f{x}\"\n");
        }
        if fb & 2 != 0 {
            src.push_str("== function two(x, y)\n~ return \"f{x}{y}\"\n");
        }
        let p = match from_source("bindings", &src) {
            Ok(p) => p,
            Err(e) => {
                r.violation(
                    &format!("bind:compile:{fb}:{called}"),
                    format!("source:\n{src}\n{e}"),
                );
                return;
            }
        };
        let cfg = Cfg {
            seed: Some(1),
            no_bind: true,
            ..Default::default()
        };
        let Ok(mut h) = Host::new(&p, &cfg) else {
            return;
        };
        for i in 0..2 {
            if st[i] < 2 {
                h.apply(&Op::Bind(names[i].into(), st[i] == 0));
            }
        }
        h.apply(&Op::Fallbacks(*allow));
        let missing: Vec<usize> = (0..2)
            .filter(|i| called & (1 << i) != 0 && st[*i] == 2 && !(*allow && fb & (1 << i) != 0))
            .collect();
        let op = if *slice { Op::Sliced(0) } else { Op::Cont };
        let key = format!(
            "bind:{}:{}:{fb}:{called}:{allow}:{slice}",
            states[st[0]], states[st[1]]
        );
        let fail = |d: String| {
            r.violation(
                &key,
                format!(
                    "source:\n{src}\none: {} two: {} fallbacks allowed: {allow}\n{d}",
                    states[st[0]], states[st[1]]
                ),
            )
        };
        r.states(1);
        r.traces(1);
        let first = h.apply(&op);
        r.transitions(1);
        if missing.is_empty() != first.starts_with("Ok") {
            return fail(format!("missing {missing:?}, first continue: {first}"));
        }
        for i in &missing {
            if !first.contains(&format!("'{}", names[*i])) && !first.contains(names[*i]) {
                return fail(format!("the error does not name {}: {first}", names[*i]));
            }
        }
        if !missing.is_empty() {
            // Fails again, without change; binding repairs it.
            let again = h.apply(&op);
            if again != first {
                return fail(format!("second continue: {again}"));
            }
            for i in &missing {
                h.apply(&Op::Bind(names[*i].into(), true));
            }
            let now = h.apply(&op);
            if !now.starts_with("Ok(\"Start.") {
                return fail(format!("after binding the missing functions: {now}"));
            }
        }
        let mut text = String::new();
        for _ in 0..5 {
            if !h.can() {
                break;
            }
            text.push_str(&h.apply(&op));
            r.transitions(1);
        }
        let mut want = String::new();
        if called & 1 != 0 {
            let bound = st[0] < 2 || missing.contains(&0);
            want.push_str(if bound {
                "Ok(\"One 4.\\n\")"
            } else {
                "Ok(\"One f4.\\n\")"
            });
        }
        if called & 2 != 0 {
            let bound = st[1] < 2 || missing.contains(&1);
            want.push_str(if bound {
                "Ok(\"Two 23.\\n\")"
            } else {
                "Ok(\"Two f32.\\n\")"
            });
        }
        if text != want {
            return fail(format!("lines {text}, expected {want}"));
        }
        // Unbound in the middle of the story: the fallback or an error, never a panic.
        if called & 1 != 0 && st[0] < 2 {
            let Ok(mut h) = Host::new(&p, &cfg) else {
                return;
            };
            for i in 0..2 {
                h.apply(&Op::Bind(names[i].into(), true));
            }
            h.apply(&Op::Fallbacks(*allow));
            h.apply(&Op::Cont);
            h.apply(&Op::Unbind("one".into()));
            let res = h.apply(&op);
            let ok = if *allow && fb & 1 != 0 {
                res == "Ok(\"One f4.\\n\")"
            } else {
                res.starts_with("Err")
            };
            r.states(1);
            if !ok {
                fail(format!(
                    "unbound after the first line, the call then gives {res}"
                ));
            }
        }
    });
}

pub fn run(r: &Report) {
    r.assume("the bound functions are deterministic functions of their arguments");
    bindings(r);
    arguments(r);
    generated(r);
    r.sample(json!({"call sites": program(&[0, 1, 2, 9], true, true)}));
}
