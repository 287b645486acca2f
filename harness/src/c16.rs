//! C16: evaluating an Ink function from the host does not disturb the story.
//!
//! Every play (and flow) history of the program set, every position of it, every function of the
//! program with every argument tuple of a small set. The save after the call must be the save
//! before it except for global variables, counts of functions and the random state; the screen
//! must be unchanged; the rest of the history must be observed as in a fresh story that loaded
//! the save from before the call with just those parts replaced. Functions without side effects
//! must return the same again. A table of functions with known results is evaluated at every
//! position of several stories.
use crate::{c02::flow_alphabet, explore::*, host::*, prog::*, util::*};
use serde_json::{Value, json};

const GLOBAL: [&str; 4] = [
    "variablesState",
    "visitCounts",
    "turnIndices",
    "previousRandom",
];

fn without_globals(v: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        for k in GLOBAL {
            m.remove(k);
        }
    }
    v
}

fn with_globals(v: &Value, from: &Value) -> Value {
    let mut v = v.clone();
    if let Some(m) = v.as_object_mut() {
        for k in GLOBAL {
            if let Some(x) = from.get(k) {
                m.insert(k.into(), x.clone());
            }
        }
    }
    v
}

/// Whether two saves differ in a global apart from the counts of the function called.
fn side_effects(a: &Value, b: &Value, func: &str) -> bool {
    let strip = |v: &Value| -> Value {
        let mut out = serde_json::Map::new();
        for k in GLOBAL {
            let mut x = v.get(k).cloned().unwrap_or(Value::Null);
            if let Some(m) = x.as_object_mut()
                && k != "variablesState"
            {
                m.retain(|p, _| p != func);
            }
            out.insert(k.into(), x);
        }
        Value::Object(out)
    };
    !json_eq(&strip(a), &strip(b))
}

/// Paths whose counts changed.
fn changed_counts(a: &Value, b: &Value) -> Vec<String> {
    let mut out = Vec::new();
    for k in ["visitCounts", "turnIndices"] {
        let empty = serde_json::Map::new();
        let x = a.get(k).and_then(|v| v.as_object()).unwrap_or(&empty);
        let y = b.get(k).and_then(|v| v.as_object()).unwrap_or(&empty);
        for p in x.keys().chain(y.keys()) {
            if x.get(p) != y.get(p) && !out.contains(p) {
                out.push(p.clone());
            }
        }
    }
    out
}

fn arg_tuples(n: usize, thorough: bool) -> Vec<Vec<V>> {
    let base = if thorough {
        vec![
            V::I(0),
            V::I(3),
            V::F(1.5),
            V::B(true),
            V::S("q".into()),
            V::EmptyList,
        ]
    } else {
        vec![V::I(3), V::S("q".into())]
    };
    let mut out: Vec<Vec<V>> = vec![vec![]];
    for _ in 0..n.min(3) {
        out = out
            .into_iter()
            .flat_map(|t| {
                base.iter().map(move |b| {
                    let mut t = t.clone();
                    t.push(b.clone());
                    t
                })
            })
            .collect();
    }
    if n > 3 {
        return vec![];
    }
    out
}

fn is_fine(result: &str, h: &Host, log: &[String]) -> bool {
    result.starts_with("Ok")
        && h.story.get_current_errors().is_empty()
        && !log.iter().any(|l| l.starts_with("handler error"))
}

fn check(
    r: &Report,
    p: &Prog,
    cfg: &Cfg,
    path: &[Op],
    done: &mut std::collections::HashSet<String>,
) {
    let Ok(mut h) = Host::new(p, cfg) else { return };
    r.traces(1);
    for at in 0..=path.len() {
        if at > 0 {
            h.apply(&path[at - 1]);
            h.n_choices();
        }
        if h.dead {
            return;
        }
        if !done.insert(show_ops(&path[..at])) {
            continue;
        }
        let Ok(before) = h.save() else { return };
        for (f, n) in &p.funcs {
            for args in arg_tuples(*n, r.tier == Tier::Thorough && !is_big(p)) {
                if r.stop() {
                    return;
                }
                let Ok(mut g) = Host::new(p, cfg) else { return };
                for op in &path[..at] {
                    g.apply(op);
                    g.n_choices();
                }
                g.take_log();
                let op = Op::Eval(f.clone(), args.clone());
                let screen = g.screen();
                let res = g.apply(&op);
                let log = g.take_log();
                r.states(1);
                r.transitions(1);
                let key = format!("{}:{op}:{}", p.name, show_ops(&path[..at]));
                let fail = |d: String| {
                    r.violation(
                        &key,
                        format!(
                            "{}before operation {at}: {op} returns {res}\n{d}",
                            describe(p, cfg, path)
                        ),
                    )
                };
                if g.dead {
                    return fail("the story is dead".into());
                }
                if !is_fine(&res, &g, &log) {
                    r.count("calls that fail inside the function", 1);
                    continue;
                }
                r.outcome(&res);
                let Ok(after) = g.save() else {
                    return fail("no save".into());
                };
                let mut d = Vec::new();
                diff_json(
                    &without_globals(&before),
                    &without_globals(&after),
                    "",
                    &mut d,
                );
                if !d.is_empty() {
                    return fail(format!("the save differs: {}", d.join("\n")));
                }
                if g.screen() != screen {
                    return fail(format!(
                        "the screen differs: {}",
                        first_diff(&screen, &g.screen())
                    ));
                }
                let odd: Vec<String> = changed_counts(&before, &after)
                    .into_iter()
                    .filter(|c| {
                        !p.funcs
                            .iter()
                            .any(|f| *c == f.0 || c.starts_with(&format!("{}.", f.0)))
                    })
                    .collect();
                if !odd.is_empty() {
                    return fail(format!("visit or turn counts of {odd:?} change"));
                }
                if !side_effects(&before, &after, f) {
                    // Once more.
                    let again = g.apply(&op);
                    g.take_log();
                    r.transitions(1);
                    if again != res {
                        return fail(format!(
                            "without side effects; called again it returns {again}"
                        ));
                    }
                }
                // The future.
                let Ok(now) = g.save() else { return };
                let Ok(mut b) = Host::new(p, cfg) else { return };
                if changed_counts(&before, &now).is_empty() && !side_effects(&before, &now, f) {
                    // Nothing global changed either: like the history without the call.
                    for op in &path[..at] {
                        b.apply(op);
                        b.n_choices();
                    }
                } else {
                    let text = with_globals(&before, &now).to_string();
                    let l = b.apply(&Op::LoadText(text));
                    if l != "Ok" {
                        return fail(format!("the save does not load: {l}"));
                    }
                }
                b.take_log();
                let strip = |v: Vec<String>| -> Vec<String> {
                    v.into_iter()
                        .map(|s| {
                            s.lines()
                                .filter(|l| !l.starts_with("! observer"))
                                .map(|l| format!("{l}\n"))
                                .collect()
                        })
                        .collect()
                };
                let want = strip(trace(&mut b, &path[at..]));
                let got = strip(trace(&mut g, &path[at..]));
                r.transitions(2 * (path.len() - at) as u64);
                if let Some((k, d)) = compare(&want, &got) {
                    return fail(format!("operation {} then shows {d}", at + k));
                }
            }
        }
        for bad in [
            Op::Eval(String::new(), vec![]),
            Op::Eval("  ".into(), vec![]),
            Op::Eval("no_such".into(), vec![V::I(1)]),
        ] {
            let res = h.apply(&bad);
            let now = h.save();
            h.take_log();
            r.transitions(1);
            if !res.starts_with("Err") || now.as_ref().ok() != Some(&before) {
                r.violation(
                    &format!("{}:{bad}:{at}", p.name),
                    format!(
                        "{}before operation {at}: {bad} returns {res}",
                        describe(p, cfg, path)
                    ),
                );
                return;
            }
        }
    }
}

/// Functions with known results, evaluated at every position of host stories.
const FUNCS: &str = "== function f_add(a, b)\n~ return a + b\n\
== function f_text(x)\nHello {x}.\n\
== function f_both(x)\nLine one.\nLine {x}.\n~ return x * 2\n\
== function f_none()\n~ temp q = 1\n\
== function f_cond(x)\n{x > 2:\n  Big.\n  ~ return \"big\"\n- else:\n  ~ return \"small\"\n}\n\
== function f_rec(n)\n{n <= 1:\n  ~ return 1\n}\n~ return n * f_rec(n - 1)\n\
== function f_glue(x)\nA <>\n{x} B\n~ return true\n\
== function f_nest(x)\n~ temp t = f_add(x, 1)\nNest {t} {f_cond(t)}.\n~ return t\n\
== function f_str(a, b)\n~ return \"{a}-{b}\"\n\
== function f_ref()\n~ temp loc = 5\n~ f_inc(loc)\n~ return loc\n\
== function f_inc(ref v)\n~ v = v + 1\n\
== function f_early(x)\nBefore.\n{x:\n  ~ return 1\n}\nAfter.\n~ return 2\n\
== function f_div(-> t)\n~ return t == -> hub\n\
== function f_tag()\nTagged # t1\n~ return 3\n\
== function f_seq()\n{&a|b}\n";

/// (call, result)
fn table() -> Vec<(Op, Vec<&'static str>)> {
    let e = |f: &str, a: Vec<V>| Op::Eval(f.into(), a);
    vec![
        (e("f_add", vec![V::I(2), V::I(3)]), vec!["Ok(int:5, \"\")"]),
        (
            e("f_add", vec![V::S("x".into()), V::I(3)]),
            vec!["Ok(str:\"x3\", \"\")"],
        ),
        (
            e("f_add", vec![V::F(0.5), V::I(3)]),
            vec!["Ok(float:3.5, \"\")"],
        ),
        (
            e("f_text", vec![V::S("you".into())]),
            vec![
                "Ok(nothing, \"Hello you.\\n\")",
                "Ok(nothing, \"Hello you.\")",
            ],
        ),
        (
            e("f_both", vec![V::I(4)]),
            vec![
                "Ok(int:8, \"Line one.\\nLine 4.\\n\")",
                "Ok(int:8, \"Line one.\\nLine 4.\")",
            ],
        ),
        (e("f_none", vec![]), vec!["Ok(nothing, \"\")"]),
        (
            e("f_cond", vec![V::I(3)]),
            vec!["Ok(str:\"big\", \"Big.\\n\")", "Ok(str:\"big\", \"Big.\")"],
        ),
        (e("f_cond", vec![V::I(1)]), vec!["Ok(str:\"small\", \"\")"]),
        (e("f_rec", vec![V::I(6)]), vec!["Ok(int:720, \"\")"]),
        (
            e("f_glue", vec![V::I(7)]),
            vec!["Ok(bool:true, \"A 7 B\\n\")", "Ok(bool:true, \"A 7 B\")"],
        ),
        (
            e("f_nest", vec![V::I(1)]),
            vec![
                "Ok(int:2, \"Nest 2 small.\\n\")",
                "Ok(int:2, \"Nest 2 small.\")",
            ],
        ),
        (
            e("f_str", vec![V::I(1), V::S("b".into())]),
            vec!["Ok(str:\"1-b\", \"\")"],
        ),
        (e("f_ref", vec![]), vec!["Ok(int:6, \"\")"]),
        (
            e("f_early", vec![V::B(true)]),
            vec!["Ok(int:1, \"Before.\\n\")", "Ok(int:1, \"Before.\")"],
        ),
        (
            e("f_early", vec![V::B(false)]),
            vec![
                "Ok(int:2, \"Before.\\nAfter.\\n\")",
                "Ok(int:2, \"Before.\\nAfter.\")",
            ],
        ),
        (
            e("f_tag", vec![]),
            vec!["Ok(int:3, \"Tagged\\n\")", "Ok(int:3, \"Tagged\")"],
        ),
    ]
}

/// Story bodies in whose every position the table is evaluated.
const STORIES: [(&str, &str); 7] = [
    (
        "lines",
        "-> hub\n== hub\nOne.\nTwo <>\nglued.\nThree # tag\n-> DONE\n",
    ),
    (
        "choices",
        "-> hub\n== hub\nPick.\n+ [a] A. -> hub\n* b # t\n  B.\n  * * [c] C. -> hub\n  * * [d] -> END\n",
    ),
    (
        "tunnels",
        "VAR g = 1\n-> hub\n== hub\n~ temp t = 4\nStart {t}.\n-> tun(t) ->\nBack {t}.\n-> END\n== tun(x)\nTun {x}.\n* [in {x}]\n- Out {x} {g}.\n->->\n",
    ),
    (
        "threads",
        "-> hub\n== hub\nHub.\n<- th(1)\n<- th(2)\n* [own] Own. -> END\n== th(n)\nThread {n}.\n* [t{n}] Said {n}. -> END\n",
    ),
    (
        "functions",
        "VAR g = 0\n-> hub\n== hub\nF {f_both(3)} end {f_nest(2)}.\nText {f_text(\"me\")}\n~ g = f_add(g, 2)\nG {g}.\n* {f_cond(3) == \"big\"} [c {f_rec(3)}] -> END\n",
    ),
    (
        "calls in strings",
        "VAR s = \"\"\n-> hub\n== hub\n~ s = \"x{f_text(1)}y\"\nS {s}.\n{f_seq()} {f_seq()}\n* [w{f_str(1,2)}] -> END\n",
    ),
    (
        "fallbacks",
        "-> hub\n== hub\n* -> more\n== more\nMore.\n* [x] -> hub\n* ->\n  End {f_add(1, 1)}.\n  -> END\n",
    ),
];

fn known(r: &Report) {
    let t = table();
    par_each(r, &STORIES.iter().collect::<Vec<_>>(), |(name, body)| {
        let src = format!("{body}{FUNCS}");
        let p = match from_source(name, &src) {
            Ok(p) => p,
            Err(e) => {
                r.engine_error(format!("{name}: {e}"));
                return;
            }
        };
        let cfg = Cfg {
            seed: Some(1),
            handler: true,
            ..Default::default()
        };
        let paths = enumerate(&p, &cfg, &[], &play_moves, r.tier.pick(40, 400), 10, 30);
        for path in &paths.paths {
            for at in 0..=path.len() {
                for (i, (a, _)) in t.iter().enumerate() {
                    // Pairs of calls, one after the other.
                    for j in 0..t.len() {
                        if r.tier == Tier::Quick && (i + j + at) % 4 != 0 && i != j {
                            continue;
                        }
                        if r.stop() {
                            return;
                        }
                        let Ok(mut h) = Host::new(&p, &cfg) else {
                            return;
                        };
                        for op in &path[..at] {
                            h.apply(op);
                        }
                        r.states(1);
                        for k in [i, j] {
                            let res = h.apply(&t[k].0);
                            r.transitions(1);
                            if !t[k].1.contains(&res.as_str()) {
                                r.violation(
                                    &format!("known:{name}:{}:{}", t[k].0, show_ops(&path[..at])),
                                    format!("{}before operation {at} (calls {a}; {}): {} returns {res}, expected {:?}", describe(&p, &cfg, path), t[j].0, t[k].0, t[k].1),
                                );
                                return;
                            }
                        }
                    }
                }
            }
        }
        let mut done = std::collections::HashSet::new();
        for path in &paths.paths {
            check(r, &p, &cfg, path, &mut done);
        }
        r.sample(json!({"story": name, "histories": paths.paths.len(), "calls": t.len()}));
    });
}

pub fn run(r: &Report) {
    r.assume("a save contains the whole state of a story (checked by C02)");
    known(r);
    let progs = programs(r);
    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        // Externals that count their calls are state the host keeps.
        if p.funcs.is_empty() || p.externals.iter().any(|e| e.0.contains("count")) {
            continue;
        }
        for handler in [false, true] {
            tasks.push((i, handler, false));
        }
        if p.has("flows") {
            tasks.push((i, true, true));
        }
    }
    r.count("programs with functions", tasks.len() as u64 / 2);
    par_each(r, &tasks, |(i, handler, flows)| {
        let p = &progs[*i];
        let cfg = Cfg {
            seed: Some(42),
            handler: *handler,
            observe_all: true,
            ..Default::default()
        };
        let cap = if is_big(p) {
            r.tier.pick(2, 6)
        } else {
            r.tier.pick(12, 150)
        };
        let paths = if *flows {
            enumerate(p, &cfg, &[], &flow_alphabet(p), r.tier.pick(40, 600), 4, 10)
        } else {
            enumerate(
                p,
                &cfg,
                &[],
                &play_moves,
                cap,
                40,
                if is_big(p) { 25 } else { 40 },
            )
        };
        r.transitions(paths.steps);
        let mut done = std::collections::HashSet::new();
        for path in &paths.paths {
            check(r, p, &cfg, path, &mut done);
        }
    });
}
