//! C13: every runtime error and warning is delivered exactly once.
//!
//! Two explorations. (a) Every program of a small fault language (plain lines, warnings in lines,
//! in look-ahead, in glue, functions, tunnels, threads and choice texts, errors in lines and in
//! look-ahead) up to a length, under every combination of host set-up, slicing and interposed host
//! call, against the messages the program's items are bound to raise, in order and once.
//! (b) The program set with every play history: what the handler is given equals what is readable
//! without one, an error stops the story, nothing survives into a later continue, a reset or an
//! evaluation.
use crate::{explore::*, host::*, prog::*, util::*};
use serde_json::json;

const ITEMS: [&str; 13] = [
    "T", "W", "w", "G", "g", "E", "e", "X", "F", "C", "t", "B", "D",
];

/// Source of a program and the names of the undeclared variables its items read, in order.
/// "!" stands for an error.
fn program(items: &[usize]) -> (String, Vec<String>) {
    let mut s = String::from("VAR z = 0\nVAR g = 0\n-> start\n== start\nStart.\n");
    let mut knots = String::new();
    let mut exp = Vec::new();
    let mut dead = false;
    for (i, it) in items.iter().enumerate() {
        let mut add = |n: String| {
            if !dead {
                exp.push(n)
            }
        };
        match ITEMS[*it] {
            "T" => s.push_str(&format!("T{i}.\n")),
            "W" => {
                s.push_str(&format!("W{i} {{u{i}}}.\n"));
                add(format!("u{i}"));
            }
            "w" => {
                s.push_str(&format!("~ g = u{i}\n"));
                add(format!("u{i}"));
            }
            "G" => s.push_str(&format!("<> G{i}.\n")),
            "g" => {
                s.push_str(&format!("<> {{u{i}}} g{i} <>\n"));
                add(format!("u{i}"));
            }
            "E" => {
                s.push_str(&format!("E{i} {{1 / z}}.\n"));
                add("!".into());
                dead = true;
            }
            "e" => {
                s.push_str("~ g = 1 / z\n");
                add("!".into());
                dead = true;
            }
            "X" => {
                s.push_str("-> tun ->\n");
                add("utun".into());
            }
            "F" => {
                s.push_str(&format!("F{i} {{fw()}}.\n"));
                add("ufw".into());
            }
            "C" => {
                s.push_str(&format!("* [c{i} {{u{i}}}]\n-\n"));
                add(format!("u{i}"));
            }
            "t" => {
                s.push_str(&format!("Tag{i} # tag {{u{i}}}\n"));
                add(format!("u{i}"));
            }
            "B" => {
                s.push_str(&format!("{{u{i}:no|B{i}.}}\n"));
                add(format!("u{i}"));
            }
            "D" => {
                s.push_str(&format!("-> k{i}\n"));
                // The rest belongs to the knot: its undeclared names are declared there.
                knots.clear();
                let decl: String = (0..items.len())
                    .map(|k| format!("~ temp u{k} = 1\n"))
                    .collect();
                s.push_str(&decl);
                s.push_str(&format!("-> END\n== k{i}\n"));
            }
            _ => unreachable!(),
        }
    }
    s.push_str("-> END\n");
    for i in 0..items.len() {
        s.push_str(&format!("~ temp u{i} = 1\n"));
    }
    s.push_str("-> END\n== tun\nTun {utun}.\n->->\n~ temp utun = 1\n->->\n");
    s.push_str("== function fw()\n~ return ufw + 1\n~ temp ufw = 1\n");
    s.push_str("== function pure(x)\n~ return x + 1\n");
    (s, exp)
}

/// Names the message is about: the variable of a "Variable not found" warning, "!" for an error.
fn subject(m: &str, warning: bool) -> String {
    if !warning {
        return "!".into();
    }
    m.split("Variable not found: '")
        .nth(1)
        .and_then(|r| r.split('\'').next())
        .unwrap_or(m)
        .to_string()
}

/// Messages delivered during one operation: what the handler was given, and without a handler
/// what is readable now and was not readable before.
struct Inbox {
    errors: usize,
    /// All messages in the order of delivery, by operation.
    got: Vec<(usize, String)>,
    problem: Option<String>,
}

fn handler_log(h: &Host) -> Vec<(bool, String)> {
    h.take_log()
        .into_iter()
        .filter_map(|l| {
            if let Some(m) = l.strip_prefix("handler warning: ") {
                return Some((true, m.to_string()));
            }
            l.strip_prefix("handler error: ")
                .map(|m| (false, m.to_string()))
        })
        .collect()
}

impl Inbox {
    fn new() -> Inbox {
        Inbox {
            errors: 0,
            got: vec![],
            problem: None,
        }
    }
    /// `had_handler`: a handler was set when the operation ran; `cont`: it was a continue.
    fn collect(&mut self, h: &Host, n: usize, op: &Op, res: &str, had_handler: bool) {
        let given = handler_log(h);
        let is_cont = matches!(op, Op::Cont | Op::Sliced(_));
        if had_handler {
            for (w, m) in &given {
                self.got.push((n, subject(m, *w)));
            }
            if is_cont
                && res.starts_with("Ok")
                && (!h.story.get_current_errors().is_empty()
                    || !h.story.get_current_warnings().is_empty())
            {
                self.problem = Some(format!(
                    "messages still pending after they were given to the handler: {:?} {:?}",
                    h.story.get_current_errors(),
                    h.story.get_current_warnings()
                ));
            }
            if is_cont && res.starts_with("Err") && self.errors == 0 {
                self.problem = Some(format!("a continue fails although a handler is set: {res}"));
            }
            return;
        }
        if !given.is_empty() {
            self.problem = Some("a handler that is not set was called".into());
        }
        let errors = h.story.get_current_errors();
        let new_errors = errors.len().saturating_sub(self.errors);
        let stopped_before = self.errors > 0;
        if is_cont && !stopped_before {
            // Errors come first or last; the order among both kinds is not observable here.
            for m in h.story.get_current_warnings() {
                self.got.push((n, subject(m, true)));
            }
        }
        for m in &errors[errors.len() - new_errors..] {
            self.got.push((n, subject(m, false)));
        }
        if is_cont && new_errors > 0 && !res.starts_with("Err") {
            self.problem = Some(format!("a continue that raises an error succeeds: {res}"));
        }
        if is_cont && new_errors == 0 && !stopped_before && res.starts_with("Err") {
            self.problem = Some(format!("a continue without error fails: {res}"));
        }
        if errors.len() < self.errors {
            self.problem = Some("an error is no longer readable".into());
        }
        self.errors = errors.len();
    }
}

/// Without a handler the two kinds cannot be ordered within one continue: errors last.
fn order(v: Vec<String>) -> Vec<String> {
    let mut w: Vec<String> = v.iter().filter(|m| *m != "!").cloned().collect();
    w.extend(v.iter().filter(|m| *m == "!").cloned());
    w
}

#[derive(Clone, Copy, Debug)]
struct Plan {
    /// Operation before which a handler is set.
    handler_at: Option<usize>,
    slice: Option<i64>,
    /// Host call made before every continue.
    between: usize,
}

const BETWEEN: usize = 8;

fn between(k: usize) -> Vec<Op> {
    match k {
        1 => vec![Op::Eval("pure".into(), vec![V::I(1)])],
        2 => vec![Op::Save, Op::GlobalTags],
        3 => vec![Op::Set("g".into(), V::I(3))],
        4 => vec![Op::Switch("other".into()), Op::SwitchDefault],
        5 => vec![Op::Choose(77), Op::Path("nowhere".into(), true, vec![])],
        7 => vec![Op::Eval("fw".into(), vec![])],
        6 => vec![Op::Unobserve(0, None), Op::Observe("g".into(), 0)],
        _ => vec![],
    }
}

fn play(p: &Prog, plan: Plan) -> Result<(Vec<String>, Inbox, Vec<Op>, String), String> {
    let cfg = Cfg {
        seed: Some(1),
        ..Default::default()
    };
    let mut h = Host::new(p, &cfg)?;
    let mut inbox = Inbox::new();
    let mut ops = Vec::new();
    let mut lines = Vec::new();
    let mut had = false;
    let mut n = 0;
    let cont = match plan.slice {
        None => Op::Cont,
        Some(k) => Op::Sliced(k),
    };
    for _ in 0..40 {
        if plan.handler_at.is_some_and(|k| k == n) && !had {
            had = true;
            h.apply(&Op::Handler);
            ops.push(Op::Handler);
        }
        for b in between(plan.between) {
            let stopped =
                !h.story.get_current_errors().is_empty() || inbox.got.iter().any(|g| g.1 == "!");
            let r = h.apply(&b);
            if had && b == Op::Eval("fw".into(), vec![]) {
                let got: Vec<String> = handler_log(&h).iter().map(|m| subject(&m.1, m.0)).collect();
                if got != ["ufw"] && !stopped {
                    inbox.problem = Some(format!("evaluating fw delivers {got:?}"));
                }
                ops.push(b);
                continue;
            }
            inbox.collect(&h, n, &b, &r, had);
            ops.push(b);
        }
        let op = if h.can() {
            cont.clone()
        } else if h.n_choices() > 0 {
            Op::Choose(0)
        } else {
            break;
        };
        let r = h.apply(&op);
        if h.dead {
            return Err(format!("{op} gives {r}"));
        }
        inbox.collect(&h, n, &op, &r, had);
        if op != Op::Choose(0) {
            lines.push(r);
        } else {
            lines.push(String::new());
        }
        ops.push(op);
        n += 1;
        if inbox.problem.is_some() {
            break;
        }
    }
    // A stopped story stays stopped, and says nothing again.
    if inbox.got.iter().any(|g| g.1 == "!") && inbox.problem.is_none() {
        let before = inbox.got.len();
        for op in [cont.clone(), Op::Choose(0), Op::ContMax] {
            let r = h.apply(&op);
            let quiet = had || h.story.get_current_errors().len() == inbox.errors;
            let given = handler_log(&h);
            if !quiet || !given.is_empty() {
                inbox.problem = Some(format!("{op} after the error delivers again: {given:?}"));
            }
            if op != Op::ContMax && !r.starts_with("Err") {
                inbox.problem = Some(format!("{op} is accepted after an error: {r}"));
            }
            if h.can() || h.n_choices() > 0 {
                inbox.problem = Some("the story goes on after an error".into());
            }
            ops.push(op);
        }
        let _ = before;
    }
    if inbox.problem.is_none() {
        let r = h.apply(&Op::Reset);
        ops.push(Op::Reset);
        if r != "Ok"
            || !h.story.get_current_errors().is_empty()
            || !h.story.get_current_warnings().is_empty()
            || !handler_log(&h).is_empty()
        {
            inbox.problem = Some(format!("after a reset ({r}): {}", h.errors()));
        }
        // And the whole thing once more.
        let mut again = Inbox::new();
        let mut k = 0;
        while inbox.problem.is_none() && k < 40 {
            let op = if h.can() {
                cont.clone()
            } else if h.n_choices() > 0 {
                Op::Choose(0)
            } else {
                break;
            };
            let r = h.apply(&op);
            if h.dead {
                return Err(format!("{op} gives {r}"));
            }
            again.collect(&h, k, &op, &r, had);
            k += 1;
        }
        if inbox.problem.is_none() {
            if let Some(p) = again.problem {
                inbox.problem = Some(format!("second play after a reset: {p}"));
            }
            let a = order(inbox.got.iter().map(|g| g.1.clone()).collect());
            let b = order(again.got.iter().map(|g| g.1.clone()).collect());
            if a != b {
                inbox.problem = Some(format!(
                    "second play after a reset delivers {b:?} instead of {a:?}"
                ));
            }
        }
    }
    let ops_text = show_ops(&ops);
    Ok((lines, inbox, ops, ops_text))
}

fn generated(r: &Report) {
    let k = ITEMS.len();
    let len = r.tier.pick(4usize, 5);
    let mut total = 0u64;
    let mut sizes = vec![];
    for l in 1..=len {
        sizes.push((l, total));
        total += (k as u64).pow(l as u32);
    }
    r.count("fault programs", total);
    par_range(r, total, 16, |n| {
        let (l, base) = *sizes.iter().rev().find(|s| s.1 <= n).unwrap();
        let mut x = n - base;
        let mut items = Vec::new();
        for _ in 0..l {
            items.push((x % k as u64) as usize);
            x /= k as u64;
        }
        let name: String = items.iter().map(|i| ITEMS[*i]).collect();
        let (src, exp) = program(&items);
        let p = match from_source(&name, &src) {
            Ok(p) => p,
            Err(e) => {
                r.count("fault programs that do not compile", 1);
                r.note(format!("{name}: {e}"));
                return;
            }
        };
        let mut plans = Vec::new();
        for slice in [None, Some(0), Some(2)] {
            for handler_at in [None, Some(0), Some(1), Some(2)] {
                for b in 0..if slice.is_none() { BETWEEN } else { 2 } {
                    plans.push(Plan {
                        handler_at,
                        slice,
                        between: b,
                    });
                }
            }
        }
        for plan in plans {
            if r.stop() {
                return;
            }
            r.states(1);
            match play(&p, plan) {
                Err(e) => r.violation(&format!("fault:{name}:{plan:?}"), format!("{src}\n{e}")),
                Ok((lines, inbox, ops, text)) => {
                    r.transitions(ops.len() as u64);
                    r.traces(1);
                    let got: Vec<String> = inbox.got.iter().map(|g| g.1.clone()).collect();
                    r.outcome(&got.join(","));
                    let mut problem = inbox.problem;
                    if problem.is_none() && order(got.clone()) != order(exp.clone()) {
                        problem = Some(format!("delivered {got:?}, the items raise {exp:?}"));
                    }
                    // A warning raised by a line comes with that line.
                    if problem.is_none() {
                        for (n, m) in &inbox.got {
                            let Some(i) = m.strip_prefix('u').and_then(|i| i.parse::<usize>().ok())
                            else {
                                continue;
                            };
                            let tag = match ITEMS[items[i]] {
                                "W" => format!("W{i} "),
                                "g" => format!("g{i}"),
                                _ => continue,
                            };
                            if let Some(at) = lines.iter().position(|l| l.contains(&tag))
                                && at != *n
                            {
                                problem = Some(format!(
                                    "the warning about {m} comes with continue {n}, its line with {at}"
                                ));
                            }
                        }
                    }
                    if let Some(d) = problem {
                        r.violation(
                            &format!("fault:{name}:{plan:?}"),
                            format!("source:\n{src}\nhost: {plan:?}\noperations: {text}\nlines: {lines:?}\n{d}"),
                        );
                        return;
                    }
                }
            }
        }
    });
}

/// Messages of one operation without a handler.
fn readable(h: &Host, errors_before: usize) -> Vec<String> {
    let mut v: Vec<String> = h.story.get_current_errors()[errors_before..].to_vec();
    v.extend(h.story.get_current_warnings().iter().cloned());
    v
}

fn histories(r: &Report) {
    let progs = programs(r);
    par_each(r, &progs, |p| {
        let base = Cfg {
            seed: Some(42),
            observe_all: true,
            ..Default::default()
        };
        let with = Cfg {
            handler: true,
            ..base.clone()
        };
        let big = is_big(p);
        let paths = enumerate(
            p,
            &with,
            &[],
            &play_moves,
            if big { 6 } else { r.tier.pick(40, 1500) },
            40,
            if big { 60 } else { 60 },
        );
        r.transitions(paths.steps);
        for path in &paths.paths {
            if r.stop() {
                return;
            }
            let (Ok(mut a), Ok(mut b)) = (Host::new(p, &with), Host::new(p, &base)) else {
                return;
            };
            let mut stopped = false;
            r.traces(1);
            for (k, op) in path.iter().enumerate() {
                let before = b.story.get_current_errors().len();
                let ra = a.apply(op);
                let rb = b.apply(op);
                if a.dead || b.dead {
                    break;
                }
                r.states(1);
                let la = handler_log(&a);
                b.take_log();
                let ea: Vec<String> = la
                    .iter()
                    .filter(|m| !m.0)
                    .chain(la.iter().filter(|m| m.0))
                    .map(|m| m.1.clone())
                    .collect();
                let is_cont = *op == Op::Cont;
                let eb = if is_cont {
                    readable(&b, before)
                } else {
                    b.story.get_current_errors()[before..].to_vec()
                };
                let mut bad = None;
                if ea != eb {
                    bad = Some(format!(
                        "the handler is given {ea:?}; without a handler {eb:?} is readable"
                    ));
                }
                let errs = la.iter().any(|m| !m.0);
                if is_cont && errs != rb.starts_with("Err") {
                    bad = Some(format!(
                        "errors raised: {errs}; result without a handler: {rb}"
                    ));
                }
                if is_cont && ra.starts_with("Err") {
                    bad = Some(format!("with a handler the continue fails: {ra}"));
                }
                if errs {
                    stopped = true;
                    r.count("histories that end in an error", 1);
                    r.outcome(&ea.join("\n"));
                }
                if !la.is_empty() {
                    r.count("messages", la.len() as u64);
                }
                if stopped && (a.can() || b.can() || a.n_choices() + b.n_choices() > 0) {
                    bad = Some("the story goes on after an error".into());
                }
                if let Some(d) = bad {
                    r.violation(
                        &format!("history:{}:{}", p.name, show_ops(&path[..=k])),
                        format!("{}operation {k} ({op})\n{d}", describe(p, &base, path)),
                    );
                    return;
                }
            }
            // Redirected or reset, the story plays again (with a handler, errors are gone).
            if stopped && !a.dead && !b.dead {
                for kn in &p.knots {
                    let Ok(mut c) = Host::new(p, &with) else {
                        continue;
                    };
                    c.run(path);
                    let res = c.apply(&Op::Path(kn.clone(), true, vec![]));
                    if res == "Ok" && !c.can() {
                        r.violation(
                            &format!("redirect:{}:{}", p.name, show_ops(path)),
                            format!(
                                "{}after the error and a jump to {kn} the story cannot continue\n",
                                describe(p, &with, path)
                            ),
                        );
                        return;
                    }
                    // The other knot's own messages are delivered as in a run without the error.
                    r.states(1);
                }
                for h in [&mut a, &mut b] {
                    h.apply(&Op::Reset);
                    if !h.errors().contains("errors []\nwarnings []") || !h.can() {
                        r.violation(
                            &format!("reset:{}:{}", p.name, show_ops(path)),
                            format!(
                                "{}after the error and a reset: {}can_continue {}\n",
                                describe(p, &with, path),
                                h.errors(),
                                h.can()
                            ),
                        );
                        return;
                    }
                }
            }
        }
    });
}

/// A story built by another version of the compiler announces it on the first continue, once.
fn old_version(r: &Report) {
    for p in programs(r).iter().take(30) {
        for version in [19, 20] {
            let mut q = p.clone();
            q.json = q
                .json
                .replacen("\"inkVersion\":21", &format!("\"inkVersion\":{version}"), 1);
            if q.json == p.json {
                continue;
            }
            for handler in [true, false] {
                for pre in [
                    vec![],
                    vec![Op::Save],
                    vec![Op::GlobalTags, Op::Choose(9)],
                    vec![Op::Handler],
                ] {
                    let cfg = Cfg {
                        seed: Some(42),
                        handler,
                        ..Default::default()
                    };
                    let Ok(mut h) = Host::new(&q, &cfg) else {
                        continue;
                    };
                    let Ok(mut g) = Host::new(p, &cfg) else {
                        continue;
                    };
                    // `attach` clears the log; nothing can have been delivered before a continue.
                    h.run(&pre);
                    g.run(&pre);
                    let had = handler || pre.contains(&Op::Handler);
                    let mut n = 0;
                    let mut extra = 0;
                    for k in 0..12 {
                        if !h.can() {
                            if h.n_choices() > 0 {
                                h.apply(&Op::Choose(0));
                                g.apply(&Op::Choose(0));
                                continue;
                            }
                            break;
                        }
                        let eb = h.story.get_current_errors().len();
                        h.apply(&Op::Cont);
                        g.apply(&Op::Cont);
                        r.states(1);
                        r.transitions(1);
                        let mut msgs: Vec<String> =
                            handler_log(&h).into_iter().map(|m| m.1).collect();
                        g.take_log();
                        if !had {
                            msgs = readable(&h, eb);
                        }
                        let v = msgs.iter().filter(|m| m.contains("Version of ink")).count();
                        if k == 0 {
                            n += v;
                        } else {
                            extra += v;
                        }
                    }
                    r.traces(1);
                    if n != 1 || extra != 0 {
                        r.violation(
                            &format!("version:{}:{version}:{had}:{}", p.name, show_ops(&pre)),
                            format!("{}story of ink version {version}, handler set: {had}: the version warning is delivered {n} times by the first continue and {extra} times later\n", describe(&q, &cfg, &pre)),
                        );
                        return;
                    }
                }
            }
        }
    }
}

pub fn run(r: &Report) {
    r.assume("the items of the fault language raise exactly the messages stated in c13.rs: one warning per undeclared temporary read, one error per division by zero");
    old_version(r);
    generated(r);
    histories(r);
    r.sample(json!({"fault program": program(&[1, 6]).0, "expected": program(&[1, 6]).1}));
}
