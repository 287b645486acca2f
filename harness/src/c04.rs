//! C04: story faults are reported as errors; the runtime never panics.
//!
//! Every case of the enumerated spaces is compiled and played along every choice path by two
//! child processes, one built with overflow checks and one without: operators and built-in
//! functions over every kind of operand in every context, faulty diverts, tunnels, threads and
//! returns in every position, every host call after every play history, and every single-place
//! mutation of programs that still compiles. A panic or a dying child is a violation, and so is
//! any difference between the two builds. Wherever an error was reported the story is reset and
//! must play as a fresh one. Integer results are compared with 32-bit wrapping arithmetic.
use crate::{c15::replay, explore::*, host::*, prog::*, util::*, worker::*};
use serde_json::{Value, json};
use std::{cell::RefCell, collections::HashMap, path::PathBuf, time::Duration};

// ---------------------------------------------------------------- the child

#[derive(Default)]
struct Seen {
    steps: u64,
    errors: u64,
    resets: u64,
    bad: Vec<(String, String)>,
    text: String,
    /// The last operation succeeded.
    ok: bool,
}

fn line(s: &str) -> &str {
    s.lines().find(|l| l.contains("PANIC")).unwrap_or(s)
}

impl Seen {
    fn bad(&mut self, what: String, how: String) {
        if self.bad.len() < 20 {
            self.bad.push((what, how));
        }
    }

    /// Performs one operation; true if an error was reported.
    fn act(&mut self, h: &mut Host, op: &Op, history: &dyn Fn() -> String) -> bool {
        let mut s = step(h, op);
        if !h.dead {
            s.push_str(&h.errors());
        }
        self.steps += 1;
        if s.contains("PANIC ") {
            self.bad(
                format!("panic: {}", line(&s)),
                format!("{}; {op}", history()),
            );
        }
        let result = s.lines().nth(1).unwrap_or("");
        self.ok = result.starts_with("Ok");
        let err = result.starts_with("Err(")
            || s.contains("\n! handler error")
            || !s.contains("errors []");
        self.text.push_str(&s);
        if err {
            self.errors += 1;
        }
        err
    }

    /// After an error: reset, and play as a fresh story.
    fn reset(&mut self, mut h: Host, fresh: &[String], history: &dyn Fn() -> String) {
        if h.dead {
            return;
        }
        self.resets += 1;
        h.restart_externals();
        let r = h.apply(&Op::Reset);
        if r != "Ok" {
            return self.bad(format!("reset after an error: {r}"), history());
        }
        h.take_log();
        let again = replay(&mut h, fresh.len().saturating_sub(1));
        if let Some((i, d)) = compare(fresh, &again) {
            self.bad(
                format!("reset after an error differs from fresh at {i} (fresh < > reset)\n{d}"),
                history(),
            );
        }
    }
}

fn fresh(p: &Prog, cfg: &Cfg, sticky: &[Op]) -> Vec<String> {
    match Host::new(p, cfg) {
        Ok(mut h) => {
            h.run(sticky);
            h.take_log();
            h.restart_externals();
            replay(&mut h, 8)
        }
        Err(_) => vec![],
    }
}

/// Every play of a program, to a depth.
fn plays(p: &Prog, cfg: &Cfg, depth: usize, mut budget: usize, expect: Option<&str>) -> Seen {
    let mut seen = Seen::default();
    let base = match catch(|| fresh(p, cfg, &[])) {
        Ok(f) => f,
        Err(e) => {
            seen.bad(format!("panic: {e}"), "loading".into());
            return seen;
        }
    };
    let mut stack: Vec<Vec<Op>> = vec![vec![]];
    while let Some(path) = stack.pop() {
        if budget == 0 {
            break;
        }
        budget -= 1;
        let mut h = match Host::new(p, cfg) {
            Ok(h) => h,
            Err(e) => {
                if e.contains("PANIC") {
                    seen.bad(format!("panic: {e}"), "loading".into());
                }
                break;
            }
        };
        let mut erred = false;
        let mut done: Vec<Op> = Vec::new();
        let mut at = 0;
        loop {
            let op = if at < path.len() {
                path[at].clone()
            } else {
                let m = h.moves();
                if m.len() == 1 && done.len() < depth {
                    m[0].clone()
                } else {
                    if done.len() < depth {
                        for op in m.into_iter().rev() {
                            let mut q = done.clone();
                            q.push(op);
                            stack.push(q);
                        }
                    }
                    break;
                }
            };
            let known = at < path.len().saturating_sub(1);
            at += 1;
            if known {
                // Already observed on the path this one continues.
                erred |= h.apply(&op).starts_with("Err(");
            } else {
                erred |= seen.act(&mut h, &op, &|| show_ops(&done));
            }
            if let (Some(e), true) = (expect, done.is_empty()) {
                let got = h.screen();
                let want = if e == "ERR" {
                    erred
                } else {
                    !erred && got.contains(&format!("text Ok({:?})\n", format!("{e}\n")))
                };
                if !want {
                    seen.bad(format!("expected {e}"), format!("got {got}{}", h.errors()));
                }
            }
            done.push(op);
            if h.dead {
                break;
            }
        }
        if erred {
            seen.reset(h, &base, &|| show_ops(&done));
        }
    }
    seen
}

const ODD_PATHS: [&str; 16] = [
    "nope",
    "",
    ".",
    "..",
    ".^",
    ".^.^.^",
    "0",
    "99",
    "-1",
    "nope.nope",
    "global decl",
    "a b",
    "0.0.0.0",
    "é",
    "18446744073709551616",
    "0.c-0",
];

/// Every host call worth making after a history.
pub fn alphabet(p: &Prog, h: &Host) -> Vec<Op> {
    let values = [
        V::I(i32::MAX),
        V::F(1.5),
        V::B(true),
        V::S("x".into()),
        V::EmptyList,
    ];
    let mut out = vec![
        Op::Cont,
        Op::ContMax,
        Op::Async(0),
        Op::Async(1),
        Op::Async(3),
        Op::Choose(usize::MAX),
        Op::SwitchDefault,
        Op::Switch("f".into()),
        Op::Switch("".into()),
        Op::Switch("DEFAULT_FLOW".into()),
        Op::RemoveFlow("f".into()),
        Op::RemoveFlow("DEFAULT_FLOW".into()),
        Op::Set("nope".into(), V::I(1)),
        Op::Eval("nope".into(), vec![]),
        Op::Eval("".into(), vec![]),
        Op::Eval("  ".into(), vec![]),
        Op::Save,
        Op::LoadSaved,
        Op::LoadText("{}".into()),
        Op::LoadText("".into()),
        Op::Reload,
        Op::Reset,
        Op::Observe("nope".into(), 1),
        Op::Unobserve(1, None),
        Op::Unobserve(0, Some("nope".into())),
        Op::Bind("nope".into(), true),
        Op::Unbind("nope".into()),
        Op::Fallbacks(true),
        Op::Handler,
        Op::GlobalTags,
    ];
    for i in 0..=h.n_choices() {
        out.push(Op::Choose(i));
    }
    for v in p.vars.iter().take(6) {
        for x in &values {
            out.push(Op::Set(v.clone(), x.clone()));
        }
        for w in p.vars.iter().take(3) {
            if v != w {
                out.push(Op::Set(v.clone(), V::Var(w.clone())));
            }
        }
        out.push(Op::Observe(v.clone(), 1));
        out.push(Op::Unobserve(0, Some(v.clone())));
    }
    for (n, k) in &p.externals {
        out.push(Op::Unbind(n.clone()));
        out.push(Op::Bind(n.clone(), k != "safe"));
    }
    let args: [Vec<V>; 4] = [
        vec![],
        vec![V::I(0)],
        vec![V::S("x".into()), V::F(0.5), V::B(false)],
        vec![V::EmptyList; 2],
    ];
    for (f, n) in p.funcs.iter().take(6) {
        for a in &args {
            out.push(Op::Eval(f.clone(), a.clone()));
        }
        out.push(Op::Eval(f.clone(), vec![V::I(3); *n]));
        out.push(Op::Path(f.clone(), true, vec![]));
    }
    for k in p.knots.iter().take(8) {
        out.push(Op::Eval(k.clone(), vec![]));
        out.push(Op::Path(k.clone(), true, vec![]));
        out.push(Op::Path(k.clone(), false, vec![]));
        out.push(Op::Path(k.clone(), true, vec![V::EmptyList, V::I(2)]));
        out.push(Op::Path(format!("{k}.nope"), true, vec![]));
        out.push(Op::TagsAt(k.clone()));
        out.push(Op::Visit(k.clone()));
    }
    for c in p.counted.iter().take(5) {
        out.push(Op::Path(c.clone(), true, vec![]));
        out.push(Op::Path(format!("{c}.0"), false, vec![]));
        out.push(Op::TagsAt(c.clone()));
    }
    for o in ODD_PATHS {
        out.push(Op::Path(o.into(), true, vec![]));
        out.push(Op::Path(o.into(), false, vec![]));
        out.push(Op::TagsAt(o.into()));
        out.push(Op::Visit(o.into()));
    }
    out
}

fn sticky(op: &Op) -> bool {
    matches!(
        op,
        Op::Observe(..)
            | Op::Unobserve(..)
            | Op::Bind(..)
            | Op::Unbind(_)
            | Op::Fallbacks(_)
            | Op::Handler
    )
}

/// Every host call (every pair of calls) after every history of a program.
fn calls(p: &Prog, cfg: &Cfg, req: &Value) -> (Seen, u64) {
    let n = |k: &str| req[k].as_u64().unwrap_or(0) as usize;
    let paths = enumerate(p, cfg, &[], &play_moves, n("cap"), 12, 40);
    let mut histories: Vec<Vec<Op>> = Vec::new();
    for q in &paths.paths {
        for k in 0..=q.len() {
            if !histories.iter().any(|h| h == &q[..k]) {
                histories.push(q[..k].to_vec());
            }
        }
    }
    histories.sort_by_key(|h| h.len());
    let every = histories.len().div_ceil(n("histories").max(1)).max(1);
    let histories: Vec<Vec<Op>> = histories.into_iter().step_by(every).collect();
    let (from, to) = (n("from") as u64, n("to") as u64);
    let pairs = req["pairs"] == true;
    let mut seen = Seen::default();
    let mut at = 0u64;
    let mut cache: HashMap<String, Vec<String>> = HashMap::new();
    let mut hashes = String::new();
    for hist in &histories {
        let Ok(mut h) = Host::new(p, cfg) else { break };
        h.run(hist);
        if h.dead {
            continue;
        }
        let first = alphabet(p, &h);
        let mut work: Vec<Vec<Op>> = Vec::new();
        for op in &first {
            if pairs {
                let Ok(mut h) = Host::new(p, cfg) else { break };
                h.run(hist);
                h.apply(op);
                if h.dead {
                    continue;
                }
                for op2 in alphabet(p, &h) {
                    work.push(vec![op.clone(), op2]);
                }
            } else {
                work.push(vec![op.clone()]);
            }
        }
        for ops in work {
            at += 1;
            if at <= from || to > 0 && at > to {
                continue;
            }
            let Ok(mut h) = Host::new(p, cfg) else { break };
            h.run(hist);
            let mut done = hist.clone();
            let mut erred = false;
            let mut st: Vec<Op> = Vec::new();
            seen.text.clear();
            for op in &ops {
                erred |= seen.act(&mut h, op, &|| show_ops(&done));
                done.push(op.clone());
                if sticky(op) && seen.ok {
                    st.push(op.clone());
                }
            }
            let mut left = 10;
            while left > 0 && !h.dead {
                left -= 1;
                let m = h.moves();
                let Some(op) = m.last().cloned() else { break };
                erred |= seen.act(&mut h, &op, &|| show_ops(&done));
                done.push(op);
            }
            if erred && !h.dead {
                let f = cache
                    .entry(show_ops(&st))
                    .or_insert_with(|| fresh(p, cfg, &st));
                seen.reset(h, f, &|| show_ops(&done));
            }
            hashes.push_str(&format!("{:x} ", fnv(&seen.text)));
            if req["show"] == true {
                hashes.push_str(&format!("{}\n{}\n", show_ops(&done), seen.text));
            }
        }
    }
    seen.text = hashes;
    (seen, at)
}

pub fn answer(req: &Value) -> Value {
    let show = req["show"] == true;
    let depth = req["depth"].as_u64().unwrap_or(10) as usize;
    let budget = req["budget"].as_u64().unwrap_or(10) as usize;
    let cfg = Cfg {
        seed: Some(42),
        handler: req["handler"] == true,
        no_bind: req["no_bind"] == true,
        ..Default::default()
    };
    let mut bad: Vec<Value> = Vec::new();
    let mut hashes: Vec<String> = Vec::new();
    let (mut compiled, mut steps, mut errors, mut resets, mut total) = (0u64, 0, 0, 0, 0);
    for (i, c) in req["cases"].as_array().into_iter().flatten().enumerate() {
        let src = c["s"].as_str().unwrap_or("");
        let p = match c["j"].as_str() {
            Some(j) => Prog::from_json("case", src, j),
            None => match from_source("case", src) {
                Ok(p) => p,
                Err(_) => {
                    hashes.push("-".into());
                    continue;
                }
            },
        };
        compiled += 1;
        let seen = if req["kind"] == "calls" {
            let (s, n) = calls(&p, &cfg, req);
            total += n;
            s
        } else {
            plays(&p, &cfg, depth, budget, c["e"].as_str())
        };
        steps += seen.steps;
        errors += seen.errors;
        resets += seen.resets;
        for (what, how) in seen.bad {
            bad.push(json!([i, what, how]));
        }
        hashes.push(if show {
            seen.text
        } else {
            format!("{:x}", fnv(&seen.text))
        });
    }
    json!({"bad": bad, "hashes": hashes, "compiled": compiled, "steps": steps, "errors": errors,
        "resets": resets, "total": total, "checked": cfg!(debug_assertions)})
}

// ---------------------------------------------------------------- the parent

thread_local! {
    static WORKERS: RefCell<[Option<Worker>; 2]> = const { RefCell::new([None, None]) };
}

pub fn exe(release: bool) -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    if release {
        let top = exe.parent().and_then(|p| p.parent()).unwrap();
        top.join("release/mc")
    } else {
        exe
    }
}

pub fn ask(release: bool, req: &Value, secs: u64) -> Result<Value, String> {
    WORKERS.with(|w| {
        w.borrow_mut()[release as usize]
            .get_or_insert_with(|| Worker::new(&exe(release)))
            .ask(req, Duration::from_secs(secs))
    })
}

#[derive(Clone)]
pub struct Case {
    name: String,
    src: String,
    json: Option<String>,
    expect: Option<String>,
}

impl Case {
    fn new(name: impl Into<String>, src: impl Into<String>) -> Case {
        Case {
            name: name.into(),
            src: src.into(),
            json: None,
            expect: None,
        }
    }
    fn value(&self) -> Value {
        let mut v = json!({"s": self.src});
        if let Some(j) = &self.json {
            v["j"] = json!(j);
        }
        if let Some(e) = &self.expect {
            v["e"] = json!(e);
        }
        v
    }
}

/// The kind of a fault, to report every cause once.
fn cause(m: &str) -> String {
    let l = if m.contains("PANIC") || m.starts_with("panic") {
        line(m)
    } else {
        m
    };
    l.chars()
        .map(|c| if c.is_ascii_digit() { '0' } else { c })
        .take(120)
        .collect::<String>()
        .replace('\n', " ")
}

fn report(r: &Report, class: &str, c: &Case, build: &str, what: &str, how: &str) {
    r.violation(
        &format!("{class}:{}", cause(what)),
        format!(
            "{build}: {what}\nhistory: {how}\n-- {}\n{}\n",
            c.name,
            c.src
                .lines()
                .take(150)
                .map(|l| format!("    {l}\n"))
                .collect::<String>()
        ),
    );
}

fn batch(r: &Report, class: &str, extra: &Value, cases: &[Case]) {
    if cases.is_empty() || r.stop() {
        return;
    }
    let mut req = json!({"cmd": "c04", "cases": cases.iter().map(Case::value).collect::<Vec<_>>()});
    for (k, v) in extra.as_object().into_iter().flatten() {
        req[k] = v.clone();
    }
    let secs = if extra["kind"] == "calls" { 200 } else { 60 };
    let mut got = Vec::new();
    for release in [false, true] {
        let build = if release { "release" } else { "debug" };
        match ask(release, &req, secs) {
            Ok(v) => {
                for b in v["bad"].as_array().into_iter().flatten() {
                    let i = b[0].as_u64().unwrap_or(0) as usize;
                    report(
                        r,
                        class,
                        &cases[i],
                        build,
                        b[1].as_str().unwrap_or("?"),
                        b[2].as_str().unwrap_or("?"),
                    );
                }
                if !release {
                    let n = |k: &str| v[k].as_u64().unwrap_or(0);
                    r.states(n("compiled").max(n("total")));
                    r.transitions(n("steps"));
                    r.traces(n("compiled"));
                    r.count(class, cases.len() as u64);
                    r.count("compiled", n("compiled"));
                    r.count("host calls tried", n("total"));
                    r.count("errors reported", n("errors"));
                    r.count("resets compared", n("resets"));
                    for h in v["hashes"].as_array().into_iter().flatten() {
                        r.outcome(h.as_str().unwrap_or(""));
                    }
                }
                got.push(v);
            }
            Err(e) if e.starts_with("ENGINE") => return r.engine_error(e),
            Err(e) if cases.len() == 1 => {
                if e == "timeout" {
                    r.note(format!("{}: no answer in time ({build})", cases[0].name));
                    r.count("no answer in time", 1);
                    return;
                }
                if extra["kind"] == "calls" {
                    return narrow(r, class, extra, &cases[0], release, &e);
                }
                return report(r, class, &cases[0], build, &format!("the process {e}"), "");
            }
            Err(_) => {
                let (a, b) = cases.split_at(cases.len() / 2);
                batch(r, class, extra, a);
                batch(r, class, extra, b);
                return;
            }
        }
    }
    if got[0]["hashes"] == got[1]["hashes"] {
        return;
    }
    for (i, c) in cases.iter().enumerate() {
        if got[0]["hashes"][i] == got[1]["hashes"][i] {
            continue;
        }
        let mut one = req.clone();
        one["cases"] = json!([c.value()]);
        one["show"] = true.into();
        let (Ok(a), Ok(b)) = (ask(false, &one, secs), ask(true, &one, secs)) else {
            continue;
        };
        let d = first_diff(
            a["hashes"][0].as_str().unwrap_or(""),
            b["hashes"][0].as_str().unwrap_or(""),
        );
        report(
            r,
            class,
            c,
            "debug < > release",
            &format!("the builds differ\n{d}"),
            "",
        );
    }
}

/// Finds the host call that kills the process.
fn narrow(r: &Report, class: &str, extra: &Value, c: &Case, release: bool, why: &str) {
    let mut range = (0u64, 1u64 << 20);
    while range.1 - range.0 > 1 {
        let mid = (range.0 + range.1) / 2;
        let mut req = extra.clone();
        req["cmd"] = "c04".into();
        req["cases"] = json!([c.value()]);
        req["from"] = range.0.into();
        req["to"] = mid.into();
        if ask(release, &req, 200).is_err() {
            range.1 = mid;
        } else {
            range.0 = mid;
        }
    }
    report(
        r,
        class,
        c,
        "",
        &format!("the process {why}"),
        &format!("host call number {range:?} of {extra}"),
    );
}

fn run_cases(r: &Report, class: &str, extra: &Value, cases: Vec<Case>) {
    let before = r.counter("compiled");
    let n = cases.len() as u64;
    let chunks: Vec<&[Case]> = cases.chunks(40).collect();
    par_each(r, &chunks, |c| batch(r, class, extra, c));
    let compiled = r.counter("compiled") - before;
    r.note(format!("{class}: {compiled} of {n} programs compile"));
    if compiled * 20 < n && !r.stop() {
        r.engine_error(format!("{class}: hardly any program compiles"));
    }
    phase(r, class);
}

fn phase(r: &Report, what: &str) {
    r.note(format!("{what} done at {:.0} s", r.elapsed()));
}

// ---------------------------------------------------------------- expressions

const TAIL: &str = "\
-> main
== k
K.
->->
== kk(p)
KK {p}.
-> DONE
== function id(v)
~ return v
== function void(v)
~ x = x
== function inc(ref v)
~ v = v + 1
~ return v
== function text_fn(v)
Text {v}.
";

const HEAD: &str = "\
LIST A = a1, (a2), a3
LIST B = b1 = 1, (b2) = 2, b3 = 7
VAR x = 0
VAR y = 0
VAR d = -> k
";

fn operands(thorough: bool) -> Vec<&'static str> {
    let mut v = vec![
        "0",
        "-3",
        "2147483647",
        "(0 - 2147483647 - 1)",
        "1.5",
        "true",
        "\"\"",
        "\"a\"",
        "()",
        "(a1, a3)",
        "(a2, b2)",
        "(A - A)",
        "-> k",
        "void(1)",
        "d",
    ];
    if thorough {
        v.extend([
            "1",
            "2",
            "-1",
            "-0.5",
            "10000000000.0",
            "0.0",
            "false",
            "\"3\"",
            "a3",
            "b3",
            "A",
            "LIST_ALL(b1)",
            "(a1, b1)",
            "LIST_INVERT(LIST_ALL(A))",
            "text_fn(1)",
            "k",
            "-> kk",
            "\"{x}\"",
        ]);
    }
    v
}

const BINARY: [&str; 22] = [
    "+", "-", "*", "/", "%", "mod", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "and", "or", "?",
    "has", "!?", "hasnt", "^", "and not",
];

/// Programs that evaluate an expression in one of the contexts.
const CONTEXTS: [(&str, &str); 18] = [
    ("out", "{@}\n"),
    ("cond", "{@: yes|no}\n"),
    ("assign", "~ x = @\n{x}\n"),
    ("temp", "~ temp t = @\n{t}\n"),
    ("arg", "{id(@)}\n"),
    ("choice", "* {@} [c]\n  chosen\n* other\n"),
    ("string", "~ x = \"s{@}s\"\n{x} {x + 1}\n"),
    ("add to", "~ y = 2\n~ y += @\n{y}\n~ y -= @\n{y}\n"),
    ("statement", "~ id(@)\nafter\n"),
    (
        "switch",
        "{@:\n- 0: zero\n- 1.5: one\n- \"a\": a\n- else: other\n}\n",
    ),
    ("nested", "{id(@) + 1} {not (@)}\n"),
    ("minus", "{-(@)}\n"),
    ("divert arg", "-> kk(@)\n"),
    ("tunnel arg", "-> kk(@) ->\n"),
    ("thread arg", "<- kk(@)\n"),
    ("text", "a {@} b # tag {@}\n"),
    (
        "reference",
        "~ x = @\n~ inc(x)\n{x}\n~ x++\n{x}\n~ x--\n{x}\n",
    ),
    ("choice text", "* a {@} [b {@}] c {@} # t {@}\n"),
];

fn in_context(ctx: &str, e: &str) -> String {
    let body = ctx.replace('@', e);
    format!("{HEAD}{TAIL}== main\n{body}After.\n* [go] More {{x}} {{y}}\n- -> END\n")
}

fn expressions(r: &Report) {
    let thorough = r.tier == Tier::Thorough;
    let mut cases = Vec::new();
    let all = operands(thorough);
    let few = [
        "0",
        "2147483647",
        "1.5",
        "\"a\"",
        "(a2, b2)",
        "()",
        "-> k",
        "void(1)",
    ];
    for op in BINARY {
        for a in &all {
            for b in &all {
                let short = few.contains(a) && few.contains(b);
                for (i, (n, ctx)) in CONTEXTS.iter().enumerate() {
                    if i < 2 || thorough || short && i % 3 == 2 {
                        let e = format!("{a} {op} {b}");
                        cases.push(Case::new(format!("{n}: {e}"), in_context(ctx, &e)));
                    }
                }
            }
        }
    }
    for f in ["-@", "not @", "!@", "(@)", "@"] {
        for a in &all {
            for (n, ctx) in CONTEXTS {
                let e = f.replace('@', a);
                cases.push(Case::new(format!("{n}: {e}"), in_context(ctx, &e)));
            }
        }
    }
    run_cases(r, "operators", &json!({}), cases);

    let mut cases = Vec::new();
    let names = [
        "MIN",
        "MAX",
        "POW",
        "FLOOR",
        "CEILING",
        "INT",
        "FLOAT",
        "RANDOM",
        "SEED_RANDOM",
        "LIST_COUNT",
        "LIST_MIN",
        "LIST_MAX",
        "LIST_ALL",
        "LIST_INVERT",
        "LIST_RANGE",
        "LIST_VALUE",
        "LIST_RANDOM",
        "READ_COUNT",
        "TURNS_SINCE",
        "CHOICE_COUNT",
        "TURNS",
        "A",
        "B",
        "id",
        "inc",
        "void",
        "text_fn",
        "d",
        "k",
        "nothing",
    ];
    for f in names {
        let mut lists: Vec<Vec<&str>> = vec![vec![]];
        for a in &all {
            lists.push(vec![a]);
            for b in &all {
                lists.push(vec![a, b]);
                if f == "LIST_RANGE" || thorough && few.contains(b) {
                    for c in &all {
                        if few.contains(c) || f == "LIST_RANGE" {
                            lists.push(vec![a, b, c]);
                        }
                    }
                }
            }
        }
        for l in lists {
            let e = format!("{f}({})", l.join(", "));
            for (i, (n, ctx)) in CONTEXTS.iter().enumerate() {
                if i == 0 || l.len() < 2 && i < 6 || thorough && l.len() < 3 {
                    cases.push(Case::new(format!("{n}: {e}"), in_context(ctx, &e)));
                }
            }
        }
    }
    run_cases(r, "functions", &json!({}), cases);
}

/// Integer arithmetic against 32-bit wrapping arithmetic, through variables.
fn integers(r: &Report) {
    let mut nums: Vec<i32> = vec![
        0,
        1,
        -1,
        2,
        -2,
        3,
        -3,
        7,
        -7,
        10,
        46340,
        46341,
        -46341,
        65535,
        65536,
        65537,
        -65536,
        i32::MAX,
        i32::MAX - 1,
        i32::MIN,
        i32::MIN + 1,
        1 << 30,
        -(1 << 30),
        1 << 16,
        715827883,
    ];
    if r.tier == Tier::Thorough {
        for k in 0..31 {
            for d in [-1, 0, 1] {
                nums.push((1i32 << k).wrapping_add(d));
                nums.push((1i32 << k).wrapping_add(d).wrapping_neg());
            }
        }
        nums.sort();
        nums.dedup();
    }
    let lit = |n: i32| {
        if n == i32::MIN {
            "0 - 2147483647 - 1".to_string()
        } else {
            n.to_string()
        }
    };
    type F = fn(i32, i32) -> Option<i32>;
    let ops: [(&str, F); 18] = [
        ("x + y", |a, b| Some(a.wrapping_add(b))),
        ("x - y", |a, b| Some(a.wrapping_sub(b))),
        ("x * y", |a, b| Some(a.wrapping_mul(b))),
        ("x / y", |a, b| (b != 0).then(|| a.wrapping_div(b))),
        ("x % y", |a, b| (b != 0).then(|| a.wrapping_rem(b))),
        ("x mod y", |a, b| (b != 0).then(|| a.wrapping_rem(b))),
        ("-x", |a, _| Some(a.wrapping_neg())),
        ("0 - x - y", |a, b| {
            Some(0i32.wrapping_sub(a).wrapping_sub(b))
        }),
        ("x * x + y", |a, b| Some(a.wrapping_mul(a).wrapping_add(b))),
        ("-x * y", |a, b| Some(a.wrapping_neg().wrapping_mul(b))),
        ("add(x, y)", |a, b| Some(a.wrapping_add(b))),
        ("mul(x, y)", |a, b| Some(a.wrapping_mul(b))),
        ("sub(x, y)", |a, b| Some(a.wrapping_sub(b))),
        ("inc(x)", |a, _| Some(a.wrapping_add(1))),
        ("dec(x)", |a, _| Some(a.wrapping_sub(1))),
        ("addto(x, y)", |a, b| Some(a.wrapping_add(b))),
        ("subfrom(x, y)", |a, b| Some(a.wrapping_sub(b))),
        ("neg(x)", |a, _| Some(a.wrapping_neg())),
    ];
    let mut cases = Vec::new();
    for (e, f) in ops {
        for a in &nums {
            for b in &nums {
                let mut c = Case::new(
                    format!("{e} with x = {a}, y = {b}"),
                    format!(
                        "VAR x = 0\nVAR y = 0\n-> main\n== main\n~ x = {}\n~ y = {}\n{{{e}}}\nAfter.\n-> END\n\
                         == function add(a, b)\n~ return a + b\n== function sub(a, b)\n~ return a - b\n\
                         == function mul(a, b)\n~ return a * b\n== function neg(a)\n~ return -a\n\
                         == function inc(ref a)\n~ a++\n~ return a\n== function dec(ref a)\n~ a--\n~ return a\n\
                         == function addto(ref a, b)\n~ a += b\n~ return a\n== function subfrom(ref a, b)\n~ a -= b\n~ return a\n",
                        lit(*a),
                        lit(*b)
                    ),
                );
                c.expect = Some(f(*a, *b).map_or("ERR".into(), |v| v.to_string()));
                cases.push(c);
                if e.contains('y') {
                    continue;
                }
                break;
            }
        }
    }
    run_cases(r, "integers", &json!({"budget": 1}), cases);
}

// ---------------------------------------------------------------- control flow

const SNIPPETS: [&str; 71] = [
    "-> x",
    "-> x ->",
    "<- x",
    "-> x -> k",
    "-> x(1)",
    "-> x(1) ->",
    "<- x(1)",
    "->->",
    "->-> k",
    "->-> x",
    "~ return 5",
    "~ return",
    "~ return x",
    "-> END",
    "-> DONE",
    "-> k",
    "-> k ->",
    "<- k",
    "-> k -> k ->",
    "-> kk(x)",
    "-> kk(x) ->",
    "<- kk(x)",
    "-> tun ->",
    "-> tun",
    "<- tun",
    "-> dry",
    "-> dry ->",
    "<- dry",
    "-> choosy ->",
    "<- choosy",
    "-> choosy",
    "{x}",
    "{x()}",
    "{x(1)}",
    "{text_fn(x)}",
    "{id(x)} {void(x)}",
    "~ inc(x)",
    "{inc(x)}",
    "~ x++",
    "~ x += x",
    "{TURNS_SINCE(x)}",
    "{READ_COUNT(x)}",
    "{TURNS_SINCE(-> k)} {READ_COUNT(-> k)} {k}",
    "{ext(x)}",
    "~ ext(x)",
    "{fb(x)}",
    "{RANDOM(5, 1)}",
    "{RANDOM(x, 2)}",
    "{RANDOM(0 - 2147483647, 2147483647)}",
    "~ SEED_RANDOM(x)",
    "{A(9)} {A(x)}",
    "{LIST_RANGE(LIST_ALL(A), 5, 1)} {LIST_RANDOM(())}",
    "{x:yes|no}",
    "{!a|b} {&a|b} {~a|b} {a|b}",
    "{\n- x: yes\n- else: no\n}",
    "{x:\n- 1: one\n- 2: two\n}",
    "<>",
    "a <>",
    "<> b # t {x / 0}",
    "# {x}",
    "* {x} [c {x}] d {x / 0}",
    "* -> k",
    "+ ->\n  fallback {x / 0}",
    "* {x / 0} a",
    "* a {x / 0} [b] c",
    "+ (lab) again -> lab",
    "- (lab2) again\n{lab2 < 3: -> lab2}",
    "<- k\n<- choosy\n->->",
    "{recurse(5)}",
    "{recurse(x)}",
    "{bad_fn()}",
];

const POSITIONS: [(&str, &str); 14] = [
    ("plain", "Before.\n@\nAfter.\n"),
    ("top", "@\n"),
    ("choice", "* [c]\n  Chosen.\n@\n* other\n- Gathered.\n"),
    ("nested choice", "* c\n* * d\n@\n- -> k\n"),
    ("function", "{f()} done\n-> END\n== function f()\nIn.\n@\n"),
    (
        "statement function",
        "~ f()\nLine\n-> END\n== function f()\n@\n",
    ),
    (
        "string function",
        "~ temp t = \"a{f()}b\"\n{t}\n-> END\n== function f()\n@\n",
    ),
    ("tunnel", "-> t ->\nBack.\n-> END\n== t\nIn.\n@\n->->\n"),
    (
        "tunnel with choice",
        "-> t ->\nBack.\n-> END\n== t\n* in\n@\n- ->->\n",
    ),
    (
        "thread",
        "<- t\n* own\n- Gathered.\n-> END\n== t\n* in\n@\n- thread gathered\n",
    ),
    ("thread text", "<- t\nAfter.\n-> END\n== t\nText.\n@\n"),
    ("condition", "{x == x:\n@\n- else:\n  Else.\n}\nAfter.\n"),
    (
        "sequence",
        "{stopping:\n- first\n@\n- second\n@\n}\n{main < 4: -> main}\n",
    ),
    ("gather", "* a\n* b\n- G.\n@\n* c\n"),
];

const CONTROL_HEAD: &str = "\
EXTERNAL ext(v)
EXTERNAL fb(v)
LIST A = a1, (a2), a3
VAR x = 0
VAR y = 0
-> main
== k
K.
->->
== kk(p)
KK {p}.
-> DONE
== tun
T {x}.
->->
== dry
Dry.
== choosy
* one
  One.
* {x} two
* -> k
- ->->
== function id(v)
~ return v
== function void(v)
~ y = 1
== function inc(ref v)
~ v = v + 1
~ return v
== function text_fn(v)
Text {v}.
== function fb(v)
~ return v
== function recurse(n)
{n > 0: {recurse(n - 1)}}
~ return n
== function bad_fn()
A.
~ return 1 / 0
";

fn control(r: &Report) {
    let thorough = r.tier == Tier::Thorough;
    let xs: &[&str] = &[
        "0",
        "3",
        "\"k\"",
        "-> k",
        "-> kk",
        "-> dry",
        "-> choosy",
        "(a1)",
        "()",
        "2.5",
        "-> id",
        "-> tun",
        "true",
        "-> main",
        "void(1)",
    ];
    let mut cases = Vec::new();
    let mut pairs = Vec::new();
    for (pn, pos) in POSITIONS {
        for s in SNIPPETS {
            for x in xs {
                if !s.contains('x') && *x != "0" {
                    continue;
                }
                let src = |body: &str| {
                    format!(
                        "{CONTROL_HEAD}== main\n{{main > 3: -> END}}\n~ x = {x}\n{}",
                        pos.replace('@', body)
                    )
                };
                cases.push(Case::new(format!("{pn}: {s} with x = {x}"), src(s)));
                if ["0", "-> k", "-> choosy"].contains(x) || thorough && *x == "3" {
                    for (i, t) in SNIPPETS.iter().enumerate() {
                        if thorough || i % 12 == 0 {
                            pairs.push(Case::new(
                                format!("{pn}: {s} and {t} with x = {x}"),
                                src(&format!("{s}\n{t}")),
                            ));
                        }
                    }
                }
            }
        }
    }
    // Without a handler, with one, and with nothing bound.
    run_cases(r, "control", &json!({}), cases.clone());
    run_cases(
        r,
        "control, handler",
        &json!({"handler": true}),
        cases.clone(),
    );
    cases.retain(|c| c.name.contains("ext(") || c.name.contains("fb("));
    run_cases(r, "control, unbound", &json!({"no_bind": true}), cases);
    run_cases(r, "control pairs", &json!({"budget": 6}), pairs);
}

// ---------------------------------------------------------------- host calls

fn host_calls(r: &Report, progs: &[Prog]) {
    let thorough = r.tier == Tier::Thorough;
    let mut work: Vec<(Value, Case)> = Vec::new();
    for p in progs {
        if is_big(p) {
            continue;
        }
        let mut c = Case::new(p.name.clone(), p.source.clone());
        c.json = Some(p.json.clone());
        let zoo = !p.name.starts_with("ref:");
        if !zoo && !thorough && p.json.len() % 3 != 0 {
            continue;
        }
        let (cap, hist) = match (zoo, thorough) {
            (true, false) => (8, 8),
            (true, true) => (60, 80),
            (false, false) => (3, 3),
            (false, true) => (12, 16),
        };
        work.push((
            json!({"kind": "calls", "cap": cap, "histories": hist}),
            c.clone(),
        ));
        if zoo || thorough {
            let parts: u64 = r.tier.pick(1, 6);
            for i in 0..parts {
                work.push((
                    json!({"kind": "calls", "cap": 8, "pairs": true,
                        "histories": r.tier.pick(1, if zoo { 6 } else { 2 }),
                        "from": if thorough { i * 20_000 } else { 0 },
                        "to": if thorough { (i + 1) * 20_000 } else { 3_000 }}),
                    c.clone(),
                ));
            }
        }
    }
    par_each(r, &work, |(extra, c)| {
        batch(r, "host calls", extra, std::slice::from_ref(c))
    });
    phase(r, "host calls");
}

// ---------------------------------------------------------------- source mutations

/// Splits a line into words, numbers, strings of the same sign, and spaces.
fn tokens(l: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let class = |c: char| {
        if c.is_alphanumeric() || c == '_' {
            0
        } else if c.is_whitespace() {
            1
        } else {
            2
        }
    };
    for c in l.chars() {
        match out.last_mut() {
            Some(t)
                if t.chars().last().map(class) == Some(class(c))
                    && (class(c) < 2
                        || matches!(
                            (t.as_str(), c),
                            ("-", '>')
                                | ("<", '-')
                                | ("=", '=')
                                | ("!", '=')
                                | ("&", '&')
                                | ("|", '|')
                                | ("->", '-')
                                | ("->-", '>')
                        )) =>
            {
                t.push(c)
            }
            _ => out.push(c.to_string()),
        }
    }
    out
}

pub fn mutations(name: &str, src: &str, wide: bool) -> Vec<(String, String)> {
    let lines: Vec<&str> = src.lines().collect();
    let mut out = Vec::new();
    let mut put = |what: String, l: Vec<String>| {
        out.push((format!("{name}: {what}"), l.join("\n") + "\n"));
    };
    let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut names: Vec<String> = Vec::new();
    for l in &lines {
        let t = l.trim_start();
        if t.starts_with("==")
            || t.starts_with('=')
            || t.starts_with("VAR")
            || t.starts_with("LIST")
        {
            for w in tokens(t) {
                if w.chars().next().is_some_and(|c| c.is_alphabetic())
                    && !["VAR", "LIST", "function", "ref"].contains(&w.as_str())
                    && !names.contains(&w)
                {
                    names.push(w);
                }
            }
        }
    }
    for i in 0..lines.len() {
        if lines[i].trim().is_empty() || lines[i].trim_start().starts_with("// @") {
            continue;
        }
        let mut l = own(&lines);
        l.remove(i);
        put(format!("line {} deleted", i + 1), l);
        let mut l = own(&lines);
        l.insert(i, lines[i].into());
        put(format!("line {} doubled", i + 1), l);
        if i + 1 < lines.len() {
            let mut l = own(&lines);
            l.swap(i, i + 1);
            put(format!("line {} swapped", i + 1), l);
        }
        for s in [
            "-> END",
            "->->",
            "~ return",
            "-> DONE",
            "-",
            "* x",
            "-> nowhere",
        ] {
            let mut l = own(&lines);
            l.insert(i + 1, s.into());
            put(format!("{s} after line {}", i + 1), l);
        }
        let t = tokens(lines[i]);
        for (k, w) in t.iter().enumerate() {
            if w.trim().is_empty() {
                continue;
            }
            let mut with: Vec<String> = vec![String::new()];
            let more: &[&str] = match w.as_str() {
                "->" => &["->->", "<-", "-> DONE ->"],
                "<-" => &["->"],
                "->->" => &["-> DONE", "~ return"],
                "*" => &["+", "-", "* *", "/"],
                "+" => &["*", "-", "/", "%"],
                "-" => &["*", "+", "/", "- -"],
                "=" | "==" => &["!=", "=", "=="],
                "~" => &["~ temp", "~ return"],
                "{" => &["{!", "{~", "{0:", "{1 / 0} {"],
                "}" => &["|}", "}}"],
                "|" => &["||", ""],
                "(" | ")" | "[" | "]" => &["()", "[]"],
                "<" | ">" => &["<=", "?"],
                "END" | "DONE" => &["DONE", "END"],
                "true" | "false" => &["0", "\"s\"", "()"],
                "not" => &["-"],
                _ => &[],
            };
            with.extend(more.iter().map(|s| s.to_string()));
            let c = w.chars().next().unwrap();
            if c.is_ascii_digit() {
                with.extend(["0", "2147483647", "1.5", "\"s\"", "()", "-> END"].map(String::from));
            } else if names.contains(w) {
                with.extend(
                    names
                        .iter()
                        .filter(|n| *n != w)
                        .take(if wide { 12 } else { 5 })
                        .cloned(),
                );
                with.extend(["0", "1 / 0", "\"s\"", "()"].map(String::from));
            }
            for x in with {
                let mut u = t.clone();
                u[k] = x.clone();
                let mut l = own(&lines);
                l[i] = u.concat();
                put(format!("line {} token {k} {w:?} becomes {x:?}", i + 1), l);
            }
        }
    }
    out
}

fn mutants(r: &Report, progs: &[Prog]) {
    let thorough = r.tier == Tier::Thorough;
    let mut cases = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        let zoo = !p.name.starts_with("ref:");
        if is_big(p) || p.source.contains("INCLUDE") || !zoo && !thorough && i % 8 != 0 {
            continue;
        }
        for (n, s) in mutations(&p.name, &p.source, thorough) {
            cases.push(Case::new(n, s));
        }
    }
    // Quick: a fixed fraction of every program's mutants.
    if !thorough {
        cases = cases.into_iter().step_by(2).collect();
    }
    run_cases(
        r,
        "mutants",
        &json!({"depth": 14, "budget": r.tier.pick(4, 12)}),
        cases,
    );
}

pub fn run(r: &Report) {
    for release in [false, true] {
        if !exe(release).exists() {
            return r.engine_error("a build of the harness is missing");
        }
        match ask(
            release,
            &json!({"cmd": "c04", "cases": [{"s": "Hello.\n-> END\n"}]}),
            20,
        ) {
            Ok(v) if (v["checked"] == true) != release && v["compiled"] == 1 => {}
            x => return r.engine_error(format!("a child does not work: {x:?}")),
        }
    }
    let progs = programs(r);
    let on = |k: &str| std::env::var("MC_ONLY").map_or(true, |v| v.contains(k));
    if on("int") {
        integers(r);
    }
    if on("control") {
        control(r);
    }
    if on("expr") {
        expressions(r);
    }
    if on("host") {
        host_calls(r, &progs);
    }
    if on("mut") {
        mutants(r, &progs);
    }
}
