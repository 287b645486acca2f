//! C17: resetting a story is equivalent to constructing it afresh.
//!
//! Every history (plays, flows) of the program set and of a generated language of nested call
//! frames, every position of it, optionally followed by a jump, a load, a failed load, a host
//! function call, an assignment, an unfinished time-limited continue; then a reset. The story must
//! look and save like a new one, and every path of the program must play, notify and fail in it as
//! in a new story, with a reset between the replays. Observers, externals and the handler are the
//! ones attached at the start. Jumps with a call-stack reset: at every position, to every knot,
//! the story must go on as a new story that was given only the globals, counts and randomness.
use crate::{c02::flow_alphabet, explore::*, host::*, prog::*, util::*};
use serde_json::{Value, json};

const KEPT: [&str; 7] = [
    "variablesState",
    "visitCounts",
    "turnIndices",
    "turnIdx",
    "storySeed",
    "previousRandom",
    "inkSaveVersion",
];

/// A chain of knots, each entering the next one as the item says.
const FRAMES: [&str; 8] = ["D", "T", "A", "H", "C", "N", "F", "S"];

fn chain(items: &[usize]) -> String {
    let mut s = String::from("VAR g = 1\nVAR z = 0\nStart.\n-> k1\n");
    for (i, it) in items.iter().enumerate() {
        let (n, m) = (i + 1, i + 2);
        s.push_str(&format!(
            "== k{n}\n~ temp t = {n}\nIn {n} {{t}} {{k{n}}}.\n"
        ));
        s.push_str(&match FRAMES[*it] {
            "D" => format!("~ g = g + {n}\n-> k{m}\n"),
            "T" => format!("-> k{m} ->\nBack {n} {{t}}.\n-> DONE\n"),
            "A" => format!("-> par{n}(t + 1) ->\nPar back {n} {{t}}.\n-> DONE\n"),
            "H" => format!("<- k{m}\nAfter thread {n}.\n* [own {n}] Own {n} {{t}}. -> DONE\n"),
            "C" => format!("* [c{n}] -> k{m}\n+ [d{n}] Done {n}. -> DONE\n"),
            "N" => format!("{{f{n}(t) > 0: After f {n}.}}\n-> k{m}\n"),
            "F" => format!("Fault {{g / z}} {n}.\n-> k{m}\n"),
            "S" => format!("-> st{n}\n= st{n}\nStitch of {n} {{k{n}.st{n}}}.\n-> k{m}\n"),
            _ => unreachable!(),
        });
        s.push_str(&format!("== par{n}(x)\n~ temp y = x * 2\nPar {{x}} {{y}}.\n-> k{m} ->\nPar end {{x}} {{y}}.\n->->\n"));
        s.push_str(&format!(
            "== function f{n}(x)\nText of f {n}.\n~ g = g + x\n~ return g\n"
        ));
    }
    let n = items.len() + 1;
    s.push_str(&format!(
        "== k{n}\n~ temp q = {n}\nLast {{q}} {{g}}.\n-> st\n= st\nStitch {{~a|b|c}} {{k{n}}}.\n~ g++\n* [x] X {{g}}.\n  * * [y] Y {{TURNS_SINCE(-> k1)}}.\n      ->->\n+ [z] -> DONE\n"
    ));
    s
}

/// What may happen before the reset.
fn variants(p: &Prog, at: usize, full: bool) -> Vec<Vec<Op>> {
    let mut out = vec![vec![]];
    let args = |k: &str| -> Vec<V> {
        // Knots with parameters are given too many arguments rather than too few.
        let _ = k;
        vec![]
    };
    for (i, k) in p.knots.iter().enumerate() {
        if !full && i % 3 != at % 3 {
            continue;
        }
        for reset in [true, false] {
            out.push(vec![Op::Path(k.clone(), reset, args(k)), Op::Cont]);
        }
    }
    out.push(vec![
        Op::Save,
        Op::Cont,
        Op::Choose(0),
        Op::Cont,
        Op::LoadSaved,
    ]);
    out.push(vec![Op::LoadText("{\"inkSaveVersion\":10}".into())]);
    out.push(vec![Op::LoadText("nonsense".into())]);
    out.push(vec![Op::Async(1), Op::Reset, Op::Cont]);
    out.push(vec![Op::Switch("other".into()), Op::Cont]);
    out.push(vec![
        Op::Switch("other".into()),
        Op::Path(p.knots.first().cloned().unwrap_or_default(), true, vec![]),
        Op::Cont,
        Op::SwitchDefault,
    ]);
    for (f, n) in p.funcs.iter().take(2) {
        out.push(vec![Op::Eval(f.clone(), vec![V::I(2); *n])]);
    }
    for v in p.vars.iter().take(2) {
        out.push(vec![Op::Set(v.clone(), V::I(77)), Op::Cont]);
        out.push(vec![Op::Set(v.clone(), V::S("odd".into()))]);
    }
    out
}

struct Fresh {
    start: String,
    save: Value,
    traces: Vec<(Vec<Op>, Vec<String>, Value)>,
}

fn fresh(p: &Prog, cfg: &Cfg, paths: &[Vec<Op>]) -> Option<Fresh> {
    let mut h = Host::new(p, cfg).ok()?;
    let start = h.all();
    let save = h.save().ok()?;
    let mut traces = Vec::new();
    for q in paths {
        let mut h = Host::new(p, cfg).ok()?;
        let t = trace(&mut h, q);
        traces.push((q.clone(), t, h.save().unwrap_or(Value::Null)));
    }
    Some(Fresh {
        start,
        save,
        traces,
    })
}

/// Resets `h` and compares it with the fresh story.
fn reset_and_compare(h: &mut Host, f: &Fresh) -> Option<String> {
    let res = h.apply(&Op::Reset);
    h.take_log();
    if res != "Ok" {
        return Some(format!("reset gives {res}"));
    }
    let now = h.all();
    if now != f.start {
        return Some(format!("after the reset: {}", first_diff(&f.start, &now)));
    }
    match h.save() {
        Err(e) => return Some(format!("save after the reset: {e}")),
        Ok(s) => {
            let mut d = Vec::new();
            diff_json(&f.save, &s, "", &mut d);
            if !d.is_empty() {
                return Some(format!(
                    "the save after the reset differs: {}",
                    d.join("\n")
                ));
            }
        }
    }
    None
}

fn resets(r: &Report, p: &Prog, cfg: &Cfg, histories: &[Vec<Op>], f: &Fresh, full: bool) {
    let mut done = std::collections::HashSet::new();
    let mut turn = 0usize;
    for path in histories {
        r.traces(1);
        for at in 0..=path.len() {
            if !done.insert(show_ops(&path[..at])) {
                continue;
            }
            for v in variants(p, at, full) {
                if r.stop() {
                    return;
                }
                let Ok(mut h) = Host::new(p, cfg) else { return };
                for op in path[..at].iter().chain(&v) {
                    h.apply(op);
                    h.n_choices();
                }
                r.states(1);
                r.transitions((at + v.len()) as u64);
                let ops: Vec<Op> = path[..at].iter().chain(&v).cloned().collect();
                let fail = |d: String| {
                    r.violation(
                        &format!("{}:{}", p.name, show_ops(&ops)),
                        format!("{}then reset\n{d}", describe(p, cfg, &ops)),
                    )
                };
                if h.dead {
                    r.count("histories that panic or do not end", 1);
                    continue;
                }
                if let Some(d) = reset_and_compare(&mut h, f) {
                    return fail(d);
                }
                // Every path, one after the other; without a variant all of them, else one.
                let n = f.traces.len();
                let m = if v.is_empty() {
                    n.min(if full { 40 } else { 6 })
                } else {
                    n.min(1)
                };
                for i in 0..m {
                    let (q, want, save) = &f.traces[(turn + i) % n];
                    r.outcome(want.last().map(String::as_str).unwrap_or(""));
                    let got = trace(&mut h, q);
                    r.transitions(q.len() as u64);
                    if let Some((k, d)) = compare(want, &got) {
                        return fail(format!(
                            "then {}\noperation {k} of them shows {d}",
                            show_ops(q)
                        ));
                    }
                    if let Ok(s) = h.save() {
                        let mut d = Vec::new();
                        diff_json(save, &s, "", &mut d);
                        if !d.is_empty() {
                            return fail(format!(
                                "then {}\nthe save differs: {}",
                                show_ops(q),
                                d.join("\n")
                            ));
                        }
                    }
                    if h.dead {
                        break;
                    }
                    if let Some(d) = reset_and_compare(&mut h, f) {
                        return fail(format!("then {}; reset\n{d}", show_ops(q)));
                    }
                }
                turn += 1;
            }
        }
    }
}

/// Jumps with a call-stack reset.
fn jumps(r: &Report, p: &Prog, cfg: &Cfg, histories: &[Vec<Op>], full: bool) {
    let Ok(mut h) = Host::new(p, cfg) else { return };
    let Ok(base) = h.save() else { return };
    let mut done = std::collections::HashSet::new();
    for path in histories {
        for at in 0..=path.len() {
            if !done.insert(show_ops(&path[..at])) {
                continue;
            }
            for (ki, k) in p.knots.iter().enumerate() {
                if r.stop() {
                    return;
                }
                if is_big(p) && !full && ki % 5 != at % 5 {
                    continue;
                }
                let Ok(mut a) = Host::new(p, cfg) else { return };
                for op in &path[..at] {
                    a.apply(op);
                    a.n_choices();
                }
                if a.dead || a.story.has_error() {
                    // Errors stay until the story is reset.
                    break;
                }
                let Ok(now) = a.save() else { break };
                let mut start = base.clone();
                for key in KEPT {
                    if let (Some(m), Some(x)) = (start.as_object_mut(), now.get(key)) {
                        m.insert(key.into(), x.clone());
                    }
                }
                let Ok(mut b) = Host::new(p, cfg) else { return };
                let op = Op::Path(k.clone(), true, vec![V::I(5), V::I(6)]);
                let ops: Vec<Op> = path[..at].iter().chain([&op]).cloned().collect();
                let fail = |d: String| {
                    r.violation(
                        &format!("{}:jump:{}", p.name, show_ops(&ops)),
                        format!("{}{d}", describe(p, cfg, &ops)),
                    )
                };
                let l = b.apply(&Op::LoadText(start.to_string()));
                if l != "Ok" {
                    return fail(format!(
                        "a save with the globals of the current one does not load: {l}"
                    ));
                }
                r.states(1);
                let (ra, rb) = (a.apply(&op), b.apply(&op));
                if ra != rb {
                    return fail(format!(
                        "the jump gives {ra}, in a story with empty call stack {rb}"
                    ));
                }
                if ra != "Ok" {
                    continue;
                }
                a.take_log();
                b.take_log();
                if let Ok(s) = a.save() {
                    let flow = s["currentFlowName"]
                        .as_str()
                        .unwrap_or("DEFAULT_FLOW")
                        .to_string();
                    let f = &s["flows"][&flow];
                    let threads = f["callstack"]["threads"]
                        .as_array()
                        .cloned()
                        .unwrap_or_default();
                    let frames = threads
                        .first()
                        .and_then(|t| t["callstack"].as_array())
                        .map(|c| c.len());
                    if threads.len() != 1
                        || frames != Some(1)
                        || f["currentChoices"].as_array().is_none_or(|c| !c.is_empty())
                    {
                        return fail(format!(
                            "after the jump the flow still has {} threads, {frames:?} frames, choices {}",
                            threads.len(),
                            f["currentChoices"]
                        ));
                    }
                    let mut d = Vec::new();
                    for key in ["variablesState", "visitCounts", "turnIndices"] {
                        // Entering the target counts as a visit.
                        if key == "variablesState" {
                            diff_json(&now[key], &s[key], key, &mut d);
                            continue;
                        }
                        for (c, n) in now[key].as_object().unwrap_or(&Default::default()) {
                            let x = &s[key][c];
                            if x != n
                                && !(c.is_empty()
                                    || *c == *k
                                    || k.starts_with(&format!("{c}."))
                                    || c.starts_with(&format!("{k}.")))
                            {
                                d.push(format!("{key}/{c}: {n} vs {x}"));
                            }
                        }
                    }
                    if !d.is_empty() {
                        return fail(format!("the jump changes {}", d.join("\n")));
                    }
                }
                // The future, choosing the first or the last choice.
                for last in [false, true] {
                    let mut ops = Vec::new();
                    let (Some(mut x), Some(mut y)) = (
                        replay(p, cfg, &path[..at], &op),
                        loaded(p, cfg, &start, &op),
                    ) else {
                        return;
                    };
                    for _ in 0..(if full { 25 } else { 12 }) {
                        let m = y.moves();
                        let Some(o) = (if last { m.last() } else { m.first() }) else {
                            break;
                        };
                        let o = o.clone();
                        let (u, v) = (step(&mut x, &o), step(&mut y, &o));
                        // Assigning the same value again need not notify.
                        let plain = |s: String| -> String {
                            s.lines()
                                .filter(|l| !l.starts_with("! observer"))
                                .map(|l| format!("{l}\n"))
                                .collect()
                        };
                        let (u, v) = (plain(u), plain(v));
                        ops.push(o);
                        r.transitions(2);
                        if u != v {
                            return fail(format!(
                                "then {}\nshows {}",
                                show_ops(&ops),
                                first_diff(&v, &u)
                            ));
                        }
                        if x.dead || y.dead {
                            break;
                        }
                    }
                }
            }
        }
    }
}

fn replay<'a>(p: &'a Prog, cfg: &Cfg, path: &[Op], jump: &Op) -> Option<Host<'a>> {
    let mut h = Host::new(p, cfg).ok()?;
    for op in path {
        h.apply(op);
        h.n_choices();
    }
    h.apply(jump);
    h.take_log();
    Some(h)
}

fn loaded<'a>(p: &'a Prog, cfg: &Cfg, save: &Value, jump: &Op) -> Option<Host<'a>> {
    let mut h = Host::new(p, cfg).ok()?;
    h.apply(&Op::LoadText(save.to_string()));
    h.apply(jump);
    h.take_log();
    Some(h)
}

pub fn run(r: &Report) {
    r.assume("the story seed is fixed by the seed hook; a new seed per reset is legitimate");
    r.assume("externals that count their own calls are host state and not part of the comparison");
    let progs = programs(r);
    let full = r.tier == Tier::Thorough;
    let usable = |p: &Prog| !p.externals.iter().any(|e| e.0.contains("count"));

    // Generated chains.
    let k = FRAMES.len() as u64;
    let len = r.tier.pick(3u32, 4);
    let total: u64 = (1..=len).map(|l| k.pow(l)).sum();
    r.count("chains of frames", total);
    par_range(r, total, 4, |n| {
        if r.expired() {
            return;
        }
        let mut base = 0;
        let mut l = 1;
        while n - base >= k.pow(l) {
            base += k.pow(l);
            l += 1;
        }
        let mut x = n - base;
        let mut items = Vec::new();
        for _ in 0..l {
            items.push((x % k) as usize);
            x /= k;
        }
        let name: String = items.iter().map(|i| FRAMES[*i]).collect();
        let p = match from_source(&format!("chain {name}"), &chain(&items)) {
            Ok(p) => p,
            Err(e) => return r.engine_error(format!("chain {name}: {e}")),
        };
        let cfg = Cfg {
            seed: Some(3),
            handler: n % 2 == 0,
            observe_all: true,
            ..Default::default()
        };
        let paths = enumerate(&p, &cfg, &[], &play_moves, r.tier.pick(8, 30), 6, 25);
        r.transitions(paths.steps);
        let Some(f) = fresh(&p, &cfg, &paths.paths) else {
            return r.engine_error(format!("chain {name}: no fresh story"));
        };
        resets(r, &p, &cfg, &paths.paths, &f, full);
        jumps(r, &p, &cfg, &paths.paths, full);
    });

    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        if !usable(p) {
            continue;
        }
        for handler in [false, true] {
            tasks.push((i, handler, false));
        }
        if p.has("flows") {
            tasks.push((i, true, true));
        }
    }
    par_each(r, &tasks, |(i, handler, flows)| {
        let p = &progs[*i];
        let cfg = Cfg {
            seed: Some(42),
            handler: *handler,
            observe_all: true,
            ..Default::default()
        };
        let big = is_big(p);
        let cap = if big {
            r.tier.pick(2, 8)
        } else {
            r.tier.pick(10, 80)
        };
        let plays = enumerate(
            p,
            &cfg,
            &[],
            &play_moves,
            cap,
            40,
            if big { 25 } else { 40 },
        );
        r.transitions(plays.steps);
        let Some(f) = fresh(p, &cfg, &plays.paths) else {
            return;
        };
        if f.start.contains("warnings [\"") {
            r.note(format!("{}: a new story has warnings", p.name));
        }
        let histories = if *flows {
            enumerate(p, &cfg, &[], &flow_alphabet(p), r.tier.pick(40, 300), 4, 10).paths
        } else {
            plays.paths.clone()
        };
        resets(r, p, &cfg, &histories, &f, full);
        jumps(r, p, &cfg, &histories, full);
        r.sample(
            json!({"program": p.name, "histories": histories.len(), "replayed": plays.paths.len()}),
        );
    });
}
