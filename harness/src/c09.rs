//! C09: a rejected host call leaves the story exactly as it was.
//!
//! Every history of play, flow and pause operations up to a bound; at every position every call
//! of a catalogue that the story rejects there is made, and the rest of the history (plus a tail
//! that probes flows, saves, observers, jumps and reset) must be observed as without it. The
//! calls the property names must be rejected wherever the catalogue offers them.
use crate::{c02::flow_alphabet, explore::*, host::*, prog::Prog, util::*};
use bladeink::value_type::ValueType;
use serde_json::json;

/// Calls that are wrong in the given state. The flag says that it must be refused there.
pub fn bad_calls(h: &mut Host) -> Vec<(Op, bool)> {
    let p = h.prog;
    let mut c: Vec<(Op, bool)> = Vec::new();
    let paused = h.story.get_current_text().is_err();
    if !h.can() && !paused {
        c.push((Op::Cont, true));
        c.push((Op::Async(0), true));
        c.push((Op::Async(-1), true));
    }
    let n = h.n_choices();
    c.push((Op::Choose(n), true));
    c.push((Op::Choose(n + 7), true));
    c.push((Op::Choose(usize::MAX), true));
    c.push((Op::Set("no such variable".into(), V::I(1)), true));
    c.push((Op::Set(String::new(), V::I(1)), true));
    c.push((Op::Observe("no such variable".into(), 1), true));
    c.push((Op::Unobserve(1, Some("no such variable".into())), true));
    c.push((Op::Unobserve(2, None), true));
    if let Some(v) = p.vars.first() {
        c.push((Op::Unobserve(2, Some(v.clone())), true));
        c.push((Op::Set(format!("{v} "), V::I(1)), true));
    }
    for name in ["no such function", "", "  "] {
        c.push((Op::Eval(name.into(), vec![]), true));
        c.push((Op::Eval(name.into(), vec![V::I(1)]), true));
    }
    if let Some(f) = p
        .funcs
        .iter()
        .find(|f| !p.externals.iter().any(|e| e.0 == f.0))
    {
        let a = |first: Vec<V>, bad: V| {
            let mut a = first;
            a.push(bad);
            a
        };
        if let Some(t) = target_var(h) {
            c.push((Op::Eval(f.0.clone(), a(vec![], V::Var(t.clone()))), true));
            c.push((
                Op::Eval(
                    f.0.clone(),
                    a(vec![V::I(1), V::S("s".into())], V::Var(t.clone())),
                ),
                true,
            ));
        }
    }
    for reset in [true, false] {
        for path in [
            "no_such_knot",
            "no_such_knot.stitch",
            "no_such_knot.0",
            ".^.^.nowhere",
        ] {
            c.push((Op::Path(path.into(), reset, vec![]), true));
        }
        if let Some(k) = p.knots.first() {
            c.push((Op::Path(format!("{k}.no_such_stitch"), reset, vec![]), true));
            c.push((
                Op::Path(format!("{k}.0.no_such_thing"), reset, vec![]),
                true,
            ));
            c.push((Op::Path(format!("{k}.999999"), reset, vec![]), true));
            if let Some(t) = target_var(h) {
                c.push((Op::Path(k.clone(), reset, vec![V::I(1), V::Var(t)]), true));
            }
            c.push((Op::Path("no_such_knot".into(), reset, vec![V::I(3)]), true));
        }
    }
    c.push((Op::RemoveFlow("no such flow".into()), true));
    c.push((Op::RemoveFlow("DEFAULT_FLOW".into()), true));
    c.push((Op::RemoveFlow(String::new()), true));
    for (e, kind) in &p.externals {
        if kind != "unbound" && !h.cfg.no_bind {
            c.push((Op::Bind(e.clone(), true), true));
        } else {
            c.push((Op::Unbind(e.clone()), true));
        }
    }
    c.push((Op::Unbind("no such external".into()), true));
    for t in [
        "",
        "{",
        "[]",
        "null",
        "{\"inkSaveVersion\":1}",
        "{\"inkSaveVersion\":10,\"flows\":{}}",
    ] {
        c.push((Op::LoadText(t.into()), !t.contains("flows")));
    }
    c.push((Op::Visit("no such knot".into()), false));
    c.push((Op::TagsAt("no such knot".into()), false));
    c
}

/// A global that holds a divert target now.
fn target_var(h: &Host) -> Option<String> {
    h.prog
        .vars
        .iter()
        .find(|v| matches!(h.story.get_variable(v), Some(ValueType::DivertTarget(_))))
        .cloned()
}

/// Calls that are fine in general but not in the middle of a time-limited continue.
pub fn paused_calls(h: &mut Host) -> Vec<Op> {
    let p = h.prog;
    let mut c = vec![
        Op::ContMax,
        Op::Choose(0),
        Op::Switch("elsewhere".into()),
        Op::Switch("DEFAULT_FLOW".into()),
        Op::RemoveFlow("side".into()),
        Op::Bind("another external".into(), true),
        Op::Unobserve(0, None),
        Op::Reset,
    ];
    if let Some(v) = p.vars.first() {
        c.push(Op::Set(v.clone(), V::I(991)));
        c.push(Op::Observe(v.clone(), 1));
        c.push(Op::Unobserve(0, Some(v.clone())));
    }
    if let Some(k) = p.knots.first() {
        c.push(Op::Path(k.clone(), true, vec![]));
        c.push(Op::Path(k.clone(), false, vec![]));
    }
    for (f, n) in p.funcs.iter().take(2) {
        c.push(Op::Eval(f.clone(), vec![V::I(1); *n]));
    }
    for (e, _) in &p.externals {
        c.push(Op::Unbind(e.clone()));
    }
    c
}

/// Operations appended to a history so that everything a rejected call might have damaged shows.
pub fn tail(p: &Prog) -> Vec<Op> {
    let mut t = vec![];
    if let Some(v) = p.vars.first() {
        t.push(Op::Set(v.clone(), V::Var(v.clone())));
    }
    t.push(Op::Save);
    t.push(Op::Switch("probe".into()));
    if let Some(k) = p.knots.first() {
        t.push(Op::Path(k.clone(), true, vec![]));
        t.push(Op::Async(1));
        t.push(Op::Async(-1));
    }
    t.push(Op::SwitchDefault);
    t.push(Op::RemoveFlow("probe".into()));
    t.push(Op::LoadSaved);
    if let Some(k) = p.knots.last() {
        t.push(Op::Path(k.clone(), true, vec![]));
        t.push(Op::Cont);
        t.push(Op::Cont);
    }
    t.push(Op::Reset);
    t.push(Op::Cont);
    t.push(Op::Cont);
    t
}

/// Turns the continue at `at` into a paused one: `n` slices of one step each before it.
pub fn paused_history(p: &Prog, cfg: &Cfg, path: &[Op], at: usize, max: usize) -> Option<Vec<Op>> {
    if path[at] != Op::Cont {
        return None;
    }
    let mut h = Host::new(p, cfg).ok()?;
    for op in &path[..at] {
        h.apply(op);
    }
    let mut n = 0;
    while n < max {
        h.apply(&Op::Async(0));
        if h.dead || h.story.get_current_text().is_ok() {
            break;
        }
        n += 1;
    }
    if n == 0 {
        return None;
    }
    let mut q = path[..at].to_vec();
    q.extend(std::iter::repeat_n(Op::Async(0), n));
    q.push(Op::Cont);
    q.extend_from_slice(&path[at + 1..]);
    Some(q)
}

fn full(h: &mut Host, save: bool) -> String {
    let mut s = h.all();
    for e in h.take_log() {
        s.push_str(&format!("! {e}\n"));
    }
    if save {
        match h.save() {
            Ok(v) => s.push_str(&canon(&v)),
            Err(e) => s.push_str(&e),
        }
    }
    s
}

fn full_step(h: &mut Host, op: &Op) -> String {
    let r = h.apply(op);
    format!("> {op}\n{r}\n{}", full(h, true))
}

pub fn run(r: &Report) {
    let progs = programs(r);
    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        for handler in [false, true] {
            let cfg = Cfg {
                seed: Some(42),
                handler,
                observe_all: true,
                no_bind: false,
            };
            tasks.push((i, cfg.clone(), false));
            if p.has("flows") {
                tasks.push((i, cfg, true));
            }
        }
    }
    r.assume("the story seed is fixed; only states reached by the enumerated histories are probed");
    par_each(r, &tasks, |(i, cfg, flows)| {
        let p = &progs[*i];
        let big = crate::prog::is_big(p);
        let cap = match (big, p.name.starts_with("ref:")) {
            (true, _) => r.tier.pick(1, 3),
            (_, true) => r.tier.pick(2, 12),
            _ => r.tier.pick(6, 60),
        };
        let paths = if *flows {
            enumerate(p, cfg, &[], &flow_alphabet(p), r.tier.pick(60, 600), 3, 10)
        } else {
            enumerate(p, cfg, &[], &play_moves, cap, 30, if big { 30 } else { 24 })
        };
        r.transitions(paths.steps);
        r.count("histories", paths.paths.len() as u64);
        for path in &paths.paths {
            if r.stop() {
                return;
            }
            check(r, p, cfg, path);
            // The same with one line produced in slices.
            let conts: Vec<usize> = (0..path.len()).filter(|i| path[*i] == Op::Cont).collect();
            for at in conts.into_iter().take(r.tier.pick(2, 8)) {
                if let Some(q) = paused_history(p, cfg, path, at, r.tier.pick(4, 12)) {
                    r.count("histories with a paused line", 1);
                    check(r, p, cfg, &q);
                }
            }
        }
        r.sample(
            json!({"program": p.name, "histories": paths.paths.len(), "decisions": paths.depth,
            "example": paths.paths.last().map(|p| show_ops(p))}),
        );
    });
}

fn check(r: &Report, p: &Prog, cfg: &Cfg, path: &[Op]) {
    let n = path.len();
    let mut ops = path.to_vec();
    ops.extend(tail(p));
    let Ok(mut h) = Host::new(p, cfg) else { return };
    let base: Vec<String> = ops.iter().map(|o| full_step(&mut h, o)).collect();
    if h.dead {
        // Judged by C04.
        r.count("histories that end in a panic", 1);
        r.note(
            base.iter()
                .filter_map(|l| l.lines().nth(1))
                .find(|l| l.starts_with("PANIC") || l.starts_with("OUT OF"))
                .unwrap_or("")
                .to_string()
                + " in "
                + &p.name,
        );
        return;
    }
    r.traces(1);
    r.outcome(&base[n.saturating_sub(1)]);
    for i in 0..=n {
        if r.stop() {
            return;
        }
        // Which calls does the story reject here?
        let probe = |calls: &[Op]| -> Option<(Host, Vec<(Op, String)>, Option<(Op, String)>)> {
            let mut h = Host::new(p, cfg).ok()?;
            for op in &ops[..i] {
                h.apply(op);
                h.n_choices(); // the base run reads the choices here too, which numbers them
            }
            h.take_log();
            let before = full(&mut h, true);
            let mut results = Vec::new();
            let mut bad = None;
            for c in calls {
                let res = h.apply(c);
                r.transitions(1);
                r.states(1);
                results.push((c.clone(), res));
                let now = full(&mut h, true);
                if now != before && bad.is_none() {
                    bad = Some((c.clone(), first_diff(&before, &now)));
                }
                if h.dead {
                    break;
                }
            }
            Some((h, results, bad))
        };
        let Ok(mut h) = Host::new(p, cfg) else { return };
        for op in &ops[..i] {
            h.apply(op);
        }
        let paused = h.story.get_current_text().is_err();
        let mut calls = bad_calls(&mut h);
        if paused {
            r.count("positions in the middle of a line", 1);
            calls.extend(paused_calls(&mut h).into_iter().map(|c| (c, false)));
        }
        drop(h);
        let mut rejected = Vec::new();
        for (c, must) in &calls {
            let Some((_, res, changed)) = probe(std::slice::from_ref(c)) else {
                return;
            };
            let res = &res[0].1;
            let key = |what: &str| format!("{}:{what}:{c} after {}", p.name, show_ops(&ops[..i]));
            let describe = || {
                format!(
                    "{}the call: {c} before operation {i}, result {res}\n",
                    describe(p, cfg, &ops)
                )
            };
            if res.starts_with("PANIC") || res == "OUT OF FUEL" {
                r.violation(&key("panic"), describe());
                continue;
            }
            if !res.starts_with("Err") {
                if *must {
                    r.violation(&key("accepted"), describe());
                }
                continue;
            }
            if let Some((_, d)) = changed {
                r.violation(
                    &key("changed"),
                    format!("{}the state changed: {d}", describe()),
                );
                continue;
            }
            rejected.push(c.clone());
        }
        // All of them together, then the rest; on a difference each on its own.
        let run_rest = |calls: &[Op]| -> Option<String> {
            let (mut h, _, _) = probe(calls)?;
            for (k, op) in ops.iter().enumerate().skip(i) {
                let s = full_step(&mut h, op);
                r.transitions(1);
                if s != base[k] {
                    return Some(format!(
                        "operation {k} ({op}) then differs: {}",
                        first_diff(&base[k], &s)
                    ));
                }
            }
            None
        };
        if let Some(d) = run_rest(&rejected) {
            let mut found = false;
            for c in &rejected {
                if let Some(d) = run_rest(std::slice::from_ref(c)) {
                    found = true;
                    r.violation(
                        &format!("{}:future:{c} after {}", p.name, show_ops(&ops[..i])),
                        format!(
                            "{}rejected call {c} before operation {i}\n{d}",
                            describe(p, cfg, &ops)
                        ),
                    );
                }
            }
            if !found {
                r.violation(
                    &format!("{}:future:all after {}", p.name, show_ops(&ops[..i])),
                    format!(
                        "{}rejected calls {} before operation {i}\n{d}",
                        describe(p, cfg, &ops),
                        show_ops(&rejected)
                    ),
                );
            }
        }
    }
}
