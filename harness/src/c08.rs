//! C08: how the host slices continuation never changes the story.
//!
//! Every play (and flow) history up to a bound; for every continue of it every single pause
//! position between two interpreter steps, every pair of pauses on short lines, and a pause after
//! every step, each finished both by a blocking and by a time-limited call; every continue of the
//! history sliced at once with 1..3 steps per slice. Lines, tags, choices, variables, counts,
//! observer notifications, external calls, delivered errors and the save must be those of the
//! unsliced history. In every pause the state-changing calls must be refused.
use crate::{c02::flow_alphabet, c09::paused_calls, explore::*, host::*, prog::Prog, util::*};
use serde_json::json;

/// What the host sees once a line is complete.
fn seen(h: &mut Host, result: &str) -> String {
    let mut s = format!("{result}\n");
    for e in h.take_log() {
        s.push_str(&format!("! {e}\n"));
    }
    s.push_str(&h.all());
    match h.save() {
        Ok(v) => s.push_str(&canon(&v)),
        Err(e) => s.push_str(&e),
    }
    s
}

fn paused(h: &mut Host) -> bool {
    !h.dead && h.story.get_current_text().is_err()
}

/// Result of a completed line as `cont` would report it.
fn line(h: &mut Host, r: &str) -> String {
    if r != "Ok" {
        return r.to_string();
    }
    match h.story.get_current_text() {
        Ok(t) => format!("Ok({t:?})"),
        Err(e) => err(&e),
    }
}

/// One continue in slices: the host's clock runs out at the given questions in turn, then the
/// line is finished by `cont` or by one unlimited slice. Returns what `cont` would have returned
/// and the number of pauses that took place.
fn sliced(h: &mut Host, limits: &[i64], finish_blocking: bool) -> (String, usize) {
    let mut n = 0;
    for l in limits {
        let r = h.apply(&Op::Async(*l));
        if h.dead {
            return (r, n);
        }
        if !paused(h) {
            return (line(h, &r), n);
        }
        n += 1;
    }
    if finish_blocking {
        return (h.apply(&Op::Cont), n);
    }
    let r = h.apply(&Op::Async(-1));
    if h.dead {
        return (r, n);
    }
    (line(h, &r), n)
}

fn every_step(h: &mut Host, per: i64) -> (String, usize) {
    let mut n = 0;
    loop {
        let r = h.apply(&Op::Async(per));
        if h.dead {
            return (r, n);
        }
        if !paused(h) {
            return (line(h, &r), n);
        }
        n += 1;
        if n as u64 > FUEL {
            return ("never finishes".into(), n);
        }
    }
}

pub fn run(r: &Report) {
    let progs = programs(r);
    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        for handler in [false, true] {
            let cfg = Cfg {
                seed: Some(42),
                handler,
                observe_all: true,
                no_bind: false,
            };
            tasks.push((i, cfg.clone(), false));
            if p.has("flows") && !handler {
                tasks.push((i, cfg, true));
            }
        }
    }
    r.assume("the host's clock is the countdown clock of /verif/shim: it is asked once after every interpreter step");
    par_each(r, &tasks, |(i, cfg, flows)| {
        let p = &progs[*i];
        let big = crate::prog::is_big(p);
        let cap = match (big, p.name.starts_with("ref:")) {
            (true, _) => r.tier.pick(1, 4),
            (_, true) => r.tier.pick(2, 20),
            _ => r.tier.pick(10, 120),
        };
        let paths = if *flows {
            enumerate(p, cfg, &[], &flow_alphabet(p), r.tier.pick(40, 600), 4, 10)
        } else {
            enumerate(p, cfg, &[], &play_moves, cap, 30, if big { 24 } else { 40 })
        };
        r.transitions(paths.steps);
        // Prefixes shared by several histories are judged once.
        let mut done = std::collections::HashSet::new();
        for path in &paths.paths {
            if r.stop() {
                return;
            }
            check(r, p, cfg, path, &mut done, big);
        }
        r.sample(json!({"program": p.name, "handler": cfg.handler, "histories": paths.paths.len(), "decisions": paths.depth,
            "example": paths.paths.last().map(|p| show_ops(p))}));
    });
}

fn check(
    r: &Report,
    p: &Prog,
    cfg: &Cfg,
    path: &[Op],
    done: &mut std::collections::HashSet<String>,
    big: bool,
) {
    let Ok(mut h) = Host::new(p, cfg) else { return };
    let base: Vec<String> = path
        .iter()
        .map(|o| {
            let res = h.apply(o);
            seen(&mut h, &res)
        })
        .collect();
    if h.dead {
        r.count("histories that end in a panic", 1);
        return;
    }
    r.traces(1);
    r.outcome(base.last().map(String::as_str).unwrap_or(""));
    // The whole history in slices of equal length.
    for per in [0i64, 1, 2] {
        let Ok(mut h) = Host::new(p, cfg) else { return };
        for (k, op) in path.iter().enumerate() {
            let res = if *op == Op::Cont {
                every_step(&mut h, per).0
            } else {
                h.apply(op)
            };
            let s = seen(&mut h, &res);
            r.states(1);
            r.transitions(1);
            if s != base[k] {
                r.violation(
                    &format!("{}:all({per}):{}", p.name, show_ops(&path[..=k])),
                    format!(
                        "{}every continue in slices of {} steps; operation {k} ({op}) then shows\n{}",
                        describe(p, cfg, path),
                        per + 1,
                        first_diff(&base[k], &s)
                    ),
                );
                return;
            }
        }
    }
    for at in 0..path.len() {
        if path[at] != Op::Cont || !done.insert(show_ops(&path[..=at])) {
            continue;
        }
        let Ok(mut h) = Host::new(p, cfg) else { return };
        for op in &path[..at] {
            h.apply(op);
        }
        // Number of steps of this line; refused calls in every pause.
        let mut steps = 0usize;
        loop {
            let res = h.apply(&Op::Async(0));
            r.transitions(1);
            if !paused(&mut h) {
                break;
            }
            steps += 1;
            let _ = res;
            r.states(1);
            if steps <= r.tier.pick(6, 40) {
                for c in paused_calls(&mut h) {
                    let res = h.apply(&c);
                    r.transitions(1);
                    if !res.starts_with("Err") && res != "nothing saved" {
                        r.violation(
                            &format!("{}:accepted:{c}", p.name),
                            format!("{}in pause {steps} of operation {at} the call {c} is accepted: {res}\n", describe(p, cfg, path)),
                        );
                        return;
                    }
                }
            }
            if steps as u64 > FUEL {
                break;
            }
        }
        let res = line(&mut h, "Ok");
        let _ = res;
        // The story must be usable again, and as if the calls had not been made.
        h.take_log();
        let rest = |h: &mut Host, from: usize| -> Option<(usize, String)> {
            for (k, op) in path.iter().enumerate().skip(from) {
                let res = h.apply(op);
                let s = seen(h, &res);
                if s != base[k] {
                    return Some((k, first_diff(&base[k], &s)));
                }
            }
            None
        };
        if let Some((k, d)) = rest(&mut h, at + 1) {
            r.violation(
                &format!("{}:refused:{}", p.name, show_ops(&path[..=at])),
                format!("{}operation {at} in single steps with refused calls in every pause; operation {k} then shows\n{d}", describe(p, cfg, path)),
            );
            return;
        }
        r.count("interpreter steps with a pause after them", steps as u64);
        let max_single = if big {
            r.tier.pick(4, 60)
        } else {
            r.tier.pick(40, 400)
        };
        let mut plans: Vec<Vec<i64>> = (0..steps.min(max_single) as i64).map(|j| vec![j]).collect();
        if steps > max_single {
            r.count("lines whose single pauses were cut off", 1);
            plans.push(vec![steps as i64 - 1]);
        }
        let pair_limit = r.tier.pick(8, 24);
        if steps <= pair_limit {
            for a in 0..steps as i64 {
                for b in 0..(steps as i64 - a - 1) {
                    plans.push(vec![a, b]);
                }
            }
        }
        for plan in &plans {
            for blocking in [true, false] {
                if r.stop() {
                    return;
                }
                let Ok(mut h) = Host::new(p, cfg) else { return };
                for op in &path[..at] {
                    h.apply(op);
                    h.n_choices();
                }
                h.take_log();
                let (res, n) = sliced(&mut h, plan, blocking);
                let s = seen(&mut h, &res);
                r.transitions(n as u64 + 1);
                r.states(1);
                r.count("sliced lines", 1);
                if s != base[at] {
                    r.violation(
                        &format!("{}:pause{plan:?}:{}", p.name, show_ops(&path[..=at])),
                        format!(
                            "{}operation {at} paused after steps {plan:?} and finished with {}:\n{}",
                            describe(p, cfg, path),
                            if blocking { "cont" } else { "continue_async" },
                            first_diff(&base[at], &s)
                        ),
                    );
                    return;
                }
            }
        }
        // And the rest of the history after a pause in the middle of this line.
        if steps > 0 {
            for plan in [vec![0], vec![(steps as i64) / 2], vec![steps as i64 - 1]] {
                let Ok(mut h) = Host::new(p, cfg) else { return };
                for op in &path[..at] {
                    h.apply(op);
                    h.n_choices();
                }
                h.take_log();
                sliced(&mut h, &plan, true);
                h.take_log();
                r.transitions((path.len() - at) as u64);
                if let Some((k, d)) = rest(&mut h, at + 1) {
                    r.violation(
                        &format!("{}:after{plan:?}:{}", p.name, show_ops(&path[..=at])),
                        format!("{}operation {at} paused after steps {plan:?}; operation {k} then shows\n{d}", describe(p, cfg, path)),
                    );
                    return;
                }
            }
        }
    }
}
