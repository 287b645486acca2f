//! C02: saving and loading preserves all future behaviour.
//!
//! Every play history (all choice sequences, flow operations where a program has flows) up to a
//! bound; a save+load into a fresh story is inserted at every position of it (one reload, every
//! pair of reloads on short histories, a reload after every operation) and the rest of the
//! history must be observed identically. At every reload the save of the loaded story must equal
//! the save it came from.
use crate::{explore::*, host::*, prog::Prog, util::*};
use serde_json::json;

pub fn flow_alphabet<'a>(p: &'a Prog) -> impl Fn(&Host) -> Vec<Op> + 'a {
    let flows: Vec<String> = p
        .note("flows")
        .unwrap_or("")
        .split_whitespace()
        .map(String::from)
        .collect();
    move |h: &Host| {
        let mut m = h.moves();
        if flows.is_empty() || h.dead {
            return m;
        }
        for f in &flows {
            m.push(Op::Switch(f.clone()));
        }
        m.push(Op::SwitchDefault);
        for k in &p.knots {
            if p.notes("flowstart").any(|s| s == k) && !h.can() && h.n_choices() == 0 {
                m.push(Op::Path(k.clone(), true, vec![]));
            }
        }
        m
    }
}

struct Task {
    prog: usize,
    cfg: Cfg,
    flows: bool,
}

pub fn run(r: &Report) {
    let progs = programs(r);
    let cap = r.tier.pick(60, 700);
    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        tasks.push(Task {
            prog: i,
            cfg: seeded(),
            flows: false,
        });
        if p.has("flows") {
            tasks.push(Task {
                prog: i,
                cfg: seeded(),
                flows: true,
            });
        }
    }
    r.assume("the story seed is fixed per run and travels in the save");
    par_each(r, &tasks, |t| {
        let p = &progs[t.prog];
        let big = is_big(p);
        let cap = if big { cap / 6 } else { cap };
        let paths = if t.flows {
            enumerate(p, &t.cfg, &[], &flow_alphabet(p), cap * 20, 6, 14)
        } else {
            enumerate(
                p,
                &t.cfg,
                &[],
                &play_moves,
                cap,
                30,
                if big { 60 } else { 40 },
            )
        };
        r.transitions(paths.steps);
        r.count("programs", 1);
        if paths.complete {
            r.count("programs explored to every end", 1);
        }
        for path in &paths.paths {
            if r.stop() {
                return;
            }
            check_path(r, p, &t.cfg, path);
        }
        r.sample(
            json!({"program": p.name, "decisions": paths.depth, "histories": paths.paths.len(),
            "example": paths.paths.last().map(|p| show_ops(p))}),
        );
    });
}

fn is_big(p: &Prog) -> bool {
    crate::prog::is_big(p)
}

fn check_path(r: &Report, p: &Prog, cfg: &Cfg, path: &[Op]) {
    let Ok(mut h) = Host::new(p, cfg) else { return };
    let start = h.screen() + &h.memory();
    let base = trace(&mut h, path);
    r.traces(1);
    r.outcome(base.last().unwrap_or(&start));
    let n = base.len();
    let dead = h.dead;
    // Positions at which the host saves: before operation i.
    let single: Vec<Vec<usize>> = (0..=n)
        .filter(|i| !(dead && *i == n))
        .map(|i| vec![i])
        .collect();
    let mut plans = single;
    plans.push((0..=if dead { n.saturating_sub(1) } else { n }).collect());
    if n <= 8 {
        for i in 0..n {
            for j in i..n {
                plans.push(vec![i, j]);
            }
        }
    }
    for plan in plans {
        let Ok(mut h) = Host::new(p, cfg) else { return };
        let mut last = start.clone();
        for i in 0..=n {
            for _ in plan.iter().filter(|x| **x == i) {
                let before = h.save();
                let res = h.apply(&Op::Reload);
                r.transitions(1);
                r.states(1);
                let key = |what: &str| format!("{}:{}:{}", p.name, what, show_ops(&path[..i]));
                let detail = |what: String| {
                    format!(
                        "{}reload before operation {i} (plan {plan:?})\n{what}",
                        describe(p, cfg, path)
                    )
                };
                if res != "Ok" {
                    // A history that already panicked is judged by C04.
                    r.violation(&key("load"), detail(format!("load_state: {res}")));
                    return;
                }
                let now = h.screen() + &h.memory();
                if now != last {
                    r.violation(
                        &key("observed"),
                        detail(format!("after loading, {}", first_diff(&last, &now))),
                    );
                    return;
                }
                let after = h.save();
                match (&before, &after) {
                    (Ok(a), Ok(b)) if json_eq(a, b) => {}
                    (Ok(a), Ok(b)) => {
                        let mut d = Vec::new();
                        diff_json(a, b, "", &mut d);
                        r.violation(
                            &key("resave"),
                            detail(format!("saving again differs: {}", d.join("; "))),
                        );
                        return;
                    }
                    (a, b) => {
                        r.violation(
                            &key("save"),
                            detail(format!(
                                "save: {:?} / {:?}",
                                a.as_ref().err(),
                                b.as_ref().err()
                            )),
                        );
                        return;
                    }
                }
            }
            if i == n {
                break;
            }
            let s = step(&mut h, &path[i]);
            r.transitions(1);
            if s != base[i] {
                r.violation(
                    &format!("{}:future:{}", p.name, show_ops(&path[..=i])),
                    format!(
                        "{}reloads before operations {plan:?}; operation {i} behaves differently\n{}",
                        describe(p, cfg, path),
                        first_diff(&base[i], &s)
                    ),
                );
                return;
            }
            last = h.screen() + &h.memory();
        }
    }
}
