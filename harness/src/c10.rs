//! C10: flows are independent except for global variables and counts.
//!
//! Flow bodies that touch disjoint knots and variables (choices, glue, tags, tunnels, threads,
//! temporaries, functions, references, fallback choices, faults) are combined pairwise and in
//! threes. For each flow every play script up to a length is first played alone; then every
//! interleaving of the scripts is played in one story, and after each operation the flow must show
//! what it showed alone. Variants: save and load into a fresh story at every position, another
//! flow removed at every position, a jump in another flow at every position. For every play
//! history of the program set, switching away and back at every position must be a no-op.
use crate::{explore::*, host::*, prog::*, util::*};
use serde_json::json;

const BODIES: [(&str, &str); 9] = [
    (
        "choices",
        "VAR g@ = 0\n== k@\nHello @. # tag @\nMore @.\n* [one @] One @. <>\n  glued @\n* two @ # ct@\n  ~ g@++\n- Gathered @ {g@}.\n+ [again @] -> k@\n+ [end @] -> END\n",
    ),
    (
        "tunnel",
        "VAR g@ = 0\n== k@\n~ temp t = 4\nStart @ {t}.\n-> tun@(t, 2) ->\nBack @ {t} {g@}.\n-> tun@(1, t) ->\n-> DONE\n== tun@(a, b)\nTunnel @ {a} {b}.\n+ [in tunnel @ {a}]\n  ~ g@ = g@ + a\n- Leaving @ {b}.\n->->\n",
    ),
    (
        "threads",
        "VAR g@ = 0\n== k@\n~ temp v = 3\nThreads @.\n<- thr@(v)\n<- thr@(v + 1)\n+ [own @ {v}]\n- Own chosen @ {v}.\n-> DONE\n== thr@(x)\nThread @ {x}.\n~ temp y = x * 2\n+ [from thread @ {y}]\n  Thread says @ {x} {y}.\n  ~ g@ = y\n  + + [deep @ {x}] Deep @ {y}.\n  - - Joined @.\n  -> k@\n",
    ),
    (
        "temps",
        "VAR g@ = 1\n== k@\n~ temp n = 10\n- (top@)\n~ n--\nLine @ {n}.\n~ inc@(n)\n~ inc@(g@)\nThen @ {n} {g@} {f@(n)}.\n* [a @ {n}] -> top@\n* [b @ {n}] B @.\n  -> top@\n* -> \n  No more @ {n}.\n  -> END\n== function inc@(ref r)\n~ r = r + 2\n== function f@(x)\n{x > 3: Big @}\n~ return x * g@\n",
    ),
    (
        "lines",
        "VAR g@ = 0\n== k@\nA @.\n~ g@++\nB @ {g@}. # t\n~ g@++\n<>C @.\nD @ <>\n{&one @|two @|three @}\n{once@(): never|E @.}\n-> k@.st@\n= st@\nIn stitch @ {k@} {st@}.\n-> END\n== function once@()\n~ g@ = g@ + 10\n~ return false\n",
    ),
    (
        "fallback",
        "VAR g@ = 0\n== k@\n* -> go@\n== go@\nGone @.\n* [x @]\n  -> go@\n* [y @] Y @.\n  -> go@\n* -> done@\n== done@\nDone @ {go@}.\n-> DONE\n",
    ),
    (
        "fault",
        "VAR g@ = 0\n== k@\nBefore @.\nMid @ {1 / g@}.\nAfter @.\n-> DONE\n",
    ),
    (
        "varpath",
        "VAR g@ = -> w@\n== k@\nGo @.\n-> g@\n== w@\nW @.\n~ g@ = -> v@\n+ [jump @] -> g@\n+ [turn @] {v@:seen|unseen} @. -> w@\n== v@\nV @.\n-> tunt@ -> w@\n== tunt@\nTt @.\n->-> w@\n",
    ),
    (
        "inner",
        "VAR g@ = 0\n== k@\nOuter @.\n* (lab@) [first @ {g@}]\n  First @.\n  * * [second @] Second @.\n      ~ g@ = 2\n      * * * [third @] Third @.\n  * * {g@ < 1} [other @] Other @.\n  - - inner gather @ {lab@}\n* {lab@} [late @] Late @.\n- (out@) Out @.\n{out@ < 3: -> k@}\n-> DONE\n",
    ),
];

fn source(parts: &[(usize, &str)]) -> String {
    let mut s = String::new();
    let mut vars = String::new();
    for (b, id) in parts {
        for l in BODIES[*b].1.replace('@', id).lines() {
            if l.starts_with("VAR") {
                vars.push_str(l);
                vars.push('\n');
            } else {
                s.push_str(l);
                s.push('\n');
            }
        }
    }
    format!("{vars}-> k{}\n{s}", parts[0].1)
}

/// What one flow shows: its screen and its own variables.
fn view(h: &mut Host, id: &str) -> String {
    let mut s = h.screen();
    if let Some(v) = h.story.get_variable(&format!("g{id}")) {
        s.push_str(&format!("g = {}\n", render(&v)));
    }
    s
}

#[derive(Clone)]
struct Script {
    flow: String,
    id: String,
    ops: Vec<Op>,
    views: Vec<String>,
}

fn switch(flow: &str) -> Op {
    if flow.is_empty() {
        Op::SwitchDefault
    } else {
        Op::Switch(flow.into())
    }
}

fn act(h: &mut Host, op: &Op, id: &str) -> String {
    let r = h.apply(op);
    let mut s = format!("> {op}\n{r}\n");
    for e in h.take_log() {
        s.push_str(&format!("! {e}\n"));
    }
    s.push_str(&view(h, id));
    s
}

/// Every script of a flow played alone.
fn solo(
    p: &Prog,
    cfg: &Cfg,
    flow: &str,
    id: &str,
    reset: bool,
    len: usize,
    cap: usize,
) -> Vec<Script> {
    let pre = if flow.is_empty() {
        vec![]
    } else {
        vec![
            Op::Switch(flow.into()),
            Op::Path(format!("k{id}"), reset, vec![]),
        ]
    };
    let n = pre.len();
    let paths = enumerate(p, cfg, &pre, &play_moves, cap, 12, n + len);
    let mut out = Vec::new();
    for path in paths.paths {
        let Ok(mut h) = Host::new(p, cfg) else {
            continue;
        };
        // The switch itself is part of every interleaving step.
        let mut views = Vec::new();
        let mut ops = Vec::new();
        for op in path {
            if matches!(op, Op::Switch(_)) {
                h.apply(&op);
                continue;
            }
            views.push(act(&mut h, &op, id));
            ops.push(op);
        }
        out.push(Script {
            flow: flow.into(),
            id: id.into(),
            ops,
            views,
        });
    }
    out
}

fn merges(lens: &[usize]) -> Vec<Vec<usize>> {
    let mut out = Vec::new();
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|n| *n == 0) {
            out.push(cur.clone());
            return;
        }
        for i in 0..left.len() {
            if left[i] > 0 {
                left[i] -= 1;
                cur.push(i);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
    }
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Extra {
    None,
    /// Save and load into a fresh story before step n (usize::MAX: before every step).
    Reload(usize),
    /// Remove the flow of script i before step n; its remaining steps are not taken.
    Remove(usize, usize),
    /// The host jumps (call stack reset) in the flow of script i before step n; its remaining steps are not taken.
    Jump(usize, usize),
}

fn replay(
    r: &Report,
    p: &Prog,
    cfg: &Cfg,
    scripts: &[Script],
    order: &[usize],
    extra: Extra,
) -> bool {
    let Ok(mut h) = Host::new(p, cfg) else {
        return true;
    };
    let mut at = vec![0usize; scripts.len()];
    let mut current = String::new();
    let mut done: Vec<Op> = Vec::new();
    let mut gone: Option<usize> = None;
    r.states(1);
    for (n, i) in order.iter().enumerate() {
        let mut problem = None;
        match extra {
            Extra::Reload(k) if k == n || k == usize::MAX => {
                let res = h.apply(&Op::Reload);
                done.push(Op::Reload);
                if res != "Ok" {
                    problem = Some(format!("the save does not load: {res}"));
                }
            }
            Extra::Remove(f, k) if k == n => {
                // Only a flow that exists can be removed.
                if at[f] > 0 && !scripts[f].flow.is_empty() {
                    let op = Op::RemoveFlow(scripts[f].flow.clone());
                    let res = h.apply(&op);
                    done.push(op);
                    if res != "Ok" {
                        problem = Some(format!("removing a flow: {res}"));
                    }
                    if current == scripts[f].flow {
                        current = String::new();
                    }
                    gone = Some(f);
                }
            }
            Extra::Jump(f, k) if k == n => {
                let sw = switch(&scripts[f].flow);
                let jump = Op::Path(format!("k{}", scripts[f].id), true, vec![]);
                for op in [sw, jump, Op::Cont, Op::Choose(0), Op::Cont] {
                    h.apply(&op);
                    done.push(op);
                }
                h.take_log();
                current = scripts[f].flow.clone();
                gone = Some(f);
            }
            _ => {}
        }
        if problem.is_none() {
            if gone == Some(*i) {
                continue;
            }
            let s = &scripts[*i];
            if current != s.flow {
                let op = switch(&s.flow);
                let res = h.apply(&op);
                done.push(op);
                current = s.flow.clone();
                if res != "Ok" {
                    problem = Some(format!("switch: {res}"));
                } else if at[*i] > 0 {
                    // Back in the flow: it shows what it showed.
                    let v = view(&mut h, &s.id);
                    let want = s.views[at[*i] - 1].splitn(3, '\n').nth(2).unwrap_or("");
                    let want: String = want
                        .lines()
                        .filter(|l| !l.starts_with("! "))
                        .map(|l| format!("{l}\n"))
                        .collect();
                    if v != want {
                        problem = Some(format!(
                            "after switching back to flow {:?}: {}",
                            s.flow,
                            first_diff(&want, &v)
                        ));
                    }
                }
            }
            if problem.is_none() {
                let op = &s.ops[at[*i]];
                let v = act(&mut h, op, &s.id);
                done.push(op.clone());
                r.transitions(1);
                if v != s.views[at[*i]] {
                    problem = Some(format!(
                        "flow {:?}, its step {}: {}",
                        s.flow,
                        at[*i],
                        first_diff(&s.views[at[*i]], &v)
                    ));
                }
                at[*i] += 1;
            }
        }
        if let Some(d) = problem {
            r.violation(
                &format!("{}:{}", p.name, show_ops(&done)),
                format!("{}operations so far: {}\nexpected is what the flow shows when played alone\n{d}", describe(p, cfg, &[]), show_ops(&done)),
            );
            return false;
        }
    }
    true
}

fn interleave(r: &Report) {
    let mut tasks: Vec<(Vec<usize>, bool, bool)> = Vec::new();
    for a in 0..BODIES.len() {
        for b in 0..BODIES.len() {
            tasks.push((vec![a, b], false, true));
            tasks.push((vec![a, b], true, a % 2 == 0));
        }
    }
    let triples = r.tier.pick(3, BODIES.len());
    for a in 0..BODIES.len() {
        for b in 0..triples {
            for c in 0..triples {
                tasks.push((
                    vec![
                        a,
                        (a + 1 + b) % BODIES.len(),
                        (a + 1 + b + c) % BODIES.len(),
                    ],
                    true,
                    true,
                ));
            }
        }
    }
    par_each(r, &tasks, |(bodies, with_default, reset)| {
        let ids = ["d", "p", "q"];
        // Without the default flow the first body runs in flow "one".
        let flows: Vec<&str> = if *with_default {
            vec!["", "one", "two"]
        } else {
            vec!["one", "two", "three"]
        };
        let parts: Vec<(usize, &str)> = bodies
            .iter()
            .enumerate()
            .map(|(i, b)| (*b, ids[i]))
            .collect();
        let src = source(&parts);
        let name = bodies
            .iter()
            .map(|b| BODIES[*b].0)
            .collect::<Vec<_>>()
            .join("+");
        let p = match from_source(&name, &src) {
            Ok(p) => p,
            Err(e) => {
                r.engine_error(format!("{name}: {e}"));
                return;
            }
        };
        let cfg = Cfg {
            seed: Some(3),
            handler: true,
            ..Default::default()
        };
        let pair = bodies.len() == 2;
        let (len, cap) = if pair {
            (r.tier.pick(4, 6), r.tier.pick(4, 8))
        } else {
            (r.tier.pick(2, 4), r.tier.pick(2, 3))
        };
        let sets: Vec<Vec<Script>> = bodies
            .iter()
            .enumerate()
            .map(|(i, _)| solo(&p, &cfg, flows[i], ids[i], *reset, len, cap))
            .collect();
        let mut combos: Vec<Vec<Script>> = vec![vec![]];
        for s in &sets {
            combos = combos
                .into_iter()
                .flat_map(|c| {
                    s.iter().map(move |x| {
                        let mut c = c.clone();
                        c.push(x.clone());
                        c
                    })
                })
                .collect();
        }
        r.count("script combinations", combos.len() as u64);
        for (ci, c) in combos.iter().enumerate() {
            let lens: Vec<usize> = c.iter().map(|s| s.ops.len()).collect();
            let all = merges(&lens);
            r.outcome(
                &c.iter()
                    .flat_map(|s| s.views.last().cloned())
                    .collect::<String>(),
            );
            for (mi, order) in all.iter().enumerate() {
                if r.stop() {
                    return;
                }
                r.traces(1);
                if !replay(r, &p, &cfg, c, order, Extra::None) {
                    return;
                }
                if (mi + ci) % r.tier.pick(4, 1) == 0
                    && !replay(r, &p, &cfg, c, order, Extra::Reload(usize::MAX))
                {
                    return;
                }
                // Single positions: every one, for a part of the merges in turn (quick).
                let every = r.tier.pick(12, 1);
                if (mi + ci) % every == 0 {
                    for n in 1..order.len() {
                        if !replay(r, &p, &cfg, c, order, Extra::Reload(n)) {
                            return;
                        }
                        for f in 0..c.len() {
                            if !replay(r, &p, &cfg, c, order, Extra::Remove(f, n))
                                || !replay(r, &p, &cfg, c, order, Extra::Jump(f, n))
                            {
                                return;
                            }
                        }
                    }
                }
            }
        }
        r.sample(json!({"program": name, "scripts": combos.len(), "example": combos.last().map(|c| c.iter().map(|s| format!("{}: {}", s.flow, show_ops(&s.ops))).collect::<Vec<_>>())}));
    });
}

/// Switching away and back, at every position of every play history, is a no-op.
fn away_and_back(r: &Report) {
    let progs = programs(r);
    par_each(r, &progs, |p| {
        let cfg = Cfg {
            seed: Some(42),
            handler: true,
            observe_all: true,
            ..Default::default()
        };
        let big = is_big(p);
        let paths = enumerate(
            p,
            &cfg,
            &[],
            &play_moves,
            if big { 2 } else { r.tier.pick(12, 300) },
            40,
            40,
        );
        r.transitions(paths.steps);
        let plans: Vec<Vec<Op>> = vec![
            vec![Op::Switch("x".into()), Op::SwitchDefault],
            vec![
                Op::Switch("x".into()),
                Op::Switch("y".into()),
                Op::SwitchDefault,
            ],
            vec![Op::Switch("x".into()), Op::RemoveFlow("x".into())],
            vec![
                Op::Switch("x".into()),
                Op::SwitchDefault,
                Op::RemoveFlow("x".into()),
            ],
            vec![Op::SwitchDefault],
            vec![
                Op::Switch("x".into()),
                Op::Reload,
                Op::SwitchDefault,
                Op::Reload,
            ],
        ];
        for path in &paths.paths {
            let Ok(mut h) = Host::new(p, &cfg) else {
                return;
            };
            let base = trace(&mut h, path);
            if h.dead {
                continue;
            }
            r.traces(1);
            for at in 0..=path.len() {
                for plan in &plans {
                    if r.stop() {
                        return;
                    }
                    // What a reload does to pending observers and messages is not asked here.
                    let Ok(mut h) = Host::new(p, &cfg) else {
                        return;
                    };
                    let mut got = trace(&mut h, &path[..at]);
                    let before = h.all();
                    let mut bad = None;
                    for op in plan {
                        let res = h.apply(op);
                        if res != "Ok" {
                            bad = Some(format!("{op} returns {res}"));
                        }
                    }
                    let log = h.take_log();
                    if !log.is_empty() {
                        bad = Some(format!("switching causes {log:?}"));
                    }
                    let after = h.all();
                    if bad.is_none() && before != after {
                        bad = Some(first_diff(&before, &after));
                    }
                    got.extend(trace(&mut h, &path[at..]));
                    r.states(1);
                    r.transitions((path.len() + plan.len()) as u64);
                    // A loaded story may report assignments of equal values differently.
                    let strip = |v: &[String]| -> Vec<String> {
                        if !plan.contains(&Op::Reload) {
                            return v.to_vec();
                        }
                        v.iter()
                            .map(|s| {
                                s.lines()
                                    .filter(|l| !l.starts_with("! observer"))
                                    .map(|l| format!("{l}\n"))
                                    .collect()
                            })
                            .collect()
                    };
                    if bad.is_none()
                        && let Some((k, d)) = compare(&strip(&base), &strip(&got))
                    {
                        bad = Some(format!("operation {k} then shows {d}"));
                    }
                    if let Some(d) = bad {
                        r.violation(
                            &format!(
                                "away:{}:{}:{at}:{}",
                                p.name,
                                show_ops(plan),
                                show_ops(&path[..at])
                            ),
                            format!(
                                "{}before operation {at}: {}\n{d}",
                                describe(p, &cfg, path),
                                show_ops(plan)
                            ),
                        );
                        return;
                    }
                }
            }
        }
    });
}

pub fn run(r: &Report) {
    r.assume("the flow bodies touch disjoint knots and variables and use neither TURNS nor random numbers, which are global counts");
    interleave(r);
    away_and_back(r);
}
