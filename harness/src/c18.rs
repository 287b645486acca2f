//! C18: dropping a story releases all the memory it used.
//!
//! A counting allocator tells the live bytes of the current thread. Every history (plays, flows)
//! of the program set is performed in a new story that is then dropped, at every position and
//! with every operation of a catalogue before the drop: from the second cycle on the live bytes
//! must be what they were before the story was made. On one instance, rounds of reset+replay, of
//! loads and of every other operation that replaces state must not make the live bytes grow.
use crate::{c02::flow_alphabet, explore::*, host::*, prog::*, util::*};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

// The counters are per thread: a story never leaves its thread.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        unsafe { System.realloc(p, l, n) }
    }
}

fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// Operations performed at the end of a history.
fn endings(p: &Prog, full: bool) -> Vec<Vec<Op>> {
    let mut out = vec![
        vec![],
        vec![Op::Reset],
        vec![Op::Reload],
        vec![Op::Save, Op::Cont, Op::LoadSaved],
        vec![Op::Async(1)],
        vec![Op::LoadText("{}".into())],
        vec![Op::Switch("x".into()), Op::Cont],
        vec![
            Op::Switch("x".into()),
            Op::Cont,
            Op::SwitchDefault,
            Op::RemoveFlow("x".into()),
        ],
        vec![Op::GlobalTags],
    ];
    for k in p.knots.iter().take(if full { 100 } else { 4 }) {
        out.push(vec![Op::Path(k.clone(), true, vec![]), Op::Cont]);
        out.push(vec![
            Op::Path(k.clone(), false, vec![]),
            Op::TagsAt(k.clone()),
        ]);
    }
    for (f, n) in p.funcs.iter().take(if full { 20 } else { 3 }) {
        out.push(vec![Op::Eval(f.clone(), vec![V::I(2); *n])]);
    }
    out
}

fn cycle(p: &Prog, cfg: &Cfg, ops: &[&[Op]]) -> i64 {
    let before = live();
    {
        if let Ok(mut h) = Host::new(p, cfg) {
            for op in ops.iter().flat_map(|o| o.iter()) {
                h.apply(op);
                h.n_choices();
                h.screen();
            }
            h.memory();
        }
    }
    live() - before
}

fn cycles(r: &Report, p: &Prog, cfg: &Cfg, paths: &[Vec<Op>], full: bool) {
    let ends = endings(p, full);
    let mut done = std::collections::HashSet::new();
    for path in paths {
        r.traces(1);
        for at in 0..=path.len() {
            if !done.insert(show_ops(&path[..at])) {
                continue;
            }
            for e in &ends {
                if r.stop() {
                    return;
                }
                let ops: [&[Op]; 2] = [&path[..at], e];
                r.states(1);
                r.transitions((at + e.len()) as u64);
                let first = cycle(p, cfg, &ops);
                if first == 0 {
                    continue;
                }
                // Once-per-thread structures are legitimate in a first cycle.
                let (second, third) = (cycle(p, cfg, &ops), cycle(p, cfg, &ops));
                if second > 0 && third > 0 {
                    let all: Vec<Op> = path[..at].iter().chain(e).cloned().collect();
                    r.violation(
                        &format!("{}:{}", p.name, show_ops(&all)),
                        format!("{}dropping the story leaves {second} and {third} bytes in the second and third cycle", describe(p, cfg, &all)),
                    );
                    return;
                }
            }
        }
    }
}

/// Rounds of operations on one instance.
fn rounds(r: &Report, p: &Prog, cfg: &Cfg, paths: &[Vec<Op>]) {
    for path in paths {
        for at in [0, path.len() / 2, path.len()] {
            let Ok(mut h) = Host::new(p, cfg) else { return };
            for op in &path[..at] {
                h.apply(op);
                h.n_choices();
            }
            if h.dead {
                break;
            }
            let Ok(save) = h.story.save_state() else {
                continue;
            };
            let mut reset = vec![Op::Reset];
            reset.extend(path.iter().cloned());
            let load = vec![Op::LoadText(save.clone())];
            let mut replay = vec![Op::LoadText(save)];
            replay.extend(path[at..].iter().cloned());
            let bad = vec![Op::LoadText("{\"inkSaveVersion\":10,\"flows\":3}".into())];
            let mut flows = vec![Op::Reset];
            for i in 0..3 {
                flows.push(Op::Switch(format!("f{i}")));
                if let Some(k) = p.knots.first() {
                    flows.push(Op::Path(k.clone(), true, vec![]));
                    flows.push(Op::Cont);
                }
            }
            let remove: Vec<Op> = vec![
                Op::Switch("f".into()),
                Op::Path(p.knots.first().cloned().unwrap_or_default(), true, vec![]),
                Op::Cont,
                Op::RemoveFlow("f".into()),
            ];
            let mut set = vec![Op::Reset];
            for v in p.vars.iter().take(3) {
                set.push(Op::Set(v.clone(), V::S("some text".into())));
            }
            let evals: Vec<Op> = p
                .funcs
                .iter()
                .take(4)
                .map(|(f, n)| Op::Eval(f.clone(), vec![V::I(1); *n]))
                .collect();
            let watch = vec![
                Op::Observe(p.vars.first().cloned().unwrap_or_default(), 1),
                Op::Unobserve(1, None),
            ];
            for (what, ops) in [
                ("reset", vec![Op::Reset]),
                ("reset and replay", reset),
                ("load", load),
                ("load and replay", replay),
                ("failed load", bad),
                ("reset and flows", flows),
                ("flow made and removed", remove),
                ("reset and set", set),
                ("evaluate functions", evals),
                ("observe and remove", watch),
            ] {
                if r.stop() {
                    return;
                }
                // Host functions may grow a story's own data (a list, a string): start over.
                let Ok(mut h) = Host::new(p, cfg) else { return };
                for op in &path[..at] {
                    h.apply(op);
                    h.n_choices();
                }
                let mut sizes = Vec::with_capacity(32);
                for round in 0..26 {
                    if round == 8 && sizes[3..8].iter().all(|s| *s <= sizes[2]) {
                        break;
                    }
                    for op in &ops {
                        h.apply(op);
                        h.take_log();
                        h.n_choices();
                    }
                    sizes.push(0i64);
                    let n = sizes.len() - 1;
                    sizes[n] = live();
                }
                r.states(1);
                r.transitions((ops.len() * sizes.len()) as u64);
                if sizes.len() == 26 && h_grows(&sizes) && !h.dead {
                    // A function that adds to a variable makes the state itself larger.
                    if what == "evaluate functions" {
                        let state =
                            |h: &mut Host| h.story.save_state().map(|s| s.len()).unwrap_or(0);
                        let a = state(&mut h);
                        for op in &ops {
                            h.apply(op);
                        }
                        if state(&mut h) != a {
                            continue;
                        }
                    }
                    r.violation(
                        &format!("{}:rounds:{what}:{}", p.name, show_ops(&path[..at])),
                        format!("{}after {at} operations, rounds of {what} ({}) leave these live bytes: {sizes:?}", describe(p, cfg, path), show_ops(&ops)),
                    );
                    return;
                }
            }
        }
    }
}

/// Keeps growing: the largest of every six rounds exceeds the largest of the six before.
fn h_grows(sizes: &[i64]) -> bool {
    let max: Vec<i64> = sizes[2..]
        .chunks(6)
        .map(|c| *c.iter().max().unwrap())
        .collect();
    max.windows(2).all(|w| w[1] > w[0])
}

pub fn run(r: &Report) {
    r.assume("live bytes are counted per thread; stories are not sent between threads");
    let progs = programs(r);
    let full = r.tier == Tier::Thorough;
    let mut tasks = Vec::new();
    for (i, p) in progs.iter().enumerate() {
        for handler in [false, true] {
            tasks.push((i, handler, false));
        }
        if p.has("flows") {
            tasks.push((i, true, true));
        }
    }
    par_each(r, &tasks, |(i, handler, flows)| {
        let p = &progs[*i];
        let cfg = Cfg {
            seed: Some(42),
            handler: *handler,
            observe_all: true,
            ..Default::default()
        };
        let big = is_big(p);
        let cap = if big {
            r.tier.pick(1, 8)
        } else {
            r.tier.pick(12, 120)
        };
        let len = if big { 25 } else { 40 };
        let paths = if *flows {
            enumerate(p, &cfg, &[], &flow_alphabet(p), r.tier.pick(40, 300), 4, 10)
        } else {
            enumerate(p, &cfg, &[], &play_moves, cap, 40, len)
        };
        r.transitions(paths.steps);
        cycles(r, p, &cfg, &paths.paths, full);
        rounds(r, p, &cfg, &paths.paths);
        r.sample(json!({"program": p.name, "histories": paths.paths.len()}));
    });
}
