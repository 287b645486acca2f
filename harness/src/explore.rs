//! Enumeration of host-operation histories and step-by-step comparison of executions.
use crate::host::*;
use crate::prog::Prog;
use crate::util::*;

pub struct Paths {
    pub paths: Vec<Vec<Op>>,
    /// Number of branching points completely enumerated on every path.
    pub depth: usize,
    /// Every path runs to its natural end.
    pub complete: bool,
    pub steps: u64,
}

/// Every history allowed by `alphabet`, as far as the number of histories stays below `cap`:
/// all combinations of the first `depth` branching decisions. Where the alphabet leaves a
/// single operation it is taken without counting as a decision.
pub fn enumerate(
    prog: &Prog,
    cfg: &Cfg,
    pre: &[Op],
    alphabet: &dyn Fn(&Host) -> Vec<Op>,
    cap: usize,
    max_depth: usize,
    max_len: usize,
) -> Paths {
    let mut steps = 0;
    // (path, alternatives at its end)
    let mut level: Vec<(Vec<Op>, Vec<Op>)> = Vec::new();
    let mut finished: Vec<Vec<Op>> = Vec::new();
    let mut extend = |path: Vec<Op>, next: &mut Vec<(Vec<Op>, Vec<Op>)>, fin: &mut Vec<Vec<Op>>| {
        let Ok(mut h) = Host::new(prog, cfg) else {
            return;
        };
        let mut p = path;
        for op in &p {
            h.apply(op);
            steps += 1;
        }
        loop {
            let m = if p.len() >= max_len {
                vec![]
            } else {
                alphabet(&h)
            };
            if m.is_empty() || h.dead {
                fin.push(p);
                return;
            }
            if m.len() == 1 {
                h.apply(&m[0]);
                steps += 1;
                p.push(m[0].clone());
                continue;
            }
            next.push((p, m));
            return;
        }
    };
    extend(pre.to_vec(), &mut level, &mut finished);
    let mut depth = 0;
    let mut complete = true;
    while !level.is_empty() {
        let n: usize = level.iter().map(|l| l.1.len()).sum::<usize>() + finished.len();
        if n > cap || depth >= max_depth {
            complete = false;
            break;
        }
        let mut next = Vec::new();
        for (p, m) in &level {
            for op in m {
                let mut q = p.clone();
                q.push(op.clone());
                extend(q, &mut next, &mut finished);
            }
        }
        level = next;
        depth += 1;
    }
    let mut paths = finished;
    paths.extend(level.into_iter().map(|l| l.0));
    if paths.iter().any(|p| p.len() >= max_len) {
        complete = false;
    }
    Paths {
        paths,
        depth,
        complete,
        steps,
    }
}

pub fn play_moves(h: &Host) -> Vec<Op> {
    h.moves()
}

/// Observation after one operation.
pub fn step(h: &mut Host, op: &Op) -> String {
    let r = h.apply(op);
    let mut s = format!("> {op}\n{r}\n");
    for e in h.take_log() {
        s.push_str(&format!("! {e}\n"));
    }
    s.push_str(&h.screen());
    s.push_str(&h.memory());
    s
}

/// Observation after every operation; stops at a panic.
pub fn trace(h: &mut Host, ops: &[Op]) -> Vec<String> {
    let mut out = Vec::new();
    for op in ops {
        out.push(step(h, op));
        if h.dead {
            break;
        }
    }
    out
}

pub fn describe(prog: &Prog, cfg: &Cfg, ops: &[Op]) -> String {
    let mut s = format!(
        "program: {}\nhost: seed={:?} handler={} observe_all={}\noperations: {}\n",
        prog.name,
        cfg.seed,
        cfg.handler,
        cfg.observe_all,
        show_ops(ops)
    );
    s.push_str("source:\n");
    for l in prog.source.lines().take(120) {
        s.push_str("    ");
        s.push_str(l);
        s.push('\n');
    }
    if prog.source.is_empty() || prog.source.len() > 20_000 {
        s.push_str(&format!(
            "json: {}\n",
            prog.json.chars().take(3000).collect::<String>()
        ));
    }
    s
}

/// Compares two sequences of observations; the first difference, if any.
pub fn compare(expected: &[String], actual: &[String]) -> Option<(usize, String)> {
    for i in 0..expected.len().max(actual.len()) {
        let e = expected.get(i).map(String::as_str).unwrap_or("<nothing>");
        let a = actual.get(i).map(String::as_str).unwrap_or("<nothing>");
        if e != a {
            return Some((i, first_diff(e, a)));
        }
    }
    None
}

/// The programs most checks explore: zoo first, then the reference-compiled corpus.
pub fn programs(r: &Report) -> Vec<Prog> {
    let (mut z, bad) = crate::prog::zoo();
    for b in bad {
        r.note(format!("not explored, does not compile: {b}"));
        r.count("zoo programs that do not compile", 1);
    }
    if z.len() < 10 {
        r.engine_error("fewer than ten zoo programs compile");
    }
    if let Ok(f) = std::env::var("MC_PROG") {
        z.extend(crate::prog::corpus_reference());
        z.retain(|p| p.name.contains(&f));
        return z;
    }
    z.extend(crate::prog::corpus_reference());
    z
}

pub fn seeded() -> Cfg {
    Cfg {
        seed: Some(42),
        ..Default::default()
    }
}
