//! C11: variable observers see each committed change once, with the final value.
//!
//! (a) Every program of a small language of assignments around line ends (look-ahead, glue,
//! functions, references, tunnels, choice conditions, change-and-revert, errors) up to a length,
//! played with every slicing; (b) every sequence of host operations (continues, slices, choices,
//! assignments, observer registration and removal, saves, loads, resets, evaluations) up to a
//! depth on fixed programs; (c) every play history of the program set. The oracle compares the
//! observed variables before and after each operation with the notifications it caused.
use crate::{explore::*, host::*, prog::*, util::*};
use serde_json::json;
use std::collections::BTreeMap;

type Vals = BTreeMap<String, String>;

fn vals(h: &Host) -> Vals {
    h.prog
        .vars
        .iter()
        .map(|v| {
            let x = catch(|| h.story.get_variable(v).map(|v| render(&v))).unwrap_or(None);
            (v.clone(), x.unwrap_or("none".into()))
        })
        .collect()
}

/// The monitor: what is registered, what the variables were when the current line began.
struct Monitor {
    registered: Vec<(usize, String)>,
    line_start: Option<Vals>,
    notifications: u64,
}

fn paused(h: &mut Host) -> bool {
    h.story.get_current_text().is_err()
}

impl Monitor {
    fn new() -> Monitor {
        Monitor {
            registered: vec![],
            line_start: None,
            notifications: 0,
        }
    }

    fn observe_all(h: &Host) -> Monitor {
        let mut m = Monitor::new();
        for v in &h.prog.vars {
            m.registered.push((0, v.clone()));
        }
        m
    }

    /// Performs one operation and judges the notifications.
    fn step(&mut self, h: &mut Host, op: &Op) -> (String, Option<String>) {
        h.take_log();
        let before = vals(h);
        let was_paused = paused(h);
        let res = h.apply(op);
        if h.dead {
            return (res.clone(), Some(format!("{op} gives {res}")));
        }
        let after = vals(h);
        let log = h.take_log();
        let ok = res.starts_with("Ok");
        let mut seen: Vec<(usize, String, String)> = Vec::new();
        let mut observed_yet = false;
        for l in &log {
            if let Some(r) = l.strip_prefix("observer") {
                let (id, r) = r.split_once(' ').unwrap();
                let (n, v) = r.split_once('=').unwrap();
                seen.push((id.parse().unwrap(), n.into(), v.into()));
                observed_yet = true;
            } else if l.starts_with("external") && observed_yet && *op == Op::Cont {
                return (
                    res,
                    Some("an observer is called before the continue's work is done".into()),
                );
            }
        }
        self.notifications += seen.len() as u64;
        for (id, n, _) in &seen {
            if !self.registered.contains(&(*id, n.clone())) {
                return (
                    res,
                    Some(format!(
                        "observer {id} is not registered for {n} and is notified: {log:?}"
                    )),
                );
            }
        }
        let list = |id: usize, n: &str| -> Vec<&String> {
            seen.iter()
                .filter(|s| s.0 == id && s.1 == n)
                .map(|s| &s.2)
                .collect()
        };
        let mut bad = None;
        match op {
            Op::Cont | Op::Async(_) | Op::Sliced(_) => {
                let start = match (&self.line_start, was_paused) {
                    (Some(s), true) => s.clone(),
                    _ => before.clone(),
                };
                if paused(h) {
                    if !seen.is_empty() {
                        bad = Some("observers are called before the line is complete".to_string());
                    }
                    self.line_start = Some(start);
                } else {
                    self.line_start = None;
                    for (id, n) in &self.registered {
                        let got = list(*id, n);
                        let changed = start[n] != after[n];
                        let wrong = if changed {
                            got != [&after[n]]
                        } else {
                            !got.is_empty() && got != [&after[n]]
                        };
                        if wrong {
                            bad = Some(format!(
                                "{n} was {} and is {} after the continue; observer {id} is notified of {got:?}",
                                start[n], after[n]
                            ));
                        }
                    }
                }
            }
            Op::Set(name, _) => {
                for (id, n) in &self.registered {
                    let got = list(*id, n);
                    let changed = before[n] != after[n];
                    if n == name && ok {
                        if (changed && got != [&after[n]])
                            || (!changed && !got.is_empty() && got != [&after[n]])
                        {
                            bad = Some(format!(
                                "{n} assigned {} by the host; observer {id} is notified of {got:?}",
                                after[n]
                            ));
                        }
                    } else if !got.is_empty() {
                        bad = Some(format!("observer {id} of {n} is notified by {op}: {got:?}"));
                    }
                }
            }
            Op::ContMax | Op::Eval(..) => {
                // Several continues: the last notification carries the final value.
                for (id, n) in &self.registered {
                    let got = list(*id, n);
                    let changed = before[n] != after[n];
                    if (changed && got.is_empty())
                        || (!got.is_empty() && **got.last().unwrap() != after[n])
                    {
                        bad = Some(format!(
                            "{n} was {} and is {}; observer {id} is notified of {got:?}",
                            before[n], after[n]
                        ));
                    }
                }
            }
            Op::Reset | Op::LoadSaved | Op::LoadText(_) => {
                if ok {
                    self.line_start = None;
                }
                for (id, n) in &self.registered {
                    let got = list(*id, n);
                    if got.len() > 1 || (got.len() == 1 && *got[0] != after[n]) {
                        bad = Some(format!(
                            "{n} is {}; observer {id} is notified of {got:?}",
                            after[n]
                        ));
                    }
                }
            }
            _ => {
                if !seen.is_empty() {
                    bad = Some(format!("notifications without a change: {log:?}"));
                }
            }
        }
        let mut expect_ok = |want: bool| {
            if ok != want {
                bad = Some(format!("{op} returns {res}"));
            }
        };
        match op {
            Op::Observe(n, id) => {
                expect_ok(!was_paused && before.contains_key(n));
                if ok {
                    self.registered.push((*id, n.clone()));
                }
            }
            Op::Unobserve(id, n) => {
                let hit = |x: &(usize, String)| x.0 == *id && n.as_ref().is_none_or(|n| *n == x.1);
                expect_ok(!was_paused && self.registered.iter().any(hit));
                if ok {
                    self.registered.retain(|x| !hit(x));
                }
            }
            _ => {}
        }
        (res, bad.map(|b| format!("{b}\nlog: {log:?}")))
    }
}

const ITEMS: [&str; 15] = [
    "T", "A", "B", "R", "G", "g", "F", "P", "C", "K", "U", "L", "X", "E", "H",
];

fn program(items: &[usize]) -> String {
    let mut s = String::from(
        "EXTERNAL ext()\nLIST l = (x), y, w\nVAR z = 0\nVAR a = 0\nVAR b = \"s\"\nVAR c = 1\nVAR d = true\n-> start\n== start\nStart.\n",
    );
    for (i, it) in items.iter().enumerate() {
        s.push_str(&match ITEMS[*it] {
            "T" => format!("T{i}.\n"),
            "A" => "~ a++\n".to_string(),
            "B" => "~ b = \"{a}{b}\"\n~ d = not d\n".to_string(),
            "R" => "~ c++\n~ c--\n".to_string(),
            "G" => format!("<> G{i}.\n"),
            "g" => format!("g{i} <>\n"),
            "F" => format!("F{i} {{fa()}}.\n"),
            "P" => "~ inc(c)\n".to_string(),
            "C" => format!("* [c{i}]\n-\n"),
            "K" => format!("* {{bump()}} [k{i}]\n* ->\n-\n"),
            "U" => "-> tun ->\n".to_string(),
            "L" => "~ l += y\n~ l -= x\n".to_string(),
            "X" => "~ a = ext()\n".to_string(),
            "E" => "~ c = 5\nE {1 / z}.\n".to_string(),
            "H" => "{a > 1:\n ~ a = 0\n Reset.\n- else:\n ~ c++\n}\n".to_string(),
            _ => unreachable!(),
        });
    }
    s.push_str(
        "-> END\n== tun\n~ a++\nTun.\n~ b = \"t\"\n->->\n== function fa()\n~ a++\n~ return a\n== function inc(ref v)\n~ v++\n== function bump()\n~ c++\n~ return true\n",
    );
    s
}

fn generated(r: &Report) {
    let k = ITEMS.len() as u64;
    let len = r.tier.pick(4u32, 5);
    let mut total = 0u64;
    let mut sizes = vec![];
    for l in 1..=len {
        sizes.push((l, total));
        total += k.pow(l);
    }
    r.count("assignment programs", total);
    par_range(r, total, 32, |n| {
        if r.expired() {
            return;
        }
        let (l, base) = *sizes.iter().rev().find(|s| s.1 <= n).unwrap();
        let mut x = n - base;
        let mut items = Vec::new();
        for _ in 0..l {
            items.push((x % k) as usize);
            x /= k;
        }
        let name: String = items.iter().map(|i| ITEMS[*i]).collect();
        let src = program(&items);
        let p = match from_source(&name, &src) {
            Ok(p) => p,
            Err(e) => {
                r.count("assignment programs that do not compile", 1);
                r.note(format!("{name}: {e}"));
                return;
            }
        };
        for handler in [false, true] {
            for ext_safe in [true, false] {
                if !ext_safe && !name.contains('X') {
                    continue;
                }
                for slice in [-1i64, 0, 1, 3] {
                    let cfg = Cfg {
                        seed: Some(1),
                        handler,
                        observe_all: true,
                        no_bind: true,
                    };
                    let Ok(mut h) = Host::new(&p, &cfg) else {
                        return;
                    };
                    h.apply(&Op::Bind("ext".into(), ext_safe));
                    let mut m = Monitor::observe_all(&h);
                    let mut ops = Vec::new();
                    for _ in 0..300 {
                        let op = if h.can() || paused(&mut h) {
                            if slice < 0 {
                                Op::Cont
                            } else {
                                Op::Async(slice)
                            }
                        } else if h.n_choices() > 0 {
                            Op::Choose(0)
                        } else {
                            break;
                        };
                        ops.push(op.clone());
                        let (_, bad) = m.step(&mut h, &op);
                        r.transitions(1);
                        if let Some(d) = bad {
                            r.violation(
                                &format!("assign:{name}:{slice}"),
                                format!(
                                    "source:\n{src}\nhandler {handler}\noperations: {}\n{d}",
                                    show_ops(&ops)
                                ),
                            );
                            return;
                        }
                    }
                    r.states(1);
                    r.traces(1);
                    r.outcome(&format!("{:?}{}", vals(&h), m.notifications));
                }
            }
        }
    });
}

/// Operation sequences on fixed programs.
fn sequences(r: &Report) {
    let srcs = [
        (
            "counter",
            "VAR a = 0\nVAR b = 0\nVAR o = \"q\"\n-> k\n== k\nLine {a}.\n~ a++\nNext {b}.\n~ b = a\n~ a = a * 2\n+ [again] -> k\n+ [err] ~ a = 50\n Oops {a / (b - b)}\n -> k\n== function bump(x)\n~ b = b + x\n~ return b\n",
        ),
        (
            "lists",
            "LIST a = (p), q, r\nVAR b = ()\nVAR o = 1\n-> k\n== k\nList {a}.\n~ a++\n~ b += a\nNow {b}. <>\n~ a = LIST_INVERT(a)\nGlued.\n+ [more] -> k\n+ {bump(1)} [cond] -> k\n== function bump(x)\n~ a -= q\n~ return 1\n",
        ),
    ];
    let depth = r.tier.pick(4, 6);
    for (name, src) in srcs {
        let p = match from_source(name, src) {
            Ok(p) => p,
            Err(e) => {
                r.engine_error(format!("{name}: {e}"));
                continue;
            }
        };
        let setv = |x: &str| {
            if name == "lists" {
                V::Var(if x == "a" { "b".into() } else { "a".into() })
            } else {
                V::I(7)
            }
        };
        let mut alphabet: Vec<Op> = vec![
            Op::Cont,
            Op::Async(0),
            Op::Choose(0),
            Op::Choose(1),
            Op::Set("a".into(), setv("a")),
            Op::Set("b".into(), setv("b")),
            Op::Observe("a".into(), 0),
            Op::Observe("b".into(), 0),
            Op::Observe("a".into(), 1),
            Op::Observe("nope".into(), 0),
            Op::Unobserve(0, Some("a".into())),
            Op::Unobserve(0, Some("b".into())),
            Op::Unobserve(0, Some("nope".into())),
            Op::Unobserve(0, None),
            Op::Unobserve(1, None),
            Op::Save,
            Op::LoadSaved,
            Op::Reset,
            Op::Eval("bump".into(), vec![V::I(2)]),
            Op::Switch("f".into()),
            Op::SwitchDefault,
        ];
        // Start-ups after which the sequences run.
        let starts: Vec<Vec<Op>> = vec![
            vec![Op::Observe("a".into(), 0), Op::Observe("b".into(), 1)],
            vec![
                Op::Observe("a".into(), 0),
                Op::Observe("b".into(), 0),
                Op::Observe("a".into(), 1),
                Op::Cont,
                Op::Save,
                Op::Cont,
            ],
            vec![
                Op::Observe("a".into(), 0),
                Op::Observe("a".into(), 1),
                Op::Observe("a".into(), 2),
                Op::Cont,
                Op::Async(1),
            ],
        ];
        if name == "lists" {
            alphabet.retain(|o| !matches!(o, Op::Switch(_) | Op::SwitchDefault));
        }
        let n = (alphabet.len() as u64).pow(depth);
        r.count("operation sequences", n * starts.len() as u64);
        for start in &starts {
            let bad_prefix = std::sync::Mutex::new(std::collections::HashSet::<String>::new());
            par_range(r, n, 512, |mut x| {
                if r.expired() {
                    return;
                }
                let mut ops = Vec::new();
                for _ in 0..depth {
                    ops.push(alphabet[(x % alphabet.len() as u64) as usize].clone());
                    x /= alphabet.len() as u64;
                }
                let cfg = Cfg {
                    seed: Some(1),
                    no_bind: true,
                    ..Default::default()
                };
                let Ok(mut h) = Host::new(&p, &cfg) else {
                    return;
                };
                let mut m = Monitor::new();
                r.traces(1);
                for (k, op) in start.iter().chain(&ops).enumerate() {
                    // The same observer twice on one variable is not specified.
                    if let Op::Observe(v, id) = op
                        && m.registered.contains(&(*id, v.clone()))
                    {
                        return;
                    }
                    let (_, bad) = m.step(&mut h, op);
                    r.transitions(1);
                    if let Some(d) = bad {
                        let all: Vec<Op> = start.iter().chain(&ops).take(k + 1).cloned().collect();
                        let key = show_ops(&all);
                        if bad_prefix.lock().unwrap().insert(key.clone()) {
                            r.violation(
                                &format!("{name}:{key}"),
                                format!("{}{d}", describe(&p, &cfg, &all)),
                            );
                        }
                        return;
                    }
                }
                r.states(1);
            });
        }
    }
}

fn histories(r: &Report) {
    let progs = programs(r);
    par_each(r, &progs, |p| {
        if p.vars.is_empty() {
            return;
        }
        let cfg = Cfg {
            seed: Some(42),
            observe_all: true,
            ..Default::default()
        };
        let big = is_big(p);
        let paths = enumerate(
            p,
            &cfg,
            &[],
            &play_moves,
            if big { 4 } else { r.tier.pick(30, 1000) },
            40,
            60,
        );
        r.transitions(paths.steps);
        for path in &paths.paths {
            for extra in 0..4 {
                if r.stop() {
                    return;
                }
                let Ok(mut h) = Host::new(p, &cfg) else {
                    return;
                };
                let mut m = Monitor::observe_all(&h);
                r.traces(1);
                let mut done: Vec<Op> = vec![];
                for (k, op) in path.iter().enumerate() {
                    let mut ops = vec![];
                    match extra {
                        1 if k % 2 == 1 => ops.extend([Op::Save, Op::LoadSaved]),
                        2 if k == path.len() / 2 => {
                            ops.push(Op::Unobserve(0, Some(p.vars[0].clone())));
                            for v in &p.vars {
                                ops.push(Op::Observe(v.clone(), 1));
                            }
                        }
                        3 if k == path.len() / 2 => {
                            ops.push(Op::Reset);
                            ops.extend(path[..k].iter().cloned());
                        }
                        _ => {}
                    }
                    ops.push(op.clone());
                    for op in ops {
                        done.push(op.clone());
                        let (_, bad) = m.step(&mut h, &op);
                        r.transitions(1);
                        r.states(1);
                        if h.dead {
                            return;
                        }
                        if let Some(d) = bad {
                            r.violation(
                                &format!("history:{}:{}", p.name, show_ops(&done)),
                                format!("{}{d}", describe(p, &cfg, &done)),
                            );
                            return;
                        }
                    }
                    r.count("notifications in histories", m.notifications);
                    m.notifications = 0;
                }
            }
        }
    });
}

pub fn run(r: &Report) {
    r.assume("a variable whose value is the same before and after may be notified (once, with that value) or not; a reset or load may notify (once per variable, with the value it then has)");
    sequences(r);
    generated(r);
    histories(r);
    r.sample(json!({"assignment program": program(&[1, 0, 8, 5])}));
}
