//! C05: the Rust compiler agrees with the reference compiler on the corpus.
//!
//! Every corpus source is compiled and explored in lockstep with its reference-compiled story, on
//! the same runtime with the same seed: breadth first over all choices, with pairs of states met
//! before visited once. Every line, its tags, every offered choice and all global variables must
//! agree in every pair. Where the reference story shuffles, the orders depend on content paths,
//! so the sets of plays under every seed of a range are compared instead.
use crate::{host::*, prog::*, util::*};
use bladeink_compiler::Compiler;
use serde_json::Value;
use std::collections::{BTreeSet, HashSet, VecDeque};

/// A corpus program in both forms.
pub struct Pair {
    pub name: String,
    pub ours: Prog,
    pub reference: Prog,
}

pub fn pairs(r: &Report) -> Vec<Pair> {
    let mut out = Vec::new();
    let only = std::env::var("MC_PROG").ok();
    for (name, ink, json) in corpus_pairs() {
        if only.as_ref().is_some_and(|o| !name.contains(o.as_str())) {
            continue;
        }
        let src = std::fs::read_to_string(&ink).unwrap_or_default();
        let reference = std::fs::read_to_string(&json).unwrap_or_default();
        let reference = Prog::from_json(&format!("ref:{name}"), &src, &reference);
        match compile_file(&ink) {
            Ok(Ok(j)) => out.push(Pair {
                ours: Prog::from_json(&name, &src, &j),
                name,
                reference,
            }),
            x => r.violation(
                &format!("{name}:compile"),
                format!(
                    "the source has a reference-compiled story but does not compile: {x:?}\n{src}"
                ),
            ),
        }
    }
    let _ = Compiler::new();
    out
}

/// What the player sees from here to the next choice, line by line.
fn lines(h: &mut Host) -> Vec<String> {
    let mut out = Vec::new();
    for _ in 0..400 {
        if !h.can() {
            break;
        }
        let t = h.apply(&Op::Cont);
        let tags = h.apply_tags();
        out.push(format!("{t} tags {tags}"));
        if h.dead {
            break;
        }
        for e in h.take_log() {
            out.push(e);
        }
        // An error ends the line; its text is the runtime's business.
        if t.starts_with("Err") {
            out.pop();
            out.push("Err".into());
            break;
        }
    }
    out
}

fn choices(h: &Host) -> Vec<String> {
    if h.dead {
        return vec![];
    }
    catch(|| {
        h.story
            .get_current_choices()
            .iter()
            .map(|c| format!("{:?} tags {:?}", c.text, c.tags))
            .collect()
    })
    .unwrap_or_else(|p| vec![format!("PANIC {p}")])
}

fn globals(h: &Host, names: &[String]) -> Vec<String> {
    if h.dead {
        return vec![];
    }
    names
        .iter()
        .map(|v| {
            format!(
                "{v} = {}",
                h.story
                    .get_variable(v)
                    .map(|v| portable(&render(&v)))
                    .unwrap_or("none".into())
            )
        })
        .collect()
}

/// Divert targets name compiler-made paths; only that it is a target is compared.
fn portable(s: &str) -> String {
    match s.strip_prefix("target:") {
        // Paths of knots and stitches are the author's.
        Some(p)
            if !p
                .split('.')
                .any(|c| c.contains('-') || c.parse::<usize>().is_ok()) =>
        {
            s.into()
        }
        Some(_) => "target".into(),
        None => s.into(),
    }
}

fn observe(h: &mut Host, names: &[String]) -> String {
    let mut s = String::new();
    for l in lines(h) {
        s.push_str(&format!("line {l}\n"));
    }
    for c in choices(h) {
        s.push_str(&format!("choice {c}\n"));
    }
    for g in globals(h, names) {
        s.push_str(&format!("var {g}\n"));
    }
    s
}

fn names(p: &Pair) -> Vec<String> {
    let mut n = p.reference.vars.clone();
    n.extend(p.ours.vars.iter().cloned());
    n.sort();
    n.dedup();
    n
}

fn uses(v: &Value, words: &[&str]) -> bool {
    match v {
        Value::String(s) => words.contains(&s.as_str()),
        Value::Array(a) => a.iter().any(|x| uses(x, words)),
        Value::Object(m) => m.values().any(|x| uses(x, words)),
        _ => false,
    }
}

/// The save without what does not influence the future.
fn state(h: &mut Host, turns: bool) -> String {
    match h.save() {
        Ok(mut v) => {
            if !turns && let Some(m) = v.as_object_mut() {
                m.remove("turnIdx");
                m.remove("turnIndices");
            }
            canon(&v)
        }
        Err(e) => e,
    }
}

fn play(p: &Prog, cfg: &Cfg, path: &[usize], n: &[String]) -> Option<(String, usize, String)> {
    let mut h = Host::new(p, cfg).ok()?;
    let mut o = observe(&mut h, n);
    for i in path {
        h.apply(&Op::Choose(*i));
        o = observe(&mut h, n);
    }
    let k = if o.contains("line Err") {
        0
    } else {
        h.n_choices()
    };
    let turns = uses(
        &serde_json::from_str(&p.json).unwrap_or_default(),
        &["turn", "turns"],
    );
    let s = state(&mut h, turns);
    Some((o, k, s))
}

fn describe(p: &Pair, path: &[usize], d: &str) -> String {
    let mut s = format!(
        "{} (expected: reference story, actual: this compiler's)\nchoices made: {path:?}\n{d}\n-- source\n",
        p.name
    );
    for l in p.ours.source.lines().take(200) {
        s.push_str(&format!("    {l}\n"));
    }
    s
}

/// Content of the story this save has been to.
fn visited(save: &str) -> HashSet<String> {
    let v: Value = serde_json::from_str(save).unwrap_or_default();
    v.get("visitCounts")
        .and_then(|m| m.as_object())
        .map(|m| m.keys().cloned().collect())
        .unwrap_or_default()
}

/// The first lines that differ.
fn differing_lines<'a>(a: &'a str, b: &'a str) -> (&'a str, &'a str) {
    let (mut x, mut y) = (a.lines(), b.lines());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return ("", ""),
            (p, q) if p == q => {}
            (p, q) => return (p.unwrap_or("nothing"), q.unwrap_or("nothing")),
        }
    }
}

fn lockstep(r: &Report, p: &Pair, cap: usize, depth: usize) {
    let n = names(p);
    let cfg = Cfg {
        seed: Some(11),
        ..Default::default()
    };
    let mut seen: HashSet<u64> = HashSet::new();
    let mut met: HashSet<String> = HashSet::new();
    // Breadth first, but paths that reached content no other path had reached go first: every
    // passage the bound allows is reached, however deep.
    let mut todo: VecDeque<Vec<usize>> = VecDeque::from([vec![]]);
    let mut first: VecDeque<Vec<usize>> = VecDeque::new();
    let (mut count, mut deepest, mut cut) = (0, 0, false);
    while let Some(path) = if count % 2 == 0 {
        first.pop_front()
    } else {
        None
    }
    .or_else(|| todo.pop_front())
    .or_else(|| first.pop_front())
    {
        if count >= cap || r.stop() {
            cut = true;
            break;
        }
        count += 1;
        deepest = deepest.max(path.len());
        let a = play(&p.reference, &cfg, &path, &n);
        let b = play(&p.ours, &cfg, &path, &n);
        let (Some(a), Some(b)) = (a, b) else {
            return r.violation(
                &format!("{}:load", p.name),
                describe(p, &path, "does not load"),
            );
        };
        r.states(1);
        r.traces(1);
        r.transitions(path.len() as u64 + 1);
        r.outcome(&a.0);
        if a.0 != b.0 {
            let (x, y) = differing_lines(&a.0, &b.0);
            let known = r.report(
                &format!("{}: {x} / {y}", p.name),
                describe(p, &path, &first_diff(&a.0, &b.0)),
            );
            if known || std::env::var("MC_ALL").is_ok() {
                continue;
            }
            return;
        }
        if !seen.insert(fnv(&format!("{}|{}", a.2, b.2))) {
            continue;
        }
        if path.len() >= depth {
            cut = true;
            continue;
        }
        let mut new = false;
        for k in visited(&a.2) {
            new |= met.insert(k);
        }
        for i in 0..a.1.min(b.1) {
            let mut q = path.clone();
            q.push(i);
            if new { &mut first } else { &mut todo }.push_back(q);
        }
    }
    if cut {
        r.count("stories explored up to a bound", 1);
        r.note(format!(
            "{}: {count} paths, the longest of {deepest} choices, {} counted containers reached",
            p.name,
            met.len()
        ));
    } else {
        r.count("stories explored completely", 1);
    }
}

/// All plays of a story under one seed, to a bound.
fn plays(p: &Prog, seed: i32, n: &[String], depth: usize) -> Vec<String> {
    let cfg = Cfg {
        seed: Some(seed),
        ..Default::default()
    };
    let mut out = Vec::new();
    let mut todo: VecDeque<(Vec<usize>, String)> = VecDeque::from([(vec![], String::new())]);
    while let Some((path, before)) = todo.pop_front() {
        let Some((o, k, _)) = play(p, &cfg, &path, n) else {
            out.push("does not load".into());
            break;
        };
        let t = format!("{before}choices {path:?}\n{o}");
        out.push(t.clone());
        for i in 0..if path.len() < depth { k } else { 0 } {
            let mut q = path.clone();
            q.push(i);
            todo.push_back((q, t.clone()));
        }
    }
    out
}

fn modulo_shuffle(r: &Report, p: &Pair) {
    let n = names(p);
    let seeds = r.tier.pick(400, 4000);
    let depth = r.tier.pick(3, 4);
    let collect = |q: &Prog| -> BTreeSet<String> {
        (0..seeds)
            .take_while(|_| !r.stop())
            .flat_map(|s| plays(q, s, &n, depth))
            .collect()
    };
    let a = collect(&p.reference);
    let b = collect(&p.ours);
    if r.stop() {
        return;
    }
    r.states((a.len() + b.len()) as u64);
    r.traces(2 * seeds as u64);
    r.transitions(2 * seeds as u64);
    r.count("stories compared modulo shuffle order", 1);
    r.note(format!(
        "{}: {} different plays under {seeds} seeds",
        p.name,
        a.len()
    ));
    for x in &a {
        r.outcome(x);
    }
    for (x, y, what) in [(&a, &b, "reference only"), (&b, &a, "this compiler only")] {
        // Report the shortest play the other does not have.
        if let Some(t) = x.difference(y).min_by_key(|t| t.len()) {
            return r.violation(
                &format!("{}:modulo shuffle", p.name),
                describe(
                    p,
                    &[],
                    &format!("under no seed does the other story play ({what}):\n{t}"),
                ),
            );
        }
    }
}

pub fn run(r: &Report) {
    let all = pairs(r);
    if all.len() < 100 && std::env::var("MC_PROG").is_err() {
        r.engine_error(format!("only {} corpus pairs", all.len()));
    }
    r.note(format!("{} corpus pairs", all.len()));
    par_each(r, &all, |p| {
        let j: Value = serde_json::from_str(&p.reference.json).unwrap_or_default();
        if uses(&j, &["seq"]) {
            modulo_shuffle(r, p)
        } else {
            lockstep(
                r,
                p,
                if is_big(&p.reference) {
                    r.tier.pick(3000, 25_000)
                } else {
                    r.tier.pick(2500, 40_000)
                },
                r.tier.pick(40, 150),
            )
        }
    });
}
