//! C15: malformed story or save input is rejected with an error, not a crash.
//!
//! Child processes (8 MB of stack, bounded memory, a time limit), one kind per loader, are given
//! every mutant of the enumerated spaces: every structural mutation of every node of story
//! documents and of saves taken at every position of play histories, truncation and byte
//! replacement at every byte, all short texts over the JSON alphabet, all combinations of the
//! outermost values, nesting and size bombs. A child that dies, hangs or reports a panic is a
//! violation. Every failed load of a save is followed by a reset and a replay, which must show
//! what a fresh story shows.
use crate::{explore::*, host::*, prog::*, util::*, worker::*};
use bladeink::story::Story;
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    path::PathBuf,
    time::Duration,
};

// ---------------------------------------------------------------- the child

/// What a story shows when played from the start: its save, the screen after every move of a
/// play, and the memory in the end. The last move is left out of the comparison of short replays.
pub fn replay(h: &mut Host, moves: usize) -> Vec<String> {
    let mut out = vec![h.story.save_state().unwrap_or_default() + &h.screen()];
    for _ in 0..moves {
        let m = h.moves();
        let Some(op) = m.first().cloned() else { break };
        let mut s = h.apply(&op);
        s.push_str(&h.screen());
        s.push_str(&h.memory());
        out.push(s);
    }
    out
}

/// Loads every document; answers with those that did something they must not, and counts.
pub fn answer(req: &Value) -> Value {
    let mut bad: Vec<Value> = Vec::new();
    let (mut ok, mut err) = (0u64, 0u64);
    let empty = vec![];
    let docs = req["docs"].as_array().unwrap_or(&empty);
    let is_story = req["kind"] == "story";
    let base = Prog::from_json("base", "", req["story"].as_str().unwrap_or("{}"));
    let host = || Host::new(&base, &seeded()).expect("base story");
    let mut fresh: Vec<String> = Vec::new();
    let mut current: Option<Host> = None;
    if !is_story {
        fresh = replay(&mut host(), 6);
    }
    for (i, d) in docs.iter().enumerate() {
        let doc = d.as_str().unwrap_or("");
        let mut note = |m: String| bad.push(json!([i, m]));
        if is_story {
            match catch(|| Story::new(doc).map(|_| ())) {
                Ok(Ok(())) => ok += 1,
                Ok(Err(_)) => err += 1,
                Err(p) => note(format!("panic: {p}")),
            }
            continue;
        }
        // A story in the middle of playing; one left by a replay will do.
        let mut h = current.take().filter(|h| !h.dead).unwrap_or_else(|| {
            let mut h = host();
            replay(&mut h, 1);
            h
        });
        match catch(|| h.story.load_state(doc)) {
            Ok(Ok(())) => {
                ok += 1;
                continue;
            }
            Ok(Err(_)) => err += 1,
            Err(p) => {
                note(format!("panic: {p}"));
                continue;
            }
        }
        match catch(|| h.story.reset_state()) {
            Ok(Ok(())) => {}
            x => {
                note(format!("after the failed load the reset failed: {x:?}"));
                continue;
            }
        }
        h.take_log();
        let moves = if i % 8 == 0 { 6 } else { 1 + i % 2 };
        let again = replay(&mut h, moves);
        if let Some(k) = (0..again.len()).find(|k| fresh.get(*k) != again.get(*k)) {
            let none = String::new();
            note(format!(
                "after a failed load and a reset the story plays differently (fresh < > reset)\n{}",
                first_diff(fresh.get(k).unwrap_or(&none), &again[k])
            ));
            continue;
        }
        current = Some(h);
    }
    json!({"bad": bad, "ok": ok, "err": err, "loader": LOADER})
}

// ---------------------------------------------------------------- the parent

fn exe(stream: bool) -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    if stream {
        exe.parent()
            .and_then(|p| p.parent())
            .unwrap()
            .join("stream/debug/mc")
    } else {
        exe
    }
}

thread_local! {
    static WORKERS: RefCell<[Option<Worker>; 2]> = const { RefCell::new([None, None]) };
}

fn ask(stream: bool, req: &Value, secs: u64) -> Result<Value, String> {
    WORKERS.with(|w| {
        w.borrow_mut()[stream as usize]
            .get_or_insert_with(|| Worker::new(&exe(stream)))
            .ask(req, Duration::from_secs(secs))
    })
}

/// A set of documents for one loader.
struct Job<'a> {
    class: &'a str,
    name: String,
    stream: bool,
    /// The story the documents are saves of; None when they are stories.
    story: Option<&'a str>,
}

/// The kind of a fault, to report every cause once.
fn cause(m: &str) -> String {
    m.chars()
        .map(|c| if c.is_ascii_digit() { '0' } else { c })
        .take(90)
        .collect()
}

fn report(r: &Report, j: &Job, doc: &str, what: &str) {
    let loader = if j.stream { "streaming" } else { "default" };
    let shown: String = if doc.len() > 4000 {
        let cut = |i: usize| (0..=i).rev().find(|k| doc.is_char_boundary(*k)).unwrap();
        format!(
            "{} ... ({} bytes) ... {}",
            &doc[..cut(1500)],
            doc.len(),
            &doc[cut(doc.len() - 500)..]
        )
    } else {
        doc.to_string()
    };
    r.violation(
        &format!("{}:{}:{loader}:{}", j.class, j.name, cause(what)),
        format!("{loader} loader: {what}\n-- input\n{shown}"),
    );
}

fn batch(r: &Report, j: &Job, docs: &[String]) {
    if docs.is_empty() || r.stop() {
        return;
    }
    let mut req = json!({"cmd": "c15", "kind": "story", "docs": docs});
    if let Some(s) = j.story {
        req["kind"] = "save".into();
        req["story"] = s.into();
    }
    // A single document gets the time limit the property is judged by.
    let secs = if docs.len() == 1 { 10 } else { 20 };
    match ask(j.stream, &req, secs) {
        Ok(v) => {
            r.states(docs.len() as u64);
            r.traces(docs.len() as u64);
            r.transitions(v["err"].as_u64().unwrap_or(0));
            r.count(j.class, docs.len() as u64);
            r.count("accepted", v["ok"].as_u64().unwrap_or(0));
            r.count("rejected", v["err"].as_u64().unwrap_or(0));
            r.outcome(&format!("{}{}", v["ok"] != 0, v["err"] != 0));
            for b in v["bad"].as_array().into_iter().flatten() {
                let i = b[0].as_u64().unwrap_or(0) as usize;
                report(r, j, &docs[i], b[1].as_str().unwrap_or("?"));
            }
        }
        Err(e) if e.starts_with("ENGINE") => r.engine_error(e),
        Err(e) if docs.len() == 1 => {
            // Once more, alone on a fresh child, before it counts.
            if let Err(e2) = ask(j.stream, &req, 20) {
                let e2 = if e2 == "timeout" {
                    "no answer within 20 s".into()
                } else {
                    format!("the process {e2}")
                };
                report(r, j, &docs[0], &e2);
            } else {
                r.note(format!("{}: {e}, then answered", j.name));
            }
        }
        Err(_) => {
            // One of them kills the child or hangs it.
            let (a, b) = docs.split_at(docs.len() / 2);
            batch(r, j, a);
            batch(r, j, b);
        }
    }
}

// ---------------------------------------------------------------- structural mutants

#[derive(Clone, Debug)]
enum Step {
    I(usize),
    K(String),
}

fn nodes(v: &Value, at: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(at.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(Step::I(i));
                nodes(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(Step::K(k.clone()));
                nodes(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn get_mut<'a>(v: &'a mut Value, at: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in at {
        v = match s {
            Step::I(i) => v.get_mut(*i)?,
            Step::K(k) => v.get_mut(k)?,
        };
    }
    Some(v)
}

fn get<'a>(v: &'a Value, at: &[Step]) -> Option<&'a Value> {
    let mut v = v;
    for s in at {
        v = match s {
            Step::I(i) => v.get(*i)?,
            Step::K(k) => v.get(k)?,
        };
    }
    Some(v)
}

/// Values of every type, extreme numbers, tokens and objects of the format out of place.
fn replacements(v: &Value) -> Vec<Value> {
    let mut out = vec![
        Value::Null,
        json!(true),
        json!(false),
        json!(0),
        json!(1),
        json!(-1),
        json!(i32::MAX),
        json!(i32::MIN),
        json!(i32::MAX as i64 + 1),
        json!(i64::MAX),
        json!(i64::MIN),
        json!(u64::MAX),
        json!(0.5),
        json!(-1e300),
        json!(""),
        json!("^"),
        json!("^x"),
        json!("\n"),
        json!("x"),
        json!("."),
        json!(".^"),
        json!(".^.^.^.^.^.^.^.^"),
        json!("0.0.0.0.0.0.0"),
        json!("99999999999999999999"),
        json!("4294967296"),
        json!("a..b"),
        json!("-1"),
        json!("global decl"),
        json!("ev"),
        json!("/ev"),
        json!("pop"),
        json!("du"),
        json!("+"),
        json!("str"),
        json!("/str"),
        json!("#"),
        json!("/#"),
        json!("~ret"),
        json!("->->"),
        json!("thread"),
        json!("out"),
        json!("visit"),
        json!("seq"),
        json!("rnd"),
        json!("srnd"),
        json!("choiceCnt"),
        json!("turns"),
        json!("readc"),
        json!("listInt"),
        json!("range"),
        json!("lrnd"),
        json!("void"),
        json!("<>"),
        json!("LIST_ALL"),
        json!([]),
        json!([null]),
        json!([[]]),
        json!(["x"]),
        json!({}),
        json!([{}]),
        json!({"": 0}),
        json!({"#f": 1, "#n": "n"}),
        json!({"->": "global decl"}),
        json!({"->": ""}),
        json!({"->": "x", "var": true}),
        json!({"f()": "global decl"}),
        json!({"->t->": "0"}),
        json!({"x()": "f", "exArgs": 99}),
        json!({"^->": "0"}),
        json!({"^->": "nowhere"}),
        json!({"^var": "x", "ci": 7}),
        json!({"^var": "x", "ci": -1}),
        json!({"VAR?": "x"}),
        json!({"CNT?": "nowhere"}),
        json!({"VAR=": "x", "re": true}),
        json!({"temp=": "x"}),
        json!({"*": "0", "flg": 0}),
        json!({"*": "0", "flg": 31}),
        json!({"list": {"a.b.c": 1, "nodot": 2, "": 3}}),
        json!({"list": {}, "origins": ["nowhere"]}),
        json!({"list": {"x": i64::MAX}}),
    ];
    // Small changes to what is there.
    match v {
        Value::String(s) => {
            out.push(json!(format!("{s}x")));
            out.push(json!(s.chars().skip(1).collect::<String>()));
            out.push(json!(format!("^{s}")));
            out.push(json!([s]));
        }
        Value::Number(n) => {
            let i = n.as_i64().unwrap_or(0);
            out.push(json!(i.wrapping_add(1)));
            out.push(json!(i.wrapping_sub(1)));
            out.push(json!(i.wrapping_neg()));
            out.push(json!(n.to_string()));
            out.push(json!([n]));
        }
        Value::Array(a) => {
            out.push(json!([a]));
            let mut b = a.clone();
            b.reverse();
            out.push(Value::Array(b));
            out.push(a.first().cloned().unwrap_or(Value::Null));
        }
        Value::Object(m) => {
            out.push(json!([m]));
            out.push(Value::Array(m.values().cloned().collect()));
            out.push(m.values().next().cloned().unwrap_or(Value::Null));
        }
        _ => {}
    }
    out
}

const KEYS: [&str; 22] = [
    "",
    "global decl",
    "#f",
    "#n",
    "->",
    "f()",
    "->t->",
    "x()",
    "^->",
    "^var",
    "VAR?",
    "CNT?",
    "VAR=",
    "temp=",
    "*",
    "#",
    "list",
    "origins",
    "originalChoicePath",
    "0",
    "DEFAULT_FLOW",
    "a.b",
];

/// Every mutant of one node. Tier-independent; `swaps` are the other nodes to swap with.
fn mutants_of(base: &Value, at: &[Step], swaps: &[Vec<Step>], out: &mut dyn FnMut(String)) {
    let Some(here) = get(base, at) else { return };
    for x in replacements(here) {
        let mut v = base.clone();
        if let Some(n) = get_mut(&mut v, at) {
            *n = x;
        }
        out(v.to_string());
    }
    if let Some((last, up)) = at.split_last() {
        // Delete, duplicate, swap with the next sibling, move to the front.
        for op in 0..4 {
            let mut v = base.clone();
            let Some(parent) = get_mut(&mut v, up) else {
                continue;
            };
            match (parent, last) {
                (Value::Array(a), Step::I(i)) => match op {
                    0 => {
                        a.remove(*i);
                    }
                    1 => a.insert(*i, a[*i].clone()),
                    2 if i + 1 < a.len() => a.swap(*i, i + 1),
                    3 => {
                        let x = a.remove(*i);
                        a.insert(0, x);
                    }
                    _ => continue,
                },
                (Value::Object(m), Step::K(k)) => match op {
                    0 => {
                        m.shift_remove(k);
                    }
                    1 => {
                        let x = m[k].clone();
                        m.insert(format!("{k}2"), x);
                    }
                    _ => continue,
                },
                _ => continue,
            }
            out(v.to_string());
        }
        // Another key.
        if let Step::K(k) = last {
            for nk in KEYS.iter().map(|s| s.to_string()).chain([
                format!("{k}x"),
                k.chars().skip(1).collect(),
                k.to_uppercase(),
            ]) {
                let mut v = base.clone();
                if let Some(Value::Object(m)) = get_mut(&mut v, up) {
                    let x = m.shift_remove(k).unwrap_or(Value::Null);
                    m.insert(nk, x);
                }
                out(v.to_string());
            }
        }
        // The same key twice, with something else first (only as text).
        if let Step::K(k) = last {
            let mut v = base.clone();
            if let Some(Value::Object(m)) = get_mut(&mut v, up) {
                m.insert("@@".into(), json!([null]));
            }
            out(v.to_string().replace("\"@@\":", &format!("{}:", json!(k))));
        }
    }
    // Swap with and copy to every other node.
    let mine = here.clone();
    for other in swaps {
        let Some(theirs) = get(base, other).cloned() else {
            continue;
        };
        for both in [true, false] {
            let mut v = base.clone();
            if let Some(n) = get_mut(&mut v, other) {
                *n = mine.clone();
            }
            if both && let Some(n) = get_mut(&mut v, at) {
                *n = theirs.clone();
            }
            out(v.to_string());
        }
    }
}

fn structural(
    r: &Report,
    class: &str,
    name: &str,
    doc: &str,
    story: Option<&str>,
    swap_cap: usize,
) {
    let Ok(base) = serde_json::from_str::<Value>(doc) else {
        return r.engine_error(format!("{name} is not JSON"));
    };
    let mut all = Vec::new();
    nodes(&base, &mut vec![], &mut all);
    let loaders: &[bool] = if story.is_some() {
        // Saves are read by the same code in both builds.
        &[false]
    } else {
        &[false, true]
    };
    r.count("mutated nodes", all.len() as u64);
    // Per node, so that a violation names the node.
    for (i, at) in all.iter().enumerate() {
        if r.stop() {
            return;
        }
        let stride = (all.len() * 2 / swap_cap.max(1)).max(1);
        let swaps: Vec<Vec<Step>> = if swap_cap == 0 {
            vec![]
        } else {
            all.iter()
                .enumerate()
                .filter(|(j, _)| *j > i && (*j + i) % stride == 0)
                .map(|(_, a)| a.clone())
                .collect()
        };
        let mut docs = Vec::new();
        mutants_of(&base, at, &swaps, &mut |d| docs.push(d));
        for stream in loaders {
            let j = Job {
                class,
                name: name.to_string(),
                stream: *stream,
                story,
            };
            batch(r, &j, &docs);
        }
    }
}

// ---------------------------------------------------------------- texts

/// Truncation at every byte and a few bytes put in place of every byte.
fn textual(r: &Report, class: &str, name: &str, doc: &str, story: Option<&str>, bytes: &[&str]) {
    let cuts: Vec<usize> = (0..=doc.len())
        .filter(|i| doc.is_char_boundary(*i))
        .collect();
    let loaders: &[bool] = if story.is_some() {
        &[false]
    } else {
        &[false, true]
    };
    for chunk in cuts.chunks(64) {
        if r.stop() {
            return;
        }
        let mut docs = Vec::new();
        for i in chunk {
            let (a, b) = doc.split_at(*i);
            docs.push(a.to_string());
            docs.push(b.to_string());
            let rest: String = b.chars().skip(1).collect();
            docs.push(format!("{a}{rest}"));
            for x in bytes {
                docs.push(format!("{a}{x}{rest}"));
                docs.push(format!("{a}{x}{b}"));
            }
        }
        for stream in loaders {
            let j = Job {
                class,
                name: name.to_string(),
                stream: *stream,
                story,
            };
            batch(r, &j, &docs);
        }
    }
}

const BYTES: [&str; 14] = [
    "\"", "\\", "{", "}", "[", "]", ",", ":", "-", "9", "e", " ", "\u{0}", "é",
];

/// All texts up to a length over an alphabet.
fn short_texts(r: &Report) {
    let alphabet = [
        "{", "}", "[", "]", ",", ":", "\"", "a", "0", "-", ".", "e", "t", "n", "\\", " ", "u", "😀",
    ];
    let max = r.tier.pick(4, 5);
    let n = alphabet.len() as u64;
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum();
    let nth = |mut i: u64| -> String {
        let mut len = 0;
        while i >= n.pow(len) {
            i -= n.pow(len);
            len += 1;
        }
        let mut s = String::new();
        for _ in 0..len {
            s.push_str(alphabet[(i % n) as usize]);
            i /= n;
        }
        s
    };
    let chunk = 2000;
    let chunks: Vec<u64> = (0..total.div_ceil(chunk)).collect();
    let wrap: [(&str, &str); 3] = [
        ("", ""),
        ("{\"inkVersion\":21,\"root\":", ",\"listDefs\":{}}"),
        (
            "{\"inkVersion\":21,\"root\":[\"done\",null],\"listDefs\":{}",
            "",
        ),
    ];
    let small = "{\"inkVersion\":21,\"root\":[\"^x\",\"\\n\",\"done\",null],\"listDefs\":{}}";
    par_each(r, &chunks, |c| {
        for (a, b) in wrap {
            let docs: Vec<String> = (c * chunk..((c + 1) * chunk).min(total))
                .map(|i| format!("{a}{}{b}", nth(i)))
                .collect();
            for stream in [false, true] {
                let j = Job {
                    class: "short texts",
                    name: a.into(),
                    stream,
                    story: None,
                };
                batch(r, &j, &docs);
            }
        }
        if *c < 4 {
            let docs: Vec<String> = (c * chunk..((c + 1) * chunk).min(total)).map(nth).collect();
            let j = Job {
                class: "short texts",
                name: "save".into(),
                stream: false,
                story: Some(small),
            };
            batch(r, &j, &docs);
        }
    });
}

/// All combinations of values for the outermost keys.
fn tops(r: &Report) {
    let any: Vec<String> = replacements(&json!({"a": 1}))
        .iter()
        .map(|v| v.to_string())
        .collect();
    let idx: Vec<usize> = (0..any.len()).collect();
    par_each(r, &idx, |i| {
        let mut docs = Vec::new();
        for b in &any {
            docs.push(format!(
                "{{\"inkVersion\":21,\"root\":{},\"listDefs\":{b}}}",
                any[*i]
            ));
            docs.push(format!(
                "{{\"inkVersion\":{},\"root\":{b},\"listDefs\":{{}}}}",
                any[*i]
            ));
            docs.push(format!(
                "{{\"inkVersion\":21,\"root\":[{},{b}],\"listDefs\":{{}}}}",
                any[*i]
            ));
            // Executed when the story is made.
            docs.push(format!(
                "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[{},{b},null]}}],\"listDefs\":{{\"L\":{{\"a\":1}}}}}}",
                any[*i]
            ));
            docs.push(format!(
                "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[\"ev\",{},{b},{{\"VAR=\":\"x\"}},null]}}],\"listDefs\":{{\"L\":{{\"a\":1}}}}}}",
                any[*i]
            ));
        }
        for stream in [false, true] {
            let j = Job {
                class: "outermost values",
                name: any[*i].clone(),
                stream,
                story: None,
            };
            batch(r, &j, &docs);
        }
    });
    // What runs while the story is made, with three items.
    if r.tier == Tier::Thorough {
        par_each(r, &idx, |i| {
            for b in &any {
                let docs: Vec<String> = any
                    .iter()
                    .map(|c| {
                        format!(
                            "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[\"ev\",{},{b},{c},{{\"VAR=\":\"x\"}},\"/ev\",\"end\",null]}}],\"listDefs\":{{\"L\":{{\"a\":1}}}}}}",
                            any[*i]
                        )
                    })
                    .collect();
                let j = Job {
                    class: "outermost values",
                    name: format!("{} {b}", any[*i]),
                    stream: false,
                    story: None,
                };
                batch(r, &j, &docs);
                if r.stop() {
                    return;
                }
            }
        });
    }
}

/// Deep nesting and great size.
fn bombs(r: &Report, save: &str, story: &str) {
    let mut docs: Vec<(String, String, bool)> = Vec::new();
    let depths = [
        50, 60, 100, 120, 125, 126, 127, 128, 129, 130, 200, 1000, 10_000, 100_000, 1_000_000,
    ];
    let shapes: [(&str, &str, &str); 12] = [
        ("[", "", "]"),
        ("[", "\"^x\"", ",null]"),
        ("[[", "", "],null]"),
        ("[{\"k\":", "[\"^x\",null]", "}]"),
        ("{\"a\":", "1", "}"),
        ("{\"a\":[", "", "]}"),
        ("[{\"list\":", "{}", "}]"),
        ("[{\"->\":", "\"x\"", "}]"),
        ("[null,", "null", "]"),
        ("[\"x\",{\"#f\":", "1", "}]"),
        ("\"\\u0061", "", "\""),
        (" ", "[]", " "),
    ];
    for d in depths {
        for (o, m, c) in shapes {
            for closed in [true, false] {
                let mut b = o.repeat(d);
                b.push_str(m);
                if closed {
                    b.push_str(&c.repeat(d));
                }
                for t in [
                    "%",
                    "{\"inkVersion\":21,\"root\":%,\"listDefs\":{}}",
                    "{\"inkVersion\":21,\"root\":[\"done\",{\"global decl\":%}],\"listDefs\":{}}",
                    "{\"inkVersion\":21,\"root\":[\"done\",null],\"listDefs\":%}",
                    "{\"inkVersion\":21,\"other\":%,\"root\":[\"done\",null],\"listDefs\":{}}",
                ] {
                    docs.push((format!("{o} x {d}"), t.replace('%', &b), false));
                }
                docs.push((format!("save {o} x {d}"), b.clone(), true));
                for key in ["\"evalStack\":[", "\"outputStream\":["] {
                    if d <= 10_000 && save.contains(key) {
                        docs.push((
                            format!("save {key} {o} x {d}"),
                            save.replacen(key, &format!("{key}{b},"), 1)
                                .replace(",]", "]"),
                            true,
                        ));
                    }
                }
            }
        }
    }
    for n in [100, 1000, 100_000] {
        docs.push((
            format!("digits {n}"),
            story.replace(":21,", &format!(":{},", "9".repeat(n))),
            false,
        ));
        docs.push((
            format!("long string {n}"),
            format!(
                "{{\"inkVersion\":21,\"root\":[\"^{}\",\"done\",null],\"listDefs\":{{}}}}",
                "x".repeat(n)
            ),
            false,
        ));
        docs.push((
            format!("long path {n}"),
            format!(
                "{{\"inkVersion\":21,\"root\":[{{\"->\":\"{}\"}},\"done\",null],\"listDefs\":{{}}}}",
                ".^".repeat(n)
            ),
            false,
        ));
        docs.push((
            format!("wide {n}"),
            format!(
                "{{\"inkVersion\":21,\"root\":[{}\"done\",null],\"listDefs\":{{}}}}",
                "[\"^x\",null],".repeat(n)
            ),
            false,
        ));
        for inner in [
            "\"ev\",1,2,\"+\",\"pop\",\"/ev\",",
            "\"thread\",",
            "\"ev\",1,",
            "\"str\",",
            "\"#\",",
            "\"^a\",",
        ] {
            docs.push((
                format!("globals {inner} {n}"),
                format!(
                    "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[{}\"end\",null]}}],\"listDefs\":{{}}}}",
                    inner.repeat(n)
                ),
                false,
            ));
        }
    }
    par_each(r, &docs, |(name, doc, is_save)| {
        let loaders: &[bool] = if *is_save { &[false] } else { &[false, true] };
        for stream in loaders {
            let j = Job {
                class: "bombs",
                name: name.clone(),
                stream: *stream,
                story: is_save.then_some(story),
            };
            batch(r, &j, std::slice::from_ref(doc));
        }
    });
}

/// Things that run while the story is made and never end, or end badly.
fn loops(r: &Report) {
    let bodies = [
        "{\"->\":\"global decl\"}",
        "\"^x\",{\"->\":\"global decl\"}",
        "\"\\n\",{\"->\":\"global decl\"}",
        "{\"->\":\".^\"}",
        "{\"->\":\".^.0\"}",
        "{\"f()\":\"global decl\"}",
        "{\"->t->\":\"global decl\"}",
        "\"thread\",{\"->\":\"global decl\"}",
        "{\"->t->\":\".^.^.g\"}",
        "{\"*\":\"global decl\",\"flg\":8}",
        "{\"*\":\".^.^.g\",\"flg\":24},\"done\"",
        "{\"*\":\"g\",\"flg\":8},\"done\"",
        "\"ev\",{\"^->\":\"global decl\"},\"/ev\",\"->->\"",
        "\"ev\",{\"^->\":\"global decl\"},{\"VAR=\":\"x\"},\"/ev\",{\"->\":\"x\",\"var\":true}",
        "\"ev\",1,{\"->\":\"global decl\"}",
        "\"ev\",\"str\",{\"->\":\"global decl\"}",
        "\"#\",{\"->\":\"global decl\"}",
        "[[[{\"->\":\"global decl\"},null],null],null]",
        "\"ev\",1,\"du\",\"du\",{\"f()\":\"g\"},\"/ev\"",
        "{\"->\":\"g\"}",
        "\"ev\",{\"f()\":\"g\"},\"pop\",\"/ev\",{\"->\":\"g\"}",
        "{\"->\":\"0\"}",
        "{\"->\":\"\"}",
        "\"ev\",{\"^var\":\"x\",\"ci\":0},{\"VAR=\":\"x\"},{\"VAR?\":\"x\"},\"/ev\"",
        "\"ev\",{\"^var\":\"x\",\"ci\":-1},{\"temp=\":\"x\"},{\"VAR?\":\"x\"},{\"VAR=\":\"x\",\"re\":true},\"/ev\"",
        "\"ev\",{\"^var\":\"y\",\"ci\":0},{\"VAR=\":\"x\"},{\"^var\":\"x\",\"ci\":0},{\"VAR=\":\"y\"},1,{\"VAR=\":\"x\",\"re\":true},\"/ev\"",
        "\"ev\",{\"^var\":\"y\",\"ci\":0},{\"VAR=\":\"x\"},{\"^var\":\"x\",\"ci\":0},{\"VAR=\":\"y\"},{\"VAR?\":\"x\"},\"/ev\"",
    ];
    let inner = [
        "[\"done\",null]",
        "[{\"->\":\"global decl\"},null]",
        "[{\"->\":\"g\"},null]",
        "[{\"f()\":\"g\"},null]",
        "[{\"->t->\":\"g\"},\"->->\",null]",
        "[\"thread\",{\"->\":\"g\"},null]",
        "[{\"*\":\"g\",\"flg\":8},\"done\",null]",
        "[\"~ret\",null]",
        "[[\"->->\",null],null]",
        "[]",
        "[null]",
    ];
    // Few steps with great consequences.
    let mut heavy: Vec<String> = Vec::new();
    for x in ["\"^ab\"", "{\"list\":{\"L.a\":1}}", "3", "1.5"] {
        for op in ["+", "*", "POW", "-", "&&", "L^", "?"] {
            heavy.push(format!(
                "\"ev\",{x}{}",
                format!(",\"du\",\"{op}\"").repeat(60)
            ));
        }
    }
    for (a, b) in [
        ("2147483647", "2147483647"),
        ("0", "2147483647"),
        ("2147483647", "1"),
        ("-1", "-2147483648"),
        ("-2147483648", "2147483647"),
        ("0", "0"),
        ("5", "0"),
        ("7", "100000000"),
        ("-2147483648", "-1"),
    ] {
        for op in [
            "seq", "rnd", "/", "%", "POW", "MIN", "listInt", "srnd", "range", "lrnd", "-", "*", "_",
        ] {
            heavy.push(format!("\"ev\",{a},{b},\"{op}\""));
            heavy.push(format!("\"ev\",\"^L\",{a},{b},\"{op}\""));
            heavy.push(format!(
                "\"ev\",{{\"list\":{{\"L.a\":{a},\"L.b\":{b}}}}},{a},{b},\"{op}\""
            ));
        }
    }
    let mut docs: Vec<(String, String)> = Vec::new();
    for h in heavy {
        docs.push((
            format!("heavy {h}"),
            format!(
                "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[{h},{{\"VAR=\":\"x\"}},\"/ev\",\"end\",null],\"#f\":1}}],\"listDefs\":{{\"L\":{{\"a\":1,\"b\":2}}}}}}"
            ),
        ));
    }
    for b in bodies {
        for g in inner {
            docs.push((
                format!("{b} {g}"),
                format!(
                    "{{\"inkVersion\":21,\"root\":[\"done\",{{\"global decl\":[{b},null],\"g\":{g},\"#f\":1}}],\"listDefs\":{{}}}}"
                ),
            ));
        }
    }
    par_each(r, &docs, |(name, doc)| {
        for stream in [false, true] {
            let j = Job {
                class: "endless declarations",
                name: name.clone(),
                stream,
                story: None,
            };
            batch(r, &j, std::slice::from_ref(doc));
        }
    });
}

// ---------------------------------------------------------------- bases

/// Saves at every position of the play and flow histories, one per shape.
fn saves(p: &Prog, cap: usize, depth: usize) -> Vec<String> {
    let mut shapes: BTreeMap<String, String> = BTreeMap::new();
    let mut seen: HashSet<String> = HashSet::new();
    let alphabet = crate::c02::flow_alphabet(p);
    for path in enumerate(p, &seeded(), &[], &alphabet, cap, depth, 40).paths {
        let Ok(mut h) = Host::new(p, &seeded()) else {
            break;
        };
        for i in 0..=path.len() {
            if let Ok(Ok(s)) = catch(|| h.story.save_state())
                && seen.insert(s.clone())
            {
                let v: Value = serde_json::from_str(&s).unwrap_or(Value::Null);
                let mut shape = String::new();
                shape_of(&v, &mut shape);
                shapes.entry(shape).or_insert(s);
            }
            match path.get(i) {
                Some(op) if !h.dead => {
                    h.apply(op);
                }
                _ => break,
            }
        }
    }
    shapes.into_values().collect()
}

/// The structure of a document without its values.
fn shape_of(v: &Value, out: &mut String) {
    match v {
        Value::Array(a) => {
            out.push('[');
            let mut kinds: Vec<String> = a
                .iter()
                .map(|x| {
                    let mut s = String::new();
                    shape_of(x, &mut s);
                    s
                })
                .collect();
            kinds.sort();
            kinds.dedup();
            out.push_str(&kinds.join(","));
            out.push(']');
        }
        Value::Object(m) => {
            out.push('{');
            for (k, x) in m {
                let k = if k.contains('.') || k.contains('-') {
                    "path"
                } else {
                    k
                };
                out.push_str(k);
                out.push(':');
                shape_of(x, out);
            }
            out.push('}');
        }
        Value::String(_) => out.push('s'),
        Value::Number(_) => out.push('n'),
        Value::Bool(_) => out.push('b'),
        Value::Null => out.push('0'),
    }
}

/// A story with every kind of content item and declarations of every kind of value.
const RICH: &str = r##"{"inkVersion":21,"root":[["^t","<>","\n","ev",{"VAR?":"n"},1,"+","out","str","^s","/str","out",{"CNT?":"k"},"pop","/ev","ev",true,"/ev",[{"->":".^.b","c":true},{"b":["^y",{"->":"0.18"},null]}],"nop","#","^tag","/#",{"#":"old"},"ev",{"f()":"f"},"out",{"x()":"ext","exArgs":2},"pop",{"^->":"k"},{"temp=":"t"},{"^var":"n","ci":0},"pop",{"list":{"L.a":1}},"LIST_COUNT","out",{"VAR?":"l"},"LIST_ALL","out","/ev","thread",{"->":"th"},{"->t->":"tun"},"ev","str","^one","/str","/ev",{"*":"0.c-0","flg":20},{"*":"k","flg":8},{"->":"t","var":true},{"c-0":["^c","\n",{"->":"k"},{"#f":5}],"#n":"top"}],"done",{"k":["^k","\n","visit","end",{"#f":3,"st":["done",null]}],"f":["ev",2,"/ev","~ret",null],"th":["done",null],"tun":["ev","void","/ev","->->",null],"global decl":["ev",0,{"VAR=":"n"},2.5,{"VAR=":"fl"},"str","^hi","/str",{"VAR=":"s"},true,{"VAR=":"b"},{"^->":"k"},{"VAR=":"d"},{"list":{},"origins":["L"]},{"VAR=":"l"},{"list":{"L.a":1,"L.b":2}},{"VAR=":"m"},"/ev","end",null],"#f":1}],"listDefs":{"L":{"a":1,"b":2}}}"##;

fn phase(r: &Report, what: &str) {
    r.note(format!("{what} from {:.1} s", r.elapsed()));
}

pub fn run(r: &Report) {
    for stream in [false, true] {
        if !exe(stream).exists() {
            return r.engine_error("a build of the harness is missing");
        }
        match ask(
            stream,
            &json!({"cmd": "c15", "kind": "story", "docs": [RICH]}),
            20,
        ) {
            Ok(v) if (v["loader"] == "stream") == stream && v["ok"] == 1 => {}
            x => return r.engine_error(format!("a child does not work: {x:?}")),
        }
    }
    let thorough = r.tier == Tier::Thorough;
    let mut progs = programs(r);
    progs.sort_by_key(|p| p.json.len());
    r.note(format!("{} programs", progs.len()));
    phase(r, "loops");
    loops(r);
    // Saves of every program.
    let mut save_jobs: Vec<(String, String, String)> = Vec::new();
    let found: std::sync::Mutex<Vec<(usize, Vec<String>)>> = Default::default();
    let idx: Vec<usize> = (0..progs.len()).collect();
    par_each(r, &idx, |i| {
        let s = saves(&progs[*i], r.tier.pick(60, 400), r.tier.pick(4, 8));
        found.lock().unwrap().push((*i, s));
    });
    let mut found = found.into_inner().unwrap();
    found.sort();
    for (i, s) in &found {
        for (k, save) in s.iter().enumerate() {
            save_jobs.push((
                format!("{} save {k}", progs[*i].name),
                save.clone(),
                progs[*i].json.clone(),
            ));
        }
    }
    r.note(format!("{} saves of different shapes", save_jobs.len()));
    // The most varied small saves first.
    save_jobs.sort_by_key(|(_, s, _)| s.len());
    phase(r, "bombs");
    bombs(r, save_jobs.last().map_or("", |j| &j.1), RICH);
    phase(r, "tops");
    tops(r);
    phase(r, "short_texts");
    short_texts(r);
    phase(r, "mutants");
    let mut story_jobs: Vec<(String, String)> = vec![("rich".into(), RICH.into())];
    story_jobs.extend(
        progs
            .iter()
            .enumerate()
            .filter(|(i, p)| thorough || p.json.len() < 2500 && i % 3 == 0)
            .map(|(_, p)| p)
            .map(|p| (p.name.clone(), p.json.clone())),
    );
    if thorough {
        story_jobs.extend(
            corpus_reference()
                .iter()
                .filter(|p| !is_big(p))
                .map(|p| (format!("ref:{}", p.name), p.json.clone())),
        );
    }
    // Structural mutants and texts, split so that all cores have work to the end.
    enum W<'a> {
        Story(&'a (String, String), bool),
        Save(&'a (String, String, String), bool),
    }
    let mut work: Vec<W> = Vec::new();
    let keep = if thorough { save_jobs.len() } else { 40 };
    let stride = (save_jobs.len() / keep.max(1)).max(1);
    let mut saves = save_jobs.iter().rev().step_by(stride);
    let mut stories = story_jobs.iter();
    loop {
        let (a, b, c) = (stories.next(), saves.next(), saves.next());
        for j in [b, c].into_iter().flatten() {
            work.push(W::Save(j, true));
            work.push(W::Save(j, false));
        }
        if let Some(j) = a {
            work.push(W::Story(j, true));
            work.push(W::Story(j, false));
        }
        if a.is_none() && b.is_none() {
            break;
        }
    }
    par_each(r, &work, |w| match w {
        W::Story((name, doc), true) => {
            let swaps = if name == "rich" {
                r.tier.pick(40, 1000)
            } else {
                r.tier.pick(6, 60)
            };
            structural(r, "story mutants", name, doc, None, swaps)
        }
        W::Story((name, doc), false) => {
            let few = if name == "rich" || thorough {
                &BYTES[..]
            } else {
                &BYTES[..3]
            };
            textual(r, "story texts", name, doc, None, few)
        }
        W::Save((name, doc, story), true) => structural(
            r,
            "save mutants",
            name,
            doc,
            Some(story),
            r.tier.pick(4, 40),
        ),
        W::Save((name, doc, story), false) => textual(
            r,
            "save texts",
            name,
            doc,
            Some(story),
            if thorough { &BYTES[..] } else { &BYTES[..2] },
        ),
    });
    r.assume(
        "a load that takes more than 20 s in a process of its own does not end within bounded time",
    );
    r.assume("the children run with the default 8 MB stack and 6 GB of address space");
}
