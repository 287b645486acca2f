//! C14: both story loaders build the same story from the same JSON.
//!
//! The same harness is built twice, once per loader; a child process runs the other build. Every
//! document of the enumerated spaces is loaded by both, and the complete content listing (every
//! object's path, kind, value and flags), the list definitions as far as play can tell, the
//! global tags and every play to a depth are compared.
use crate::{explore::programs, prog::*, util::*, worker::*};
use serde_json::{Value, json};
use std::{cell::RefCell, path::PathBuf, time::Duration};

fn stream_exe() -> PathBuf {
    let exe = std::env::current_exe().unwrap();
    // target/debug/mc -> target/stream/debug/mc
    exe.parent()
        .and_then(|p| p.parent())
        .unwrap()
        .join("stream/debug/mc")
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

/// The stream build's answer, from this thread's child.
fn stream(req: &Value, timeout: Duration) -> Result<Value, String> {
    WORKER.with(|w| {
        w.borrow_mut()
            .get_or_insert_with(|| Worker::new(&stream_exe()))
            .ask(req, timeout)
    })
}

/// Some(difference) when the two loaders disagree on a document.
fn differ(r: &Report, doc: &str, depth: usize) -> Option<String> {
    let doc = doc.trim_start_matches('\u{feff}');
    r.traces(2);
    let a = dump(doc, depth);
    let b = match stream(
        &json!({"cmd": "dump", "doc": doc, "depth": depth}),
        Duration::from_secs(60),
    ) {
        Ok(v) => v,
        Err(e) if e.starts_with("ENGINE") => {
            r.engine_error(e);
            return None;
        }
        Err(e) => return Some(format!("the streaming loader {e}")),
    };
    r.outcome(a["load"].as_str().unwrap_or("?"));
    if a["load"] != b["load"] {
        return Some(format!(
            "default loader: {} {}\nstreaming loader: {} {}",
            a["load"], a["detail"], b["load"], b["detail"]
        ));
    }
    if a["load"] == "panic" {
        return Some(format!("both loaders panic: {}", a["detail"]));
    }
    if a["load"] == "Err" {
        r.count("documents refused by both", 1);
        return None;
    }
    r.states(a["listing"].as_array().map_or(0, |l| l.len()) as u64);
    r.transitions(a["play"].as_str().map_or(0, |p| p.lines().count()) as u64);
    for k in ["listing", "failures"] {
        let text = |v: &Value| -> Vec<String> {
            v[k].as_array()
                .map(|l| l.iter().map(|x| x.as_str().unwrap_or("").into()).collect())
                .unwrap_or_default()
        };
        let (x, y) = (text(&a), text(&b));
        if x != y {
            let i = (0..x.len().max(y.len()))
                .find(|i| x.get(*i) != y.get(*i))
                .unwrap();
            return Some(format!(
                "{k} differs\ndefault:   {:?}\nstreaming: {:?}",
                x.get(i),
                y.get(i)
            ));
        }
    }
    for k in ["tags", "play"] {
        if a[k] != b[k] {
            return Some(format!(
                "{k} differs (default < > streaming)\n{}",
                first_diff(a[k].as_str().unwrap_or(""), b[k].as_str().unwrap_or(""))
            ));
        }
    }
    None
}

fn same(r: &Report, class: &str, key: &str, doc: &str, depth: usize) -> bool {
    r.count(class, 1);
    match differ(r, doc, depth) {
        None => true,
        Some(d) => {
            let shown: String = doc.chars().take(3000).collect();
            r.violation(
                &format!("{class}:{key}"),
                format!("{d}\n-- document\n{shown}"),
            );
            false
        }
    }
}

// ---------------------------------------------------------------- layouts

#[derive(Clone, Copy, PartialEq, Debug)]
enum Esc {
    Minimal,
    Ascii,
    AllLower,
    AllUpper,
    Short,
}

#[derive(Clone, Copy, Debug)]
struct Layout {
    esc: Esc,
    space: usize,
    order: usize,
}

const SPACES: [&str; 4] = ["", " ", "\r\n\t", "\n  "];

fn write_str(s: &str, e: Esc, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let unit = |out: &mut String| {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&if e == Esc::AllUpper {
                    format!("\\u{u:04X}")
                } else {
                    format!("\\u{u:04x}")
                });
            }
        };
        match e {
            Esc::AllLower | Esc::AllUpper => unit(out),
            _ => match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '/' if e == Esc::Short => out.push_str("\\/"),
                '\u{8}' => out.push_str("\\b"),
                '\u{c}' => out.push_str("\\f"),
                '\n' => out.push_str("\\n"),
                '\r' => out.push_str("\\r"),
                '\t' => out.push_str("\\t"),
                c if (c as u32) < 0x20 => unit(out),
                c if e == Esc::Ascii && !c.is_ascii() => unit(out),
                c => out.push(c),
            },
        }
    }
    out.push('"');
}

fn write(v: &Value, l: Layout, out: &mut String) {
    let sp = SPACES[l.space];
    match v {
        Value::String(s) => write_str(s, l.esc, out),
        Value::Array(a) => {
            out.push('[');
            out.push_str(sp);
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    out.push_str(sp);
                }
                write(x, l, out);
                out.push_str(sp);
            }
            out.push(']');
        }
        Value::Object(m) => {
            let mut keys: Vec<&String> = m.keys().collect();
            match l.order {
                1 => keys.reverse(),
                // Rotated by one and two.
                2 | 3 if !keys.is_empty() => {
                    let n = keys.len();
                    keys.rotate_left((l.order - 1) % n)
                }
                _ => {}
            }
            out.push('{');
            out.push_str(sp);
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    out.push_str(sp);
                }
                write_str(k, l.esc, out);
                out.push_str(sp);
                out.push(':');
                out.push_str(sp);
                write(&m[*k], l, out);
                out.push_str(sp);
            }
            out.push('}');
        }
        v => out.push_str(&v.to_string()),
    }
}

fn layouts() -> Vec<Layout> {
    let mut out = Vec::new();
    for esc in [
        Esc::Minimal,
        Esc::Ascii,
        Esc::AllLower,
        Esc::AllUpper,
        Esc::Short,
    ] {
        for space in 0..SPACES.len() {
            for order in 0..4 {
                // All values of every dimension, and all pairs with the plainest third.
                if (esc == Esc::Minimal) as u8 + (space == 0) as u8 + (order == 0) as u8 > 0 {
                    out.push(Layout { esc, space, order });
                }
            }
        }
    }
    out
}

/// A story printing everything about the list definitions of another.
fn list_probe(v: &Value) -> Option<String> {
    let defs = v["listDefs"].as_object()?;
    if defs.is_empty() {
        return None;
    }
    let mut root: Vec<Value> = Vec::new();
    for (l, items) in defs {
        root.extend([
            json!("ev"),
            json!({"list": {}, "origins": [l]}),
            json!("LIST_ALL"),
            json!("out"),
            json!("/ev"),
            json!("\n"),
        ]);
        for (n, val) in items.as_object()? {
            root.extend([
                json!("ev"),
                json!(format!("^{l}")),
                json!(val),
                json!("listInt"),
                json!("out"),
                json!({"list": {format!("{l}.{n}"): val}}),
                json!("LIST_INVERT"),
                json!("out"),
                json!("/ev"),
                json!("\n"),
            ]);
        }
    }
    root.push(json!("end"));
    root.push(Value::Null);
    Some(json!({"inkVersion": 21, "root": root, "listDefs": defs}).to_string())
}

fn documents(r: &Report) {
    let mut progs = corpus_reference();
    for mut p in programs(r) {
        p.name = format!("rust:{}", p.name);
        progs.push(p);
    }
    let mut from_corpus = 0;
    for (name, ink, _) in corpus_pairs() {
        if let Ok(Ok(j)) = compile_file(&ink) {
            from_corpus += 1;
            progs.push(Prog::from_json(&format!("rust:{name}"), "", &j));
        }
    }
    r.note(format!(
        "{} documents, {from_corpus} of them from this compiler on the corpus",
        progs.len()
    ));
    let depth = r.tier.pick(6, 12);
    par_each(r, &progs, |p| {
        if !same(r, "stories as they are", &p.name, &p.json, depth) {
            return;
        }
        let Ok(v) = serde_json::from_str::<Value>(&p.json) else {
            return r.note(format!("{} is not JSON", p.name));
        };
        if let Some(doc) = list_probe(&v) {
            same(r, "list definition probes", &p.name, &doc, 3);
        }
        let all = layouts();
        for (i, l) in all.iter().enumerate() {
            if is_big(p) && i % 7 != 0 && r.tier == Tier::Quick {
                continue;
            }
            let mut doc = String::new();
            write(&v, *l, &mut doc);
            if !same(
                r,
                "stories in other layouts",
                &format!("{} {l:?}", p.name),
                &doc,
                0,
            ) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- strings

/// Pieces of a JSON string as they are written.
const UNITS: [&str; 44] = [
    "a",
    " ",
    "\\\"",
    "\\\\",
    "\\/",
    "\\b",
    "\\f",
    "\\n",
    "\\r",
    "\\t",
    "\\u0000",
    "\\u0001",
    "\\u001f",
    "\\u0041",
    "\\u00e9",
    "\\u00E9",
    "\\u0301",
    "é",
    "\\u2028",
    "\u{2028}",
    "\\ud83d\\ude00",
    "\\uD83D\\uDE00",
    "😀",
    "\\udbff\\udfff",
    "\\ud800\\udc00",
    "\\u007f",
    "\u{7f}",
    "\u{85}",
    "^",
    "\\ufeff",
    "\\uffff",
    "\\u0022",
    "\\u005c",
    "\\u005cn",
    "}",
    ",",
    "]",
    ":",
    "\u{a0}",
    "\u{3000}",
    "u0041",
    "0",
    "-",
    "/",
];

fn sequences(max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        level = level
            .iter()
            .flat_map(|s| UNITS.iter().map(move |u| format!("{s}{u}")))
            .collect();
        out.extend(level.iter().cloned());
    }
    out
}

fn story(root: &str, defs: &str) -> String {
    format!("{{\"inkVersion\":21,\"root\":[{root}],\"listDefs\":{{{defs}}}}}")
}

/// Where a string can stand in a document: the content item(s) holding it, whether it stands in
/// the named content, the list definitions or the plain content.
const STRING_SPOTS: [(&str, char); 22] = [
    ("\"^%\"", 'c'),
    ("\"#\",\"^%\",\"/#\"", 'c'),
    ("{\"#\":\"%\"}", 'c'),
    ("{\"VAR?\":\"%\"}", 'c'),
    ("{\"VAR=\":\"%\"}", 'c'),
    ("{\"VAR=\":\"%\",\"re\":true}", 'c'),
    ("{\"temp=\":\"%\"}", 'c'),
    ("{\"CNT?\":\"%\"}", 'c'),
    ("{\"->\":\"%\"}", 'c'),
    ("{\"->\":\"%\",\"var\":true}", 'c'),
    ("{\"f()\":\"%\"}", 'c'),
    ("{\"->t->\":\"%\"}", 'c'),
    ("{\"x()\":\"%\",\"exArgs\":1}", 'c'),
    ("{\"^->\":\"%\"}", 'c'),
    ("{\"^var\":\"%\",\"ci\":0}", 'c'),
    ("{\"*\":\"%\",\"flg\":2}", 'c'),
    ("{\"list\":{\"L.%\":1}}", 'c'),
    ("{\"list\":{},\"origins\":[\"%\"]}", 'c'),
    ("[\"^x\",{\"#n\":\"%@\"}]", 'c'),
    ("\"%@\":[\"^x\",null]", 'n'),
    ("\"%@\":{\"A\":1}", 'd'),
    ("\"L@\":{\"%\":1}", 'd'),
];

fn strings(r: &Report) {
    let seqs = sequences(2);
    let deep: Vec<String> = if r.tier == Tier::Thorough {
        sequences(3)
    } else {
        vec![]
    };
    let mut jobs: Vec<(usize, &[String])> = Vec::new();
    for spot in 0..STRING_SPOTS.len() {
        for chunk in seqs.chunks(250) {
            jobs.push((spot, chunk));
        }
        for chunk in deep.chunks(2000) {
            if spot < 3 || spot > 18 {
                jobs.push((spot, chunk));
            }
        }
    }
    let doc = |spot: usize, seqs: &[String]| -> String {
        let (t, kind) = STRING_SPOTS[spot];
        let parts: Vec<String> = seqs
            .iter()
            .enumerate()
            .map(|(i, s)| t.replace('@', &format!("@{i}")).replace('%', s))
            .collect();
        let all = parts.join(",");
        match kind {
            'c' => story(&format!("{all},\"done\",null"), ""),
            'n' => story(&format!("\"done\",{{{all}}}"), ""),
            _ => {
                // The definitions show in a list of all items.
                let lists: Vec<String> = seqs
                    .iter()
                    .enumerate()
                    .map(|(i, s)| match spot {
                        20 => format!("\"{s}@{i}\""),
                        _ => format!("\"L@{i}\""),
                    })
                    .collect();
                let show: Vec<String> = lists
                    .iter()
                    .map(|l| {
                        format!(
                            "\"ev\",{{\"list\":{{}},\"origins\":[{l}]}},\"LIST_ALL\",\"out\",\"/ev\",\"\\n\""
                        )
                    })
                    .collect();
                story(&format!("{},\"done\",null", show.join(",")), &all)
            }
        }
    };
    par_each(r, &jobs, |(spot, seqs)| {
        let d = doc(*spot, seqs);
        let depth = if STRING_SPOTS[*spot].1 == 'd' { 300 } else { 0 };
        r.count("strings", seqs.len() as u64);
        if differ(r, &d, depth).is_some() {
            // One of them; which?
            let before = seqs.iter().find(|s| {
                let one = doc(*spot, std::slice::from_ref(s));
                !same(
                    r,
                    "strings",
                    &format!("{} with {s}", STRING_SPOTS[*spot].0),
                    &one,
                    depth,
                )
            });
            if before.is_none() {
                same(r, "strings", STRING_SPOTS[*spot].0, &d, depth);
            }
        }
    });
    // The whole of the BMP and a few planes beyond it, raw and escaped.
    let step = r.tier.pick(0x10000, 0x110000);
    let ranges: Vec<(u32, bool)> = (0..step / 256)
        .flat_map(|i| [(i * 256, false), (i * 256, true)])
        .chain((0..16).flat_map(|p| {
            [
                (p * 0x10000 + 0xff00, true),
                (p * 0x10000, false),
                (0x10ff00, true),
            ]
        }))
        .collect();
    par_each(r, &ranges, |(from, esc)| {
        let mut t = String::new();
        for c in (*from..from + 256).filter_map(char::from_u32) {
            t.push_str("\"^");
            let mut s = String::new();
            write_str(
                &c.to_string(),
                if *esc { Esc::AllLower } else { Esc::Minimal },
                &mut s,
            );
            t.push_str(&s[1..]);
            t.push(',');
        }
        same(
            r,
            "characters",
            &format!("{from:x} {esc}"),
            &story(&format!("{t}\"done\",null"), ""),
            0,
        );
    });
}

// ---------------------------------------------------------------- numbers

const NUMBERS: [&str; 44] = [
    "0",
    "-0",
    "1",
    "-1",
    "7",
    "10",
    "127",
    "2147483647",
    "-2147483648",
    "1.0",
    "-1.0",
    "-1.5",
    "0.1",
    "0.5",
    "3.14159274",
    "1e3",
    "1E3",
    "1e+3",
    "1E+03",
    "1e-3",
    "1e0",
    "1.5e2",
    "-1.5E-2",
    "0.0",
    "-0.0",
    "0e0",
    "0E5",
    "3.4028235e38",
    "3.4028236e38",
    "-3.4028235e38",
    "1e-45",
    "1e-46",
    "1.17549435e-38",
    "123456789.123",
    "16777217",
    "16777217.0",
    "1e10",
    "0.30000001192092896",
    "1e39",
    "1.7976931348623157e308",
    "2147483648",
    "-2147483649",
    "4294967296",
    "18446744073709551616",
];

const NUMBER_SPOTS: [&str; 11] = [
    "{\"inkVersion\":21,\"root\":[%,\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[[\"^x\",{\"#f\":%}],\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[{\"*\":\"0\",\"flg\":%},\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[{\"x()\":\"f\",\"exArgs\":%},\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[{\"^var\":\"f\",\"ci\":%},\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[{\"list\":{\"L.a\":%}},\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[\"ev\",{\"list\":{\"L.a\":%}},\"LIST_VALUE\",\"out\",\"/ev\",\"\\n\",\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[\"ev\",{\"list\":{},\"origins\":[\"L\"]},\"LIST_ALL\",\"LIST_VALUE\",\"out\",\"/ev\",\"\\n\",\"done\",null],\"listDefs\":{\"L\":{\"a\":%}}}",
    "{\"inkVersion\":%,\"root\":[\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[\"ev\",%,\"out\",\"/ev\",\"\\n\",\"done\",null],\"listDefs\":{}}",
    "{\"inkVersion\":21,\"root\":[[%,null],\"done\",{\"k\":[%,{\"#f\":1}]}],\"listDefs\":{}}",
];

fn numbers(r: &Report) {
    let mut all: Vec<String> = NUMBERS.iter().map(|s| s.to_string()).collect();
    // Every mantissa shape with every exponent around the ends of the f32 range.
    let exps: Vec<i32> = r.tier.pick(vec![-50, -46, -45, -38, -7, 0, 7, 9, 38, 39], {
        (-60..60).collect()
    });
    for m in [
        "1",
        "-1",
        "1.5",
        "9.999999999",
        "3.4028235",
        "-0.1",
        "12.25",
    ] {
        for e in &exps {
            all.push(format!("{m}e{e}"));
            all.push(format!("{m}E{e:+}"));
        }
    }
    for b in 0..=31u32 {
        for d in [-1i64, 0, 1] {
            let n = (1i64 << b) + d;
            all.push(n.to_string());
            all.push((-n).to_string());
            all.push(format!("{n}.0"));
        }
    }
    // What may stand around a number.
    let around = ["%", " %", "% ", "\t%\t", "\n%\r\n"];
    let mut jobs = Vec::new();
    for spot in NUMBER_SPOTS {
        for n in &all {
            jobs.push((spot, n, around[0]));
        }
        for n in NUMBERS.iter().take(20) {
            for a in &around[1..] {
                let n = all.iter().find(|x| x == n).unwrap();
                jobs.push((spot, n, a));
            }
        }
    }
    par_each(r, &jobs, |(spot, n, a)| {
        let doc = spot.replace('%', &a.replace('%', n));
        same(r, "numbers", &format!("{n:?} in {spot}"), &doc, 3);
    });
    // Random-free sweep of floats as content: every exponent, a few mantissas, printed both ways.
    let floats: Vec<u32> = (0..r.tier.pick(255u32, 255))
        .flat_map(|e| {
            [0u32, 1, 0x200000, 0x555555, 0x7fffff]
                .into_iter()
                .flat_map(move |m| [e << 23 | m, 1 << 31 | e << 23 | m])
        })
        .collect();
    let chunks: Vec<&[u32]> = floats.chunks(300).collect();
    par_each(r, &chunks, |c| {
        let mut t = String::new();
        for b in c.iter() {
            let f = f32::from_bits(*b);
            t.push_str(&format!("{f:?},{f:e},{:?},", f as f64));
        }
        same(
            r,
            "floats",
            &format!("{:x}", c[0]),
            &story(&format!("{t}\"done\",null"), ""),
            0,
        );
    });
}

// ---------------------------------------------------------------- content

const TOKENS: [&str; 62] = [
    "ev",
    "out",
    "/ev",
    "du",
    "pop",
    "~ret",
    "->->",
    "str",
    "/str",
    "nop",
    "choiceCnt",
    "turn",
    "turns",
    "readc",
    "rnd",
    "srnd",
    "visit",
    "seq",
    "thread",
    "done",
    "end",
    "listInt",
    "range",
    "lrnd",
    "#",
    "/#",
    "+",
    "-",
    "/",
    "*",
    "%",
    "_",
    "==",
    ">",
    "<",
    ">=",
    "<=",
    "!=",
    "!",
    "&&",
    "||",
    "MIN",
    "MAX",
    "POW",
    "FLOOR",
    "CEILING",
    "INT",
    "FLOAT",
    "?",
    "!?",
    "L^",
    "LIST_MIN",
    "LIST_MAX",
    "LIST_ALL",
    "LIST_COUNT",
    "LIST_VALUE",
    "LIST_INVERT",
    "void",
    "<>",
    "\n",
    "NaN",
    "^",
];

fn leaves() -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    for t in TOKENS {
        for e in [Esc::Minimal, Esc::AllLower] {
            let mut s = String::new();
            write_str(t, e, &mut s);
            out.push(s);
        }
    }
    // Not tokens of the format.
    for t in ["", "Ev", "ev ", " ev", "L", "\\u005eL", "\r\n", "x"] {
        out.push(format!("\"{t}\""));
    }
    // Text that looks like a token.
    for t in TOKENS {
        let mut s = String::new();
        write_str(&format!("^{t}"), Esc::Minimal, &mut s);
        out.push(s);
    }
    for t in ["true", "false", "0", "-3", "2.5", "1e2", "-0.0"] {
        out.push(t.into());
    }
    // Every order of the keys of every kind of object.
    let objects: [&[&str]; 37] = [
        &["\"^->\":\"a.0\""],
        &["\"^->\":\"\""],
        &["\"^->\":\".^.0\""],
        &["\"^var\":\"x\"", "\"ci\":0"],
        &["\"^var\":\"x\"", "\"ci\":-1"],
        &["\"^var\":\"x\""],
        &["\"->\":\"a\""],
        &["\"->\":\"a\"", "\"c\":true"],
        &["\"->\":\"a\"", "\"c\":false"],
        &["\"->\":\"x\"", "\"var\":true"],
        &["\"->\":\"x\"", "\"var\":false"],
        &["\"->\":\"x\"", "\"var\":true", "\"c\":true"],
        &["\"f()\":\"a\""],
        &["\"f()\":\"x\"", "\"var\":true"],
        &["\"f()\":\"a\"", "\"c\":true"],
        &["\"->t->\":\"a\""],
        &["\"->t->\":\"x\"", "\"var\":true"],
        &["\"->t->\":\"a\"", "\"c\":true"],
        &["\"x()\":\"a\""],
        &["\"x()\":\"a\"", "\"exArgs\":0"],
        &["\"x()\":\"a\"", "\"exArgs\":3"],
        &["\"x()\":\"a\"", "\"exArgs\":1", "\"c\":true"],
        &["\"*\":\"a.0\"", "\"flg\":20"],
        &["\"*\":\"a.0\"", "\"flg\":0"],
        &["\"*\":\"a.0\""],
        &["\"*\":\".^.c-0\"", "\"flg\":31"],
        &["\"VAR?\":\"x\""],
        &["\"CNT?\":\"a.b\""],
        &["\"VAR=\":\"x\""],
        &["\"VAR=\":\"x\"", "\"re\":true"],
        &["\"VAR=\":\"x\"", "\"re\":false"],
        &["\"temp=\":\"x\""],
        &["\"temp=\":\"x\"", "\"re\":true"],
        &["\"#\":\"tag text\""],
        &["\"list\":{}"],
        &["\"list\":{\"L.a\":1,\"L.b\":2,\"M.a\":-1}"],
        // The compilers write the origins after the items of an empty list.
        &["\"list\":{\"L.a\":1}"],
    ];
    for o in objects {
        for perm in permutations(o.len()) {
            let keys: Vec<&str> = perm.iter().map(|i| o[*i]).collect();
            out.push(format!("{{{}}}", keys.join(",")));
        }
        out.push(format!("{{ {} }}", o.join(" , ").replacen(':', " : ", 1)));
    }
    out.push("{\"list\":{},\"origins\":[]}".into());
    out.push("{\"list\":{},\"origins\":[\"L\"]}".into());
    out.push("{\"list\":{},\"origins\":[\"L\",\"M\"]}".into());
    out.push("{\"list\":{\"L.a\":1},\"origins\":[\"L\"]}".into());
    for t in terminators() {
        out.push(format!("[{t}]"));
        out.push(format!("[\"^in\",{t}]"));
        out.push(format!("[[[{t}],null],{t}]"));
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = Vec::new();
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// Names a knot may have that are keys of the format.
const KEYWORDS: [&str; 22] = [
    "list",
    "origins",
    "c",
    "var",
    "ci",
    "flg",
    "re",
    "exArgs",
    "inkVersion",
    "root",
    "listDefs",
    "global decl",
    "->",
    "f()",
    "->t->",
    "x()",
    "*",
    "VAR?",
    "temp=",
    "^->",
    "^var",
    "#",
];

fn terminators() -> Vec<String> {
    let mut out: Vec<String> = vec!["null".into(), " null ".into(), "{}".into(), "{ }".into()];
    let parts = [
        "\"#f\":5",
        "\"#n\":\"g-0\"",
        "\"k\":[\"^in\",null]",
        "\"é\\u0041\":[\"^in\",{\"#f\":1}]",
    ];
    for mask in 1..16usize {
        let some: Vec<&str> = (0..4)
            .filter(|b| mask >> b & 1 == 1)
            .map(|b| parts[b])
            .collect();
        for perm in permutations(some.len()) {
            let keys: Vec<&str> = perm.iter().map(|i| some[*i]).collect();
            out.push(format!("{{{}}}", keys.join(",")));
        }
    }
    for f in 0..8 {
        out.push(format!("{{\"#f\":{f}}}"));
    }
    out
}

fn content(r: &Report) {
    let leaves = leaves();
    let terms = terminators();
    r.note(format!(
        "{} kinds of content items, {} kinds of last elements",
        leaves.len(),
        terms.len()
    ));
    // Singles, with every last element.
    let mut jobs: Vec<(String, String)> = Vec::new();
    for l in &leaves {
        jobs.push((l.clone(), story(&format!("{l},null"), "")));
        jobs.push((
            format!("pair {l}"),
            story(&format!("[{l},\"^x\",null],{l},\"done\",null"), ""),
        ));
        jobs.push((
            format!("named {l}"),
            story(&format!("\"done\",{{\"k\":[{l},null],\"#f\":1}}"), ""),
        ));
    }
    for t in &terms {
        jobs.push((t.clone(), story(&format!("\"^x\",{t}"), "")));
        jobs.push((
            format!("inner {t}"),
            story(&format!("[\"^x\",{t}],\"done\",{t}"), ""),
        ));
    }
    // Pairs: every item before every other.
    let n = leaves.len();
    for i in 0..n {
        if r.tier == Tier::Quick && i % 3 != 0 {
            continue;
        }
        jobs.push((
            format!("all pairs from {}", leaves[i]),
            // Items both loaders refuse would hide the rest.
            format!("@{i}"),
        ));
    }
    let accepted: Vec<bool> = leaves
        .iter()
        .map(|l| dump(&story(&format!("{l},null"), ""), 0)["load"] == "Ok")
        .collect();
    par_each(r, &jobs, |(key, doc)| {
        if let Some(i) = doc.strip_prefix('@') {
            let i: usize = i.parse().unwrap();
            if !accepted[i] {
                return;
            }
            let mut t = String::new();
            for (j, l) in leaves.iter().enumerate() {
                if accepted[j] {
                    t.push_str(&format!("[{},{l},{}],", leaves[i], terms[j % terms.len()]));
                }
            }
            same(
                r,
                "content pairs",
                key,
                &story(&format!("{t}\"done\",null"), ""),
                0,
            );
        } else {
            same(r, "content", key, doc, 2);
        }
    });
    // Knots, lists and items named like keys of the format.
    let mut named = Vec::new();
    for k in KEYWORDS {
        for l in KEYWORDS {
            for inner in ["null", "{\"#f\":1}", "{\"#n\":\"x\",\"k\":[\"^y\",null]}"] {
                let both = if k == l {
                    format!("\"{k}\":[\"^x\",{inner}]")
                } else {
                    format!("\"{k}\":[\"^x\",{inner}],\"{l}\":[\"^z\",{inner}]")
                };
                named.push((
                    format!("{k} and {l}"),
                    story(&format!("\"^a\",\"done\",{{{both},\"#f\":1}}"), ""),
                ));
            }
        }
        named.push((
            format!("list {k}"),
            story(
                &format!("\"ev\",{{\"list\":{{}},\"origins\":[\"{k}\"]}},\"LIST_ALL\",\"out\",{{\"list\":{{\"{k}.{k}\":1}}}},\"LIST_INVERT\",\"out\",\"/ev\",\"\\n\",\"done\",null"),
                &format!("\"{k}\":{{\"{k}\":1,\"b\":2}}"),
            ),
        ));
        named.push((
            format!("string {k}"),
            story(
                &format!("{{\"VAR?\":\"{k}\"}},{{\"VAR=\":\"{k}\",\"re\":true}},\"^{k}\",{{\"#\":\"{k}\"}},\"done\",null"),
                "",
            ),
        ));
    }
    par_each(r, &named, |(k, doc)| {
        same(r, "names that are keys", k, doc, 2);
    });
    // The outermost object: key orders, unknown keys, missing keys.
    let keys = [
        "\"inkVersion\":21",
        "\"root\":[\"^x\",\"\\n\",\"done\",null]",
        "\"listDefs\":{\"L\":{\"a\":1}}",
        "\"extra\":{\"a\":[1,{\"b\":null},\"s\",true,1.5e3]}",
    ];
    let mut tops = Vec::new();
    for mask in 0..16usize {
        let some: Vec<&str> = (0..4)
            .filter(|b| mask >> b & 1 == 1)
            .map(|b| keys[b])
            .collect();
        for perm in permutations(some.len()) {
            for sep in [",", " ,\n"] {
                let ks: Vec<&str> = perm.iter().map(|i| some[*i]).collect();
                tops.push(format!("{{{}}}", ks.join(sep)));
                tops.push(format!("\n {{ {} }}\r\n\t", ks.join(sep)));
            }
        }
    }
    for v in 0..30 {
        tops.push(format!(
            "{{\"inkVersion\":{v},\"root\":[\"done\",null],\"listDefs\":{{}}}}"
        ));
    }
    par_each(r, &tops, |doc| {
        same(r, "outermost object", doc, doc, 2);
    });
    // Nesting.
    let depths: Vec<usize> = (1..r.tier.pick(135, 400)).collect();
    par_each(r, &depths, |d| {
        let open = "[".repeat(*d);
        let close = ",null]".repeat(*d);
        same(
            r,
            "nesting",
            &d.to_string(),
            &story(&format!("{open}\"^x\"{close},\"done\",null"), ""),
            2,
        );
        let open = "[\"done\",{\"k\":".repeat(*d);
        let close = "}]".repeat(*d);
        same(
            r,
            "nesting",
            &format!("named {d}"),
            &story(
                &format!("\"done\",{{\"k\":{open}[\"^x\",null]{close}}}"),
                "",
            ),
            2,
        );
    });
}

// ---------------------------------------------------------------- compiled text

/// Sources whose text has every special character in every place for text.
fn compiled(r: &Report) {
    let chars = [
        "\t",
        "\"",
        "\\\\",
        "'",
        "\u{1}",
        "\u{7}",
        "\u{8}",
        "\u{b}",
        "\u{c}",
        "\u{1b}",
        "\u{7f}",
        "\u{85}",
        "é",
        "e\u{301}",
        "ß",
        "日本",
        "😀",
        "👩‍🚀",
        "\u{2028}",
        "\u{2029}",
        "\u{200b}",
        "\u{feff}",
        "\u{fffd}",
        "\u{10ffff}",
        "^",
        "/",
        "%",
        "&",
        ";",
        ",",
    ];
    let spots = [
        "Text a@b.\n-> END\n",
        "@\n-> END\n",
        "One # tag a@b\n-> END\n",
        "# glob@al\nText.\n-> END\n",
        "* a@b[c@d]e@f\n  in@side\n- -> END\n",
        "VAR s = \"a@b\"\n{s}|{\"@\"}\n-> END\n",
        "{true:a@b|c@d} {&x@|y@}\n-> END\n",
        "~ temp t = \"@@\"\n{t == \"@@\":same|not}\n-> END\n",
    ];
    let mut jobs = Vec::new();
    for c in chars {
        for d in chars {
            if r.tier == Tier::Quick && c != d {
                continue;
            }
            for s in spots {
                jobs.push(s.replacen('@', c, 1).replace('@', d));
            }
        }
    }
    par_each(r, &jobs, |src| {
        if let Ok(Ok(j)) = compile(src) {
            same(r, "compiled text", src, &j, 4);
        } else {
            r.count("sources that do not compile", 1);
        }
    });
}

pub fn run(r: &Report) {
    if !stream_exe().exists() {
        return r.engine_error("the build with the streaming loader is missing");
    }
    match stream(
        &json!({"cmd": "dump", "doc": "{\"inkVersion\":21}", "depth": 0}),
        Duration::from_secs(20),
    ) {
        Ok(v) if v["loader"] == "stream" => {}
        x => return r.engine_error(format!("the child is not the streaming build: {x:?}")),
    }
    numbers(r);
    content(r);
    compiled(r);
    documents(r);
    strings(r);
    r.assume("the harness built with the feature stream-json-parser differs from the default build only in the loader");
}
