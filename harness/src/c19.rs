//! C19: every piece of story content is addressable by its own path.
//!
//! Four bounded spaces: (1) every object, every position and pairs of objects of corpus, zoo and
//! generated stories (weaves with every assignment of a small name set to every naming slot), and
//! of every hand-made content tree up to a size; (2) every path text up to a length; (3) every
//! path written into a save along every play history; (4) every position addressed from the host.
//! The document itself (the JSON text) says which object a path denotes.
use crate::{c02::flow_alphabet, explore::*, host::*, prog::*, util::*};
use bladeink::story::Story;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};

/// What the document holds at every canonical path: kind, number of content items, text.
#[derive(Debug, Default)]
pub struct Doc {
    pub at: BTreeMap<String, (char, usize, String)>,
    pub repeated: Vec<String>,
}

fn join(p: &str, k: &str) -> String {
    if p.is_empty() {
        k.to_string()
    } else {
        format!("{p}.{k}")
    }
}

impl Doc {
    pub fn of(root: &Value) -> Doc {
        let mut d = Doc::default();
        d.add(root, "");
        d
    }
    fn put(&mut self, p: String, v: (char, usize, String)) {
        if self.at.insert(p.clone(), v).is_some() {
            self.repeated.push(p);
        }
    }
    fn add(&mut self, c: &Value, path: &str) {
        let Some(a) = c.as_array() else { return };
        let n = a.len().saturating_sub(1);
        self.put(path.to_string(), ('c', n, String::new()));
        for (i, x) in a.iter().take(n).enumerate() {
            if x.is_array() {
                match named_content(x)
                    .and_then(|m| m.get("#n"))
                    .and_then(|v| v.as_str())
                {
                    Some(k) => self.add(x, &join(path, k)),
                    None => self.add(x, &join(path, &i.to_string())),
                }
            } else {
                let text = x.as_str().unwrap_or("").to_string();
                self.put(join(path, &i.to_string()), ('o', 0, text));
            }
        }
        if let Some(m) = a.last().and_then(|l| l.as_object()) {
            for (k, x) in m {
                if x.is_array() {
                    self.add(x, &join(path, k));
                }
            }
        }
    }
}

fn document(json: &str) -> Option<Value> {
    serde_json::from_str(json.trim_start_matches('\u{feff}')).ok()
}

/// Audits one story; the problems found.
fn audit(r: &Report, name: &str, json: &str, pairs: u64) -> Vec<String> {
    let mut out = Vec::new();
    let Some(v) = document(json) else {
        return vec!["not a JSON document".into()];
    };
    let res = catch(|| Story::new(json).map(|s| s.verif_audit(pairs)));
    let a = match res {
        Ok(Ok(a)) => a,
        Ok(Err(e)) => {
            // Whether a document loads at all is not this property.
            r.count("documents that do not load", 1);
            r.note(format!("{name} does not load: {e:?}"));
            return out;
        }
        Err(p) => return vec![format!("panic while walking the content: {p}")],
    };
    r.states(a.listing.len() as u64);
    r.transitions(a.pairs + a.pointers);
    out.extend(a.failures.iter().take(5).cloned());
    let doc = Doc::of(&v["root"]);
    let mut listed: BTreeMap<&str, (&str, &str)> = BTreeMap::new();
    for l in &a.listing {
        let mut it = l.splitn(4, '|');
        let (_, path, kind, text) = (
            it.next(),
            it.next().unwrap_or(""),
            it.next().unwrap_or(""),
            it.next().unwrap_or(""),
        );
        if listed.insert(path, (kind, text)).is_some() {
            out.push(format!("two objects report the path '{path}'"));
        }
    }
    if doc.repeated.is_empty() {
        for (p, (k, _, text)) in &doc.at {
            match listed.get(p.as_str()) {
                None => out.push(format!("nothing reports the path '{p}' of the document")),
                Some((kind, t)) => {
                    if (*k == 'c') != (*kind == "container") {
                        out.push(format!("'{p}' is a {kind}, the document holds {k}"));
                    }
                    if let Some(s) = text.strip_prefix('^')
                        && !t.starts_with(&format!("str {s:?}"))
                    {
                        out.push(format!("'{p}' holds {t}, the document {s:?}"));
                    }
                }
            }
        }
        for p in listed.keys() {
            if !doc.at.contains_key(*p) {
                out.push(format!("the path '{p}' does not exist in the document"));
            }
        }
    }
    out.truncate(6);
    out
}

fn judge(r: &Report, name: &str, what: &str, json: &str, source: &str, pairs: u64) {
    r.count(what, 1);
    let bad = audit(r, name, json, pairs);
    r.outcome(&format!("{what}{}", bad.len()));
    if !bad.is_empty() {
        r.violation(
            name,
            format!(
                "{}\nsource:\n{}\njson: {}\n",
                bad.join("\n"),
                source.chars().take(3000).collect::<String>(),
                json.chars().take(3000).collect::<String>()
            ),
        );
    }
}

// ---------------------------------------------------------------- stories

fn stories(r: &Report) {
    let mut jobs: Vec<(String, String, String)> = Vec::new();
    for p in programs(r) {
        jobs.push((p.name.clone(), p.source.clone(), p.json.clone()));
    }
    for (n, p, _) in corpus_pairs() {
        if let Ok(Ok(j)) = compile_file(&p) {
            let src = std::fs::read_to_string(&p).unwrap_or_default();
            jobs.push((format!("rust:{n}"), src, j));
        }
    }
    let pairs = r.tier.pick(20_000, 1_000_000);
    par_each(r, &jobs, |(n, s, j)| judge(r, n, "stories", j, s, pairs));
}

// ---------------------------------------------------------------- naming slots

const TEMPLATES: [(&str, usize); 5] = [
    (
        "start\n* (@0) one\n - - (@1) deep\n* two\n- (@2) met\n+ (@3) [x] y\n-> END\n",
        4,
    ),
    (
        "-> @0\n== @0 ==\na\n* (@1) one\n  -> @0.@2\n- b\n-> END\n= @2\nc\n- (@3) d\n-> END\n",
        4,
    ),
    (
        "~ @0(1)\n-> @1\n== function @0(x)\n~ return x\n== @1 ==\n- (@2) d\n* [z]\n- (@3) e {@1.@2}\n-> END\n",
        4,
    ),
    (
        "-> @0.@1\n== @0 ==\n= @1\nq\n* (@2) one\n  * * (@3) two\n  * * three\n  - - w\n- x\n-> END\n== other ==\n-> @0\n",
        4,
    ),
    (
        "- (@0)\n{stopping:\n- a\n- b\n  * (@1) c\n- d\n}\n* (@2) e\n- (@3)\n{shuffle: x|{y|z}|} {@0}{@3}\n-> END\n",
        4,
    ),
];

/// Templates of stories with slots for names; every assignment of names to slots.
fn slots(r: &Report) {
    // Names that look like numbers, like the names the compiler gives, and ordinary ones.
    let names: &[&str] = r.tier.pick(
        &["a", "b", "5", "g0", "_"][..],
        &["a", "b", "5", "g0", "_", "c0", "1a", "é", "s0", "done"][..],
    );
    let mut jobs = Vec::new();
    for (t, k) in TEMPLATES {
        for n in 0..names.len().pow(k as u32) {
            jobs.push((t, k, n));
        }
    }
    par_each(r, &jobs, |&(t, k, n)| {
        let mut m = n;
        let mut src = t.to_string();
        let mut chosen = Vec::new();
        for i in 0..k {
            let w = names[m % names.len()];
            m /= names.len();
            src = src.replace(&format!("@{i}"), w);
            chosen.push(w);
        }
        match compile(&src) {
            Ok(Ok(j)) => judge(
                r,
                &format!(
                    "slots:{}:{}",
                    TEMPLATES.iter().position(|x| x.0 == t).unwrap(),
                    chosen.join(",")
                ),
                "named programs",
                &j,
                &src,
                400,
            ),
            Ok(Err(_)) => r.count("named programs the compiler rejects", 1),
            Err(_) => r.count("named programs on which the compiler panics", 1),
        }
    });
}

// ---------------------------------------------------------------- hand-made trees

const TREE_NAMES: [&str; 7] = ["a", "g-0", "1a", "é", "c-0", "s", "x y"];

/// All sequences of at most `width` children; a child is a text or a container of one of three
/// kinds around any sequence of the level below.
fn trees(level: usize, widths: &[usize]) -> Vec<Vec<(u8, usize)>> {
    // A container is a list of (kind, index into the level below): 0 text, 1 unnamed, 2 named
    // inline, 3 named only.
    let below = if level + 1 < widths.len() {
        trees(level + 1, widths).len()
    } else {
        0
    };
    let mut items = vec![(0u8, 0usize)];
    for k in 1..4u8 {
        for b in 0..below {
            items.push((k, b));
        }
    }
    let mut out: Vec<Vec<(u8, usize)>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..widths[level] {
        let mut next = Vec::new();
        for s in &last {
            for it in &items {
                let mut t = s.clone();
                t.push(*it);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

fn build(levels: &[Vec<Vec<(u8, usize)>>], level: usize, idx: usize, count: &mut usize) -> Value {
    let mut content = Vec::new();
    let mut named = serde_json::Map::new();
    for (i, &(k, b)) in levels[level][idx].iter().enumerate() {
        if k == 0 {
            content.push(json!(format!("^t{count}")));
            *count += 1;
            continue;
        }
        let mut c = build(levels, level + 1, b, count);
        let name = TREE_NAMES[(i + 2 * level + *count) % TREE_NAMES.len()].to_string()
            + if i > 0 { "'" } else { "" }
            + if i > 1 { "'" } else { "" };
        *count += 1;
        match k {
            1 => content.push(c),
            2 => {
                let a = c.as_array_mut().unwrap();
                let last = a.pop().unwrap();
                let mut m = last.as_object().cloned().unwrap_or_default();
                m.insert("#n".into(), json!(name));
                a.push(Value::Object(m));
                content.push(c);
            }
            _ => {
                named.insert(name, c);
            }
        }
    }
    content.push(if named.is_empty() {
        Value::Null
    } else {
        Value::Object(named)
    });
    Value::Array(content)
}

fn handmade(r: &Report) {
    let widths: &[usize] = r.tier.pick(&[2, 2, 1, 0][..], &[2, 2, 2, 0][..]);
    let levels: Vec<Vec<Vec<(u8, usize)>>> = (0..widths.len()).map(|l| trees(l, widths)).collect();
    let n = levels[0].len();
    r.note(format!("hand-made trees of widths {widths:?}: {n}"));
    par_range(r, n as u64, 64, |i| {
        let root = build(&levels, 0, i as usize, &mut 0);
        let j = json!({"inkVersion": 21, "root": root, "listDefs": {}}).to_string();
        judge(r, &format!("tree:{i}"), "hand-made trees", &j, "", 400);
    });
}

// ---------------------------------------------------------------- path texts

#[derive(Clone, PartialEq, Eq, Debug)]
struct Model {
    relative: bool,
    comps: Vec<String>,
}

impl Model {
    fn text(&self) -> String {
        format!(
            "{}{}",
            if self.relative { "." } else { "" },
            self.comps.join(".")
        )
    }
    /// Leading parents of `b` go up in `self`; going above the root leaves nothing to go up from.
    fn append(&self, b: &Model) -> Model {
        let ups = b.comps.iter().take_while(|c| *c == "^").count();
        let mut comps = self.comps.clone();
        comps.truncate(self.comps.len().saturating_sub(ups));
        comps.extend(b.comps[ups..].iter().cloned());
        Model {
            relative: false,
            comps,
        }
    }
}

fn texts(r: &Report) {
    use bladeink::verif::*;
    let plain = ["a", "b", "0", "1", "10", "^", "é", "g-0", "a b", "1a"];
    let odd = [
        "",
        "007",
        "+1",
        "-1",
        "18446744073709551616",
        "١",
        " 1",
        "a.",
    ];
    let maxlen = r.tier.pick(3, 4);
    // Canonical texts, with the model that says what they are.
    let mut models: Vec<Model> = Vec::new();
    let mut level: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = Vec::new();
        for l in &level {
            for c in plain {
                let mut m = l.clone();
                m.push(c.to_string());
                next.push(m);
            }
        }
        for l in &next {
            for relative in [false, true] {
                models.push(Model {
                    relative,
                    comps: l.clone(),
                });
            }
        }
        level = next;
    }
    let one = |text: &str, model: Option<&Model>| {
        r.states(1);
        r.transitions(3);
        r.count("path texts", 1);
        let bad = |m: String| r.violation(&format!("text:{text}"), m);
        let res = catch(|| {
            let i = path_info(text);
            let j = path_info(&i.text);
            let (eq, ha, hb) = paths_equal(text, &i.text);
            (i, j, eq, ha, hb)
        });
        let (i, j, eq, ha, hb) = match res {
            Ok(x) => x,
            Err(p) => return bad(format!("path text {text:?}: panic {p}")),
        };
        r.outcome(&format!("{}{}", i.relative, i.len));
        if i.relative != text.starts_with('.') || j.relative != i.relative {
            bad(format!(
                "path text {text:?} is relative: {}; its text {:?} is relative: {}",
                i.relative, i.text, j.relative
            ));
        }
        if !eq || i.len != j.len {
            bad(format!(
                "path text {text:?} prints as {:?}, which is a different path",
                i.text
            ));
        } else if ha != hb {
            bad(format!(
                "{text:?} and its text {:?} are equal paths with different hashes",
                i.text
            ));
        }
        if j.text != i.text {
            bad(format!(
                "path text {text:?} prints as {:?}, and that as {:?}",
                i.text, j.text
            ));
        }
        if let Some(m) = model
            && (i.text != m.text() || i.len != m.comps.len())
        {
            bad(format!(
                "path text {text:?} prints as {:?} with {} components",
                i.text, i.len
            ));
        }
    };
    par_each(r, &models, |m| one(&m.text(), Some(m)));
    // Odd spellings: consistency only.
    let mut odds = vec!["".to_string(), ".".to_string(), "..".to_string()];
    for a in odd.iter().chain(&plain) {
        for b in odd.iter().chain(&plain) {
            for p in ["", "."] {
                odds.push(format!("{p}{a}.{b}"));
                odds.push(format!("{p}{a}"));
            }
        }
    }
    par_each(r, &odds, |t| one(t, None));
    // Equality and hashing over all pairs of short texts.
    let short: Vec<&Model> = models.iter().filter(|m| m.comps.len() <= 2).collect();
    let mut texts: Vec<(String, Option<&Model>)> =
        short.iter().map(|m| (m.text(), Some(*m))).collect();
    texts.extend(odds.iter().map(|o| (o.clone(), None)));
    par_each(r, &texts, |(a, ma)| {
        for (b, mb) in &texts {
            r.transitions(1);
            let (eq, ha, hb) = paths_equal(a, b);
            if eq && ha != hb {
                r.violation(
                    &format!("pair:{a}:{b}"),
                    format!("{a:?} and {b:?} are equal paths with different hashes"),
                );
            }
            if let (Some(ma), Some(mb)) = (ma, mb)
                && eq != (ma == mb)
            {
                r.violation(&format!("pair:{a}:{b}"), format!("{a:?} == {b:?} is {eq}"));
            }
        }
    });
    // Joining.
    let bases: Vec<&Model> = models
        .iter()
        .filter(|m| !m.relative && m.comps.len() <= 3 && !m.comps.iter().any(|c| c == "^"))
        .collect();
    let ends: Vec<&Model> = models
        .iter()
        .filter(|m| m.relative && m.comps.len() <= 3)
        .filter(|m| {
            let ups = m.comps.iter().take_while(|c| *c == "^").count();
            !m.comps[ups..].iter().any(|c| c == "^")
        })
        .collect();
    par_each(r, &bases, |a| {
        for b in &ends {
            if b.comps.iter().take_while(|c| *c == "^").count() > a.comps.len() {
                // Above the root: not the path of anything.
                continue;
            }
            r.transitions(1);
            r.count("paths joined", 1);
            let (at, bt) = (a.text(), b.text());
            let key = format!("join:{at}:{bt}");
            match catch(|| path_append(&at, &bt)) {
                Err(p) => r.violation(&key, format!("joining {at:?} and {bt:?}: panic {p}")),
                Ok((t, rt, eq, hash)) => {
                    let want = a.append(b);
                    if t != want.text() {
                        r.violation(
                            &key,
                            format!("{at:?} joined with {bt:?} is {t:?}, not {:?}", want.text()),
                        );
                    }
                    // The path to the root has no text of its own.
                    if rt != t || !eq || !hash {
                        r.violation(
                            &key,
                            format!("{at:?} joined with {bt:?} is {t:?}; read back {rt:?}, equal {eq}, same hash {hash}"),
                        );
                    }
                }
            }
        }
    });
}

// ---------------------------------------------------------------- saves

/// Every path of a save must denote content of the document.
fn save_paths(doc: &Doc, v: &Value, out: &mut Vec<String>) {
    let exact = |p: &str, what: &str, out: &mut Vec<String>| {
        if !doc.at.contains_key(p) {
            out.push(format!("{what} '{p}' is not the path of any content"));
        }
    };
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                match (k.as_str(), x) {
                    ("cPath", Value::String(p)) => {
                        let idx = m.get("idx").and_then(|i| i.as_i64()).unwrap_or(-2);
                        match doc.at.get(p) {
                            Some(('c', n, _)) if idx >= -1 && idx <= *n as i64 => {}
                            Some((k, n, _)) => out.push(format!(
                                "position {idx} of '{p}', which is a {k} with {n} items"
                            )),
                            None => out.push(format!("cPath '{p}' is not the path of any content")),
                        }
                    }
                    (
                        "previousContentObject"
                        | "originalChoicePath"
                        | "targetPath"
                        | "^->"
                        | "currentDivertTarget",
                        Value::String(p),
                    ) => exact(p, k, out),
                    ("visitCounts" | "turnIndices", Value::Object(c)) => {
                        for p in c.keys() {
                            match doc.at.get(p) {
                                Some(('c', _, _)) => {}
                                _ => out.push(format!("{k} of '{p}', which is no container")),
                            }
                        }
                    }
                    _ => save_paths(doc, x, out),
                }
            }
        }
        Value::Array(a) => {
            for x in a {
                save_paths(doc, x, out);
            }
        }
        _ => {}
    }
}

fn top_position(v: &Value) -> Option<(String, i64)> {
    let flow = v.get("currentFlowName")?.as_str()?;
    let t = v["flows"][flow]["callstack"]["threads"]
        .as_array()?
        .last()?;
    let e = t["callstack"].as_array()?.last()?;
    Some((e["cPath"].as_str()?.to_string(), e["idx"].as_i64()?))
}

fn saves(r: &Report, p: &Prog, cfg: &Cfg, paths: &[Vec<Op>], doc: &Doc) {
    for path in paths {
        if r.stop() {
            return;
        }
        r.traces(1);
        let Ok(mut h) = Host::new(p, cfg) else { return };
        for at in 0..=path.len() {
            r.states(1);
            r.count("saves read", 1);
            if let Ok(v) = h.save() {
                let mut bad = Vec::new();
                save_paths(doc, &v, &mut bad);
                if !bad.is_empty() {
                    r.violation(
                        &format!("save:{}:{}", p.name, show_ops(&path[..at])),
                        format!("{}{}\n", describe(p, cfg, &path[..at]), bad.join("\n")),
                    );
                    return;
                }
            }
            if let Some(op) = path.get(at) {
                r.transitions(1);
                h.apply(op);
                if h.dead {
                    break;
                }
            }
        }
    }
}

/// Jumps to every container and every position: the save must hold that position.
fn jumps(r: &Report, p: &Prog, cfg: &Cfg, doc: &Doc, cap: usize) {
    let mut targets: Vec<(String, Option<usize>)> = Vec::new();
    for (path, (k, n, _)) in &doc.at {
        if *k != 'c' || path.is_empty() || path == "global decl" {
            continue;
        }
        targets.push((path.clone(), None));
        for i in 0..*n {
            targets.push((path.clone(), Some(i)));
        }
    }
    let step = targets.len().div_ceil(cap).max(1);
    for (path, i) in targets.iter().step_by(step) {
        if r.stop() {
            return;
        }
        let Ok(mut h) = Host::new(p, cfg) else { return };
        let text = match i {
            Some(i) => format!("{path}.{i}"),
            None => path.clone(),
        };
        r.transitions(1);
        r.count("positions chosen by the host", 1);
        let op = Op::Path(text.clone(), true, vec![]);
        let res = h.apply(&op);
        let want = match i {
            None => {
                let by_index = text
                    .rsplit('.')
                    .next()
                    .is_some_and(|l| l.chars().all(|c| c.is_ascii_digit()));
                if by_index {
                    // An unnamed container: an element of the container around it.
                    let (a, b) = text.rsplit_once('.').unwrap_or(("", &text));
                    (a.to_string(), b.parse().unwrap_or(-9))
                } else {
                    (path.clone(), 0)
                }
            }
            Some(i) => (path.clone(), *i as i64),
        };
        let got = h.save().ok().as_ref().and_then(top_position);
        r.outcome(&format!("{}", res.starts_with("Ok")));
        if got != Some(want.clone()) {
            r.violation(
                &format!("jump:{}:{text}", p.name),
                format!(
                    "{}result {res}; position in the save {got:?}, expected {want:?}\n",
                    describe(p, cfg, &[op])
                ),
            );
            return;
        }
    }
}

fn histories(r: &Report) {
    let progs = programs(r);
    let cfg = Cfg {
        handler: true,
        ..seeded()
    };
    let cap = r.tier.pick(40, 400);
    let jcap = r.tier.pick(120, 2000);
    let mut totals: HashMap<&str, u64> = HashMap::new();
    totals.insert("programs", progs.len() as u64);
    par_each(r, &progs, |p| {
        let Some(v) = document(&p.json) else { return };
        let doc = Doc::of(&v["root"]);
        if !doc.repeated.is_empty() {
            return;
        }
        let cap = if is_big(p) { cap / 4 } else { cap };
        let plays = enumerate(p, &cfg, &[], &play_moves, cap, 12, 60);
        saves(r, p, &cfg, &plays.paths, &doc);
        if !is_big(p) {
            let flows = enumerate(p, &cfg, &[], &flow_alphabet(p), cap, 8, 30);
            saves(r, p, &cfg, &flows.paths, &doc);
        }
        jumps(r, p, &cfg, &doc, if is_big(p) { jcap / 4 } else { jcap });
    });
}

pub fn run(r: &Report) {
    r.assume("which object a path denotes is read off the JSON document of the story");
    texts(r);
    slots(r);
    stories(r);
    histories(r);
    handmade(r);
    r.sample(json!({"text": ".^.^.hello.5", "model": "relative, five components"}));
}
