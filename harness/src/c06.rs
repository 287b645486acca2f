//! C06: the compiler is total and deterministic, and what it returns is whole.
//!
//! Sources are enumerated (every token sequence over Ink's signs up to a length in every
//! context, every single-place change of every corpus and zoo source, every special character at
//! every position of small sources, nesting of every construct to great depths, include graphs)
//! and compiled in child processes. A panic, a hang, a dying child, two different outputs, an
//! error line that is not in the input, an output that does not load, and a reference that an
//! independent reading of the document cannot find are violations.
use crate::{
    c04::{self, mutations},
    prog::*,
    util::*,
};
use bladeink::story::Story;
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

// ---------------------------------------------------------------- the document, read on its own

struct Scope<'a> {
    root: &'a Value,
    globals: BTreeSet<String>,
    /// Names given to temporaries and parameters, by knot ("" outside of any).
    temps: BTreeMap<String, BTreeSet<String>>,
    items: BTreeSet<String>,
    lists: BTreeSet<String>,
    found: Vec<String>,
    refs: usize,
}

fn child<'a>(c: &'a Value, k: &str) -> Option<&'a Value> {
    let a = c.as_array()?;
    let n = a.len().checked_sub(1)?;
    let name = |x: &'a Value| {
        named_content(x)
            .and_then(|m| m.get("#n"))
            .and_then(Value::as_str)
    };
    // A component that is a number is an index.
    if let Ok(i) = k.parse::<usize>() {
        return a[..n].get(i);
    }
    if let Some(x) = named_content(c)
        .and_then(|m| m.get(k))
        .filter(|x| x.is_array())
    {
        return Some(x);
    }
    a[..n].iter().find(|x| x.is_array() && name(x) == Some(k))
}

/// The object a path names, read from the object at `at` (its components).
fn find<'a>(root: &'a Value, at: &[String], path: &str) -> Option<&'a Value> {
    let mut pos: Vec<String>;
    let rest: Vec<&str>;
    if let Some(rel) = path.strip_prefix('.') {
        pos = at.to_vec();
        rest = rel.split('.').collect();
    } else {
        pos = vec![];
        rest = path.split('.').collect();
    }
    for c in rest {
        if c == "^" {
            pos.pop()?;
        } else {
            pos.push(c.to_string());
        }
    }
    let mut here = root;
    for c in &pos {
        here = child(here, c)?;
    }
    Some(here)
}

impl<'a> Scope<'a> {
    fn say(&mut self, at: &[String], what: String) {
        self.found.push(format!("{what} (at {})", at.join(".")));
    }

    fn target(&mut self, at: &[String], what: &str, p: &str) -> Option<&'a Value> {
        self.refs += 1;
        let x = find(self.root, at, p);
        if x.is_none() {
            self.say(at, format!("{what} {p:?} leads nowhere"));
        }
        x
    }

    fn variable(&mut self, at: &[String], what: &str, n: &str, item: bool) {
        self.refs += 1;
        let knot = at.first().map(String::as_str).unwrap_or("");
        let knot = if knot.parse::<usize>().is_ok() {
            ""
        } else {
            knot
        };
        let known = self.globals.contains(n)
            || self.temps.get(knot).is_some_and(|t| t.contains(n))
            || item && (self.items.contains(n) || self.lists.contains(n));
        if !known {
            self.say(at, format!("{what} {n:?} is not declared"));
        }
    }

    fn temporaries(&mut self, c: &Value, knot: &str) {
        let Some(a) = c.as_array() else { return };
        for x in a.iter().take(a.len().saturating_sub(1)) {
            if let Some(n) = x.get("temp=").and_then(Value::as_str)
                && x.get("re") != Some(&json!(true))
            {
                self.temps
                    .entry(knot.into())
                    .or_default()
                    .insert(n.to_string());
            }
            self.temporaries(x, knot);
        }
        for (k, x) in named_content(c).into_iter().flatten() {
            let inner = if std::ptr::eq(c, self.root) { k } else { knot };
            self.temporaries(x, inner);
        }
    }

    fn check(&mut self, c: &'a Value, at: &mut Vec<String>) {
        let Some(a) = c.as_array() else { return };
        let n = a.len().saturating_sub(1);
        for i in 0..n {
            let x = &a[i];
            let key = named_content(x)
                .filter(|_| x.is_array())
                .and_then(|m| m.get("#n"))
                .and_then(Value::as_str)
                .map(String::from)
                .unwrap_or_else(|| i.to_string());
            at.push(key);
            if x.is_array() {
                self.check(x, at);
            } else if let Some(o) = x.as_object() {
                let at = at.clone();
                let s = |k: &str| o.get(k).and_then(Value::as_str);
                for (k, what) in [
                    ("->", "divert"),
                    ("f()", "function call"),
                    ("->t->", "tunnel"),
                ] {
                    if let Some(p) = s(k) {
                        if o.get("var") == Some(&json!(true)) {
                            self.variable(&at, "variable of a divert", p, false);
                        } else if let Some(t) = self.target(&at, what, p)
                            && k == "f()"
                            && !t.is_array()
                        {
                            self.say(
                                &at,
                                format!("function call {p:?} does not lead to a container"),
                            );
                        }
                    }
                }
                if let Some(p) = s("^->") {
                    let t = self.target(&at, "divert target value", p);
                    // Literally asked about its reads or turns: it has to be counted.
                    let ask = match a.get(i + 1).and_then(Value::as_str) {
                        Some("turns") => 2,
                        Some("readc") => 1,
                        _ => 0,
                    };
                    if let Some(t) = t
                        && ask > 0
                        && flags(t) & ask == 0
                    {
                        self.say(&at, format!("{p:?} is asked for its count and not counted"));
                    }
                }
                if let Some(p) = s("*")
                    && let Some(t) = self.target(&at, "choice target", p)
                    && !t.is_array()
                {
                    self.say(&at, format!("choice target {p:?} is not a container"));
                }
                if let Some(p) = s("CNT?")
                    && let Some(t) = self.target(&at, "read count", p)
                    && (!t.is_array() || flags(t) & 1 == 0)
                {
                    self.say(&at, format!("read count {p:?} of something not counted"));
                }
                if let Some(v) = s("VAR?") {
                    self.variable(&at, "variable", v, true);
                }
                if let Some(v) = s("^var") {
                    self.variable(&at, "variable reference", v, false);
                }
                if o.get("re") == Some(&json!(true)) {
                    for k in ["VAR=", "temp="] {
                        if let Some(v) = s(k) {
                            self.variable(&at, "assigned variable", v, false);
                        }
                    }
                }
            }
            at.pop();
        }
        for (k, x) in named_content(c).into_iter().flatten() {
            if x.is_array() {
                at.push(k.clone());
                self.check(x, at);
                at.pop();
            }
        }
    }
}

fn globals(c: &Value, out: &mut BTreeSet<String>) {
    for x in c.as_array().into_iter().flatten() {
        if let Some(n) = x.get("VAR=").and_then(Value::as_str) {
            out.insert(n.to_string());
        }
        globals(x, out);
    }
}

/// References of a compiled story that lead nowhere; and how many there are.
pub fn dangling(text: &str, src: &str) -> (Vec<String>, usize) {
    let v: Value = match serde_json::from_str(text) {
        Ok(v) => v,
        Err(e) => return (vec![format!("the output is not JSON: {e}")], 0),
    };
    let root = &v["root"];
    let mut s = Scope {
        root,
        globals: BTreeSet::new(),
        temps: BTreeMap::new(),
        items: BTreeSet::new(),
        lists: BTreeSet::new(),
        found: vec![],
        refs: 0,
    };
    if let Some(g) = named_content(root).and_then(|m| m.get("global decl")) {
        globals(g, &mut s.globals);
    }
    for (l, items) in v["listDefs"].as_object().into_iter().flatten() {
        s.lists.insert(l.clone());
        for i in items.as_object().into_iter().flatten() {
            s.items.insert(i.0.clone());
            s.items.insert(format!("{l}.{}", i.0));
        }
    }
    s.temporaries(root, "");
    s.check(root, &mut vec![]);
    // Externals have to be declared.
    fn externals(v: &Value, out: &mut BTreeSet<String>) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| externals(x, out)),
            Value::Object(o) => {
                if let Some(n) = o.get("x()").and_then(Value::as_str) {
                    out.insert(n.to_string());
                }
                o.values().for_each(|x| externals(x, out));
            }
            _ => {}
        }
    }
    let mut ext = BTreeSet::new();
    externals(root, &mut ext);
    for e in ext {
        s.refs += 1;
        if !src
            .lines()
            .any(|l| l.trim_start().starts_with("EXTERNAL") && l.contains(&e))
        {
            s.found.push(format!("external {e:?} is not declared"));
        }
    }
    (s.found, s.refs)
}

// ---------------------------------------------------------------- the child

type Files = BTreeMap<String, String>;

fn compile_once(
    src: &str,
    files: &Files,
    all: bool,
) -> Result<Result<String, CompilerError>, String> {
    catch(|| {
        Compiler::with_options(CompilerOptions {
            count_all_visits: all,
            source_filename: Some("main.ink".into()),
        })
        .compile_with_file_handler(src, |n| {
            files
                .get(n)
                .cloned()
                .ok_or_else(|| CompilerError::invalid_source(format!("no file {n}")))
        })
    })
}

/// What is wrong with the compiler's answer to a source: (class, detail).
fn judge(src: &str, files: &Files, stats: &mut Stats) -> Vec<(String, String)> {
    let mut out = Vec::new();
    for all in [false, true] {
        let one = compile_once(src, files, all);
        let two = compile_once(src, files, all);
        stats.compiled += 2;
        match (&one, &two) {
            (Err(p), _) | (_, Err(p)) => {
                out.push(("panic".into(), p.clone()));
                return out;
            }
            (Ok(a), Ok(b)) if a != b => {
                out.push((
                    "not deterministic".into(),
                    match (a, b) {
                        (Ok(a), Ok(b)) => first_diff(a, b),
                        (a, b) => format!("{:?}\n{:?}", a.as_ref().err(), b.as_ref().err()),
                    },
                ));
                return out;
            }
            _ => {}
        }
        match one.unwrap() {
            Err(e) => {
                stats.errors += 1;
                let (CompilerError::InvalidSource { file, line, .. }
                | CompilerError::UnsupportedFeature { file, line, .. }) = &e;
                let name = file.as_deref().unwrap_or("main.ink");
                let text = if name == "main.ink" {
                    Some(src)
                } else {
                    files.get(name).map(String::as_str)
                };
                match (text, line) {
                    (None, _) => {
                        out.push(("error in a file that does not exist".into(), e.to_string()))
                    }
                    (Some(t), Some(l)) if *l == 0 || *l > t.lines().count() => out.push((
                        "error line is not in the input".into(),
                        format!("line {l} of {}: {e}", t.lines().count()),
                    )),
                    (_, Some(_)) => stats.lines += 1,
                    _ => {}
                }
                let stat = catch(|| Compiler::new().compile_to_stats(src).map(|_| ()));
                if let Err(p) = stat {
                    out.push(("panic (statistics)".into(), p));
                }
                return out;
            }
            Ok(j) => {
                stats.ok += 1;
                bladeink::verif::set_fuel(Some(20_000));
                match catch(|| Story::new(&j).map(|_| ())) {
                    Err(p) => out.push(("loading panics".into(), p)),
                    Ok(Err(e)) => out.push(("does not load".into(), format!("{e:?}"))),
                    Ok(Ok(())) => {}
                }
                let whole: String = files.values().fold(src.to_string(), |a, b| a + "\n" + b);
                let (bad, refs) = dangling(&j, &whole);
                stats.refs += refs;
                for b in bad {
                    let class = b.split('"').next().unwrap_or("").trim().to_string();
                    out.push((format!("dangling {class}"), b));
                }
            }
        }
        if !out.is_empty() {
            return out;
        }
    }
    out
}

#[derive(Default)]
struct Stats {
    compiled: usize,
    ok: usize,
    errors: usize,
    lines: usize,
    refs: usize,
}

fn files_of(v: &Value) -> Files {
    v.as_object()
        .into_iter()
        .flatten()
        .map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string()))
        .collect()
}

pub fn answer(req: &Value) -> Value {
    let mut st = Stats::default();
    let mut out = Vec::new();
    for (i, c) in req["cases"].as_array().into_iter().flatten().enumerate() {
        let src = c["s"].as_str().unwrap_or("");
        for (class, detail) in judge(src, &files_of(&c["f"]), &mut st) {
            out.push(json!([i, class, detail]));
        }
    }
    json!({"bad": out, "compiled": st.compiled, "ok": st.ok, "errors": st.errors,
        "lines": st.lines, "refs": st.refs})
}

// ---------------------------------------------------------------- the parent

struct Case {
    name: String,
    src: String,
    files: Files,
}

impl Case {
    fn new(name: impl Into<String>, src: impl Into<String>) -> Case {
        Case {
            name: name.into(),
            src: src.into(),
            files: Files::new(),
        }
    }
    fn json(&self) -> Value {
        if self.files.is_empty() {
            json!({"s": self.src})
        } else {
            json!({"s": self.src, "f": self.files})
        }
    }
}

struct Seen(Mutex<BTreeMap<String, usize>>);

/// A violation's class without what varies from case to case.
fn shape(class: &str, detail: &str) -> String {
    if class.contains("panic") {
        let d: String = detail
            .split(" at ")
            .last()
            .unwrap_or(detail)
            .chars()
            .take(100)
            .collect();
        format!("{class} {d}")
    } else {
        class.to_string()
    }
}

fn record(r: &Report, seen: &Seen, c: &Case, class: &str, detail: &str) {
    let sh = shape(class, detail);
    let n = {
        let mut s = seen.0.lock().unwrap();
        let e = s.entry(sh.clone()).or_insert(0);
        *e += 1;
        *e
    };
    let per = std::env::var("MC_PER").ok().and_then(|v| v.parse().ok());
    if n > per.unwrap_or(3) {
        return;
    }
    let mut files = String::new();
    for (k, v) in &c.files {
        files += &format!("-- file {k}\n{v}\n");
    }
    let src: String = c.src.chars().take(3000).collect();
    r.violation(
        &format!("{}: {class}", c.name),
        format!("{class}: {detail}\n-- source\n{src}\n{files}"),
    );
}

fn run_batch(r: &Report, seen: &Seen, cases: &[Case]) {
    if cases.is_empty() || r.stop() {
        return;
    }
    let req = json!({"cmd": "c06", "cases": cases.iter().map(Case::json).collect::<Vec<_>>()});
    match c04::ask(false, &req, if cases.len() == 1 { 20 } else { 60 }) {
        Ok(v) => {
            r.states(cases.len() as u64);
            r.traces(v["compiled"].as_u64().unwrap_or(0));
            r.transitions(v["refs"].as_u64().unwrap_or(0));
            for (k, n) in [
                ("compiled stories", "ok"),
                ("compile errors", "errors"),
                ("errors with a line", "lines"),
                ("references resolved", "refs"),
            ] {
                r.count(k, v[n].as_u64().unwrap_or(0));
            }
            for b in v["bad"].as_array().into_iter().flatten() {
                let i = b[0].as_u64().unwrap_or(0) as usize;
                record(
                    r,
                    seen,
                    &cases[i],
                    b[1].as_str().unwrap_or(""),
                    b[2].as_str().unwrap_or(""),
                );
            }
        }
        Err(e) if e.starts_with("ENGINE") => r.engine_error(e),
        Err(e) if cases.len() == 1 => {
            let class = if e == "timeout" { "hangs" } else { "crashes" };
            record(r, seen, &cases[0], class, &e);
        }
        Err(_) => {
            let (a, b) = cases.split_at(cases.len() / 2);
            run_batch(r, seen, a);
            run_batch(r, seen, b);
        }
    }
}

fn run_cases(r: &Report, seen: &Seen, family: &str, cases: Vec<Case>, size: usize) {
    r.count(&format!("sources: {family}"), cases.len() as u64);
    let batches: Vec<&[Case]> = cases.chunks(size).collect();
    par_each(r, &batches, |b| run_batch(r, seen, b));
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("{family}: {} cases, {:.1}s", cases.len(), r.elapsed());
    }
}

const TOKENS: &[&str] = &[
    "->", "<-", "->->", "*", "+", "-", "=", "==", "~", "{", "}", "|", ":", "(", ")", "[", "]",
    "\"", "#", "<>", ",", ".", "!", "&", "\\", "//", "/*", "*/", "a", "k", "l", "1", "END", "VAR",
    "temp", "else", "not", "return", "\n", "é",
];
/// More of them, in pairs only.
const MORE: &[&str] = &[
    "LIST",
    "CONST",
    "EXTERNAL",
    "INCLUDE",
    "function",
    "ref",
    "shuffle",
    "stopping",
    "once",
    "cycle",
    "TODO:",
    "DONE",
    "true",
    "1.5",
    "mod",
    "and",
    "||",
    "&&",
    "!=",
    "<",
    ">",
    "<=",
    "?",
    "!?",
    "^",
    "%",
    "/",
    "++",
    "+=",
    "-=",
    "x",
    "TURNS_SINCE",
    "RANDOM",
    "LIST_COUNT",
    "CHOICE_COUNT",
    "===",
    "- else:",
    "{&",
    "{!",
    "{~",
    "{a:",
    "\t",
    "\r",
    "\u{0}",
    "\u{a0}",
    "\u{2028}",
    "\u{1F600}",
    "\u{feff}",
    "$",
    "@",
    "'",
    "`",
    ";",
    "_",
];

const CONTEXTS: &[(&str, &str, &str)] = &[
    ("top", "", "\n"),
    ("logic", "VAR a = 1\n~ ", "\n-> k\n== k\nx\n-> END\n"),
    (
        "inline",
        "VAR a = 1\nText {",
        "} more.\n-> k\n== k\n-> END\n",
    ),
    ("block", "VAR a = 1\n{\n", "\n}\n-> k\n== k\n-> END\n"),
    (
        "choice",
        "VAR a = 1\n* ",
        "\n- (l) done\n-> k\n== k\n+ x\n-> l\n",
    ),
    (
        "declaration",
        "VAR a = ",
        "\nLIST l = x, y\n-> k\n== k\n-> END\n",
    ),
    (
        "knot",
        "VAR a = 1\n-> k\n== k(x)\n",
        "\n= l\n~ temp t = a\n-> END\n",
    ),
    ("header", "-> END\n== ", "\nText\n-> END\n"),
];

fn soup(r: &Report, seen: &Seen) {
    let all: Vec<&str> = TOKENS.iter().chain(MORE).copied().collect();
    let mut cases = Vec::new();
    for (ctx, pre, post) in CONTEXTS {
        let mut put = |t: &[&str]| {
            for sep in ["", " "] {
                if sep.is_empty() && t.len() < 2 {
                    continue;
                }
                let s = t.join(sep);
                cases.push(Case::new(
                    format!("soup {ctx} {s:?}"),
                    format!("{pre}{s}{post}"),
                ));
            }
        };
        for a in &all {
            put(&[a]);
            for b in &all {
                put(&[a, b]);
            }
        }
    }
    run_cases(r, seen, "token pairs", cases, 500);
    // Longer sequences, in the order of a counter.
    let few: Vec<&str> = match r.tier {
        Tier::Quick => TOKENS.iter().take(32).copied().collect(),
        Tier::Thorough => TOKENS.to_vec(),
    };
    let n = few.len() as u64;
    for (ctx, pre, post) in CONTEXTS {
        let chunk = 512u64;
        let total = n * n * n;
        par_range(r, total.div_ceil(chunk), 1, |i| {
            let cases: Vec<Case> = (i * chunk..((i + 1) * chunk).min(total))
                .map(|k| {
                    let t = [k / n / n % n, k / n % n, k % n].map(|x| few[x as usize]);
                    let s = t.join(if k % 2 == 0 { "" } else { " " });
                    Case::new(format!("soup {ctx} {s:?}"), format!("{pre}{s}{post}"))
                })
                .collect();
            run_batch(r, seen, &cases);
        });
        r.count("sources: token triples", total);
        if std::env::var("MC_TIME").is_ok() {
            eprintln!("soup {ctx}: {:.1}s", r.elapsed());
        }
    }
    if r.tier == Tier::Thorough {
        let core: Vec<&str> = TOKENS.iter().take(29).copied().collect();
        let n = core.len() as u64;
        for (ctx, pre, post) in CONTEXTS {
            let chunk = 512u64;
            let total = n * n * n * n;
            par_range(r, total.div_ceil(chunk), 1, |i| {
                let cases: Vec<Case> = (i * chunk..((i + 1) * chunk).min(total))
                    .map(|k| {
                        let t = [k / n / n / n, k / n / n % n, k / n % n, k % n]
                            .map(|x| core[x as usize]);
                        let s = t.join(if k % 2 == 0 { "" } else { " " });
                        Case::new(format!("soup {ctx} {s:?}"), format!("{pre}{s}{post}"))
                    })
                    .collect();
                run_batch(r, seen, &cases);
            });
        }
    }
}

fn sources() -> Vec<(String, String, bool)> {
    let mut out = Vec::new();
    for e in std::fs::read_dir(zoo_dir()).into_iter().flatten().flatten() {
        if e.path().extension().is_some_and(|x| x == "ink") {
            let n = format!("zoo/{}", e.file_name().to_string_lossy());
            out.push((
                n,
                std::fs::read_to_string(e.path()).unwrap_or_default(),
                true,
            ));
        }
    }
    for (n, p, _) in corpus_pairs() {
        out.push((n, std::fs::read_to_string(p).unwrap_or_default(), false));
    }
    out.sort();
    out
}

fn whole(r: &Report, seen: &Seen, all: &[(String, String, bool)]) {
    let files: Files = corpus_pairs()
        .into_iter()
        .map(|(n, p, _)| (n, std::fs::read_to_string(p).unwrap_or_default()))
        .collect();
    let mut inc = files.clone();
    // Includes name their files relative to their own directory.
    for (n, t) in &files {
        if let Some((_, f)) = n.rsplit_once('/') {
            inc.insert(f.to_string(), t.clone());
        }
    }
    for e in walk_ink(&corpus_dir()) {
        let t = std::fs::read_to_string(&e).unwrap_or_default();
        inc.entry(e.file_name().unwrap().to_string_lossy().to_string())
            .or_insert(t);
    }
    let cases = all
        .iter()
        .map(|(n, s, _)| {
            let mut c = Case::new(n.clone(), s.clone());
            if s.contains("INCLUDE") {
                c.files = inc.clone();
            }
            c
        })
        .collect();
    run_cases(r, seen, "as they are", cases, 1);
}

fn walk_ink(d: &std::path::Path) -> Vec<std::path::PathBuf> {
    let mut out = Vec::new();
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            out.extend(walk_ink(&p));
        } else if p.extension().is_some_and(|e| e == "ink") {
            out.push(p);
        }
    }
    out.sort();
    out
}

fn lines_of(l: &[&str]) -> String {
    l.join("\n") + "\n"
}

/// Every single change of every source.
fn changed(r: &Report, seen: &Seen, all: &[(String, String, bool)]) {
    let thorough = r.tier == Tier::Thorough;
    let mut cases = Vec::new();
    for (i, (n, s, zoo)) in all.iter().enumerate() {
        if s.len() > 20_000 || s.contains("INCLUDE") || !zoo && !thorough && i % 4 != 0 {
            continue;
        }
        for (n, s) in mutations(n, s, thorough) {
            cases.push(Case::new(n, s));
        }
        let l: Vec<&str> = s.lines().collect();
        // Cut off after every line, and within every line.
        for k in 1..l.len() {
            cases.push(Case::new(
                format!("{n}: cut after line {k}"),
                lines_of(&l[..k]),
            ));
            cases.push(Case::new(
                format!("{n}: from line {}", k + 1),
                lines_of(&l[k..]),
            ));
        }
        // Spliced with another source at every pair of places.
        let (m, t, _) = &all[(i * 7 + 3) % all.len()];
        let o: Vec<&str> = t.lines().collect();
        if t.contains("INCLUDE") || t.len() > 20_000 {
            continue;
        }
        let step = if thorough { 1 } else { 4 };
        for k in (0..l.len()).step_by(step) {
            for q in (0..o.len()).step_by(step * (1 + o.len() / 24)) {
                let mut v = l[..k].to_vec();
                v.extend(&o[q..]);
                cases.push(Case::new(format!("{n}:{k} then {m}:{q}"), lines_of(&v)));
            }
        }
    }
    run_cases(r, seen, "changed in one place", cases, 200);
}

/// Every special character at every position.
fn inserted(r: &Report, seen: &Seen, all: &[(String, String, bool)]) {
    let chars = [
        "é",
        "\u{1F600}",
        "\0",
        "\r",
        "\t",
        "\u{a0}",
        "\\",
        "\"",
        "{",
        "}",
        "(",
        ")",
        "|",
        "/*",
        "*/",
        "//",
        "->",
        "\n",
        "#",
        "~",
        "[",
        "]",
        "\u{301}",
        "\u{2028}",
    ];
    let mut cases = Vec::new();
    for (i, (n, s, zoo)) in all.iter().enumerate() {
        let max = r.tier.pick(700, 6_000);
        if s.len() > max || s.contains("INCLUDE") || !zoo && r.tier == Tier::Quick && i % 8 != 0 {
            continue;
        }
        let pos: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
        let width = r.tier.pick(8, chars.len());
        for (k, p) in pos.iter().enumerate() {
            for (j, c) in chars.iter().enumerate() {
                // Quick: a third of the characters at each position, all of them at each three.
                if width < chars.len() && (k + j) % 3 != 0 {
                    continue;
                }
                let t = format!("{}{c}{}", &s[..*p], &s[*p..]);
                cases.push(Case::new(format!("{n}: {c:?} at {p}"), t));
            }
            if let Some(q) = pos.get(k + 1) {
                let t = format!("{}{}", &s[..*p], &s[*q..]);
                cases.push(Case::new(
                    format!("{n}: without {:?} at {p}", &s[*p..*q]),
                    t,
                ));
            }
            if r.tier == Tier::Thorough {
                cases.push(Case::new(format!("{n}: up to {p}"), &s[..*p]));
            }
        }
    }
    run_cases(r, seen, "characters", cases, 300);
}

/// Every construct within itself, to great depths, and in great numbers.
fn nested(r: &Report, seen: &Seen) {
    let forms: &[(&str, &str, &str, &str, &str, &str)] = &[
        // name, before, opening, inner, closing, after
        ("parentheses", "VAR a = 1\n{", "(", "a", ")", "}\n"),
        ("minus", "VAR a = 1\n{", "- ", "a", "", "}\n"),
        ("not", "VAR a = 1\n{", "not ", "a", "", "}\n"),
        ("sums", "VAR a = 1\n{a", " + a", "", "", "}\n"),
        ("conditions", "VAR a = 1\n", "{a:", "x", "}", "\n"),
        ("sequences", "", "{", "x", "|y}", "\n"),
        ("shuffles", "", "{~", "x", "|y}", "\n"),
        ("else", "VAR a = 1\n", "{a:x|", "y", "}", "\n"),
        ("strings", "VAR a = 1\n{", "\"{", "a", "}\"", "}\n"),
        ("blocks", "VAR a = 1\n", "{a:\n", "x\n", "}\n", "-> END\n"),
        (
            "blocks with else",
            "VAR a = 1\n",
            "{\n- a:\n",
            "x\n",
            "- else:\ny\n}\n",
            "-> END\n",
        ),
        (
            "stopping blocks",
            "",
            "{stopping:\n- ",
            "x\n",
            "- y\n}\n",
            "-> END\n",
        ),
        (
            "calls",
            "{",
            "f(",
            "1",
            ")",
            "}\n== function f(x)\n~ return x\n",
        ),
        ("built-ins", "{", "FLOOR(", "1", ")", "}\n"),
        ("stars", "", "*", " x\n", "", "-> END\n"),
        ("spaced stars", "", "* ", "x\n", "", "-> END\n"),
        ("dashes", "", "- ", "x\n", "", "-> END\n"),
        ("choices", "", "* x\n", "", "", "- -> END\n"),
        ("gathers", "", "- x\n", "", "", "-> END\n"),
        ("choices and gathers", "", "* x\n- y\n", "", "", "-> END\n"),
        (
            "choices and gathers in a knot",
            "-> k\n== k\n",
            "* x\n- y\n",
            "",
            "",
            "-> END\n",
        ),
        (
            "sticky choices and labels",
            "-> k\n== k\n",
            "+ x\n+ y\n- z\n",
            "",
            "",
            "-> END\n",
        ),
        (
            "branches",
            "VAR a = 1\n{\n",
            "- a: x\n",
            "- else: y\n",
            "",
            "}\n",
        ),
        (
            "cases",
            "VAR a = 1\n{a:\n",
            "- 1: x\n",
            "- else: y\n",
            "",
            "}\n",
        ),
        (
            "deep choices",
            "",
            "* x\n {true:\n",
            "y\n",
            "}\n",
            "-> END\n",
        ),
        ("choice texts", "* ", "{true:", "x", "}", " [b] c\n-> END\n"),
        (
            "tunnel arguments",
            "-> k(",
            "(",
            "1",
            ")",
            ") -> END\n== k(x)\n->->\n",
        ),
        ("diverts", "", "-> k ", "", "", "\n== k\n->->\n"),
        ("tunnels", "-> ", "k -> ", "END", "", "\n== k\n->->\n"),
        ("threads", "", "<- k\n", "", "", "-> END\n== k\n-> DONE\n"),
        ("tags", "x", " #t", "", "", "\n"),
        ("tags with braces", "x #", "{a", "", "}", "\n"),
        ("open braces", "", "{", "", "", "\n"),
        ("closing braces", "", "}", "", "", "\n"),
        ("bars", "{", "|", "", "", "}\n"),
        ("brackets", "* ", "[", "x", "]", "\n"),
        ("open brackets", "* ", "[", "", "", "\n"),
        ("glue", "x", "<>", "", "", "y\n"),
        ("backslashes", "", "\\", "", "", "\n"),
        ("quotes", "{", "\"", "", "", "}\n"),
        ("comments", "", "/*", "x", "*/", "\n"),
        ("equals", "", "=", " k\n", "", "-> END\n"),
        ("knots", "-> END\n", "== k\n-> END\n", "", "", ""),
        ("dots", "-> a", ".a", "", "", "\n== a\n= a\n-> END\n"),
        ("list items", "LIST l = a", ", a", "", "", "\n"),
        ("list literals", "LIST l = a\n{(", "a, ", "a", "", ")}\n"),
        ("lists in lists", "LIST l = a\n{", "(", "a, a", ")", "}\n"),
        (
            "parameters",
            "-> k(1)\n== k(",
            "x, ",
            "y",
            "",
            ")\n-> END\n",
        ),
        ("arguments", "-> k(", "1, ", "1", "", ")\n== k(x)\n-> END\n"),
        (
            "conditions of choices",
            "VAR a = 1\n* ",
            "{a} ",
            "x",
            "",
            "\n-> END\n",
        ),
        (
            "nested choice conditions",
            "VAR a = 1\n* ",
            "{a",
            "",
            "}",
            " x\n-> END\n",
        ),
        (
            "constants",
            "CONST c0 = 1\n",
            "CONST c = c0\n",
            "",
            "",
            "{c0}\n",
        ),
        ("long names", "VAR ", "a", " = 1\n", "", ""),
        ("long numbers", "VAR x = ", "9", "\n", "", "{x}\n"),
        ("long fractions", "VAR x = 0.", "9", "\n", "", "{x}\n"),
        ("blank lines", "", "\n", "x", "", "\n"),
        ("spaces", "", " ", "x", "", "\n"),
        ("text", "", "word ", "", "", "\n"),
        ("questions", "LIST l = a\n{l", " ? a", "", "", "}\n"),
    ];
    let sizes: &[usize] = match r.tier {
        Tier::Quick => &[2, 3, 7, 30, 64, 150, 1000, 20_000],
        Tier::Thorough => &[
            2, 3, 4, 5, 7, 9, 17, 30, 64, 65, 100, 150, 300, 1000, 5000, 20_000, 200_000,
        ],
    };
    let mut cases = Vec::new();
    for (name, before, open, inner, close, after) in forms {
        for n in sizes {
            if open.len() * n > 2_000_000 {
                continue;
            }
            cases.push(Case::new(
                format!("{n} {name}"),
                format!(
                    "{before}{}{inner}{}{after}",
                    open.repeat(*n),
                    close.repeat(*n)
                ),
            ));
        }
    }
    // Every construct around every other one.
    for (n1, b1, o1, _, c1, a1) in forms.iter().take(17) {
        for (n2, _, o2, i2, c2, _) in forms.iter().take(17) {
            for n in [1, 2, 20] {
                let open = format!("{o1}{o2}").repeat(n);
                let close = format!("{c2}{c1}").repeat(n);
                cases.push(Case::new(
                    format!("{n} {n1} around {n2}"),
                    format!("{b1}{open}{i2}{close}{a1}"),
                ));
            }
        }
    }
    run_cases(r, seen, "nested", cases, 1);
}

/// Names: every use of a name replaced by an unknown one, in every kind of reference.
fn names(r: &Report, seen: &Seen) {
    let uses = [
        "-> X",
        "-> X ->",
        "-> X -> DONE",
        "<- X",
        "->-> X",
        "{X}",
        "{X()}",
        "~ X()",
        "~ X = 1",
        "~ X++",
        "~ a = X",
        "~ a = X(1)",
        "~ temp t = X",
        "~ return X",
        "{X: yes|no}",
        "{X > 1: yes}",
        "{not X}",
        "{TURNS_SINCE(-> X)}",
        "{READ_COUNT(-> X)}",
        "~ a = -> X",
        "{-> X == a}",
        "{f(X)}",
        "{f(-> X)}",
        "{r(X)}",
        "{LIST_ALL(X)}",
        "{(X)}",
        "{a ? X}",
        "{l + X}",
        "* {X} choice",
        "* choice -> X",
        "* [choice {X}]",
        "+ choice\n  -> X",
        "+ -> X",
        "* -> X ->",
        "- (lab) {X}",
        "{a:\n- 1: -> X\n- else: {X}\n}",
        "{a: -> X}",
        "{stopping:\n- -> X\n- {X}\n}",
        "\"{X}\" # tag {X}",
        "{a|-> X}",
        "-> k(X)",
        "-> k(-> X)",
        "<- k(X)",
        "-> k(X) ->",
        "~ X += a",
        "~ a += X",
        "~ X(a, X)",
        "{\"str {X}\"}",
        "{k.X}",
        "-> k.X",
        "{k.s.X}",
        "-> k.s.X",
        "-> X.s",
        "-> X.k",
        "{X.a}",
        "{l.X}",
        "~ l = X.a",
        "~ l = (X, a)",
        "~ l = (l.X)",
        "{l(X)}",
        "{X(2)}",
        "{X && a}",
        "~ f(X)",
        "{TURNS_SINCE(X)}",
        "{SEED_RANDOM(X)}",
        "{LIST_RANGE(l, X, X)}",
        "-> s",
        "-> lab2",
        "{s}",
        "{lab2}",
        "{k.lab2}",
        "-> k.lab2",
    ];
    let known = [
        "zork",
        "k",
        "k.s",
        "k.s.lab2",
        "k.lab2",
        "s",
        "lab2",
        "a",
        "f",
        "l",
        "item",
        "l.item",
        "p",
        "tt",
        "ext",
        "c",
        "k.zork",
        "zork.s",
        "é",
        "END",
        "DONE",
        "here",
        "k.here",
        "root.here",
    ];
    let mut cases = Vec::new();
    for u in uses {
        for n in known {
            let line = u.replace('X', n);
            for place in 0..5 {
                let at = |k: usize| if k == place { line.as_str() } else { "" };
                let src = format!(
                    "VAR a = 1\nCONST c = 2\nLIST l = item, other\nEXTERNAL ext()\nStart\n{}\n- (here) x\n-> k(1)\n\
                     == k(p)\nIn k {{p}}.\n{}\n-> s\n= s\n~ temp tt = 1\n{}\n- (lab2) y {{tt}}\n-> END\n\
                     == function f(q)\n{}\n~ return q\n== function r(ref q)\n~ q = 1\n{}\n== function ext()\n~ return 1\n",
                    at(0),
                    at(1),
                    at(2),
                    at(3),
                    at(4)
                );
                cases.push(Case::new(format!("name {line:?} place {place}"), src));
            }
        }
    }
    run_cases(r, seen, "names", cases, 200);
}

/// Include graphs over three files, and errors in each of them.
fn includes(r: &Report, seen: &Seen) {
    let bodies = [
        "Text a.\n",
        "INCLUDE B\n",
        "One\nINCLUDE B\nTwo\nINCLUDE C\n-> kA\n== kA\nIn.\nINCLUDE B\nAfter.\n-> END\n",
        "\n\n\n{oops\n",
        "\n\n-> nowhere\n",
        "== kX\nText\n\n~ y = 1\n-> END\n",
        "VAR vX = 1\n\n{vX} {unknown}\n",
        "* choice\n\n\n* -> zork\n- x\n",
        "/* comment\n\nINCLUDE B\n*/ Text\n{\n- 1: x\n",
        "LIST lX = a, b\n=== function fX(q)\n\n~ return q +\n",
        "INCLUDE C",
        "INCLUDE  A\n",
        "",
        "\u{feff}Text\n",
        "=== k2 ===\nx\n= s\nINCLUDE C\n{oops}\n-> END\n",
        "{1:\nINCLUDE B\n}\n",
        "INCLUDE B // comment\n",
        "INCLUDE missing\nText\n",
        "INCLUDE ../B\nINCLUDE ./C\nINCLUDE /\n",
    ];
    let mut cases = Vec::new();
    let name = |s: &str, n: &str| {
        s.replace("kX", &format!("k{n}"))
            .replace("vX", &format!("v{n}"))
            .replace("lX", &format!("l{n}"))
            .replace("fX", &format!("f{n}"))
    };
    for a in bodies {
        for b in bodies {
            for c in bodies {
                let mut f = Files::new();
                f.insert("A".into(), name(a, "1"));
                f.insert("B".into(), name(b, "2"));
                f.insert("C".into(), name(c, "3"));
                f.insert("./C".into(), name(c, "3"));
                f.insert("../B".into(), name(b, "2"));
                cases.push(Case {
                    name: format!("include {a:?} {b:?} {c:?}"),
                    src: name(a, "1"),
                    files: f,
                });
            }
        }
    }
    run_cases(r, seen, "includes", cases, 100);
}

pub fn run(r: &Report) {
    match c04::ask(
        false,
        &json!({"cmd": "c06", "cases": [{"s": "-> k\n== k\nHello.\n-> END\n"}, {"s": "x\n{a\n"}]}),
        20,
    ) {
        Ok(v) if v["ok"] == 2 && v["errors"] == 1 && v["refs"].as_u64() > Some(0) => {}
        x => return r.engine_error(format!("a child does not work: {x:?}")),
    }
    let seen = Seen(Mutex::new(BTreeMap::new()));
    let on = |k: &str| std::env::var("MC_ONLY").map_or(true, |v| v.contains(k));
    let all = sources();
    if on("whole") {
        whole(r, &seen, &all);
    }
    if on("names") {
        names(r, &seen);
    }
    if on("nested") {
        nested(r, &seen);
    }
    if on("includes") {
        includes(r, &seen);
    }
    if on("changed") {
        changed(r, &seen, &all);
    }
    if on("inserted") {
        inserted(r, &seen, &all);
    }
    if on("soup") {
        soup(r, &seen);
    }
    if std::env::var("MC_TIME").is_ok() {
        for (k, n) in seen.0.lock().unwrap().iter() {
            eprintln!("{n:7} {k}");
        }
    }
}
