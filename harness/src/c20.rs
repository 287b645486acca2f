//! C20: the command-line tool speaks its protocol and matches the library.
//!
//! The real tool is run as a process on every script of a bounded space (programs × choice paths ×
//! modes, all input sequences over an alphabet, every character in every position a text can
//! have, sources that do and do not compile). Standard output is read by a strict JSON parser and
//! compared with what the library produces for the same program and inputs.
use crate::{prog::*, util::*};
use bladeink::story::{
    Story,
    errors::{ErrorHandler, ErrorType},
};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::BTreeSet,
    io::{Read, Write},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    rc::Rc,
    sync::atomic::{AtomicUsize, Ordering},
    time::{Duration, Instant},
};

struct Ran {
    out: Vec<u8>,
    err: String,
    code: Option<i32>,
    timeout: bool,
}

fn tool() -> PathBuf {
    verif_dir().join("target/tool/debug/rinklecate")
}

fn run_tool(args: &[&str], cwd: &Path, input: &[u8]) -> Result<Ran, String> {
    let mut child = Command::new(tool())
        .args(args)
        .current_dir(cwd)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {:?}: {e}", tool()))?;
    let mut stdin = child.stdin.take().unwrap();
    let mut o = child.stdout.take().unwrap();
    let mut e = child.stderr.take().unwrap();
    let input = input.to_vec();
    std::thread::scope(|s| {
        s.spawn(move || {
            let _ = stdin.write_all(&input);
        });
        let out = s.spawn(move || {
            let mut b = Vec::new();
            let _ = o.read_to_end(&mut b);
            b
        });
        let err = s.spawn(move || {
            let mut b = Vec::new();
            let _ = e.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let start = Instant::now();
        let mut timeout = false;
        let code = loop {
            match child.try_wait() {
                Ok(Some(st)) => break st.code(),
                Ok(None) if start.elapsed() > Duration::from_secs(20) => {
                    timeout = true;
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_micros(400)),
                Err(_) => break None,
            }
        };
        Ok(Ran {
            out: out.join().unwrap_or_default(),
            err: err.join().unwrap_or_default(),
            code,
            timeout,
        })
    })
}

/// A scratch directory of this run.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().join(format!(
            "mc-c20-{}-{}",
            std::process::id(),
            N.fetch_add(1, Ordering::Relaxed)
        ));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Text(String),
    Tags(Vec<String>),
    Choices(Vec<(String, Vec<String>)>),
}

#[derive(Default)]
struct Sink(Vec<String>, Vec<String>);

impl ErrorHandler for Sink {
    fn error(&mut self, m: &str, t: ErrorType) {
        match t {
            ErrorType::Error => self.1.push(m.into()),
            _ => self.0.push(m.into()),
        }
    }
}

/// What the library makes of a program and a script of inputs.
#[derive(Default)]
struct Expected {
    events: Vec<Ev>,
    issues: Vec<String>,
    /// Paths that could not be diverted to, with the library's message.
    failed: Vec<(String, String)>,
    prompts: usize,
    /// The library refused to go on.
    error: Option<String>,
    ended: bool,
    closed: bool,
    helped: usize,
    too_long: bool,
}

fn library(json: &str, inputs: &[String]) -> Expected {
    let mut x = Expected::default();
    bladeink::verif::set_fuel(Some(20_000));
    let mut s = match Story::new(json) {
        Ok(s) => s,
        Err(e) => {
            x.error = Some(e.to_string());
            return x;
        }
    };
    let sink: Rc<RefCell<Sink>> = Rc::default();
    s.set_error_handler(sink.clone());
    s.set_allow_external_function_fallbacks(true);
    let mut inputs = inputs.iter();
    'story: loop {
        let mut n = 0;
        while s.can_continue() {
            n += 1;
            if n > 500 || bladeink::verif::fuel_exhausted() {
                x.too_long = true;
                return x;
            }
            match s.cont() {
                Ok(t) => x.events.push(Ev::Text(t)),
                Err(e) => {
                    x.error = Some(e.to_string());
                    return x;
                }
            }
            let tags = s.get_current_tags().unwrap_or_default();
            if !tags.is_empty() {
                x.events.push(Ev::Tags(tags));
            }
            let mut k = sink.borrow_mut();
            let all = [std::mem::take(&mut k.0), std::mem::take(&mut k.1)].concat();
            x.issues.extend(all);
        }
        if bladeink::verif::fuel_exhausted() {
            x.too_long = true;
            return x;
        }
        let choices = s.get_current_choices();
        if choices.is_empty() {
            x.ended = true;
            return x;
        }
        x.events.push(Ev::Choices(
            choices
                .iter()
                .map(|c| (c.text.clone(), c.tags.clone()))
                .collect(),
        ));
        loop {
            x.prompts += 1;
            let Some(line) = inputs.next() else {
                x.closed = true;
                return x;
            };
            let t = line.trim();
            let lower = t.to_lowercase();
            let words: Vec<&str> = t.split_whitespace().collect();
            if t.is_empty() {
            } else if lower == "quit" || lower == "exit" {
                return x;
            } else if lower == "help" {
                x.helped += 1;
            } else if words.len() == 2 && words[0] == "->" {
                if let Err(e) = s.choose_path_string(words[1], true, None) {
                    x.failed.push((words[1].into(), e.to_string()));
                }
                continue 'story;
            } else if let Ok(i) = t.parse::<usize>()
                && i >= 1
                && i <= choices.len()
            {
                if let Err(e) = s.choose_choice_index(i - 1) {
                    x.error = Some(e.to_string());
                    return x;
                }
                continue 'story;
            }
        }
    }
}

fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array()?
        .iter()
        .map(|x| x.as_str().map(String::from))
        .collect()
}

/// Read the tool's JSON output strictly; the objects by kind, or what is wrong.
struct Spoken {
    events: Vec<Ev>,
    issues: Vec<String>,
    needs: usize,
    helps: usize,
    ends: usize,
    closes: usize,
    success: Vec<bool>,
    exports: usize,
}

fn spoken(out: &[u8]) -> Result<Spoken, String> {
    let mut s = Spoken {
        events: vec![],
        issues: vec![],
        needs: 0,
        helps: 0,
        ends: 0,
        closes: 0,
        success: vec![],
        exports: 0,
    };
    std::str::from_utf8(out).map_err(|e| format!("not UTF-8: {e}"))?;
    for v in serde_json::Deserializer::from_slice(out).into_iter::<Value>() {
        let v = v.map_err(|e| format!("malformed JSON: {e}"))?;
        let m = v.as_object().ok_or_else(|| format!("not an object: {v}"))?;
        let (k, x) = m.iter().next().ok_or("an empty object")?;
        if m.len() != 1 {
            return Err(format!("unknown kind of object: {v}"));
        }
        let bad = || format!("unexpected form: {v}");
        let yes = x == &json!(true);
        match k.as_str() {
            "text" => s
                .events
                .push(Ev::Text(x.as_str().ok_or_else(bad)?.to_string())),
            "tags" => s.events.push(Ev::Tags(strings(x).ok_or_else(bad)?)),
            "choices" => {
                let mut c = Vec::new();
                for y in x.as_array().ok_or_else(bad)? {
                    let o = y.as_object().ok_or_else(bad)?;
                    let t = o.get("text").and_then(Value::as_str).ok_or_else(bad)?;
                    let tags = match o.get("tags") {
                        Some(t) => strings(t).ok_or_else(bad)?,
                        None => vec![],
                    };
                    if let Some(n) = o.get("tag_count")
                        && n != &json!(tags.len())
                    {
                        return Err(bad());
                    }
                    if o.keys()
                        .any(|k| !["text", "tags", "tag_count"].contains(&k.as_str()))
                    {
                        return Err(bad());
                    }
                    c.push((t.to_string(), tags));
                }
                s.events.push(Ev::Choices(c));
            }
            "issues" => s.issues.extend(strings(x).ok_or_else(bad)?),
            "needInput" if yes => s.needs += 1,
            "cmdOutput" if x.is_string() => s.helps += 1,
            "end" if yes => s.ends += 1,
            "close" if yes => s.closes += 1,
            "compile-success" if x.is_boolean() => s.success.push(yes),
            "export-complete" if yes => s.exports += 1,
            "stats" if x.is_object() => {}
            _ => return Err(format!("unknown kind of object: {v}")),
        }
    }
    Ok(s)
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(6000).collect()
}

fn compare_json(x: &Expected, ran: &Ran, compiled: bool, keep: bool) -> Option<String> {
    let s = match spoken(&ran.out) {
        Ok(s) => s,
        Err(e) => return Some(e),
    };
    if s.events != x.events {
        let show = |v: &[Ev]| v.iter().map(|e| format!("{e:?}\n")).collect::<String>();
        return Some(format!(
            "text, tags or choices differ (expected: library)\n{}",
            first_diff(&show(&x.events), &show(&s.events))
        ));
    }
    // Failed diverts are reported among the other messages.
    let mut rest = Vec::new();
    let mut failed = x.failed.iter().peekable();
    for i in &s.issues {
        match failed.peek() {
            Some((p, e)) if i.contains(p.as_str()) && i.contains(e.as_str()) => {
                failed.next();
            }
            _ => rest.push(i.clone()),
        }
    }
    if let Some(f) = failed.next() {
        return Some(format!("a divert that failed is not reported: {f:?}"));
    }
    if rest != x.issues {
        return Some(format!(
            "messages differ\nexpected: {:?}\nreported: {rest:?}",
            x.issues
        ));
    }
    if s.needs != x.prompts || s.helps != x.helped {
        return Some(format!(
            "{} requests for input ({} expected), {} command outputs ({} expected)",
            s.needs, x.prompts, s.helps, x.helped
        ));
    }
    if s.closes != x.closed as usize || s.ends != (x.ended && keep) as usize {
        return Some(format!("{} close and {} end objects", s.closes, s.ends));
    }
    if s.success != if compiled { vec![true] } else { vec![] } || s.exports > 0 {
        return Some("compile objects differ".into());
    }
    None
}

/// The lines of a text, without those that show nothing.
fn shown_lines(s: &str) -> Vec<String> {
    s.replace("?> ", "\n")
        .split('\n')
        .map(|l| l.trim().to_string())
        .filter(|l| !l.is_empty())
        .collect()
}

fn compare_plain(x: &Expected, ran: &Ran, keep: bool) -> Option<String> {
    let mut want = Vec::new();
    for e in &x.events {
        match e {
            Ev::Text(t) => want.extend(shown_lines(t)),
            Ev::Tags(t) => want.extend(shown_lines(&format!("# tags: {}", t.join(", ")))),
            Ev::Choices(c) => {
                for (i, (t, tags)) in c.iter().enumerate() {
                    want.extend(shown_lines(&format!("{}: {t}", i + 1)));
                    if !tags.is_empty() {
                        want.extend(shown_lines(&format!("# tags: {}", tags.join(", "))));
                    }
                }
            }
        }
    }
    let mut got = shown_lines(&String::from_utf8_lossy(&ran.out));
    // The tool's own remarks.
    got.retain(|l| !l.starts_with("Type a choice number"));
    if x.closed
        && got
            .last()
            .is_some_and(|l| l == "<User input stream closed.>")
    {
        got.pop();
    }
    if x.ended && keep && got.last().is_some_and(|l| l == "--- End of story ---") {
        got.pop();
    }
    if want != got {
        return Some(format!(
            "lines, tags or choices differ (expected: library)\n{}",
            first_diff(&want.join("\n"), &got.join("\n"))
        ));
    }
    for i in &x.issues {
        if !ran.err.contains(i.as_str()) {
            return Some(format!("message {i:?} is not reported: {:?}", ran.err));
        }
    }
    for (p, e) in &x.failed {
        if !ran.err.contains(p.as_str()) || !ran.err.contains(e.as_str()) {
            return Some(format!(
                "failed divert to {p:?} is not reported: {:?}",
                ran.err
            ));
        }
    }
    None
}

/// Play a file with the tool and compare with the library; false after a violation.
fn session(
    r: &Report,
    key: &str,
    file: &Path,
    json: &str,
    inputs: &[String],
    modes: &[&str],
) -> bool {
    let x = library(json, inputs);
    if x.too_long {
        return true;
    }
    let mut text = inputs.join("\n");
    if !inputs.is_empty() {
        text.push('\n');
    }
    let compiled = file.extension().is_some_and(|e| e == "ink");
    for mode in modes {
        let mut args: Vec<&str> = mode.split(' ').filter(|m| !m.is_empty()).collect();
        if compiled {
            args.push("-p");
        }
        let f = file.to_string_lossy();
        args.push(&f);
        let ran = match run_tool(&args, file.parent().unwrap(), text.as_bytes()) {
            Ok(r) => r,
            Err(e) => {
                r.engine_error(e);
                return false;
            }
        };
        r.traces(1);
        r.transitions(inputs.len() as u64 + 1);
        r.count("sessions", 1);
        r.outcome(&lossy(&ran.out));
        let keep = mode.contains('k');
        let wrong = if ran.timeout {
            Some("the tool does not end".into())
        } else if ran.err.contains("panicked at") {
            Some(format!("the tool panics: {}", ran.err))
        } else if mode.contains('j') {
            compare_json(&x, &ran, compiled, keep)
        } else {
            compare_plain(&x, &ran, keep)
        };
        let wrong = wrong.or_else(|| match &x.error {
            Some(e) if ran.code == Some(0) || !ran.err.contains(e.as_str()) => Some(format!(
                "the library fails with {e:?}, the tool exits with {:?} and reports {:?}",
                ran.code, ran.err
            )),
            None if ran.code != Some(0) => Some(format!("exit status {:?}: {}", ran.code, ran.err)),
            _ => None,
        });
        if let Some(w) = wrong {
            r.violation(
                &format!("{key} {mode}"),
                format!(
                    "rinklecate {args:?} with inputs {inputs:?}\n{w}\n-- stdout\n{}\n-- stderr\n{}",
                    lossy(&ran.out),
                    ran.err
                ),
            );
            return false;
        }
    }
    true
}

/// Choice paths of a story, longest first, prefixes left out.
fn paths(json: &str, depth: usize, cap: usize) -> Vec<Vec<String>> {
    let mut todo = std::collections::VecDeque::from([Vec::<String>::new()]);
    let mut leaves = Vec::new();
    let mut seen = 0;
    while let Some(p) = todo.pop_front() {
        seen += 1;
        let x = library(json, &p);
        if x.too_long {
            continue;
        }
        let n = match x.events.last() {
            Some(Ev::Choices(c)) if x.closed => c.len(),
            _ => 0,
        };
        if n == 0 || p.len() >= depth || seen > cap * 3 {
            leaves.push(p);
            if leaves.len() >= cap {
                break;
            }
            continue;
        }
        for i in 0..n {
            let mut q = p.clone();
            q.push((i + 1).to_string());
            todo.push_back(q);
        }
    }
    leaves
}

fn options(name: &str) -> CompilerOptions {
    CompilerOptions {
        count_all_visits: true,
        source_filename: Some(name.into()),
    }
}

/// The library's compiler, called as a tool of the same name would.
fn library_compile(p: &Path) -> Result<Result<String, CompilerError>, String> {
    let src = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
    let src = src.strip_prefix('\u{feff}').unwrap_or(&src).to_string();
    let name = p.file_name().unwrap().to_string_lossy().to_string();
    let dir = p.parent().unwrap().to_path_buf();
    catch(|| {
        Compiler::with_options(options(&name)).compile_with_file_handler(&src, |inc| {
            std::fs::read_to_string(dir.join(inc)).map_err(|e| {
                CompilerError::invalid_source(format!("Failed to read included file '{inc}': {e}"))
            })
        })
    })
}

fn is_random(json: &str) -> bool {
    ["\"rnd\"", "\"seq\"", "\"lrnd\"", "\"srnd\""]
        .iter()
        .any(|w| json.contains(w))
}

struct File {
    name: String,
    path: PathBuf,
    json: String,
    random: bool,
}

fn programs(r: &Report) -> Vec<File> {
    let mut all: Vec<(String, PathBuf)> = Vec::new();
    let mut found = Vec::new();
    for (n, p, _) in corpus_pairs() {
        found.push((n, p));
    }
    for e in std::fs::read_dir(zoo_dir()).into_iter().flatten().flatten() {
        if e.path().extension().is_some_and(|x| x == "ink") {
            found.push((e.file_name().to_string_lossy().to_string(), e.path()));
        }
    }
    found.sort();
    all.extend(found);
    let mut out = Vec::new();
    for (name, path) in all {
        match library_compile(&path) {
            Ok(Ok(json)) => out.push(File {
                random: is_random(&json),
                name,
                path,
                json,
            }),
            x => r.note(format!("{name} does not compile: {x:?}")),
        }
    }
    out
}

/// Every program along its choice paths.
fn play_all(r: &Report, files: &[File]) {
    let depth = r.tier.pick(3, 6);
    let cap = r.tier.pick(5, 80);
    par_each(r, files, |f| {
        if f.random {
            return;
        }
        let dir = Scratch::new();
        let compiled = dir.0.join("story.json");
        let _ = std::fs::write(&compiled, &f.json);
        for (n, p) in paths(&f.json, depth, cap).iter().enumerate() {
            if r.stop() {
                return;
            }
            r.states(1);
            let key = format!("{} {p:?}", f.name);
            if !session(
                r,
                &key,
                &compiled,
                &f.json,
                p,
                &["-j", "", "-jk"][..if n == 0 { 3 } else { 2 }],
            ) {
                return;
            }
            if n == 0
                && !session(
                    r,
                    &format!("{key} source"),
                    &f.path,
                    &f.json,
                    p,
                    &["-j", "-k"],
                )
            {
                return;
            }
        }
    });
}

const TALK: &str = "\
VAR broken = -> hall
Welcome # greeting
-> hall
=== hall
In the hall # place: hall # second
+ [Go on # tagged choice] You go on. # went
  -> hall
+ Look around
  {not_there()}Nothing.
  -> hall
* \\[quoted\\] \"text\"
  -> END
- -> END
=== cellar
Dark here -> END
=== attic
Dust # dusty
-> attic.end
= end
-> END
=== function not_there
~ return \"\"
";

/// All input sequences over an alphabet.
fn inputs(r: &Report) {
    let dir = Scratch::new();
    let f = dir.0.join("talk.ink");
    let _ = std::fs::write(&f, TALK);
    let json = match library_compile(&f) {
        Ok(Ok(j)) => j,
        x => return r.engine_error(format!("talk.ink: {x:?}")),
    };
    let alphabet: Vec<String> = [
        "1",
        "2",
        "3",
        " 1 ",
        "0",
        "4",
        "-1",
        "+2",
        "1 2",
        "99999999999999999999",
        "",
        "   ",
        "help",
        "HELP",
        "quit",
        "Exit",
        "-> cellar",
        "-> attic",
        "->cellar",
        "-> hall extra",
        "-> nowhere",
        "-> hall.nowhere",
        "-> \"quo\\ted\"",
        "-> a\\",
        "-> a\\qb",
        "-> \u{1}x",
        "-> \u{7f}é\u{1F600}",
        "-> .",
        "-> ..",
        "-> 0",
        "-> 0.0",
        "-> hall.0.c-0",
        "<b>",
        "\"",
        "\\",
        "{\"text\": 1}",
        "\u{661}",
        "\u{0}",
    ]
    .map(String::from)
    .to_vec();
    let mut scripts: Vec<Vec<String>> = vec![vec![]];
    for a in &alphabet {
        scripts.push(vec![a.clone()]);
        for b in &alphabet {
            if r.tier == Tier::Thorough || alphabet.iter().position(|x| x == b) < Some(22) {
                scripts.push(vec![a.clone(), b.clone(), "1".into()]);
            }
        }
    }
    if r.tier == Tier::Thorough {
        for a in ["1", "2", "-> attic", "-> nowhere", "help", ""] {
            for b in ["1", "3", "-> cellar", "x"] {
                for c in &alphabet {
                    scripts.push([a, b, c, "2"].map(String::from).to_vec());
                }
            }
        }
    }
    let jf = dir.0.join("talk.json");
    let _ = std::fs::write(&jf, &json);
    par_each(r, &scripts, |s| {
        r.states(1);
        session(r, &format!("inputs {s:?}"), &jf, &json, s, &["-j", ""]);
    });
    // Input that is not UTF-8 and input without a final line end.
    for (name, raw) in [
        ("invalid UTF-8", &b"1\n\xff\xfe\n1\n"[..]),
        ("no final line end", b"1"),
        ("carriage returns", b"1\r\n2\r\n"),
    ] {
        if let Ok(ran) = run_tool(&["-j", &jf.to_string_lossy()], &dir.0, raw) {
            r.traces(1);
            if let Err(e) = spoken(&ran.out) {
                r.violation(
                    &format!("inputs {name}"),
                    format!("{e}\n-- stdout\n{}", lossy(&ran.out)),
                );
            }
            if ran.timeout || ran.err.contains("panicked") {
                r.violation(
                    &format!("inputs {name}"),
                    format!("{}\n{}", ran.timeout, ran.err),
                );
            }
        }
    }
}

/// Every character a text can hold, wherever the tool prints one.
fn characters(r: &Report) {
    let mut chars: Vec<String> = (0u32..=0xa1)
        .chain([
            0x2028, 0x2029, 0x200b, 0xfeff, 0xfffd, 0xffff, 0xd7ff, 0xe000, 0x1f600, 0x10ffff,
        ])
        .filter_map(char::from_u32)
        .map(String::from)
        .collect();
    let specials = [
        "\"", "\\", "/", "u", "n", "\u{0}", "\u{8}", "\u{1f}", "{", "}", ",", "\t", "é",
    ];
    for a in specials {
        for b in specials {
            chars.push(format!("{a}{b}"));
            if r.tier == Tier::Thorough {
                for c in specials {
                    chars.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    let dir = Scratch::new();
    // One story per group of strings: a line, its tag, a choice with a tag, and messages, all with it.
    let groups: Vec<Vec<String>> = chars.chunks(8).map(|c| c.to_vec()).collect();
    par_each(r, &groups, |g| {
        let mut lines = Vec::new();
        let mut named = serde_json::Map::new();
        for (i, c) in g.iter().enumerate() {
            for t in [
                format!("a{c}b"),
                format!("{c}b"),
                format!("a{c}"),
                c.clone(),
            ] {
                lines.push(json!(format!("^x{t}")));
                lines.extend([
                    json!("#"),
                    json!(format!("^t{t}")),
                    json!("/#"),
                    json!("\n"),
                ]);
            }
            // A variable that does not exist: a warning that names it.
            lines.extend([
                json!("ev"),
                json!({"VAR?": format!("v{c}")}),
                json!("out"),
                json!("/ev"),
                json!("\n"),
            ]);
            lines.extend([
                json!("ev"),
                json!("str"),
                json!(format!("^c{c}d")),
                json!("#"),
                json!(format!("^g{c}h")),
                json!("/#"),
                json!("/str"),
                json!("/ev"),
                json!({"*": format!("0.c-{i}"), "flg": 4}),
            ]);
            named.insert(
                format!("c-{i}"),
                json!([format!("^went {c}."), "\n", {"->": "0.g-0"}, null]),
            );
        }
        // An error that names what was not found.
        named.insert(
            "g-0".into(),
            json!(["ev", {"VAR?": "q"}, 1, "+", {"x()": format!("no{}", g[0]), "exArgs": 1}, "pop", "/ev", "\n", "end", null]),
        );
        lines.push(json!("done"));
        lines.push(Value::Object(named));
        let json =
            json!({"inkVersion": 21, "root": [lines, "done", null], "listDefs": {}}).to_string();
        let n = chars.iter().position(|c| c == &g[0]).unwrap_or(0);
        let f = dir.0.join(format!("chars{n}.json"));
        let _ = std::fs::write(&f, &json);
        for s in [vec![], vec!["1".to_string()]] {
            r.states(g.len() as u64);
            if !session(
                r,
                &format!("characters {g:?} {s:?}"),
                &f,
                &json,
                &s,
                &["-j", ""],
            ) {
                return;
            }
        }
        // Without the missing function the story plays.
        let json = json
            .replace("x()", "VAR?")
            .replace(",\"exArgs\":1", "")
            .replace("\"exArgs\":1,", "");
        let _ = std::fs::write(&f, &json);
        for i in 0..g.len() {
            r.states(1);
            if !session(
                r,
                &format!("characters {g:?} choice {i}"),
                &f,
                &json,
                &[(i + 1).to_string()],
                &["-j", ""],
            ) {
                return;
            }
        }
        // As a place to go to.
        for c in g {
            if c.chars().any(char::is_whitespace) {
                continue;
            }
            for p in [format!("-> {c}"), format!("-> a{c}b")] {
                r.states(1);
                if p.split_whitespace().count() == 2
                    && !session(
                        r,
                        &format!("characters {p:?}"),
                        &f,
                        &json,
                        &[p.clone(), "1".into()],
                        &["-j", ""],
                    )
                {
                    return;
                }
            }
        }
    });
}

/// Compiling writes what the library writes.
fn compile_all(r: &Report, files: &[File]) {
    par_each(r, files, |f| {
        let dir = Scratch::new();
        let out = dir.0.join("out.json");
        let o = out.to_string_lossy().to_string();
        let p = f.path.to_string_lossy().to_string();
        // The default place of the output is beside the source: only for a copy of it.
        let copied = !std::fs::read_to_string(&f.path)
            .unwrap_or_default()
            .contains("INCLUDE");
        let name = f.path.file_name().unwrap().to_string_lossy().to_string();
        let copy = dir.0.join(&name);
        let beside = dir
            .0
            .join(name.strip_suffix(".ink").unwrap_or(&name).to_string() + ".ink.json");
        let _ = std::fs::copy(&f.path, &copy);
        let c = copy.to_string_lossy().to_string();
        let mut variants: Vec<(Vec<&str>, &Path)> = vec![
            (vec!["-o", &o, &p], &out),
            (vec!["-j", "-o", &o, &p], &out),
            (vec!["-jc", &p, "-o", &o], &out),
        ];
        if copied {
            variants.push((vec![&c], &beside));
            variants.push((vec!["-jo", "out.json", &c], &out));
            variants.push((vec![&name, "-v"], &beside));
        }
        for (args, target) in variants {
            let _ = std::fs::remove_file(target);
            let Ok(ran) = run_tool(&args, &dir.0, b"") else {
                continue;
            };
            r.traces(1);
            r.states(1);
            r.count("compilations", 1);
            let got = std::fs::read(target).unwrap_or_default();
            let j = args.iter().any(|a| a.starts_with("-j"));
            let wrong = if got != f.json.as_bytes() {
                Some(format!(
                    "the file written is not the library's output\n{}",
                    first_diff(&f.json, &lossy(&got))
                ))
            } else if ran.code != Some(0) {
                Some(format!("exit status {:?}", ran.code))
            } else if j {
                match spoken(&ran.out) {
                    Err(e) => Some(e),
                    Ok(s) if s.success != [true] || s.exports != 1 || !s.events.is_empty() => {
                        Some("success is not reported".into())
                    }
                    _ => None,
                }
            } else {
                None
            };
            if let Some(w) = wrong {
                r.violation(
                    &format!(
                        "compile {} {:?}",
                        f.name,
                        args.iter()
                            .map(|a| if a.contains('/') { "FILE" } else { a })
                            .collect::<Vec<_>>()
                    ),
                    format!(
                        "rinklecate {args:?}\n{w}\n-- stdout\n{}\n-- stderr\n{}",
                        lossy(&ran.out),
                        ran.err
                    ),
                );
                return;
            }
        }
    });
}

/// Sources that the library rejects, alone and through includes.
fn errors(r: &Report, files: &[File]) {
    let mut sources: Vec<String> = [
        "-> nowhere\n",
        "Hello\n-> nowhere\n",
        "{x}\n",
        "VAR x = \nHello\n",
        "A\nB\n{unclosed\n",
        "=== k\nText\n* [open\n",
        "INCLUDE missing.ink\n",
        "Text\nINCLUDE \"quo\\ted\".ink\n",
        "LIST l = a = x\n",
        "=== f(\n-> END\n",
        "=== a\n-> END\n=== a\n-> END\n",
        "{ - 1: a\n",
        "~ x = = 2\n",
        "VAR s = \"unterminated\n",
        "{\"a\\q\u{1}\": }\n",
        "~ \u{7}\u{8}\n",
        "-> \u{1}\"\\\n",
        "* -> \n* (bad label\n",
        "CONST c = \nA\n",
        "EXTERNAL\n",
        "{1 +}\n",
        "Text {a|b\n",
        "=\n",
        "== \n",
        "-> a.b.c\n",
        "<- nothing\n",
        "-> tunnel ->\n",
    ]
    .map(String::from)
    .to_vec();
    // Damage to real sources: a line changed at a time.
    let per = r.tier.pick(6, 60);
    for f in files.iter().filter(|f| f.json.len() < 20_000) {
        let src = std::fs::read_to_string(&f.path).unwrap_or_default();
        if src.contains("INCLUDE") {
            continue;
        }
        let lines: Vec<&str> = src.lines().collect();
        let mut n = 0;
        for (i, l) in lines.iter().enumerate() {
            for (from, to) in [
                ("}", ""),
                ("->", "-> zork"),
                ("\"", ""),
                (")", ""),
                ("=", "= ="),
            ] {
                if n < per && l.contains(from) {
                    n += 1;
                    let mut v: Vec<String> = lines.iter().map(|s| s.to_string()).collect();
                    v[i] = l.replacen(from, to, 1);
                    sources.push(v.join("\n") + "\n");
                }
            }
        }
    }
    let sources: Vec<String> = sources
        .into_iter()
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    let n: Vec<usize> = (0..sources.len()).collect();
    par_each(r, &n, |i| {
        let dir = Scratch::new();
        let main = dir.0.join("main story.ink");
        let _ = std::fs::write(&main, &sources[*i]);
        check_error(r, &dir.0, &main, &sources[*i]);
        // The same text included from another file.
        let outer = dir.0.join("outer.ink");
        let _ = std::fs::write(dir.0.join("inner.ink"), &sources[*i]);
        let _ = std::fs::write(&outer, "Outer text\nINCLUDE inner.ink\nMore\n");
        check_error(r, &dir.0, &outer, &sources[*i]);
    });
}

fn check_error(r: &Report, dir: &Path, file: &Path, src: &str) {
    let e = match library_compile(file) {
        Ok(Err(e)) => e,
        Ok(Ok(_)) => {
            r.count("damaged sources that still compile", 1);
            return;
        }
        // A compiler that panics is C06's business.
        Err(_) => return,
    };
    r.count("compile errors", 1);
    r.outcome(&e.to_string());
    let f = file.to_string_lossy().to_string();
    let out = dir.join("never.json");
    let o = out.to_string_lossy().to_string();
    for args in [
        vec!["-o", &o, &f],
        vec!["-j", "-o", &o, &f],
        vec!["-p", &f],
        vec!["-jp", &f],
    ] {
        let Ok(ran) = run_tool(&args, dir, b"") else {
            return;
        };
        r.traces(1);
        r.states(1);
        let j = args.iter().any(|a| a.starts_with("-j"));
        let (name, line) = match &e {
            CompilerError::InvalidSource { file, line, .. }
            | CompilerError::UnsupportedFeature { file, line, .. } => (file.clone(), *line),
        };
        let says = |t: &str| {
            t.contains(e.message())
                && name.as_ref().is_none_or(|n| t.contains(n.as_str()))
                && line.is_none_or(|n| {
                    t.split(|c: char| !c.is_ascii_digit())
                        .any(|w| w == n.to_string())
                })
        };
        let wrong = if ran.timeout {
            Some("the tool does not end".to_string())
        } else if ran.code == Some(0) || ran.code.is_none() {
            Some(format!("exit status {:?}", ran.code))
        } else if out.exists() {
            Some("a file is written".into())
        } else if j {
            match spoken(&ran.out) {
                Err(e) => Some(e),
                Ok(s) if s.success.contains(&true) => Some("success is reported".into()),
                Ok(s) if !s.issues.iter().any(|i| says(i)) => Some(format!(
                    "the message {e:?} is not among the issues {:?}",
                    s.issues
                )),
                _ => None,
            }
        } else if !says(&ran.err) {
            Some(format!("the message {e:?} is not reported"))
        } else {
            None
        };
        if let Some(w) = wrong {
            r.violation(
                &format!(
                    "error {}",
                    e.to_string().chars().take(80).collect::<String>()
                ),
                format!(
                    "rinklecate {args:?}\n{w}\n-- stdout\n{}\n-- stderr\n{}\n-- source\n{src}",
                    lossy(&ran.out),
                    ran.err
                ),
            );
            return;
        }
    }
}

/// Reports of statistics, wrong uses and broken stories.
fn others(r: &Report, files: &[File]) {
    par_each(r, files, |f| {
        let p = f.path.to_string_lossy().to_string();
        let dir = Scratch::new();
        if let Ok(ran) = run_tool(&["-js", &p], &dir.0, b"") {
            r.traces(1);
            r.states(1);
            if let Err(e) = spoken(&ran.out) {
                r.violation(
                    &format!("stats {}", f.name),
                    format!("{e}\n-- stdout\n{}", lossy(&ran.out)),
                );
            }
        }
    });
    let dir = Scratch::new();
    for (name, text) in [
        ("empty.json", ""),
        ("text.json", "hello \u{1} \"\\"),
        ("old.json", "{\"inkVersion\": 3, \"root\": []}"),
        ("new.json", "{\"inkVersion\": 99, \"root\": [\"\\u0001\"]}"),
        (
            "broken.json",
            "{\"inkVersion\": 21, \"root\": [{\"bad\\u0001\\\"\": 1}], \"listDefs\": {}}",
        ),
    ] {
        let f = dir.0.join(name);
        let _ = std::fs::write(&f, text);
        if let Ok(ran) = run_tool(&["-j", &f.to_string_lossy()], &dir.0, b"1\n") {
            r.traces(1);
            r.states(1);
            let bad = match spoken(&ran.out) {
                Err(e) => Some(e),
                _ if ran.code == Some(0) => Some("exit status 0".into()),
                _ if ran.err.contains("panicked") => Some(ran.err.clone()),
                _ => None,
            };
            if let Some(e) = bad {
                r.violation(
                    &format!("story {name}"),
                    format!("{e}\n-- stdout\n{}\n{}", lossy(&ran.out), ran.err),
                );
            }
        }
    }
}

pub fn run(r: &Report) {
    r.assume("plain output is compared line by line, blank lines and spaces around lines aside");
    if !tool().exists() {
        return r.engine_error(format!("{:?} has not been built", tool()));
    }
    let files = programs(r);
    if files.len() < 100 {
        r.engine_error(format!("only {} programs", files.len()));
    }
    characters(r);
    inputs(r);
    errors(r, &files);
    compile_all(r, &files);
    others(r, &files);
    play_all(r, &files);
}
