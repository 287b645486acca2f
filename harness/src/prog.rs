//! Programs under test: handwritten zoo, repository corpus, generated sources.
use crate::util::{catch, repo_dir};
use bladeink_compiler::{Compiler, CompilerError};
use serde_json::Value;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub name: String,
    pub source: String,
    pub json: String,
    /// Global variables declared by the program.
    pub vars: Vec<String>,
    /// Knots (not functions).
    pub knots: Vec<String>,
    /// Functions and their number of parameters.
    pub funcs: Vec<(String, usize)>,
    /// Paths of containers whose visits are counted.
    pub counted: Vec<String>,
    /// External name and how the host binds it: safe, unsafe, unbound.
    pub externals: Vec<(String, String)>,
    pub fallbacks: bool,
    /// `@key value` annotations of zoo files.
    pub notes: Vec<(String, String)>,
}

impl Prog {
    pub fn note(&self, key: &str) -> Option<&str> {
        self.notes
            .iter()
            .find(|(k, _)| k == key)
            .map(|(_, v)| v.as_str())
    }
    pub fn notes<'a>(&'a self, key: &'a str) -> impl Iterator<Item = &'a str> {
        self.notes
            .iter()
            .filter(move |(k, _)| k == key)
            .map(|(_, v)| v.as_str())
    }
    pub fn has(&self, key: &str) -> bool {
        self.note(key).is_some()
    }

    pub fn from_json(name: &str, source: &str, json: &str) -> Prog {
        let mut p = Prog {
            name: name.into(),
            source: source.into(),
            json: json.trim_start_matches('\u{feff}').into(),
            ..Default::default()
        };
        for l in source.lines() {
            let t = l.trim();
            if let Some(r) = t.strip_prefix("// @") {
                let (k, v) = r.split_once(' ').unwrap_or((r, ""));
                p.notes.push((k.trim().into(), v.trim().into()));
            }
            if let Some(r) = t.strip_prefix("EXTERNAL ") {
                let n = r.split('(').next().unwrap().trim();
                p.externals.push((n.into(), "safe".into()));
            }
            let h = t.trim_start_matches('=').trim();
            if t.starts_with('=')
                && let Some(r) = h.strip_prefix("function ")
            {
                let (n, a) = r.split_once('(').unwrap_or((r, ")"));
                let a = a.split(')').next().unwrap_or("").trim();
                let k = if a.is_empty() {
                    0
                } else {
                    a.split(',').count()
                };
                p.funcs.push((n.trim().into(), k));
            }
        }
        let ext: Vec<(String, String)> = p
            .notes("ext")
            .filter_map(|v| v.split_once(' '))
            .map(|(a, b)| (a.to_string(), b.trim().to_string()))
            .collect();
        for (n, k) in ext {
            p.externals.retain(|e| e.0 != n);
            p.externals.push((n, k));
        }
        p.fallbacks = p.has("fallbacks");
        if let Ok(v) = serde_json::from_str::<Value>(&p.json) {
            if let Some(root) = v.get("root") {
                if let Some(named) = named_content(root) {
                    for (k, c) in named {
                        if k == "global decl" {
                            collect_vars(c, &mut p.vars);
                        } else if !k.starts_with('#')
                            && !p.funcs.iter().any(|f| &f.0 == k)
                            && !is_weave_name(k)
                        {
                            p.knots.push(k.clone());
                        }
                    }
                }
                walk(root, "", &mut |path, c| {
                    if flags(c) & 1 != 0 && !path.is_empty() {
                        p.counted.push(path.to_string());
                    }
                });
            }
        }
        p.vars.sort();
        p.vars.dedup();
        p
    }
}

fn is_weave_name(k: &str) -> bool {
    let Some((a, b)) = k.split_once('-') else {
        return false;
    };
    (a == "c" || a == "g") && b.chars().all(|c| c.is_ascii_digit())
}

pub fn named_content(c: &Value) -> Option<&serde_json::Map<String, Value>> {
    c.as_array()?.last()?.as_object()
}

pub fn flags(c: &Value) -> i64 {
    named_content(c)
        .and_then(|m| m.get("#f"))
        .and_then(|v| v.as_i64())
        .unwrap_or(0)
}

fn collect_vars(c: &Value, out: &mut Vec<String>) {
    if let Some(a) = c.as_array() {
        for x in a {
            if let Some(n) = x.get("VAR=").and_then(|v| v.as_str()) {
                out.push(n.to_string());
            }
            if x.is_array() {
                collect_vars(x, out);
            }
        }
    }
}

/// Visits every container of a compiled story with its path.
pub fn walk(c: &Value, path: &str, f: &mut dyn FnMut(&str, &Value)) {
    let Some(a) = c.as_array() else { return };
    f(path, c);
    let join = |k: &str| {
        if path.is_empty() {
            k.to_string()
        } else {
            format!("{path}.{k}")
        }
    };
    for (i, x) in a.iter().enumerate() {
        if i + 1 == a.len() {
            break;
        }
        if x.is_array() {
            let name = named_content(x)
                .and_then(|m| m.get("#n"))
                .and_then(|v| v.as_str());
            match name {
                Some(n) => walk(x, &join(n), f),
                None => walk(x, &join(&i.to_string()), f),
            }
        }
    }
    if let Some(m) = named_content(c) {
        for (k, x) in m {
            if x.is_array() {
                walk(x, &join(k), f);
            }
        }
    }
}

pub fn compile(src: &str) -> Result<Result<String, CompilerError>, String> {
    catch(|| Compiler::new().compile(src))
}

pub fn compile_file(p: &Path) -> Result<Result<String, String>, String> {
    let dir = p.parent().unwrap().to_path_buf();
    let src = match std::fs::read_to_string(p) {
        Ok(s) => s,
        Err(e) => return Ok(Err(e.to_string())),
    };
    catch(|| {
        Compiler::new()
            .compile_with_file_handler(&src, |n| {
                std::fs::read_to_string(dir.join(n))
                    .map_err(|e| CompilerError::invalid_source(format!("cannot read {n}: {e}")))
            })
            .map_err(|e| e.to_string())
    })
}

pub fn from_source(name: &str, src: &str) -> Result<Prog, String> {
    match compile(src) {
        Ok(Ok(j)) => Ok(Prog::from_json(name, src, &j)),
        Ok(Err(e)) => Err(format!("compile error: {e}")),
        Err(p) => Err(format!("compiler panic: {p}")),
    }
}

fn ink_files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else {
        return;
    };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            ink_files(&p, out);
        } else if p.extension().is_some_and(|e| e == "ink") {
            out.push(p);
        }
    }
}

pub fn zoo_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("zoo")
}

/// Handwritten programs; a file that no longer compiles is reported by the caller.
pub fn zoo() -> (Vec<Prog>, Vec<String>) {
    let mut files = Vec::new();
    ink_files(&zoo_dir(), &mut files);
    let mut out = Vec::new();
    let mut bad = Vec::new();
    for p in files {
        let name = p.file_stem().unwrap().to_string_lossy().to_string();
        let src = std::fs::read_to_string(&p).unwrap();
        match from_source(&name, &src) {
            Ok(p) => out.push(p),
            Err(e) => bad.push(format!("zoo/{name}: {e}")),
        }
    }
    (out, bad)
}

pub fn corpus_dir() -> PathBuf {
    repo_dir().join("conformance-tests/inkfiles")
}

/// (relative name, ink path, reference JSON path)
pub fn corpus_pairs() -> Vec<(String, PathBuf, PathBuf)> {
    let mut files = Vec::new();
    ink_files(&corpus_dir(), &mut files);
    let mut out = Vec::new();
    for p in files {
        let mut j = p.clone().into_os_string();
        j.push(".json");
        let j = PathBuf::from(j);
        if j.exists() {
            let n = p
                .strip_prefix(corpus_dir())
                .unwrap()
                .to_string_lossy()
                .to_string();
            out.push((n, p, j));
        }
    }
    out
}

/// Reference-compiled corpus stories.
pub fn corpus_reference() -> Vec<Prog> {
    corpus_pairs()
        .into_iter()
        .filter_map(|(n, p, j)| {
            let src = std::fs::read_to_string(p).ok()?;
            let json = std::fs::read_to_string(j).ok()?;
            Some(Prog::from_json(&format!("ref:{n}"), &src, &json))
        })
        .collect()
}

pub fn is_big(p: &Prog) -> bool {
    p.json.len() > 60_000
}
