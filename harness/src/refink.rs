//! A source-level reference interpreter for core Ink, independent of the compiler and the runtime
//! under test: it plays the syntax tree, evaluates every statement exactly once in program order,
//! and applies the line rules to the stream of output events of a whole turn afterwards.
use std::collections::{BTreeMap, HashMap};

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i32),
    B(bool),
    S(String),
    /// By-reference parameter: the name of a global.
    R(String),
    Void,
}

impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::I(i) => i.to_string(),
            Val::B(b) => b.to_string(),
            Val::S(s) => s.clone(),
            Val::R(s) => format!("&{s}"),
            Val::Void => String::new(),
        }
    }
}

#[derive(Debug)]
pub enum Ex {
    Lit(Val),
    Str(Vec<In>),
    Var(String),
    Un(char, Box<Ex>),
    Bin(String, Box<Ex>, Box<Ex>),
    Call(String, Vec<Ex>),
    /// `-> name` as an argument.
    Target(String),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mode {
    Stopping,
    Cycle,
    Once,
}

#[derive(Debug)]
pub enum In {
    Text(String),
    Print(Ex),
    If(Ex, Line, Option<Line>),
    Seq(Mode, Vec<Line>),
    Glue,
    Tag(Vec<In>),
}

#[derive(Debug)]
pub enum Go {
    To(String, Vec<Ex>),
    Tunnel(String, Vec<Ex>),
    /// `->->`, possibly with an override.
    Ret(Option<String>),
}

#[derive(Debug, Default)]
pub struct Line {
    pub parts: Vec<In>,
    pub go: Vec<Go>,
}

#[derive(Debug)]
pub struct Branch {
    /// `None` for the else branch.
    pub cond: Option<Ex>,
    pub body: Vec<St>,
}

#[derive(Debug)]
pub enum St {
    Line {
        line: Line,
        newline: bool,
    },
    Set {
        name: String,
        op: &'static str,
        ex: Option<Ex>,
        newline: bool,
        temp: bool,
    },
    Do(Ex),
    Return(Option<Ex>),
    If(Vec<Branch>),
    Switch(Ex, Vec<Branch>),
    Seq(Mode, Vec<Vec<St>>),
    Thread(String, Vec<Ex>),
    Choices(Vec<Ch>),
    Gather(Option<String>),
}

#[derive(Debug)]
pub struct Ch {
    pub sticky: bool,
    pub label: Option<String>,
    pub conds: Vec<Ex>,
    pub start: Vec<In>,
    pub only: Vec<In>,
    pub brackets: bool,
    pub end: Vec<In>,
    pub go: Vec<Go>,
    pub fallback: bool,
    pub body: Vec<St>,
}

#[derive(Debug, Default)]
pub struct Flow {
    /// Empty for the content before the first knot.
    pub name: String,
    pub params: Vec<(String, bool)>,
    pub function: bool,
    pub body: Vec<St>,
    pub stitches: Vec<Flow>,
}

#[derive(Debug, Default)]
pub struct Story {
    pub vars: Vec<(String, Ex)>,
    pub root: Flow,
    pub knots: Vec<Flow>,
}

// ---------------------------------------------------------------- parser

pub type Res<T> = Result<T, String>;

struct Cur<'a> {
    c: &'a [char],
    i: usize,
}

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}

impl Cur<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_whitespace() {
            self.i += 1;
        }
    }
    fn eat(&mut self, s: &str) -> bool {
        let w = chars(s);
        if self.c[self.i..].starts_with(&w) {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn word(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        let follow = self.c.get(self.i + n).copied().unwrap_or(' ');
        if !is_name(follow) {
            return self.eat(s);
        }
        false
    }
    fn name(&mut self) -> Option<String> {
        let s = self.i;
        while self.i < self.c.len() && is_name(self.c[self.i]) {
            self.i += 1;
        }
        (self.i > s).then(|| self.c[s..self.i].iter().collect())
    }
    fn dotted(&mut self) -> Option<String> {
        let mut n = self.name()?;
        while self.i + 1 < self.c.len() && self.c[self.i] == '.' && is_name(self.c[self.i + 1]) {
            self.i += 1;
            n = format!("{n}.{}", self.name().unwrap());
        }
        Some(n)
    }
    fn args(&mut self) -> Res<Vec<Ex>> {
        let mut out = Vec::new();
        self.ws();
        if !self.eat("(") {
            return Ok(out);
        }
        self.ws();
        if self.eat(")") {
            return Ok(out);
        }
        loop {
            out.push(self.expr(0)?);
            self.ws();
            if self.eat(")") {
                return Ok(out);
            }
            if !self.eat(",") {
                return Err("argument list".into());
            }
        }
    }
    fn infix(&mut self) -> Option<(&'static str, u8)> {
        const OPS: [(&str, &str, u8); 20] = [
            ("&&", "&&", 1),
            ("||", "||", 1),
            ("and", "&&", 1),
            ("or", "||", 1),
            ("==", "==", 2),
            (">=", ">=", 2),
            ("<=", "<=", 2),
            ("<", "<", 2),
            (">", ">", 2),
            ("!=", "!=", 2),
            ("?", "?", 3),
            ("has", "?", 3),
            ("!?", "!?", 3),
            ("hasnt", "!?", 3),
            ("+", "+", 4),
            ("-", "-", 5),
            ("*", "*", 6),
            ("/", "/", 7),
            ("%", "%", 8),
            ("mod", "%", 8),
        ];
        let mut best: Option<(usize, &'static str, u8)> = None;
        for (t, op, p) in OPS {
            let s = self.i;
            let hit = if t.chars().all(|c| c.is_alphabetic()) {
                self.word(t)
            } else {
                self.eat(t)
            };
            let e = self.i;
            self.i = s;
            if hit && best.is_none_or(|b| e > b.0) {
                best = Some((e, op, p));
            }
        }
        let (e, op, p) = best?;
        self.i = e;
        Some((op, p))
    }
    fn expr(&mut self, min: u8) -> Res<Ex> {
        let mut l = self.unary()?;
        loop {
            self.ws();
            let s = self.i;
            match self.infix() {
                Some((op, p)) if p > min => {
                    let r = self.expr(p)?;
                    l = Ex::Bin(op.into(), l.into(), r.into());
                }
                _ => {
                    self.i = s;
                    return Ok(l);
                }
            }
        }
    }
    fn unary(&mut self) -> Res<Ex> {
        self.ws();
        if self.eat("->") {
            self.ws();
            return Ok(Ex::Target(self.dotted().ok_or("target")?));
        }
        if self.eat("!") || self.word("not") {
            return Ok(Ex::Un('!', self.unary()?.into()));
        }
        if self.eat("-") {
            return Ok(Ex::Un('-', self.unary()?.into()));
        }
        if self.eat("(") {
            let e = self.expr(0)?;
            self.ws();
            if !self.eat(")") {
                return Err("closing parenthesis".into());
            }
            return Ok(e);
        }
        if self.eat("\"") {
            let s = self.i;
            let mut depth = 0;
            while self.i < self.c.len() && (depth > 0 || self.c[self.i] != '"') {
                match self.c[self.i] {
                    '{' => depth += 1,
                    '}' => depth -= 1,
                    _ => {}
                }
                self.i += 1;
            }
            let t: String = self.c[s..self.i].iter().collect();
            if !self.eat("\"") {
                return Err("closing quote".into());
            }
            return Ok(Ex::Str(content(&t)?.parts));
        }
        let Some(n) = self.dotted() else {
            return Err(format!(
                "expression at {:?}",
                self.c[self.i..].iter().collect::<String>()
            ));
        };
        if n.chars().all(|c| c.is_ascii_digit()) {
            return Ok(Ex::Lit(Val::I(n.parse().map_err(|_| "number")?)));
        }
        if n == "true" || n == "false" {
            return Ok(Ex::Lit(Val::B(n == "true")));
        }
        let s = self.i;
        self.ws();
        if self.c.get(self.i) == Some(&'(') {
            return Ok(Ex::Call(n, self.args()?));
        }
        self.i = s;
        Ok(Ex::Var(n))
    }
}

fn is_name(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

pub fn expr(s: &str) -> Res<Ex> {
    let c = chars(s);
    let mut p = Cur { c: &c, i: 0 };
    let e = p.expr(0)?;
    p.ws();
    if p.i < c.len() {
        return Err(format!("rest of expression {s:?}"));
    }
    Ok(e)
}

/// Index of the first character of `what` outside braces, strings and parentheses.
fn find_top(c: &[char], from: usize, what: char) -> Option<usize> {
    let (mut d, mut q) = (0, false);
    let mut i = from;
    while i < c.len() {
        let x = c[i];
        if x == '\\' {
            i += 2;
            continue;
        }
        if d == 0 && !q && x == what {
            return Some(i);
        }
        match x {
            '{' | '(' => d += 1,
            '}' | ')' => d -= 1,
            '"' if d == 0 && what == ':' => q = !q,
            _ => {}
        }
        i += 1;
    }
    None
}

fn gos(s: &str) -> Res<Vec<Go>> {
    // s starts with an arrow
    let c = chars(s);
    let mut p = Cur { c: &c, i: 0 };
    let mut out: Vec<Go> = Vec::new();
    let mut pending: Option<(String, Vec<Ex>)> = None;
    loop {
        p.ws();
        if p.i >= c.len() {
            break;
        }
        if p.eat("->->") {
            if pending.is_some() {
                return Err("->-> after a target".into());
            }
            p.ws();
            out.push(Go::Ret(p.dotted()));
            continue;
        }
        if !p.eat("->") {
            return Err(format!("divert {s:?}"));
        }
        if let Some((n, a)) = pending.take() {
            out.push(Go::Tunnel(n, a));
        }
        p.ws();
        if let Some(n) = p.dotted() {
            let a = p.args()?;
            pending = Some((n, a));
        }
    }
    if let Some((n, a)) = pending {
        out.push(Go::To(n, a));
    }
    Ok(out)
}

/// Text with logic, glue, tags and a final divert.
fn content(s: &str) -> Res<Line> {
    let c = chars(s);
    let mut out = Line::default();
    let mut text = String::new();
    let mut i = 0;
    let mut in_tag: Option<Vec<In>> = None;
    macro_rules! flush {
        () => {
            if !text.is_empty() {
                let t = In::Text(std::mem::take(&mut text));
                match in_tag.as_mut() {
                    Some(v) => v.push(t),
                    None => out.parts.push(t),
                }
            }
        };
    }
    while i < c.len() {
        let two: String = c[i..(i + 2).min(c.len())].iter().collect();
        if c[i] == '\\' && i + 1 < c.len() {
            text.push(c[i + 1]);
            i += 2;
        } else if two == "->" {
            if let Some(t) = text.strip_suffix([' ', '\t']) {
                let mut t = t.trim_end_matches([' ', '\t']).to_string();
                t.push(' ');
                text = t;
            } else if !text.is_empty() {
                text.push(' ');
            }
            flush!();
            out.go = gos(&c[i..].iter().collect::<String>())?;
            break;
        } else if two == "<>" {
            flush!();
            out.parts.push(In::Glue);
            i += 2;
        } else if c[i] == '#' {
            flush!();
            if let Some(v) = in_tag.take() {
                out.parts.push(In::Tag(v));
            }
            in_tag = Some(Vec::new());
            i += 1;
            while c.get(i) == Some(&' ') {
                i += 1;
            }
        } else if c[i] == '{' {
            flush!();
            let end = find_top(&c, i + 1, '}').ok_or("closing brace")?;
            let x = logic(&c[i + 1..end])?;
            match in_tag.as_mut() {
                Some(v) => v.push(x),
                None => out.parts.push(x),
            }
            i = end + 1;
        } else {
            text.push(c[i]);
            i += 1;
        }
    }
    flush!();
    if let Some(v) = in_tag.take() {
        out.parts.push(In::Tag(v));
    }
    Ok(out)
}

fn split_top(c: &[char], sep: char) -> Vec<String> {
    let mut out = Vec::new();
    let mut s = 0;
    loop {
        match find_top(c, s, sep) {
            Some(i) => {
                out.push(c[s..i].iter().collect());
                s = i + 1;
            }
            None => {
                out.push(c[s..].iter().collect());
                return out;
            }
        }
    }
}

fn logic(c: &[char]) -> Res<In> {
    let s: String = c.iter().collect();
    let t = s.trim_start();
    let mode = match t.chars().next() {
        Some('&') => Some(Mode::Cycle),
        Some('!') => Some(Mode::Once),
        Some('$') => Some(Mode::Stopping),
        _ => None,
    };
    let lines = |v: Vec<String>| v.iter().map(|x| content(x)).collect::<Res<Vec<Line>>>();
    if let Some(m) = mode {
        return Ok(In::Seq(m, lines(split_top(&chars(&t[1..]), '|'))?));
    }
    if let Some(i) = find_top(c, 0, ':') {
        let e = expr(&c[..i].iter().collect::<String>())?;
        let mut b = lines(split_top(&c[i + 1..], '|'))?;
        if b.len() > 2 {
            return Err("too many branches".into());
        }
        let els = if b.len() == 2 { b.pop() } else { None };
        return Ok(In::If(e, b.pop().unwrap(), els));
    }
    if find_top(c, 0, '|').is_some() {
        return Ok(In::Seq(Mode::Stopping, lines(split_top(c, '|'))?));
    }
    Ok(In::Print(expr(&s)?))
}

fn trim_end(l: &mut Line) {
    while let Some(In::Text(t)) = l.parts.last_mut() {
        let n = t.trim_end_matches([' ', '\t']).len();
        t.truncate(n);
        if t.is_empty() {
            l.parts.pop();
        } else {
            break;
        }
    }
}

/// Whether evaluating it calls a function (built-in ones included).
fn calls(e: &Ex) -> bool {
    match e {
        Ex::Call(..) => true,
        Ex::Un(_, a) => calls(a),
        Ex::Bin(_, a, b) => calls(a) || calls(b),
        Ex::Str(p) => p.iter().any(|x| matches!(x, In::Print(e) if calls(e))),
        _ => false,
    }
}

fn statement(s: &str) -> Res<St> {
    // after the tilde
    let s = s.trim();
    if s == "return" {
        return Ok(St::Return(None));
    }
    if let Some(r) = s.strip_prefix("return ") {
        return Ok(St::Return(Some(expr(r)?)));
    }
    let (temp, s) = match s.strip_prefix("temp ") {
        Some(r) => (true, r.trim()),
        None => (false, s),
    };
    let c = chars(s);
    let mut p = Cur { c: &c, i: 0 };
    if let Some(name) = p.name() {
        p.ws();
        let rest: String = c[p.i..].iter().collect();
        for (t, op) in [("++", "++"), ("--", "--")] {
            if rest == t {
                return Ok(St::Set {
                    name,
                    op,
                    ex: None,
                    newline: false,
                    temp,
                });
            }
        }
        for (t, op) in [("+=", "+"), ("-=", "-"), ("=", "=")] {
            if let Some(r) = rest.strip_prefix(t)
                && !r.starts_with('=')
            {
                let e = expr(r)?;
                return Ok(St::Set {
                    name,
                    op,
                    newline: calls(&e),
                    ex: Some(e),
                    temp,
                });
            }
        }
    }
    Ok(St::Do(expr(s)?))
}

enum Item {
    St(St),
    Ch(usize, Ch),
    Ga(usize, Option<String>),
}

struct Lines<'a> {
    l: Vec<&'a str>,
    i: usize,
}

/// Braces opened minus braces closed.
fn balance(s: &str) -> i32 {
    s.chars().fold(0, |d, c| match c {
        '{' => d + 1,
        '}' => d - 1,
        _ => d,
    })
}

fn label(s: &str) -> Option<(String, &str)> {
    let r = s.strip_prefix('(')?;
    let (n, r) = r.split_once(')')?;
    Some((n.trim().to_string(), r.trim_start()))
}

fn choice(s: &str, sticky: bool) -> Res<Ch> {
    let mut s = s;
    let mut lab = None;
    let mut conds = Vec::new();
    if let Some((n, r)) = label(s) {
        lab = Some(n);
        s = r;
    }
    while s.starts_with('{') {
        let c = chars(s);
        let e = find_top(&c, 1, '}').ok_or("closing brace")?;
        let inner: String = c[1..e].iter().collect();
        // Logic that is content of the choice.
        if inner.contains(':') || inner.contains('|') && !inner.contains("||") {
            break;
        }
        conds.push(expr(&inner)?);
        let n: usize = c[..=e].iter().map(|c| c.len_utf8()).sum();
        s = s[n..].trim_start();
    }
    let c = chars(s);
    let (start, only, end) = match find_top(&c, 0, '[') {
        Some(o) => {
            let e = find_top(&c, o + 1, ']').ok_or("closing bracket")?;
            (
                content(&c[..o].iter().collect::<String>())?,
                Some(content(&c[o + 1..e].iter().collect::<String>())?),
                content(&c[e + 1..].iter().collect::<String>())?,
            )
        }
        None => (content(s)?, None, Line::default()),
    };
    let brackets = only.is_some();
    let (mut start, only, mut end) = (start, only.unwrap_or_default(), end);
    let fallback = start.parts.is_empty() && !brackets;
    let go = if brackets {
        std::mem::take(&mut end.go)
    } else {
        std::mem::take(&mut start.go)
    };
    Ok(Ch {
        sticky,
        label: lab,
        conds,
        start: start.parts,
        only: only.parts,
        brackets,
        end: end.parts,
        go,
        fallback,
        body: Vec::new(),
    })
}

fn text_line(t: &str) -> Res<St> {
    let mut line = content(t)?;
    let newline = if line.parts.is_empty() && !line.go.is_empty() {
        false
    } else {
        if line.go.is_empty() {
            trim_end(&mut line);
        }
        !matches!(line.parts.first(), Some(In::Tag(_)))
    };
    Ok(St::Line { line, newline })
}

fn items(l: &mut Lines, out: &mut Vec<Item>) -> Res<()> {
    let t = l.l[l.i].trim();
    l.i += 1;
    if t.is_empty() || t.starts_with("//") || t.starts_with("TODO:") {
        return Ok(());
    }
    if t.starts_with("<-") {
        let c = chars(&t[2..]);
        let mut p = Cur { c: &c, i: 0 };
        p.ws();
        let n = p.dotted().ok_or("thread")?;
        let a = p.args()?;
        out.push(Item::St(St::Thread(n, a)));
        return Ok(());
    }
    if let Some(r) = t.strip_prefix('~') {
        out.push(Item::St(statement(r)?));
        return Ok(());
    }
    let first = t.chars().next().unwrap();
    if first == '*' || first == '+' {
        let mut d = 0;
        let mut r = t;
        while let Some(x) = r.strip_prefix(first) {
            d += 1;
            r = x.trim_start();
        }
        out.push(Item::Ch(d, choice(r, first == '+')?));
        return Ok(());
    }
    if first == '-' && !t.starts_with("->") {
        let mut d = 0;
        let mut r = t;
        while r.starts_with('-') && !r.starts_with("->") {
            d += 1;
            r = r[1..].trim_start();
        }
        let mut lab = None;
        if let Some((n, x)) = label(r) {
            lab = Some(n);
            r = x;
        }
        out.push(Item::Ga(d, lab));
        if !r.is_empty() {
            l.i -= 1;
            let keep = l.l[l.i];
            l.l[l.i] =
                &keep[keep.len() - (keep.len() - (r.as_ptr() as usize - keep.as_ptr() as usize))..];
            return items(l, out);
        }
        return Ok(());
    }
    if first == '{' && balance(t) > 0 {
        out.push(Item::St(block(l, t)?));
        return Ok(());
    }
    out.push(Item::St(text_line(t)?));
    Ok(())
}

fn block(l: &mut Lines, head: &str) -> Res<St> {
    // Lines up to the closing brace, split at branch markers of this block.
    let mut depth = balance(head);
    let head = head[1..].trim();
    let mut branches: Vec<Vec<&str>> = vec![vec![]];
    let mut marked = vec![false];
    loop {
        let raw = *l.l.get(l.i).ok_or("unclosed block")?;
        l.i += 1;
        let t = raw.trim();
        if depth == 1 && t == "}" {
            break;
        }
        if depth == 1 && t.starts_with('-') && !t.starts_with("->") {
            branches.push(vec![t[1..].trim()]);
            marked.push(true);
        } else {
            branches.last_mut().unwrap().push(raw);
        }
        depth += balance(t);
    }
    let mode = match head {
        "stopping:" => Some(Mode::Stopping),
        "cycle:" => Some(Mode::Cycle),
        "once:" => Some(Mode::Once),
        _ => None,
    };
    if let Some(m) = mode {
        let b = branches.into_iter().skip(1).map(body);
        return Ok(St::Seq(m, b.collect::<Res<_>>()?));
    }
    let (hd, rest) = match find_top(&chars(head), 0, ':') {
        Some(i) => {
            let c = chars(head);
            (
                c[..i].iter().collect::<String>(),
                c[i + 1..].iter().collect::<String>(),
            )
        }
        None => (head.to_string(), String::new()),
    };
    if !rest.trim().is_empty() {
        return Err("content after the head of a block".into());
    }
    let plain_first = branches[0].iter().any(|x| !x.trim().is_empty());
    let cond_of = |b: &mut Vec<&str>| -> Res<Option<Ex>> {
        let c = chars(b[0]);
        let i = find_top(&c, 0, ':').ok_or("branch without colon")?;
        let n: usize = c[..=i].iter().map(|c| c.len_utf8()).sum();
        let e = b[0][..n - 1].trim();
        let r = if e == "else" { None } else { Some(expr(e)?) };
        b[0] = &b[0][n..];
        Ok(r)
    };
    if !hd.is_empty() && plain_first {
        let mut it = branches.into_iter();
        let mut out = vec![Branch {
            cond: Some(expr(&hd)?),
            body: body(it.next().unwrap())?,
        }];
        for mut b in it {
            let cond = cond_of(&mut b)?;
            out.push(Branch {
                cond,
                body: body(b)?,
            });
        }
        return Ok(St::If(out));
    }
    let mut out = Vec::new();
    for mut b in branches.into_iter().skip(1) {
        let cond = cond_of(&mut b)?;
        out.push(Branch {
            cond,
            body: body(b)?,
        });
    }
    if hd.is_empty() {
        Ok(St::If(out))
    } else {
        Ok(St::Switch(expr(&hd)?, out))
    }
}

fn body(lines: Vec<&str>) -> Res<Vec<St>> {
    let mut l = Lines { l: lines, i: 0 };
    let mut v = Vec::new();
    while l.i < l.l.len() {
        items(&mut l, &mut v)?;
    }
    let mut it = v.into_iter().peekable();
    let out = weave(&mut it, 1)?;
    if it.next().is_some() {
        return Err("weave".into());
    }
    Ok(out)
}

fn weave(it: &mut std::iter::Peekable<std::vec::IntoIter<Item>>, d: usize) -> Res<Vec<St>> {
    let mut out = Vec::new();
    while let Some(x) = it.peek() {
        match x {
            Item::St(_) => {
                let Some(Item::St(s)) = it.next() else {
                    unreachable!()
                };
                if matches!(out.last(), Some(St::Choices(_))) {
                    return Err("statement after choices".into());
                }
                out.push(s);
            }
            Item::Ch(e, _) | Item::Ga(e, _) if *e < d => return Ok(out),
            Item::Ch(e, _) | Item::Ga(e, _) if *e > d => {
                return Err(format!("weave point of depth {e} inside {d}"));
            }
            Item::Ch(..) => {
                let Some(Item::Ch(_, mut c)) = it.next() else {
                    unreachable!()
                };
                c.body = weave(it, d + 1)?;
                match out.last_mut() {
                    Some(St::Choices(v)) => v.push(c),
                    _ => out.push(St::Choices(vec![c])),
                }
            }
            Item::Ga(..) => {
                let Some(Item::Ga(_, l)) = it.next() else {
                    unreachable!()
                };
                out.push(St::Gather(l));
            }
        }
    }
    Ok(out)
}

/// `/* */` comments removed, lines kept.
fn strip_comments(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find("/*") {
        out.push_str(&rest[..i]);
        let e = rest[i..].find("*/").map_or(rest.len(), |e| i + e + 2);
        out.extend(rest[i..e].chars().filter(|c| *c == '\n'));
        rest = &rest[e..];
    }
    out.push_str(rest);
    out.lines()
        .map(|l| l.split("//").next().unwrap())
        .collect::<Vec<_>>()
        .join("\n")
}

pub fn parse(src: &str) -> Res<Story> {
    let src = strip_comments(src);
    let mut st = Story::default();
    let mut chunks: Vec<(String, Vec<&str>)> = vec![(String::new(), vec![])];
    for l in src.lines() {
        let t = l.trim();
        if let Some(r) = t.strip_prefix("VAR ") {
            let (n, e) = r.split_once('=').ok_or("VAR")?;
            st.vars.push((n.trim().into(), expr(e)?));
        } else if t.starts_with('=') {
            chunks.push((t.to_string(), vec![]));
        } else {
            chunks.last_mut().unwrap().1.push(l);
        }
    }
    for (h, lines) in chunks {
        let mut f = Flow {
            body: body(lines)?,
            ..Default::default()
        };
        if h.is_empty() {
            st.root = f;
            continue;
        }
        let knot = h.starts_with("==");
        let mut r = h.trim_matches('=').trim();
        if let Some(x) = r.strip_prefix("function ") {
            f.function = true;
            r = x.trim();
        }
        let (n, a) = match r.split_once('(') {
            Some((n, a)) => (n.trim(), a.trim().trim_end_matches(')')),
            None => (r, ""),
        };
        f.name = n.into();
        for p in a.split(',').map(|p| p.trim()).filter(|p| !p.is_empty()) {
            match p.strip_prefix("ref ") {
                Some(q) => f.params.push((q.trim().into(), true)),
                None => f
                    .params
                    .push((p.trim_start_matches("->").trim().into(), false)),
            }
        }
        if knot {
            st.knots.push(f);
        } else {
            st.knots
                .last_mut()
                .ok_or("stitch outside a knot")?
                .stitches
                .push(f);
        }
    }
    Ok(st)
}

// ---------------------------------------------------------------- interpreter

#[derive(Clone, Debug)]
pub enum Ev {
    Text(String),
    Nl,
    Glue,
    TagB,
    TagE,
    FnB,
    FnE,
    /// A global changed.
    Set(String, Val),
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Base,
    Tunnel,
}

/// Knot and stitch a position is in.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Place {
    knot: Option<usize>,
    stitch: Option<usize>,
}

type Pos<'a> = Vec<(&'a [St], usize)>;

/// Part of a line.
#[derive(Clone, Copy)]
enum Todo<'a> {
    Parts(&'a [In]),
    Go(&'a Go),
    Nl,
}

#[derive(Clone)]
struct Elem<'a> {
    kind: Kind,
    pos: Pos<'a>,
    /// What is left of the current line, last first.
    todo: Vec<Todo<'a>>,
    temps: HashMap<String, Val>,
    place: Place,
    /// Behind choices, where nothing follows.
    stuck: bool,
}

#[derive(Clone)]
struct Offer<'a> {
    text: String,
    tags: Vec<String>,
    ch: &'a Ch,
    stack: Vec<Elem<'a>>,
}

#[derive(Clone, Copy)]
enum Node<'a> {
    Flow(Place),
    Gather(&'a St),
    Choice(&'a Ch),
}

/// What a target name means.
struct Target<'a> {
    node: Node<'a>,
    place: Place,
    pos: Pos<'a>,
}

#[derive(Clone)]
pub struct Play<'a> {
    s: &'a Story,
    pub globals: BTreeMap<String, Val>,
    visits: HashMap<usize, i32>,
    turns: HashMap<usize, i32>,
    turn: i32,
    threads: Vec<Vec<Elem<'a>>>,
    offers: Vec<Offer<'a>>,
    events: Vec<Ev>,
    /// Frames of running functions: temporaries and place.
    frames: Vec<(HashMap<String, Val>, Place)>,
    safe: bool,
    doubtful: bool,
    fuel: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct LineObs {
    pub text: String,
    pub tags: Vec<String>,
    pub globals: Vec<(String, Val)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct TurnObs {
    pub lines: Vec<LineObs>,
    pub choices: Vec<(String, Vec<String>)>,
    pub error: bool,
    pub globals: Vec<(String, Val)>,
    pub counts: Vec<(String, i32)>,
}

fn addr<T>(x: &T) -> usize {
    x as *const T as usize
}

enum Flowing {
    Next,
    Stop,
}

impl<'a> Play<'a> {
    pub fn new(s: &'a Story) -> Res<Play<'a>> {
        let mut p = Play {
            s,
            globals: BTreeMap::new(),
            visits: HashMap::new(),
            turns: HashMap::new(),
            turn: 0,
            threads: vec![vec![Elem {
                kind: Kind::Base,
                pos: vec![(&s.root.body[..], 0)],
                todo: vec![],
                temps: HashMap::new(),
                place: Place::default(),
                stuck: false,
            }]],
            offers: vec![],
            events: vec![],
            frames: vec![],
            safe: false,
            doubtful: false,
            fuel: 4000,
        };
        for (n, e) in &s.vars {
            let v = p.eval(e)?;
            p.globals.insert(n.clone(), v);
        }
        Ok(p)
    }

    fn flow(&self, p: Place) -> &'a Flow {
        match (p.knot, p.stitch) {
            (None, _) => &self.s.root,
            (Some(k), None) => &self.s.knots[k],
            (Some(k), Some(t)) => &self.s.knots[k].stitches[t],
        }
    }
    fn place(&self) -> Place {
        if let Some(f) = self.frames.last() {
            return f.1;
        }
        self.top().place
    }
    fn top(&self) -> &Elem<'a> {
        self.threads.last().unwrap().last().unwrap()
    }
    fn top_mut(&mut self) -> &mut Elem<'a> {
        self.threads.last_mut().unwrap().last_mut().unwrap()
    }

    // -------- names

    fn in_flow(&self, place: Place, name: &str) -> Option<Target<'a>> {
        fn find<'a>(b: &'a [St], name: &str, pos: &mut Pos<'a>) -> Option<Node<'a>> {
            for (i, s) in b.iter().enumerate() {
                let blocks: Vec<&'a Vec<St>> = match s {
                    St::If(v) | St::Switch(_, v) => v.iter().map(|b| &b.body).collect(),
                    St::Seq(_, v) => v.iter().collect(),
                    _ => vec![],
                };
                for b in blocks {
                    // Behind the choices of a block nothing follows.
                    let mut inner = vec![];
                    if let Some(n) = find(b, name, &mut inner) {
                        *pos = inner;
                        return Some(n);
                    }
                }
                match s {
                    St::Gather(Some(l)) if l == name => {
                        pos.push((b, i));
                        return Some(Node::Gather(s));
                    }
                    St::Choices(v) => {
                        for c in v {
                            if c.label.as_deref() == Some(name) {
                                pos.push((b, i + 1));
                                return Some(Node::Choice(c));
                            }
                            pos.push((b, i + 1));
                            if let Some(n) = find(&c.body, name, pos) {
                                return Some(n);
                            }
                            pos.pop();
                        }
                    }
                    _ => {}
                }
            }
            None
        }
        let mut pos = vec![];
        let node = find(&self.flow(place).body, name, &mut pos)?;
        Some(Target { node, place, pos })
    }

    fn whole(&self, place: Place) -> Target<'a> {
        Target {
            node: Node::Flow(place),
            place,
            pos: vec![(&self.flow(place).body[..], 0)],
        }
    }

    fn resolve(&self, name: &str, from: Place) -> Option<Target<'a>> {
        let knot = |n: &str| self.s.knots.iter().position(|k| k.name == n);
        let stitch = |k: usize, n: &str| self.s.knots[k].stitches.iter().position(|k| k.name == n);
        let parts: Vec<&str> = name.split('.').collect();
        match parts[..] {
            [n] => {
                if let Some(t) = self.in_flow(from, n) {
                    return Some(t);
                }
                if let Some(k) = from.knot {
                    if let Some(t) = stitch(k, n) {
                        return Some(self.whole(Place {
                            knot: Some(k),
                            stitch: Some(t),
                        }));
                    }
                    if from.stitch.is_some()
                        && let Some(t) = self.in_flow(
                            Place {
                                knot: Some(k),
                                stitch: None,
                            },
                            n,
                        )
                    {
                        return Some(t);
                    }
                }
                if let Some(k) = knot(n) {
                    return Some(self.whole(Place {
                        knot: Some(k),
                        stitch: None,
                    }));
                }
                self.in_flow(Place::default(), n)
            }
            [a, b] => {
                if let Some(k) = knot(a) {
                    if let Some(t) = stitch(k, b) {
                        return Some(self.whole(Place {
                            knot: Some(k),
                            stitch: Some(t),
                        }));
                    }
                    return self.in_flow(
                        Place {
                            knot: Some(k),
                            stitch: None,
                        },
                        b,
                    );
                }
                let k = from.knot?;
                let t = stitch(k, a)?;
                self.in_flow(
                    Place {
                        knot: Some(k),
                        stitch: Some(t),
                    },
                    b,
                )
            }
            [a, b, c] => {
                let k = knot(a)?;
                let t = stitch(k, b)?;
                self.in_flow(
                    Place {
                        knot: Some(k),
                        stitch: Some(t),
                    },
                    c,
                )
            }
            _ => None,
        }
    }

    fn key(&self, n: Node<'a>) -> usize {
        match n {
            Node::Flow(p) => addr(self.flow(p)),
            Node::Gather(s) => addr(s),
            Node::Choice(c) => addr(c),
        }
    }

    fn visit(&mut self, key: usize) {
        *self.visits.entry(key).or_default() += 1;
        self.turns.insert(key, self.turn);
    }

    /// Counts the flows entered by going to `to` from `from`.
    fn enter(&mut self, to: Place, from: Place) {
        if let Some(k) = to.knot {
            if to.stitch.is_some() && from != to {
                self.visit(addr(self.flow(to)));
            }
            if from.knot != Some(k) {
                self.visit(addr(&self.s.knots[k]));
            }
        }
    }

    // -------- expressions

    fn temps(&self) -> &HashMap<String, Val> {
        match self.frames.last() {
            Some(f) => &f.0,
            None => &self.top().temps,
        }
    }
    fn temps_mut(&mut self) -> &mut HashMap<String, Val> {
        if !self.frames.is_empty() {
            return &mut self.frames.last_mut().unwrap().0;
        }
        &mut self.top_mut().temps
    }

    fn get(&self, name: &str) -> Res<Val> {
        if let Some(v) = self.temps().get(name) {
            if let Val::R(g) = v {
                return self.globals.get(g).cloned().ok_or(format!("ref {g}"));
            }
            return Ok(v.clone());
        }
        if let Some(v) = self.globals.get(name) {
            return Ok(v.clone());
        }
        let t = self
            .resolve(name, self.place())
            .ok_or(format!("unknown name {name}"))?;
        Ok(Val::I(
            self.visits.get(&self.key(t.node)).copied().unwrap_or(0),
        ))
    }

    fn set(&mut self, name: &str, v: Val, temp: bool) -> Res<()> {
        if temp {
            self.temps_mut().insert(name.into(), v);
            return Ok(());
        }
        let g = match self.temps().get(name) {
            Some(Val::R(g)) => g.clone(),
            Some(_) => {
                self.temps_mut().insert(name.into(), v);
                return Ok(());
            }
            None => name.to_string(),
        };
        if !self.globals.contains_key(&g) {
            return Err(format!("assignment to unknown {g}"));
        }
        self.globals.insert(g.clone(), v.clone());
        self.events.push(Ev::Set(g, v));
        Ok(())
    }

    fn truthy(&mut self, e: &'a Ex) -> Res<bool> {
        Ok(match self.eval(e)? {
            Val::I(i) => i != 0,
            Val::B(b) => b,
            _ => return Err("condition of another type".into()),
        })
    }

    fn eval(&mut self, e: &'a Ex) -> Res<Val> {
        Ok(match e {
            Ex::Lit(v) => v.clone(),
            Ex::Str(p) => {
                let s = self.string(p)?;
                Val::S(s.0)
            }
            Ex::Var(n) => self.get(n)?,
            Ex::Target(_) => return Err("divert target as a value".into()),
            Ex::Un(op, a) => {
                let v = self.eval(a)?;
                match (op, v) {
                    ('-', Val::I(i)) => Val::I(i.wrapping_neg()),
                    ('!', Val::I(i)) => Val::B(i == 0),
                    ('!', Val::B(b)) => Val::B(!b),
                    (o, v) => return Err(format!("{o} {v:?}")),
                }
            }
            Ex::Bin(op, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                binary(op, a, b)?
            }
            Ex::Call(n, args) => self.call(n, args)?,
        })
    }

    fn call(&mut self, n: &str, args: &'a [Ex]) -> Res<Val> {
        match (n, args) {
            ("TURNS_SINCE", [Ex::Target(t)]) => {
                let t = self.resolve(t, self.place()).ok_or("target")?;
                let k = self.key(t.node);
                return Ok(Val::I(self.turns.get(&k).map_or(-1, |x| self.turn - x)));
            }
            ("READ_COUNT", [Ex::Target(t)]) => return self.get(t),
            ("CHOICE_COUNT", []) => return Ok(Val::I(self.offers.len() as i32)),
            ("TURNS", []) => return Ok(Val::I(self.turn)),
            ("MIN" | "MAX", [a, b]) => {
                let (Val::I(a), Val::I(b)) = (self.eval(a)?, self.eval(b)?) else {
                    return Err("MIN".into());
                };
                return Ok(Val::I(if n == "MIN" { a.min(b) } else { a.max(b) }));
            }
            _ => {}
        }
        let s = self.s;
        let k = s
            .knots
            .iter()
            .position(|k| k.name == n && k.function)
            .ok_or(format!("unknown function {n}"))?;
        let f = &s.knots[k];
        let temps = self.bind(f, args)?;
        if self.frames.len() > 20 {
            return Err("recursion".into());
        }
        let place = Place {
            knot: Some(k),
            stitch: None,
        };
        self.enter(place, self.place());
        self.frames.push((temps, place));
        self.events.push(Ev::FnB);
        let r = self.run_function(&f.body)?;
        self.events.push(Ev::FnE);
        self.frames.pop();
        Ok(r.unwrap_or(Val::Void))
    }

    fn bind(&mut self, f: &'a Flow, args: &'a [Ex]) -> Res<HashMap<String, Val>> {
        if f.params.len() != args.len() {
            return Err(format!("arguments of {}", f.name));
        }
        let mut temps = HashMap::new();
        for ((p, by_ref), a) in f.params.iter().zip(args) {
            let v = if *by_ref {
                let Ex::Var(n) = a else {
                    return Err("reference to no variable".into());
                };
                match self.temps().get(n) {
                    Some(Val::R(g)) => Val::R(g.clone()),
                    Some(_) => return Err("reference to a temporary".into()),
                    None => Val::R(n.clone()),
                }
            } else {
                self.eval(a)?
            };
            temps.insert(p.clone(), v);
        }
        Ok(temps)
    }

    /// The body of a function: the value returned, if it returned.
    fn run_function(&mut self, b: &'a [St]) -> Res<Option<Val>> {
        for s in b {
            self.burn()?;
            match s {
                St::Return(e) => {
                    return Ok(Some(match e {
                        Some(e) => self.eval(e)?,
                        None => Val::Void,
                    }));
                }
                St::If(_) | St::Switch(..) | St::Seq(..) => {
                    let body = self.pick(s)?;
                    if let Some(b) = body {
                        self.events.push(Ev::Nl);
                        if let Some(v) = self.run_function(b)? {
                            return Ok(Some(v));
                        }
                    }
                    self.events.push(Ev::Nl);
                }
                _ => match self.simple(s)? {
                    Some(g) if g.is_empty() => {}
                    _ => return Err("not possible in a function".into()),
                },
            }
        }
        Ok(None)
    }

    /// Evaluates parts as a string: text and tags.
    fn string(&mut self, p: &'a [In]) -> Res<(String, Vec<String>)> {
        let keep = std::mem::take(&mut self.events);
        let go = self.parts(p)?;
        let ev = std::mem::replace(&mut self.events, keep);
        if go.is_some() {
            return Err("divert in a string".into());
        }
        let mut f = Fold::default();
        for e in &ev {
            if let Ev::Set(..) = e {
                self.events.push(e.clone());
            }
            if let Ev::FnB | Ev::Nl = e {
                return Err("function or line in a string".into());
            }
            f.push(e);
        }
        Ok((f.raw_text(), f.tags()))
    }

    // -------- content

    fn burn(&mut self) -> Res<()> {
        self.fuel = self.fuel.checked_sub(1).ok_or("runaway")?;
        Ok(())
    }

    fn seq_index(&mut self, key: usize, mode: Mode, n: usize) -> Option<usize> {
        let c = self.visits.entry(key).or_default();
        let i = *c as usize;
        *c += 1;
        match mode {
            Mode::Stopping => Some(i.min(n - 1)),
            Mode::Cycle => Some(i % n),
            Mode::Once => (i < n).then_some(i),
        }
    }

    /// Outputs content; the diverts to take if the line ended in some.
    fn parts(&mut self, p: &'a [In]) -> Res<Option<&'a [Go]>> {
        for x in p {
            match x {
                In::Text(t) => self.events.push(Ev::Text(t.clone())),
                In::Glue => self.events.push(Ev::Glue),
                In::Print(e) => {
                    let v = self.eval(e)?;
                    if v != Val::Void {
                        self.events.push(Ev::Text(v.show()));
                    }
                }
                In::If(c, a, b) => {
                    let l = if self.truthy(c)? { Some(a) } else { b.as_ref() };
                    if let Some(l) = l
                        && let Some(g) = self.line(l)?
                    {
                        return Ok(Some(g));
                    }
                }
                In::Seq(m, v) => {
                    if let Some(i) = self.seq_index(addr(x), *m, v.len())
                        && let Some(g) = self.line(&v[i])?
                    {
                        return Ok(Some(g));
                    }
                }
                In::Tag(t) => {
                    self.events.push(Ev::TagB);
                    if self.parts(t)?.is_some() {
                        return Err("divert in a tag".into());
                    }
                    self.events.push(Ev::TagE);
                }
            }
        }
        Ok(None)
    }

    fn line(&mut self, l: &'a Line) -> Res<Option<&'a [Go]>> {
        if let Some(g) = self.parts(&l.parts)? {
            return Ok(Some(g));
        }
        Ok((!l.go.is_empty()).then_some(&l.go[..]))
    }

    /// The branch of a block to run.
    fn pick(&mut self, s: &'a St) -> Res<Option<&'a [St]>> {
        match s {
            St::If(b) => {
                for x in b {
                    let go = match &x.cond {
                        Some(c) => self.truthy(c)?,
                        None => true,
                    };
                    if go {
                        return Ok(Some(&x.body));
                    }
                }
                Ok(None)
            }
            St::Switch(e, b) => {
                let v = self.eval(e)?;
                for x in b {
                    let go = match &x.cond {
                        Some(c) => {
                            let w = self.eval(c)?;
                            binary("==", v.clone(), w)? == Val::B(true)
                        }
                        None => true,
                    };
                    if go {
                        return Ok(Some(&x.body));
                    }
                }
                Ok(None)
            }
            St::Seq(m, v) => Ok(self.seq_index(addr(s), *m, v.len()).map(|i| &v[i][..])),
            _ => unreachable!(),
        }
    }

    /// Statements without a body. The diverts to take; `None`: not a simple statement.
    fn simple(&mut self, s: &'a St) -> Res<Option<&'a [Go]>> {
        match s {
            St::Line { line, newline } => {
                let g = self.line(line)?;
                match g {
                    Some(g) => return Ok(Some(g)),
                    None => {
                        if *newline {
                            self.events.push(Ev::Nl);
                        }
                    }
                }
            }
            St::Set {
                name,
                op,
                ex,
                newline,
                temp,
            } => {
                let v = match ex {
                    Some(e) => self.eval(e)?,
                    None => Val::I(1),
                };
                let v = match *op {
                    "=" => v,
                    "+" | "++" => binary("+", self.get(name)?, v)?,
                    _ => binary("-", self.get(name)?, v)?,
                };
                self.set(name, v, *temp)?;
                if *newline {
                    self.events.push(Ev::Nl);
                }
            }
            St::Do(e) => {
                self.eval(e)?;
                if calls(e) {
                    self.events.push(Ev::Nl);
                }
            }
            _ => return Ok(None),
        }
        Ok(Some(&[]))
    }

    // -------- flow

    fn divert(&mut self, name: &str, args: &'a [Ex]) -> Res<Flowing> {
        match name {
            "END" => {
                let mut e = self.threads[0][0].clone();
                e.pos.clear();
                e.todo.clear();
                self.threads = vec![vec![e]];
                self.offers.clear();
                self.safe = true;
                return Ok(Flowing::Stop);
            }
            "DONE" => {
                if self.threads.len() > 1 {
                    self.threads.pop();
                    return Ok(Flowing::Next);
                }
                self.top_mut().pos.clear();
                self.safe = true;
                return Ok(Flowing::Stop);
            }
            _ => {}
        }
        let from = self.top().place;
        let t = self.resolve(name, from).ok_or(format!("target {name}"))?;
        if let Node::Flow(p) = t.node {
            let temps = self.bind(self.flow(p), args)?;
            self.top_mut().temps.extend(temps);
        }
        self.arrive(t, from)?;
        Ok(Flowing::Next)
    }

    fn arrive(&mut self, t: Target<'a>, from: Place) -> Res<()> {
        let top = self.top_mut();
        top.pos = t.pos;
        top.place = t.place;
        top.stuck = false;
        match t.node {
            Node::Flow(p) => {
                self.enter(p, from);
                let f = self.flow(p);
                if f.body.is_empty() && !f.stitches.is_empty() {
                    // Without content of its own it goes on to its first stitch.
                    let q = Place {
                        knot: p.knot,
                        stitch: Some(0),
                    };
                    let t = self.whole(q);
                    return self.arrive(t, p);
                }
            }
            Node::Gather(_) => self.enter(t.place, from),
            Node::Choice(c) => {
                self.enter(t.place, from);
                self.chosen(c)?;
            }
        }
        Ok(())
    }

    /// The content of a choice; the position is behind the choices already.
    fn chosen(&mut self, c: &'a Ch) -> Res<()> {
        self.visit(addr(c));
        self.top_mut().pos.push((&c.body[..], 0));
        let todo = &mut self.top_mut().todo;
        *todo = vec![Todo::Nl];
        todo.extend(c.go.iter().rev().map(Todo::Go));
        todo.push(Todo::Parts(&c.end));
        todo.push(Todo::Parts(&c.start));
        Ok(())
    }

    fn take(&mut self, g: &'a Go) -> Res<Flowing> {
        match g {
            Go::To(n, a) => {
                self.top_mut().todo.clear();
                self.divert(n, a)
            }
            Go::Tunnel(n, a) => {
                let from = self.top().place;
                let t = self.resolve(n, from).ok_or(format!("target {n}"))?;
                let temps = match t.node {
                    Node::Flow(p) => self.bind(self.flow(p), a)?,
                    _ => HashMap::new(),
                };
                self.threads.last_mut().unwrap().push(Elem {
                    kind: Kind::Tunnel,
                    pos: vec![],
                    todo: vec![],
                    temps,
                    place: from,
                    stuck: false,
                });
                self.arrive(t, from)?;
                Ok(Flowing::Next)
            }
            Go::Ret(to) => {
                if self.top().kind != Kind::Tunnel {
                    return Err("open: ->-> outside a tunnel".into());
                }
                let from = self.top().place;
                self.threads.last_mut().unwrap().pop();
                if let Some(n) = to {
                    let here = self.top().place;
                    // The name is meant where it is written.
                    let t = self.resolve(n, from).ok_or("target")?;
                    self.top_mut().todo.clear();
                    self.arrive(t, here)?;
                }
                Ok(Flowing::Next)
            }
        }
    }

    /// One step of the current thread.
    fn step(&mut self) -> Res<Flowing> {
        self.burn()?;
        let top = self.top_mut();
        match top.todo.pop() {
            None => {}
            Some(Todo::Go(g)) => return self.take(g),
            Some(Todo::Nl) => {
                self.events.push(Ev::Nl);
                return Ok(Flowing::Next);
            }
            Some(Todo::Parts(p)) => {
                let Some((x, rest)) = p.split_first() else {
                    return Ok(Flowing::Next);
                };
                top.todo.push(Todo::Parts(rest));
                let line = match x {
                    In::If(c, a, b) => {
                        if self.truthy(c)? {
                            Some(a)
                        } else {
                            b.as_ref()
                        }
                    }
                    In::Seq(m, v) => self.seq_index(addr(x), *m, v.len()).map(|i| &v[i]),
                    _ => {
                        self.parts(&p[..1])?;
                        None
                    }
                };
                if let Some(l) = line {
                    self.todo_line(l);
                }
                return Ok(Flowing::Next);
            }
        }
        let (b, i) = loop {
            match top.pos.last().copied() {
                None => {
                    let root = top.place.knot.is_none() && !top.stuck;
                    if self.threads.len() > 1 {
                        self.threads.pop();
                        return Ok(Flowing::Next);
                    }
                    // The content before the first knot ends in an implicit DONE.
                    if root {
                        self.safe = true;
                    }
                    return Ok(Flowing::Stop);
                }
                Some((b, i)) if i < b.len() => break (b, i),
                _ => {
                    top.pos.pop();
                    // Behind a block of logic a line ends.
                    if let Some((b, i)) = top.pos.last()
                        && *i > 0
                        && matches!(b[*i - 1], St::If(_) | St::Switch(..) | St::Seq(..))
                    {
                        self.events.push(Ev::Nl);
                        return Ok(Flowing::Next);
                    }
                }
            }
        };
        top.pos.last_mut().unwrap().1 = i + 1;
        let s = &b[i];
        match s {
            St::If(_) | St::Switch(..) | St::Seq(..) => {
                match self.pick(s)? {
                    Some(b) => {
                        self.events.push(Ev::Nl);
                        self.top_mut().pos.push((b, 0));
                    }
                    None => self.events.push(Ev::Nl),
                }
                Ok(Flowing::Next)
            }
            St::Gather(l) => {
                if l.is_some() {
                    self.visit(addr(s));
                }
                Ok(Flowing::Next)
            }
            St::Thread(n, a) => {
                let copy = self.threads.last().unwrap().clone();
                let from = self.top().place;
                self.threads.push(copy);
                let t = self.resolve(n, from).ok_or("thread target")?;
                if let Node::Flow(p) = t.node {
                    let temps = self.bind(self.flow(p), a)?;
                    self.top_mut().temps.extend(temps);
                }
                self.arrive(t, from)?;
                Ok(Flowing::Next)
            }
            St::Choices(v) => {
                let n = self.offers.len();
                for c in v {
                    self.offer(c)?;
                }
                let pos = &self.top().pos;
                let block = pos.len() > 1 && {
                    let (b, i) = pos[pos.len() - 2];
                    i > 0 && matches!(b[i - 1], St::If(_) | St::Switch(..) | St::Seq(..))
                };
                if block {
                    // The content goes on behind the block, but not that of the choices.
                    for o in &mut self.offers[n..] {
                        let e = o.stack.last_mut().unwrap();
                        e.pos.clear();
                        e.stuck = true;
                    }
                    return Ok(Flowing::Next);
                }
                // Only the choices before any gather of the main content are followed by its
                // implicit DONE.
                let main = std::ptr::eq(b, &self.s.root.body[..])
                    && !b[..i].iter().any(|s| matches!(s, St::Choices(_)));
                let top = self.top_mut();
                top.pos.clear();
                top.stuck = !main;
                Ok(Flowing::Next)
            }
            St::Return(_) => Err("return outside a function".into()),
            St::Line { line, newline } => {
                if *newline {
                    self.top_mut().todo.push(Todo::Nl);
                }
                self.todo_line(line);
                Ok(Flowing::Next)
            }
            _ => {
                self.simple(s)?;
                Ok(Flowing::Next)
            }
        }
    }

    fn todo_line(&mut self, l: &'a Line) {
        let todo = &mut self.top_mut().todo;
        todo.extend(l.go.iter().rev().map(Todo::Go));
        todo.push(Todo::Parts(&l.parts));
    }

    fn offer(&mut self, c: &'a Ch) -> Res<()> {
        self.burn()?;
        let (start, mut tags) = self.string(&c.start)?;
        let (only, more) = self.string(&c.only)?;
        tags.extend(more);
        let mut show = true;
        for e in &c.conds {
            // Every condition is evaluated.
            show &= self.truthy(e)?;
        }
        if !c.sticky && self.visits.get(&addr(c)).copied().unwrap_or(0) > 0 {
            show = false;
        }
        if show {
            let stack = self.threads.last().unwrap().clone();
            self.offers.push(Offer {
                text: format!("{start}{only}").trim().to_string(),
                tags,
                ch: c,
                stack,
            });
        }
        Ok(())
    }

    fn follow(&mut self, o: Offer<'a>) -> Res<()> {
        self.threads = vec![o.stack];
        self.offers.clear();
        self.safe = false;
        self.chosen(o.ch)
    }

    /// Plays until nothing more can happen without the player.
    pub fn turn(&mut self) -> Res<TurnObs> {
        self.events.clear();
        self.fuel = 4000;
        let before: Vec<(String, Val)> = self
            .globals
            .iter()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        self.doubtful = false;
        self.run(before)
    }

    fn run(&mut self, before: Vec<(String, Val)>) -> Res<TurnObs> {
        loop {
            match self.step()? {
                Flowing::Next => {}
                Flowing::Stop => {
                    if !self.offers.is_empty() && self.offers.iter().all(|o| o.ch.fallback) {
                        let o = self.offers[0].clone();
                        let safe = self.safe;
                        self.follow(o)?;
                        self.doubtful |= safe;
                        continue;
                    }
                    break;
                }
            }
        }
        let error = self.offers.is_empty() && !self.safe;
        if error && self.doubtful {
            // The main content came to its end before its fallback choice went on.
            return Err("open: ends twice".into());
        }
        let lines = fold_lines(&self.events, before);
        Ok(TurnObs {
            lines,
            choices: if error {
                vec![]
            } else {
                self.visible()
                    .map(|o| (o.text.clone(), o.tags.clone()))
                    .collect()
            },
            error,
            globals: self
                .globals
                .iter()
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect(),
            counts: self.counts(),
        })
    }

    fn visible(&self) -> impl Iterator<Item = &Offer<'a>> {
        self.offers.iter().filter(|o| !o.ch.fallback)
    }

    fn counts(&self) -> Vec<(String, i32)> {
        let mut out = Vec::new();
        for k in &self.s.knots {
            out.push((k.name.clone(), addr(k)));
            for t in &k.stitches {
                out.push((format!("{}.{}", k.name, t.name), addr(t)));
            }
        }
        out.into_iter()
            .map(|(n, a)| (n, self.visits.get(&a).copied().unwrap_or(0)))
            .collect()
    }

    /// Chooses and plays the next turn.
    pub fn choose(&mut self, i: usize) -> Res<TurnObs> {
        let o = self.visible().nth(i).cloned().ok_or("choice")?;
        self.turn += 1;
        self.events.clear();
        self.fuel = 4000;
        let before: Vec<(String, Val)> = self
            .globals
            .iter()
            .map(|(k, v)| (k.clone(), v.clone()))
            .collect();
        self.follow(o)?;
        self.doubtful = false;
        self.run(before)
    }
}

fn num(v: &Val) -> Option<i32> {
    match v {
        Val::I(i) => Some(*i),
        Val::B(b) => Some(*b as i32),
        _ => None,
    }
}

fn binary(op: &str, a: Val, b: Val) -> Res<Val> {
    if matches!(a, Val::S(_)) || matches!(b, Val::S(_)) {
        let (x, y) = (a.show(), b.show());
        return Ok(match op {
            "+" => Val::S(x + &y),
            "==" => Val::B(x == y),
            "!=" => Val::B(x != y),
            "?" => Val::B(x.contains(&y)),
            "!?" => Val::B(!x.contains(&y)),
            _ => return Err(format!("{x:?} {op} {y:?}")),
        });
    }
    let (Some(x), Some(y)) = (num(&a), num(&b)) else {
        return Err(format!("{a:?} {op} {b:?}"));
    };
    Ok(match op {
        "+" => Val::I(x.wrapping_add(y)),
        "-" => Val::I(x.wrapping_sub(y)),
        "*" => Val::I(x.wrapping_mul(y)),
        "/" => Val::I(x.checked_div(y).ok_or("division")?),
        "%" => Val::I(x.checked_rem(y).ok_or("division")?),
        "==" => Val::B(x == y),
        "!=" => Val::B(x != y),
        "<" => Val::B(x < y),
        ">" => Val::B(x > y),
        "<=" => Val::B(x <= y),
        ">=" => Val::B(x >= y),
        "&&" => Val::B(x != 0 && y != 0),
        "||" => Val::B(x != 0 || y != 0),
        _ => return Err(format!("operator {op}")),
    })
}

// ---------------------------------------------------------------- lines

#[derive(Clone, Debug, PartialEq)]
enum Item2 {
    Text(String),
    Nl,
    Glue,
    TagB,
    TagE,
}

/// The output of one line being built.
#[derive(Clone, Default)]
struct Fold {
    s: Vec<Item2>,
    /// Start of the output of each running function while it has output nothing visible.
    funcs: Vec<Option<usize>>,
}

fn blank(t: &str) -> bool {
    t.chars().all(|c| c == ' ' || c == '\t')
}

impl Fold {
    fn ends_in_newline(&self) -> bool {
        for x in self.s.iter().rev() {
            match x {
                Item2::TagB | Item2::TagE => return false,
                Item2::Nl => return true,
                Item2::Text(t) if !blank(t) => return false,
                _ => {}
            }
        }
        false
    }

    fn push(&mut self, e: &Ev) {
        match e {
            Ev::Set(..) => {}
            Ev::TagB => self.s.push(Item2::TagB),
            Ev::TagE => self.s.push(Item2::TagE),
            Ev::FnB => self.funcs.push(Some(self.s.len())),
            Ev::FnE => {
                let from = self.funcs.pop().flatten().unwrap_or(0);
                // What a function prints ends without white space.
                let mut i = self.s.len();
                while i > from {
                    i -= 1;
                    match &self.s[i] {
                        Item2::Nl => {
                            self.s.remove(i);
                        }
                        Item2::Text(t) if blank(t) => {
                            self.s.remove(i);
                        }
                        Item2::Text(_) | Item2::TagB | Item2::TagE => break,
                        Item2::Glue => {}
                    }
                }
            }
            Ev::Glue => {
                // Glue takes away the line ends before it.
                let mut from = None;
                for (i, x) in self.s.iter().enumerate().rev() {
                    match x {
                        Item2::TagB | Item2::TagE => break,
                        Item2::Text(t) if !blank(t) => break,
                        Item2::Nl => from = Some(i),
                        _ => {}
                    }
                }
                if let Some(f) = from {
                    let mut i = 0;
                    self.s.retain(|x| {
                        i += 1;
                        i <= f || !matches!(x, Item2::Nl | Item2::Text(_))
                    });
                }
                self.s.push(Item2::Glue);
            }
            Ev::Nl => {
                // Swallowed after glue, at the start of a function and where nothing would end.
                let glued = self.s.contains(&Item2::Glue);
                let in_func = self.funcs.last().copied().flatten().is_some();
                let content = self
                    .s
                    .iter()
                    .any(|x| matches!(x, Item2::Nl | Item2::Text(_)));
                if !glued && !in_func && !self.ends_in_newline() && content {
                    self.s.push(Item2::Nl);
                }
            }
            Ev::Text(t) => {
                if t.is_empty() {
                    // Empty text is content all the same.
                    self.s.push(Item2::Text(String::new()));
                    return;
                }
                if !blank(t) {
                    // The glue has done its work, up to the last tag.
                    let from = self
                        .s
                        .iter()
                        .rposition(|x| matches!(x, Item2::TagB | Item2::TagE))
                        .map_or(0, |i| i + 1);
                    let glue_last = self.s.iter().rposition(|x| *x == Item2::Glue);
                    if glue_last.is_some() {
                        let mut i = 0;
                        self.s.retain(|x| {
                            i += 1;
                            i <= from || *x != Item2::Glue
                        });
                    }
                    for f in self.funcs.iter_mut() {
                        *f = None;
                    }
                }
                self.s.push(Item2::Text(t.clone()));
            }
        }
    }

    fn raw_text(&self) -> String {
        let mut out = String::new();
        let mut tag = false;
        for x in &self.s {
            match x {
                Item2::Text(t) if !tag => out.push_str(t),
                Item2::Nl if !tag => out.push('\n'),
                Item2::TagB => tag = true,
                Item2::TagE => tag = false,
                _ => {}
            }
        }
        out
    }

    fn text(&self) -> String {
        clean(&self.raw_text())
    }

    fn tags(&self) -> Vec<String> {
        let mut out = Vec::new();
        let mut cur: Option<String> = None;
        for x in &self.s {
            match x {
                Item2::TagB => cur = Some(String::new()),
                Item2::TagE => {
                    if let Some(t) = cur.take()
                        && !t.is_empty()
                    {
                        out.push(clean(&t));
                    }
                }
                Item2::Text(t) => {
                    if let Some(c) = &mut cur {
                        c.push_str(t)
                    }
                }
                _ => {}
            }
        }
        if let Some(t) = cur
            && !t.is_empty()
        {
            out.push(clean(&t));
        }
        out
    }
}

/// One space between words, none at the ends of lines.
fn clean(s: &str) -> String {
    s.split('\n')
        .map(|l| {
            l.split([' ', '\t'])
                .filter(|w| !w.is_empty())
                .collect::<Vec<_>>()
                .join(" ")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn apply(g: &mut Vec<(String, Val)>, e: &Ev) {
    if let Ev::Set(n, v) = e
        && let Some(x) = g.iter_mut().find(|x| x.0 == *n)
    {
        x.1 = v.clone();
    }
}

/// The lines of a turn, each with the globals as the host sees them with it.
fn fold_lines(ev: &[Ev], mut globals: Vec<(String, Val)>) -> Vec<LineObs> {
    let mut out = Vec::new();
    let mut start = 0;
    loop {
        let mut f = Fold::default();
        // (index after the newline, text, tags, globals then)
        let mut snap: Option<(usize, String, Vec<String>, Vec<(String, Val)>)> = None;
        let mut g = globals.clone();
        let mut cut = None;
        let mut i = start;
        while i < ev.len() {
            apply(&mut g, &ev[i]);
            f.push(&ev[i]);
            i += 1;
            if let Some((_, text, tags, _)) = &snap {
                let now = f.text();
                let still = now.len() >= text.len() && now.as_bytes()[text.len() - 1] == b'\n';
                if !still {
                    snap = None;
                } else if f.tags().len() > tags.len() || !now[text.len()..].trim().is_empty() {
                    cut = snap.take();
                    break;
                }
            }
            if f.ends_in_newline() && snap.is_none() {
                let t = f.text();
                if t.ends_with('\n') {
                    snap = Some((i, t, f.tags(), g.clone()));
                }
            }
        }
        match cut {
            Some((at, text, tags, gl)) => {
                out.push(LineObs {
                    text,
                    tags,
                    globals: gl.clone(),
                });
                start = at;
                globals = gl;
            }
            None => {
                out.push(LineObs {
                    text: f.text(),
                    tags: f.tags(),
                    globals: g,
                });
                break;
            }
        }
    }
    out.retain(|l| !l.text.trim().is_empty() || !l.tags.is_empty());
    out
}
