//! C01: compiled stories play as the Ink language defines.
//!
//! Programs: statement sequences from a pool, completely enumerated up to a length, in every
//! context of a catalogue (top level, looping knot, choice body, tunnel, thread, function, ...),
//! and weaves enumerated from choice forms, bodies and gathers. Every program is compiled and
//! played along every choice path up to a depth, and each turn is compared with `refink`, an
//! interpreter of the source written independently of compiler and runtime: lines with their
//! tags, the globals the host sees with every line, choices with tags and order, errors, and the
//! visit counts of knots and stitches.
use crate::{refink, util::*};
use bladeink::story::Story;
use bladeink::value_type::ValueType;
use bladeink_compiler::Compiler;
use serde_json::json;

const FUEL: u64 = 40_000;

fn val(v: Option<ValueType>) -> String {
    match v {
        Some(ValueType::Int(i)) => format!("int {i}"),
        Some(ValueType::Bool(b)) => format!("bool {b}"),
        Some(ValueType::String(s)) => format!("string {:?}", s.string),
        Some(_) => "another type".into(),
        None => "none".into(),
    }
}

fn rval(v: &refink::Val) -> String {
    match v {
        refink::Val::I(i) => format!("int {i}"),
        refink::Val::B(b) => format!("bool {b}"),
        refink::Val::S(s) => format!("string {s:?}"),
        _ => "another type".into(),
    }
}

fn show_reference(t: &refink::TurnObs) -> String {
    let mut o = String::new();
    let vars = |g: &[(String, refink::Val)]| {
        g.iter()
            .map(|(k, v)| format!("{k}={}", rval(v)))
            .collect::<Vec<_>>()
            .join(" ")
    };
    for l in &t.lines {
        o += &format!(
            "line {:?} tags {:?} with {}\n",
            l.text,
            l.tags,
            vars(&l.globals)
        );
    }
    for (c, tags) in &t.choices {
        o += &format!("choice {c:?} tags {tags:?}\n");
    }
    o += &format!("error {}\n", t.error);
    o += &format!("globals {}\n", vars(&t.globals));
    o += &format!("counts {:?}\n", t.counts);
    o
}

/// One turn of the real story.
fn real_turn(s: &mut Story, vars: &[String], counted: &[String]) -> String {
    let mut o = String::new();
    let globals = |s: &Story| {
        vars.iter()
            .map(|k| format!("{k}={}", val(s.get_variable(k))))
            .collect::<Vec<_>>()
            .join(" ")
    };
    let mut failed = false;
    for _ in 0..400 {
        if !s.can_continue() {
            break;
        }
        let r = s.cont();
        let text = match r {
            Ok(t) => t,
            Err(_) => {
                failed = true;
                s.get_current_text().unwrap_or_default()
            }
        };
        let tags = s.get_current_tags().unwrap_or_default();
        if !text.trim().is_empty() || !tags.is_empty() {
            o += &format!("line {text:?} tags {tags:?} with {}\n", globals(s));
        }
        if failed {
            break;
        }
    }
    for c in s.get_current_choices() {
        o += &format!("choice {:?} tags {:?}\n", c.text, c.tags);
    }
    o += &format!("error {}\n", failed || s.has_error());
    o += &format!("globals {}\n", globals(s));
    let counts: Vec<(String, i32)> = counted
        .iter()
        .map(|k| (k.clone(), s.get_visit_count_at_path_string(k).unwrap_or(-1)))
        .collect();
    o += &format!("counts {counts:?}\n");
    o
}

struct Leaf {
    path: Vec<usize>,
    turns: Vec<String>,
    /// The last turn doesn't end.
    cut: bool,
}

struct Limits {
    depth: usize,
    leaves: usize,
}

/// Every choice path with what the reference shows along it.
fn paths(st: &refink::Story, lim: &Limits) -> Result<(Vec<Leaf>, u64), String> {
    let mut out = Vec::new();
    let mut states = 1;
    let mut p = refink::Play::new(st)?;
    let first = p.turn();
    let mut todo = vec![(p, first, Vec::new(), Vec::new())];
    while let Some((p, obs, path, mut turns)) = todo.pop() {
        let obs = match obs {
            Ok(o) => o,
            Err(e) if e == "runaway" => {
                out.push(Leaf {
                    path,
                    turns,
                    cut: true,
                });
                continue;
            }
            Err(e) => return Err(e),
        };
        turns.push(show_reference(&obs));
        let n = obs.choices.len();
        if n == 0 || path.len() >= lim.depth || out.len() + todo.len() >= lim.leaves {
            out.push(Leaf {
                path,
                turns,
                cut: false,
            });
            continue;
        }
        for i in (0..n).rev() {
            let mut q = p.clone();
            let o = q.choose(i);
            states += 1;
            let mut path = path.clone();
            path.push(i);
            todo.push((q, o, path, turns.clone()));
        }
    }
    Ok((out, states))
}

pub enum Verdict {
    Same {
        states: u64,
        leaves: u64,
    },
    Differs(String),
    Open,
    /// The reference can't play it: a defect of the generator.
    Bad(String),
}

fn check(src: &str, lim: &Limits) -> Verdict {
    let st = match refink::parse(src) {
        Ok(s) => s,
        Err(e) => return Verdict::Bad(format!("parse: {e}")),
    };
    let (leaves, states) = match paths(&st, lim) {
        Ok(l) => l,
        // What it means is left open.
        Err(e) if e.starts_with("open:") => return Verdict::Open,
        Err(e) => return Verdict::Bad(e),
    };
    let json = match catch(|| Compiler::new().compile(src)) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => return Verdict::Differs(format!("it does not compile: {e}")),
        Err(e) => return Verdict::Differs(format!("the compiler panics: {e}")),
    };
    let vars: Vec<String> = {
        let mut v: Vec<String> = st.vars.iter().map(|v| v.0.clone()).collect();
        v.sort();
        v
    };
    let mut counted = Vec::new();
    for k in &st.knots {
        counted.push(k.name.clone());
        for t in &k.stitches {
            counted.push(format!("{}.{}", k.name, t.name));
        }
    }
    for l in &leaves {
        let r = catch(|| -> Result<(), String> {
            bladeink::verif::set_initial_seed(Some(1));
            bladeink::verif::set_fuel(Some(FUEL));
            let mut s = Story::new(&json).map_err(|e| format!("it does not load: {e}"))?;
            for (i, want) in l.turns.iter().enumerate() {
                if i > 0 {
                    s.choose_choice_index(l.path[i - 1])
                        .map_err(|e| format!("path {:?}: choice {i} fails: {e}", l.path))?;
                }
                bladeink::verif::set_fuel(Some(FUEL));
                let got = real_turn(&mut s, &vars, &counted);
                if got != *want {
                    return Err(format!(
                        "path {:?}, turn {i}\nwanted:\n{want}got:\n{got}",
                        &l.path[..i]
                    ));
                }
            }
            Ok(())
        });
        bladeink::verif::set_fuel(None);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Verdict::Differs(e),
            Err(e) => return Verdict::Differs(format!("panic on path {:?}: {e}", l.path)),
        }
    }
    Verdict::Same {
        states,
        leaves: leaves.len() as u64,
    }
}

pub fn play_reference(src: &str, depth: usize) -> Result<(), String> {
    let lim = Limits { depth, leaves: 60 };
    let st = refink::parse(src)?;
    for l in paths(&st, &lim)?.0 {
        println!("path {:?}{}", l.path, if l.cut { " (endless)" } else { "" });
        for t in &l.turns {
            println!("{t}");
        }
    }
    match check(src, &lim) {
        Verdict::Same { .. } => println!("same"),
        Verdict::Open => println!("open"),
        Verdict::Differs(d) => println!("DIFFERS: {d}"),
        Verdict::Bad(b) => println!("BAD: {b}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- generator

const HEAD: &str = "VAR x = 0\nVAR y = 2\nVAR s = \"q\"\nVAR b = true\n";

/// Flows added where they are referred to.
const AUX: [(&str, &str); 17] = [
    ("k", "== k\nat k {k}\n-> END\n"),
    (
        "kk",
        "== kk\nkk {kk} {kk.one} {kk.two}\n-> two\n= one\nin one {one}\n-> DONE\n= two\nin two {kk.two} {kk}\n-> kk.one\n",
    ),
    (
        "kst",
        "== kst\n= first\nfirst {kst} {first}\n-> END\n= second\nsecond\n-> first\n",
    ),
    ("t", "== t\nin t {t}\n->->\n"),
    ("tx", "== tx\n~ x = x + 10\n->->\n"),
    ("tp", "== tp(p)\nwith {p}\n~ p = p + 1\n~ x += p\n->->\n"),
    ("tt", "== tt\ntt in -> t -> t ->\ntt out\n->->\n"),
    ("tover", "== tover\nover\n->-> k\n"),
    (
        "tc",
        "== tc\n* [in] tc in\n+ out {tc}\n    tc out\n- (tcg) ->->\n",
    ),
    (
        "th",
        "== th\n* th one {th}\n    picked th\n    -> fin\n+ [th two]\n    -> fin\n",
    ),
    ("thl", "== thl\nthread line\n~ x++\n-> DONE\n"),
    (
        "thp",
        "== thp(p)\n+ thp {p}\n    picked {p} {x}\n    -> fin\n",
    ),
    ("fin", "== fin\nfin {x} {fin}\n-> END\n"),
    ("f", "== function f(n)\n~ x += n\n~ return x * 2\n"),
    ("g", "== function g()\ngee {x}\n"),
    ("h", "== function h(ref r)\n~ r = r * 2 + 1\n"),
    (
        "rec",
        "== function rec(n)\n{ n <= 0:\n    ~ return 1\n}\n~ return n * rec(n - 1)\n",
    ),
];

fn mentions(src: &str, name: &str) -> bool {
    let mut from = 0;
    while let Some(i) = src[from..].find(name) {
        let a = from + i;
        let e = a + name.len();
        let word = |c: char| c.is_alphanumeric() || c == '_';
        let before = src[..a].chars().next_back().unwrap_or(' ');
        let after = src[e..].chars().next().unwrap_or(' ');
        if !word(before) && !word(after) {
            // in code, not in text
            let pre = src[..a].trim_end();
            if pre.ends_with("->")
                || pre.ends_with("<-")
                || after == '('
                || before == '{'
                || before == '(' && pre.ends_with('(') && !pre.ends_with(" (") && after == ')'
            {
                return true;
            }
            if after == '.' && name.len() > 1 {
                return true;
            }
        }
        from = e;
    }
    false
}

fn assemble(main: &str) -> String {
    let mut src = format!("{HEAD}{main}\n");
    let mut used = [false; AUX.len()];
    loop {
        let mut more = false;
        for (i, (n, t)) in AUX.iter().enumerate() {
            if !used[i] && mentions(&src, n) {
                used[i] = true;
                src += t;
                more = true;
            }
        }
        if !more {
            return src;
        }
    }
}

fn indent(t: &str, by: &str) -> String {
    t.lines()
        .map(|l| {
            if l.is_empty() {
                String::new()
            } else {
                format!("{by}{l}")
            }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Statements possible in a function too.
const PLAIN: [&str; 27] = [
    "one",
    "two <>",
    "<> three",
    "~ x++",
    "x is {x}",
    "{x > 1: big|small}",
    "{b:yes}",
    "{a|b}c",
    "{&p|q}",
    "{!u|v}",
    "{x > 0:\n    deep {x}\n}",
    "{x == 1:\n    is one\n- else:\n    ~ x = 1\n}",
    "{\n- x == 0:\n    nought\n- x < 2:\n    ~ y = y - 1\n    less\n- else:\n    more\n}",
    "{x:\n- 0: zero\n- 1: uno\n- else: many\n}",
    "{stopping:\n- s1\n- s2\n    s2b\n}",
    "{cycle:\n- ~ x = x + 1\n- c2\n}",
    "~ x = f(y)",
    "r {f(1)} r",
    "~ g()",
    "<{g()}> ok",
    "~ h(y)",
    "lit # tag {x}",
    "# above",
    "~ s = s + \"{x}\"",
    "{s}{y}",
    "~ temp q = x * 3 - 1\n{q} {q == 2:t|e}",
    "~ b = not b && x < 3 || y == 2",
];

const FLOW: [&str; 17] = [
    "go -> k",
    "-> kk",
    "{x == 0:-> kst}",
    "-> t ->",
    "mid -> t ->",
    "{x > 0:see -> t ->}",
    "-> tp(x + 1) ->",
    "-> tx -> tt ->",
    "-> tover ->",
    "<- th",
    "<- thl",
    "<- thp(x)",
    "-> tc ->",
    "ts {TURNS_SINCE(-> t)} {t}",
    "cc {CHOICE_COUNT()} {TURNS()}",
    "{y > 1:\n    -> fin\n}",
    "-> END",
];

/// More forms, combined with each other only in the thorough tier.
const MORE: [&str; 93] = [
    "{x > 0: {y > 1: a|b}|c}",
    "{a|{b|c}|d}",
    "{x == 0:go -> k}",
    "{x > 5:-> k|stay}",
    "{!once -> k|-> fin}",
    "{stop|-> k}",
    "{x:{y}}",
    "{&{x}|{y > 1:big}|z} end",
    "~ s = \"{x > 0:a|b}{y}\"\n[{s}]",
    "{s == \"q\": eq|ne} {s != \"q0\"}",
    "{s + y + \"!\"} {\"lit\"}",
    "{\"a{x}b\" == \"a0b\":eq}",
    "{s ? \"q\"} {s !? \"z\"}",
    "{1 + 2 * 3 - 4 / 2} {7 % 4} {7 mod 4}",
    "{x - 1 + 2} {10 - 2 - 3} {3 * 3 / 2} {7 / 2 * 2} {9 % 4 * 2} {2 * 9 % 4}",
    "{(x + 1) * (y - 3)} {-y} {-(x - 3)} {- 2 + 5}",
    "~ b = x == 0 && y == 2 || b\n{b} {x == 0 && y == 2} {not x} {not (x == 1)} {x == 1 or y > 5}",
    "{!shown once} {x == 0 or b: either|none} {x > 0 || y > 1 && not b: deep}",
    "{true} {false} {1 == 1} {b + 1} {b == 1} {true + true} {x == true}",
    "{x >= 1} {x <= 0} {x != 2} {x < y} {y > x}",
    "{MIN(x, 3)} {MAX(x, 3)}",
    "{x} <> {y}",
    "a <>{x}<> b",
    "{x > 0:<>in} out",
    "{y > 1:in<>}\n out",
    "<>\nlone glue",
    "{b:x <>|y}\nz",
    "-> t -> k",
    "-> t -> t ->",
    "say -> t -> t ->\nafter",
    "{b:-> t ->}after {t}",
    "{t > 1:t seen {t}|no t}",
    "{x > 0:\n    -> t ->\n    then {t}\n- else:\n    <- thl\n    els\n}",
    "{stopping:\n- -> t ->\n- two -> t ->\n- ~ x = 7\n- <- thl\n}",
    "{once:\n- first\n- second <>\n}\ntail",
    "{cycle:\n-\n    {x > 0:in cycle}\n    ~ y++\n- b # tg\n}",
    "{x > 0:\n    {y > 2:\n        deep\n    - else:\n        shallow\n    }\n    more\n- else:\n    {stopping:\n    - i\n    - j\n    }\n}",
    "{\n- x > 0 && y > 2:\n    A\n    B\n- else:\n    C {x}\n    -> t ->\n    D\n}",
    "{\n- x > 0: same line\n- y > 1: ~ x = x + 2\n- else: -> k\n}",
    "{y:\n- 1: ~ y = 5\n- 2:\n    ~ y = y + 1\n    two\n- 3: three <>\n- else:\n}\nafter switch",
    "{x + y:\n- x: eqx\n- y:\n    eqy\n    {y}\n}",
    "{s:\n- \"q\": q!\n- \"z\": z!\n}",
    "{b:\n- true: yes\n- false: no\n}",
    "pre {x > 0:mid} post",
    "{x > 0:one}{x > 1:two}{x == 0:nil}",
    "a{&1|2|3}b{!4|5}c{6|7}d",
    "{||third}",
    "{&|even}",
    "{one|}rest",
    "{f(1) > 3: gt|le} {x}",
    "{f(f(1))} {x}",
    "{f(x) + f(y)} {x}",
    "{g()}{g()}",
    "a {g()} b {g()}.",
    "{rec(4)}",
    "~ x = rec(3) - f(1)",
    "~ h(x)\n~ h(x)\n{x}",
    "~ temp w = f(2)\n~ w = w + 1\n~ w++\n~ w -= 2\n{w} {x}",
    "~ temp v = y\n{v > 1:\n    ~ temp u = v * 2\n    {u}\n}\n{v}",
    "~ f(3)",
    "~ x += y * 2\n~ y -= 1\n~ x--\n{x} {y}",
    "~ b = x == 0\n{b}",
    "~ b = !b\n{b: on|off}",
    "line # t1 # t2",
    "# pre1\n# pre2\nline",
    "line {x} #t{x > 0:a|b}c # {y}",
    "#only {x}",
    "text #tag\n#next\nmore # end",
    "{b:tagged # in}",
    "{a # ta|b # tb}",
    "{y > 1:\n    # blocktag\n    body # after\n}",
    "<- th\n<- th",
    "<- thp(x + 1)\n<- thp(5)",
    "{x == 0:\n    <- th\n}",
    "-> tp(f(1)) ->",
    "-> tp(1) -> tp(2) ->\n{x}",
    "-> tc -> k",
    "in -> tc ->\nback {x}",
    "-> tt ->\n-> tover ->\nunreached",
    "{TURNS_SINCE(-> k)} {TURNS_SINCE(-> t) == -1} {TURNS_SINCE(-> t) >= 0:since}",
    "{TURNS()} {TURNS() > 0:later|first}",
    "{READ_COUNT(-> t)} {t + 1} {t == 0}",
    "{kk.one} {kk.two > 0}",
    "// comment\nafter comment // trailing\n/* block\ncomment */ end",
    "esc \\{ \\} \\# \\| \\<> \\-> x",
    "  spaced   out \t text  ",
    "tabs\tand  {x}  spaces {x} .",
    "TODO: nothing\ntodo done",
    "{x} {x}{x}",
    "{k} {k > 0: was} -> k",
    "é ü – “q” {x} 日本",
    "({x}) [y] a-b 1/2 50% a*b \"quoted\" it's",
    "a: b {x}: c",
];

/// (name, text with `@` for the statements, indentation there, flow statements allowed)
const CONTEXTS: [(&str, &str, &str, bool); 9] = [
    ("top", "@\nlast {x}\n-> END", "", true),
    ("open", "@", "", true),
    (
        "loop",
        "-> hub\n== hub\n@\n+ again -> hub\n* once {x} -> hub\n+ {x > 1} [out] -> END",
        "",
        true,
    ),
    (
        "gather loop",
        "start\n- (top)\n@\n+ more {top}\n* [less] lesser\n- gath {x} {top}\n{top < 4:-> top}\n-> END",
        "",
        true,
    ),
    (
        "choice",
        "ask\n* (c1) first\n    @\n* second[!], done -> aft\n- joined {x} {c1}\n+ next # tagged\n    @\n- end\n-> END\n== aft\nafterwards\n-> END",
        "    ",
        true,
    ),
    (
        "tunnel",
        "before\n-> tun ->\nafter {x}\n-> tun ->\n-> END\n== tun\n@\n->->",
        "",
        true,
    ),
    (
        "thread",
        "m1\n<- thr\nm2 {x}\n* main choice\n    @\n- end {x}\n-> DONE\n== thr\n@\n* thr choice {x}\n    -> fin",
        "",
        true,
    ),
    (
        "function",
        "a {fn()} b {fn()}\n~ fn()\n~ temp z = fn()\nend {z} {x}\n-> END\n== function fn()\n@\n~ return 5",
        "",
        false,
    ),
    (
        "branch",
        "-> kb\n== kb\nk {kb}\n{ y > 1:\n    @\n- else:\n    other\n}\njoin {x}\n* [on] -> kb2\n== kb2\n~ y = y - 1\n-> kb",
        "    ",
        true,
    ),
];

fn in_context(ctx: &str, ind: &str, stmts: &[&str]) -> String {
    let mut out = String::new();
    for l in ctx.lines() {
        if l.trim() == "@" {
            for s in stmts {
                out += &indent(s, ind);
                out.push('\n');
            }
        } else {
            out += l;
            out.push('\n');
        }
    }
    out
}

fn run_one(r: &Report, fam: &str, key: &str, src: &str, lim: &Limits) {
    if let Ok(p) = std::env::var("MC_PROG")
        && !key.contains(&p)
    {
        return;
    }
    r.count(&format!("programs: {fam}"), 1);
    match check(src, lim) {
        Verdict::Same { states, leaves } => {
            r.states(states);
            r.transitions(states);
            r.traces(leaves);
            r.outcome(key);
        }
        Verdict::Open => r.count(&format!("programs without a meaning: {fam}"), 1),
        Verdict::Differs(d) => {
            r.violation(&format!("{fam}: {key}"), format!("{d}\nsource:\n{src}"))
        }
        Verdict::Bad(b) => r.engine_error(format!("{fam}: {key}: {b}\n{src}")),
    }
}

/// Whether a statement may stand in a function.
fn functional(s: &str) -> bool {
    !s.contains("->") && !s.contains("<- ")
}

fn statements(r: &Report, fam: &str, n: usize, more: bool, lim: &Limits) {
    for (name, ctx, ind, flow) in CONTEXTS {
        let mut pool: Vec<&str> = PLAIN.iter().chain(FLOW.iter()).copied().collect();
        if more {
            pool.extend(MORE);
        }
        pool.retain(|s| flow || functional(s));
        let k = pool.len() as u64;
        par_range(r, k.pow(n as u32), 16, |i| {
            let mut i = i;
            let mut v = Vec::new();
            for _ in 0..n {
                v.push(pool[(i % k) as usize]);
                i /= k;
            }
            let src = assemble(&in_context(ctx, ind, &v));
            run_one(r, fam, &format!("{name}: {v:?}"), &src, lim);
        });
        r.note(format!("{fam}: {name}: {} programs", k.pow(n as u32)));
    }
}

// ---------------------------------------------------------------- weaves

/// Choice lines behind their bullet; the first character says once-only or sticky.
const CHOICES: [&str; 46] = [
    "* plain",
    "+ sticky",
    "* [only]",
    "+ [sonly {x}]",
    "* start[mid]end",
    "+ say[.], end {x}",
    "* [.]end",
    "* {x > 0} cond",
    "+ {x == 0} {y > 1} two",
    "* (la) labelled {la}",
    "+ (la) {la < 2} limited",
    "* {not la} (lb) never",
    "* -> fin",
    "* ->",
    "+ ->\n@fall {x}",
    "+ go -> k",
    "* [only] -> k",
    "* say[!] more -> fin",
    "* {CHOICE_COUNT() < 1} few",
    "+ {CHOICE_COUNT() > 0} many",
    "* value {x} {y > 1:yes|no}",
    "+ \\ {&one|two} seq",
    "+ s[{!a|b}]e{x|y}",
    "* tagged # t",
    "+ ta # t1 [tb # t2] tc # t3",
    "+ [only # bt]",
    "* glue <>",
    "+ [b] <> joined",
    "+ tun -> t ->",
    "* [tun] -> t -> tx ->",
    "* {b} {s == \"q\"} conds",
    "+ {TURNS_SINCE(-> t) < 0} since",
    "+ {f(1) > 3} called",
    "+ {x > -1} and[{x}{&o|p}] end",
    "* \\ {x > 0:big}",
    "+ w {x > 0:big|} [here]",
    "* {x == 0 && y > 1} and",
    "* {hub} seen -> t ->",
    "+ {not hub} unseen",
    "* \"Quoted[.\"],\" he said",
    "* esc \\[br\\] \\* - x",
    "* (lc) [l] r -> fin",
    "+ {x < 3} [inc] <>",
    "+ {TURNS() < 2} early {TURNS()}",
    "* multi {x}{y} {s}",
    "+ {la} after la",
];

/// Bodies of choices.
const BODIES: [&str; 14] = [
    "",
    "body {x}",
    "~ x++",
    "-> fin",
    "# bt\ntext",
    "-> t ->\nback",
    "{x > 0:\n    pos\n- else:\n    ~ x = 2\n}",
    "<- thl\non",
    "<> glued",
    "~ x = f(y)\nthen {x}\n-> k",
    "{&p|q} cyc",
    "{y > 1:-> t ->}",
    "{stopping:\n- s1\n- ~ x = 7\n}",
    "line one\nline two <>\nline three",
];

/// Gathers and what follows them; `-` is the marker.
const GATHERS: [&str; 24] = [
    "",
    "-",
    "- gathered {x}",
    "- (ga) text {ga}",
    "- (ga)\ntext {ga} {x}",
    "-\nnext line",
    "- ~ x = 9\nset {x}",
    "- -> k",
    "- {x > 0:a|b}",
    "- <- th",
    "- <- thl\nmore",
    "- # gt\ntext",
    "- text # gt",
    "- -> t ->\nback",
    "- <> glued",
    "- {x > 0:\n    pos\n- else:\n    ~ x = 2\n}\njoin {x}",
    "- {stopping:\n- s1\n- s2\n}",
    "- * inner\n    in {x}\n- join",
    "- (ga) * [inner] i\n+ other\n- join {ga}",
    "- {y > 1: -> fin}\nstay",
    "- ~ temp w = x + 1\n{w}",
    "- TODO: note\nok",
    "- (ga)\n{ga < 3:-> ga}\nend {ga}",
    "- one\n- two {x}\n- (gc) three",
];

/// Contexts of weaves.
const WEAVES: [(&str, &str); 9] = [
    ("loose", "-> hub\n== hub\nhub\n@\n"),
    ("top", "intro\n@\n"),
    ("ended", "@\n~ x++\nlast {x}\n-> END"),
    ("knot", "-> hub\n== hub\nhub {hub} {x}\n@\n~ x++\n-> hub"),
    ("loop", "- (top)\n@\n{top < 4:-> top}\n-> END"),
    (
        "tunnel",
        "-> tun ->\nbetween {x}\n-> tun ->\n-> END\n== tun\n@\n->->",
    ),
    (
        "tunnel said",
        "-> tun ->\n-> tun ->\n== tun\nsaid {tun}\n@\n->->",
    ),
    (
        "thread",
        "<- thr\nm {x}\n* main\n    ~ x++\n- end\n-> DONE\n== thr\n@\n-> fin",
    ),
    (
        "stitch",
        "-> hub.st\n== hub\n= st\n@\n-> other\n= other\no {hub} {st} {other}\n-> st",
    ),
];

/// Writing styles: indentation of choices and bodies at a depth, and of gathers.
#[derive(Clone, Copy, PartialEq)]
enum Style {
    Indented,
    Flat,
}

/// A choice at depth `d` with its body.
fn put_choice(out: &mut String, form: &str, body: &str, d: usize, style: Style) {
    let (c, g) = match style {
        Style::Indented => ("    ".repeat(d - 1), "    ".repeat(d)),
        Style::Flat => (String::new(), String::new()),
    };
    let bullet = &form[..1];
    let mut lines = form[1..].lines();
    *out += &format!(
        "{c}{}{}\n",
        vec![bullet; d].join(" "),
        lines.next().unwrap_or("")
    );
    for l in lines {
        *out += &format!("{g}{}\n", l.trim_start_matches('@'));
    }
    if !body.is_empty() {
        *out += &indent(body, &g);
        out.push('\n');
    }
}

/// A gather at depth `d`.
fn put_gather(out: &mut String, form: &str, d: usize, style: Style) {
    if form.is_empty() {
        return;
    }
    let c = match style {
        Style::Indented => "    ".repeat(d - 1),
        Style::Flat => String::new(),
    };
    let mut block = 0;
    for l in form.lines() {
        let t = l.trim_start();
        let first = t.chars().next().unwrap_or(' ');
        if block == 0 && first == '-' && !t.starts_with("->") {
            // A choice on the gather's line has the gather's depth.
            let mut rest = t[1..].to_string();
            if let Some(i) = rest.find(['*', '+'])
                && (rest[..i].trim().is_empty() || rest[..i].trim().ends_with(')'))
            {
                let b = rest[i..=i].to_string();
                rest.replace_range(i..=i, &vec![b.as_str(); d].join(" "));
            }
            *out += &format!("{c}{}{rest}\n", vec!["-"; d].join(" "));
        } else if block == 0 && (first == '*' || first == '+') {
            *out += &format!("{c}{}{}\n", vec![&t[..1]; d].join(" "), &t[1..]);
        } else {
            *out += &format!("{c}{l}\n");
        }
        for ch in l.chars() {
            block += match ch {
                '{' => 1,
                '}' => -1,
                _ => 0,
            };
        }
    }
}

/// Labels need to be unique in their flow.
fn unique_labels(parts: &[&str]) -> bool {
    for l in ["(la)", "(lb)", "(lc)", "(ga)", "(gc)"] {
        if parts.iter().map(|p| p.matches(l).count()).sum::<usize>() > 1 {
            return false;
        }
    }
    // What is referred to needs to exist.
    let text = parts.join("\n");
    for n in ["la", "ga"] {
        let used = mentions_word(&text.replace(&format!("({n})"), ""), n);
        if used && !text.contains(&format!("({n})")) {
            return false;
        }
    }
    true
}

fn mentions_word(t: &str, n: &str) -> bool {
    t.match_indices(n).any(|(i, _)| {
        let w = |c: char| c.is_alphanumeric() || c == '_';
        !t[..i].chars().next_back().is_some_and(w)
            && !t[i + n.len()..].chars().next().is_some_and(w)
    })
}

fn run_weave(r: &Report, fam: &str, ctx: usize, key: &str, weave: &str, lim: &Limits) {
    let (name, text) = WEAVES[ctx];
    // An invisible choice first in a flow enters the flow again: the language leaves that open.
    if weave[1..].trim_start().starts_with("->") && ["tunnel", "loop", "stitch"].contains(&name) {
        return;
    }
    if mentions_word(weave, "hub") && !text.contains("hub") {
        return;
    }
    let src = assemble(&text.replace("@\n", weave));
    run_one(r, fam, &format!("{name}: {key}"), &src, lim);
}

const STYLES: [Style; 2] = [Style::Indented, Style::Flat];

fn weaves(r: &Report, lim: &Limits) {
    // One choice with every body and every gather.
    let (nc, nb, ng) = (CHOICES.len(), BODIES.len(), GATHERS.len());
    let ctx = contexts(r.tier.pick(&["knot", "tunnel", "top"], &[]));
    par_range(r, (nc * nb * ng * 2) as u64, 8, |i| {
        let i = i as usize;
        let (f, b, g, st) = (i % nc, i / nc % nb, i / nc / nb % ng, i / nc / nb / ng);
        let (f, b, g) = (CHOICES[f], BODIES[b], GATHERS[g]);
        if !unique_labels(&[f, b, g]) {
            return;
        }
        let mut w = String::new();
        put_choice(&mut w, f, b, 1, STYLES[st]);
        put_gather(&mut w, g, 1, STYLES[st]);
        for x in ctx.iter().copied() {
            run_weave(
                r,
                "weave of one",
                x,
                &format!("{f:?} {b:?} {g:?} {st}"),
                &w,
                lim,
            );
        }
    });
}

/// Bodies and gathers for longer weaves.
const BODIES2: [&str; 6] = [
    "",
    "body {x}",
    "~ x++",
    "-> fin",
    "-> t ->\nback",
    "<> glued",
];
const GATHERS2: [&str; 6] = [
    "",
    "-",
    "- gathered {x}",
    "- (ga) text {ga}",
    "- ~ x = 5",
    "- * inner\n    in {x}\n- join",
];
/// Choices for longer weaves.
const CHOICES2: [&str; 12] = [
    "* plain",
    "+ sticky",
    "+ start[mid]end",
    "* {x > 0} cond",
    "* (la) labelled {la}",
    "* ->",
    "+ go -> k",
    "+ s[{!a|b}]e{x|y}",
    "* [only # bt]",
    "+ [b] <> joined",
    "+ [tun] -> t ->",
    "+ {la} after la",
];

/// Calls `f` with every tuple of indices below the sizes.
fn product(r: &Report, sizes: &[usize], f: impl Fn(&[usize]) + Sync) {
    let n: u64 = sizes.iter().map(|s| *s as u64).product();
    par_range(r, n, 16, |i| {
        let mut i = i as usize;
        let mut v = Vec::with_capacity(sizes.len());
        for s in sizes {
            v.push(i % s);
            i /= s;
        }
        f(&v);
    });
}

/// Contexts by name.
fn contexts(names: &[&str]) -> Vec<usize> {
    WEAVES
        .iter()
        .enumerate()
        .filter(|(_, w)| names.is_empty() || names.contains(&w.0))
        .map(|(i, _)| i)
        .collect()
}

fn weaves_of_two(r: &Report, lim: &Limits) {
    let nb = r.tier.pick(3, BODIES2.len());
    let ng = r.tier.pick(4, GATHERS2.len());
    let ctx = contexts(r.tier.pick(&["knot"], &[]));
    let nc = CHOICES.len();
    product(r, &[ng, nb, nb, 2, nc, nc], |v| {
        let (g, b1, b2) = (GATHERS2[v[0]], BODIES2[v[1]], BODIES2[v[2]]);
        let (f1, f2) = (CHOICES[v[4]], CHOICES[v[5]]);
        if !unique_labels(&[f1, f2, b1, b2, g]) {
            return;
        }
        let mut w = String::new();
        let st = STYLES[v[3]];
        put_choice(&mut w, f1, b1, 1, st);
        put_choice(&mut w, f2, b2, 1, st);
        put_gather(&mut w, g, 1, st);
        for x in &ctx {
            run_weave(
                r,
                "weave of two",
                *x,
                &format!("{v:?} {f1:?} {b1:?} {f2:?} {b2:?} {g:?}"),
                &w,
                lim,
            );
        }
    });
}

fn weaves_of_three(r: &Report, lim: &Limits) {
    let n = CHOICES2.len();
    let ng = r.tier.pick(3, GATHERS2.len());
    let ctx = contexts(
        r.tier
            .pick(&["knot"], &["top", "knot", "tunnel said", "thread"]),
    );
    product(r, &[ng, 2, n, n, n], |v| {
        let g = GATHERS2[v[0]];
        let f: Vec<&str> = v[2..].iter().map(|i| CHOICES2[*i]).collect();
        if !unique_labels(&[f[0], f[1], f[2], g]) {
            return;
        }
        let mut w = String::new();
        let st = STYLES[v[1]];
        for (i, c) in f.iter().enumerate() {
            put_choice(&mut w, c, ["b{x}", "", "~ x++"][i], 1, st);
        }
        put_gather(&mut w, g, 1, st);
        for x in &ctx {
            run_weave(
                r,
                "weave of three",
                *x,
                &format!("{v:?} {f:?} {g:?}"),
                &w,
                lim,
            );
        }
    });
}

/// Two sections with two gathers.
fn weave_sections(r: &Report, lim: &Limits) {
    let (nc, ng) = (CHOICES2.len(), GATHERS.len());
    let ctx = contexts(
        r.tier
            .pick(&["top"], &["top", "knot", "tunnel said", "stitch"]),
    );
    product(r, &[ng, r.tier.pick(4, ng), nc, nc, 2], |v| {
        let (g1, g2) = (GATHERS[v[0]], GATHERS[v[1]]);
        let (f1, f2) = (CHOICES2[v[2]], CHOICES2[v[3]]);
        if !unique_labels(&[f1, f2, g1, g2]) {
            return;
        }
        let mut w = String::new();
        let st = STYLES[v[4]];
        put_choice(&mut w, f1, "first {x}", 1, st);
        put_choice(&mut w, "+ alt", "~ x++", 1, st);
        put_gather(&mut w, g1, 1, st);
        put_choice(&mut w, f2, "second {x}", 1, st);
        put_choice(&mut w, "+ or", "~ y++", 1, st);
        put_gather(&mut w, g2, 1, st);
        for x in &ctx {
            run_weave(
                r,
                "weave sections",
                *x,
                &format!("{v:?} {f1:?} {g1:?} {f2:?} {g2:?}"),
                &w,
                lim,
            );
        }
    });
}

/// Choices in choices, with gathers at both depths.
fn nested_weaves(r: &Report, lim: &Limits) {
    let (nc, n2, ng) = (CHOICES.len(), CHOICES2.len(), GATHERS.len());
    let ctx = contexts(
        r.tier
            .pick(&["knot"], &["top", "knot", "tunnel said", "thread"]),
    );
    product(r, &[2, r.tier.pick(6, n2), ng, nc, 3, 2], |v| {
        let st = STYLES[v[0]];
        let (outer, inner, gi) = (CHOICES2[v[1]], CHOICES[v[3]], GATHERS[v[2]]);
        let go = ["", "- gathered {x}", "- (gb) out {gb}"][v[4]];
        if !unique_labels(&[outer, inner, gi, go]) {
            return;
        }
        let mut w = String::new();
        put_choice(&mut w, outer, "before {x}", 1, st);
        put_choice(&mut w, inner, "in {x}", 2, st);
        put_choice(&mut w, "+ inner two", "~ x++", 2, st);
        put_gather(&mut w, gi, 2, st);
        if v[5] == 1 {
            put_choice(&mut w, "+ last of outer", "~ y++", 1, st);
        }
        put_gather(&mut w, go, 1, st);
        for x in &ctx {
            run_weave(
                r,
                "nested weave",
                *x,
                &format!("{v:?} {outer:?} {inner:?} {gi:?} {go:?}"),
                &w,
                lim,
            );
        }
    });
}

/// Three depths.
fn deep_weaves(r: &Report, lim: &Limits) {
    let (n2, ng) = (CHOICES2.len(), GATHERS2.len());
    let ctx = contexts(
        r.tier
            .pick(&["knot"], &["top", "knot", "tunnel said", "thread"]),
    );
    let n = r.tier.pick(5, n2);
    product(r, &[2, n, n, n2, ng, ng, r.tier.pick(2, 4), 2], |v| {
        let st = STYLES[v[0]];
        let f = [CHOICES2[v[1]], CHOICES2[v[2]], CHOICES2[v[3]]];
        let (g3, g2, g1) = (GATHERS2[v[4]], GATHERS2[v[5]], GATHERS2[[2, 0, 3, 5][v[6]]]);
        if !unique_labels(&[f[0], f[1], f[2], g3, g2, g1]) {
            return;
        }
        let mut w = String::new();
        put_choice(&mut w, f[0], "one {x}", 1, st);
        put_choice(&mut w, f[1], "", 2, st);
        put_choice(&mut w, f[2], "three", 3, st);
        put_choice(&mut w, "* three b", "~ x++", 3, st);
        put_gather(&mut w, g3, 3, st);
        if v[7] == 1 {
            put_choice(&mut w, "+ two b", "~ y++", 2, st);
        }
        put_gather(&mut w, g2, 2, st);
        put_gather(&mut w, g1, 1, st);
        for x in &ctx {
            run_weave(
                r,
                "deep weave",
                *x,
                &format!("{v:?} {f:?} {g3:?} {g2:?} {g1:?}"),
                &w,
                lim,
            );
        }
    });
}

/// Blocks of logic with choices in them.
const BLOCKS: [&str; 9] = [
    "{x == 0:\n    @\n}",
    "{x > 5:\n    text\n- else:\n    @\n}",
    "{\n- x == 0:\n    said\n    @\n- else:\n    ~ x = 0\n}",
    "{stopping:\n- first\n    @\n- second\n}",
    "{cycle:\n- one\n- two\n    @\n}",
    "{x:\n- 0:\n    @\n- 1: uno\n}",
    "{y > 1:\n    {x == 0:\n        @\n    }\n    after\n}",
    "{once:\n- said\n    @\n}",
    "{\n- x > 4: big\n- else:\n    @\n}",
];

fn choices_in_blocks(r: &Report, lim: &Limits) {
    let ctx = contexts(r.tier.pick(
        &["knot"],
        &["top", "knot", "tunnel said", "thread", "stitch"],
    ));
    let bodies = [
        "-> fin",
        "body {x} -> k",
        "~ x++\n-> fin",
        "* * deeper\n    d -> fin\n* * [other]\n    o -> k",
    ];
    let seconds = [
        "",
        "* two -> fin",
        "+ {x == 0} [b] bb -> fin",
        "* -> fin",
        "+ s[{!a|b}]e -> k",
    ];
    let after = [
        "",
        "* after",
        "text {x}\n+ after {x}\n- join {x}",
        "{x == 0:\n    + more -> fin\n}\n+ last",
        "- gather {x}",
    ];
    product(
        r,
        &[
            BLOCKS.len(),
            bodies.len(),
            seconds.len(),
            after.len(),
            CHOICES.len(),
        ],
        |v| {
            let (block, body, second, after) =
                (BLOCKS[v[0]], bodies[v[1]], seconds[v[2]], after[v[3]]);
            let form = CHOICES[v[4]];
            if !unique_labels(&[form, body, second, after]) {
                return;
            }
            let mut inner = String::new();
            put_choice(&mut inner, form, body, 1, Style::Indented);
            if !second.is_empty() {
                put_choice(&mut inner, second, "", 1, Style::Indented);
            }
            let mut w = String::new();
            for l in block.lines() {
                if let Some(i) = l.find('@') {
                    w += &indent(&inner, &" ".repeat(i));
                } else {
                    w += l;
                }
                w.push('\n');
            }
            if !after.is_empty() {
                w += after;
                w.push('\n');
            }
            for x in &ctx {
                run_weave(
                    r,
                    "choices in blocks",
                    *x,
                    &format!("{v:?} {block:?} {form:?} {body:?} {second:?} {after:?}"),
                    &w,
                    lim,
                );
            }
        },
    );
}

/// Diverts, tunnels and threads to the labels of a weave, from everywhere.
const JUMPS: &str = "-> hub
== hub
hub {hub} {la} {lb} {lc} {gb} {ga}
@0
* (la) A[a]aa {x}
    in a
    * * (lc) C[c]cc
        in c {x}
        @1
    + + [d] D
    - - (gb) inner {gb}
    @2
+ (lb) B
    ~ x++
    @3
- (ga) outer {ga} {TURNS_SINCE(-> lc)}
@4
+ [on] -> other
* [end] -> END
== other
other {hub.la} {hub.lc} {hub.gb} {hub.ga} {TURNS_SINCE(-> hub.ga)}
@5
-> END";

fn jumps(r: &Report, lim: &Limits) {
    let near = [
        "la", "lb", "lc", "gb", "ga", "hub", "other", "hub.lc", "hub.ga",
    ];
    let far = [
        "hub.la", "hub.lb", "hub.lc", "hub.gb", "hub.ga", "hub", "other",
    ];
    let forms = [
        "~ x++\n{x < 4:-> #}",
        "~ x += 2\n{x < 5:go -> #}",
        "~ x += 3\n{x < 7:\n    <- #\n}",
    ];
    let n = near.len() * forms.len() + 1;
    let slot = |i: usize, slot: usize| -> Option<String> {
        if i == 0 {
            return Some(String::new());
        }
        let (t, f) = ((i - 1) % near.len(), (i - 1) / near.len());
        let names: &[&str] = if slot == 5 { &far } else { &near };
        Some(forms[f].replace('#', names.get(t)?))
    };
    let slots = r.tier.pick(2, 3);
    let mut sets: Vec<Vec<usize>> = Vec::new();
    for m in 0u32..64 {
        if m.count_ones() == slots {
            sets.push((0..6).filter(|i| m >> i & 1 == 1).collect());
        }
    }
    let mut sizes = vec![sets.len()];
    sizes.extend(std::iter::repeat_n(n, slots as usize));
    product(r, &sizes, |v| {
        let mut text: Vec<String> = vec![String::new(); 6];
        for (k, s) in sets[v[0]].iter().enumerate() {
            let Some(t) = slot(v[k + 1], *s) else { return };
            text[*s] = t;
        }
        let mut w = String::new();
        for l in JUMPS.lines() {
            match l.trim_start().strip_prefix('@') {
                Some(d) => {
                    let t = &text[d.parse::<usize>().unwrap()];
                    if !t.is_empty() {
                        w += &indent(t, &l[..l.len() - l.trim_start().len()]);
                        w.push('\n');
                    }
                }
                None => {
                    w += l;
                    w.push('\n');
                }
            }
        }
        run_one(r, "jumps", &format!("{text:?}"), &assemble(&w), lim);
    });
}

/// Knots and stitches diverting to one another by relative and absolute names.
fn flows(r: &Report, lim: &Limits) {
    let targets = ["a", "e", "a.p", "p", "t", "e.p", "e.u", "u", "a.t"];
    let how = ["-> #", "-> # ->\nback {x}", "<- #\nbeside"];
    let starts = ["-> a", "-> e.u", "-> a.t ->\nhome", "<- e\nroot"];
    let heads = ["in a {a} {x}\n", ""];
    let n = targets.len();
    product(
        r,
        &[
            n,
            n,
            n,
            n,
            how.len(),
            how.len(),
            r.tier.pick(2, starts.len()),
            r.tier.pick(1, heads.len()),
        ],
        |v| {
            let t = |i: usize, form: usize, here: &[&str]| -> Option<String> {
                let name = targets[v[i]];
                // A bare stitch name means one of this knot.
                if name.len() == 1 && name != "a" && name != "e" && !here.contains(&name) {
                    return None;
                }
                Some(format!(
                    "~ x++\n{{x > 5:-> END}}\n{}\n",
                    how[form].replace('#', name)
                ))
            };
            let (ha, hb) = (["p", "t"], ["p", "u"]);
            let (Some(j0), Some(j1), Some(j2), Some(j3)) = (
                t(0, v[4], &ha),
                t(1, v[5], &ha),
                t(2, v[4], &hb),
                t(3, v[5], &hb),
            ) else {
                return;
            };
            let src = format!(
                "{HEAD}{}\n-> END\n== a\n{}= p\nap {{a}} {{a.p}} {{p}}\n{j0}-> DONE\n= t\nat {{t}}\n{j1}-> DONE\n== e\nin e {{e}} {{e.p}}\n{j2}-> p\n= p\nbp {{p}} {{a.p}}\n->->\n= u\nbu {{u}}\n{j3}->->\n",
                starts[v[6]], heads[v[7]],
            );
            run_one(r, "flows", &format!("{v:?}"), &src, lim);
        },
    );
}

pub fn run(r: &Report) {
    let only = std::env::var("MC_ONLY").ok();
    let want = |f: &str| only.as_deref().is_none_or(|o| f.contains(o));
    let lim = Limits {
        depth: r.tier.pick(3, 4),
        leaves: r.tier.pick(24, 80),
    };
    if want("single") {
        statements(r, "single", 1, true, &lim);
    }
    if want("pairs") {
        statements(r, "pairs", 2, r.tier.pick(false, true), &lim);
    }
    type Family = fn(&Report, &Limits);
    let families: [(&str, Family); 9] = [
        ("blocks", choices_in_blocks),
        ("jumps", jumps),
        ("flows", flows),
        ("weave1", weaves),
        ("weave3", weaves_of_three),
        ("weave sections", weave_sections),
        ("weave nested", nested_weaves),
        ("weave deep", deep_weaves),
        ("weave2", weaves_of_two),
    ];
    for (name, f) in families {
        if want(name) {
            f(r, &lim);
        }
    }
    r.sample(json!(assemble(&in_context(
        CONTEXTS[2].1,
        "",
        &["<- th", "r {f(1)} r"]
    ))));
}
