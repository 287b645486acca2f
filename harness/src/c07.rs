//! C07: expressions evaluate as Ink specifies.
//!
//! The space of values is explored as a transition system: states are values, transitions apply
//! an operator or function to a value already reached and a leaf (on either side). An evaluator
//! written from the language rules, which shares no code with the runtime, predicts every
//! transition; the same expression is compiled and played, printed and stored.
use crate::{host::*, prog::*, util::*};
use bladeink::{story::Story, value_type::ValueType};
use std::collections::{BTreeMap, BTreeSet, HashMap};

type Items = BTreeMap<(String, String), i32>;

#[derive(Clone, Debug)]
enum Val {
    I(i32),
    F(f32),
    B(bool),
    S(String),
    /// The items, and the lists an empty list still belongs to.
    L(Items, BTreeSet<String>),
}
use Val::*;

/// Why an expression has no value.
type R = Result<Val, String>;

/// The declared lists.
const LISTS: &[(&str, &[(&str, i32)], &[&str])] = &[
    ("A", &[("a1", 1), ("a2", 2), ("a3", 3)], &["a2"]),
    ("B", &[("b1", 2), ("b2", 5), ("b3", 6)], &["b2"]),
    ("C", &[("a1", 1), ("c2", 5)], &[]),
    ("D", &[("d1", -2), ("d2", 0), ("d3", 4)], &["d1", "d3"]),
];

const HEADER: &str = "\
LIST A = a1, (a2), a3
LIST B = b1 = 2, (b2 = 5), b3
LIST C = a1, c2 = 5
LIST D = (d1 = -2), d2 = 0, (d3 = 4)
VAR r = 0
VAR i0 = 0
VAR i2 = 2
VAR i7 = 7
VAR im3 = -3
VAR imax = 2147483647
VAR imin = -2147483647
VAR f0 = 0.0
VAR f05 = 0.5
VAR f2 = 2.0
VAR fm15 = -1.5
VAR bt = true
VAR bf = false
VAR s0 = \"\"
VAR sab = \"ab\"
VAR sb = \"b\"
VAR s2 = \"2\"
VAR l0 = ()
VAR lA = (A.a1, a3)
VAR lM = (a2, b2)
VAR lD = (A.a1, C.a1)
VAR lE = (A.a1)
VAR lX = (b1, d2, a3)
VAR lN = ()
VAR x = 0
";

fn def(name: &str) -> &'static [(&'static str, i32)] {
    LISTS.iter().find(|l| l.0 == name).unwrap().1
}

fn items(of: &[(&str, &str)]) -> Items {
    of.iter()
        .map(|(o, n)| {
            let v = def(o).iter().find(|d| d.0 == *n).unwrap().1;
            ((o.to_string(), n.to_string()), v)
        })
        .collect()
}

fn list(of: &[(&str, &str)]) -> Val {
    L(items(of), BTreeSet::new())
}

fn leaf(name: &str) -> Val {
    match name {
        "i0" | "0" => I(0),
        "1" => I(1),
        "i2" | "2" => I(2),
        "i7" | "7" => I(7),
        "im3" | "-3" => I(-3),
        "imax" => I(i32::MAX),
        "imin" => I(-i32::MAX),
        "5" => I(5),
        "f0" | "0.0" => F(0.0),
        "f05" | "0.5" => F(0.5),
        "f2" | "2.0" | "(f2)" => F(2.0),
        "fm15" | "-1.5" => F(-1.5),
        "3.7" => F(3.7),
        "bt" | "true" => B(true),
        "bf" | "false" => B(false),
        "s0" | "\"\"" => S("".into()),
        "sab" | "(sab)" | "\"ab\"" => S("ab".into()),
        "sb" | "\"b\"" => S("b".into()),
        "s2" | "\"2\"" => S("2".into()),
        "\"true\"" => S("true".into()),
        "\"x y\"" => S("x y".into()),
        "l0" | "()" => list(&[]),
        // An empty list assigned to a variable belongs where the variable's value did.
        "lE" => L(Items::new(), BTreeSet::from(["A".into()])),
        "lN" => L(Items::new(), BTreeSet::new()),
        "lA" | "(a1, a3)" | "(A.a1, a3)" => L(items(&[("A", "a1"), ("A", "a3")]), set(&["A"])),
        "lM" | "(a2, b2)" => L(items(&[("A", "a2"), ("B", "b2")]), set(&["A", "B"])),
        "lD" | "(A.a1, C.a1)" => L(items(&[("A", "a1"), ("C", "a1")]), set(&["A", "C"])),
        "lX" | "(lX)" => L(
            items(&[("B", "b1"), ("D", "d2"), ("A", "a3")]),
            set(&["A", "B", "D"]),
        ),
        "A" => L(items(&[("A", "a2")]), set(&["A"])),
        "B" => L(items(&[("B", "b2")]), set(&["B"])),
        "C" | "C()" => L(Items::new(), set(&["C"])),
        "D" => L(items(&[("D", "d1"), ("D", "d3")]), set(&["D"])),
        "a2" | "A.a2" | "(a2)" => L(items(&[("A", "a2")]), set(&["A"])),
        "a3" => L(items(&[("A", "a3")]), set(&["A"])),
        "b1" | "B.b1" => L(items(&[("B", "b1")]), set(&["B"])),
        "b3" => L(items(&[("B", "b3")]), set(&["B"])),
        "C.a1" => L(items(&[("C", "a1")]), set(&["C"])),
        "d1" => L(items(&[("D", "d1")]), set(&["D"])),
        "d2" => L(items(&[("D", "d2")]), set(&["D"])),
        _ => panic!("leaf {name}"),
    }
}

fn set(of: &[&str]) -> BTreeSet<String> {
    of.iter().map(|s| s.to_string()).collect()
}

/// The lists a list's items come from; an empty one remembers.
fn origins(l: &Items, empty: &BTreeSet<String>) -> BTreeSet<String> {
    if l.is_empty() {
        empty.clone()
    } else {
        l.keys().map(|k| k.0.clone()).collect()
    }
}

fn made(l: Items, empty: BTreeSet<String>) -> Val {
    let o = origins(&l, &empty);
    L(l, o)
}

fn number(x: f32) -> String {
    format!("{x}")
}

fn as_text(v: &Val) -> String {
    match v {
        I(i) => i.to_string(),
        F(x) => number(*x),
        B(b) => b.to_string(),
        S(s) => s.clone(),
        L(l, _) => {
            let mut v: Vec<_> = l.iter().map(|(k, v)| (*v, &k.0, &k.1)).collect();
            v.sort();
            v.iter()
                .map(|x| x.2.as_str())
                .collect::<Vec<_>>()
                .join(", ")
        }
    }
}

/// 0: int, 1: float, 3: string; booleans count as integers.
fn rank(v: &Val) -> u8 {
    match v {
        I(_) | B(_) => 0,
        F(_) => 1,
        L(..) => 2,
        S(_) => 3,
    }
}

fn to_int(v: &Val) -> i32 {
    match v {
        I(i) => *i,
        B(b) => *b as i32,
        _ => unreachable!(),
    }
}

fn to_float(v: &Val) -> f32 {
    match v {
        F(x) => *x,
        v => to_int(v) as f32,
    }
}

fn truthy(v: &Val) -> bool {
    match v {
        I(i) => *i != 0,
        F(x) => *x != 0.0,
        B(b) => *b,
        S(s) => !s.is_empty(),
        L(l, _) => !l.is_empty(),
    }
}

fn no(op: &str) -> R {
    Err(format!("no {op} for these types"))
}

fn bin(op: &str, a: &Val, b: &Val) -> R {
    if let (L(x, ox), L(y, _)) = (a, b) {
        return lists(op, x, ox, y);
    }
    if let (L(x, _), I(n)) = (a, b)
        && (op == "+" || op == "-")
    {
        // Every item moves along its own list; those that leave it are gone.
        let n = if op == "+" { *n } else { n.wrapping_neg() };
        let mut out = Items::new();
        for ((o, _), v) in x {
            for (name, w) in def(o) {
                if *w == v.wrapping_add(n) {
                    out.insert((o.clone(), name.to_string()), *w);
                }
            }
        }
        return Ok(made(out, BTreeSet::new()));
    }
    if matches!(a, L(..)) || matches!(b, L(..)) {
        return match op {
            "&&" => Ok(B(truthy(a) && truthy(b))),
            "||" => Ok(B(truthy(a) || truthy(b))),
            _ => no(op),
        };
    }
    match rank(a).max(rank(b)) {
        0 => ints(op, to_int(a), to_int(b)),
        1 => floats(op, to_float(a), to_float(b)),
        _ => {
            let (x, y) = (as_text(a), as_text(b));
            match op {
                "+" => Ok(S(x + &y)),
                "==" => Ok(B(x == y)),
                "!=" => Ok(B(x != y)),
                "?" => Ok(B(x.contains(&y))),
                "!?" => Ok(B(!x.contains(&y))),
                _ => no(op),
            }
        }
    }
}

fn ints(op: &str, x: i32, y: i32) -> R {
    let (a, b) = (x as i64, y as i64);
    let wrap = |v: i64| Ok(I(v as i32));
    match op {
        "+" => wrap(a + b),
        "-" => wrap(a - b),
        "*" => wrap(a * b),
        "/" if b == 0 => Err("division by zero".into()),
        "%" if b == 0 => Err("division by zero".into()),
        "/" => wrap(a / b),
        "%" => wrap(a % b),
        "==" => Ok(B(a == b)),
        "!=" => Ok(B(a != b)),
        "<" => Ok(B(a < b)),
        ">" => Ok(B(a > b)),
        "<=" => Ok(B(a <= b)),
        ">=" => Ok(B(a >= b)),
        "&&" => Ok(B(a != 0 && b != 0)),
        "||" => Ok(B(a != 0 || b != 0)),
        "MIN" => wrap(a.min(b)),
        "MAX" => wrap(a.max(b)),
        "POW" => Ok(F((x as f64).powf(y as f64) as f32)),
        _ => no(op),
    }
}

fn floats(op: &str, a: f32, b: f32) -> R {
    match op {
        "+" => Ok(F(a + b)),
        "-" => Ok(F(a - b)),
        "*" => Ok(F(a * b)),
        "/" => Ok(F(a / b)),
        "%" => Ok(F(a % b)),
        "==" => Ok(B(a == b)),
        "!=" => Ok(B(a != b)),
        "<" => Ok(B(a < b)),
        ">" => Ok(B(a > b)),
        "<=" => Ok(B(a <= b)),
        ">=" => Ok(B(a >= b)),
        "&&" => Ok(B(a != 0.0 && b != 0.0)),
        "||" => Ok(B(a != 0.0 || b != 0.0)),
        "MIN" => Ok(F(if a < b { a } else { b })),
        "MAX" => Ok(F(if a > b { a } else { b })),
        "POW" => Ok(F((a as f64).powf(b as f64) as f32)),
        _ => no(op),
    }
}

fn lists(op: &str, x: &Items, ox: &BTreeSet<String>, y: &Items) -> R {
    let lo = |l: &Items| *l.values().min().unwrap();
    let hi = |l: &Items| *l.values().max().unwrap();
    let (xe, ye) = (x.is_empty(), y.is_empty());
    let has = !xe && !ye && y.keys().all(|k| x.contains_key(k));
    Ok(match op {
        "+" => {
            let mut u = x.clone();
            u.extend(y.clone());
            made(u, ox.clone())
        }
        "-" => {
            let mut u = x.clone();
            u.retain(|k, _| !y.contains_key(k));
            made(u, origins(x, ox))
        }
        "^" => {
            let mut u = x.clone();
            u.retain(|k, _| y.contains_key(k));
            made(u, BTreeSet::new())
        }
        "?" => B(has),
        "!?" => B(!has),
        "==" => B(x == y),
        "!=" => B(x != y),
        ">" => B(!xe && (ye || lo(x) > hi(y))),
        "<" => B(!ye && (xe || hi(x) < lo(y))),
        ">=" => B(!xe && (ye || lo(x) >= lo(y) && hi(x) >= hi(y))),
        "<=" => B(!ye && (xe || hi(x) <= hi(y) && lo(x) <= lo(y))),
        "&&" => B(!xe && !ye),
        "||" => B(!xe || !ye),
        _ => return no(op),
    })
}

/// Choosing between items of equal value is not specified.
const TIE: &str = "tie";

fn extreme(l: &Items, max: bool) -> R {
    let v = if max {
        l.values().max()
    } else {
        l.values().min()
    };
    let Some(v) = v else {
        return Ok(list(&[]));
    };
    let of: Items = l
        .iter()
        .filter(|(_, w)| *w == v)
        .map(|(k, w)| (k.clone(), *w))
        .collect();
    if of.len() > 1 {
        return Err(TIE.into());
    }
    Ok(made(of, BTreeSet::new()))
}

fn all(o: &BTreeSet<String>) -> Items {
    o.iter()
        .flat_map(|o| {
            def(o)
                .iter()
                .map(|(n, v)| ((o.clone(), n.to_string()), *v))
                .collect::<Vec<_>>()
        })
        .collect()
}

fn un(op: &str, a: &Val) -> R {
    Ok(match (op, a) {
        ("-", I(i)) => I(i.wrapping_neg()),
        ("-", B(b)) => I(-(*b as i32)),
        ("-", F(x)) => F(-x),
        ("not", I(i)) => B(*i == 0),
        ("not", B(b)) => B(!b),
        ("not", F(x)) => B(*x == 0.0),
        // The reference implementation yields a number here.
        ("not", L(l, _)) => I(l.is_empty() as i32),
        ("FLOOR" | "CEILING" | "INT", I(_) | B(_)) => I(to_int(a)),
        ("FLOOR", F(x)) => F(x.floor()),
        ("CEILING", F(x)) => F(x.ceil()),
        ("INT", F(x)) => {
            if x.abs() < 2147483520.0 {
                I(*x as i64 as i32)
            } else {
                return Err(TIE.into());
            }
        }
        ("FLOAT", F(_) | I(_) | B(_)) => F(to_float(a)),
        ("LIST_COUNT", L(l, _)) => I(l.len() as i32),
        ("LIST_VALUE", L(l, _)) => I(l.values().max().copied().unwrap_or(0)),
        ("LIST_MIN", L(l, _)) => return extreme(l, false),
        ("LIST_MAX", L(l, _)) => return extreme(l, true),
        ("LIST_ALL", L(l, o)) => made(all(&origins(l, o)), BTreeSet::new()),
        ("LIST_INVERT", L(l, o)) => {
            let mut a = all(&origins(l, o));
            a.retain(|k, _| !l.contains_key(k));
            made(a, BTreeSet::new())
        }
        // A list from a number.
        ("A" | "B" | "D", I(i)) => {
            let found: Items = def(op)
                .iter()
                .filter(|d| d.1 == *i)
                .map(|d| ((op.to_string(), d.0.to_string()), d.1))
                .collect();
            made(found, BTreeSet::new())
        }
        _ => return no(op),
    })
}

fn range(a: &Val, lo: &Val, hi: &Val) -> R {
    let L(l, o) = a else {
        return no("LIST_RANGE");
    };
    let bound = |v: &Val, max: bool| match v {
        I(i) => Some(*i),
        L(l, _) if l.is_empty() => Some(if max { i32::MAX } else { 0 }),
        L(l, _) if max => l.values().max().copied(),
        L(l, _) => l.values().min().copied(),
        _ => None,
    };
    let (Some(lo), Some(hi)) = (bound(lo, false), bound(hi, true)) else {
        return Err(TIE.into());
    };
    if l.is_empty() {
        return Ok(list(&[]));
    }
    let mut s = l.clone();
    s.retain(|_, v| *v >= lo && *v <= hi);
    Ok(made(s, origins(l, o)))
}

#[derive(Clone, Debug)]
struct Expr {
    src: String,
    val: R,
    /// What made the value: values are told apart by it, since what a value remembers of its making
    /// (an empty list its lists) is what goes wrong.
    made_by: String,
    /// Results of POW need not agree to the last bit.
    rough: bool,
}

fn e_leaf(name: &str) -> Expr {
    Expr {
        src: name.into(),
        made_by: String::new(),
        val: Ok(leaf(name)),
        rough: false,
    }
}

fn e_bin(op: &str, a: &Expr, b: &Expr) -> Expr {
    let src = match op {
        "MIN" | "MAX" | "POW" => format!("{op}({}, {})", a.src, b.src),
        _ => format!("({} {op} {})", a.src, b.src),
    };
    let val = match (&a.val, &b.val) {
        (Ok(x), Ok(y)) => bin(op, x, y),
        (Err(e), _) | (_, Err(e)) => Err(e.clone()),
    };
    Expr {
        src,
        made_by: op.into(),
        val,
        rough: a.rough || b.rough || op == "POW",
    }
}

fn e_un(op: &str, a: &Expr) -> Expr {
    let src = match op {
        "-" => format!("(- {})", a.src),
        "not" => format!("(not {})", a.src),
        _ => format!("{op}({})", a.src),
    };
    Expr {
        src,
        made_by: op.into(),
        val: a.val.clone().and_then(|v| un(op, &v)),
        rough: a.rough,
    }
}

fn e_range(a: &Expr, b: &Expr, c: &Expr) -> Expr {
    let val = match (&a.val, &b.val, &c.val) {
        (Ok(x), Ok(y), Ok(z)) => range(x, y, z),
        _ => Err(TIE.into()),
    };
    Expr {
        src: format!("LIST_RANGE({}, {}, {})", a.src, b.src, c.src),
        made_by: "range".into(),
        val,
        rough: false,
    }
}

const BINS: &[&str] = &[
    "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "?", "!?", "^", "MIN",
    "MAX", "POW",
];
const UNS: &[&str] = &[
    "-",
    "not",
    "FLOOR",
    "CEILING",
    "INT",
    "FLOAT",
    "LIST_COUNT",
    "LIST_VALUE",
    "LIST_MIN",
    "LIST_MAX",
    "LIST_ALL",
    "LIST_INVERT",
    "A",
    "B",
    "D",
];
const LEAVES: &[&str] = &[
    "i0",
    "1",
    "2",
    "i7",
    "im3",
    "imax",
    "imin",
    "f0",
    "0.5",
    "f2",
    "fm15",
    "3.7",
    "bt",
    "false",
    "s0",
    "\"ab\"",
    "sb",
    "\"2\"",
    "\"true\"",
    "\"x y\"",
    "()",
    "lE",
    "lA",
    "lM",
    "(A.a1, C.a1)",
    "lX",
    "A",
    "B",
    "C",
    "D",
    "a2",
    "a3",
    "B.b1",
    "b3",
    "C.a1",
    "d1",
    "d2",
    "C()",
    "(f2)",
    "(sab)",
    "(lX)",
];
/// Leaves that deeper trees are built with.
const FEW: &[&str] = &[
    "0", "2", "-3", "0.5", "fm15", "true", "sab", "\"2\"", "l0", "lE", "lA", "lM", "a2", "B.b1",
    "D", "C",
];

/// A value to be observed: the program text around the expression, and what it must show.
struct Case {
    /// Body of a knot; its first line prints, then `r` holds the value.
    body: String,
    shown: R,
    /// `None`: the variable is not compared.
    stored: Option<Val>,
    rough: bool,
    key: String,
}

fn printed(e: &Expr) -> Case {
    Case {
        // A bar between braces would make alternatives of the text around it.
        body: format!(
            "~ r = 0\n[{{{}}}]\n~ r = {}\n-> END\n",
            e.src.replace("||", " or "),
            e.src
        ),
        shown: e.val.clone(),
        stored: e.val.clone().ok(),
        rough: e.rough,
        key: e.src.clone(),
    }
}

fn finite(v: &Val) -> bool {
    !matches!(v, F(x) if !x.is_finite())
}

fn plain(x: f32) -> bool {
    x == 0.0 || (x.is_finite() && x.abs() < 1e7 && x.abs() > 1e-4)
}

fn same(v: &Val, got: &ValueType, rough: bool) -> bool {
    match (v, got) {
        (I(a), ValueType::Int(b)) => a == b,
        (B(a), ValueType::Bool(b)) => a == b,
        (F(a), ValueType::Float(b)) => {
            a == b
                || (a.is_nan() && b.is_nan())
                || (rough && ((a - b).abs() <= a.abs() * 1e-5 || !plain(*a)))
        }
        (S(a), ValueType::String(b)) => a == &b.string,
        (L(a, _), ValueType::List(b)) => {
            let got: Items = b
                .items
                .iter()
                .map(|(k, v)| {
                    (
                        (
                            k.get_origin_name().cloned().unwrap_or_default(),
                            k.get_item_name().to_string(),
                        ),
                        *v,
                    )
                })
                .collect();
            a == &got
        }
        _ => false,
    }
}

fn unreadable(v: &Val, rough: bool) -> bool {
    match v {
        F(x) => rough || !plain(*x),
        // Texts made of such numbers too.
        S(s) => rough || s.contains("inf") || s.contains("NaN") || s.len() > 12,
        _ => false,
    }
}

const ENTRY: &str = "~ lE = lE - A.a1\n-> DONE\n";

fn program(cases: &[&Case]) -> String {
    let mut s = String::from(HEADER);
    s.push_str(ENTRY);
    for (i, c) in cases.iter().enumerate() {
        s.push_str(&format!("=== k{i}\n{}", c.body));
    }
    s.push_str(FUNCTIONS);
    s
}

const FUNCTIONS: &str = "\
=== function id(v)
~ return v
=== function show(v)
[{v}]
~ r = v
=== function local(v)
~ temp t = v
~ return t
=== function store(ref v, w)
~ v = w
";

fn play(json: &str, i: usize, seed: i32) -> Result<(String, Option<ValueType>), String> {
    let run = || -> Result<(String, Option<ValueType>), String> {
        bladeink::verif::set_initial_seed(Some(seed));
        bladeink::verif::set_fuel(Some(20_000));
        let mut s = Story::new(json).map_err(|e| format!("load: {e}"))?;
        s.continue_maximally().map_err(|e| format!("start: {e}"))?;
        s.choose_path_string(&format!("k{i}"), true, None)
            .map_err(|e| format!("path: {e}"))?;
        let mut text = String::new();
        while s.can_continue() {
            match s.cont() {
                Ok(t) => text.push_str(&t),
                Err(e) => return Err(format!("{text}{e}")),
            }
        }
        Ok((text, s.get_variable("r")))
    };
    catch(run).unwrap_or_else(|p| Err(format!("PANIC {p}")))
}

fn wrong(c: &Case, got: &Result<(String, Option<ValueType>), String>) -> Option<String> {
    match (&c.shown, got) {
        (Err(e), _) if e == TIE => match got {
            Err(g) if g.contains("PANIC") => Some(g.clone()),
            _ => None,
        },
        (Err(_), Err(g)) if g.contains("PANIC") || g.contains("load:") || g.contains("path:") => {
            Some(g.clone())
        }
        (Err(_), Err(_)) => None,
        (Err(e), Ok((t, v))) => Some(format!(
            "expected: an error ({e})\nprinted: {t:?}, stored: {}",
            v.as_ref().map(render).unwrap_or_default()
        )),
        (Ok(v), Err(g)) => Some(format!("expected: {v:?}\nerror: {g}")),
        (Ok(v), Ok((t, stored))) => {
            let want = format!("[{}]\n", as_text(v));
            let t2 = if as_text(v) == "-0" || as_text(v) == "0" {
                t.replace("[-0]", "[0]")
            } else {
                t.clone()
            };
            if !unreadable(v, c.rough) && t2 != want.replace("[-0]", "[0]") {
                return Some(format!("expected text: {want:?}\nprinted: {t:?}"));
            }
            if let Some(w) = &c.stored
                && !stored.as_ref().is_some_and(|g| same(w, g, c.rough))
            {
                return Some(format!(
                    "expected value: {w:?}\nstored: {}",
                    stored.as_ref().map(render).unwrap_or_default()
                ));
            }
            None
        }
    }
}

fn check(r: &Report, family: &str, cases: Vec<Case>) {
    let chunks: Vec<&[Case]> = cases.chunks(60).collect();
    par_each(r, &chunks, |chunk| {
        let refs: Vec<&Case> = chunk.iter().collect();
        let src = program(&refs);
        let json = match compile(&src) {
            Ok(Ok(j)) => j,
            _ => {
                // Find the ones that do not compile.
                let mut any = false;
                for c in chunk.iter() {
                    let x = compile(&program(&[c]));
                    if !matches!(x, Ok(Ok(_))) {
                        any = true;
                        r.violation(
                            &format!("compile {}", c.key),
                            format!("{family}: does not compile: {x:?}\n{}", c.body),
                        );
                    }
                }
                if !any {
                    r.violation(
                        &format!("compile {family} together"),
                        format!("expressions that compile alone do not compile together\n{src}"),
                    );
                }
                return;
            }
        };
        for (i, c) in chunk.iter().enumerate() {
            if r.stop() {
                return;
            }
            let got = play(&json, i, 7);
            r.transitions(1);
            r.traces(1);
            r.count(family, 1);
            r.outcome(&match &c.shown {
                Ok(v) => as_text(v),
                Err(e) => e.clone(),
            });
            if let Some(w) = wrong(c, &got) {
                r.violation(
                    &format!("{family}: {}", c.key),
                    format!(
                        "{}\n{w}\n-- knot\n{}\n-- declarations\n{HEADER}",
                        c.key, c.body
                    ),
                );
            }
        }
    });
}

/// Breadth first over values.
fn values(r: &Report, depth: usize, cap: usize) {
    let leaves: Vec<Expr> = LEAVES.iter().map(|l| e_leaf(l)).collect();
    let few: Vec<Expr> = FEW.iter().map(|l| e_leaf(l)).collect();
    let mut seen: HashMap<String, ()> = HashMap::new();
    let id = |v: &Val| format!("{v:?}");
    for l in &leaves {
        seen.insert(format!(" {}", id(l.val.as_ref().unwrap())), ());
    }
    let mut front = leaves.clone();
    check(r, "leaves", leaves.iter().map(printed).collect());
    for d in 1..=depth {
        let mut made = Vec::new();
        let with = if d == 1 { &leaves } else { &few };
        for a in &front {
            for op in UNS {
                made.push(e_un(op, a));
            }
            for b in with {
                for op in BINS {
                    made.push(e_bin(op, a, b));
                    if d > 1 {
                        made.push(e_bin(op, b, a));
                    }
                }
            }
            if matches!(a.val, Ok(L(..))) {
                for (lo, hi) in [
                    ("1", "2"),
                    ("2", "5"),
                    ("-3", "i0"),
                    ("a2", "b3"),
                    ("lM", "()"),
                    ("()", "B"),
                    ("B.b1", "a3"),
                ] {
                    made.push(e_range(a, &e_leaf(lo), &e_leaf(hi)));
                }
            }
        }
        // An operand that has no value teaches nothing more at greater depth; where types do not
        // fit, one error per operator and depth-1 pair is enough.
        let mut next = Vec::new();
        let mut keep = Vec::new();
        for e in made {
            match &e.val {
                Ok(v) => {
                    if seen
                        .insert(format!("{} {}", e.made_by, id(v)), ())
                        .is_none()
                        && !e.rough
                        && e.src.len() < 120
                    {
                        next.push(e.clone());
                    }
                    keep.push(e);
                }
                Err(_) if d == 1 => keep.push(e),
                Err(_) => {}
            }
        }
        r.states(next.len() as u64);
        r.note(format!(
            "depth {d}: {} expressions, {} new values",
            keep.len(),
            next.len()
        ));
        check(r, &format!("depth {d}"), keep.iter().map(printed).collect());
        if r.stop() {
            return;
        }
        if next.len() > cap {
            // Keep an even spread of kinds of values.
            let step = next.len() / cap + 1;
            next = next.into_iter().step_by(step).collect();
        }
        front = next;
    }
}

/// How the same value reaches the operator: variables, temporaries, parameters, results, strings.
fn routes(r: &Report) {
    let leaves: Vec<Expr> = LEAVES.iter().map(|l| e_leaf(l)).collect();
    let mut cases = Vec::new();
    for a in &leaves {
        for b in FEW.iter().map(|l| e_leaf(l)) {
            for op in BINS {
                let e = e_bin(op, a, &b);
                if e.val.is_err() {
                    continue;
                }
                let op = &if *op == "||" { "or" } else { *op };
                let via = |f: &str| match *op {
                    "MIN" | "MAX" | "POW" => format!("{op}({f}({}), {f}({}))", a.src, b.src),
                    _ => format!("{f}({}) {op} {f}({})", a.src, b.src),
                };
                let temp = match *op {
                    "MIN" | "MAX" | "POW" => format!("{op}(t, u)"),
                    _ => format!("t {op} u"),
                };
                let case = |what: &str, body: String| Case {
                    body,
                    shown: e.val.clone(),
                    stored: e.val.clone().ok(),
                    rough: e.rough,
                    key: format!("{} {what}", e.src),
                };
                cases.push(case(
                    "through results",
                    format!("~ r = {}\n[{{{}}}]\n-> END\n", via("id"), via("id")),
                ));
                cases.push(case(
                    "through temporaries of functions",
                    format!("~ r = {}\n[{{{}}}]\n-> END\n", via("local"), via("local")),
                ));
                cases.push(case(
                    "through temporaries",
                    format!(
                        "~ temp t = {}\n~ temp u = {}\n~ temp w = {temp}\n[{{w}}]\n~ r = 0\n~ r = w\n-> END\n",
                        a.src, b.src
                    ),
                ));
                cases.push(case(
                    "as argument",
                    format!("~ r = 0\n{{show({})}}\n-> END\n", e.src),
                ));
                cases.push(case(
                    "by reference",
                    format!("~ r = 0\n~ store(r, {})\n[{{r}}]\n-> END\n", e.src),
                ));
            }
        }
    }
    check(r, "routes", cases);
}

/// Truth of values in conditions, text of values in strings.
fn contexts(r: &Report) {
    let mut cases = Vec::new();
    for l in LEAVES {
        let e = e_leaf(l);
        let v = e.val.clone().unwrap();
        let t = truthy(&v);
        cases.push(Case {
            body: format!("[{{{l}:yes|no}}]\n-> END\n"),
            shown: Ok(S(if t { "yes" } else { "no" }.into())),
            stored: None,
            rough: false,
            key: format!("{l} as condition"),
        });
        let text = as_text(&v);
        if !unreadable(&v, false) {
            cases.push(Case {
                body: format!("~ r = \"<{{{l}}}>\"\n[{{r}}]\n-> END\n"),
                shown: Ok(S(format!("<{text}>"))),
                stored: Some(S(format!("<{text}>"))),
                rough: false,
                key: format!("{l} in a string"),
            });
        }
        // A switch compares with ==.
        for m in FEW {
            if let Ok(B(b)) = bin("==", &v, &leaf(m)) {
                cases.push(Case {
                    body: format!("{{{l}:\n- {m}: [eq]\n- else: [ne]\n}}\n-> END\n"),
                    shown: Ok(S(if b { "eq" } else { "ne" }.into())),
                    stored: None,
                    rough: false,
                    key: format!("{l} switched on {m}"),
                });
            }
        }
    }
    check(r, "contexts", cases);
}

/// Operators without parentheses group by Ink's precedences.
fn precedence(r: &Report, deep: bool) {
    let ops: &[(&str, u8)] = &[
        ("&&", 1),
        ("||", 1),
        ("and", 1),
        ("or", 1),
        ("==", 2),
        ("!=", 2),
        ("<", 2),
        (">=", 2),
        ("+", 4),
        ("-", 5),
        ("*", 6),
        ("/", 7),
        ("%", 8),
        ("mod", 8),
    ];
    fn plain(op: &str) -> &str {
        match op {
            "and" => "&&",
            "or" => "||",
            "mod" => "%",
            o => o,
        }
    }
    // Operator precedence parsing of a flat sequence.
    fn tree(leaves: &[R], ops: &[(&str, u8)], at: &mut usize, min: u8) -> R {
        let mut left = leaves[*at].clone();
        while *at < ops.len() && ops[*at].1 > min {
            let (op, p) = ops[*at];
            *at += 1;
            let right = tree(leaves, ops, at, p);
            left = match (left, right) {
                (Ok(a), Ok(b)) => bin(plain(op), &a, &b),
                (Err(e), _) | (_, Err(e)) => Err(e),
            };
        }
        left
    }
    let sets: &[[&str; 4]] = if deep {
        &[
            ["7", "2", "5", "2"],
            ["2", "7", "2", "5"],
            ["i0", "1", "2", "i7"],
            ["5", "im3", "2", "1"],
            ["7", "2.0", "5", "0.5"],
        ]
    } else {
        &[["7", "2", "5", "2"], ["i0", "1", "2", "i7"]]
    };
    let mut cases = Vec::new();
    let unary = ["", "-", "not ", "!"];
    for s in sets {
        for n in 2..=if deep { 4 } else { 3 } {
            let total = ops.len().pow(n as u32 - 1);
            for k in 0..total {
                let mut chosen = Vec::new();
                let mut m = k;
                for _ in 0..n - 1 {
                    chosen.push(ops[m % ops.len()]);
                    m /= ops.len();
                }
                for u in 0..if n == 2 {
                    16
                } else if n == 3 {
                    8
                } else {
                    1
                } {
                    let mut leaves = Vec::new();
                    let mut src = String::new();
                    for i in 0..n {
                        // Prefix operators on the first two operands.
                        let p = match (n, i) {
                            (2, 0) => unary[u % 4],
                            (2, 1) => unary[u / 4],
                            (3, i) if i == u % 4 => unary[1 + u / 4],
                            _ => "",
                        };
                        let v = leaf(s[i]);
                        leaves.push(match p {
                            "" => Ok(v),
                            "-" => un("-", &v),
                            _ => un("not", &v),
                        });
                        if i > 0 {
                            src.push_str(&format!(" {} ", chosen[i - 1].0));
                        }
                        src.push_str(p);
                        src.push_str(s[i]);
                    }
                    let val = tree(&leaves, &chosen, &mut 0, 0);
                    // Printed inside a call, so that a leading minus is not a bullet.
                    let spaced = Expr {
                        src: format!("id({src})"),
                        made_by: String::new(),
                        val: val.clone(),
                        rough: false,
                    };
                    let word = |c: &(&str, u8)| matches!(c.0, "and" | "or" | "mod");
                    cases.push(printed(&spaced));
                    if !chosen.iter().any(word) && !src.contains("not") {
                        cases.push(printed(&Expr {
                            src: format!("id({})", src.replace(' ', "")),
                            made_by: String::new(),
                            val,
                            rough: false,
                        }));
                    }
                }
            }
        }
    }
    // List operators among the others.
    for (src, val) in [
        ("lA ? a2 || lA ? a3", Ok(B(true))),
        ("lA has a2 or lA hasnt a2", Ok(B(true))),
        ("lA !? a2 && lM ? b2", Ok(B(true))),
        (
            "lA + a2 ? a2",
            bin("+", &leaf("lA"), &leaf("a2")).map(|v| bin("?", &v, &leaf("a2")).unwrap()),
        ),
        ("lM ^ A == a2", Ok(B(true))),
        ("not lA ? a2", bin("?", &I(0), &leaf("a2"))),
        ("LIST_COUNT(lA) + 1 * 2", Ok(I(4))),
    ] {
        // `+` binds tighter than `?` only on its right hand side: lA + (a2 ? a2) has no value.
        let _ = &src;
        cases.push(printed(&Expr {
            src: format!("id({src})"),
            made_by: String::new(),
            val,
            rough: false,
        }));
    }
    check(r, "precedence", cases);
}

/// Sequences of assignments to one variable, observed after every one of them.
fn histories(r: &Report, depth: usize) {
    #[derive(Clone)]
    struct St {
        text: &'static str,
        f: fn(&Val) -> R,
    }
    let sts: Vec<St> = vec![
        St {
            text: "~ x = ()",
            f: |_| Ok(list(&[])),
        },
        St {
            text: "~ x = lM",
            f: |_| Ok(leaf("lM")),
        },
        St {
            text: "~ x = C",
            f: |_| Ok(leaf("C")),
        },
        St {
            text: "~ x += a1x",
            f: |v| bin("+", v, &L(items(&[("A", "a1")]), set(&["A"]))),
        },
        St {
            text: "~ x += (b1, a3)",
            f: |v| bin("+", v, &list(&[("B", "b1"), ("A", "a3")])),
        },
        St {
            text: "~ x -= a2",
            f: |v| bin("-", v, &leaf("a2")),
        },
        St {
            text: "~ x -= x",
            f: |v| bin("-", v, v),
        },
        St {
            text: "~ x++",
            f: |v| bin("+", v, &I(1)),
        },
        St {
            text: "~ x--",
            f: |v| bin("-", v, &I(1)),
        },
        St {
            text: "~ x += 2",
            f: |v| bin("+", v, &I(2)),
        },
        St {
            text: "~ x = x ^ A",
            f: |v| bin("^", v, &leaf("A")),
        },
        St {
            text: "~ x = LIST_ALL(x)",
            f: |v| un("LIST_ALL", v),
        },
        St {
            text: "~ x = LIST_INVERT(x)",
            f: |v| un("LIST_INVERT", v),
        },
        St {
            text: "~ x = LIST_RANGE(x, 2, 5)",
            f: |v| range(v, &I(2), &I(5)),
        },
        St {
            text: "~ x = x + D - d1",
            f: |v| bin("-", &leaf("D"), &leaf("d1")).and_then(|w| bin("+", v, &w)),
        },
    ];
    let starts: &[(&str, &str)] = &[("A", "A"), ("l0", "l0"), ("lX", "lX"), ("C", "C")];
    let mut cases = Vec::new();
    let mut states: BTreeSet<String> = BTreeSet::new();
    for temp in [false, true] {
        for (name, _) in starts {
            let mut todo: Vec<(Vec<usize>, Val)> = vec![(vec![], leaf(name))];
            for d in 0..depth {
                let mut next = Vec::new();
                for (path, v) in &todo {
                    for (i, s) in sts.iter().enumerate() {
                        let Ok(w) = (s.f)(v) else { continue };
                        // An empty list assigned keeps the lists of the old value.
                        let w = match (&w, v) {
                            (L(n, _), L(old, oo)) if n.is_empty() => {
                                L(Items::new(), origins(old, oo))
                            }
                            _ => w,
                        };
                        let mut p = path.clone();
                        p.push(i);
                        let (Ok(a), Ok(n)) = (un("LIST_ALL", &w), un("LIST_INVERT", &w)) else {
                            continue;
                        };
                        let shown = format!(
                            "{}/{}/{}/{}",
                            as_text(&w),
                            as_text(&a),
                            as_text(&n),
                            as_text(&un("LIST_VALUE", &w).unwrap())
                        );
                        let var = if temp { "t" } else { "x" };
                        let mut body = if temp {
                            format!("~ temp t = {name}\n~ r = 0\n")
                        } else {
                            // A fresh value, then what the history makes of it.
                            format!("~ x = 0\n~ x = {name}\n~ r = 0\n")
                        };
                        for k in &p {
                            let t = sts[*k].text.replace("a1x", "A.a1");
                            body.push_str(&if temp {
                                t.replace("~ x", "~ t")
                                    .replace("(x", "(t")
                                    .replace("= x", "= t")
                                    .replace("-= x", "-= t")
                            } else {
                                t
                            });
                            body.push('\n');
                        }
                        body.push_str(&format!(
                            "[{{{var}}}/{{LIST_ALL({var})}}/{{LIST_INVERT({var})}}/{{LIST_VALUE({var})}}]\n~ r = {var}\n-> END\n"
                        ));
                        states.insert(format!("{w:?}"));
                        cases.push(Case {
                            body,
                            shown: Ok(S(shown)),
                            stored: Some(w.clone()),
                            rough: false,
                            key: format!(
                                "{name} then {}",
                                p.iter().map(|k| sts[*k].text).collect::<Vec<_>>().join(" ")
                            ),
                        });
                        if d + 1 < depth {
                            next.push((p, w));
                        }
                    }
                }
                todo = next;
            }
        }
    }
    r.states(states.len() as u64);
    // The shown text is several values: compare it whole.
    check(r, "histories", cases);
}

/// RANDOM stays in its range, LIST_RANDOM in its list, and both reach all of it.
fn random(r: &Report) {
    let src = format!(
        "{HEADER}{ENTRY}=== k0\n{{RANDOM(2, 5)}} {{RANDOM(im3, -2)}} {{RANDOM(7, 7)}}\n-> END\n=== k1\n{{LIST_RANDOM(lX)}} {{LIST_RANDOM(A)}}[{{LIST_RANDOM(())}}]\n-> END\n"
    );
    let Ok(Ok(json)) = compile(&src) else {
        r.violation("random: compile", format!("does not compile\n{src}"));
        return;
    };
    let mut met: [BTreeSet<String>; 3] = Default::default();
    for seed in 0..300 {
        for k in 0..2 {
            r.traces(1);
            let got = play(&json, k, seed);
            let Ok((t, _)) = &got else {
                r.violation("random", format!("seed {seed}: {:?}", got.as_ref().err()));
                return;
            };
            let w: Vec<&str> = t.split_whitespace().collect();
            let ok = if k == 0 {
                met[0].insert(w[0].into());
                met[1].insert(w[1].into());
                ["2", "3", "4", "5"].contains(&w[0]) && ["-3", "-2"].contains(&w[1]) && w[2] == "7"
            } else {
                met[2].insert(w[0].into());
                ["b1", "d2", "a3"].contains(&w[0]) && w[1] == "a2[]"
            };
            if !ok {
                r.violation("random: range", format!("seed {seed}: {t:?}\n{src}"));
                return;
            }
        }
    }
    if met[0].len() != 4 || met[1].len() != 2 || met[2].len() != 3 {
        r.violation(
            "random: spread",
            format!("over 300 seeds only {met:?}\n{src}"),
        );
    }
}

pub fn run(r: &Report) {
    r.assume("the choice among list items of equal value, conversions of floats outside the integers and the text of floats beyond seven digits are unspecified");
    contexts(r);
    precedence(r, r.tier.pick(false, true));
    histories(r, r.tier.pick(2, 3));
    random(r);
    routes(r);
    values(r, r.tier.pick(2, 4), r.tier.pick(120, 4000));
}
