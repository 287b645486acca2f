//! C03: play is a deterministic function of program, seed and host calls.
//!
//! The only hidden inputs of a run are the hash seeds of the process (they decide the iteration
//! order of every hash map), its build profile and what ran before. The hash seed is put under
//! control by answering the standard library's `getrandom`, and every run gets a thread of its
//! own, so that each map of a run is seeded as chosen. Each program is compiled and played along
//! every enumerated history under every hash seed of a range, in processes of two build profiles;
//! all of them must show and save the same. The iteration orders that lists of the programs
//! really went through are counted: all orders of all small lists have to be among them.
use crate::{c04, explore::*, host::*, prog::*, util::*};
use bladeink::value_type::ValueType;
use serde_json::{Value, json};
use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet},
    sync::Mutex,
};

thread_local! {
    static HASH_SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

/// The standard library asks this for the keys of its hash maps, once per thread.
///
/// # Safety
/// As getrandom(2).
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let seed = HASH_SEED
        .with(|s| s.get())
        .unwrap_or_else(|| std::process::id() as u64);
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03;
    for i in 0..len {
        // splitmix
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        unsafe { *buf.add(i) = (z >> 32) as u8 };
    }
    len as isize
}

fn with_hash_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                HASH_SEED.with(|h| h.set(Some(seed)));
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

// ---------------------------------------------------------------- the child

/// Compiles and plays a program; every observation as one text.
fn observe(
    c: &Value,
    req: &Value,
    orders: &mut BTreeSet<String>,
    counts: &mut [u64; 3],
) -> Vec<String> {
    let src = c["s"].as_str().unwrap_or("");
    let mut out = Vec::new();
    let p = match c["j"].as_str() {
        Some(j) => Prog::from_json("case", src, j),
        None => match compile(src) {
            Ok(Ok(j)) => {
                out.push(format!("compiled {j}"));
                Prog::from_json("case", src, &j)
            }
            Ok(Err(e)) => return vec![format!("compile error {e}")],
            Err(_) => return vec!["the compiler panics".into()],
        },
    };
    counts[0] += 1;
    let cfg = seeded();
    let n = |k: &str, d: u64| req[k].as_u64().unwrap_or(d) as usize;
    let paths = enumerate(&p, &cfg, &[], &play_moves, n("cap", 6), n("depth", 8), 60);
    let look = |h: &mut Host, orders: &mut BTreeSet<String>| {
        if h.dead {
            return "dead".to_string();
        }
        for v in &p.vars {
            if let Some(ValueType::List(l)) = h.story.get_variable(v)
                && (2..=4).contains(&l.items.len())
            {
                let o: Vec<String> = l.items.keys().map(|k| k.get_full_name()).collect();
                let mut s = o.clone();
                s.sort();
                orders.insert(format!("{}|{}", s.join(","), o.join(",")));
            }
        }
        match h.save() {
            Ok(v) => format!("save {}\n{}", canon(&v), h.errors()),
            Err(e) => e,
        }
    };
    for ops in &paths.paths {
        let Ok(mut h) = Host::new(&p, &cfg) else {
            return vec!["does not load".into()];
        };
        let mut t = trace(&mut h, ops);
        counts[1] += ops.len() as u64;
        t.push(look(&mut h, orders));
        out.push(t.join(""));
    }
    // Host calls after every other position of the first histories.
    if let Some(calls) = req["calls"].as_u64() {
        let mut tried = 0;
        for ops in paths.paths.iter().take(2) {
            for k in (0..=ops.len()).step_by(2) {
                if tried >= calls {
                    break;
                }
                tried += 1;
                let Ok(mut h) = Host::new(&p, &cfg) else {
                    break;
                };
                h.run(&ops[..k]);
                for op in c04::alphabet(&p, &h) {
                    let Ok(mut h) = Host::new(&p, &cfg) else {
                        break;
                    };
                    h.run(&ops[..k]);
                    let mut t = format!("{}\n", show_ops(&ops[..k]));
                    t.push_str(&step(&mut h, &op));
                    for _ in 0..3 {
                        let m = h.moves();
                        let Some(op) = m.last().cloned() else { break };
                        t.push_str(&step(&mut h, &op));
                    }
                    t.push_str(&look(&mut h, orders));
                    out.push(t);
                    counts[2] += 1;
                }
            }
        }
    }
    out
}

pub fn answer(req: &Value) -> Value {
    let mut res = Vec::new();
    let mut all_orders: BTreeSet<String> = BTreeSet::new();
    let mut counts = [0u64; 3];
    for c in req["cases"].as_array().into_iter().flatten() {
        let mut base: Option<Vec<String>> = None;
        let mut differs = Value::Null;
        for s in req["seeds"].as_array().into_iter().flatten() {
            let seed = s.as_u64().unwrap_or(0);
            let (o, orders, n) = with_hash_seed(seed, || {
                let mut orders = BTreeSet::new();
                let mut n = [0u64; 3];
                let o = catch(|| observe(c, req, &mut orders, &mut n))
                    .unwrap_or_else(|p| vec![format!("panic {p}")]);
                (o, orders, n)
            });
            all_orders.extend(orders);
            for (a, b) in counts.iter_mut().zip(n) {
                *a += b;
            }
            match &base {
                None => base = Some(o),
                Some(b) => {
                    if let Some((i, d)) = compare(b, &o) {
                        differs = json!([seed, i, d, b.get(i)]);
                        break;
                    }
                }
            }
        }
        let base = base.unwrap_or_default();
        let hash = format!("{:x}", fnv(&base.join("\n")));
        let shown = if req["show"] == true {
            base.join("\n===\n")
        } else {
            base.first()
                .map_or(String::new(), |s| s.chars().take(40).collect())
        };
        res.push(json!([hash, differs, base.len(), shown]));
    }
    json!({"results": res, "orders": all_orders, "counts": counts,
        "checked": cfg!(debug_assertions)})
}

// ---------------------------------------------------------------- the parent

struct Tally {
    orders: Mutex<BTreeMap<String, BTreeSet<String>>>,
}

fn seeds(r: &Report, release: bool) -> Vec<u64> {
    let n = r.tier.pick(24, 80);
    // The release build sees other hash seeds than the debug build.
    (0..n).map(|i| if release { 1000 + i } else { i }).collect()
}

fn batch(r: &Report, t: &Tally, class: &str, extra: &Value, cases: &[(String, Value)]) {
    if r.stop() {
        return;
    }
    let mut results = Vec::new();
    for release in [false, true] {
        let mut req = json!({"cmd": "c03", "cases": cases.iter().map(|c| &c.1).collect::<Vec<_>>(),
            "seeds": seeds(r, release)});
        for (k, v) in extra.as_object().into_iter().flatten() {
            req[k] = v.clone();
        }
        match c04::ask(release, &req, 90) {
            Err(e) if e.starts_with("ENGINE") => return r.engine_error(e),
            Err(e) if cases.len() > 1 => {
                r.note(format!("a batch of {class}: {e}"));
                let (a, b) = cases.split_at(cases.len() / 2);
                batch(r, t, class, extra, a);
                return batch(r, t, class, extra, b);
            }
            Err(e) => {
                r.note(format!("{}: {e}", cases[0].0));
                r.count("no answer", 1);
                return;
            }
            Ok(v) => {
                let n = |i: usize| v["counts"][i].as_u64().unwrap_or(0);
                r.states(n(0));
                r.transitions(n(1) + n(2));
                r.traces(n(0));
                r.count(&format!("{class}: runs"), n(0));
                r.count("moves", n(1));
                r.count("host calls", n(2));
                let mut o = t.orders.lock().unwrap();
                for x in v["orders"].as_array().into_iter().flatten() {
                    if let Some((k, ord)) = x.as_str().and_then(|x| x.split_once('|')) {
                        o.entry(k.into()).or_default().insert(ord.into());
                    }
                }
                drop(o);
                for (i, c) in cases.iter().enumerate() {
                    let d = &v["results"][i];
                    r.outcome(d[0].as_str().unwrap_or(""));
                    if d[3]
                        .as_str()
                        .is_some_and(|s| s.starts_with("compile error"))
                    {
                        r.count(&format!("{class}: does not compile"), 1);
                    }
                    if !d[1].is_null() {
                        report(
                            r,
                            class,
                            c,
                            &format!(
                                "hash seeds {} and {} differ ({} build) in observation {}\n{}\n-- observed with the first\n{}",
                                seeds(r, release)[0],
                                d[1][0],
                                if release { "release" } else { "debug" },
                                d[1][1],
                                d[1][2].as_str().unwrap_or(""),
                                d[1][3]
                                    .as_str()
                                    .unwrap_or("")
                                    .chars()
                                    .take(1500)
                                    .collect::<String>()
                            ),
                        );
                    }
                }
                results.push(v);
            }
        }
    }
    for (i, c) in cases.iter().enumerate() {
        let (a, b) = (&results[0]["results"][i], &results[1]["results"][i]);
        if a[0] != b[0] && a[1].is_null() && b[1].is_null() {
            let show = |release: bool| {
                let mut req = extra.clone();
                req["cmd"] = "c03".into();
                req["cases"] = json!([c.1]);
                req["seeds"] = json!([0]);
                req["show"] = true.into();
                c04::ask(release, &req, 60)
                    .ok()
                    .and_then(|v| v["results"][0][3].as_str().map(String::from))
                    .unwrap_or_default()
            };
            report(
                r,
                class,
                c,
                &format!(
                    "debug and release builds differ\n{}",
                    first_diff(&show(false), &show(true))
                ),
            );
        }
    }
}

fn report(r: &Report, class: &str, c: &(String, Value), what: &str) {
    r.violation(
        &format!("{class}:{}", c.0),
        format!(
            "{}: {what}\n-- source\n{}",
            c.0,
            c.1["s"]
                .as_str()
                .unwrap_or("")
                .chars()
                .take(4000)
                .collect::<String>()
        ),
    );
}

/// Lists of several origins, with equal values, in every operation.
fn list_programs(thorough: bool) -> Vec<(String, Value)> {
    let decls = [
        (
            "equal values",
            "LIST A = a1, a2, a3\nLIST B = b1, b2, b3\nLIST C = c1, c2, c3\n",
        ),
        (
            "shared names",
            "LIST A = one, two, three\nLIST B = one, two, three\nLIST C = one = 1, two = 1, three = 1\n",
        ),
        (
            "ties",
            "LIST A = a1 = 5, a2 = 5, a3 = 5\nLIST B = b1 = 5, b2 = 0, b3 = 5\nLIST C = c1 = 5, c2 = 0, c3 = 0\n",
        ),
    ];
    let mut out = Vec::new();
    for (dn, decl) in decls {
        let (i, j, k) = match dn {
            "shared names" => (
                ["A.one", "A.two", "A.three"],
                ["B.one", "B.two", "B.three"],
                ["C.one", "C.two", "C.three"],
            ),
            _ => (["a1", "a2", "a3"], ["b1", "b2", "b3"], ["c1", "c2", "c3"]),
        };
        let mut values: Vec<String> = vec![
            format!("({}, {})", i[0], j[0]),
            format!("({}, {}, {})", i[0], j[0], k[0]),
            format!("({}, {}, {}, {})", i[2], j[1], k[1], i[0]),
            format!("({}, {}, {})", i[1], i[0], i[2]),
            "()".into(),
            format!("({} - {})", i[0], i[0]),
            format!("({}, {}, {}, {}, {})", i[2], j[2], k[2], k[0], j[0]),
            "LIST_ALL(A) + LIST_ALL(B) + LIST_ALL(C)".into(),
        ];
        if thorough {
            values.push(format!("({}, {})", j[2], k[2]));
            values.push(format!("({})", k[0]));
            values.push(format!("LIST_INVERT(({}, {}))", i[0], j[1]));
        }
        for (vi, v) in values.iter().enumerate() {
            let mut s = format!(
                "{decl}VAR v = ()\nVAR w = ()\nVAR n = 0\nVAR picked = ()\n~ v = {v}\nV {{v}}.\n"
            );
            for e in [
                "LIST_MIN(v)",
                "LIST_MAX(v)",
                "LIST_ALL(v)",
                "LIST_INVERT(v)",
                "LIST_COUNT(v)",
                "LIST_VALUE(v)",
                "LIST_RANDOM(v)",
                "LIST_RANDOM(v)",
                "LIST_RANDOM(LIST_ALL(v))",
                "LIST_RANGE(v, 1, 2)",
                "LIST_RANGE(v, 5, 5)",
                "LIST_RANGE(LIST_ALL(v), 1, 1)",
                "LIST_INVERT(LIST_MIN(v))",
                "LIST_ALL(LIST_MAX(v))",
                "LIST_MAX(LIST_INVERT(v))",
                "LIST_MIN(LIST_ALL(v))",
                "v + 1",
                "v - 1",
                "v + 2",
                "\"{v}\"",
                "v == LIST_MIN(v)",
                "LIST_INVERT(v - LIST_MIN(v))",
                "LIST_ALL(v ^ LIST_MAX(v))",
                "LIST_VALUE(LIST_RANDOM(v))",
                "LIST_RANGE(v, LIST_MIN(v), LIST_MAX(v))",
                "LIST_ALL(v - v)",
                "LIST_INVERT(v - v)",
                "A(1)",
                "B(2)",
                "C(1)",
                "A(5)",
                "C(0)",
            ] {
                s.push_str(&format!("{{{e}}}\n"));
            }
            for (wi, w) in values.iter().enumerate() {
                if !thorough && (vi + wi) % 2 == 1 {
                    continue;
                }
                s.push_str(&format!("~ w = {w}\n"));
                for e in [
                    "v + w",
                    "v - w",
                    "v ^ w",
                    "v < w",
                    "v > w",
                    "v <= w",
                    "v >= w",
                    "v == w",
                    "v ? w",
                    "v !? w",
                    "LIST_MIN(v + w)",
                    "LIST_MAX(v + w)",
                    "LIST_ALL(v + w)",
                    "LIST_INVERT(v - w)",
                    "LIST_RANDOM(v + w)",
                    "v && w",
                    "LIST_RANGE(v + w, v, w)",
                ] {
                    s.push_str(&format!("{{{e}}} \\\n"));
                }
                s.push_str("~ n = LIST_COUNT(v + w)\n");
                s.push_str("~ picked = LIST_RANDOM(v + w)\nPicked {picked}.\n~ v += w\n~ v -= w\n");
                s.push_str(&format!("~ v = {v}\n"));
            }
            s.push_str("* [pop] {pop(v)} {pop(v)} {v}\n* [keep] Kept {v} {w}.\n- -> END\n");
            s.push_str("== function pop(ref l)\n~ temp x = LIST_MIN(l)\n~ l -= x\n~ return x\n");
            out.push((format!("lists with {dn}, value {vi}"), json!({"s": s})));
        }
    }
    out
}

fn random_programs() -> Vec<(String, Value)> {
    let mut out = Vec::new();
    for kind in [
        "shuffle",
        "shuffle once",
        "shuffle stopping",
        "cycle",
        "stopping",
        "once",
    ] {
        for n in [2, 3, 5] {
            for seed in [-7, 0, 1, 2147483647] {
                let mut s =
                    format!("VAR n = 0\n~ SEED_RANDOM({seed})\n-> top\n== top\n{{{kind}:\n");
                for i in 0..n {
                    s.push_str(&format!("- e{i} {{~x|y|z}}\n"));
                }
                s.push_str(
                    "}\n~ n++\n{RANDOM(1, 6)} {RANDOM(-3, 3)} {RANDOM(0, 2147483646)}\n+ [again {~p|q}] -> top\n+ {n > 8} [end] -> END\n",
                );
                out.push((format!("{kind} of {n}, seed {seed}"), json!({"s": s})));
            }
        }
    }
    out
}

/// Many names of every kind, so that every map has something to disorder.
fn crowded_programs() -> Vec<(String, Value)> {
    let mut out = Vec::new();
    for n in [3, 8] {
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&format!("VAR v{i} = {i}\nLIST L{i} = (i{i}), j{i}, same\nCONST c{i} = {i}\nEXTERNAL e{i}(a)\n"));
        }
        s.push_str("# author: me\n# title: you\n-> k0\n");
        for i in 0..n {
            let next = (i + 1) % n;
            s.push_str(&format!(
                "== k{i}\n# tag{i}\nKnot {i} {{v{i}}} {{L{i}}} {{e{i}(c{i})}} {{k{next}}} {{k{next}.s}}. # end {{v{i}}}\n\
                 <- t{i}\n+ (lab{i}) [go {{lab{i}}}] -> k{next}.s\n+ [stay] {{same}} {{f{i}(v{i})}} -> s\n- (g{i}) done {{g{i}}}\n-> END\n\
                 = s\nStitch {i}. {{TURNS_SINCE(-> k{i})}}\n~ v{i} = v{next} + 1\n~ L{i} = L{next} + same\n{{L{i}}} {{LIST_ALL(L{i})}}\n-> k{next}\n\
                 == t{i}\n* thread {i} # tt{i}\n- {{v{i}}}\n-> DONE\n\
                 == function f{i}(ref x)\n~ x = x + {i}\n~ return x\n\
                 == function e{i}(a)\n~ return a\n"
            ));
        }
        out.push((format!("crowded {n}"), json!({"s": s})));
        // Names that could mean several things.
        let s2 = format!(
            "LIST A = x, y, z\nLIST B = y, z, x\nLIST C = z = 3, x = 1, y = 1\nVAR v = ()\nVAR w = x\n{}~ v = (x, y)\n{{v}} {{w}} {{x}} {{y}} {{z}} {{A.x}} {{B.x}} {{LIST_ALL(v)}} {{LIST_INVERT(w)}}\n* [a] {{x == A.x}} {{x == B.x}} {{x == C.x}}\n- -> END\n",
            (0..n)
                .map(|i| format!("LIST D{i} = x, q{i}\n"))
                .collect::<String>()
        );
        out.push((format!("ambiguous {n}"), json!({"s": s2})));
    }
    out
}

pub fn run(r: &Report) {
    for release in [false, true] {
        if !c04::exe(release).exists() {
            return r.engine_error("a build of the harness is missing");
        }
        let q = json!({"cmd": "c03", "cases": [{"s": "Hello.\n"}], "seeds": [0, 1]});
        match c04::ask(release, &q, 20) {
            Ok(v) if (v["checked"] == true) != release && v["counts"][0] == 2 => {}
            x => return r.engine_error(format!("a child does not work: {x:?}")),
        }
    }
    // The seeds really steer the maps: the same seed gives the same order, all orders occur.
    let order = |s: u64| {
        with_hash_seed(s, || {
            let m: std::collections::HashMap<u32, ()> = (0..4).map(|i| (i, ())).collect();
            m.into_keys().collect::<Vec<_>>()
        })
    };
    if (0..20).any(|s| order(s) != order(s)) {
        return r.engine_error("hash seeds are not under control");
    }
    let thorough = r.tier == Tier::Thorough;
    let t = Tally {
        orders: Default::default(),
    };
    let mut work: Vec<(&str, Value, Vec<(String, Value)>)> = Vec::new();
    let mut add = |class: &'static str, extra: Value, per: usize, cases: Vec<(String, Value)>| {
        for c in cases.chunks(per) {
            work.push((class, extra.clone(), c.to_vec()));
        }
    };
    add("lists", json!({"cap": 4}), 1, list_programs(thorough));
    add(
        "random",
        json!({"cap": r.tier.pick(8, 40)}),
        6,
        random_programs(),
    );
    add(
        "crowded",
        json!({"cap": r.tier.pick(8, 40), "depth": 5, "calls": r.tier.pick(1, 6)}),
        1,
        crowded_programs(),
    );
    let mut zoo = Vec::new();
    let mut refs = Vec::new();
    for p in programs(r) {
        if p.name.starts_with("ref:") {
            if is_big(&p) && !thorough {
                continue;
            }
            // Both what this compiler makes of the source and the reference story.
            refs.push((p.name.clone(), json!({"s": p.source, "j": p.json})));
            if !p.source.contains("INCLUDE") {
                refs.push((format!("{} compiled", p.name), json!({"s": p.source})));
            }
        } else {
            zoo.push((p.name.clone(), json!({"s": p.source})));
        }
    }
    add(
        "zoo",
        json!({"cap": r.tier.pick(8, 60), "calls": r.tier.pick(1, 8)}),
        1,
        zoo,
    );
    add(
        "corpus",
        if thorough {
            json!({"cap": 16, "calls": 2})
        } else {
            json!({"cap": 4, "depth": 4})
        },
        1,
        refs,
    );
    par_each(r, &work, |(class, extra, cases)| {
        batch(r, &t, class, extra, cases)
    });
    let orders = t.orders.into_inner().unwrap();
    let mut small = 0;
    let mut full = 0;
    for (k, o) in &orders {
        let n = k.split(',').count();
        let all: usize = (1..=n).product();
        if n <= 3 {
            small += 1;
            if o.len() == all {
                full += 1;
            }
        }
        r.count(
            &format!("iteration orders seen of lists of {n}"),
            o.len() as u64,
        );
        r.count(
            &format!("iteration orders possible of lists of {n}"),
            all as u64,
        );
    }
    r.note(format!(
        "{full} of {small} lists of two or three items went through all their orders"
    ));
    if !r.stop() && full * 10 < small * 9 {
        r.engine_error("too few iteration orders were reached");
    }
}
