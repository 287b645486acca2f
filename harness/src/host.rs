//! A host: one story plus everything a game attaches to it, driven by explicit operations.
use crate::prog::Prog;
use crate::util::catch;
use bladeink::{
    story::{
        Story,
        errors::{ErrorHandler, ErrorType},
        external_functions::ExternalFunction,
        variable_observer::VariableObserver,
    },
    story_error::StoryError,
    value_type::ValueType,
};
use serde_json::Value;
use std::{cell::RefCell, fmt, rc::Rc};

pub const FUEL: u64 = 30_000;

/// Host-side values used as arguments.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    I(i32),
    F(f32),
    B(bool),
    S(String),
    /// Copy of the current value of a global variable.
    Var(String),
    EmptyList,
}

impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::I(i) => write!(f, "{i}"),
            V::F(x) => write!(f, "{x:?}"),
            V::B(b) => write!(f, "{b}"),
            V::S(s) => write!(f, "{s:?}"),
            V::Var(s) => write!(f, "${s}"),
            V::EmptyList => write!(f, "()"),
        }
    }
}

impl V {
    pub fn value(&self, s: &Story) -> ValueType {
        match self {
            V::I(i) => ValueType::Int(*i),
            V::F(x) => ValueType::Float(*x),
            V::B(b) => ValueType::Bool(*b),
            V::S(t) => ValueType::new::<&str>(t.as_str()),
            V::Var(n) => s.get_variable(n).unwrap_or(ValueType::Int(0)),
            V::EmptyList => ValueType::List(Default::default()),
        }
    }
}

/// Exact text of a value (type included).
pub fn render(v: &ValueType) -> String {
    match v {
        ValueType::Bool(b) => format!("bool:{b}"),
        ValueType::Int(i) => format!("int:{i}"),
        ValueType::Float(x) => format!("float:{x:?}"),
        ValueType::String(s) => format!("str:{:?}", s.string),
        ValueType::List(l) => {
            let mut items: Vec<(i32, String)> = l
                .items
                .iter()
                .map(|(k, v)| (*v, k.get_full_name()))
                .collect();
            items.sort();
            let mut o = l.get_origin_names();
            o.sort();
            o.dedup();
            format!("list:{items:?} of {o:?}")
        }
        ValueType::DivertTarget(p) => format!("target:{p}"),
        ValueType::VariablePointer(_) => "pointer".into(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Cont,
    ContMax,
    /// One time-limited continue whose time runs out at the n-th clock question (-1: never).
    Async(i64),
    /// Finish the current line with time-limited continues of n steps each.
    Sliced(i64),
    Choose(usize),
    Switch(String),
    SwitchDefault,
    RemoveFlow(String),
    Set(String, V),
    Path(String, bool, Vec<V>),
    Eval(String, Vec<V>),
    Save,
    LoadSaved,
    /// Load a given text.
    LoadText(String),
    /// Save and continue with a fresh story that loaded the save.
    Reload,
    Reset,
    Observe(String, usize),
    Unobserve(usize, Option<String>),
    Bind(String, bool),
    Unbind(String),
    Fallbacks(bool),
    Handler,
    TagsAt(String),
    GlobalTags,
    Visit(String),
}

impl fmt::Display for Op {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let args = |a: &Vec<V>| {
            a.iter()
                .map(|v| v.to_string())
                .collect::<Vec<_>>()
                .join(",")
        };
        match self {
            Op::Cont => write!(f, "cont"),
            Op::ContMax => write!(f, "continue_maximally"),
            Op::Async(n) => write!(f, "continue_async(pause at {n})"),
            Op::Sliced(n) => write!(f, "sliced cont({n})"),
            Op::Choose(i) => write!(f, "choose {i}"),
            Op::Switch(s) => write!(f, "switch_flow {s:?}"),
            Op::SwitchDefault => write!(f, "switch_to_default_flow"),
            Op::RemoveFlow(s) => write!(f, "remove_flow {s:?}"),
            Op::Set(n, v) => write!(f, "set {n}={v}"),
            Op::Path(p, r, a) => write!(f, "choose_path {p:?} reset={r} args=({})", args(a)),
            Op::Eval(p, a) => write!(f, "evaluate_function {p:?}({})", args(a)),
            Op::Save => write!(f, "save"),
            Op::LoadSaved => write!(f, "load saved"),
            Op::LoadText(t) => write!(f, "load text {:?}", t.chars().take(60).collect::<String>()),
            Op::Reload => write!(f, "save+load into fresh story"),
            Op::Reset => write!(f, "reset"),
            Op::Observe(n, i) => write!(f, "observe {n} with observer {i}"),
            Op::Unobserve(i, n) => write!(f, "remove observer {i} from {n:?}"),
            Op::Bind(n, s) => write!(f, "bind {n} lookahead_safe={s}"),
            Op::Unbind(n) => write!(f, "unbind {n}"),
            Op::Fallbacks(b) => write!(f, "allow fallbacks {b}"),
            Op::Handler => write!(f, "set error handler"),
            Op::TagsAt(p) => write!(f, "tags_for_content_at_path {p:?}"),
            Op::GlobalTags => write!(f, "get_global_tags"),
            Op::Visit(p) => write!(f, "visit count {p:?}"),
        }
    }
}

pub fn show_ops(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| o.to_string())
        .collect::<Vec<_>>()
        .join("; ")
}

pub type Log = Rc<RefCell<Vec<String>>>;

pub struct Obs {
    id: usize,
    log: Log,
}

impl VariableObserver for Obs {
    fn changed(&mut self, name: &str, v: &ValueType) {
        self.log
            .borrow_mut()
            .push(format!("observer{} {name}={}", self.id, render(v)));
    }
}

pub struct Err_ {
    log: Log,
}

impl ErrorHandler for Err_ {
    fn error(&mut self, m: &str, t: ErrorType) {
        let t = match t {
            ErrorType::Warning => "warning",
            ErrorType::Error => "error",
        };
        self.log.borrow_mut().push(format!("handler {t}: {m}"));
    }
}

pub struct Ext {
    log: Log,
    calls: i32,
}

impl ExternalFunction for Ext {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        self.calls += 1;
        let a: Vec<String> = args.iter().map(render).collect();
        self.log
            .borrow_mut()
            .push(format!("external {name}({})", a.join(",")));
        ext_result(name, &args, self.calls)
    }
}

/// What every bound external returns: a function of its name and arguments only,
/// except for names containing "count" (call counter) and "void" (nothing).
pub fn ext_result(name: &str, args: &[ValueType], calls: i32) -> Option<ValueType> {
    if name.contains("void") {
        return None;
    }
    if name.contains("count") {
        return Some(ValueType::Int(calls));
    }
    if name.contains("true") {
        return Some(ValueType::Bool(true));
    }
    if name.contains("echo") {
        return args.first().cloned();
    }
    if name.contains("str") {
        return Some(ValueType::new::<&str>(
            args.iter()
                .map(|a| match a {
                    ValueType::String(s) => s.string.clone(),
                    ValueType::Int(i) => i.to_string(),
                    o => render(o),
                })
                .collect::<Vec<_>>()
                .join("+")
                .as_str(),
        ));
    }
    let mut n = 0i32;
    let mut place = 1i32;
    for a in args {
        n = n.wrapping_add(place.wrapping_mul(match a {
            ValueType::Int(i) => *i,
            ValueType::Bool(b) => *b as i32,
            ValueType::Float(x) => *x as i32,
            _ => 5,
        }));
        place = place.wrapping_mul(10);
    }
    if args.is_empty() {
        n = 7;
    }
    Some(ValueType::Int(n))
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg {
    pub seed: Option<i32>,
    pub handler: bool,
    /// Observe every declared global with observer 0.
    pub observe_all: bool,
    /// Do not bind the externals of the program.
    pub no_bind: bool,
}

pub struct Host<'p> {
    pub prog: &'p Prog,
    pub cfg: Cfg,
    pub story: Story,
    pub log: Log,
    pub dead: bool,
    pub slot: Option<String>,
    pub observers: Vec<(Rc<RefCell<Obs>>, Rc<RefCell<dyn VariableObserver>>)>,
    exts: std::collections::HashMap<String, Rc<RefCell<Ext>>>,
}

pub fn err(e: &StoryError) -> String {
    match e {
        StoryError::InvalidStoryState(m) => format!("Err(state: {m})"),
        StoryError::BadJson(m) => format!("Err(json: {m})"),
        StoryError::BadArgument(m) => format!("Err(arg: {m})"),
    }
}

fn unit(r: Result<(), StoryError>) -> String {
    match r {
        Ok(()) => "Ok".into(),
        Err(e) => err(&e),
    }
}

fn text(r: Result<String, StoryError>) -> String {
    match r {
        Ok(t) => format!("Ok({t:?})"),
        Err(e) => err(&e),
    }
}

impl<'p> Host<'p> {
    pub fn new(prog: &'p Prog, cfg: &Cfg) -> Result<Host<'p>, String> {
        let log: Log = Rc::new(RefCell::new(Vec::new()));
        let story = Self::fresh_story(prog, cfg)?;
        let mut h = Host {
            prog,
            cfg: cfg.clone(),
            story,
            log,
            dead: false,
            slot: None,
            observers: Vec::new(),
            exts: Default::default(),
        };
        for id in 0..3 {
            let o = Rc::new(RefCell::new(Obs {
                id,
                log: h.log.clone(),
            }));
            let d: Rc<RefCell<dyn VariableObserver>> = o.clone();
            h.observers.push((o, d));
        }
        h.attach()?;
        Ok(h)
    }

    fn fresh_story(prog: &Prog, cfg: &Cfg) -> Result<Story, String> {
        bladeink::verif::set_initial_seed(cfg.seed);
        bladeink::verif::set_fuel(Some(FUEL));
        match catch(|| Story::new(&prog.json)) {
            Ok(Ok(s)) => Ok(s),
            Ok(Err(e)) => Err(err(&e)),
            Err(p) => Err(format!("PANIC {p}")),
        }
    }

    fn attach(&mut self) -> Result<(), String> {
        let prog = self.prog;
        if !self.cfg.no_bind {
            for (name, kind) in &prog.externals {
                match kind.as_str() {
                    "safe" | "unsafe" => {
                        self.apply(&Op::Bind(name.clone(), kind == "safe"));
                    }
                    _ => {}
                }
            }
        }
        if prog.fallbacks {
            self.story.set_allow_external_function_fallbacks(true);
        }
        if self.cfg.handler {
            self.apply(&Op::Handler);
        }
        if self.cfg.observe_all {
            for v in &prog.vars {
                self.apply(&Op::Observe(v.clone(), 0));
            }
        }
        self.log.borrow_mut().clear();
        Ok(())
    }

    /// The externals start counting their calls anew.
    pub fn restart_externals(&mut self) {
        for e in self.exts.values() {
            e.borrow_mut().calls = 0;
        }
    }

    pub fn take_log(&self) -> Vec<String> {
        std::mem::take(&mut *self.log.borrow_mut())
    }

    /// Performs one host operation and returns what the host sees of it.
    pub fn apply(&mut self, op: &Op) -> String {
        if self.dead {
            return "dead".into();
        }
        bladeink::verif::set_initial_seed(self.cfg.seed);
        bladeink::verif::set_fuel(Some(FUEL));
        web_time::set_countdown(-1);
        let r = catch(|| self.apply_inner(op));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                self.dead = true;
                format!("PANIC {p}")
            }
        };
        if bladeink::verif::fuel_exhausted() {
            self.dead = true;
            return "OUT OF FUEL".into();
        }
        r
    }

    fn apply_inner(&mut self, op: &Op) -> String {
        let s = &mut self.story;
        match op {
            Op::Cont => text(s.cont()),
            Op::ContMax => text(s.continue_maximally()),
            Op::Async(n) => {
                web_time::set_countdown(*n);
                let r = unit(s.continue_async(1.0));
                web_time::set_countdown(-1);
                r
            }
            Op::Sliced(n) => {
                let mut guard = 0;
                loop {
                    web_time::set_countdown(*n);
                    let r = s.continue_async(1.0);
                    web_time::set_countdown(-1);
                    if let Err(e) = r {
                        return err(&e);
                    }
                    match s.get_current_text() {
                        Ok(t) => return format!("Ok({t:?})"),
                        Err(_) => guard += 1,
                    }
                    if guard > FUEL {
                        return "never finishes".into();
                    }
                }
            }
            Op::Choose(i) => unit(s.choose_choice_index(*i)),
            Op::Switch(f) => unit(s.switch_flow(f)),
            Op::SwitchDefault => {
                s.switch_to_default_flow();
                "Ok".into()
            }
            Op::RemoveFlow(f) => unit(s.remove_flow(f)),
            Op::Set(n, v) => {
                let v = v.value(s);
                unit(s.set_variable(n, &v))
            }
            Op::Path(p, r, a) => {
                let a: Vec<ValueType> = a.iter().map(|v| v.value(s)).collect();
                let a = if a.is_empty() { None } else { Some(&a) };
                unit(s.choose_path_string(p, *r, a))
            }
            Op::Eval(p, a) => {
                let a: Vec<ValueType> = a.iter().map(|v| v.value(s)).collect();
                let a = if a.is_empty() { None } else { Some(&a) };
                let mut out = String::new();
                match s.evaluate_function(p, a, &mut out) {
                    Ok(v) => format!(
                        "Ok({}, {out:?})",
                        v.map(|v| render(&v)).unwrap_or("nothing".into())
                    ),
                    Err(e) => err(&e),
                }
            }
            Op::Save => match s.save_state() {
                Ok(t) => {
                    self.slot = Some(t);
                    "Ok".into()
                }
                Err(e) => err(&e),
            },
            Op::LoadSaved => match &self.slot {
                Some(t) => unit(s.load_state(t)),
                None => "nothing saved".into(),
            },
            Op::LoadText(t) => unit(s.load_state(t)),
            Op::Reload => {
                let t = match s.save_state() {
                    Ok(t) => t,
                    Err(e) => return err(&e),
                };
                match Self::fresh_story(self.prog, &self.cfg) {
                    Ok(n) => self.story = n,
                    Err(e) => return format!("fresh story: {e}"),
                }
                let keep = self.take_log();
                if let Err(e) = self.attach() {
                    return e;
                }
                *self.log.borrow_mut() = keep;
                unit(self.story.load_state(&t))
            }
            Op::Reset => unit(s.reset_state()),
            Op::Observe(n, i) => unit(s.observe_variable(n, self.observers[*i].1.clone())),
            Op::Unobserve(i, n) => {
                unit(s.remove_variable_observer(&self.observers[*i].1, n.as_deref()))
            }
            Op::Bind(n, safe) => {
                let log = self.log.clone();
                let e = self
                    .exts
                    .entry(n.clone())
                    .or_insert_with(|| Rc::new(RefCell::new(Ext { log, calls: 0 })));
                unit(s.bind_external_function(n, e.clone(), *safe))
            }
            Op::Unbind(n) => unit(s.unbind_external_function(n)),
            Op::Fallbacks(b) => {
                s.set_allow_external_function_fallbacks(*b);
                "Ok".into()
            }
            Op::Handler => {
                s.set_error_handler(Rc::new(RefCell::new(Err_ {
                    log: self.log.clone(),
                })));
                "Ok".into()
            }
            Op::TagsAt(p) => match s.tags_for_content_at_path(p) {
                Ok(t) => format!("Ok({t:?})"),
                Err(e) => err(&e),
            },
            Op::GlobalTags => match s.get_global_tags() {
                Ok(t) => format!("Ok({t:?})"),
                Err(e) => err(&e),
            },
            Op::Visit(p) => match s.get_visit_count_at_path_string(p) {
                Ok(t) => format!("Ok({t})"),
                Err(e) => err(&e),
            },
        }
    }

    pub fn apply_tags(&mut self) -> String {
        if self.dead {
            return "dead".into();
        }
        match catch(|| self.story.get_current_tags()) {
            Ok(Ok(t)) => format!("{t:?}"),
            Ok(Err(e)) => err(&e),
            Err(p) => {
                self.dead = true;
                format!("PANIC {p}")
            }
        }
    }

    /// Everything the player sees now.
    pub fn screen(&mut self) -> String {
        if self.dead {
            return "dead\n".into();
        }
        let mut out = String::new();
        let r = catch(|| {
            let s = &mut self.story;
            out.push_str(&format!("can_continue {}\n", s.can_continue()));
            out.push_str(&format!("text {}\n", text(s.get_current_text())));
            match s.get_current_tags() {
                Ok(t) => out.push_str(&format!("tags {t:?}\n")),
                Err(e) => out.push_str(&format!("tags {}\n", err(&e))),
            }
            for c in s.get_current_choices() {
                out.push_str(&format!(
                    "choice {} {:?} {:?}\n",
                    c.index.borrow(),
                    c.text,
                    c.tags
                ));
            }
        });
        if let Err(p) = r {
            self.dead = true;
            out.push_str(&format!("PANIC {p}\n"));
        }
        out
    }

    /// Global variables and visit counts.
    pub fn memory(&mut self) -> String {
        if self.dead {
            return "dead\n".into();
        }
        let mut out = String::new();
        let r = catch(|| {
            for v in &self.prog.vars {
                out.push_str(&format!(
                    "var {v} = {}\n",
                    self.story
                        .get_variable(v)
                        .map(|v| render(&v))
                        .unwrap_or("none".into())
                ));
            }
            for p in &self.prog.counted {
                match self.story.get_visit_count_at_path_string(p) {
                    Ok(0) => {}
                    Ok(n) => out.push_str(&format!("visits {p} = {n}\n")),
                    Err(e) => out.push_str(&format!("visits {p} {}\n", err(&e))),
                }
            }
        });
        if let Err(p) = r {
            self.dead = true;
            out.push_str(&format!("PANIC {p}\n"));
        }
        out
    }

    pub fn errors(&self) -> String {
        format!(
            "errors {:?}\nwarnings {:?}\n",
            self.story.get_current_errors(),
            self.story.get_current_warnings()
        )
    }

    pub fn all(&mut self) -> String {
        let mut s = self.screen();
        s.push_str(&self.memory());
        if !self.dead {
            s.push_str(&self.errors());
        }
        s
    }

    pub fn save(&mut self) -> Result<Value, String> {
        if self.dead {
            return Err("dead".into());
        }
        match catch(|| self.story.save_state()) {
            Ok(Ok(t)) => serde_json::from_str(&t).map_err(|e| format!("save is not JSON: {e}")),
            Ok(Err(e)) => Err(err(&e)),
            Err(p) => {
                self.dead = true;
                Err(format!("PANIC {p}"))
            }
        }
    }

    pub fn n_choices(&self) -> usize {
        if self.dead {
            0
        } else {
            catch(|| self.story.get_current_choices().len()).unwrap_or(0)
        }
    }

    pub fn can(&self) -> bool {
        !self.dead && self.story.can_continue()
    }

    /// Operations a player can perform now.
    pub fn moves(&self) -> Vec<Op> {
        if self.dead {
            vec![]
        } else if self.can() {
            vec![Op::Cont]
        } else {
            (0..self.n_choices()).map(Op::Choose).collect()
        }
    }

    /// Performs operations; returns each result and the events it caused.
    pub fn run(&mut self, ops: &[Op]) -> String {
        let mut out = String::new();
        for op in ops {
            let r = self.apply(op);
            out.push_str(&format!("> {op}\n{r}\n"));
            for e in self.take_log() {
                out.push_str(&format!("! {e}\n"));
            }
        }
        out
    }
}

/// All play sequences (continues and choices) from the current state of `make()`, to a depth,
/// rendered as one text. Every node shows the screen, the memory and the events.
pub fn futures<'p>(
    make: &dyn Fn() -> Option<Host<'p>>,
    depth: usize,
    budget: &mut usize,
    full: bool,
) -> String {
    let mut out = String::new();
    let mut stack: Vec<Vec<Op>> = vec![vec![]];
    while let Some(path) = stack.pop() {
        if *budget == 0 {
            out.push_str("budget\n");
            break;
        }
        *budget -= 1;
        let Some(mut h) = make() else {
            out.push_str("no story\n");
            break;
        };
        h.take_log();
        // Follow the path; then keep going while there is only one way to go.
        let mut p = path.clone();
        h.run(&path);
        out.push_str(&format!("at {}\n", show_ops(&path)));
        loop {
            out.push_str(&h.screen());
            if full {
                out.push_str(&h.memory());
                out.push_str(&if h.dead { String::new() } else { h.errors() });
            }
            let m = h.moves();
            if p.len() >= depth || m.is_empty() {
                break;
            }
            if m.len() == 1 {
                p.push(m[0].clone());
                out.push_str(&h.run(&m[..1]));
                continue;
            }
            for op in m.into_iter().rev() {
                let mut q = p.clone();
                q.push(op);
                stack.push(q);
            }
            break;
        }
    }
    out
}
