From 95a22dfcfb004baeb120e1fedada814da9be5129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 01/56] Add checking hooks behind cfg(bladeink_verif)

---
 runtime/src/lib.rs            |   3 +
 runtime/src/story/mod.rs      |   5 +
 runtime/src/story/progress.rs |   3 +
 runtime/src/story_state.rs    |   2 +
 runtime/src/verif.rs          | 430 ++++++++++++++++++++++++++++++++++
 5 files changed, 443 insertions(+)
 create mode 100644 runtime/src/verif.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..73417d3 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -44,6 +44,7 @@
 //! features will be added to this documentation in the future, but meanwhile,
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
+#![allow(unexpected_cfgs)] // `bladeink_verif` enables the checking hooks
 
 mod callstack;
 pub mod choice;
@@ -74,4 +75,6 @@ pub mod value_type;
 mod variable_assigment;
 mod variable_reference;
 mod variables_state;
+#[cfg(bladeink_verif)]
+pub mod verif;
 mod void;
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..b476bd5 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -108,6 +108,11 @@ mod misc {
             sb
         }
 
+        #[cfg(bladeink_verif)]
+        pub(crate) fn verif_root(&self) -> Rc<crate::container::Container> {
+            self.main_content_container.clone()
+        }
+
         pub(crate) fn is_truthy(&self, obj: Rc<dyn RTObject>) -> Result<bool, StoryError> {
             let truthy = false;
 
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..bf4cd22 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -342,6 +342,9 @@ impl Story {
     }
 
     pub(crate) fn step(&mut self) -> Result<(), StoryError> {
+        #[cfg(bladeink_verif)]
+        crate::verif::on_step()?;
+
         let mut should_add_to_stream = true;
 
         // Get current content
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..5969fac 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -66,6 +66,8 @@ impl StoryState {
 
         let mut rng = rand::rng();
         let story_seed = rng.random_range(0..100);
+        #[cfg(bladeink_verif)]
+        let story_seed = crate::verif::initial_seed().unwrap_or(story_seed);
 
         let state = StoryState {
             current_flow,
diff --git a/runtime/src/verif.rs b/runtime/src/verif.rs
new file mode 100644
index 0000000..b4546ef
--- /dev/null
+++ b/runtime/src/verif.rs
@@ -0,0 +1,430 @@
+//! Hooks for exhaustive checking of the engine. Only compiled with
+//! `--cfg bladeink_verif`; nothing here is part of the public API.
+#![allow(missing_docs)]
+
+use std::{
+    cell::Cell,
+    collections::hash_map::DefaultHasher,
+    hash::{Hash, Hasher},
+    rc::Rc,
+};
+
+use crate::{
+    choice_point::ChoicePoint,
+    container::Container,
+    control_command::ControlCommand,
+    divert::Divert,
+    glue::Glue,
+    native_function_call::NativeFunctionCall,
+    object::{Object, RTObject},
+    path::Path,
+    pointer::Pointer,
+    story::Story,
+    story_error::StoryError,
+    tag::Tag,
+    value::Value,
+    value_type::ValueType,
+    variable_assigment::VariableAssignment,
+    variable_reference::VariableReference,
+    void::Void,
+};
+
+thread_local! {
+    static FUEL: Cell<Option<u64>> = const { Cell::new(None) };
+    static FUEL_EXHAUSTED: Cell<bool> = const { Cell::new(false) };
+    static STEPS: Cell<u64> = const { Cell::new(0) };
+    static SEED: Cell<Option<i32>> = const { Cell::new(None) };
+}
+
+/// Limits the number of interpreter steps this thread may still execute.
+pub fn set_fuel(fuel: Option<u64>) {
+    FUEL.with(|f| f.set(fuel));
+    FUEL_EXHAUSTED.with(|f| f.set(false));
+}
+
+/// Whether a step was refused because the fuel ran out.
+pub fn fuel_exhausted() -> bool {
+    FUEL_EXHAUSTED.with(|f| f.get())
+}
+
+/// Interpreter steps executed by this thread so far.
+pub fn steps() -> u64 {
+    STEPS.with(|s| s.get())
+}
+
+/// Seed given to every story state created by this thread.
+pub fn set_initial_seed(seed: Option<i32>) {
+    SEED.with(|s| s.set(seed));
+}
+
+pub(crate) fn initial_seed() -> Option<i32> {
+    SEED.with(|s| s.get())
+}
+
+pub(crate) fn on_step() -> Result<(), StoryError> {
+    STEPS.with(|s| s.set(s.get() + 1));
+    FUEL.with(|f| match f.get() {
+        Some(0) => {
+            FUEL_EXHAUSTED.with(|x| x.set(true));
+            Err(StoryError::InvalidStoryState(
+                "verif: out of fuel".to_owned(),
+            ))
+        }
+        Some(n) => {
+            f.set(Some(n - 1));
+            Ok(())
+        }
+        None => Ok(()),
+    })
+}
+
+fn hash_of(p: &Path) -> u64 {
+    let mut h = DefaultHasher::new();
+    p.hash(&mut h);
+    h.finish()
+}
+
+/// What the engine makes of a path text.
+#[derive(Debug, Clone)]
+pub struct PathInfo {
+    pub text: String,
+    pub relative: bool,
+    pub len: usize,
+    pub hash: u64,
+}
+
+pub fn path_info(text: &str) -> PathInfo {
+    let p = Path::new_with_components_string(Some(text));
+    PathInfo {
+        text: p.to_string(),
+        relative: p.is_relative(),
+        len: p.len(),
+        hash: hash_of(&p),
+    }
+}
+
+pub fn paths_equal(a: &str, b: &str) -> (bool, u64, u64) {
+    let a = Path::new_with_components_string(Some(a));
+    let b = Path::new_with_components_string(Some(b));
+    (a == b, hash_of(&a), hash_of(&b))
+}
+
+/// Joins two path texts; returns the text of the joined path, the text of the
+/// same path after a text round trip, and whether both are equal and hash alike.
+pub fn path_append(a: &str, b: &str) -> (String, String, bool, bool) {
+    let a = Path::new_with_components_string(Some(a));
+    let b = Path::new_with_components_string(Some(b));
+    let j = a.path_by_appending_path(&b);
+    let t = j.to_string();
+    let r = Path::new_with_components_string(Some(&t));
+    let rt = r.to_string();
+    let eq = r == j;
+    let h = hash_of(&r) == hash_of(&j);
+    (t, rt, eq, h)
+}
+
+fn describe(o: &Rc<dyn RTObject>) -> (String, String) {
+    let any = o.clone().into_any();
+    let o2 = o.clone();
+    if let Ok(c) = any.clone().downcast::<Container>() {
+        let mut names: Vec<String> = c.named_content.keys().cloned().collect();
+        names.sort();
+        return (
+            "container".into(),
+            format!(
+                "name={:?} flags={} len={} named={:?}",
+                c.name,
+                c.get_count_flags(),
+                c.content.len(),
+                names
+            ),
+        );
+    }
+    if let Ok(v) = any.clone().downcast::<Value>() {
+        let text = match &v.value {
+            ValueType::Bool(b) => format!("bool {b}"),
+            ValueType::Int(i) => format!("int {i}"),
+            ValueType::Float(f) => format!("float {:08x}", f.to_bits()),
+            ValueType::String(s) => {
+                format!(
+                    "str {:?} nl={} ws={}",
+                    s.string, s.is_newline, s.is_inline_whitespace
+                )
+            }
+            ValueType::DivertTarget(p) => format!("target {p}"),
+            ValueType::VariablePointer(p) => {
+                format!("varptr {} {}", p.variable_name, p.context_index)
+            }
+            ValueType::List(l) => {
+                let mut items: Vec<String> = l
+                    .items
+                    .iter()
+                    .map(|(k, v)| format!("{}={v}", k.get_full_name()))
+                    .collect();
+                items.sort();
+                let mut origins = l.get_origin_names();
+                origins.sort();
+                format!("list {items:?} origins={origins:?}")
+            }
+        };
+        return ("value".into(), text);
+    }
+    if let Ok(d) = any.clone().downcast::<Divert>() {
+        let target = if d.has_variable_target() {
+            format!("var {:?}", d.variable_divert_name)
+        } else {
+            format!("{:?}", d.get_target_path_string())
+        };
+        return (
+            "divert".into(),
+            format!(
+                "{} cond={} ext={} args={} push={} type={}",
+                target,
+                d.is_conditional,
+                d.is_external,
+                d.external_args,
+                d.pushes_to_stack,
+                d.stack_push_type as i32
+            ),
+        );
+    }
+    if let Ok(c) = any.clone().downcast::<ChoicePoint>() {
+        return (
+            "choicepoint".into(),
+            format!("{} flags={}", c.get_path_string_on_choice(), c.get_flags()),
+        );
+    }
+    if let Ok(v) = any.clone().downcast::<VariableReference>() {
+        return (
+            "varref".into(),
+            format!("{} count={:?}", v.name, v.get_path_string_for_count()),
+        );
+    }
+    if let Ok(v) = any.clone().downcast::<VariableAssignment>() {
+        return (
+            "varassign".into(),
+            format!(
+                "{} global={} new={}",
+                v.variable_name, v.is_global, v.is_new_declaration
+            ),
+        );
+    }
+    if let Ok(t) = any.clone().downcast::<Tag>() {
+        return ("tag".into(), t.get_text().clone());
+    }
+    if any.clone().downcast::<Glue>().is_ok() {
+        return ("glue".into(), String::new());
+    }
+    if any.clone().downcast::<Void>().is_ok() {
+        return ("void".into(), String::new());
+    }
+    if let Ok(c) = any.clone().downcast::<ControlCommand>() {
+        return ("command".into(), c.to_string());
+    }
+    if let Ok(n) = any.downcast::<NativeFunctionCall>() {
+        return ("native".into(), n.to_string());
+    }
+    ("unknown".into(), o2.to_string())
+}
+
+fn collect(c: &Rc<Container>, out: &mut Vec<(Rc<dyn RTObject>, usize)>, depth: usize) {
+    out.push((c.clone(), depth));
+    for o in &c.content {
+        match o.clone().into_any().downcast::<Container>() {
+            Ok(child) => collect(&child, out, depth + 1),
+            Err(_) => out.push((o.clone(), depth + 1)),
+        }
+    }
+    let mut named: Vec<_> = c.get_named_only_content().into_iter().collect();
+    named.sort_by(|a, b| a.0.cmp(&b.0));
+    for (_, child) in named {
+        collect(&child, out, depth + 1);
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Audit {
+    /// Objects visited, `path | kind | text`, in tree order.
+    pub listing: Vec<String>,
+    /// Addressing failures found.
+    pub failures: Vec<String>,
+    /// Relative-path pairs checked.
+    pub pairs: u64,
+    /// Pointers (container + index) checked.
+    pub pointers: u64,
+}
+
+fn same(a: &Rc<dyn RTObject>, b: &Rc<dyn RTObject>) -> bool {
+    std::ptr::eq(Rc::as_ptr(a) as *const u8, Rc::as_ptr(b) as *const u8)
+}
+
+fn check_text(p: &Path, what: &str, failures: &mut Vec<String>) -> Path {
+    let text = p.to_string();
+    let q = Path::new_with_components_string(Some(&text));
+    if &q != p {
+        failures.push(format!("{what}: text '{text}' parses to a different path"));
+    }
+    if q.is_relative() != p.is_relative() {
+        failures.push(format!("{what}: text '{text}' lost its relativeness"));
+    }
+    if q.to_string() != text {
+        failures.push(format!(
+            "{what}: text '{text}' prints as '{q}' after a round trip"
+        ));
+    }
+    if &q == p && hash_of(&q) != hash_of(p) {
+        failures.push(format!("{what}: equal paths '{text}' hash differently"));
+    }
+    q
+}
+
+impl Story {
+    /// Walks the whole content tree and checks that every object is exactly
+    /// addressable. `max_pairs` bounds the number of relative-path pairs.
+    pub fn verif_audit(&self, max_pairs: u64) -> Audit {
+        let root = self.verif_root();
+        let mut objects = Vec::new();
+        collect(&root, &mut objects, 0);
+        let mut audit = Audit::default();
+
+        for (o, _) in &objects {
+            let path = Object::get_path(o.as_ref());
+            let text = path.to_string();
+            let found = root.content_at_path(&path, 0, -1);
+            if found.approximate || !same(&found.obj, o) {
+                audit.failures.push(format!(
+                    "object at '{text}' does not resolve to itself (approximate={})",
+                    found.approximate
+                ));
+            }
+            let parsed = check_text(&path, "object path", &mut audit.failures);
+            let found = root.content_at_path(&parsed, 0, -1);
+            if found.approximate || !same(&found.obj, o) {
+                audit
+                    .failures
+                    .push(format!("text path '{text}' does not resolve to its object"));
+            }
+            // From the object itself as well as from the root.
+            let found = Object::resolve_path(o.clone(), &path);
+            if found.approximate || !same(&found.obj, o) {
+                audit.failures.push(format!(
+                    "object at '{text}' cannot resolve its own path from itself"
+                ));
+            }
+            if let Ok(c) = o.clone().into_any().downcast::<Container>() {
+                for i in -1..c.content.len() as i32 {
+                    audit.pointers += 1;
+                    let p = Pointer::new(Some(c.clone()), i);
+                    let (Some(pp), Some(target)) = (p.get_path(), p.resolve()) else {
+                        continue;
+                    };
+                    let pp = check_text(&pp, "pointer path", &mut audit.failures);
+                    if pp.is_empty() {
+                        continue;
+                    }
+                    match Story::pointer_at_path(&root, &pp) {
+                        Ok(q) => {
+                            let ok = q
+                                .resolve()
+                                .is_some_and(|t| same(&t, &target) || c.content.is_empty());
+                            if !ok {
+                                audit.failures.push(format!(
+                                    "pointer path '{pp}' reads back as another position"
+                                ));
+                            }
+                            // A position that denotes an element of a container must keep
+                            // that container and index.
+                            if i >= 0
+                                && (q.index != i
+                                    || !q.container.is_some_and(|x| Rc::ptr_eq(&x, &c)))
+                            {
+                                audit.failures.push(format!(
+                                    "pointer path '{pp}' reads back with another container or index"
+                                ));
+                            }
+                        }
+                        Err(e) => audit
+                            .failures
+                            .push(format!("pointer path '{pp}' is refused: {e}")),
+                    }
+                }
+            }
+        }
+
+        'pairs: for (a, _) in &objects {
+            if Object::get_path(a.as_ref()).is_empty() {
+                continue;
+            }
+            for (b, _) in &objects {
+                if audit.pairs >= max_pairs {
+                    break 'pairs;
+                }
+                let bp = Object::get_path(b.as_ref());
+                if bp.is_empty() {
+                    continue;
+                }
+                audit.pairs += 1;
+                let text = Object::compact_path_string(a.clone(), &bp);
+                let p = Path::new_with_components_string(Some(&text));
+                let from = Object::get_path(a.as_ref()).to_string();
+                if p.is_empty() {
+                    audit.failures.push(format!(
+                        "compact path '{text}' from '{from}' to '{bp}' is empty"
+                    ));
+                    continue;
+                }
+                let found = Object::resolve_path(a.clone(), &p);
+                if found.approximate || !same(&found.obj, b) {
+                    audit.failures.push(format!(
+                        "compact path '{text}' from '{from}' does not lead to '{bp}'"
+                    ));
+                }
+                let rel = Object::convert_path_to_relative(a, &bp);
+                check_text(&rel, "relative path", &mut audit.failures);
+            }
+        }
+
+        for (o, depth) in &objects {
+            let (kind, text) = describe(o);
+            audit.listing.push(format!(
+                "{}|{}|{}|{}",
+                depth,
+                Object::get_path(o.as_ref()),
+                kind,
+                text
+            ));
+        }
+        audit
+    }
+
+    /// For every object that refers to content by path: the text of the
+    /// reference and whether it resolves exactly.
+    pub fn verif_references(&self) -> Vec<(String, String, String, bool)> {
+        let root = self.verif_root();
+        let mut objects = Vec::new();
+        collect(&root, &mut objects, 0);
+        let mut out = Vec::new();
+        for (o, _) in &objects {
+            let any = o.clone().into_any();
+            let from = Object::get_path(o.as_ref()).to_string();
+            if let Ok(d) = any.clone().downcast::<Divert>() {
+                if d.has_variable_target() || d.is_external {
+                    continue;
+                }
+                let text = d
+                    .get_target_path()
+                    .map(|p| p.to_string())
+                    .unwrap_or_default();
+                let p = Path::new_with_components_string(Some(&text));
+                let r = Object::resolve_path(o.clone(), &p);
+                out.push((from, "divert".to_owned(), text, !r.approximate));
+            } else if let Ok(c) = any.clone().downcast::<ChoicePoint>() {
+                let text = c.get_path_on_choice().to_string();
+                let p = Path::new_with_components_string(Some(&text));
+                let r = Object::resolve_path(o.clone(), &p);
+                out.push((from, "choice".to_owned(), text, !r.approximate));
+            }
+        }
+        out
+    }
+}
-- 
2.43.0


From 859e4cc24af4f3e86b7984952a69e67094952704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 02/56] fix: keep invisible default choices invisible across
 save and load

---
 runtime/src/choice.rs          | 3 ++-
 runtime/src/json/json_read.rs  | 5 +++++
 runtime/src/json/json_write.rs | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..5523704 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -52,6 +52,7 @@ impl Choice {
     pub(crate) fn new_from_json(
         path_string_on_choice: &str,
         source_path: String,
+        is_invisible_default: bool,
         text: &str,
         index: usize,
         original_thread_index: usize,
@@ -60,7 +61,7 @@ impl Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..9a1f4d7 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -422,10 +422,15 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
     let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
     let choice_tags = jarray_to_tags(obj);
+    let is_invisible_default = obj
+        .get("isInvisibleDefault")
+        .and_then(|v| v.as_bool())
+        .unwrap_or(false);
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
         source_path.to_string(),
+        is_invisible_default,
         text,
         index,
         original_thread_index,
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..2a128ac 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -286,6 +286,10 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
 
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
-- 
2.43.0


From d14c136dfa12bacc969d47d1449148d9197bd64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 03/56] fix: don't keep a stale copy of the current flow among
 the other flows

---
 runtime/src/story_state.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 5969fac..e6c582a 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -795,19 +795,14 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
+        // The copy of the state has its own copy of the named flows dictionary
         // (Assuming we're in multi-flow mode at all. If we're not then
-        // the above copy is simply the default flow copy and we're done)
+        // the above copy is simply the default flow copy and we're done).
+        // The current flow isn't part of it: it's kept in current_flow.
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
             copy.alive_flow_names_dirty = true;
 
-            copy.named_flows = nf;
+            copy.named_flows = self.named_flows.clone();
         }
 
         if self.has_error() {
-- 
2.43.0


From a8ad12e060d1aaca3918244ed4632a581103af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 04/56] fix: report list origins in a stable order and without
 repetition

---
 runtime/src/ink_list.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..50ef1be 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -111,9 +111,12 @@ impl InkList {
             let mut names = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                names.extend(k.get_origin_name().cloned());
             }
 
+            names.sort();
+            names.dedup();
+
             return names;
         }
 
-- 
2.43.0


From 899d15a212f598dd6ea8c63ba4aaed92992922ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 05/56] fix: save the origins of empty lists

---
 runtime/src/json/json_write.rs | 7 +++++++
 runtime/src/variables_state.rs | 4 +++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 2a128ac..b363b51 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -266,6 +266,13 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // An empty list still knows which lists it can hold items of
+    if list.items.is_empty() {
+        let origin_names = list.get_origin_names();
+        if !origin_names.is_empty() {
+            jobj.insert("origins".to_owned(), json!(origin_names));
+        }
+    }
     serde_json::Value::Object(jobj)
 }
 
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..d810616 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -368,7 +368,9 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From bdda453779122dd3fe6460269c8e8864422a39ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 06/56] fix: load a saved state completely or not at all

---
 runtime/src/story/state.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..371eda6 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -118,7 +118,24 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
-        self.get_state_mut().load_json(json_state)
+        self.if_async_we_cant("load a state")?;
+
+        // Load into a new state, so that nothing of the current one remains
+        // and a failure leaves it untouched.
+        let mut state = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+
+        let default_globals = &self.state.variables_state.default_global_variables;
+        state.variables_state.global_variables = default_globals.clone();
+        state.variables_state.default_global_variables = default_globals.clone();
+
+        state.load_json(json_state)?;
+
+        self.state = state;
+
+        Ok(())
     }
 
     /// Reset the Story back to its initial state as it was when it was first constructed.
-- 
2.43.0


From 79473c3d02c0d55ac5b6b0cb8a0ae791c6a20eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 07/56] fix: don't panic saving a thread that stepped past the
 end of its container

---
 runtime/src/callstack.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..f0bd5f5 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -171,12 +171,10 @@ impl Thread {
         thread.insert("callstack".to_owned(), serde_json::Value::Array(cs_array));
         thread.insert("threadIndex".to_owned(), json!(self.thread_index));
 
-        if !self.previous_pointer.is_null() {
+        if let Some(previous_content) = self.previous_pointer.resolve() {
             thread.insert(
                 "previousContentObject".to_owned(),
-                json!(
-                    Object::get_path(self.previous_pointer.resolve().unwrap().as_ref()).to_string()
-                ),
+                json!(Object::get_path(previous_content.as_ref()).to_string()),
             );
         }
 
-- 
2.43.0


From 0ff7141588260519216a33dae2d1a551caef66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 08/56] fix: don't let hash map order decide between list items
 of equal value

---
 runtime/src/ink_list.rs                | 44 +++++++++++---------------
 runtime/src/list_definition.rs         | 13 ++++----
 runtime/src/list_definitions_origin.rs |  4 +++
 runtime/src/story/control_logic.rs     |  4 ++-
 4 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 50ef1be..49e7558 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -1,5 +1,5 @@
 use core::fmt;
-use std::{cell::RefCell, collections::HashMap};
+use std::{cell::RefCell, cmp::Ordering, collections::HashMap};
 
 use crate::{
     ink_list_item::InkListItem, list_definition::ListDefinition,
@@ -68,38 +68,30 @@ impl InkList {
 
     fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
         let mut ordered: Vec<_> = self.items.iter().collect();
-        ordered.sort_by(|a, b| {
-            if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
-            } else {
-                a.1.cmp(b.1)
-            }
-        });
+        ordered.sort_by(|a, b| Self::compare_items(*a, *b));
         ordered
     }
 
-    pub fn get_max_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut max: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
-                max = Some((k, *v));
-            }
-        }
+    /// Total order of the items of a list: by value, with ties broken by
+    /// origin and item names so that it never depends on the map's layout.
+    pub(crate) fn compare_items(a: (&InkListItem, &i32), b: (&InkListItem, &i32)) -> Ordering {
+        a.1.cmp(b.1)
+            .then_with(|| a.0.get_origin_name().cmp(&b.0.get_origin_name()))
+            .then_with(|| a.0.get_item_name().cmp(b.0.get_item_name()))
+    }
 
-        max
+    pub fn get_max_item(&self) -> Option<(&InkListItem, i32)> {
+        self.items
+            .iter()
+            .max_by(|a, b| Self::compare_items(*a, *b))
+            .map(|(k, v)| (k, *v))
     }
 
     pub fn get_min_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut min: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
-                min = Some((k, *v));
-            }
-        }
-
-        min
+        self.items
+            .iter()
+            .min_by(|a, b| Self::compare_items(*a, *b))
+            .map(|(k, v)| (k, *v))
     }
 
     pub fn set_initial_origin_names(&self, initial_origin_names: Vec<String>) {
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..3917c7a 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,12 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
-        for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
-            }
-        }
-        None
+        // Several items may share the value: always pick the same one.
+        self.item_name_to_values
+            .iter()
+            .filter(|(_, value)| **value == val)
+            .map(|(item_name, _)| item_name)
+            .min()
+            .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 53e4c0d..17d2726 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -15,6 +15,10 @@ impl ListDefinitionsOrigin {
             all_unambiguous_list_value_cache: HashMap::new(),
         };
 
+        // An item name may exist in several lists: which one it finds must not
+        // depend on the order in which the loader met them.
+        lists.sort_by(|a, b| a.get_name().cmp(b.get_name()));
+
         for list in lists {
             list_definitions_origin
                 .lists
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..df10286 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -542,7 +542,9 @@ impl Story {
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
                             let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
-                            sorted.sort_by(|a, b| b.1.cmp(a.1));
+                            sorted.sort_by(|a, b| {
+                                b.1.cmp(a.1).then_with(|| InkList::compare_items(*a, *b))
+                            });
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
                             let mut new_list = InkList::from_single_origin(
                                 random_item.0.get_origin_name().unwrap().clone(),
-- 
2.43.0


From a8dcd8c50df3feec9632313f7cebeb5fb92b52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 09/56] fix: save where a running function's output begins

---
 runtime/src/callstack.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index f0bd5f5..4ec5e87 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -115,6 +115,12 @@ impl Thread {
 
                     let mut el = Element::new(push_pop_type, pointer, in_expression_evaluation);
 
+                    if let Some(start) = j_element_obj.get("fnStart").and_then(|s| s.as_i64()) {
+                        el.function_start_in_output_stream = start
+                            .try_into()
+                            .map_err(|_| StoryError::BadJson("Invalid fnStart".to_owned()))?;
+                    }
+
                     if let Some(temps) = j_element_obj.get("temp").and_then(|temp| temp.as_object())
                     {
                         el.temporary_variables = json_read::jobject_to_hashmap_values(temps)?;
@@ -158,6 +164,16 @@ impl Thread {
             el_map.insert("exp".to_owned(), json!(el.in_expression_evaluation));
             el_map.insert("type".to_owned(), json!(el.push_pop_type as u32));
 
+            // Where the text of a running function begins decides what
+            // whitespace is trimmed when it returns.
+            if el.push_pop_type == PushPopType::Function && el.function_start_in_output_stream != 0
+            {
+                el_map.insert(
+                    "fnStart".to_owned(),
+                    json!(el.function_start_in_output_stream),
+                );
+            }
+
             if !el.temporary_variables.is_empty() {
                 el_map.insert(
                     "temp".to_owned(),
-- 
2.43.0


From 3c145c6b0314bec87465bb2737749d808fa5c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:09 +0000
Subject: [PATCH 10/56] fix: save infinite and NaN floats so that they load
 again

---
 runtime/src/json/json_read.rs  |  5 +++++
 runtime/src/json/json_write.rs | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 9a1f4d7..eb5f4d9 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -142,6 +142,11 @@ pub fn jtoken_to_runtime_object(
                 return Ok(Rc::new(Void::new()));
             }
 
+            // The one float that isn't a JSON number
+            if "NaN".eq(str) {
+                return Ok(Rc::new(Value::new::<f32>(f32::NAN)));
+            }
+
             Err(StoryError::BadJson(format!(
                 "Failed to convert token to runtime RTObject: {}",
                 token
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index b363b51..b556bee 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -97,6 +97,16 @@ pub fn write_rtobject(o: Rc<dyn RTObject>) -> Result<serde_json::Value, StoryErr
     }
 
     if let Some(v) = Value::get_value::<f32>(o.as_ref()) {
+        // JSON has no infinities and no NaN. A number beyond the range of f32
+        // reads back as an infinity; NaN gets a token of its own.
+        if v.is_nan() {
+            return Ok(json!("NaN"));
+        }
+
+        if v.is_infinite() {
+            return Ok(json!(f64::MAX.copysign(v.into())));
+        }
+
         return Ok(json!(v));
     }
 
-- 
2.43.0


From c85a3be8a00de94ba4491341d06cde5f03b6af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:13 +0000
Subject: [PATCH 11/56] fix: resolve names in the initial values of globals

---
 compiler/src/emitter/context.rs    | 9 +++++++--
 compiler/src/emitter/expression.rs | 3 ---
 compiler/src/emitter/flow.rs       | 9 ++++++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..f6cae3c 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,8 +40,13 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
-                .into_json_array(None, None)?,
+            emit_global_declarations(
+                story.globals(),
+                story.list_declarations(),
+                &root_scope,
+                &context,
+            )?
+            .into_json_array(None, None)?,
         );
     }
 
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..0f37c86 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -221,9 +221,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
 
 fn emit_expression_ctx(
     expression: &Expression,
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..ac3b325 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,8 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    scope: &EmitScope,
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +28,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            Some(scope),
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
-- 
2.43.0


From 3125fda9259f73a1325ab01e18048f51bcefab71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 12/56] fix: check the path and arguments of a host call before
 changing the story

---
 runtime/src/story/navigation.rs | 15 ++++++++++++++-
 runtime/src/story_state.rs      | 28 ++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..bb41701 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,6 +69,16 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
+        // Check everything before changing anything
+        let target_path = Path::new_with_components_string(Some(path));
+        if self.content_at_path(&target_path).approximate {
+            return Err(StoryError::BadArgument(format!(
+                "Failed to find content at path '{path}'."
+            )));
+        }
+
+        StoryState::check_arguments(args)?;
+
         if reset_call_stack {
             self.reset_callstack()?;
         } else {
@@ -108,7 +119,7 @@ impl Story {
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target_path, true)?;
 
         Ok(())
     }
@@ -142,6 +153,8 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        StoryState::check_arguments(args)?;
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index e6c582a..925e26d 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1012,10 +1012,32 @@ impl StoryState {
         Ok(())
     }
 
+    /// Fails if any of the arguments a host passes isn't of an allowed type.
+    pub fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        let allowed = |arg: &ValueType| {
+            !matches!(
+                arg,
+                ValueType::DivertTarget(_) | ValueType::VariablePointer(_)
+            )
+        };
+
+        if arguments.is_none_or(|args| args.iter().all(allowed)) {
+            return Ok(());
+        }
+
+        Err(StoryError::BadArgument(
+            "ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList."
+                .to_owned(),
+        ))
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
     ) -> Result<(), StoryError> {
+        Self::check_arguments(arguments)?;
+
         // Pass arguments onto the evaluation stack
         if let Some(arguments) = arguments {
             for arg in arguments {
@@ -1025,10 +1047,8 @@ impl StoryState {
                     ValueType::Float(v) => Value::new::<f32>(*v),
                     ValueType::List(v) => Value::new::<InkList>(v.clone()),
                     ValueType::String(v) => Value::new::<&str>(&v.string),
-                    _ => {
-                        return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
-                        int, float, string, bool or InkList.".to_owned()));
-                    }
+                    // Refused by check_arguments
+                    ValueType::DivertTarget(_) | ValueType::VariablePointer(_) => continue,
                 };
 
                 self.push_evaluation_stack(Rc::new(value));
-- 
2.43.0


From da878e82ba6c40a132a62223e76ed50e2c3368b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 13/56] fix: a refused continue leaves the story out of its
 continue state

---
 runtime/src/story/progress.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index bf4cd22..4f89d16 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -70,6 +70,12 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -77,11 +83,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
-- 
2.43.0


From 3df738bf5b66f64170879b96040f8907e817847d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:03 +0000
Subject: [PATCH 14/56] fix: removing an observer that isn't there is an error,
 not a panic

---
 runtime/src/story/variable_observer.rs | 41 ++++++++++----------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..c9907d9 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -62,37 +62,28 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("remove a variable observer")?;
 
-        // Remove observer for this specific variable
-        match specific_variable_name {
-            Some(specific_variable_name) => {
-                if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+        let mut removed = false;
 
-                    if v.is_empty() {
-                        self.variable_observers.remove(specific_variable_name);
-                    }
-                }
+        // Remove observer for this specific variable or for all of them
+        for (name, observers) in self.variable_observers.iter_mut() {
+            if specific_variable_name.is_some_and(|specific| specific != name) {
+                continue;
             }
-            None => {
-                // Remove observer for all variables
-                let mut keys_to_remove = Vec::new();
-
-                for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
-
-                    if v.is_empty() {
-                        keys_to_remove.push(k.to_string());
-                    }
-                }
 
-                for key_to_remove in keys_to_remove.iter() {
-                    self.variable_observers.remove(key_to_remove);
-                }
+            if let Some(index) = observers.iter().position(|x| Rc::ptr_eq(x, observer)) {
+                observers.remove(index);
+                removed = true;
             }
         }
 
+        if !removed {
+            return Err(StoryError::BadArgument(
+                "Cannot remove a variable observer that isn't registered.".to_owned(),
+            ));
+        }
+
+        self.variable_observers.retain(|_, v| !v.is_empty());
+
         Ok(())
     }
 
-- 
2.43.0


From e799b22367bd4c132a3171dbcb1e7b033b7ba00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 15/56] fix: removing a flow that doesn't exist is an error,
 not a panic

---
 runtime/src/story_state.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 925e26d..adef06d 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1464,12 +1464,25 @@ impl StoryState {
             ));
         }
 
+        let exists = self.current_flow.name.eq(flow_name)
+            || self
+                .named_flows
+                .as_ref()
+                .is_some_and(|flows| flows.contains_key(flow_name));
+        if !exists {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot remove flow '{flow_name}' because it doesn't exist"
+            )));
+        }
+
         // If we're currently in the flow that's being removed, switch back to default
         if self.current_flow.name.eq(flow_name) {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if let Some(named_flows) = self.named_flows.as_mut() {
+            named_flows.remove(flow_name);
+        }
         self.alive_flow_names_dirty = true;
 
         Ok(())
-- 
2.43.0


From 5bf6e7e79e7d1590ea0aaa20dd4bd28ea0511206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 16/56] fix: refuse every state-changing call in the middle of
 continue_async

---
 runtime/src/story/choices.rs | 1 +
 runtime/src/story/flow.rs    | 9 ++++++++-
 runtime/src/story/state.rs   | 2 ++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..6adf073 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,7 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose a choice")?;
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..52eca54 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
-    /// later.
+    /// later. Does nothing in the middle of a
+    /// [`continue_async`](Story::continue_async).
     pub fn switch_to_default_flow(&mut self) {
+        if self.if_async_we_cant("switch to the default flow").is_err() {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 371eda6..6d4e2b6 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -50,6 +50,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
-- 
2.43.0


From 6c02ecf609b7a2aec348e95de7a1934ec7af495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 17/56] fix: notify observers of a continue in a fixed order

---
 runtime/src/variables_state.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index d810616..c3cdd18 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -1,6 +1,6 @@
 use std::{
     cell::RefCell,
-    collections::{HashMap, HashSet},
+    collections::{BTreeMap, HashMap, HashSet},
     rc::Rc,
 };
 
@@ -49,10 +49,12 @@ impl VariablesState {
         self.changed_variables_for_batch_obs = Some(HashSet::new());
     }
 
-    pub fn complete_variable_observation(&mut self) -> HashMap<String, ValueType> {
+    /// The changed variables, sorted by name so that observers are always
+    /// notified in the same order.
+    pub fn complete_variable_observation(&mut self) -> BTreeMap<String, ValueType> {
         self.batch_observing_variable_changes = false;
 
-        let mut changed_vars = HashMap::with_capacity(0);
+        let mut changed_vars = BTreeMap::new();
 
         // Finished observing variables in a batch - now send
         // notifications for changed variables all in one go.
-- 
2.43.0


From 057f833157bec99afe7ca2883f1eb35265577892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:21 +0000
Subject: [PATCH 18/56] fix: a value missing from the evaluation stack is a
 story error, not a panic

---
 runtime/src/story/choices.rs            | 21 ++++++++-----
 runtime/src/story/control_logic.rs      | 42 +++++++++++++++----------
 runtime/src/story/external_functions.rs |  2 +-
 runtime/src/story/mod.rs                |  4 +--
 runtime/src/story_state.rs              | 23 +++++++++-----
 5 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index 6adf073..aca4655 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -56,7 +56,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -67,11 +67,11 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
@@ -155,9 +155,14 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let choice_only_str_val =
+            Value::get_value::<&StringValue>(obj.as_ref()).ok_or_else(|| {
+                StoryError::InvalidStoryState(
+                    "Expected the text of a choice to be a string".to_owned(),
+                )
+            })?;
 
         while !self.get_state().evaluation_stack.is_empty()
             && self
@@ -169,7 +174,7 @@ impl Story {
         {
             let tag = self
                 .get_state_mut()
-                .pop_evaluation_stack()
+                .pop_evaluation_stack()?
                 .into_any()
                 .downcast::<Tag>()
                 .unwrap();
@@ -177,6 +182,6 @@ impl Story {
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index df10286..915cb9f 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -123,7 +123,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +147,19 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let obj = self
+                        .get_state()
+                        .peek_evaluation_stack()
+                        .cloned()
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "Expected a value to duplicate on the evaluation stack".to_owned(),
+                            )
+                        })?;
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +170,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -301,7 +309,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +364,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -402,7 +410,7 @@ impl Story {
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -455,12 +463,12 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
@@ -499,11 +507,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -518,7 +526,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -641,7 +649,7 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
@@ -694,7 +702,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..f86ca30 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index b476bd5..fb1ec91 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -131,7 +131,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -144,7 +144,7 @@ mod misc {
             let seq_container = self.get_state().get_current_pointer().container.unwrap();
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index adef06d..3d0bf39 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -893,18 +893,27 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState(
+                "Expected a value, but there is none on the evaluation stack. Were all the parameters of the knot or function given?".to_owned(),
+            )
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
-        let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let start = self
+            .evaluation_stack
+            .len()
+            .checked_sub(number_of_objects)
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState("trying to pop too many objects".to_owned())
+            })?;
 
-        obj
+        Ok(self.evaluation_stack.drain(start..).collect())
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1087,7 +1096,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
-- 
2.43.0


From abe8882dc3686f139d100f2e1c4952ea12be758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 19/56] fix: wrap 32 bit arithmetic and report divisions by
 zero as story errors

---
 runtime/src/native_function_call.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..169917f 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -297,9 +297,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +545,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +571,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +608,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Attempted to divide by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_div(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +653,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +853,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Attempted to take the remainder of a division by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +990,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
-- 
2.43.0


From d277941e317daaad8e181889a1bdb503addbfce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 20/56] fix: don't overflow in RANDOM, LIST_RANDOM and shuffles

---
 runtime/src/story/control_logic.rs | 23 +++++++++++++++++------
 runtime/src/story/mod.rs           | 25 ++++++++++++++++++++++---
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 915cb9f..37c1dbb 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -391,7 +391,13 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = i64::from(max_value) - i64::from(min_value) + 1;
+                    if random_range > i64::from(i32::MAX) {
+                        return Err(StoryError::InvalidStoryState(
+                            "RANDOM was called with a range that exceeds the size that ink numbers can use."
+                                .to_owned(),
+                        ));
+                    }
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
@@ -399,14 +405,17 @@ impl Story {
                         )));
                     }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
                     let chosen_value = (next_random % random_range as u32) as i32 + min_value;
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
@@ -543,8 +552,10 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index fb1ec91..0e30128 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -141,7 +141,15 @@ mod misc {
                     ));
                 };
 
-            let seq_container = self.get_state().get_current_pointer().container.unwrap();
+            let seq_container = self
+                .get_state()
+                .get_current_pointer()
+                .container
+                .ok_or_else(|| {
+                    StoryError::InvalidStoryState(
+                        "Expected to be in a sequence to shuffle".to_owned(),
+                    )
+                })?;
 
             let seq_count = if let Some(v) =
                 Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
@@ -153,6 +161,13 @@ mod misc {
                 ));
             };
 
+            if num_elements <= 0 || seq_count < 0 {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Can't shuffle a sequence of {} elements for visit {}",
+                    num_elements, seq_count
+                )));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
@@ -161,8 +176,12 @@ mod misc {
             //   runtime returns to the sequence
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
-            let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let sequence_hash = seq_path_str
+                .chars()
+                .fold(0i32, |hash, c| hash.wrapping_add(c as i32));
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
-- 
2.43.0


From 81b0ea5ba3c35d3730f337b7b891e304a55de6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:22 +0000
Subject: [PATCH 21/56] fix: report story content that can't be carried out as
 errors instead of panicking

---
 runtime/src/callstack.rs           |  9 ++-
 runtime/src/divert.rs              | 41 ++++---------
 runtime/src/story/choices.rs       |  8 ++-
 runtime/src/story/control_logic.rs | 49 ++++++++++++----
 runtime/src/story/progress.rs      | 94 ++++++++++++++++--------------
 runtime/src/story/tags.rs          |  4 +-
 runtime/src/story_state.rs         |  7 ++-
 runtime/src/value.rs               |  4 +-
 runtime/src/variable_reference.rs  |  4 +-
 runtime/src/variables_state.rs     | 25 ++++++++
 10 files changed, 148 insertions(+), 97 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 4ec5e87..d472ebc 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -345,7 +345,12 @@ impl CallStack {
         let context_element = self
             .get_callstack_mut()
             .get_mut((context_index - 1) as usize)
-            .unwrap();
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Could not find temporary variable to set: {}",
+                    name
+                ))
+            })?;
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -392,7 +397,7 @@ impl CallStack {
         }
 
         let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        let var_value = context_element.and_then(|e| e.temporary_variables.get(name));
 
         var_value.cloned()
     }
diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..4dc651a 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -80,35 +80,18 @@ impl Divert {
     }
 
     pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
-
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
+        if self.target_pointer.borrow().is_null()
+            && let Some(target_path) = self.target_path.borrow().as_ref()
+        {
+            let target_obj = Object::resolve_path(self.clone(), target_path).obj.clone();
+            let index = target_path.get_last_component().and_then(|c| c.index);
+
+            if let Some(index) = index {
+                let mut target_pointer = self.target_pointer.borrow_mut();
+                target_pointer.container = target_obj.get_object().get_parent();
+                target_pointer.index = index as i32;
+            } else if let Ok(container) = target_obj.into_any().downcast::<Container>() {
+                self.target_pointer.replace(Pointer::start_of(container));
             }
         }
 
diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index aca4655..37046bc 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -76,9 +76,15 @@ impl Story {
 
         // Don't create choice if player has already read this content
         if choice_point.once_only() {
+            let choice_target = choice_point.get_choice_target().ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Failed to find the content of the choice at {}",
+                    Object::get_path(choice_point.as_ref())
+                ))
+            })?;
             let visit_count = self
                 .get_state_mut()
-                .visit_count_for_container(choice_point.get_choice_target().as_ref().unwrap());
+                .visit_count_for_container(&choice_target);
             if visit_count > 0 {
                 show_choice = false;
             }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 37c1dbb..7cf98f4 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -97,8 +97,10 @@ impl Story {
             }
 
             if self.get_state().diverted_pointer.is_null() && !current_divert.is_external {
-                //     error(format!("Divert resolution failed: {:?}",
-                // current_divert));
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Divert resolution failed: {}",
+                    current_divert
+                )));
             }
 
             return Ok(true);
@@ -224,7 +226,9 @@ impl Story {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Found {}, when expected {}",
                             names.get(&pop_type).unwrap(),
-                            expected.unwrap()
+                            expected.unwrap_or_else(
+                                || "end of a function evaluated by the game".to_owned()
+                            )
                         )));
                     } else {
                         self.get_state_mut().pop_callstack(None)?; // Does tunnel onwards override by diverting to a new ->->
@@ -437,7 +441,15 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Void::new()));
                 }
                 CommandType::VisitIndex => {
-                    let cpc = self.get_state().get_current_pointer().container.unwrap();
+                    let cpc = self
+                        .get_state()
+                        .get_current_pointer()
+                        .container
+                        .ok_or_else(|| {
+                            StoryError::InvalidStoryState(
+                                "Expected to be in a container to count its visits".to_owned(),
+                            )
+                        })?;
                     let count = self.get_state_mut().visit_count_for_container(&cpc) - 1; // index
                     // not count
                     self.get_state_mut()
@@ -486,11 +498,17 @@ impl Story {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
 
+                    let list_name_val = list_name_val.ok_or_else(|| {
+                        StoryError::InvalidStoryState(
+                            "Passed non-string name of a list when creating a list element from a numerical value.".to_owned(),
+                        )
+                    })?;
+
                     let mut generated_list_value: Option<Value> = None;
                     if let Some(found_list_def) = self
                         .list_definitions
                         .as_ref()
-                        .get_list_definition(list_name_val.as_ref().unwrap())
+                        .get_list_definition(list_name_val)
                     {
                         if let Some(found_item) =
                             found_list_def.get_item_with_value(int_val.unwrap())
@@ -504,7 +522,7 @@ impl Story {
                     } else {
                         return Err(StoryError::InvalidStoryState(format!(
                             "Failed to find List called {}",
-                            list_name_val.as_ref().unwrap()
+                            list_name_val
                         )));
                     }
 
@@ -565,8 +583,10 @@ impl Story {
                                 b.1.cmp(a.1).then_with(|| InkList::compare_items(*a, *b))
                             });
                             let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
+                            let origin_name =
+                                random_item.0.get_origin_name().cloned().unwrap_or_default();
                             let mut new_list = InkList::from_single_origin(
-                                random_item.0.get_origin_name().unwrap().clone(),
+                                origin_name,
                                 self.list_definitions.as_ref(),
                             )?;
                             new_list.items.insert(random_item.0.clone(), *random_item.1);
@@ -665,7 +685,12 @@ impl Story {
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let assigned_val = assigned_val.into_any().downcast::<Value>().map_err(|_| {
+                StoryError::InvalidStoryState(format!(
+                    "Attempting to assign something without a value to '{}'. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                ))
+            })?;
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -680,10 +705,10 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let container = var_ref
+                    .get_container_for_count()
+                    .map_err(StoryError::InvalidStoryState)?;
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 4f89d16..81743b4 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -426,7 +426,7 @@ impl Story {
         }
 
         // Content to add to evaluation stack or the output stream
-        if should_add_to_stream {
+        if should_add_to_stream && current_content_obj.is_some() {
             // If we're pushing a variable pointer onto the evaluation stack,
             // ensure that it's specific
             // to our current (possibly temporary) context index. And make a
@@ -512,60 +512,64 @@ impl Story {
             // re-joining
         }
 
-        let successful_pointer_increment = self.increment_content_pointer();
-
-        // Ran out of content? Try to auto-exit from a function,
-        // or finish evaluating the content of a thread
-        if !successful_pointer_increment {
-            let mut did_pop = false;
+        loop {
+            let successful_pointer_increment = self.increment_content_pointer();
 
-            let can_pop_type = self
-                .get_state()
-                .get_callstack()
-                .as_ref()
-                .borrow()
-                .can_pop_type(Some(PushPopType::Function));
-            if can_pop_type {
-                // Pop from the call stack
-                self.get_state_mut()
-                    .pop_callstack(Some(PushPopType::Function))?;
+            // Ran out of content? Try to auto-exit from a function,
+            // or finish evaluating the content of a thread
+            if !successful_pointer_increment {
+                let mut did_pop = false;
 
-                // This pop was due to dropping off the end of a function that
-                // didn't return anything,
-                // so in this case, we make sure that the evaluator has
-                // something to chomp on if it needs it
-                if self.get_state().get_in_expression_evaluation() {
+                let can_pop_type = self
+                    .get_state()
+                    .get_callstack()
+                    .as_ref()
+                    .borrow()
+                    .can_pop_type(Some(PushPopType::Function));
+                if can_pop_type {
+                    // Pop from the call stack
                     self.get_state_mut()
-                        .push_evaluation_stack(Rc::new(Void::new()));
-                }
+                        .pop_callstack(Some(PushPopType::Function))?;
+
+                    // This pop was due to dropping off the end of a function that
+                    // didn't return anything,
+                    // so in this case, we make sure that the evaluator has
+                    // something to chomp on if it needs it
+                    if self.get_state().get_in_expression_evaluation() {
+                        self.get_state_mut()
+                            .push_evaluation_stack(Rc::new(Void::new()));
+                    }
 
-                did_pop = true;
-            } else if self
-                .get_state()
-                .get_callstack()
-                .as_ref()
-                .borrow()
-                .can_pop_thread()
-            {
-                self.get_state()
+                    did_pop = true;
+                } else if self
+                    .get_state()
                     .get_callstack()
                     .as_ref()
-                    .borrow_mut()
-                    .pop_thread()?;
+                    .borrow()
+                    .can_pop_thread()
+                {
+                    self.get_state()
+                        .get_callstack()
+                        .as_ref()
+                        .borrow_mut()
+                        .pop_thread()?;
 
-                did_pop = true;
-            } else {
-                self.get_state_mut()
-                    .try_exit_function_evaluation_from_game();
-            }
+                    did_pop = true;
+                } else {
+                    self.get_state_mut()
+                        .try_exit_function_evaluation_from_game();
+                }
 
-            // Step past the point where we last called out
-            if did_pop && !self.get_state().get_current_pointer().is_null() {
-                self.next_content()?;
+                // Step past the point where we last called out
+                if did_pop && !self.get_state().get_current_pointer().is_null() {
+                    let cp = self.get_state().get_current_pointer();
+                    self.get_state_mut().set_previous_pointer(cp);
+                    continue;
+                }
             }
-        }
 
-        Ok(())
+            return Ok(());
+        }
     }
 
     pub(crate) fn increment_content_pointer(&self) -> bool {
diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..d30b398 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,9 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let mut flow_container = self.content_at_path(&path).container().ok_or_else(|| {
+            StoryError::BadArgument(format!("Content at path not found: {}", path_string))
+        })?;
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 3d0bf39..6deccb4 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -371,8 +371,9 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
-                if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
+                if let Some(def) = self.list_definitions.get_list_definition(name)
+                    && !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def))
+                {
                     list.origins.borrow_mut().push(def.clone());
                 }
             }
@@ -1137,7 +1138,7 @@ impl StoryState {
         if !container.turn_index_should_be_counted {
             return Err(StoryError::InvalidStoryState(format!(
                 "TURNS_SINCE() for target ({}) unknown.",
-                container.name.as_ref().unwrap()
+                Object::get_path(container)
             )));
         }
 
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..2404d42 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -268,8 +268,8 @@ impl Value {
                 )),
             },
             ValueType::String(v) => match cast_dest_type {
-                CAST_INT => Ok(Some(Self::new::<i32>(v.string.parse::<i32>().unwrap()))),
-                CAST_FLOAT => Ok(Some(Self::new::<f32>(v.string.parse::<f32>().unwrap()))),
+                CAST_INT => Ok(v.string.parse::<i32>().ok().map(Self::new::<i32>)),
+                CAST_FLOAT => Ok(v.string.parse::<f32>().ok().map(Self::new::<f32>)),
                 CAST_STRING => Ok(None),
                 _ => Err(StoryError::InvalidStoryState(
                     "Cast not allowed for string".to_owned(),
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..6815783 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("Failed to find container for read count at {}", path))
         } else {
             Err("Path for count is not set.".to_owned())
         }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index c3cdd18..cee2bdb 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -119,6 +119,13 @@ impl VariablesState {
         if var_ass.is_new_declaration {
             if let Some(var_pointer) = Value::get_value::<&VariablePointerValue>(value.as_ref()) {
                 value = self.resolve_variable_pointer(var_pointer);
+
+                // A variable passed by reference to itself (or to a variable it
+                // already refers to) keeps its value: storing the pointer would
+                // make a circle of pointers that never leads to a value.
+                if !set_global && self.pointer_leads_to_current_temporary(&value, &name) {
+                    return Ok(());
+                }
             }
         } else {
             // Assign to an existing variable pointer
@@ -192,6 +199,24 @@ impl VariablesState {
         ))
     }
 
+    fn pointer_leads_to_current_temporary(&self, pointer: &Rc<Value>, name: &str) -> bool {
+        let current_context = self.callstack.borrow().get_current_element_index() + 1;
+        let mut value = pointer.clone();
+
+        while let Some(pointer) = Value::get_value::<&VariablePointerValue>(value.as_ref()) {
+            if pointer.variable_name == name && pointer.context_index == current_context {
+                return true;
+            }
+
+            match self.get_raw_variable_with_name(&pointer.variable_name, pointer.context_index) {
+                Some(v) => value = v,
+                None => break,
+            }
+        }
+
+        false
+    }
+
     // returns true if the value changed and we should notify variable observers
     pub fn set(&mut self, variable_name: &str, value_type: ValueType) -> Result<bool, StoryError> {
         if !self.default_global_variables.contains_key(variable_name) {
-- 
2.43.0


From 994f53ee8a08659ce1ad346142ca279acf308bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:55 +0000
Subject: [PATCH 22/56] fix: deliver every warning once, and notify observers
 of a continue that fails

---
 runtime/src/story/progress.rs | 42 ++++++++++++++++++++++-------------
 runtime/src/story_state.rs    | 19 ++++++++++++++++
 2 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 81743b4..6c1d00a 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -88,6 +88,16 @@ impl Story {
 
             self.get_state_mut().reset_output(None);
 
+            // The warnings of an earlier continue have been readable since then
+            if !self
+                .get_state()
+                .get_callstack()
+                .borrow()
+                .element_is_evaluate_from_game()
+            {
+                self.get_state_mut().forget_reported_warnings();
+            }
+
             // It's possible for ink to call game to call ink to call game etc
             // In this case, we only want to batch observe variable changes
             // for the outermost call.
@@ -201,25 +211,29 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // An unfinished line waits: what was raised in the look-ahead may yet be undone.
+        let mut result = Ok(());
+
+        if !self.async_continue_active
+            && (self.get_state().has_error() || self.get_state().has_warning())
+        {
             match &self.on_error {
                 Some(on_err) => {
-                    if self.get_state().has_error() {
-                        for err in self.get_state().get_current_errors() {
-                            on_err.borrow_mut().error(err, ErrorType::Error);
-                        }
+                    for err in self.get_state().get_current_errors() {
+                        on_err.borrow_mut().error(err, ErrorType::Error);
                     }
 
-                    if self.get_state().has_warning() {
-                        for err in self.get_state().get_current_warnings() {
-                            on_err.borrow_mut().error(err, ErrorType::Warning);
-                        }
+                    for err in self.get_state().get_unreported_warnings() {
+                        on_err.borrow_mut().error(err, ErrorType::Warning);
                     }
 
                     self.reset_errors();
                 }
-                // No error handler: throw for errors, silently discard warnings
+                // No error handler: throw for errors. Warnings don't make the continue
+                // fail, they can be read until the next one.
                 None => {
+                    self.get_state_mut().set_warnings_reported();
+
                     if self.get_state().has_error() {
                         let mut sb = String::new();
                         sb.push_str("Ink had ");
@@ -246,12 +260,8 @@ impl Story {
                         }
                         sb.push_str(". It is strongly suggested that you assign an error handler to story.onError. The first issue was: ");
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
-                        return Err(StoryError::InvalidStoryState(sb));
+                        result = Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
-                    // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
                 }
             }
         }
@@ -263,7 +273,7 @@ impl Story {
             }
         }
 
-        Ok(())
+        result
     }
 
     pub(crate) fn continue_single_step(&mut self) -> Result<bool, StoryError> {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 6deccb4..3115936 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -43,6 +43,8 @@ pub(crate) struct StoryState {
     main_content_container: Rc<Container>,
     current_errors: Vec<String>,
     current_warnings: Vec<String>,
+    /// How many of the current warnings come from a continue that has returned.
+    warnings_reported: usize,
     current_text: Option<String>,
     patch: Option<StatePatch>,
     named_flows: Option<HashMap<String, Flow>>,
@@ -80,6 +82,7 @@ impl StoryState {
             main_content_container,
             current_errors: Vec::with_capacity(0),
             current_warnings: Vec::with_capacity(0),
+            warnings_reported: 0,
             current_text: None,
             patch: None,
             named_flows: None,
@@ -812,6 +815,7 @@ impl StoryState {
 
         if self.has_warning() {
             copy.current_warnings = self.current_warnings.clone();
+            copy.warnings_reported = self.warnings_reported;
         }
 
         // ref copy - exactly the same variables state!
@@ -1514,5 +1518,20 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
+        self.warnings_reported = 0;
+    }
+
+    pub(crate) fn get_unreported_warnings(&self) -> &[String] {
+        &self.current_warnings[self.warnings_reported..]
+    }
+
+    pub(crate) fn set_warnings_reported(&mut self) {
+        self.warnings_reported = self.current_warnings.len();
+    }
+
+    pub(crate) fn forget_reported_warnings(&mut self) {
+        self.current_warnings.drain(..self.warnings_reported);
+        self.warnings_reported = 0;
     }
 }
-- 
2.43.0


From 07ce4646e0d8963aeaef4c6b2ef347d3740a5489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 23/56] fix: notify observers of a host assignment with the
 value the variable has

---
 runtime/src/story/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 6d4e2b6..768c3d7 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -58,7 +58,10 @@ impl Story {
             .set(variable_name, value_type.clone())?;
 
         if notify_observers {
-            self.notify_variable_changed(variable_name, value_type);
+            // The value as stored: an empty list keeps the variable's origins
+            if let Some(value) = self.get_variable(variable_name) {
+                self.notify_variable_changed(variable_name, &value);
+            }
         }
 
         Ok(())
-- 
2.43.0


From e449ad994e1efa7ee36e871b6fbb556836a875a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:46 +0000
Subject: [PATCH 24/56] fix: refuse look-ahead unsafe externals inside strings,
 not the safe ones

---
 runtime/src/story/external_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index f86ca30..7a906a2 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
-- 
2.43.0


From 654e2ae9eac70f5fd83a6e6b561eedca23a1ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:47 +0000
Subject: [PATCH 25/56] fix: name the missing externals in a fixed order

---
 runtime/src/story/external_functions.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 7a906a2..7e18d55 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -1,4 +1,4 @@
-use std::{cell::RefCell, collections::HashSet, rc::Rc};
+use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
 
 use crate::{
     container::Container, divert::Divert, object::RTObject, pointer::Pointer,
@@ -195,7 +195,7 @@ impl Story {
     }
 
     pub(crate) fn validate_external_bindings(&mut self) -> Result<(), StoryError> {
-        let mut missing_externals: HashSet<String> = HashSet::new();
+        let mut missing_externals: BTreeSet<String> = BTreeSet::new();
 
         self.validate_external_bindings_container(
             &self.get_main_content_container(),
@@ -230,7 +230,7 @@ impl Story {
     fn validate_external_bindings_container(
         &self,
         c: &Rc<Container>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         for inner_content in c.content.iter() {
             let container = inner_content
@@ -265,7 +265,7 @@ impl Story {
     fn validate_external_bindings_rtobject(
         &self,
         o: &Rc<dyn RTObject>,
-        missing_externals: &mut std::collections::HashSet<String>,
+        missing_externals: &mut BTreeSet<String>,
     ) -> Result<(), StoryError> {
         let divert = o.clone().into_any().downcast::<Divert>().ok();
 
-- 
2.43.0


From 4acfb2ab0cc8506c26acc7b42bc3ecc056f20840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:35 +0000
Subject: [PATCH 26/56] fix: compile calls with comparisons or strings with '='
 among their arguments

---
 compiler/src/parser/declarations.rs | 75 +++++++++++++++++------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..1d9f494 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -90,6 +90,19 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         (input, false)
     };
 
+    if let Some((position, operator)) = find_assignment_operator(input) {
+        return Ok(Node::Assignment {
+            variable_name: input[..position].trim().to_owned(),
+            expression: parse_expression(input[position + operator.len()..].trim())?,
+            mode: match operator {
+                "+=" => AssignMode::AddAssign,
+                "-=" => AssignMode::SubtractAssign,
+                _ if is_temp => AssignMode::TempSet,
+                _ => AssignMode::Set,
+            },
+        });
+    }
+
     // x++ sugar for x += 1
     if let Some(name) = input.strip_suffix("++") {
         let name = name.trim().to_owned();
@@ -110,42 +123,44 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    // Check for a standalone function call (no '=' in the statement, but has '()')
-    // e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
-    if !input.contains('=')
-        && let Ok(Some((name, args))) = parse_call_like(input)
-    {
+    // A standalone function call, e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
+    if let Ok(Some((name, args))) = parse_call_like(input) {
         return Ok(Node::VoidCall { name, args });
     }
 
-    if input.contains("+=") {
-        let (name, expression) = split_assignment(input, "+=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::AddAssign,
-        });
-    }
+    Err(CompilerError::invalid_source(
+        "expected assignment using '='".to_owned(),
+    ))
+}
 
-    if input.contains("-=") {
-        let (name, expression) = split_assignment(input, "-=")?;
-        return Ok(Node::Assignment {
-            variable_name: name,
-            expression: parse_expression(&expression)?,
-            mode: AssignMode::SubtractAssign,
-        });
+/// The first assignment operator outside strings and parentheses, with its byte position.
+fn find_assignment_operator(input: &str) -> Option<(usize, &'static str)> {
+    let bytes = input.as_bytes();
+    let mut depth = 0i32;
+    let mut in_string = false;
+    let mut i = 0;
+
+    while i < bytes.len() {
+        match bytes[i] {
+            b'"' => in_string = !in_string,
+            b'(' if !in_string => depth += 1,
+            b')' if !in_string => depth -= 1,
+            b'=' if !in_string && depth == 0 => {
+                let previous = if i > 0 { bytes[i - 1] } else { b' ' };
+                match previous {
+                    _ if bytes.get(i + 1) == Some(&b'=') => i += 1, // `==`
+                    b'!' | b'<' | b'>' => {}
+                    b'+' => return Some((i - 1, "+=")),
+                    b'-' => return Some((i - 1, "-=")),
+                    _ => return Some((i, "=")),
+                }
+            }
+            _ => {}
+        }
+        i += 1;
     }
 
-    let (name, expression) = split_assignment(input, "=")?;
-    Ok(Node::Assignment {
-        variable_name: name,
-        expression: parse_expression(&expression)?,
-        mode: if is_temp {
-            AssignMode::TempSet
-        } else {
-            AssignMode::Set
-        },
-    })
+    None
 }
 
 /// Returns true if the leading `{` in `content` is NOT closed on the same line —
-- 
2.43.0


From 4d5ef14da59fb78d8446afeb9b8b88baf907597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 27/56] fix: restore the previous pointer after evaluating a
 function from the host

---
 runtime/src/story/navigation.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index bb41701..84bcab6 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -157,6 +157,7 @@ impl Story {
 
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
+        let previous_pointer_before = self.get_state().get_previous_pointer();
         self.get_state_mut().reset_output(None);
 
         // State will temporarily replace the callstack in order to evaluate
@@ -176,8 +177,15 @@ impl Story {
             .reset_output(Some(output_stream_before));
 
         // Finish evaluation, and see whether anything was produced
-        self.get_state_mut()
-            .complete_function_evaluation_from_game()
+        let result = self
+            .get_state_mut()
+            .complete_function_evaluation_from_game()?;
+
+        // The story itself hasn't moved
+        self.get_state()
+            .set_previous_pointer(previous_pointer_before);
+
+        Ok(result)
     }
 
     pub(crate) fn visit_changed_containers_due_to_divert(&mut self) {
-- 
2.43.0


From 68860ff384f3ba6c45322eb7480a103132ef57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 28/56] fix: don't let diverts own the containers they lead to

---
 runtime/src/divert.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index 4dc651a..13f2a93 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,16 +1,22 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
     object::{Object, RTObject},
     path::{Component, Path},
-    pointer::{self, Pointer},
+    pointer::Pointer,
     push_pop::PushPopType,
 };
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    // Container and index of the target, once resolved. The divert doesn't own
+    // the container, which may well be one that the divert is inside of.
+    target_pointer: RefCell<(Weak<Container>, i32)>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +43,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new((Weak::new(), -1)),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -80,22 +86,29 @@ impl Divert {
     }
 
     pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        if self.target_pointer.borrow().is_null()
+        let (container, index) = self.target_pointer.borrow().clone();
+        let mut target_pointer = Pointer::new(container.upgrade(), index);
+
+        if target_pointer.is_null()
             && let Some(target_path) = self.target_path.borrow().as_ref()
         {
             let target_obj = Object::resolve_path(self.clone(), target_path).obj.clone();
             let index = target_path.get_last_component().and_then(|c| c.index);
 
             if let Some(index) = index {
-                let mut target_pointer = self.target_pointer.borrow_mut();
                 target_pointer.container = target_obj.get_object().get_parent();
                 target_pointer.index = index as i32;
             } else if let Ok(container) = target_obj.into_any().downcast::<Container>() {
-                self.target_pointer.replace(Pointer::start_of(container));
+                target_pointer = Pointer::start_of(container);
+            }
+
+            if let Some(container) = &target_pointer.container {
+                self.target_pointer
+                    .replace((Rc::downgrade(container), target_pointer.index));
             }
         }
 
-        self.target_pointer.borrow().clone()
+        target_pointer
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
-- 
2.43.0


From f7f0d6291b77923a32013c98571607910ddbb53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 29/56] fix: take the count of an exhausted once-only sequence
 off the evaluation stack

---
 compiler/src/emitter/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 0f37c86..47ae8dd 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -63,7 +63,7 @@ fn emit_sequence(
     }
     out.push(json!("/ev"));
 
-    for (index, _) in sequence.branches.iter().enumerate() {
+    for index in 0..branch_count {
         out.push(json!("ev"));
         out.push(json!("du"));
         out.push(json!(index as i32));
-- 
2.43.0


From 5c70dac695c6a7d2542d284df81371b5f9580df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:11 +0000
Subject: [PATCH 30/56] Adjust the addressing audit hook: a path to itself is
 only checked as text

---
 runtime/src/verif.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/verif.rs b/runtime/src/verif.rs
index b4546ef..a028b6b 100644
--- a/runtime/src/verif.rs
+++ b/runtime/src/verif.rs
@@ -363,6 +363,12 @@ impl Story {
                 if bp.is_empty() {
                     continue;
                 }
+                if same(a, b) {
+                    // The path from an object to itself has no components.
+                    let rel = Object::convert_path_to_relative(a, &bp);
+                    check_text(&rel, "relative path", &mut audit.failures);
+                    continue;
+                }
                 audit.pairs += 1;
                 let text = Object::compact_path_string(a.clone(), &bp);
                 let p = Path::new_with_components_string(Some(&text));
-- 
2.43.0


From 366462683984f749ff5846fde0166ea9de7c9128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 31/56] fix: keep relative paths relative when their text is
 read back

---
 runtime/src/path.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..2ceff0a 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -57,10 +57,12 @@ impl Path {
             is_relative = false;
         }
 
-        let component_string = cs.split('.');
         let mut components = Vec::new();
 
-        for str in component_string {
+        // A lone "." is the relative path with no components.
+        let component_string = (!cs.is_empty()).then(|| cs.split('.'));
+
+        for str in component_string.into_iter().flatten() {
             let index = str.parse::<usize>();
 
             match index {
@@ -69,13 +71,10 @@ impl Path {
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
         Path {
             components,
             is_relative,
-            components_string: cs_cell,
+            ..Default::default()
         }
     }
 
-- 
2.43.0


From f81f5ebdfd4f1dc2fd030319ca80c660fafb4565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 32/56] fix: reject names and labels that cannot address their
 content

---
 compiler/src/parser/choice.rs       |  9 +++-
 compiler/src/parser/expression.rs   |  6 +++
 compiler/src/parser/mod.rs          |  4 +-
 compiler/src/parser/statement.rs    |  4 +-
 compiler/src/validator/context.rs   | 14 +++---
 compiler/src/validator/mod.rs       |  3 +-
 compiler/src/validator/structure.rs | 69 ++++++++++++++++++++---------
 7 files changed, 78 insertions(+), 31 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..272e30b 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -3,6 +3,7 @@ use crate::{
     error::CompilerError,
 };
 
+use super::expression::is_identifier;
 use super::inline::parse_divert_line;
 
 use super::{
@@ -275,12 +276,16 @@ pub fn parse_choice_prefixes(
     let mut label = None;
     let mut conditions = Vec::new();
 
+    // Anything in parentheses that is not a name is ordinary choice text.
     if let Some(after_open) = remainder.strip_prefix('(') {
         let end = after_open.find(')').ok_or_else(|| {
             CompilerError::invalid_source("choice label is missing ')'".to_owned())
         })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+        let name = after_open[..end].trim();
+        if is_identifier(name) {
+            label = Some(name.to_owned());
+            remainder = after_open[end + 1..].trim_start();
+        }
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..b6f1f65 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -261,6 +261,12 @@ pub fn parse_path_identifier(text: &str) -> Option<&str> {
     if end == 0 { None } else { Some(&text[..end]) }
 }
 
+/// Names are made of letters, digits and underscores, and are not numbers.
+pub fn is_identifier(text: &str) -> bool {
+    text.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
+        && text.chars().any(|ch| !ch.is_ascii_digit())
+}
+
 pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>, CompilerError> {
     let trimmed = text.trim();
     let open = match trimmed.find('(') {
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..94421ca 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -12,7 +12,9 @@ use crate::{
 use self::{
     choice::parse_choice,
     conditional::{looks_like_conditional, parse_conditional},
-    expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
+    expression::{
+        is_identifier, parse_bool, parse_call_like, parse_expression, parse_path_identifier,
+    },
     inline::{
         parse_divert, parse_divert_line, parse_dynamic_string, split_inline_divert,
         tokenize_inline_content,
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..34fe7d1 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -163,7 +163,9 @@ pub fn parse_statement(
 
         // Check for gather label: (label_name) at the start
         let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
+            // Anything in parentheses that is not a name is ordinary text.
+            let end = gather_content.find(')');
+            if let Some(end) = end.filter(|e| is_identifier(gather_content[1..*e].trim())) {
                 let label = gather_content[1..end].trim().to_owned();
                 let rest = gather_content[end + 1..].trim_start();
                 (Some(label), rest)
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index 25289e5..e7dd7f1 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -85,6 +85,8 @@ impl ValidationContext {
     }
 
     fn validate_story(&self, story: &ParsedStory) -> Result<(), CompilerError> {
+        self.validate_flow_names(story.flows())?;
+
         // Validate root nodes
         let empty_params = BTreeSet::new();
         self.validate_temp_names(story.root(), &empty_params)?;
@@ -153,16 +155,16 @@ impl ValidationContext {
                 )?;
                 self.validate_nodes_vars(&stitch.nodes, &stitch_scope)?;
 
-                // Validate duplicate gather labels within stitch
-                self.validate_no_duplicate_gather_labels(&stitch.nodes)?;
+                // Validate duplicate labels within stitch
+                self.validate_no_duplicate_labels(&stitch.nodes, &[])?;
             }
 
-            // Validate duplicate gather labels within knot
-            self.validate_no_duplicate_gather_labels(&flow.nodes)?;
+            // Validate duplicate labels within knot
+            self.validate_no_duplicate_labels(&flow.nodes, &flow.children)?;
         }
 
-        // Validate duplicate gather labels in root
-        self.validate_no_duplicate_gather_labels(story.root())?;
+        // Validate duplicate labels in root
+        self.validate_no_duplicate_labels(story.root(), &[])?;
 
         Ok(())
     }
diff --git a/compiler/src/validator/mod.rs b/compiler/src/validator/mod.rs
index 9a08811..e73a436 100644
--- a/compiler/src/validator/mod.rs
+++ b/compiler/src/validator/mod.rs
@@ -1,10 +1,11 @@
 //! Semantic validation passes over the parsed AST.
 
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeSet;
 
 use crate::{
     ast::{AssignMode, Condition, Divert, Expression, Flow, Node, ParsedStory},
     error::CompilerError,
+    parser::expression::is_identifier,
 };
 
 include!("context.rs");
diff --git a/compiler/src/validator/structure.rs b/compiler/src/validator/structure.rs
index 3aa7660..32134fa 100644
--- a/compiler/src/validator/structure.rs
+++ b/compiler/src/validator/structure.rs
@@ -14,49 +14,78 @@ impl ValidationContext {
     }
 
     // -----------------------------------------------------------------------
-    // Duplicate gather labels
+    // Names of knots, stitches and labels
     // -----------------------------------------------------------------------
 
-    fn validate_no_duplicate_gather_labels(&self, nodes: &[Node]) -> Result<(), CompilerError> {
-        let mut seen: BTreeMap<String, ()> = BTreeMap::new();
-        self.collect_and_check_gather_labels(nodes, &mut seen)
+    /// Content is addressed by name, so a name has to be an identifier that
+    /// no other content of the same scope uses.
+    fn validate_flow_names(&self, flows: &[Flow]) -> Result<(), CompilerError> {
+        let mut seen = BTreeSet::new();
+        for flow in flows {
+            if !is_identifier(&flow.name) {
+                return Err(CompilerError::invalid_source(format!(
+                    "'{}' is not a valid name for a knot, stitch or function.",
+                    flow.name
+                )));
+            }
+            if !seen.insert(flow.name.as_str()) {
+                return Err(CompilerError::invalid_source(format!(
+                    "A knot, stitch or function named '{}' already exists in this scope.",
+                    flow.name
+                )));
+            }
+            self.validate_flow_names(&flow.children)?;
+        }
+        Ok(())
     }
 
-    fn collect_and_check_gather_labels(
+    fn validate_no_duplicate_labels(
         &self,
         nodes: &[Node],
-        seen: &mut BTreeMap<String, ()>,
+        stitches: &[Flow],
+    ) -> Result<(), CompilerError> {
+        let mut seen = stitches.iter().map(|s| s.name.clone()).collect();
+        self.collect_and_check_labels(nodes, &mut seen)
+    }
+
+    fn collect_and_check_labels(
+        &self,
+        nodes: &[Node],
+        seen: &mut BTreeSet<String>,
     ) -> Result<(), CompilerError> {
         for node in nodes {
+            let label = match node {
+                Node::GatherLabel { label, .. } => Some(label),
+                Node::Choice(c) => c.label.as_ref(),
+                _ => None,
+            };
+            if let Some(label) = label
+                && !seen.insert(label.clone())
+            {
+                return Err(CompilerError::invalid_source(format!(
+                    "Content with the same label '{label}' already exists in this scope."
+                )));
+            }
             match node {
-                Node::GatherLabel { label, .. }
-                    if seen.insert(label.clone(), ()).is_some() =>
-                {
-                    return Err(CompilerError::invalid_source(format!(
-                        "A gather point with the same label '{label}' already exists in this scope."
-                    )));
-                }
-                Node::Choice(c) => {
-                    self.collect_and_check_gather_labels(&c.body, seen)?;
-                }
+                Node::Choice(c) => self.collect_and_check_labels(&c.body, seen)?,
                 Node::Conditional {
                     when_true,
                     when_false,
                     ..
                 } => {
-                    self.collect_and_check_gather_labels(when_true, seen)?;
+                    self.collect_and_check_labels(when_true, seen)?;
                     if let Some(wf) = when_false {
-                        self.collect_and_check_gather_labels(wf, seen)?;
+                        self.collect_and_check_labels(wf, seen)?;
                     }
                 }
                 Node::SwitchConditional { branches, .. } => {
                     for (_, body) in branches {
-                        self.collect_and_check_gather_labels(body, seen)?;
+                        self.collect_and_check_labels(body, seen)?;
                     }
                 }
                 Node::Sequence(seq) => {
                     for branch in &seq.branches {
-                        self.collect_and_check_gather_labels(branch, seen)?;
+                        self.collect_and_check_labels(branch, seen)?;
                     }
                 }
                 _ => {}
-- 
2.43.0


From 36d2c8887e0fe062b0cd90dedafe115825aa85ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 33/56] fix: don't panic on a relative path that goes above the
 root

---
 runtime/src/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index 2ceff0a..2390a78 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -132,7 +132,7 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
+        for i in 0..self.components.len().saturating_sub(upward_moves) {
             components.push(self.components.get(i).unwrap().clone());
         }
 
-- 
2.43.0


From 6afa0388c6fa91643fee4375e7fdf584021b366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:02 +0000
Subject: [PATCH 34/56] fix: reject malformed story content in the default
 loader instead of panicking

---
 runtime/src/json/json_read.rs | 150 ++++++++++++++++++++--------------
 1 file changed, 87 insertions(+), 63 deletions(-)

diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index eb5f4d9..c5cfac2 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -26,6 +26,27 @@ use crate::{
     void::Void,
 };
 
+fn bad_token(token: impl std::fmt::Display) -> StoryError {
+    StoryError::BadJson(format!(
+        "Failed to convert token to runtime RTObject: {token}"
+    ))
+}
+
+pub(crate) fn as_str(token: &serde_json::Value) -> Result<&str, StoryError> {
+    token.as_str().ok_or_else(|| bad_token(token))
+}
+
+pub(crate) fn as_int(token: &serde_json::Value) -> Result<i32, StoryError> {
+    token
+        .as_i64()
+        .and_then(|i| i.try_into().ok())
+        .ok_or_else(|| bad_token(token))
+}
+
+pub(crate) fn as_index(token: &serde_json::Value) -> Result<usize, StoryError> {
+    as_int(token)?.try_into().map_err(|_| bad_token(token))
+}
+
 pub fn load_from_string(
     s: &str,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
@@ -34,15 +55,15 @@ pub fn load_from_string(
         Err(_) => return Err(StoryError::BadJson("Story not in JSON format.".to_owned())),
     };
 
-    let version_opt = json.get("inkVersion");
-
-    if version_opt.is_none() || !version_opt.unwrap().is_number() {
-        return Err(StoryError::BadJson(
-            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
-    }
-
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version = json
+        .get("inkVersion")
+        .and_then(|v| as_int(v).ok())
+        .ok_or_else(|| {
+            StoryError::BadJson(
+                "ink version number not found. Are you sure it's a valid .ink.json file?"
+                    .to_owned(),
+            )
+        })?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -96,12 +117,11 @@ pub fn jtoken_to_runtime_object(
         ))),
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
-            if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
-                Ok(Rc::new(Value::new::<i32>(val)))
-            } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
+            if token.is_f64() {
+                let val = token.as_f64().ok_or_else(|| bad_token(token))? as f32;
                 Ok(Rc::new(Value::new::<f32>(val)))
+            } else {
+                Ok(Rc::new(Value::new::<i32>(as_int(token)?)))
             }
         }
 
@@ -109,10 +129,9 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if str == "\n" {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
@@ -159,7 +178,7 @@ pub fn jtoken_to_runtime_object(
 
             if let Some(prop_value) = prop_value {
                 return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(as_str(prop_value)?)),
                 )));
             }
 
@@ -167,12 +186,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = as_str(v)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = as_int(v)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -213,8 +232,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+            if is_divert && let Some(target) = prop_value {
+                let target = as_str(target)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -234,7 +253,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = as_index(prop_value)?;
                     }
                 }
 
@@ -253,29 +272,24 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = as_str(cp)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = as_int(f)?;
                 }
 
-                return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
-                    path_string_on_choice,
-                )));
+                return Ok(Rc::new(ChoicePoint::new(flags, path_string_on_choice)));
             }
 
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(as_str(name)?)));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
-                return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
-                )));
+                return Ok(Rc::new(VariableReference::from_path_for_count(as_str(v)?)));
             }
 
             // // Variable assignment
@@ -297,8 +311,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+            if is_var_ass && let Some(var_name) = prop_value {
+                let var_name = as_str(var_name)?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -313,32 +327,32 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(as_str(prop_value)?)));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = pv.as_object().ok_or_else(|| bad_token(token))?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
+                    let names_as_objs = o.as_array().ok_or_else(|| bad_token(token))?;
 
                     let names = names_as_objs
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| as_str(e).map(str::to_string))
+                        .collect::<Result<_, _>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list.items.insert(item, as_int(v)?);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -365,7 +379,10 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = match jarray.last() {
+        Some(last) => last.as_object(),
+        None => return Err(bad_token("[]")),
+    };
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -374,16 +391,15 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = as_int(v)?,
+                "#n" => name = Some(as_str(v)?.to_string()),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| bad_token(v))?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -421,12 +437,17 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+    let get = |key: &str| {
+        obj.get(key)
+            .ok_or_else(|| StoryError::BadJson(format!("choice has no '{key}'")))
+    };
+
+    let text = as_str(get("text")?)?;
+    let index = as_index(get("index")?)?;
+    let source_path = as_str(get("originalChoicePath")?)?;
+    let original_thread_index = as_index(get("originalThreadIndex")?)?;
+    let path_string_on_choice = as_str(get("targetPath")?)?;
+    let choice_tags = jarray_to_tags(obj)?;
     let is_invisible_default = obj
         .get("isInvisibleDefault")
         .and_then(|v| v.as_bool())
@@ -443,18 +464,18 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
+        let tags_array = pv.as_array().ok_or_else(|| bad_token(pv))?;
         for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+            tags.push(as_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -462,11 +483,14 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in def.as_object().ok_or_else(|| bad_token(def))? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        let list_def_items = list_def_json
+            .as_object()
+            .ok_or_else(|| bad_token(list_def_json))?;
+        for (k, v) in list_def_items {
+            items.insert(k.clone(), as_int(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -487,7 +511,7 @@ pub(crate) fn jobject_to_hashmap_values(
             jtoken_to_runtime_object(v, None)?
                 .into_any()
                 .downcast::<Value>()
-                .unwrap(),
+                .map_err(|_| bad_token(v))?,
         );
     }
 
@@ -500,7 +524,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), as_int(v)?);
     }
 
     Ok(dict)
-- 
2.43.0


From 8118881c4330d64930fd08daf3187c0ffaa0b756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:04 +0000
Subject: [PATCH 35/56] fix: streaming loader reads every JSON escape, number
 form, key order and layout like the default one

---
 runtime/src/json/json_read_stream.rs | 665 +++++++++++++--------------
 runtime/src/json/json_tokenizer.rs   | 144 +++---
 2 files changed, 392 insertions(+), 417 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..548cf32 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -27,7 +27,7 @@ use crate::{
     void::Void,
 };
 
-use super::json_tokenizer::{JsonTokenizer, JsonValue};
+use super::json_tokenizer::{JsonTokenizer, JsonValue, Number};
 
 pub fn load_from_string(
     s: &str,
@@ -37,77 +37,168 @@ pub fn load_from_string(
     parse(&mut tok)
 }
 
-fn parse(
-    tok: &mut JsonTokenizer,
-) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
-    tok.expect('{')?;
+fn bad_token(token: &str) -> StoryError {
+    StoryError::BadJson(format!(
+        "Failed to convert token to runtime RTObject: {token}"
+    ))
+}
 
-    let version_key = tok.read_obj_key()?;
+fn as_str(value: &JsonValue) -> Result<&str, StoryError> {
+    value
+        .as_str()
+        .ok_or_else(|| bad_token(&format!("{value:?}")))
+}
 
-    if version_key != "inkVersion" {
-        return Err(StoryError::BadJson(
-            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
-        ));
+fn as_int(value: &JsonValue) -> Result<i32, StoryError> {
+    match value {
+        JsonValue::Number(n) => n.as_integer(),
+        _ => None,
     }
+    .ok_or_else(|| bad_token(&format!("{value:?}")))
+}
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+/// Reads the rest of an object whose `{` has been read, calling `on_key` after
+/// each key. `on_key` must read the value.
+fn read_object(
+    tok: &mut JsonTokenizer,
+    mut on_key: impl FnMut(&mut JsonTokenizer, String) -> Result<(), StoryError>,
+) -> Result<(), StoryError> {
+    if tok.peek()? != '}' {
+        loop {
+            let key = tok.read_obj_key()?;
+            on_key(tok, key)?;
+
+            if tok.peek()? != ',' {
+                break;
+            }
+            tok.expect(',')?;
+        }
+    }
 
-    if version > INK_VERSION_CURRENT {
-        return Err(StoryError::BadJson(
-            "Version of ink used to build story was newer than the current version of the engine"
-                .to_owned(),
-        ));
-    } else if version < INK_VERSION_MINIMUM_COMPATIBLE {
-        return Err(StoryError::BadJson(
-            "Version of ink used to build story is too old to be loaded by this version of the engine".to_owned(),
-        ));
+    tok.expect('}')?;
+    Ok(())
+}
+
+/// Reads the rest of an array whose `[` has been read, calling `on_element`
+/// before each element. `on_element` must read the element.
+fn read_array(
+    tok: &mut JsonTokenizer,
+    mut on_element: impl FnMut(&mut JsonTokenizer) -> Result<(), StoryError>,
+) -> Result<(), StoryError> {
+    if tok.peek()? != ']' {
+        loop {
+            on_element(tok)?;
+
+            if tok.peek()? != ',' {
+                break;
+            }
+            tok.expect(',')?;
+        }
     }
 
-    tok.expect(',')?;
+    tok.expect(']')?;
+    Ok(())
+}
 
-    let root_key = tok.read_obj_key()?;
+/// Levels of arrays and objects that a story may nest, the same as for the
+/// default parser.
+const MAX_DEPTH: usize = 127;
 
-    if root_key != "root" {
+fn deeper(depth: usize) -> Result<usize, StoryError> {
+    if depth >= MAX_DEPTH {
         return Err(StoryError::BadJson(
-            "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
+            "Story content is nested too deeply.".to_owned(),
         ));
     }
+    Ok(depth + 1)
+}
 
-    let root_value = tok.read_value()?;
-    let main_content_container = match jtoken_to_runtime_object(tok, root_value, None)? {
-        ArrayElement::RTObject(rt_obj) => rt_obj,
-        _ => {
-            return Err(StoryError::BadJson(
-                "Root node for ink is not a container?".to_owned(),
-            ));
+fn skip_value(tok: &mut JsonTokenizer, depth: usize) -> Result<(), StoryError> {
+    match tok.read_value()? {
+        JsonValue::Array => {
+            let depth = deeper(depth)?;
+            read_array(tok, |tok| skip_value(tok, depth))
         }
-    };
+        JsonValue::Object => {
+            let depth = deeper(depth)?;
+            read_object(tok, |tok, _| skip_value(tok, depth))
+        }
+        _ => Ok(()),
+    }
+}
 
-    let main_content_container = main_content_container.into_any().downcast::<Container>();
+fn parse(
+    tok: &mut JsonTokenizer,
+) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
+    let mut version: Option<i32> = None;
+    let mut root: Option<Rc<Container>> = None;
+    let mut list_defs: Option<ListDefinitionsOrigin> = None;
+
+    tok.expect('{')?;
+    read_object(tok, |tok, key| {
+        match key.as_str() {
+            "inkVersion" => {
+                let v = as_int(&tok.read_value()?)?;
+                check_version(v)?;
+                version = Some(v);
+            }
+            "root" => {
+                let value = tok.read_value()?;
+                root = match jtoken_to_runtime_object(tok, value, None, 1)? {
+                    ArrayElement::RTObject(o) => o.into_any().downcast::<Container>().ok(),
+                    _ => None,
+                };
+                if root.is_none() {
+                    return Err(StoryError::BadJson(
+                        "Root node for ink is not a container?".to_owned(),
+                    ));
+                }
+            }
+            "listDefs" => list_defs = Some(jtoken_to_list_definitions(tok)?),
+            _ => skip_value(tok, 1)?,
+        }
+        Ok(())
+    })?;
 
-    if main_content_container.is_err() {
+    if tok.peek().is_ok() {
         return Err(StoryError::BadJson(
-            "Root node for ink is not a container?".to_owned(),
+            "There is more text after the story.".to_owned(),
         ));
-    };
+    }
 
-    let main_content_container = main_content_container.unwrap(); // unwrap: checked for err above
+    let version = version.ok_or_else(|| {
+        StoryError::BadJson(
+            "ink version number not found. Are you sure it's a valid .ink.json file?".to_owned(),
+        )
+    })?;
+    let root = root.ok_or_else(|| {
+        StoryError::BadJson(
+            "Root node for ink not found. Are you sure it's a valid .ink.json file?".to_owned(),
+        )
+    })?;
+    let list_defs = list_defs.ok_or_else(|| {
+        StoryError::BadJson(
+            "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
+                .to_owned(),
+        )
+    })?;
 
-    tok.expect(',')?;
-    let list_defs_key = tok.read_obj_key()?;
+    Ok((version, root, Rc::new(list_defs)))
+}
 
-    if list_defs_key != "listDefs" {
+fn check_version(version: i32) -> Result<(), StoryError> {
+    if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
-            "List Definitions node for ink not found. Are you sure it's a valid .ink.json file?"
+            "Version of ink used to build story was newer than the current version of the engine"
                 .to_owned(),
         ));
+    } else if version < INK_VERSION_MINIMUM_COMPATIBLE {
+        return Err(StoryError::BadJson(
+            "Version of ink used to build story is too old to be loaded by this version of the engine".to_owned(),
+        ));
     }
 
-    let list_defs = Rc::new(jtoken_to_list_definitions(tok)?);
-
-    tok.expect('}')?;
-
-    Ok((version, main_content_container, list_defs))
+    Ok(())
 }
 
 enum ArrayElement {
@@ -123,29 +214,22 @@ fn jtoken_to_runtime_object(
     tok: &mut JsonTokenizer,
     value: JsonValue,
     name: Option<String>,
+    depth: usize,
 ) -> Result<ArrayElement, StoryError> {
     match value {
         JsonValue::Null => Ok(ArrayElement::NullElement),
         JsonValue::Boolean(value) => Ok(ArrayElement::RTObject(Rc::new(Value::new::<bool>(value)))),
-        JsonValue::Number(value) => {
-            if value.is_integer() {
-                let val: i32 = value.as_integer().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<i32>(val))))
-            } else {
-                let val: f32 = value.as_float().unwrap();
-                Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(val))))
-            }
-        }
+        JsonValue::Number(value) => Ok(ArrayElement::RTObject(match value {
+            Number::Int(val) => Rc::new(Value::new::<i32>(val)),
+            Number::Float(val) => Rc::new(Value::new::<f32>(val)),
+        })),
         JsonValue::String(value) => {
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(text))));
+            } else if str == "\n" {
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
             }
 
@@ -175,287 +259,199 @@ fn jtoken_to_runtime_object(
                 return Ok(ArrayElement::RTObject(Rc::new(Void::new())));
             }
 
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                str
-            )))
-        }
-        JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(tok, name)?)),
-        JsonValue::Object => {
-            let prop = tok.read_obj_key()?;
-            let prop_value = tok.read_value()?;
-
-            // Divert target value to path
-            if prop == "^->" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
-                ))));
+            // The one float that isn't a JSON number
+            if "NaN".eq(str) {
+                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<f32>(f32::NAN))));
             }
 
-            // // VariablePointerValue
-            if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
-                let mut contex_index = -1;
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ptr));
-            }
-
-            // // Divert
-            let mut is_divert = false;
-            let mut pushes_to_stack = false;
-            let mut div_push_type = PushPopType::Function;
-            let mut external = false;
-
-            if prop == "->" {
-                is_divert = true;
-            } else if prop == "f()" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Function;
-            } else if prop == "->t->" {
-                is_divert = true;
-                pushes_to_stack = true;
-                div_push_type = PushPopType::Tunnel;
-            } else if prop == "x()" {
-                is_divert = true;
-                external = true;
-                pushes_to_stack = false;
-                div_push_type = PushPopType::Function;
-            }
-
-            if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
-
-                let mut var_divert_name: Option<String> = None;
-                let mut target_path: Option<String> = None;
-
-                let mut conditional = false;
-                let mut external_args = 0;
-
-                while tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    let prop = tok.read_obj_key()?;
-                    let prop_value = tok.read_value()?;
-
-                    // Variable target
-                    if prop == "var" {
-                        var_divert_name = Some(target.clone());
-                    } else if prop == "c" {
-                        conditional = true;
-                    } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
-                    }
-                }
+            Err(bad_token(str))
+        }
+        JsonValue::Array => Ok(ArrayElement::RTObject(jarray_to_container(
+            tok,
+            name,
+            deeper(depth)?,
+        )?)),
+        JsonValue::Object => jobject_to_runtime_object(tok, deeper(depth)?),
+    }
+}
 
-                if var_divert_name.is_none() {
-                    target_path = Some(target);
-                }
+/// An object is one of the kinds that have a key of their own, or the last
+/// element of a container, with its named content.
+fn jobject_to_runtime_object(
+    tok: &mut JsonTokenizer,
+    depth: usize,
+) -> Result<ArrayElement, StoryError> {
+    let mut props: HashMap<String, JsonValue> = HashMap::new();
+    let mut list_content: Option<HashMap<String, i32>> = None;
+    let mut origins: Option<Vec<String>> = None;
+    let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
 
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Divert::new(
-                    pushes_to_stack,
-                    div_push_type,
-                    external,
-                    external_args,
-                    conditional,
-                    var_divert_name,
-                    target_path.as_deref(),
-                ))));
+    read_object(tok, |tok, key| {
+        match tok.read_value()? {
+            JsonValue::Object if key == "list" => {
+                deeper(depth)?;
+                list_content = Some(parse_list(tok)?);
             }
-
-            // Choice
-            if prop == "*" {
-                let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
-
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
-                }
-
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(ChoicePoint::new(
-                    flags,
-                    path_string_on_choice,
-                ))));
+            JsonValue::Array if key == "origins" && list_content.is_some() => {
+                deeper(depth)?;
+                let mut names = Vec::new();
+                read_array(tok, |tok| {
+                    names.push(tok.read_string()?);
+                    Ok(())
+                })?;
+                origins = Some(names);
             }
-
-            // Variable reference
-            if prop == "VAR?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
-                ))));
+            JsonValue::Array => {
+                let container = jarray_to_container(tok, Some(key.clone()), deeper(depth)?)?;
+                let container = container
+                    .into_any()
+                    .downcast::<Container>()
+                    .map_err(|_| bad_token(&key))?;
+                named_only_content.insert(key, container);
             }
-
-            if prop == "CNT?" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
-                )));
+            JsonValue::Object => return Err(bad_token(&key)),
+            value => {
+                props.insert(key, value);
             }
+        }
+        Ok(())
+    })?;
 
-            // Variable assignment
-            let mut is_var_ass = false;
-            let mut is_global_var = false;
+    let object = |o: Rc<dyn RTObject>| Ok(ArrayElement::RTObject(o));
 
-            if prop == "VAR=" {
-                is_var_ass = true;
-                is_global_var = true;
-            } else if prop == "temp=" {
-                is_var_ass = true;
-                is_global_var = false;
-            }
+    // Divert target value to path
+    if let Some(path) = props.get("^->") {
+        return object(Rc::new(Value::new::<Path>(
+            Path::new_with_components_string(Some(as_str(path)?)),
+        )));
+    }
 
-            if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
-                let mut is_new_decl = true;
+    // VariablePointerValue
+    if let Some(variable_name) = props.get("^var") {
+        let contex_index = props.get("ci").map_or(Ok(-1), as_int)?;
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("re")?;
-                    let _ = tok.read_boolean()?;
-                    is_new_decl = false;
-                }
+        return object(Rc::new(Value::new_variable_pointer(
+            as_str(variable_name)?,
+            contex_index,
+        )));
+    }
 
-                let var_ass = Rc::new(VariableAssignment::new(
-                    var_name,
-                    is_new_decl,
-                    is_global_var,
-                ));
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(var_ass));
-            }
+    // Divert
+    for (key, pushes_to_stack, div_push_type, external) in [
+        ("->", false, PushPopType::Function, false),
+        ("f()", true, PushPopType::Function, false),
+        ("->t->", true, PushPopType::Tunnel, false),
+        ("x()", false, PushPopType::Function, true),
+    ] {
+        let Some(target) = props.get(key) else {
+            continue;
+        };
+        let target = as_str(target)?;
+
+        let mut var_divert_name: Option<String> = None;
+        let mut target_path: Option<&str> = None;
+
+        if props.contains_key("var") {
+            var_divert_name = Some(target.to_string());
+        } else {
+            target_path = Some(target);
+        }
 
-            // // Legacy Tag
-            if prop == "#" {
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
-                ))));
-            }
+        let conditional = props.contains_key("c");
+        let mut external_args = 0;
 
-            // List value
-            if prop == "list" {
-                let list_content = parse_list(tok)?;
-                let mut raw_list = InkList::new();
+        if external && let Some(args) = props.get("exArgs") {
+            external_args = as_int(args)?.try_into().map_err(|_| bad_token("exArgs"))?;
+        }
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    tok.expect_obj_key("origins")?;
+        return object(Rc::new(Divert::new(
+            pushes_to_stack,
+            div_push_type,
+            external,
+            external_args,
+            conditional,
+            var_divert_name,
+            target_path,
+        )));
+    }
 
-                    // read array of strings
-                    tok.expect('[')?;
+    // Choice
+    if let Some(path_string_on_choice) = props.get("*") {
+        let flags = props.get("flg").map_or(Ok(0), as_int)?;
 
-                    let mut names = Vec::new();
-                    while tok.peek()? != ']' {
-                        let name = tok.read_string()?;
-                        names.push(name);
+        return object(Rc::new(ChoicePoint::new(
+            flags,
+            as_str(path_string_on_choice)?,
+        )));
+    }
 
-                        if tok.peek()? != ']' {
-                            tok.expect(',')?;
-                        }
-                    }
+    // Variable reference
+    if let Some(name) = props.get("VAR?") {
+        return object(Rc::new(VariableReference::new(as_str(name)?)));
+    }
 
-                    tok.expect(']')?;
+    if let Some(path) = props.get("CNT?") {
+        return object(Rc::new(VariableReference::from_path_for_count(as_str(
+            path,
+        )?)));
+    }
 
-                    raw_list.set_initial_origin_names(names);
-                }
+    // Variable assignment
+    for (key, is_global_var) in [("VAR=", true), ("temp=", false)] {
+        if let Some(var_name) = props.get(key) {
+            let is_new_decl = !props.contains_key("re");
 
-                for (k, v) in list_content {
-                    let item = InkListItem::from_full_name(k.as_str());
-                    raw_list.items.insert(item, v);
-                }
+            return object(Rc::new(VariableAssignment::new(
+                as_str(var_name)?,
+                is_new_decl,
+                is_global_var,
+            )));
+        }
+    }
 
-                tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<InkList>(
-                    raw_list,
-                ))));
-            }
+    // Legacy Tag
+    if let Some(text) = props.get("#") {
+        return object(Rc::new(Tag::new(as_str(text)?)));
+    }
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
-            }
+    // List value
+    if let Some(list_content) = list_content {
+        let mut raw_list = InkList::new();
 
-            // Last Element
-            let mut flags = 0;
-            let mut name: Option<String> = None;
-            let mut named_only_content: HashMap<String, Rc<Container>> = HashMap::new();
-
-            let mut p = prop.clone();
-            let mut pv = prop_value;
-
-            loop {
-                if p == "#f" {
-                    flags = pv.as_integer().unwrap();
-                } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
-                } else {
-                    let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
-
-                    let named_content_item = match named_content_item {
-                        ArrayElement::RTObject(rt_obj) => rt_obj,
-                        _ => {
-                            return Err(StoryError::BadJson(
-                                "Named content is not a runtime object".to_owned(),
-                            ));
-                        }
-                    };
+        if let Some(names) = origins {
+            raw_list.set_initial_origin_names(names);
+        }
 
-                    let named_sub_container = named_content_item
-                        .into_any()
-                        .downcast::<Container>()
-                        .unwrap();
+        for (k, v) in list_content {
+            let item = InkListItem::from_full_name(k.as_str());
+            raw_list.items.insert(item, v);
+        }
 
-                    named_only_content.insert(p, named_sub_container);
-                }
+        return object(Rc::new(Value::new::<InkList>(raw_list)));
+    }
 
-                if tok.peek()? == ',' {
-                    tok.expect(',')?;
-                    p = tok.read_obj_key()?;
-                    pv = tok.read_value()?;
-                } else if tok.peek()? == '}' {
-                    tok.expect('}')?;
-                    return Ok(ArrayElement::LastElement(flags, name, named_only_content));
-                } else {
-                    break;
-                }
-            }
+    // Last Element
+    let flags = props.remove("#f").map_or(Ok(0), |f| as_int(&f))?;
+    let name = match props.remove("#n") {
+        Some(n) => Some(as_str(&n)?.to_string()),
+        None => None,
+    };
 
-            Err(StoryError::BadJson(format!(
-                "Failed to convert token to runtime RTObject: {}",
-                prop
-            )))
-        }
+    match props.keys().next() {
+        Some(unknown) => Err(bad_token(unknown)),
+        None => Ok(ArrayElement::LastElement(flags, name, named_only_content)),
     }
 }
 
+/// Reads the rest of an object of numbers whose `{` has been read.
 fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
     let mut list_content: HashMap<String, i32> = HashMap::new();
 
-    while tok.peek()? != '}' {
-        let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
+    read_object(tok, |tok, key| {
+        let value = as_int(&tok.read_value()?)?;
         list_content.insert(key, value);
-
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
-    }
-
-    tok.expect('}')?;
+        Ok(())
+    })?;
 
     Ok(list_content)
 }
@@ -463,8 +459,9 @@ fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryErro
 fn jarray_to_container(
     tok: &mut JsonTokenizer,
     name: Option<String>,
+    depth: usize,
 ) -> Result<Rc<dyn RTObject>, StoryError> {
-    let (content, named) = jarray_to_runtime_obj_list(tok)?;
+    let (content, named) = jarray_to_runtime_obj_list(tok, depth)?;
 
     // Final object in the array is always a combination of
     //  - named content
@@ -490,37 +487,31 @@ fn jarray_to_container(
     Ok(container)
 }
 
-fn jarray_to_runtime_obj_list(tok: &mut JsonTokenizer) -> RuntimeObjectListResult {
+fn jarray_to_runtime_obj_list(tok: &mut JsonTokenizer, depth: usize) -> RuntimeObjectListResult {
     let mut list: RuntimeObjectList = Vec::new();
     let mut last_element: Option<ArrayElement> = None;
 
-    while tok.peek()? != ']' {
+    read_array(tok, |tok| {
+        // Only the last element can be null or hold the named content.
+        if last_element.is_some() {
+            return Err(StoryError::BadJson(
+                "Only the last element of a container can be null or have named content".to_owned(),
+            ));
+        }
+
         let val = tok.read_value()?;
-        let runtime_obj = jtoken_to_runtime_object(tok, val, None)?;
 
-        match runtime_obj {
-            ArrayElement::LastElement(flags, name, named_only_content) => {
-                last_element = Some(ArrayElement::LastElement(flags, name, named_only_content));
-                break;
-            }
+        match jtoken_to_runtime_object(tok, val, None, depth)? {
             ArrayElement::RTObject(rt_obj) => list.push(rt_obj),
-            ArrayElement::NullElement => {
-                // Only the last element can be null
-                if tok.peek()? != ']' {
-                    return Err(StoryError::BadJson(
-                        "Only the last element can be null".to_owned(),
-                    ));
-                }
-            }
+            last => last_element = Some(last),
         }
+        Ok(())
+    })?;
 
-        if tok.peek()? != ']' {
-            tok.expect(',')?;
-        }
+    if last_element.is_none() {
+        return Err(bad_token("a container without a last element"));
     }
 
-    tok.expect(']')?;
-
     Ok((list, last_element))
 }
 
@@ -530,21 +521,11 @@ fn jtoken_to_list_definitions(
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
     tok.expect('{')?;
-
-    while tok.peek()? != '}' {
-        let name = tok.read_obj_key()?;
+    read_object(tok, |tok, name| {
         tok.expect('{')?;
-
-        let items = parse_list(tok)?;
-        let def = ListDefinition::new(name, items);
-        all_defs.push(def);
-
-        if tok.peek()? != '}' {
-            tok.expect(',')?;
-        }
-    }
-
-    tok.expect('}')?;
+        all_defs.push(ListDefinition::new(name, parse_list(tok)?));
+        Ok(())
+    })?;
 
     Ok(ListDefinitionsOrigin::new(&mut all_defs))
 }
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..8667c52 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -11,21 +11,7 @@ impl Number {
     pub(super) fn as_integer(&self) -> Option<i32> {
         match self {
             Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
-        }
-    }
-
-    pub(super) fn as_float(&self) -> Option<f32> {
-        match self {
-            Number::Int(n) => Some(*n as f32),
-            Number::Float(n) => Some(*n),
-        }
-    }
-
-    pub(super) fn is_integer(&self) -> bool {
-        match self {
-            Number::Int(_) => true,
-            Number::Float(_) => false,
+            Number::Float(_) => None,
         }
     }
 }
@@ -47,13 +33,6 @@ impl JsonValue {
             _ => None,
         }
     }
-
-    pub(super) fn as_integer(&self) -> Option<i32> {
-        match self {
-            JsonValue::Number(n) => n.as_integer(),
-            _ => None,
-        }
-    }
 }
 
 pub(super) struct JsonTokenizer<'a> {
@@ -161,60 +140,87 @@ impl<'a> JsonTokenizer<'a> {
         let number_str = self.read_until_separator()?;
         let number_str = number_str.trim();
 
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
+        // Only digits and a sign make an integer, apart from the negative zero
+        // that no integer can hold.
+        let is_integer =
+            number_str.bytes().all(|c| c.is_ascii_digit() || c == b'-') && number_str != "-0";
 
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
+        let number = if is_integer {
+            number_str.parse::<i32>().ok().map(Number::Int)
+        } else {
+            number_str
+                .parse::<f64>()
+                .ok()
+                .filter(|n| n.is_finite())
+                .map(|n| Number::Float(n as f32))
+        };
+
+        number.ok_or_else(|| {
+            io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Invalid number format: '{}'", number_str),
-            )),
-        }
+            )
+        })
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
         let mut result = String::new();
-        let mut escape = false;
 
         self.expect('"')?;
         self.skip_whitespaces = false;
 
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
-                }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
+        loop {
+            match self.read()? {
+                '"' => break, // End of the quoted string
+                '\\' => result.push(self.read_escape()?),
+                c => result.push(c),
             }
         }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+        self.skip_whitespaces = true;
+
+        Ok(result)
+    }
+
+    /// Reads what follows the backslash of an escape sequence.
+    fn read_escape(&mut self) -> io::Result<char> {
+        Ok(match self.read()? {
+            c @ ('"' | '\\' | '/') => c,
+            'b' => '\u{8}',
+            'f' => '\u{c}',
+            'n' => '\n',
+            'r' => '\r',
+            't' => '\t',
+            'u' => {
+                let mut code = self.read_hex4()?;
+                // Characters outside the BMP are a pair of surrogates.
+                if (0xD800..0xDC00).contains(&code) {
+                    if self.read()? != '\\' || self.read()? != 'u' {
+                        return Err(Self::invalid_escape());
+                    }
+                    let low = self.read_hex4()?;
+                    if !(0xDC00..0xE000).contains(&low) {
+                        return Err(Self::invalid_escape());
+                    }
+                    code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+                }
+                char::from_u32(code).ok_or_else(Self::invalid_escape)?
+            }
+            _ => return Err(Self::invalid_escape()),
+        })
+    }
+
+    fn read_hex4(&mut self) -> io::Result<u32> {
+        let mut code = 0;
+        for _ in 0..4 {
+            let digit = self.read()?.to_digit(16);
+            code = code * 16 + digit.ok_or_else(Self::invalid_escape)?;
         }
+        Ok(code)
+    }
+
+    fn invalid_escape() -> io::Error {
+        io::Error::new(io::ErrorKind::InvalidData, "Invalid escape sequence")
     }
 
     fn read_until_separator(&mut self) -> io::Result<String> {
@@ -260,21 +266,9 @@ impl<'a> JsonTokenizer<'a> {
     }
 
     pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
-        let s = self.read_string();
-        self.expect(':')?;
-        s
-    }
-
-    pub(super) fn expect_obj_key(&mut self, expected: &str) -> io::Result<()> {
         let s = self.read_string()?;
-        if s != expected {
-            return Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                format!("Expected '{}', found '{}'", expected, s),
-            ));
-        }
-        let _ = self.expect(':');
-        Ok(())
+        self.expect(':')?;
+        Ok(s)
     }
 
     pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
-- 
2.43.0


From 16966da6fc326d5f6e54a50aa3c4c8b15d4371a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 36/56] fix: streaming loader accepts the origins of a list
 before its items and integers too long for any type

---
 runtime/src/json/json_read_stream.rs | 16 +++++++++++++++-
 runtime/src/json/json_tokenizer.rs   |  7 ++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index 548cf32..ffc76e1 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -292,7 +292,7 @@ fn jobject_to_runtime_object(
                 deeper(depth)?;
                 list_content = Some(parse_list(tok)?);
             }
-            JsonValue::Array if key == "origins" && list_content.is_some() => {
+            JsonValue::Array if key == "origins" && is_string_array(tok.clone()) => {
                 deeper(depth)?;
                 let mut names = Vec::new();
                 read_array(tok, |tok| {
@@ -430,6 +430,10 @@ fn jobject_to_runtime_object(
         return object(Rc::new(Value::new::<InkList>(raw_list)));
     }
 
+    if origins.is_some() {
+        return Err(bad_token("origins"));
+    }
+
     // Last Element
     let flags = props.remove("#f").map_or(Ok(0), |f| as_int(&f))?;
     let name = match props.remove("#n") {
@@ -443,6 +447,16 @@ fn jobject_to_runtime_object(
     }
 }
 
+/// Whether the array whose `[` has been read has nothing but strings, which no
+/// container has.
+fn is_string_array(mut tok: JsonTokenizer) -> bool {
+    read_array(&mut tok, |tok| {
+        tok.read_string()?;
+        Ok(())
+    })
+    .is_ok()
+}
+
 /// Reads the rest of an object of numbers whose `{` has been read.
 fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryError> {
     let mut list_content: HashMap<String, i32> = HashMap::new();
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 8667c52..581b687 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -35,6 +35,7 @@ impl JsonValue {
     }
 }
 
+#[derive(Clone)]
 pub(super) struct JsonTokenizer<'a> {
     json: &'a [u8],
     lookahead: Option<char>,
@@ -141,9 +142,9 @@ impl<'a> JsonTokenizer<'a> {
         let number_str = number_str.trim();
 
         // Only digits and a sign make an integer, apart from the negative zero
-        // that no integer can hold.
-        let is_integer =
-            number_str.bytes().all(|c| c.is_ascii_digit() || c == b'-') && number_str != "-0";
+        // and numbers too long for any integer. Those are floats.
+        let is_integer = number_str != "-0"
+            && (number_str.parse::<i64>().is_ok() || number_str.parse::<u64>().is_ok());
 
         let number = if is_integer {
             number_str.parse::<i32>().ok().map(Number::Int)
-- 
2.43.0


From c8f94104516929301058a4321cf3cac5dae49554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 37/56] fix: reject malformed saves and circular references
 instead of panicking

---
 runtime/src/callstack.rs       | 55 ++++++++++++++++++++------------
 runtime/src/flow.rs            | 57 ++++++++++++++--------------------
 runtime/src/json/json_read.rs  | 14 +++++++++
 runtime/src/story_state.rs     | 54 +++++++++++++++-----------------
 runtime/src/variables_state.rs | 40 +++++++++++++++++-------
 5 files changed, 126 insertions(+), 94 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index d472ebc..0c5ec0e 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -63,11 +63,11 @@ impl Thread {
     ) -> Result<Thread, StoryError> {
         let mut thread = Thread::new();
 
-        thread.thread_index = j_obj
-            .get("threadIndex")
-            .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
+        thread.thread_index = json_read::as_index(
+            j_obj
+                .get("threadIndex")
+                .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?,
+        )?;
 
         if let Some(j_thread_callstack) = j_obj
             .get("callstack")
@@ -75,13 +75,11 @@ impl Thread {
         {
             for j_el_tok in j_thread_callstack.iter() {
                 if let Some(j_element_obj) = j_el_tok.as_object() {
-                    let push_pop_type = PushPopType::from_value(
+                    let push_pop_type = PushPopType::from_value(json_read::as_index(
                         j_element_obj
                             .get("type")
-                            .and_then(|t| t.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?
-                            as usize,
-                    )?;
+                            .ok_or(StoryError::BadJson("Invalid push/pop type".to_owned()))?,
+                    )?)?;
 
                     let mut pointer = pointer::NULL.clone();
 
@@ -95,11 +93,11 @@ impl Thread {
                         );
 
                         pointer.container = thread_pointer_result.container();
-                        let pointer_index = j_element_obj
-                            .get("idx")
-                            .and_then(|i| i.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?
-                            as i32;
+                        let pointer_index = json_read::as_int(
+                            j_element_obj
+                                .get("idx")
+                                .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?,
+                        )?;
                         pointer.index = pointer_index;
 
                         if thread_pointer_result.approximate {
@@ -133,6 +131,11 @@ impl Thread {
             }
         }
 
+        // A thread always runs something.
+        if thread.callstack.is_empty() {
+            return Err(StoryError::BadJson("Invalid thread callstack".to_owned()));
+        }
+
         if let Some(prev_content_obj_path) =
             j_obj.get("previousContentObject").and_then(|p| p.as_str())
         {
@@ -234,6 +237,10 @@ impl CallStack {
         self.get_callstack().len() as i32 - 1
     }
 
+    pub fn depth(&self) -> usize {
+        self.get_callstack().len()
+    }
+
     pub fn reset(&mut self) {
         self.threads.clear();
         self.threads.push(Thread::new());
@@ -446,15 +453,25 @@ impl CallStack {
     ) -> Result<(), StoryError> {
         self.threads.clear();
 
-        let j_threads = j_obj.get("threads").unwrap();
+        let j_threads = j_obj
+            .get("threads")
+            .and_then(|t| t.as_array())
+            .filter(|t| !t.is_empty())
+            .ok_or(StoryError::BadJson("Invalid threads".to_owned()))?;
 
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in j_threads.iter() {
+            let j_thread_obj = j_thread_tok
+                .as_object()
+                .ok_or(StoryError::BadJson("Invalid thread".to_owned()))?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
             self.threads.push(thread);
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        self.thread_counter = json_read::as_index(
+            j_obj
+                .get("threadCounter")
+                .ok_or(StoryError::BadJson("Invalid thread counter".to_owned()))?,
+        )?;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..c00b32c 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -40,31 +40,23 @@ impl Flow {
             output_stream: json_read::jarray_to_runtime_obj_list(
                 j_obj
                     .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+                    .and_then(|o| o.as_array())
+                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?,
                 false,
             )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
+            current_choices: json_read::jarray_to_choices(
                 j_obj
                     .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?,
+            )?,
         };
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
             j_obj
                 .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+                .and_then(|o| o.as_object())
+                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -133,25 +125,22 @@ impl Flow {
         j_choice_threads: Option<&serde_json::Value>,
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
-        for choice in self.current_choices.iter_mut() {
-            self.callstack
-                .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
-                    let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+        for choice in self.current_choices.iter() {
+            let thread_index = *choice.original_thread_index.borrow();
+
+            if let Some(thread) = self.callstack.borrow().get_thread_with_index(thread_index) {
+                choice.set_thread_at_generation(thread.clone());
+                continue;
+            }
+
+            let j_saved_choice_thread = j_choice_threads
+                .and_then(|c| c.get(thread_index.to_string()))
+                .and_then(|t| t.as_object())
+                .ok_or(StoryError::BadJson("loading choice threads".to_owned()))?;
+            choice.set_thread_at_generation(Thread::from_json(
+                &main_content_container,
+                j_saved_choice_thread,
+            )?);
         }
 
         Ok(())
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index c5cfac2..183f8e1 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -436,6 +436,20 @@ pub fn jarray_to_runtime_obj_list(
     Ok(list)
 }
 
+pub(crate) fn jarray_to_choices(token: &serde_json::Value) -> Result<Vec<Rc<Choice>>, StoryError> {
+    token
+        .as_array()
+        .ok_or_else(|| bad_token(token))?
+        .iter()
+        .map(|jtok| {
+            jtoken_to_runtime_object(jtok, None)?
+                .into_any()
+                .downcast::<Choice>()
+                .map_err(|_| bad_token(jtok))
+        })
+        .collect()
+}
+
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
     let get = |key: &str| {
         obj.get(key)
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 3115936..3a1702a 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1324,6 +1324,10 @@ impl StoryState {
                 .as_object()
                 .ok_or_else(|| StoryError::BadJson("Invalid flows object".to_string()))?;
 
+            if flows_obj_dict.is_empty() {
+                return Err(StoryError::BadJson("Invalid flows object".to_string()));
+            }
+
             // Single default flow
             if flows_obj_dict.len() == 1 {
                 self.named_flows = None;
@@ -1362,12 +1366,12 @@ impl StoryState {
 
             if let Some(named_flows) = &mut self.named_flows
                 && named_flows.len() > 1
-                && let Some(current_flow_name) = j_object.get("currentFlowName")
-                && let Some(curr_flow_name) = current_flow_name.as_str()
-                && let Some(curr_flow) = named_flows.get(curr_flow_name)
             {
-                self.current_flow = curr_flow.clone();
-                named_flows.remove(curr_flow_name);
+                self.current_flow = j_object
+                    .get("currentFlowName")
+                    .and_then(|name| name.as_str())
+                    .and_then(|name| named_flows.remove(name))
+                    .ok_or_else(|| StoryError::BadJson("Invalid current flow name".to_string()))?;
             }
         }
         // Old format: individually load up callstack, output stream, choices in
@@ -1385,19 +1389,16 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    output_stream_obj
+                        .as_array()
+                        .ok_or_else(|| StoryError::BadJson("Invalid output stream".to_string()))?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices =
+                    json_read::jarray_to_choices(current_choices_obj)?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1415,13 +1416,17 @@ impl StoryState {
                 .load_json(variables_state_obj.as_object().ok_or_else(|| {
                     StoryError::BadJson("Invalid variables state object".to_string())
                 })?)?;
-            self.variables_state
-                .set_callstack(self.current_flow.callstack.clone());
         }
+        self.variables_state
+            .set_callstack(self.current_flow.callstack.clone());
 
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
-            self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+            self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                eval_stack_obj
+                    .as_array()
+                    .ok_or_else(|| StoryError::BadJson("Invalid evaluation stack".to_string()))?,
+                false,
+            )?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
@@ -1445,25 +1450,16 @@ impl StoryState {
         }
 
         if let Some(current_turn_index) = j_object.get("turnIdx") {
-            self.current_turn_index = current_turn_index
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
-                as i32;
+            self.current_turn_index = json_read::as_int(current_turn_index)?;
         }
 
         if let Some(story_seed) = j_object.get("storySeed") {
-            self.story_seed = story_seed
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
-                as i32;
+            self.story_seed = json_read::as_int(story_seed)?;
         }
 
         // Not optional, but bug in inkjs means it's actually missing in inkjs saves
         if let Some(previous_random_obj) = j_object.get("previousRandom") {
-            self.previous_random = previous_random_obj
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
-                as i32;
+            self.previous_random = json_read::as_int(previous_random_obj)?;
         } else {
             self.previous_random = 0;
         }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index cee2bdb..9dae603 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -17,6 +17,10 @@ use crate::{
     variable_assigment::VariableAssignment,
 };
 
+/// References to references are resolved when they are made, so that chains of
+/// them are short unless they are circles.
+const MAX_POINTER_CHAIN: usize = 64;
+
 #[derive(Clone)]
 pub(crate) struct VariablesState {
     pub global_variables: HashMap<String, Rc<Value>>,
@@ -131,13 +135,20 @@ impl VariablesState {
             // Assign to an existing variable pointer
             // Then assign to the variable that the pointer is pointing to by name.
             // De-reference variable reference to point to
+            let mut chain = 0;
             loop {
                 let existing_pointer = self.get_raw_variable_with_name(&name, context_index);
 
                 match existing_pointer {
                     Some(existing_pointer) => {
                         match Value::get_value::<&VariablePointerValue>(existing_pointer.as_ref()) {
+                            Some(_) if chain == MAX_POINTER_CHAIN => {
+                                return Err(StoryError::InvalidStoryState(format!(
+                                    "The reference {name} never leads to a variable"
+                                )));
+                            }
                             Some(pv) => {
+                                chain += 1;
                                 name = pv.variable_name.to_string();
                                 context_index = pv.context_index;
                                 set_global = context_index == 0;
@@ -203,7 +214,11 @@ impl VariablesState {
         let current_context = self.callstack.borrow().get_current_element_index() + 1;
         let mut value = pointer.clone();
 
-        while let Some(pointer) = Value::get_value::<&VariablePointerValue>(value.as_ref()) {
+        for _ in 0..MAX_POINTER_CHAIN {
+            let Some(pointer) = Value::get_value::<&VariablePointerValue>(value.as_ref()) else {
+                break;
+            };
+
             if pointer.variable_name == name && pointer.context_index == current_context {
                 return true;
             }
@@ -343,19 +358,18 @@ impl VariablesState {
     }
 
     pub fn get_variable_with_name(&self, name: &str, context_index: i32) -> Option<Rc<Value>> {
-        let var_value = self.get_raw_variable_with_name(name, context_index);
+        let mut value = self.get_raw_variable_with_name(name, context_index)?;
+
         // Get value from pointer?
-        if let Some(vv) = var_value.clone()
-            && let Some(var_pointer) = Value::get_value::<&VariablePointerValue>(vv.as_ref())
-        {
-            return self.value_at_variable_pointer(var_pointer);
+        for _ in 0..MAX_POINTER_CHAIN {
+            let Some(pointer) = Value::get_value::<&VariablePointerValue>(value.as_ref()) else {
+                return Some(value);
+            };
+            value =
+                self.get_raw_variable_with_name(&pointer.variable_name, pointer.context_index)?;
         }
 
-        var_value
-    }
-
-    fn value_at_variable_pointer(&self, pointer: &VariablePointerValue) -> Option<Rc<Value>> {
-        self.get_variable_with_name(&pointer.variable_name, pointer.context_index)
+        None
     }
 
     pub fn set_callstack(&mut self, callstack: Rc<RefCell<CallStack>>) {
@@ -430,7 +444,9 @@ impl VariablesState {
                     json_read::jtoken_to_runtime_object(loaded_token, None)?
                         .into_any()
                         .downcast::<Value>()
-                        .unwrap(),
+                        .map_err(|_| {
+                            StoryError::BadJson(format!("Invalid value of variable {k}"))
+                        })?,
                 );
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
-- 
2.43.0


From f820cd1a75176159075a2c8a13c68b20c3a231e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 38/56] fix: global declarations that don't end or shuffle too
 much fail to load instead of hanging

---
 runtime/src/story/mod.rs      | 12 ++++++++++++
 runtime/src/story/progress.rs | 19 ++++++++++++++++++-
 runtime/src/story/state.rs    |  8 +++++++-
 3 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 0e30128..7c5c18f 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -41,6 +41,8 @@ pub struct Story {
     pub(crate) allow_external_function_fallbacks: bool,
     pub(crate) saw_lookahead_unsafe_function_after_new_line: bool,
     pub(crate) externals: HashMap<String, ExternalFunctionDef>,
+    /// What the global declarations may still spend on steps, while they run.
+    pub(crate) declaration_budget: Option<usize>,
 }
 mod misc {
     use crate::{
@@ -82,6 +84,7 @@ mod misc {
                 has_validated_externals: false,
                 allow_external_function_fallbacks: false,
                 externals: HashMap::with_capacity(0),
+                declaration_budget: None,
             };
 
             story.reset_globals()?;
@@ -168,6 +171,15 @@ mod misc {
                 )));
             }
 
+            // Every element takes part of the content.
+            if num_elements as usize
+                > seq_container.content.len() + seq_container.named_content.len()
+            {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "The sequence to shuffle doesn't have {num_elements} elements"
+                )));
+            }
+
             let loop_index = seq_count / num_elements;
             let iteration_index = seq_count % num_elements;
 
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 6c1d00a..16fddf6 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -9,7 +9,7 @@ use crate::{
     story::{OutputStateChange, Story, errors::ErrorType},
     story_error::StoryError,
     value::Value,
-    value_type::VariablePointerValue,
+    value_type::{StringValue, VariablePointerValue},
     void::Void,
 };
 use std::{self, rc::Rc};
@@ -356,6 +356,23 @@ impl Story {
         #[cfg(bladeink_verif)]
         crate::verif::on_step()?;
 
+        // Global declarations run before the host can interrupt anything, so
+        // they must come to an end. Steps with much to look at count more.
+        if let Some(budget) = self.declaration_budget {
+            let state = self.get_state();
+            let text_size = state
+                .peek_evaluation_stack()
+                .and_then(|v| Value::get_value::<&StringValue>(v.as_ref()))
+                .map_or(0, |s| s.string.len());
+            let cost = 1
+                + state.get_callstack().borrow().depth()
+                + state.get_output_stream().len()
+                + text_size / 64;
+            self.declaration_budget = Some(budget.checked_sub(cost).ok_or_else(|| {
+                StoryError::InvalidStoryState("The global declarations don't end.".to_owned())
+            })?);
+        }
+
         let mut should_add_to_stream = true;
 
         // Get current content
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 768c3d7..4688a3b 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -3,6 +3,9 @@ use crate::{
     value_type::ValueType,
 };
 
+/// Far more than any declarations need.
+const DECLARATION_BUDGET: usize = 500_000;
+
 /// # State
 /// Methods to read and write story state.
 impl Story {
@@ -31,7 +34,10 @@ impl Story {
 
             // Continue, but without validating external bindings,
             // since we may be doing this reset at initialisation time.
-            self.continue_internal(0.0)?;
+            self.declaration_budget = Some(DECLARATION_BUDGET);
+            let result = self.continue_internal(0.0);
+            self.declaration_budget = None;
+            result?;
 
             self.get_state().set_current_pointer(original_pointer);
         }
-- 
2.43.0


From c9c33b78b7e1cd45c76c9de258e17db36136e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 39/56] fix: choice text follows the start[choice only]end
 rules and keeps its spacing, diverts and paths

---
 compiler/src/ast.rs                     |  16 +-
 compiler/src/consts.rs                  |   2 +
 compiler/src/emitter/choice.rs          | 139 +++------
 compiler/src/emitter/choice_threaded.rs |  17 +-
 compiler/src/emitter/choice_wrapped.rs  | 164 +++-------
 compiler/src/emitter/conditional.rs     |  19 +-
 compiler/src/emitter/context.rs         |   9 +
 compiler/src/emitter/expression.rs      |  57 +---
 compiler/src/emitter/mod.rs             |   2 +-
 compiler/src/emitter/nodes.rs           |   6 +-
 compiler/src/inline.rs                  |  30 +-
 compiler/src/parser/choice.rs           | 381 +++++++-----------------
 compiler/src/stats.rs                   |   3 +-
 compiler/src/validator/diverts.rs       |   4 +-
 compiler/src/validator/variables.rs     |   2 +
 15 files changed, 254 insertions(+), 597 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..7765842 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -96,24 +96,18 @@ pub struct Divert {
 
 #[derive(Debug, Clone, PartialEq)]
 pub struct Choice {
-    pub display_text: String,
-    pub selected_text: Option<String>,
+    /// The text and tags before `[`, both offered and printed on choosing.
+    pub start: Vec<Node>,
+    /// The text and tags between `[` and `]`, only offered.
+    pub choice_only: Vec<Node>,
+    /// The rest of the choice line with its diverts, the end of the line, and what follows.
     pub body: Vec<Node>,
-    pub start_text: String,
-    pub choice_only_text: String,
     pub conditions: Vec<Condition>,
     pub label: Option<String>,
     pub once_only: bool,
     pub is_invisible_default: bool,
-    pub has_start_content: bool,
-    pub has_choice_only_content: bool,
-    pub start_tags: Vec<DynamicString>,
-    pub choice_only_tags: Vec<DynamicString>,
-    pub selected_tags: Vec<DynamicString>,
     /// Nesting level of this choice: 1 for `*`/`+`, 2 for `**`/`++`, etc.
     pub nesting_level: usize,
-    /// True when the divert in body came from an inline `-> target` on the choice line itself.
-    pub body_divert_is_inline: bool,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/compiler/src/consts.rs b/compiler/src/consts.rs
index 2a37218..8fdefec 100644
--- a/compiler/src/consts.rs
+++ b/compiler/src/consts.rs
@@ -81,6 +81,8 @@ fn resolve_choice(choice: &mut Choice, consts: &HashMap<String, Expression>) {
     for condition in &mut choice.conditions {
         resolve_condition(condition, consts);
     }
+    resolve_nodes(&mut choice.start, consts);
+    resolve_nodes(&mut choice.choice_only, consts);
     resolve_nodes(&mut choice.body, consts);
 }
 
diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 34deadf..88dcad2 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -6,28 +6,44 @@ fn emit_choice(
     continuation_path: Option<&str>,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    let has_ev_content = !choice.start_text.is_empty()
-        || !choice.start_tags.is_empty()
-        || !choice.choice_only_text.is_empty()
-        || !choice.choice_only_tags.is_empty()
-        || !choice.conditions.is_empty();
+    let branch_name = format!("c-{choice_index}");
+    let branch_scope = scope.choice_branch(&branch_name);
+    let choice_ptr = branch_scope.path.clone();
 
-    if has_ev_content {
-        out.push(json!("ev"));
-        emit_choice_text_segment(
-            &choice.start_text,
-            &choice.start_tags,
-            &mut out.content,
-            scope,
+    // Dynamic text at the start of a choice is the same content when chosen, not a copy.
+    if choice
+        .start
+        .iter()
+        .any(|node| !matches!(node, Node::Text(_) | Node::Tag(_)))
+    {
+        let header_scope =
+            scope.at_path(joined_path(&scope.path, out.content.len() + scope.param_offset));
+        out.push(emit_wrapped_loop_choice_header(
+            choice,
+            &header_scope,
+            choice_index,
+            &scope.path,
             context,
-        )?;
-        emit_choice_text_segment(
-            &choice.choice_only_text,
-            &choice.choice_only_tags,
-            &mut out.content,
-            scope,
+        )?);
+        let branch = emit_wrapped_loop_choice_body(
+            choice,
+            &branch_scope,
+            WrappedLoopChoiceBodyConfig {
+                header_path: &header_scope.path,
+                continuation_path,
+                continuation_terminal: None,
+            },
             context,
         )?;
+        out.insert_named(branch_name, branch);
+        return Ok(());
+    }
+
+    if has_choice_evaluation(choice) {
+        out.push(json!("ev"));
+        for part in [&choice.start, &choice.choice_only] {
+            emit_choice_text_segment(part, &mut out.content, scope, context)?;
+        }
         for (index, condition) in choice.conditions.iter().enumerate() {
             emit_condition(condition, &mut out.content, scope, context)?;
             if index > 0 {
@@ -37,90 +53,9 @@ fn emit_choice(
         out.push(json!("/ev"));
     }
 
-    let branch_name = format!("c-{choice_index}");
-    let branch_scope = scope.choice_branch(&branch_name);
-    let choice_ptr = branch_scope.path.clone();
     out.push(json!({"*": choice_ptr, "flg": choice_flags(choice)}));
 
-    let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
-    if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
-        }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted {
-            // Skip the auto-newline for terminal diverts, and also for inline diverts that are
-            // authored after inline selected text on the same source line (the selected text keeps
-            // the trailing whitespace needed to join the diverted content).
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        // choice-only with single divert body:
-        // - inline divert (same line): "^ " then divert then "\n" (inklecate behavior)
-        // - body divert (indented line): "\n" then divert
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && branch_nodes.is_empty()
-        && !choice.body.is_empty()
-    {
-        // choice-only with multi-node body: "\n" then body
-        branch_nodes.push(Node::Newline);
-        branch_nodes.extend(choice.body.clone());
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content && choice.body.is_empty()
-    {
-        // choice-only with completely empty body: inklecate always opens the c-N
-        // container with a "\n" (representing the line break after the user selects).
-        branch_nodes.push(Node::Newline);
-        body_already_emitted = true;
-    }
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
-    }
+    let branch_nodes = [choice.start.as_slice(), choice.body.as_slice()].concat();
 
     // Check if branch body contains nested choices (at any position)
     let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
@@ -163,3 +98,7 @@ fn emit_choice(
 
     Ok(())
 }
+
+fn has_choice_evaluation(choice: &Choice) -> bool {
+    !choice.start.is_empty() || !choice.choice_only.is_empty() || !choice.conditions.is_empty()
+}
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index f0017e9..b80f264 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -21,7 +21,7 @@ fn emit_choice_block(
                 section.choices,
                 section.continuation_nodes,
                 scope,
-                out.content.len(),
+                out.content.len() + scope.param_offset,
                 next_choice_index,
                 context,
                 fallback_continuation,
@@ -38,7 +38,7 @@ fn emit_choice_block(
                 context,
                 WrappedLoopChoiceBlockConfig {
                     loop_label,
-                    group_index: out.content.len(),
+                    group_index: out.content.len() + scope.param_offset,
                     fallback_continuation,
                 },
             )?;
@@ -265,7 +265,7 @@ fn build_threaded_choice_block_no_label(
     let fallback_choice = loop_choices
         .iter()
         .find(|choice| {
-            choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty()
+            choice.is_invisible_default
         })
         .copied();
 
@@ -274,7 +274,7 @@ fn build_threaded_choice_block_no_label(
             .iter()
             .copied()
             .filter(|choice| {
-                !(choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty())
+                !choice.is_invisible_default
             })
             .collect::<Vec<_>>()
     } else {
@@ -347,7 +347,6 @@ fn build_threaded_choice_block_no_label(
             choice,
             &header_scope,
             local_choice_index,
-            header_idx,
             &choices_prefix,
             context,
         )?);
@@ -360,9 +359,7 @@ fn build_threaded_choice_block_no_label(
                 choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
+                    header_path: &header_scope.path,
                     continuation_path: Some(&continuation_path_abs),
                     continuation_terminal: None,
                 },
@@ -384,9 +381,7 @@ fn build_threaded_choice_block_no_label(
                 fallback_choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx: 0,
-                    choices_prefix: &choices_prefix,
+                    header_path: &block_scope.path,
                     continuation_path: Some(&continuation_path_abs),
                     continuation_terminal: None,
                 },
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 29948b8..16550bd 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -94,7 +94,6 @@ fn build_wrapped_loop_choice_block(
             choice,
             &header_scope,
             local_choice_index,
-            header_idx,
             &choices_prefix,
             context,
         )?);
@@ -107,9 +106,7 @@ fn build_wrapped_loop_choice_block(
                 choice,
                 &branch_scope,
                 WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
+                    header_path: &header_scope.path,
                     continuation_path: if simple_terminal_fallback.is_some() {
                         None
                     } else {
@@ -137,19 +134,20 @@ fn emit_wrapped_loop_choice_header(
     choice: &Choice,
     scope: &EmitScope,
     choice_index: usize,
-    header_idx: usize,
     choices_prefix: &str,
     context: &EmitContext,
 ) -> Result<Value, CompilerError> {
-    let mut arr = vec![
-        json!("ev"),
-        json!({"^->": format!("{choices_prefix}.{header_idx}.$r1")}),
-        json!({"temp=": "$r"}),
-        json!("str"),
-        json!({"->": joined_path(&scope.path, "s")}),
-        Value::Array(vec![json!({"#n": "$r1"})]),
-        json!("/str"),
-    ];
+    let mut arr = vec![json!("ev")];
+
+    if !choice.start.is_empty() {
+        arr.push(json!({"^->": joined_path(&scope.path, "$r1")}));
+        arr.push(json!({"temp=": "$r"}));
+        arr.push(json!("str"));
+        arr.push(json!({"->": joined_path(&scope.path, "s")}));
+        arr.push(Value::Array(vec![json!({"#n": "$r1"})]));
+        arr.push(json!("/str"));
+    }
+    emit_choice_text_segment(&choice.choice_only, &mut arr, scope, context)?;
 
     for (index, condition) in choice.conditions.iter().enumerate() {
         emit_condition(condition, &mut arr, scope, context)?;
@@ -164,32 +162,22 @@ fn emit_wrapped_loop_choice_header(
         "flg": choice_flags(choice)
     }));
 
-    let mut s = Vec::new();
-    emit_choice_text_content(
-        &choice.start_text,
-        &choice.start_tags,
-        &mut s,
-        scope,
-        context,
-    )?;
-    emit_choice_text_content(
-        &choice.choice_only_text,
-        &choice.choice_only_tags,
-        &mut s,
-        scope,
-        context,
-    )?;
-    s.push(json!({"->": "$r", "var": true}));
-    s.push(Value::Null);
-    arr.push(json!({"s": s}));
+    if !choice.start.is_empty() {
+        let mut s = Vec::new();
+        let start_scope = scope.at_path(joined_path(&scope.path, "s"));
+        emit_choice_text_content(&choice.start, &mut s, &start_scope, context)?;
+        s.push(json!({"->": "$r", "var": true}));
+        s.push(Value::Null);
+        arr.push(json!({"s": s}));
+    } else {
+        arr.push(Value::Null);
+    }
 
     Ok(Value::Array(arr))
 }
 
 struct WrappedLoopChoiceBodyConfig<'a> {
-    choice_index: usize,
-    header_idx: usize,
-    choices_prefix: &'a str,
+    header_path: &'a str,
     continuation_path: Option<&'a str>,
     continuation_terminal: Option<&'a str>,
 }
@@ -200,79 +188,32 @@ fn emit_wrapped_loop_choice_body(
     config: WrappedLoopChoiceBodyConfig<'_>,
     context: &EmitContext,
 ) -> Result<Value, CompilerError> {
-    let mut branch_nodes = Vec::new();
-    let mut body_already_emitted = false;
-
-    if let Some(selected_text) = &choice.selected_text {
-        let recovered_inline_divert = if choice.body.is_empty() {
-            recover_selected_text_inline_divert(selected_text)
-        } else {
-            None
-        };
-
-        if choice.has_choice_only_content
-            && !choice.has_start_content
-            && matches!(choice.body.as_slice(), [Node::Divert(_)])
-        {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-            body_already_emitted = true;
-        } else if let Some((text, target)) = recovered_inline_divert {
-            if !text.is_empty() {
-                branch_nodes.extend(tokenize_inline_content(&text)?);
-            }
-            branch_nodes.push(Node::Divert(Divert {
-                target,
-                arguments: Vec::new(),
-            }));
-            body_already_emitted = true;
-        } else if !choice.has_start_content {
-            branch_nodes.extend(tokenize_inline_content(selected_text)?);
-        }
-        branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
-        if !body_already_emitted && !choice.has_start_content {
-            let body_is_terminal_divert = matches!(
-                choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
-            );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
-                && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
-                branch_nodes.push(Node::Newline);
-            }
-        }
-    } else if choice.has_choice_only_content
-        && !choice.has_start_content
-        && matches!(choice.body.as_slice(), [Node::Divert(_)])
-    {
-        if choice.body_divert_is_inline {
-            branch_nodes.push(Node::Text(" ".to_owned()));
-            branch_nodes.extend(choice.body.clone());
-            branch_nodes.push(Node::Newline);
-        } else {
-            branch_nodes.push(Node::Newline);
-            branch_nodes.extend(choice.body.clone());
-        }
-        body_already_emitted = true;
-    } else if choice.has_choice_only_content && !choice.has_start_content {
-        branch_nodes.push(Node::Newline);
-    }
-
-    if !body_already_emitted {
-        branch_nodes.extend(choice.body.clone());
-    }
+    let branch_nodes = &choice.body;
+    // The start of the line comes from the header, by way of a prefix to the branch.
+    let prefix = if !choice.start.is_empty() {
+        vec![
+            json!("ev"),
+            json!({"^->": joined_path(&branch_scope.path, "$r2")}),
+            json!("/ev"),
+            json!({"temp=": "$r"}),
+            json!({"->": joined_path(config.header_path, "s")}),
+            Value::Array(vec![json!({"#n": "$r2"})]),
+        ]
+    } else {
+        Vec::new()
+    };
+    let branch_scope = &branch_scope.with_content_offset(prefix.len());
 
     let has_nested_choices = branch_nodes.iter().any(|n| matches!(n, Node::Choice(_)));
     let mut branch_container = if has_nested_choices {
         emit_nodes_with_continuation(
-            &branch_nodes,
+            branch_nodes,
             branch_scope,
             context,
             config.continuation_path,
         )?
     } else {
-        emit_nodes(&branch_nodes, branch_scope, context)?
+        emit_nodes(branch_nodes, branch_scope, context)?
     };
     let no_fallback = if let Some(token) = config.continuation_terminal {
         LooseEndNoFallback::Token(token)
@@ -280,7 +221,7 @@ fn emit_wrapped_loop_choice_body(
         LooseEndNoFallback::None
     };
     if let Some(token) = loose_end_append_for_nodes(
-        &branch_nodes,
+        branch_nodes,
         has_nested_choices,
         config.continuation_path,
         None,
@@ -303,27 +244,8 @@ fn emit_wrapped_loop_choice_body(
         flags |= COUNT_TURNS;
     }
     let branch_count_flags = if flags > 0 { Some(flags | 4) } else { None };
-    if !choice.has_start_content {
-        return branch_container.into_json_array(None, branch_count_flags);
-    }
-
-    let mut arr = match branch_container.into_json_array(None, branch_count_flags)? {
-        Value::Array(arr) => arr,
-        _ => unreachable!(),
-    };
-    let last = arr.pop().unwrap();
-    let mut out = vec![
-        json!("ev"),
-        json!({"^->": format!("{}.c-{}.$r2", config.choices_prefix, config.choice_index)}),
-        json!("/ev"),
-        json!({"temp=": "$r"}),
-        json!({"->": format!("{}.{}.s", config.choices_prefix, config.header_idx)}),
-        Value::Array(vec![json!({"#n": "$r2"})]),
-        json!("\n"),
-    ];
-    out.append(&mut arr);
-    out.push(last);
-    Ok(Value::Array(out))
+    branch_container.content.splice(0..0, prefix);
+    branch_container.into_json_array(None, branch_count_flags)
 }
 
 fn wrapped_loop_simple_terminal_fallback(nodes: &[Node]) -> Option<&'static str> {
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..aa4a3b2 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -73,25 +73,15 @@ fn node_is_terminal(node: &Node) -> bool {
     }
 }
 
-fn recover_selected_text_inline_divert(selected_text: &str) -> Option<(String, String)> {
-    let (text, target) = selected_text.rsplit_once("->")?;
-    let target = target.trim();
-    if target.is_empty() || target.contains(' ') {
-        return None;
-    }
-
-    Some((text.trim_end().to_owned(), target.to_owned()))
-}
-
 fn choice_flags(choice: &Choice) -> i32 {
     let mut flags = 0;
     if !choice.conditions.is_empty() {
         flags |= 1;
     }
-    if choice.has_start_content {
+    if !choice.start.is_empty() {
         flags |= 2;
     }
-    if choice.has_choice_only_content {
+    if !choice.choice_only.is_empty() {
         flags |= 4;
     }
     if choice.is_invisible_default {
@@ -235,7 +225,10 @@ fn emit_switch_conditional(
     for (branch_index, (_, body_nodes)) in branches.iter().enumerate() {
         let branch_array_index = switch_index + preamble_len + branch_index;
         let branch_scope =
-            scope.conditional_branch(&format!("{branch_array_index}.b"));
+            scope
+                .conditional_branch(&format!("{branch_array_index}.b"))
+                // After the "pop" inserted below.
+                .with_content_offset(1);
         let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f6cae3c..d6c0ba8 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -236,6 +236,8 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                         collect_flow_count_flags_from_expr(e, targets);
                     }
                 }
+                collect_flow_count_flags_from_nodes(&choice.start, targets);
+                collect_flow_count_flags_from_nodes(&choice.choice_only, targets);
                 collect_flow_count_flags_from_nodes(&choice.body, targets);
             }
             Node::Conditional {
@@ -509,6 +511,13 @@ impl EmitScope {
         }
     }
 
+    /// The scope of a container whose content is emitted before `offset` items are put before it.
+    fn with_content_offset(&self, offset: usize) -> Self {
+        let mut scope = self.at_path(self.path.clone());
+        scope.param_offset = offset;
+        scope
+    }
+
     fn resolve_divert_target(&self, target: &str, context: &EmitContext) -> String {
         if target == "END" || target == "DONE" {
             return target.to_owned();
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 47ae8dd..14c15f1 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -515,67 +515,34 @@ fn emit_tag(
 }
 
 fn emit_choice_text_segment(
-    text: &str,
-    tags: &[DynamicString],
+    nodes: &[Node],
     out: &mut Vec<Value>,
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    if text.is_empty() && tags.is_empty() {
+    if nodes.is_empty() {
         return Ok(());
     }
-
     out.push(json!("str"));
-    if !text.is_empty() {
-        // Parse the text for inline {expr} and {&sequence} interpolations
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
-        let has_inline = dynamic
-            .parts
-            .iter()
-            .any(|p| !matches!(p, DynamicStringPart::Text(_)));
-        if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
-        } else {
-            out.push(json!(format!("^{text}")));
-        }
-    }
-    for tag in tags {
-        emit_tag(tag, out, scope, context)?;
-    }
+    emit_choice_text_content(nodes, out, scope, context)?;
     out.push(json!("/str"));
     Ok(())
 }
 
+/// Emit the text and tags of a part of a choice into the container `scope` is the path of.
 fn emit_choice_text_content(
-    text: &str,
-    tags: &[DynamicString],
+    nodes: &[Node],
     out: &mut Vec<Value>,
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    if text.is_empty() && tags.is_empty() {
-        return Ok(());
-    }
-
-    if !text.is_empty() {
-        let dynamic = parse_dynamic_string(text).unwrap_or_else(|_| DynamicString {
-            parts: vec![DynamicStringPart::Text(text.to_owned())],
-        });
-        let has_inline = dynamic
-            .parts
-            .iter()
-            .any(|p| !matches!(p, DynamicStringPart::Text(_)));
-        if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
-        } else {
-            out.push(json!(format!("^{text}")));
-        }
-    }
-    for tag in tags {
-        emit_tag(tag, out, scope, context)?;
+    if nodes.iter().all(|node| matches!(node, Node::Text(_))) {
+        out.extend(emit_nodes(nodes, scope, context)?.content);
+    } else {
+        // In a container of its own, the paths of its content are the same wherever this is.
+        let path = joined_path(&scope.path, out.len() + scope.param_offset);
+        let content = emit_nodes(nodes, &scope.at_path(path), context)?;
+        out.push(content.into_json_array(None, None)?);
     }
-
     Ok(())
 }
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bada2f3..2476ca2 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -10,7 +10,7 @@ use crate::{
         SequenceMode,
     },
     error::CompilerError,
-    inline::{parse_dynamic_string, tokenize_inline_content},
+    inline::parse_dynamic_string,
 };
 
 include!("context.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index d44c4c8..6e48872 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -138,14 +138,10 @@ fn choice_block_contains_nested_choices(choices: &[Node]) -> bool {
     })
 }
 
-fn choice_is_invisible_default(choice: &Choice) -> bool {
-    choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty()
-}
-
 fn choice_block_has_invisible_default(choices: &[Node]) -> bool {
     choices.iter().any(|node| {
         if let Node::Choice(choice) = node {
-            choice_is_invisible_default(choice)
+            choice.is_invisible_default
         } else {
             false
         }
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..2d00a6c 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -390,22 +390,22 @@ pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
     }
 }
 
-pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Option<Divert>), CompilerError> {
-    if let Some((text, divert_part)) = split_inline_divert(input) {
-        return Ok((text.trim_end(), Some(parse_divert(divert_part)?)));
-    }
-
-    Ok((input, None))
-}
-
-pub fn split_text_and_tags(input: &str) -> Result<(String, Vec<DynamicString>), CompilerError> {
-    if let Some((text, tag_text)) = input.split_once('#') {
-        // There may be multiple tags: `tag1 #tag2 #tag3`
-        let tags = split_hash_tags(tag_text)?;
-        return Ok((text.to_owned(), tags));
+/// Find `wanted` outside of braces and escapes.
+pub fn find_top_level(input: &str, wanted: &str) -> Option<usize> {
+    let mut depth = 0usize;
+    let mut chars = input.char_indices();
+    while let Some((index, ch)) = chars.next() {
+        match ch {
+            '\\' => {
+                chars.next();
+            }
+            '{' => depth += 1,
+            '}' => depth = depth.saturating_sub(1),
+            _ if depth == 0 && input[index..].starts_with(wanted) => return Some(index),
+            _ => {}
+        }
     }
-
-    Ok((input.to_owned(), Vec::new()))
+    None
 }
 
 /// Split a string like `"style: robot #target: comm_scn #type:TALK"` into individual tag
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 272e30b..31740cb 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -1,32 +1,31 @@
 use crate::{
-    ast::{Choice, Condition, Divert, DynamicString, Node},
+    ast::{Choice, Condition, Node},
     error::CompilerError,
 };
 
 use super::expression::is_identifier;
-use super::inline::parse_divert_line;
 
 use super::{
     Line, ParsedStatement,
-    inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
-        split_text_and_tags,
-    },
+    inline::{find_top_level, parse_condition, tokenize_inline_content},
 };
 
 pub struct ParsedChoiceText {
-    pub display_text: String,
-    pub selected_text: Option<String>,
-    pub start_text: String,
-    pub choice_only_text: String,
-    pub has_start_content: bool,
-    pub has_choice_only_content: bool,
-    pub inline_target: Option<Divert>,
-    /// Additional body nodes emitted BEFORE inline_target (e.g. for ->-> target(args))
-    pub inline_body_nodes: Vec<Node>,
-    pub start_tags: Vec<DynamicString>,
-    pub choice_only_tags: Vec<DynamicString>,
-    pub selected_tags: Vec<DynamicString>,
+    /// What is both offered and printed on choosing.
+    pub start: Vec<Node>,
+    /// What is only offered.
+    pub choice_only: Vec<Node>,
+    /// What is only printed on choosing, the diverts of the line and its end.
+    pub end: Vec<Node>,
+    pub has_brackets: bool,
+    pub has_diverts: bool,
+}
+
+impl ParsedChoiceText {
+    /// Whether the choice has nothing to show.
+    fn is_empty(&self) -> bool {
+        self.start.is_empty() && !self.has_brackets
+    }
 }
 
 pub fn parse_choice(
@@ -52,8 +51,8 @@ pub fn parse_choice(
     }
     let (label, mut conditions, remainder) = parse_choice_prefixes(remainder)?;
     let mut choice_text = parse_choice_text(remainder)?;
-    let mut is_invisible_default =
-        choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
+    // The conditions of a choice, and then its text, may be on lines of their own.
+    let continues_on_next_line = choice_text.is_empty() && !choice_text.has_diverts;
 
     *line_index += 1;
 
@@ -67,7 +66,7 @@ pub fn parse_choice(
     // Only scan when there is no start text yet on the header line.
     // We scan when: the header has conditions OR we absorb body conditions.
     let header_has_conditions = !conditions.is_empty();
-    if choice_text.start_text.is_empty() && choice_text.choice_only_text.is_empty() {
+    if continues_on_next_line {
         let mut absorbed_body_conditions = false;
         while *line_index < lines.len() {
             let peek = &lines[*line_index];
@@ -80,62 +79,43 @@ pub fn parse_choice(
             // choice was already established as conditional on the header or by an earlier body
             // condition line. Otherwise it's normal body content, such as `{5}` in a default
             // choice body.
-            if peek_trimmed.starts_with('{') && (header_has_conditions || absorbed_body_conditions)
-            {
+            if !header_has_conditions && !absorbed_body_conditions {
+                break;
+            }
+            if peek_trimmed.starts_with('{') {
                 // Find the matching `}`
-                if let Some(close) = peek_trimmed.find('}') {
-                    let cond_str = &peek_trimmed[1..close];
-                    let after_close = peek_trimmed[close + 1..].trim();
-                    conditions.push(parse_condition(cond_str.trim())?);
-                    absorbed_body_conditions = true;
-                    *line_index += 1;
-                    if !after_close.is_empty() {
-                        // Remaining text after `{ cond }` becomes the display text
-                        choice_text.display_text = after_close.to_owned();
-                        choice_text.start_text = after_close.to_owned();
-                        choice_text.selected_text = Some(after_close.to_owned());
-                        choice_text.has_start_content = true;
-                        is_invisible_default = false;
-                        break;
-                    }
-                    // Pure condition line — continue looking for more conditions/text
-                } else {
+                let Some(close) = peek_trimmed.find('}') else {
+                    break;
+                };
+                let cond_str = &peek_trimmed[1..close];
+                let after_close = peek_trimmed[close + 1..].trim();
+                conditions.push(parse_condition(cond_str.trim())?);
+                absorbed_body_conditions = true;
+                *line_index += 1;
+                if !after_close.is_empty() {
+                    // Remaining text after `{ cond }` becomes the display text
+                    choice_text = parse_choice_text(after_close)?;
                     break;
                 }
-            } else if absorbed_body_conditions || header_has_conditions {
+                // Pure condition line — continue looking for more conditions/text
+            } else {
                 // After conditions (header or body), a plain text line becomes start text.
                 // Skip if it looks like a gather, divert, or sub-choice.
-                if peek_trimmed.starts_with('-')
-                    || peek_trimmed.starts_with('*')
-                    || peek_trimmed.starts_with('+')
-                {
-                    break;
+                if !peek_trimmed.starts_with(['-', '*', '+']) {
+                    choice_text = parse_choice_text(peek_trimmed)?;
+                    *line_index += 1;
                 }
-                choice_text.display_text = peek_trimmed.to_owned();
-                choice_text.start_text = peek_trimmed.to_owned();
-                choice_text.selected_text = Some(peek_trimmed.to_owned());
-                choice_text.has_start_content = true;
-                is_invisible_default = false;
-                *line_index += 1;
-                break;
-            } else {
                 break;
             }
         }
     }
+    let is_invisible_default = choice_text.is_empty();
 
-    let mut body = Vec::new();
+    let mut body = choice_text.end.clone();
     // Once we absorb a same-level gather, everything that follows at our indent
     // (choices, text, etc.) becomes part of this choice's body continuation.
     let mut absorbed_gather = false;
 
-    for node in choice_text.inline_body_nodes.clone() {
-        body.push(node);
-    }
-    if let Some(divert) = choice_text.inline_target.clone() {
-        body.push(Node::Divert(divert));
-    }
-
     while *line_index < lines.len() {
         let body_line = &lines[*line_index];
         let body_trimmed = body_line.content.trim();
@@ -215,22 +195,14 @@ pub fn parse_choice(
     }
 
     Ok(ParsedStatement::Nodes(vec![Node::Choice(Choice {
-        display_text: choice_text.display_text.clone(),
-        selected_text: choice_text.selected_text.clone(),
+        start: choice_text.start,
+        choice_only: choice_text.choice_only,
         body,
-        start_text: choice_text.start_text,
-        choice_only_text: choice_text.choice_only_text,
         conditions,
         label,
         once_only,
         is_invisible_default,
-        has_start_content: choice_text.has_start_content,
-        has_choice_only_content: choice_text.has_choice_only_content,
-        start_tags: choice_text.start_tags,
-        choice_only_tags: choice_text.choice_only_tags,
-        selected_tags: choice_text.selected_tags,
         nesting_level,
-        body_divert_is_inline: choice_text.inline_target.is_some(),
     })]))
 }
 
@@ -299,212 +271,75 @@ pub fn parse_choice_prefixes(
     Ok((label, conditions, remainder))
 }
 
+/// Parse `start[choice only]end -> divert`. The choice shows `start` and `choice only`; choosing
+/// it prints `start` and `end`, runs the diverts and ends the line.
 pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError> {
-    let input = input.trim_start();
-    let trimmed = input.trim_end();
-    // `\ ` at the start of choice content is a whitespace-suppression escape —
-    // strip the backslash but keep what follows (may start with a space that itself gets trimmed).
-    let trimmed = trimmed
-        .strip_prefix("\\ ")
-        .map(str::trim_start)
-        .unwrap_or(trimmed);
-
-    if trimmed.starts_with("->->") {
-        // `* ->-> target(args)` — tunnel return with optional new destination
-        let nodes = parse_divert_line(trimmed)?;
-        return Ok(ParsedChoiceText {
-            display_text: String::new(),
-            selected_text: None,
-            start_text: String::new(),
-            choice_only_text: String::new(),
-            has_start_content: false,
-            has_choice_only_content: false,
-            inline_target: None,
-            inline_body_nodes: nodes,
-            start_tags: Vec::new(),
-            choice_only_tags: Vec::new(),
-            selected_tags: Vec::new(),
-        });
-    }
-
-    if let Some(target) = trimmed.strip_prefix("->") {
-        let inline_target = if target.trim().is_empty() {
-            None
-        } else {
-            Some(parse_divert(target.trim())?)
-        };
-        return Ok(ParsedChoiceText {
-            display_text: String::new(),
-            selected_text: None,
-            start_text: String::new(),
-            choice_only_text: String::new(),
-            has_start_content: false,
-            has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags: Vec::new(),
-            choice_only_tags: Vec::new(),
-            selected_tags: Vec::new(),
-        });
-    }
-
-    if let Some(choice_only) = input.strip_prefix('[') {
-        let end = choice_only.find(']').ok_or_else(|| {
-            CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
-        })?;
-        let label = choice_only[..end].trim().to_owned();
-        let raw_after_label = &choice_only[end + 1..];
-        let after_label = if raw_after_label.trim().is_empty() {
-            raw_after_label
-        } else {
-            raw_after_label.trim_start()
-        };
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(&label)?;
-        if after_label.is_empty() || after_label.starts_with("->") {
-            let inline_target = after_label
-                .strip_prefix("->")
-                .map(str::trim)
-                .map(parse_divert)
-                .transpose()?;
-            return Ok(ParsedChoiceText {
-                display_text: choice_only_text.clone(),
-                selected_text: None,
-                start_text: String::new(),
-                choice_only_text,
-                has_start_content: false,
-                has_choice_only_content: true,
-                inline_target,
-                inline_body_nodes: Vec::new(),
-                start_tags: Vec::new(),
-                choice_only_tags,
-                selected_tags: Vec::new(),
-            });
+    let (text, diverts) = split_choice_diverts(input.trim_start());
+    let inline_body_nodes = match diverts {
+        None => Vec::new(),
+        // A bare `->` only marks a choice as deliberately empty.
+        Some(diverts) if diverts.trim() == "->" => Vec::new(),
+        Some(diverts) => tokenize_inline_content(diverts.trim())?,
+    };
+
+    let (start, choice_only, end) = match find_top_level(text, "[") {
+        None => (text, None, ""),
+        Some(open) => {
+            let rest = &text[open + 1..];
+            let close = find_top_level(rest, "]").ok_or_else(|| {
+                CompilerError::invalid_source("choice label is missing closing ']'".to_owned())
+            })?;
+            (&text[..open], Some(&rest[..close]), &rest[close + 1..])
         }
+    };
+    let has_brackets = choice_only.is_some();
+    let start = if start.trim().is_empty() { "" } else { start };
+    let choice_only = choice_only.map(str::trim).unwrap_or("");
+
+    let start = tokenize_inline_content(start)?;
+    let mut choice_only = tokenize_inline_content(choice_only)?;
+    let mut end_nodes = tokenize_inline_content(end)?;
+    close_quote(&start, &mut choice_only, end);
+    end_nodes.extend(inline_body_nodes);
+    end_nodes.push(Node::Newline);
 
-        let (selected_text, inline_target) = split_inline_choice_divert(after_label)?;
-        let (selected_text, selected_tags) = split_text_and_tags(selected_text)?;
-        return Ok(ParsedChoiceText {
-            display_text: choice_only_text.clone(),
-            selected_text: Some(selected_text),
-            start_text: String::new(),
-            choice_only_text,
-            has_start_content: false,
-            has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags: Vec::new(),
-            choice_only_tags,
-            selected_tags,
-        });
-    }
-
-    if let Some((before, after)) = trimmed.split_once("[]") {
-        let display = before.trim_end().to_owned();
-        let raw_suffix = after.trim_start();
-        let had_space_before_inline_divert = split_inline_divert(raw_suffix)
-            .and_then(|(text, _)| text.chars().last())
-            .is_some_and(char::is_whitespace);
-        let (suffix, inline_target) = split_inline_choice_divert(raw_suffix)?;
-        let suffix = if inline_target.is_some() && had_space_before_inline_divert {
-            format!("{suffix} ")
-        } else {
-            suffix.to_owned()
-        };
-        let (start_text, start_tags) = split_text_and_tags(&display)?;
-        let selected = if suffix.is_empty() {
-            Some(display.clone())
-        } else if suffix.starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'') {
-            Some(format!("{display}{suffix}"))
-        } else {
-            Some(format!("{display} {suffix}"))
-        };
-        let (selected_text, selected_tags) =
-            split_text_and_tags(selected.as_deref().unwrap_or(""))?;
-        return Ok(ParsedChoiceText {
-            display_text: start_text.clone(),
-            selected_text: Some(selected_text),
-            start_text,
-            choice_only_text: String::new(),
-            has_start_content: true,
-            has_choice_only_content: false,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags: Vec::new(),
-            selected_tags,
-        });
-    }
+    Ok(ParsedChoiceText {
+        start,
+        choice_only,
+        end: end_nodes,
+        has_brackets,
+        has_diverts: diverts.is_some(),
+    })
+}
 
-    if let Some(open) = trimmed.find('[')
-        && let Some(close_rel) = trimmed[open + 1..].find(']')
+/// Close a quote that `start[only` opens with and only `]end` closes: `'Yes[ sir],' I said.`
+fn close_quote(start: &[Node], choice_only: &mut [Node], end: &str) {
+    let (Some(Node::Text(first)), Some(Node::Text(last))) = (start.first(), choice_only.last_mut())
+    else {
+        return;
+    };
+    let quotes = ['\'', '"'];
+    if let Some(quote) = first.trim_start().chars().next()
+        && quotes.contains(&quote)
+        && !last.ends_with(quote)
+        && end
+            .trim_start()
+            .chars()
+            .take_while(char::is_ascii_punctuation)
+            .any(|c| c == quote)
     {
-        let close = open + 1 + close_rel;
-        let start = &trimmed[..open];
-        let choice_only = trimmed[open + 1..close].trim();
-        let end = trimmed[close + 1..].trim_start();
-        let (end, inline_target) = split_inline_choice_divert(end)?;
-        let (start_text, start_tags) = split_text_and_tags(start)?;
-        let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
-        let (end_text, end_tags) = split_text_and_tags(end)?;
-        // Append closing punctuation from `end` to choice_only_text only when the
-        // `end` segment is plain text that starts with closing punctuation (like `."` or `,'`).
-        // Do NOT pull chars from an expression like `{foo}`.
-        let display_suffix: String = if !end.trim_start().starts_with('{') {
-            end_text
-                .chars()
-                .take_while(|c| c.is_ascii_punctuation())
-                .filter(|c| matches!(c, '\'' | '"' | ')' | ']'))
-                .collect()
-        } else {
-            String::new()
-        };
-        let choice_only_text = format!("{choice_only_text}{display_suffix}");
-        let display = format!("{start_text}{choice_only_text}");
-        let selected_text = if end_text.is_empty() {
-            start_text.trim_end().to_owned()
-        } else if start_text.trim().is_empty() {
-            end_text
-        } else if end_text
-            .starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'' && c != '{')
-        {
-            format!("{}{}", start_text.trim_end(), end_text)
-        } else {
-            format!("{} {}", start_text.trim_end(), end_text)
-        };
-        let mut selected_tags = start_tags.clone();
-        selected_tags.extend(end_tags);
-        return Ok(ParsedChoiceText {
-            display_text: display,
-            selected_text: Some(selected_text),
-            start_text,
-            choice_only_text,
-            has_start_content: !start.trim().is_empty(),
-            has_choice_only_content: true,
-            inline_target,
-            inline_body_nodes: Vec::new(),
-            start_tags,
-            choice_only_tags,
-            selected_tags,
-        });
+        last.push(quote);
     }
+}
 
-    let (trimmed, inline_target) = split_inline_choice_divert(trimmed)?;
-    let (start_text, start_tags) = split_text_and_tags(trimmed)?;
-    Ok(ParsedChoiceText {
-        display_text: start_text.clone(),
-        selected_text: if start_text.is_empty() {
-            None
-        } else {
-            Some(start_text.clone())
-        },
-        start_text: start_text.clone(),
-        choice_only_text: String::new(),
-        has_start_content: !start_text.is_empty(),
-        has_choice_only_content: false,
-        inline_target,
-        inline_body_nodes: Vec::new(),
-        start_tags,
-        choice_only_tags: Vec::new(),
-        selected_tags: Vec::new(),
-    })
+/// Split the text of a choice from the diverts or threads that end its line.
+fn split_choice_diverts(input: &str) -> (&str, Option<&str>) {
+    let arrow = [find_top_level(input, "->"), find_top_level(input, "<-")]
+        .into_iter()
+        .flatten()
+        .min();
+    match arrow {
+        Some(index) => (&input[..index], Some(&input[index..])),
+        None => (input, None),
+    }
 }
diff --git a/compiler/src/stats.rs b/compiler/src/stats.rs
index 1cd9cb6..55dad18 100644
--- a/compiler/src/stats.rs
+++ b/compiler/src/stats.rs
@@ -76,7 +76,8 @@ fn count_words_in_nodes(nodes: &[Node], count: &mut usize) {
         match node {
             Node::Text(t) => count_words_in_str(t, count),
             Node::Choice(c) => {
-                count_words_in_str(&c.display_text, count);
+                count_words_in_nodes(&c.start, count);
+                count_words_in_nodes(&c.choice_only, count);
                 count_words_in_nodes(&c.body, count);
             }
             Node::Conditional {
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index d0931ac..c3111d0 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -12,7 +12,7 @@ impl ValidationContext {
             Node::TunnelDivert { target, .. } => self.check_target(target)?,
             Node::ThreadDivert(d) => self.check_divert(d)?,
             Node::Choice(c) => {
-                for n in &c.body {
+                for n in c.start.iter().chain(&c.choice_only).chain(&c.body) {
                     self.validate_node_divert(n)?;
                 }
             }
@@ -109,6 +109,8 @@ impl ValidationContext {
                 for condition in &choice.conditions {
                     self.validate_condition_function_calls(condition)?;
                 }
+                self.validate_nodes_function_calls(&choice.start)?;
+                self.validate_nodes_function_calls(&choice.choice_only)?;
                 self.validate_nodes_function_calls(&choice.body)?;
             }
             Node::Sequence(sequence) => {
diff --git a/compiler/src/validator/variables.rs b/compiler/src/validator/variables.rs
index d4e0ab5..3cf9c05 100644
--- a/compiler/src/validator/variables.rs
+++ b/compiler/src/validator/variables.rs
@@ -39,6 +39,8 @@ impl ValidationContext {
                 for cond in &c.conditions {
                     self.validate_condition_vars(cond, scope)?;
                 }
+                self.validate_nodes_vars(&c.start, scope)?;
+                self.validate_nodes_vars(&c.choice_only, scope)?;
                 self.validate_nodes_vars(&c.body, scope)?;
             }
             Node::Sequence(seq) => {
-- 
2.43.0


From c4fe4ec1303f42b266f25755576d4a4b00ca7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:05 +0000
Subject: [PATCH 40/56] fix: resolve label, stitch and knot names by Ink's
 scoping rules and emit only paths that exist

---
 compiler/src/ast.rs                     | 130 ++++++-
 compiler/src/emitter/choice.rs          |  29 +-
 compiler/src/emitter/choice_threaded.rs |  52 +--
 compiler/src/emitter/choice_wrapped.rs  |  37 +-
 compiler/src/emitter/conditional.rs     |  23 --
 compiler/src/emitter/context.rs         | 471 ++++++++----------------
 compiler/src/emitter/expression.rs      |  28 +-
 compiler/src/emitter/flow.rs            | 231 +-----------
 compiler/src/emitter/mod.rs             |   6 +-
 compiler/src/emitter/nodes.rs           |  68 +---
 compiler/src/emitter/resolve.rs         | 133 +++++++
 compiler/src/inline.rs                  |   8 +-
 compiler/src/lib.rs                     |   1 +
 compiler/src/names.rs                   | 137 +++++++
 compiler/src/validator/diverts.rs       |   1 -
 15 files changed, 624 insertions(+), 731 deletions(-)
 create mode 100644 compiler/src/emitter/resolve.rs
 create mode 100644 compiler/src/names.rs

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 7765842..6472b66 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -1,7 +1,6 @@
 #[derive(Debug, Clone, PartialEq)]
 pub enum Condition {
     Bool(bool),
-    FunctionCall(String),
     Expression(Expression),
 }
 
@@ -236,3 +235,132 @@ impl ParsedStory {
         &self.flows
     }
 }
+
+/// A part of a story met by a visit.
+pub enum Part<'a> {
+    Node(&'a Node),
+    Expression(&'a Expression),
+}
+
+impl Node {
+    /// Visit this node and, depth first, all nodes and expressions in it, those in strings and
+    /// tags included.
+    pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
+        f(Part::Node(self));
+        match self {
+            Node::OutputExpression(expression) | Node::ReturnExpr(expression) => {
+                expression.visit(f);
+            }
+            Node::Assignment { expression, .. } => expression.visit(f),
+            Node::Tag(tag) => tag.visit(f),
+            Node::Sequence(sequence) => sequence.visit(f),
+            Node::Divert(divert) | Node::ThreadDivert(divert) => {
+                visit_expressions(&divert.arguments, f);
+            }
+            Node::TunnelDivert { args, .. }
+            | Node::TunnelOnwardsWithTarget { args, .. }
+            | Node::VoidCall { args, .. } => visit_expressions(args, f),
+            Node::Conditional {
+                condition,
+                when_true,
+                when_false,
+            } => {
+                condition.visit(f);
+                visit_nodes(when_true, f);
+                visit_nodes(when_false.as_deref().unwrap_or_default(), f);
+            }
+            Node::SwitchConditional { value, branches } => {
+                value.visit(f);
+                for (case, nodes) in branches {
+                    if let Some(case) = case {
+                        case.visit(f);
+                    }
+                    visit_nodes(nodes, f);
+                }
+            }
+            Node::Choice(choice) => {
+                for condition in &choice.conditions {
+                    condition.visit(f);
+                }
+                visit_nodes(&choice.start, f);
+                visit_nodes(&choice.choice_only, f);
+                visit_nodes(&choice.body, f);
+            }
+            Node::Text(_)
+            | Node::Newline
+            | Node::Glue
+            | Node::TunnelReturn
+            | Node::ReturnBool(_)
+            | Node::ReturnVoid
+            | Node::GatherPoint
+            | Node::GatherLabel { .. } => {}
+        }
+    }
+}
+
+pub fn visit_nodes(nodes: &[Node], f: &mut dyn FnMut(Part<'_>)) {
+    for node in nodes {
+        node.visit(f);
+    }
+}
+
+fn visit_expressions(expressions: &[Expression], f: &mut dyn FnMut(Part<'_>)) {
+    for expression in expressions {
+        expression.visit(f);
+    }
+}
+
+impl Condition {
+    pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
+        match self {
+            Condition::Bool(_) => {}
+            Condition::Expression(expression) => expression.visit(f),
+        }
+    }
+}
+
+impl Expression {
+    pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
+        f(Part::Expression(self));
+        match self {
+            Expression::Str(text) => {
+                if let Ok(string) = crate::inline::parse_dynamic_string(text) {
+                    string.visit(f);
+                }
+            }
+            Expression::Negate(inner) | Expression::Not(inner) => inner.visit(f),
+            Expression::FunctionCall { args, .. } => visit_expressions(args, f),
+            Expression::Binary { left, right, .. } => {
+                left.visit(f);
+                right.visit(f);
+            }
+            Expression::Bool(_)
+            | Expression::Int(_)
+            | Expression::Float(_)
+            | Expression::Variable(_)
+            | Expression::DivertTarget(_)
+            | Expression::ListItems(_)
+            | Expression::EmptyList => {}
+        }
+    }
+}
+
+impl DynamicString {
+    pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
+        for part in &self.parts {
+            match part {
+                DynamicStringPart::Text(_) => {}
+                DynamicStringPart::Expression(expression) => expression.visit(f),
+                DynamicStringPart::Sequence(sequence) => sequence.visit(f),
+            }
+        }
+    }
+}
+
+impl Sequence {
+    fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
+        for branch in &self.branches {
+            visit_nodes(branch, f);
+        }
+    }
+}
diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 88dcad2..799379d 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -76,21 +76,8 @@ fn emit_choice(
     ) {
         branch_container.push(token);
     }
-    let extra_flags = context
-        .flow_count_flags
-        .get(&choice_ptr)
-        .copied()
-        .unwrap_or(0);
-    let mut flags = 0;
-    if choice.once_only || context.count_all_visits || (extra_flags & COUNT_VISITS != 0) {
-        flags |= COUNT_VISITS;
-    }
-    if extra_flags & COUNT_TURNS != 0 {
-        flags |= COUNT_TURNS;
-    }
-    // CountStartOnly (4) is always set for choices but only serialized when
-    // accompanied by Visits or Turns (lone CountStartOnly is meaningless).
-    let count_flags = if flags > 0 { Some(flags | 4) } else { None };
+    let count_flags = choice_count_flags(choice, scope, context);
+    branch_container.label = choice.label.as_ref().map(|l| scope.qualified_label(l));
     out.insert_named(
         branch_name,
         branch_container.into_json_array(None, count_flags)?,
@@ -102,3 +89,15 @@ fn emit_choice(
 fn has_choice_evaluation(choice: &Choice) -> bool {
     !choice.start.is_empty() || !choice.choice_only.is_empty() || !choice.conditions.is_empty()
 }
+
+fn choice_count_flags(choice: &Choice, scope: &EmitScope, context: &EmitContext) -> Option<i32> {
+    let mut flags = match &choice.label {
+        Some(label) => scope.label_count_flags(label, context),
+        None => context.count_flags_of(""),
+    };
+    if choice.once_only {
+        flags |= COUNT_VISITS;
+    }
+    // COUNT_START_ONLY alone means nothing.
+    (flags > 0).then_some(flags | COUNT_START_ONLY)
+}
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index b80f264..69b2f52 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -10,7 +10,8 @@ fn emit_choice_block(
     let section = analyze_weave_choice_section(choices, continuation, scope);
 
     if !section.prefix_nodes.is_empty() {
-        for value in emit_nodes(section.prefix_nodes, scope, context)?.content {
+        let prefix_scope = scope.with_content_offset(out.content.len() + scope.param_offset);
+        for value in emit_nodes(section.prefix_nodes, &prefix_scope, context)?.content {
             out.push(value);
         }
     }
@@ -48,30 +49,13 @@ fn emit_choice_block(
         ChoiceEmissionMode::Flat => {}
     }
 
-    let mut choice_labels = BTreeMap::new();
-    for (offset, choice) in section.choices.iter().enumerate() {
-        let Node::Choice(choice) = choice else {
-            continue;
-        };
-        if let Some(label) = &choice.label {
-            // Store the absolute path so diverts to labels work regardless of scope depth
-            choice_labels.insert(
-                label.clone(),
-                format!("{}.c-{}", scope.path, *next_choice_index + offset),
-            );
-        }
-    }
-    // Detect gather label for the continuation so it can be added to choice_labels
     let gather_label: Option<String> =
-        if let Some(Node::GatherLabel { label: lbl, .. }) = section.continuation_nodes.first() {
-            let path = format!("{}.{}", scope.path, lbl);
-            choice_labels.insert(lbl.clone(), path);
-            Some(lbl.clone())
+        if let Some(Node::GatherLabel { label, .. }) = section.continuation_nodes.first() {
+            Some(label.clone())
         } else {
             None
         };
-
-    let block_scope = scope.with_choice_labels(choice_labels);
+    let block_scope = scope;
 
     // Compute gather container and continuation path, but defer insert_named so that
     // choice containers (c-N) are inserted into out.named first (matching inklecate order).
@@ -125,11 +109,11 @@ fn emit_choice_block(
             ) {
                 gather_container.push(token);
             }
-            let count_flags = if gather_label.is_some() {
-                gather_count_flags(&g_n_path, context)
-            } else {
-                None
-            };
+            let count_flags = gather_label
+                .as_ref()
+                .and_then(|label| gather_count_flags(label, scope, context));
+            gather_container.label =
+                gather_label.as_ref().map(|label| scope.qualified_label(label));
             let continuation_value = gather_container.into_json_array(None, count_flags)?;
             let path = format!("{}.{}", scope.path, name);
             (Some(path), Some((name.to_owned(), continuation_value)))
@@ -142,7 +126,7 @@ fn emit_choice_block(
         emit_choice(
             out,
             choice,
-            &block_scope,
+            block_scope,
             *next_choice_index,
             continuation_path.as_deref(),
             context,
@@ -281,21 +265,11 @@ fn build_threaded_choice_block_no_label(
         loop_choices
     };
 
-    let mut choice_labels = BTreeMap::new();
     let group_path = joined_path(&scope.path, group_index);
-    for (offset, choice) in emit_choices.iter().enumerate() {
-        if let Some(label) = &choice.label {
-            let label_target =
-                joined_path(&group_path, format!("c-{}", *next_choice_index + offset));
-            choice_labels.insert(label.clone(), label_target);
-        }
-    }
-    let block_scope = scope
-        .at_path(group_path.clone())
-        .with_choice_labels(choice_labels);
+    let block_scope = scope.at_path(group_path.clone());
     let choices_prefix = group_path;
 
-    let mut choices_group = EmittedContainer::default();
+    let mut choices_group = EmittedContainer::at(&block_scope.path);
     let mut local_choice_index = *next_choice_index;
 
     let g_name = format!("g-{}", *next_choice_index);
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 16550bd..fe4a51a 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -20,24 +20,11 @@ fn build_wrapped_loop_choice_block(
 
     let outer_path = joined_path(&scope.path, group_index);
     let group_path = joined_path(&outer_path, loop_label);
-    let mut choice_labels = BTreeMap::new();
-    for (offset, node) in choices.iter().enumerate() {
-        let Node::Choice(choice) = node else {
-            continue;
-        };
-        if let Some(label) = &choice.label {
-            let label_target =
-                joined_path(&group_path, format!("c-{}", *next_choice_index + offset));
-            choice_labels.insert(label.clone(), label_target);
-        }
-    }
-    choice_labels.insert(loop_label.to_owned(), group_path.clone());
-    let block_scope = scope
-        .at_path(group_path.clone())
-        .with_choice_labels(choice_labels);
+    let block_scope = scope.at_path(group_path.clone());
     let choices_prefix = group_path;
 
-    let mut choices_group = EmittedContainer::default();
+    let mut choices_group = EmittedContainer::at(&block_scope.path);
+    choices_group.label = Some(scope.qualified_label(loop_label));
     let mut local_choice_index = *next_choice_index;
 
     // Build continuation g-N.
@@ -231,19 +218,11 @@ fn emit_wrapped_loop_choice_body(
         branch_container.push(token);
     }
 
-    let extra_flags = context
-        .flow_count_flags
-        .get(&branch_scope.path)
-        .copied()
-        .unwrap_or(0);
-    let mut flags = 0;
-    if choice.once_only || context.count_all_visits || (extra_flags & COUNT_VISITS != 0) {
-        flags |= COUNT_VISITS;
-    }
-    if extra_flags & COUNT_TURNS != 0 {
-        flags |= COUNT_TURNS;
-    }
-    let branch_count_flags = if flags > 0 { Some(flags | 4) } else { None };
+    let branch_count_flags = choice_count_flags(choice, branch_scope, context);
+    branch_container.label = choice
+        .label
+        .as_ref()
+        .map(|l| branch_scope.qualified_label(l));
     branch_container.content.splice(0..0, prefix);
     branch_container.into_json_array(None, branch_count_flags)
 }
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index aa4a3b2..5988529 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -6,29 +6,6 @@ fn emit_condition(
 ) -> Result<(), CompilerError> {
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
-        Condition::FunctionCall(name) => {
-            out.push(json!({"f()": name}));
-        }
-        Condition::Expression(Expression::Variable(name))
-            if scope.resolve_choice_label(name).is_some() =>
-        {
-            // Labels are stored as absolute paths now
-            out.push(json!({"CNT?": scope.resolve_choice_label(name).unwrap()}));
-        }
-        Condition::Expression(Expression::Variable(name))
-            if context.qualified_choice_labels.contains_key(name) =>
-        {
-            out.push(json!({"CNT?": context.qualified_choice_labels[name]}));
-        }
-        Condition::Expression(Expression::Variable(name))
-            if context.top_flow_names.contains(name) || scope.child_flow_names.contains(name) =>
-        {
-            out.push(json!({"CNT?": scope.resolve_divert_target(name, context)}));
-        }
-        // Fully-qualified path like knot.stitch.label — treat as CNT? visit count
-        Condition::Expression(Expression::Variable(name)) if name.contains('.') => {
-            out.push(json!({"CNT?": name}));
-        }
         Condition::Expression(expression) => {
             emit_expression_ctx(expression, out, Some(context), Some(scope))
         }
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index d6c0ba8..daf15c7 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -22,7 +22,7 @@ pub fn story_to_json_value(
     count_all_visits: bool,
 ) -> Result<Value, CompilerError> {
     let context = EmitContext::new(story, count_all_visits);
-    let root_scope = EmitScope::root(story.flows());
+    let root_scope = EmitScope::root(story.root());
 
     let mut root_container =
         emit_nodes_with_continuation(story.root(), &root_scope, &context, Some("0.g-0"))?;
@@ -70,6 +70,7 @@ pub fn story_to_json_value(
             Value::Object(named_content)
         }
     ]);
+    resolve_story_paths(&mut root_value, &context)?;
     compact_story_paths(&mut root_value);
 
     let mut output = serde_json::Map::new();
@@ -81,6 +82,10 @@ pub fn story_to_json_value(
 
 #[derive(Debug, Default)]
 struct EmittedContainer {
+    /// The path its content was emitted for, see `resolve_story_paths`.
+    path: Option<String>,
+    /// The label it is the content of, see `label_reference`.
+    label: Option<String>,
     content: Vec<Value>,
     named: Map<String, Value>,
 }
@@ -88,25 +93,22 @@ struct EmittedContainer {
 #[derive(Clone)]
 struct EmitScope {
     path: String,
-    top_flow_name: Option<String>,
-    child_flow_names: BTreeSet<String>,
-    /// Siblings of the current flow (i.e., other stitches of the same knot).
-    /// Used to resolve divert targets that are siblings.
-    sibling_flow_names: BTreeSet<String>,
-    choice_label_targets: BTreeMap<String, String>,
+    /// The path of the knot or stitch this is in, empty before the first knot.
+    flow: String,
     /// Number of tokens that will be prepended (e.g. function parameters)
     /// before the content emitted by emit_nodes. This offset is added when
     /// computing absolute indices (e.g. conditional rejoin targets).
     param_offset: usize,
     /// Parameter names for the current flow (live in temp-variable frame).
     temp_param_names: BTreeSet<String>,
-    /// Divert-typed parameter names for the current flow (valid `-> var` targets).
-    divert_param_names: BTreeSet<String>,
+    /// Parameters and temporary variables of the current flow.
+    temp_names: BTreeSet<String>,
 }
 
 struct EmitContext {
     global_variables: BTreeSet<String>,
-    top_flow_names: BTreeSet<String>,
+    names: Names,
+    consts: BTreeMap<String, Expression>,
     count_all_visits: bool,
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
@@ -114,61 +116,33 @@ struct EmitContext {
     list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
-    /// Count flags required by explicit references to flow containers.
-    flow_count_flags: BTreeMap<String, i32>,
-    /// Fully-qualified authored label targets (e.g. `knot.stitch.choice`) mapped
-    /// to their emitted runtime paths (e.g. `knot.stitch.c-0`).
-    qualified_choice_labels: BTreeMap<String, String>,
+    /// Count flags required by explicit references to content, by `target_path`.
+    count_flags: BTreeMap<String, i32>,
     /// For each function, whether each parameter position is `ref`.
     function_ref_param_positions: BTreeMap<String, Vec<bool>>,
-    /// Unqualified flow/stitch target names mapped to their absolute path
-    /// when the name is unique across the story.
-    unqualified_flow_targets: BTreeMap<String, String>,
 }
 
-fn register_unqualified_flow_target(
-    shortcuts: &mut BTreeMap<String, Option<String>>,
-    short_name: &str,
-    absolute_path: String,
-) {
-    match shortcuts.get(short_name) {
-        None => {
-            shortcuts.insert(short_name.to_owned(), Some(absolute_path));
-        }
-        Some(Some(existing)) if existing == &absolute_path => {}
-        _ => {
-            shortcuts.insert(short_name.to_owned(), None);
-        }
+/// How compiled content refers to named content: flows by their path, labelled content by a
+/// reference that `resolve_story_paths` replaces with the path it ends up at.
+fn target_path(content: &Content) -> String {
+    match content {
+        Content::Flow(path) => path.clone(),
+        Content::Label(label) => label_reference(label),
     }
 }
 
-fn collect_unqualified_flow_targets_recursive(
-    flow: &Flow,
-    absolute_path: &str,
-    shortcuts: &mut BTreeMap<String, Option<String>>,
-) {
-    register_unqualified_flow_target(shortcuts, &flow.name, absolute_path.to_owned());
-
-    for child in &flow.children {
-        let child_path = format!("{absolute_path}.{}", child.name);
-        collect_unqualified_flow_targets_recursive(child, &child_path, shortcuts);
-    }
+fn label_reference(label: &str) -> String {
+    format!("@{label}")
 }
 
-fn collect_unqualified_flow_targets(story: &ParsedStory) -> BTreeMap<String, String> {
-    let mut shortcuts: BTreeMap<String, Option<String>> = BTreeMap::new();
-
-    for flow in story.flows() {
-        collect_unqualified_flow_targets_recursive(flow, &flow.name, &mut shortcuts);
+impl EmittedContainer {
+    fn at(path: &str) -> Self {
+        Self {
+            path: Some(path.to_owned()),
+            ..Self::default()
+        }
     }
 
-    shortcuts
-        .into_iter()
-        .filter_map(|(name, maybe_path)| maybe_path.map(|path| (name, path)))
-        .collect()
-}
-
-impl EmittedContainer {
     fn push(&mut self, value: Value) {
         self.content.push(value);
     }
@@ -183,25 +157,25 @@ impl EmittedContainer {
         count_flags: Option<i32>,
     ) -> Result<Value, CompilerError> {
         let mut values = self.content;
-        let has_name = name.is_some();
+        let mut terminator = self.named;
         let flags = count_flags.unwrap_or_default();
-        let has_flags = flags > 0;
-
-        if !self.named.is_empty() || has_name || has_flags {
-            let mut terminator = self.named;
-
-            if has_flags {
-                terminator.insert("#f".to_owned(), json!(flags));
-            }
-
-            if let Some(name) = name {
-                terminator.insert("#n".to_owned(), json!(name));
-            }
-
-            values.push(Value::Object(terminator));
-        } else {
-            values.push(Value::Null);
+        if flags > 0 {
+            terminator.insert("#f".to_owned(), json!(flags));
+        }
+        if let Some(name) = name {
+            terminator.insert("#n".to_owned(), json!(name));
+        }
+        if let Some(path) = self.path {
+            terminator.insert(EMITTED_FOR.to_owned(), json!(path));
+        }
+        if let Some(label) = self.label {
+            terminator.insert(LABEL.to_owned(), json!(label));
         }
+        values.push(if terminator.is_empty() {
+            Value::Null
+        } else {
+            Value::Object(terminator)
+        });
 
         Ok(Value::Array(values))
     }
@@ -210,108 +184,58 @@ impl EmittedContainer {
 const COUNT_VISITS: i32 = 1;
 const COUNT_TURNS: i32 = 2;
 
-fn add_flow_count_flags(targets: &mut BTreeMap<String, i32>, target: &str, flags: i32) {
-    *targets.entry(target.to_owned()).or_default() |= flags;
-}
-
-fn collect_flow_count_flags_from_flows_into(
-    flows: &[Flow],
+/// The count flags that the references in `nodes`, which are in `flow`, require.
+fn collect_count_flags(
+    flow: &str,
+    visit: impl FnOnce(&mut dyn FnMut(Part<'_>)),
+    names: &Names,
     targets: &mut BTreeMap<String, i32>,
 ) {
-    for flow in flows {
-        collect_flow_count_flags_from_nodes(&flow.nodes, targets);
-        collect_flow_count_flags_from_flows_into(&flow.children, targets);
-    }
-}
-
-fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<String, i32>) {
-    for node in nodes {
-        match node {
-            Node::OutputExpression(expr) => {
-                collect_flow_count_flags_from_expr(expr, targets);
-            }
-            Node::Choice(choice) => {
-                for cond in &choice.conditions {
-                    if let Condition::Expression(e) = cond {
-                        collect_flow_count_flags_from_expr(e, targets);
-                    }
-                }
-                collect_flow_count_flags_from_nodes(&choice.start, targets);
-                collect_flow_count_flags_from_nodes(&choice.choice_only, targets);
-                collect_flow_count_flags_from_nodes(&choice.body, targets);
-            }
-            Node::Conditional {
-                condition,
-                when_true,
-                when_false,
-            } => {
-                if let Condition::Expression(e) = condition {
-                    collect_flow_count_flags_from_expr(e, targets);
-                }
-                collect_flow_count_flags_from_nodes(when_true, targets);
-                if let Some(nodes) = when_false {
-                    collect_flow_count_flags_from_nodes(nodes, targets);
-                }
-            }
-            Node::SwitchConditional { value, branches } => {
-                collect_flow_count_flags_from_expr(value, targets);
-                for (opt_expr, branch_nodes) in branches {
-                    if let Some(e) = opt_expr {
-                        collect_flow_count_flags_from_expr(e, targets);
-                    }
-                    collect_flow_count_flags_from_nodes(branch_nodes, targets);
-                }
-            }
-            Node::Assignment { expression, .. } => {
-                collect_flow_count_flags_from_expr(expression, targets);
-            }
-            Node::ReturnExpr(e) => {
-                collect_flow_count_flags_from_expr(e, targets);
-            }
-            Node::VoidCall { args, .. } => {
+    // `TURNS_SINCE(-> target)` does not need what a target passed around does.
+    let mut counted = BTreeSet::new();
+    let mut add = |name: &str, flags: i32| {
+        if let Some(content) = names.resolve(flow, name) {
+            *targets.entry(target_path(&content)).or_default() |= flags;
+        }
+    };
+    visit(&mut |part| {
+        let Part::Expression(expression) = part else {
+            return;
+        };
+        match expression {
+            Expression::FunctionCall { name, args } => {
+                let flags = match name.as_str() {
+                    "TURNS_SINCE" => COUNT_TURNS,
+                    "READ_COUNT" => COUNT_VISITS,
+                    _ => return,
+                };
                 for arg in args {
                     if let Expression::DivertTarget(target) = arg {
-                        add_flow_count_flags(targets, target, COUNT_VISITS | COUNT_TURNS);
-                    } else {
-                        collect_flow_count_flags_from_expr(arg, targets);
+                        counted.insert(std::ptr::from_ref(arg));
+                        add(target, flags);
                     }
                 }
             }
+            Expression::DivertTarget(target)
+                if !counted.contains(&std::ptr::from_ref(expression)) =>
+            {
+                add(target, COUNT_VISITS | COUNT_TURNS);
+            }
+            Expression::Variable(name) => add(name, COUNT_VISITS),
             _ => {}
         }
-    }
+    });
 }
 
-fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<String, i32>) {
-    match expr {
-        Expression::FunctionCall { name, args } => {
-            let direct_flags = match name.as_str() {
-                "TURNS_SINCE" => COUNT_TURNS,
-                "READ_COUNT" => COUNT_VISITS,
-                _ => COUNT_VISITS | COUNT_TURNS,
-            };
-            for arg in args {
-                if let Expression::DivertTarget(target) = arg {
-                    add_flow_count_flags(targets, target, direct_flags);
-                } else {
-                    collect_flow_count_flags_from_expr(arg, targets);
-                }
-            }
-        }
-        // A bare variable used as a condition (e.g., {label_name}) is treated as
-        // a visit-count check at emission time (CNT?).  Flag the target so that
-        // it gets COUNT_VISITS even when count_all_visits is false.
-        Expression::Variable(name) => {
-            add_flow_count_flags(targets, name, COUNT_VISITS);
-        }
-        Expression::Negate(inner) | Expression::Not(inner) => {
-            collect_flow_count_flags_from_expr(inner, targets);
-        }
-        Expression::Binary { left, right, .. } => {
-            collect_flow_count_flags_from_expr(left, targets);
-            collect_flow_count_flags_from_expr(right, targets);
-        }
-        _ => {}
+fn collect_flow_count_flags(
+    flow: &Flow,
+    path: &str,
+    names: &Names,
+    targets: &mut BTreeMap<String, i32>,
+) {
+    collect_count_flags(path, |f| visit_nodes(&flow.nodes, f), names, targets);
+    for child in &flow.children {
+        collect_flow_count_flags(child, &joined_path(path, &child.name), names, targets);
     }
 }
 
@@ -326,36 +250,21 @@ impl EmitContext {
                 .collect();
             list_items.insert(list_decl.name.clone(), items);
         }
-        let qualified_choice_labels = collect_story_choice_labels(story);
-        let unqualified_flow_targets = collect_unqualified_flow_targets(story);
-        let mut raw_flow_count_flags = BTreeMap::new();
-        collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
-        collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
-        let mut flow_count_flags = BTreeMap::new();
-        for (target, flags) in raw_flow_count_flags {
-            // First try unqualified flow targets (knots/stitches)
-            if let Some(resolved) = unqualified_flow_targets.get(&target) {
-                add_flow_count_flags(&mut flow_count_flags, resolved, flags);
-            } else if target.contains('.') {
-                // Already qualified path
-                add_flow_count_flags(&mut flow_count_flags, &target, flags);
-            } else {
-                // Try to resolve through qualified choice labels (gather labels).
-                // A bare name like "ans_agent" may correspond to one or more
-                // qualified keys like "interrogation.0.ans_agent".
-                let mut resolved_any = false;
-                let suffix = format!(".{target}");
-                for (qualified_key, runtime_path) in &qualified_choice_labels {
-                    if qualified_key.ends_with(&suffix) || qualified_key == &target {
-                        add_flow_count_flags(&mut flow_count_flags, runtime_path, flags);
-                        resolved_any = true;
-                    }
-                }
-                if !resolved_any {
-                    // Unresolved — store as-is (may be a global variable, not a flow).
-                    add_flow_count_flags(&mut flow_count_flags, &target, flags);
+        let names = Names::new(story);
+        let mut count_flags = BTreeMap::new();
+        collect_count_flags(
+            "",
+            |f| {
+                visit_nodes(story.root(), f);
+                for global in story.globals() {
+                    global.initial_value.visit(f);
                 }
-            }
+            },
+            &names,
+            &mut count_flags,
+        );
+        for flow in story.flows() {
+            collect_flow_count_flags(flow, &flow.name, &names, &mut count_flags);
         }
         let function_ref_param_positions = story
             .flows()
@@ -373,7 +282,12 @@ impl EmitContext {
             .collect();
         Self {
             global_variables: story.globals().iter().map(|var| var.name.clone()).collect(),
-            top_flow_names: story.flows().iter().map(|flow| flow.name.clone()).collect(),
+            names,
+            consts: story
+                .consts
+                .iter()
+                .map(|(name, value)| (name.clone(), value.clone()))
+                .collect(),
             count_all_visits,
             list_names: story
                 .list_declarations()
@@ -382,10 +296,17 @@ impl EmitContext {
                 .collect(),
             list_items,
             external_functions: story.external_functions.iter().cloned().collect(),
-            flow_count_flags,
-            qualified_choice_labels,
+            count_flags,
             function_ref_param_positions,
-            unqualified_flow_targets,
+        }
+    }
+
+    fn count_flags_of(&self, target: &str) -> i32 {
+        let flags = self.count_flags.get(target).copied().unwrap_or_default();
+        if self.count_all_visits {
+            flags | COUNT_VISITS
+        } else {
+            flags
         }
     }
 
@@ -413,65 +334,48 @@ impl EmitContext {
     }
 }
 
+/// The temporary variables declared in `nodes`.
+fn temp_names(nodes: &[Node]) -> BTreeSet<String> {
+    let mut names = BTreeSet::new();
+    visit_nodes(nodes, &mut |part| {
+        if let Part::Node(Node::Assignment {
+            variable_name,
+            mode: AssignMode::TempSet,
+            ..
+        }) = part
+        {
+            names.insert(variable_name.clone());
+        }
+    });
+    names
+}
+
 impl EmitScope {
-    fn root(flows: &[Flow]) -> Self {
+    fn root(nodes: &[Node]) -> Self {
         Self {
             path: "0".to_owned(),
-            top_flow_name: None,
-            child_flow_names: flows.iter().map(|flow| flow.name.clone()).collect(),
-            sibling_flow_names: BTreeSet::new(),
-            choice_label_targets: BTreeMap::new(),
+            flow: String::new(),
             param_offset: 0,
             temp_param_names: BTreeSet::new(),
-            divert_param_names: BTreeSet::new(),
+            temp_names: temp_names(nodes),
         }
     }
 
     fn child_flow(&self, child: &Flow) -> Self {
-        let path = if self.path == "0" {
-            child.name.clone()
-        } else {
-            format!("{}.{}", self.path, child.name)
-        };
-
-        // When entering a stitch (self already has a top_flow_name), pass down
-        // the current child_flow_names as siblings so the stitch can resolve them.
-        let siblings = if self.top_flow_name.is_some() {
-            self.child_flow_names.clone()
-        } else {
-            BTreeSet::new()
-        };
-
+        let path = joined_path(&self.flow, &child.name);
+        let mut temp_names = temp_names(&child.nodes);
+        temp_names.extend(child.parameters.iter().cloned());
         Self {
+            flow: path.clone(),
             path,
-            top_flow_name: self
-                .top_flow_name
-                .clone()
-                .or_else(|| Some(child.name.clone())),
-            child_flow_names: child
-                .children
-                .iter()
-                .map(|nested| nested.name.clone())
-                .collect(),
-            sibling_flow_names: siblings,
-            choice_label_targets: BTreeMap::new(),
             param_offset: child.parameters.len(),
             temp_param_names: child.parameters.iter().cloned().collect(),
-            divert_param_names: child.divert_parameters.iter().cloned().collect(),
+            temp_names,
         }
     }
 
     fn choice_branch(&self, branch_name: &str) -> Self {
-        Self {
-            path: format!("{}.{}", self.path, branch_name),
-            top_flow_name: self.top_flow_name.clone(),
-            child_flow_names: self.child_flow_names.clone(),
-            sibling_flow_names: self.sibling_flow_names.clone(),
-            choice_label_targets: self.choice_label_targets.clone(),
-            param_offset: 0,
-            temp_param_names: self.temp_param_names.clone(),
-            divert_param_names: self.divert_param_names.clone(),
-        }
+        self.at_path(joined_path(&self.path, branch_name))
     }
 
     fn continuation(&self, name: &str) -> Self {
@@ -482,32 +386,13 @@ impl EmitScope {
         self.choice_branch(branch_name)
     }
 
-    fn with_choice_labels(&self, labels: BTreeMap<String, String>) -> Self {
-        // Merge: start with existing labels and overlay the new ones
-        let mut merged = self.choice_label_targets.clone();
-        merged.extend(labels);
-        Self {
-            path: self.path.clone(),
-            top_flow_name: self.top_flow_name.clone(),
-            child_flow_names: self.child_flow_names.clone(),
-            sibling_flow_names: self.sibling_flow_names.clone(),
-            choice_label_targets: merged,
-            param_offset: self.param_offset,
-            temp_param_names: self.temp_param_names.clone(),
-            divert_param_names: self.divert_param_names.clone(),
-        }
-    }
-
     fn at_path(&self, path: String) -> Self {
         Self {
             path,
-            top_flow_name: self.top_flow_name.clone(),
-            child_flow_names: self.child_flow_names.clone(),
-            sibling_flow_names: self.sibling_flow_names.clone(),
-            choice_label_targets: self.choice_label_targets.clone(),
+            flow: self.flow.clone(),
             param_offset: 0,
             temp_param_names: self.temp_param_names.clone(),
-            divert_param_names: self.divert_param_names.clone(),
+            temp_names: self.temp_names.clone(),
         }
     }
 
@@ -518,69 +403,29 @@ impl EmitScope {
         scope
     }
 
-    fn resolve_divert_target(&self, target: &str, context: &EmitContext) -> String {
-        if target == "END" || target == "DONE" {
-            return target.to_owned();
-        }
+    /// The label of content in this flow, as other flows name it.
+    fn qualified_label(&self, label: &str) -> String {
+        joined_path(&self.flow, label)
+    }
 
-        if let Some(choice_target) = self.resolve_qualified_choice_label(target, context) {
-            return choice_target;
-        }
+    /// The count flags of the content of `label`.
+    fn label_count_flags(&self, label: &str, context: &EmitContext) -> i32 {
+        context.count_flags_of(&label_reference(&self.qualified_label(label)))
+    }
 
-        if target.contains('.') {
+    fn resolve_divert_target(&self, target: &str, context: &EmitContext) -> String {
+        if target == "END" || target == "DONE" || self.is_variable_divert(target, context) {
             return target.to_owned();
         }
-
-        if let Some(choice_target) = self.resolve_choice_label(target) {
-            return choice_target.to_owned();
+        match context.names.resolve(&self.flow, target) {
+            Some(content) => target_path(&content),
+            None => target.to_owned(),
         }
-
-        if context.global_variables.contains(target) && !context.top_flow_names.contains(target) {
-            return target.to_owned();
-        }
-
-        if self.child_flow_names.contains(target) && self.top_flow_name.is_some() {
-            return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
-        }
-
-        // Sibling stitch: target is a stitch of the same parent knot
-        if self.sibling_flow_names.contains(target) && self.top_flow_name.is_some() {
-            return format!("{}.{target}", self.top_flow_name.as_deref().unwrap());
-        }
-
-        if let Some(abs) = context.unqualified_flow_targets.get(target) {
-            return abs.clone();
-        }
-
-        target.to_owned()
     }
 
     fn is_variable_divert(&self, target: &str, context: &EmitContext) -> bool {
-        self.divert_param_names.contains(target)
+        self.temp_names.contains(target)
             || (context.global_variables.contains(target)
-                && !context.top_flow_names.contains(target))
-    }
-
-    fn resolve_choice_label(&self, label: &str) -> Option<&str> {
-        self.choice_label_targets.get(label).map(String::as_str)
-    }
-
-    fn resolve_qualified_choice_label(
-        &self,
-        target: &str,
-        context: &EmitContext,
-    ) -> Option<String> {
-        if let Some(resolved) = context.qualified_choice_labels.get(target) {
-            return Some(resolved.clone());
-        }
-
-        let (prefix, label) = target.rsplit_once('.')?;
-        let resolved = self.resolve_choice_label(label)?;
-        let prefix_with_dot = format!("{prefix}.");
-        if resolved == prefix || resolved.starts_with(&prefix_with_dot) {
-            Some(resolved.to_owned())
-        } else {
-            None
-        }
+                && context.names.resolve_enclosing(&self.flow, target).is_none())
     }
 }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 14c15f1..1e659c7 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -81,7 +81,8 @@ fn emit_sequence(
     for (index, branch) in sequence.branches.iter().enumerate() {
         let branch_scope =
             scope.at_path(joined_path(&sequence_path, format!("s{index}")));
-        let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
+        let mut branch_container =
+            emit_nodes(branch, &branch_scope.with_content_offset(1), context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
         named.insert(
@@ -283,23 +284,20 @@ fn emit_expression_ctx(
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
-            if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
-                out.push(json!({"CNT?": path}))
-            } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
+            let (Some(context), Some(scope)) = (context, scope) else {
+                out.push(json!({"VAR?": name}));
+                return;
+            };
+            if !scope.temp_names.contains(name)
+                && let Some(value) = context.consts.get(name)
             {
-                out.push(json!({"CNT?": path}))
-            } else if name.contains('.') {
-                out.push(json!({"CNT?": name}))
-            } else if let (Some(s), Some(ctx)) = (scope, context)
-                && (ctx.top_flow_names.contains(name)
-                    || s.child_flow_names.contains(name)
-                    || s.sibling_flow_names.contains(name))
+                emit_expression_ctx(value, out, Some(context), Some(scope));
+            } else if !scope.temp_names.contains(name)
+                && let Some(content) = context.names.resolve_enclosing(&scope.flow, name)
             {
-                out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
-            } else if context.is_some_and(|ctx| ctx.top_flow_names.contains(name)) {
-                out.push(json!({"CNT?": name}))
+                out.push(json!({"CNT?": target_path(&content)}));
             } else {
-                out.push(json!({"VAR?": name}))
+                out.push(json!({"VAR?": name}));
             }
         }
         Expression::DivertTarget(target) => {
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index ac3b325..659a1fa 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -62,7 +62,7 @@ fn emit_flow(flow: &Flow, context: &EmitContext) -> Result<Value, CompilerError>
         );
     }
 
-    container.into_json_array(None, Some(flow_count_flags(&scope.path, context)))
+    container.into_json_array(None, Some(context.count_flags_of(&scope.path)))
 }
 
 fn emit_nested_flow(
@@ -87,7 +87,7 @@ fn emit_nested_flow(
         );
     }
 
-    container.into_json_array(None, Some(flow_count_flags(&scope.path, context)))
+    container.into_json_array(None, Some(context.count_flags_of(&scope.path)))
 }
 
 fn emit_flow_nodes(
@@ -114,37 +114,8 @@ fn flow_nodes_scope(flow: &Flow, scope: &EmitScope) -> EmitScope {
     scope.at_path(joined_path(&scope.path, flow.parameters.len()))
 }
 
-fn flow_count_flags(path: &str, context: &EmitContext) -> i32 {
-    let mut flags = context
-        .flow_count_flags
-        .get(path)
-        .copied()
-        .unwrap_or_default();
-    if context.count_all_visits {
-        flags |= COUNT_VISITS;
-    }
-    flags
-}
-
-/// Compute count flags for a gather container at the given runtime path.
-/// Returns `Some(flags)` when the container needs visit/turn counting, or `None`.
-/// Gather containers need the CountStartOnly bit (4) in addition to visit/turn flags.
-fn gather_count_flags(path: &str, context: &EmitContext) -> Option<i32> {
-    const COUNT_START_ONLY: i32 = 4;
-    let mut flags = context
-        .flow_count_flags
-        .get(path)
-        .copied()
-        .unwrap_or_default();
-    if context.count_all_visits {
-        flags |= COUNT_VISITS;
-    }
-    if flags > 0 {
-        Some(flags | COUNT_START_ONLY)
-    } else {
-        None
-    }
-}
+/// Content only counted when entered at its start.
+const COUNT_START_ONLY: i32 = 4;
 
 fn prepend_parameters(container: &mut EmittedContainer, parameters: &[String]) {
     if parameters.is_empty() {
@@ -159,197 +130,3 @@ fn prepend_parameters(container: &mut EmittedContainer, parameters: &[String]) {
     prefix.append(&mut container.content);
     container.content = prefix;
 }
-
-/// Pre-scan all nodes (including continuations) to collect every choice label
-/// as an absolute path. This allows cross-block label references (e.g., {greet}
-/// in a second choice block referencing a label from the first block).
-fn collect_all_choice_labels(nodes: &[Node], scope: &EmitScope) -> BTreeMap<String, String> {
-    let mut labels = BTreeMap::new();
-    collect_choice_labels_recursive(nodes, scope, &mut labels, &mut 0);
-    labels
-}
-
-fn collect_story_choice_labels(story: &ParsedStory) -> BTreeMap<String, String> {
-    let mut labels = BTreeMap::new();
-    let root_scope = EmitScope::root(story.flows());
-
-    collect_qualified_choice_labels_for_scope(story.root(), &root_scope, &mut labels);
-    for flow in story.flows() {
-        collect_qualified_choice_labels_for_flow(flow, &root_scope, &mut labels);
-    }
-
-    labels
-}
-
-fn collect_qualified_choice_labels_for_flow(
-    flow: &Flow,
-    parent_scope: &EmitScope,
-    labels: &mut BTreeMap<String, String>,
-) {
-    let scope = parent_scope.child_flow(flow);
-    let nodes_scope = if flow
-        .nodes
-        .iter()
-        .any(|node| matches!(node, Node::GatherLabel { indent: 0, .. }))
-    {
-        flow_nodes_scope(flow, &scope)
-    } else {
-        scope.clone()
-    };
-    for (label, path) in collect_all_choice_labels(&flow.nodes, &nodes_scope) {
-        labels.insert(format!("{}.{}", scope.path, label), path);
-    }
-
-    for child in &flow.children {
-        collect_qualified_choice_labels_for_flow(child, &scope, labels);
-    }
-}
-
-fn collect_qualified_choice_labels_for_scope(
-    nodes: &[Node],
-    scope: &EmitScope,
-    labels: &mut BTreeMap<String, String>,
-) {
-    for (label, path) in collect_all_choice_labels(nodes, scope) {
-        if scope.path == "0" {
-            labels.insert(label, path);
-        } else {
-            labels.insert(format!("{}.{}", scope.path, label), path);
-        }
-    }
-}
-
-fn collect_choice_labels_recursive(
-    nodes: &[Node],
-    scope: &EmitScope,
-    labels: &mut BTreeMap<String, String>,
-    choice_index: &mut usize,
-) {
-    let mut i = 0;
-    while i < nodes.len() {
-        match &nodes[i] {
-            Node::Choice(choice) => {
-                let branch_index = *choice_index;
-                if let Some(label) = &choice.label {
-                    labels.insert(label.clone(), format!("{}.c-{branch_index}", scope.path));
-                }
-                let branch_scope = scope.choice_branch(&format!("c-{branch_index}"));
-                let mut nested_choice_index = 0;
-                collect_choice_labels_recursive(
-                    &choice.body,
-                    &branch_scope,
-                    labels,
-                    &mut nested_choice_index,
-                );
-                let level = choice.nesting_level;
-                *choice_index += 1;
-                i += 1;
-
-                // Find where the choice block ends (non-Choice node or different nesting level)
-                let block_start_ci = *choice_index - 1; // index of first choice in block
-                // collect any remaining adjacent choices at the same nesting level
-                while i < nodes.len() {
-                    match &nodes[i] {
-                        Node::Choice(c) if c.nesting_level == level => {
-                            let branch_index = *choice_index;
-                            if let Some(label) = &c.label {
-                                labels.insert(
-                                    label.clone(),
-                                    format!("{}.c-{branch_index}", scope.path),
-                                );
-                            }
-                            let branch_scope = scope.choice_branch(&format!("c-{branch_index}"));
-                            let mut nested_choice_index = 0;
-                            collect_choice_labels_recursive(
-                                &c.body,
-                                &branch_scope,
-                                labels,
-                                &mut nested_choice_index,
-                            );
-                            *choice_index += 1;
-                            i += 1;
-                        }
-                        _ => break,
-                    }
-                }
-                // Recurse into the continuation as g-<first_choice_in_block>
-                let continuation = &nodes[i..];
-                if !continuation.is_empty() {
-                    let g_name = format!("g-{}", block_start_ci);
-                    let (child_scope, continuation) =
-                        if let Some(Node::GatherLabel { label, .. }) = continuation.first() {
-                            labels.insert(label.clone(), format!("{}.{}", scope.path, label));
-                            (scope.choice_branch(label), &continuation[1..])
-                        } else {
-                            (scope.choice_branch(&g_name), continuation)
-                        };
-                    let mut child_index = 0;
-                    collect_choice_labels_recursive(
-                        continuation,
-                        &child_scope,
-                        labels,
-                        &mut child_index,
-                    );
-                }
-                return; // choice block consumes the rest via continuation
-            }
-            Node::GatherLabel {
-                label,
-                level,
-                indent,
-            } => {
-                labels.insert(label.clone(), format!("{}.{}", scope.path, label));
-                let sub_scope = scope.choice_branch(label);
-                let mut child_index = 0;
-                if *indent > 0 {
-                    let mut nested_labels = BTreeMap::new();
-                    collect_choice_labels_recursive(
-                        &nodes[i + 1..],
-                        &sub_scope,
-                        &mut nested_labels,
-                        &mut child_index,
-                    );
-                    let nested_prefix = format!("{}.", sub_scope.path);
-                    for (nested_label, path) in nested_labels {
-                        let path = path
-                            .strip_prefix(&nested_prefix)
-                            .and_then(|suffix| {
-                                let first = suffix.split('.').next()?;
-                                first
-                                    .strip_prefix("g-")?
-                                    .parse::<usize>()
-                                    .ok()
-                                    .map(|_| format!("{}.{}", scope.path, suffix))
-                            })
-                            .unwrap_or(path);
-                        labels.insert(nested_label, path);
-                    }
-                    return;
-                }
-                let body_end = nodes[i + 1..]
-                    .iter()
-                    .position(|node| {
-                        matches!(
-                            node,
-                            Node::GatherLabel {
-                                level: next_level,
-                                indent: 0,
-                                ..
-                            } if next_level <= level
-                        )
-                    })
-                    .map_or(nodes.len(), |offset| i + 1 + offset);
-                collect_choice_labels_recursive(
-                    &nodes[i + 1..body_end],
-                    &sub_scope,
-                    labels,
-                    &mut child_index,
-                );
-                i = body_end;
-            }
-            _ => {
-                i += 1;
-            }
-        }
-    }
-}
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 2476ca2..2fed191 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -6,11 +6,12 @@ use serde_json::{Map, Value, json};
 use crate::{
     ast::{
         AssignMode, BinaryOperator, Choice, Condition, Divert, DynamicString, DynamicStringPart,
-        Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory, Sequence,
-        SequenceMode,
+        Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory, Part, Sequence,
+        SequenceMode, visit_nodes,
     },
     error::CompilerError,
     inline::parse_dynamic_string,
+    names::{Content, Names},
 };
 
 include!("context.rs");
@@ -22,3 +23,4 @@ include!("choice.rs");
 include!("expression.rs");
 include!("conditional.rs");
 include!("path.rs");
+include!("resolve.rs");
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 6e48872..8d28a9c 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -6,35 +6,10 @@ fn emit_nodes(
     emit_nodes_with_continuation(nodes, scope, context, None)
 }
 
-/// Recursively replace `old_path` and its descendants with `new_path` in
-/// path-bearing runtime fields within a JSON value tree.
-fn fix_divert_paths(value: &mut Value, old_path: &str, new_path: &str) {
-    match value {
-        Value::Object(map) => {
-            for field in ["->", "x->", "*", "^->", "CNT?"] {
-                if let Some(v) = map.get_mut(field)
-                    && let Some(path) = v.as_str()
-                {
-                    if path == old_path {
-                        *v = Value::String(new_path.to_owned());
-                    } else if let Some(suffix) = path.strip_prefix(old_path)
-                        && suffix.starts_with('.')
-                    {
-                        *v = Value::String(format!("{new_path}{suffix}"));
-                    }
-                }
-            }
-            for v in map.values_mut() {
-                fix_divert_paths(v, old_path, new_path);
-            }
-        }
-        Value::Array(arr) => {
-            for v in arr.iter_mut() {
-                fix_divert_paths(v, old_path, new_path);
-            }
-        }
-        _ => {}
-    }
+/// Count flags of a labelled gather, `None` when it is not counted.
+fn gather_count_flags(label: &str, scope: &EmitScope, context: &EmitContext) -> Option<i32> {
+    let flags = scope.label_count_flags(label, context);
+    (flags > 0).then_some(flags | COUNT_START_ONLY)
 }
 
 fn threaded_loop_label_for_choice_block(continuation: &[Node]) -> Option<(String, bool)> {
@@ -251,14 +226,9 @@ fn emit_nodes_with_continuation(
     context: &EmitContext,
     fallback_continuation: Option<&str>,
 ) -> Result<EmittedContainer, CompilerError> {
-    let mut out = EmittedContainer::default();
+    let mut out = EmittedContainer::at(&scope.path);
     let mut next_choice_index = 0;
 
-    // Pre-scan all choice blocks to collect labels with absolute paths,
-    // so that labels from earlier blocks are available in later blocks.
-    let all_labels = collect_all_choice_labels(nodes, scope);
-    let scope = &scope.with_choice_labels(all_labels);
-
     let mut index = 0;
     while index < nodes.len() {
         match &nodes[index] {
@@ -469,24 +439,14 @@ fn emit_nodes_with_continuation(
                         .filter(|key| key.starts_with("g-"))
                         .cloned()
                         .collect();
-                    for key in &g_keys {
-                        let old_path = format!("{}.{}", sub_scope.path, key);
-                        let new_path = format!("{}.{}", scope.path, key);
-                        for value in sub_container.content.iter_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                        for value in sub_container.named.values_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                    }
                     for key in g_keys {
                         let mut value = sub_container.named.remove(&key).unwrap();
                         let hoisted_path = format!("{}.{}", scope.path, key);
                         replace_self_divert_with_done(&mut value, &hoisted_path);
                         out.insert_named(key, value);
                     }
-                    let gather_path = format!("{}.{}", scope.path, label);
-                    let count_flags = gather_count_flags(&gather_path, context);
+                    let count_flags = gather_count_flags(label, scope, context);
+                    sub_container.label = Some(scope.qualified_label(label));
                     out.push(sub_container.into_json_array(Some(label), count_flags)?);
                     break;
                 }
@@ -557,16 +517,6 @@ fn emit_nodes_with_continuation(
                         .filter(|key| key.starts_with("g-"))
                         .cloned()
                         .collect();
-                    for key in &g_keys {
-                        let old_path = format!("{}.{}", sub_scope.path, key);
-                        let new_path = format!("{}.{}", scope.path, key);
-                        for value in sub_container.content.iter_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                        for value in sub_container.named.values_mut() {
-                            fix_divert_paths(value, &old_path, &new_path);
-                        }
-                    }
                     for key in g_keys {
                         let mut value = sub_container.named.remove(&key).unwrap();
                         let hoisted_path = format!("{}.{}", scope.path, key);
@@ -574,8 +524,8 @@ fn emit_nodes_with_continuation(
                         out.insert_named(key, value);
                     }
 
-                    let gather_path = format!("{}.{}", scope.path, gather_label);
-                    let count_flags = gather_count_flags(&gather_path, context);
+                    let count_flags = gather_count_flags(gather_label, scope, context);
+                    sub_container.label = Some(scope.qualified_label(gather_label));
                     if is_first {
                         out.push(
                             sub_container
diff --git a/compiler/src/emitter/resolve.rs b/compiler/src/emitter/resolve.rs
new file mode 100644
index 0000000..29ba6ba
--- /dev/null
+++ b/compiler/src/emitter/resolve.rs
@@ -0,0 +1,133 @@
+/// The key under which the end of a container names the path its content was emitted for.
+const EMITTED_FOR: &str = "#path";
+/// The key under which the end of a container names the label it is the content of.
+const LABEL: &str = "#label";
+
+/// The fields of compiled content that hold a path.
+const PATH_FIELDS: [&str; 6] = ["->", "f()", "->t->", "*", "CNT?", "^->"];
+
+/// Content is emitted with paths for where its container is expected, and refers to labels by
+/// name. Now that all content is in place, make every path that of the content it means.
+fn resolve_story_paths(root: &mut Value, context: &EmitContext) -> Result<(), CompilerError> {
+    let mut places = Places::default();
+    places.collect(root, "");
+    places.resolve(root);
+    check_paths(root, root, context)
+}
+
+#[derive(Default)]
+struct Places {
+    /// Where the container emitted for a path is.
+    containers: BTreeMap<String, String>,
+    /// Where the content of a label is.
+    labels: BTreeMap<String, String>,
+}
+
+impl Places {
+    fn collect(&mut self, container: &mut Value, path: &str) {
+        let Some((terminator, content)) = container.as_array_mut().and_then(|c| c.split_last_mut())
+        else {
+            return;
+        };
+        for (index, child) in content.iter_mut().enumerate() {
+            let child_path = match embedded_container_name(child) {
+                Some(name) => joined_path(path, name),
+                None => joined_path(path, index),
+            };
+            self.collect(child, &child_path);
+        }
+        if let Value::Object(named) = terminator {
+            if let Some(Value::String(emitted_for)) = named.remove(EMITTED_FOR) {
+                self.containers.insert(emitted_for, path.to_owned());
+            }
+            if let Some(Value::String(label)) = named.remove(LABEL) {
+                self.labels.insert(label, path.to_owned());
+            }
+            for (name, child) in named.iter_mut() {
+                self.collect(child, &joined_path(path, name));
+            }
+            if named.is_empty() {
+                *terminator = Value::Null;
+            }
+        }
+    }
+
+    fn resolve(&self, value: &mut Value) {
+        match value {
+            Value::Array(values) => values.iter_mut().for_each(|value| self.resolve(value)),
+            Value::Object(map) => {
+                let is_variable = map.get("var").and_then(Value::as_bool) == Some(true);
+                for (key, value) in map.iter_mut() {
+                    match value {
+                        Value::String(path)
+                            if !is_variable && PATH_FIELDS.contains(&key.as_str()) =>
+                        {
+                            *path = self.place_of(path);
+                        }
+                        _ => self.resolve(value),
+                    }
+                }
+            }
+            _ => {}
+        }
+    }
+
+    fn place_of(&self, path: &str) -> String {
+        if let Some(label) = path.strip_prefix('@') {
+            return self.labels.get(label).cloned().unwrap_or(label.to_owned());
+        }
+        // The innermost container that holds it tells where it is.
+        let mut prefix = path;
+        loop {
+            if let Some(place) = self.containers.get(prefix) {
+                return format!("{place}{}", &path[prefix.len()..]);
+            }
+            match prefix.rfind('.') {
+                Some(end) => prefix = &prefix[..end],
+                None => return path.to_owned(),
+            }
+        }
+    }
+}
+
+/// Reject a story that refers to content it does not have.
+fn check_paths(value: &Value, root: &Value, context: &EmitContext) -> Result<(), CompilerError> {
+    match value {
+        Value::Array(values) => values
+            .iter()
+            .try_for_each(|value| check_paths(value, root, context)),
+        Value::Object(map) => {
+            let is_variable = map.get("var").and_then(Value::as_bool) == Some(true);
+            for (key, value) in map {
+                match value {
+                    Value::String(path)
+                        if !is_variable && PATH_FIELDS.contains(&key.as_str()) =>
+                    {
+                        if content_at(root, path).is_none() {
+                            return Err(CompilerError::invalid_source(format!(
+                                "Divert target not found: '-> {path}'"
+                            )));
+                        }
+                    }
+                    _ => check_paths(value, root, context)?,
+                }
+            }
+            Ok(())
+        }
+        _ => Ok(()),
+    }
+}
+
+fn content_at<'a>(root: &'a Value, path: &str) -> Option<&'a Value> {
+    path.split('.').try_fold(root, |container, component| {
+        let (terminator, content) = container.as_array()?.split_last()?;
+        match component.parse::<usize>() {
+            Ok(index) => content.get(index),
+            Err(_) => terminator.get(component).or_else(|| {
+                content
+                    .iter()
+                    .find(|child| embedded_container_name(child) == Some(component))
+            }),
+        }
+    })
+}
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 2d00a6c..3922aa7 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -518,13 +518,7 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
     match condition {
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
-        _ => {
-            if let Some(name) = condition.strip_suffix("()") {
-                return Ok(Condition::FunctionCall(name.trim().to_owned()));
-            }
-
-            Ok(Condition::Expression(parse_expression(condition)?))
-        }
+        _ => Ok(Condition::Expression(parse_expression(condition)?)),
     }
 }
 
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..d5dd306 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod names;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/names.rs b/compiler/src/names.rs
new file mode 100644
index 0000000..5933668
--- /dev/null
+++ b/compiler/src/names.rs
@@ -0,0 +1,137 @@
+//! What the names of an Ink story refer to.
+use std::collections::{BTreeMap, BTreeSet};
+
+use crate::ast::{Flow, Node, ParsedStory};
+
+/// Content a divert or a read count can name.
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
+pub enum Content {
+    /// A knot, function or stitch, by its path.
+    Flow(String),
+    /// A labelled choice or gather, by the path of its flow and its name.
+    Label(String),
+}
+
+#[derive(Debug, Default)]
+struct Knot {
+    labels: BTreeSet<String>,
+    stitches: BTreeMap<String, BTreeSet<String>>,
+}
+
+/// The named content of a story.
+#[derive(Debug, Default)]
+pub struct Names {
+    labels: BTreeSet<String>,
+    knots: BTreeMap<String, Knot>,
+}
+
+impl Names {
+    pub fn new(story: &ParsedStory) -> Self {
+        let mut names = Self {
+            labels: labels_of(story.root()),
+            knots: BTreeMap::new(),
+        };
+        for flow in story.flows() {
+            names.add_knot(flow);
+        }
+        names
+    }
+
+    fn add_knot(&mut self, flow: &Flow) {
+        let knot = Knot {
+            labels: labels_of(&flow.nodes),
+            stitches: flow
+                .children
+                .iter()
+                .map(|stitch| (stitch.name.clone(), labels_of(&stitch.nodes)))
+                .collect(),
+        };
+        self.knots.insert(flow.name.clone(), knot);
+    }
+
+    /// What `name` refers to in `flow`, the path of a knot or stitch, or nothing for the content
+    /// before the first knot: the closest content going outwards, where a knot is searched with
+    /// its stitches. A name found in no enclosing flow may be that of the only such content.
+    pub fn resolve(&self, flow: &str, name: &str) -> Option<Content> {
+        self.resolve_enclosing(flow, name)
+            .or_else(|| self.resolve_anywhere(name))
+    }
+
+    pub fn resolve_enclosing(&self, flow: &str, name: &str) -> Option<Content> {
+        let (knot_name, stitch_name) = match flow.split_once('.') {
+            Some((knot, stitch)) => (knot, Some(stitch)),
+            None => (flow, None),
+        };
+        if let Some(knot) = self.knots.get(knot_name) {
+            if let Some(stitch) = stitch_name
+                && knot
+                    .stitches
+                    .get(stitch)
+                    .is_some_and(|labels| labels.contains(name))
+            {
+                return Some(Content::Label(format!("{flow}.{name}")));
+            }
+            if let Some(found) = resolve_in_knot(knot_name, knot, name) {
+                return Some(found);
+            }
+        }
+        let (first, rest) = match name.split_once('.') {
+            Some((first, rest)) => (first, Some(rest)),
+            None => (name, None),
+        };
+        match (self.knots.get(first), rest) {
+            (Some(knot), Some(rest)) => resolve_in_knot(first, knot, rest),
+            (Some(_), None) => Some(Content::Flow(name.to_owned())),
+            (None, _) if self.labels.contains(name) => Some(Content::Label(name.to_owned())),
+            (None, _) => None,
+        }
+    }
+
+    fn resolve_anywhere(&self, name: &str) -> Option<Content> {
+        let mut found = self
+            .knots
+            .iter()
+            .filter_map(|(knot_name, knot)| resolve_in_knot(knot_name, knot, name));
+        let first = found.next()?;
+        found.next().is_none().then_some(first)
+    }
+}
+
+/// Resolve a stitch, a label of the knot or of any of its stitches, or `stitch.label`.
+fn resolve_in_knot(knot_name: &str, knot: &Knot, name: &str) -> Option<Content> {
+    if let Some((stitch, label)) = name.split_once('.') {
+        return knot
+            .stitches
+            .get(stitch)?
+            .contains(label)
+            .then(|| Content::Label(format!("{knot_name}.{name}")));
+    }
+    if knot.stitches.contains_key(name) {
+        return Some(Content::Flow(format!("{knot_name}.{name}")));
+    }
+    if knot.labels.contains(name) {
+        return Some(Content::Label(format!("{knot_name}.{name}")));
+    }
+    knot.stitches
+        .iter()
+        .find(|(_, labels)| labels.contains(name))
+        .map(|(stitch, _)| Content::Label(format!("{knot_name}.{stitch}.{name}")))
+}
+
+fn labels_of(nodes: &[Node]) -> BTreeSet<String> {
+    let mut labels = BTreeSet::new();
+    for node in nodes {
+        node.visit(&mut |part| {
+            if let crate::ast::Part::Node(node) = part {
+                match node {
+                    Node::GatherLabel { label, .. } => {
+                        labels.insert(label.clone());
+                    }
+                    Node::Choice(choice) => labels.extend(choice.label.clone()),
+                    _ => {}
+                }
+            }
+        });
+    }
+    labels
+}
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index c3111d0..9b72bdf 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -134,7 +134,6 @@ impl ValidationContext {
         condition: &Condition,
     ) -> Result<(), CompilerError> {
         match condition {
-            Condition::FunctionCall(name) => self.check_function_call_target(name),
             Condition::Expression(expr) => self.validate_expr_function_calls(expr),
             Condition::Bool(_) => Ok(()),
         }
-- 
2.43.0


From 92561a5a6d8443015fee9630e513e82824c37d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:54 +0000
Subject: [PATCH 41/56] fix: inline logic, strings and tags are parsed as
 nested content and expressions with Ink's precedences

---
 compiler/src/ast.rs                 |  32 +---
 compiler/src/emitter/conditional.rs |   6 +-
 compiler/src/emitter/context.rs     |   9 +
 compiler/src/emitter/expression.rs  | 238 ++++++++-------------------
 compiler/src/emitter/flow.rs        |   6 +-
 compiler/src/emitter/mod.rs         |   7 +-
 compiler/src/emitter/nodes.rs       |  22 +--
 compiler/src/inline.rs              | 247 ++++++++++------------------
 compiler/src/parser/conditional.rs  |  79 ++++-----
 compiler/src/parser/declarations.rs |   8 +-
 compiler/src/parser/expression.rs   | 217 +++++-------------------
 compiler/src/parser/mod.rs          |   5 +-
 12 files changed, 270 insertions(+), 606 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 6472b66..b933bd3 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -32,7 +32,7 @@ pub enum Expression {
     Bool(bool),
     Int(i32),
     Float(f32),
-    Str(String),
+    Str(DynamicString),
     Variable(String),
     DivertTarget(String),
     Negate(Box<Expression>),
@@ -52,16 +52,10 @@ pub enum Expression {
     },
 }
 
-#[derive(Debug, Clone, PartialEq)]
-pub enum DynamicStringPart {
-    Text(String),
-    Expression(Expression),
-    Sequence(Sequence),
-}
-
+/// The content of a string or a tag: text, printed expressions, conditionals and sequences.
 #[derive(Debug, Clone, PartialEq, Default)]
 pub struct DynamicString {
-    pub parts: Vec<DynamicStringPart>,
+    pub nodes: Vec<Node>,
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -252,7 +246,7 @@ impl Node {
                 expression.visit(f);
             }
             Node::Assignment { expression, .. } => expression.visit(f),
-            Node::Tag(tag) => tag.visit(f),
+            Node::Tag(tag) => visit_nodes(&tag.nodes, f),
             Node::Sequence(sequence) => sequence.visit(f),
             Node::Divert(divert) | Node::ThreadDivert(divert) => {
                 visit_expressions(&divert.arguments, f);
@@ -323,11 +317,7 @@ impl Expression {
     pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
         f(Part::Expression(self));
         match self {
-            Expression::Str(text) => {
-                if let Ok(string) = crate::inline::parse_dynamic_string(text) {
-                    string.visit(f);
-                }
-            }
+            Expression::Str(string) => visit_nodes(&string.nodes, f),
             Expression::Negate(inner) | Expression::Not(inner) => inner.visit(f),
             Expression::FunctionCall { args, .. } => visit_expressions(args, f),
             Expression::Binary { left, right, .. } => {
@@ -345,18 +335,6 @@ impl Expression {
     }
 }
 
-impl DynamicString {
-    pub fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
-        for part in &self.parts {
-            match part {
-                DynamicStringPart::Text(_) => {}
-                DynamicStringPart::Expression(expression) => expression.visit(f),
-                DynamicStringPart::Sequence(sequence) => sequence.visit(f),
-            }
-        }
-    }
-}
-
 impl Sequence {
     fn visit(&self, f: &mut dyn FnMut(Part<'_>)) {
         for branch in &self.branches {
diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 5988529..eeeb39f 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -7,7 +7,7 @@ fn emit_condition(
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
         Condition::Expression(expression) => {
-            emit_expression_ctx(expression, out, Some(context), Some(scope))
+            emit_expression_ctx(expression, out, context, scope)?
         }
     }
 
@@ -189,7 +189,7 @@ fn emit_switch_conditional(
 
     // Build value expression tokens: ev, <value_tokens>, /ev
     let mut value_tokens = Vec::new();
-    emit_expression_ctx(value, &mut value_tokens, Some(context), Some(scope));
+    emit_expression_ctx(value, &mut value_tokens, context, scope)?;
     let preamble_len = value_tokens.len() + 2; // ev + value_tokens + /ev
 
     let num_branches = branches.len();
@@ -243,7 +243,7 @@ fn emit_switch_conditional(
         if let Some(case_expr) = case_expr {
             // Case branch: [du, ev, case_tokens, ==, /ev, {->:.^.b, c:true}, {b:[...]}]
             let mut case_tokens = Vec::new();
-            emit_expression_ctx(case_expr, &mut case_tokens, Some(context), Some(scope));
+            emit_expression_ctx(case_expr, &mut case_tokens, context, scope)?;
             let mut branch_array = vec![json!("du"), json!("ev")];
             branch_array.extend(case_tokens);
             branch_array.push(json!("=="));
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index daf15c7..e007e28 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -120,6 +120,8 @@ struct EmitContext {
     count_flags: BTreeMap<String, i32>,
     /// For each function, whether each parameter position is `ref`.
     function_ref_param_positions: BTreeMap<String, Vec<bool>>,
+    /// Number of paths made up so far, see `new_path`.
+    new_paths: std::cell::Cell<usize>,
 }
 
 /// How compiled content refers to named content: flows by their path, labelled content by a
@@ -298,9 +300,16 @@ impl EmitContext {
             external_functions: story.external_functions.iter().cloned().collect(),
             count_flags,
             function_ref_param_positions,
+            new_paths: std::cell::Cell::new(0),
         }
     }
 
+    /// A path for content to be emitted for before it is known where it will be.
+    fn new_path(&self) -> String {
+        self.new_paths.set(self.new_paths.get() + 1);
+        format!("#{}", self.new_paths.get())
+    }
+
     fn count_flags_of(&self, target: &str) -> i32 {
         let flags = self.count_flags.get(target).copied().unwrap_or_default();
         if self.count_all_visits {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 1e659c7..7bab568 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -110,23 +110,23 @@ fn emit_divert(
     divert: &Divert,
     scope: &EmitScope,
     context: &EmitContext,
-) {
+) -> Result<(), CompilerError> {
     let resolved_target = scope.resolve_divert_target(&divert.target, context);
 
     if resolved_target == "END" {
         out.push(json!("end"));
-        return;
+        return Ok(());
     }
 
     if resolved_target == "DONE" {
         out.push(json!("done"));
-        return;
+        return Ok(());
     }
 
     if !divert.arguments.is_empty() {
         out.push(json!("ev"));
         for argument in &divert.arguments {
-            emit_expression_ctx(argument, &mut out.content, Some(context), Some(scope));
+            emit_expression_ctx(argument, &mut out.content, context, scope)?;
         }
         out.push(json!("/ev"));
     }
@@ -136,6 +136,7 @@ fn emit_divert(
     } else {
         out.push(json!({"->": resolved_target}));
     }
+    Ok(())
 }
 
 fn expression_has_function_call(expr: &Expression) -> bool {
@@ -155,143 +156,72 @@ fn emit_assignment(
     mode: &AssignMode,
     out: &mut EmittedContainer,
     context: &EmitContext,
-    scope: Option<&EmitScope>,
-) {
+    scope: &EmitScope,
+) -> Result<(), CompilerError> {
     // When the target variable is a parameter of the enclosing function/knot, it lives
     // in the temp-variable frame, so inklecate uses `{"temp=": name, "re": true}` rather
     // than `{"VAR=": name, "re": true}`.
-    let is_param = scope.is_some_and(|s| s.temp_param_names.contains(variable_name));
+    let reassignment = if scope.temp_param_names.contains(variable_name) {
+        json!({"temp=": variable_name, "re": true})
+    } else {
+        json!({"VAR=": variable_name, "re": true})
+    };
+    let variable = Expression::Variable(variable_name.to_owned());
 
+    out.push(json!("ev"));
     match mode {
         AssignMode::Set => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            emit_expression_ctx(expression, &mut out.content, context, scope)?;
             out.push(json!("/ev"));
-            if is_param {
-                out.push(json!({"temp=": variable_name, "re": true}));
-            } else {
-                out.push(json!({"VAR=": variable_name, "re": true}));
-            }
-            if expression_has_function_call(expression) {
-                out.push(json!("\n"));
-            }
+            out.push(reassignment);
         }
         AssignMode::TempSet => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
+            emit_expression_ctx(expression, &mut out.content, context, scope)?;
             out.push(json!("/ev"));
             out.push(json!({"temp=": variable_name}));
-            if expression_has_function_call(expression) {
-                out.push(json!("\n"));
-            }
         }
-        AssignMode::AddAssign => {
-            out.push(json!("ev"));
-            emit_expression_ctx(
-                &Expression::Variable(variable_name.to_owned()),
-                &mut out.content,
-                Some(context),
-                scope,
-            );
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
-            out.push(json!("+"));
-            if is_param {
-                out.push(json!({"temp=": variable_name, "re": true}));
+        AssignMode::AddAssign | AssignMode::SubtractAssign => {
+            emit_expression_ctx(&variable, &mut out.content, context, scope)?;
+            emit_expression_ctx(expression, &mut out.content, context, scope)?;
+            out.push(json!(if *mode == AssignMode::AddAssign {
+                "+"
             } else {
-                out.push(json!({"VAR=": variable_name, "re": true}));
-            }
-            out.push(json!("/ev"));
-        }
-        AssignMode::SubtractAssign => {
-            out.push(json!("ev"));
-            emit_expression_ctx(
-                &Expression::Variable(variable_name.to_owned()),
-                &mut out.content,
-                Some(context),
-                scope,
-            );
-            emit_expression_ctx(expression, &mut out.content, Some(context), scope);
-            out.push(json!("-"));
-            if is_param {
-                out.push(json!({"temp=": variable_name, "re": true}));
-            } else {
-                out.push(json!({"VAR=": variable_name, "re": true}));
-            }
+                "-"
+            }));
+            out.push(reassignment);
             out.push(json!("/ev"));
         }
     }
+    // What the function prints is a line of its own.
+    if expression_has_function_call(expression) {
+        out.push(json!("\n"));
+    }
+    Ok(())
 }
 
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
-    context: Option<&EmitContext>,
-    scope: Option<&EmitScope>,
-) {
+    context: &EmitContext,
+    scope: &EmitScope,
+) -> Result<(), CompilerError> {
     match expression {
         Expression::Bool(value) => out.push(json!(value)),
         Expression::Int(value) => out.push(json!(value)),
         Expression::Float(value) => out.push(float_to_json(*value)),
-        Expression::Str(value) => {
-            // Parse the string content for {expr} interpolations
-            let dynamic = parse_dynamic_string(value).unwrap_or_else(|_| DynamicString {
-                parts: vec![DynamicStringPart::Text(value.clone())],
-            });
+        Expression::Str(string) => {
             out.push(json!("str"));
-            // If there are no expression parts (plain string or empty), emit as literal text
-            let has_expressions = dynamic.parts.iter().any(|p| {
-                matches!(
-                    p,
-                    DynamicStringPart::Expression(_) | DynamicStringPart::Sequence(_)
-                )
-            });
-            if !has_expressions {
-                // Plain string (possibly empty) — emit as single text token
-                let text: String = dynamic
-                    .parts
-                    .iter()
-                    .filter_map(|p| {
-                        if let DynamicStringPart::Text(t) = p {
-                            Some(t.as_str())
-                        } else {
-                            None
-                        }
-                    })
-                    .collect();
-                out.push(json!(format!("^{text}")));
-            } else {
-                for part in &dynamic.parts {
-                    match part {
-                        DynamicStringPart::Text(t) => {
-                            if !t.is_empty() {
-                                out.push(json!(format!("^{t}")));
-                            }
-                        }
-                        DynamicStringPart::Expression(expr) => {
-                            out.push(json!("ev"));
-                            emit_expression_ctx(expr, out, context, scope);
-                            out.push(json!("out"));
-                            out.push(json!("/ev"));
-                        }
-                        DynamicStringPart::Sequence(_) => {
-                            // Sequences inside string literals not supported here; emit raw
-                            out.push(json!(format!("^{value}")));
-                        }
-                    }
-                }
+            if string.nodes.is_empty() {
+                out.push(json!("^"));
             }
+            emit_dynamic_string(string, out, scope, context)?;
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
-            let (Some(context), Some(scope)) = (context, scope) else {
-                out.push(json!({"VAR?": name}));
-                return;
-            };
             if !scope.temp_names.contains(name)
                 && let Some(value) = context.consts.get(name)
             {
-                emit_expression_ctx(value, out, Some(context), Some(scope));
+                emit_expression_ctx(value, out, context, scope)?;
             } else if !scope.temp_names.contains(name)
                 && let Some(content) = context.names.resolve_enclosing(&scope.flow, name)
             {
@@ -301,11 +231,7 @@ fn emit_expression_ctx(
             }
         }
         Expression::DivertTarget(target) => {
-            let resolved = if let (Some(s), Some(ctx)) = (scope, context) {
-                s.resolve_divert_target(target, ctx)
-            } else {
-                target.clone()
-            };
+            let resolved = scope.resolve_divert_target(target, context);
             out.push(json!({"^->": resolved}));
         }
         Expression::Negate(expr) => {
@@ -315,34 +241,34 @@ fn emit_expression_ctx(
                 Expression::Int(n) => out.push(json!(-n)),
                 Expression::Float(f) => out.push(float_to_json(-f)),
                 other => {
-                    emit_expression_ctx(other, out, context, scope);
+                    emit_expression_ctx(other, out, context, scope)?;
                     out.push(json!("_"));
                 }
             }
         }
         Expression::Not(expr) => {
-            emit_expression_ctx(expr, out, context, scope);
+            emit_expression_ctx(expr, out, context, scope)?;
             out.push(json!("!"));
         }
         Expression::FunctionCall { name, args } => {
             // Check if this is a list-typed call: list_name(n) or list_name()
-            if context.is_some_and(|ctx| ctx.list_names.contains(name)) {
+            if context.list_names.contains(name) {
                 if args.is_empty() {
                     // list() → empty list with origins
                     out.push(json!({"list": {}, "origins": [name]}));
                 } else if args.len() == 1 {
                     // list(n) → "^list_name", n, "listInt"
                     out.push(json!(format!("^{name}")));
-                    emit_expression_ctx(&args[0], out, context, scope);
+                    emit_expression_ctx(&args[0], out, context, scope)?;
                     out.push(json!("listInt"));
                 } else {
                     // Fallback: treat as user function call
                     for arg in args {
-                        emit_expression_ctx(arg, out, context, scope);
+                        emit_expression_ctx(arg, out, context, scope)?;
                     }
                     out.push(json!({"f()": name}));
                 }
-                return;
+                return Ok(());
             }
             // Map built-in Ink function names to runtime tokens
             // Built-ins are emitted as plain strings; user functions as {"f()": name}
@@ -371,18 +297,18 @@ fn emit_expression_ctx(
                 _ => None,
             };
             for (index, arg) in args.iter().enumerate() {
-                emit_call_argument(name, index, arg, out, context, scope);
+                emit_call_argument(name, index, arg, out, context, scope)?;
             }
             if let Some(token) = builtin_token {
                 out.push(json!(token));
-            } else if context.is_some_and(|ctx| ctx.external_functions.contains(name)) {
+            } else if context.external_functions.contains(name) {
                 let ex_args = args.len() as i32;
                 if ex_args > 0 {
                     out.push(json!({"x()": name, "exArgs": ex_args}));
                 } else {
                     out.push(json!({"x()": name}));
                 }
-            } else if context.is_some_and(|ctx| ctx.global_variables.contains(name)) {
+            } else if context.global_variables.contains(name) {
                 // Variable holding a divert target — call it as a variable function
                 out.push(json!({"f()": name, "var": true}));
             } else {
@@ -392,7 +318,7 @@ fn emit_expression_ctx(
         Expression::ListItems(items) => {
             let mut list_map = serde_json::Map::new();
             for bare_name in items {
-                if let Some((qname, val)) = context.and_then(|ctx| ctx.resolve_list_item(bare_name))
+                if let Some((qname, val)) = context.resolve_list_item(bare_name)
                 {
                     list_map.insert(qname, json!(val));
                 } else {
@@ -410,8 +336,8 @@ fn emit_expression_ctx(
             operator,
             right,
         } => {
-            emit_expression_ctx(left, out, context, scope);
-            emit_expression_ctx(right, out, context, scope);
+            emit_expression_ctx(left, out, context, scope)?;
+            emit_expression_ctx(right, out, context, scope)?;
             out.push(json!(match operator {
                 BinaryOperator::Add => "+",
                 BinaryOperator::Subtract => "-",
@@ -432,6 +358,7 @@ fn emit_expression_ctx(
             }));
         }
     }
+    Ok(())
 }
 
 fn emit_call_argument(
@@ -439,11 +366,12 @@ fn emit_call_argument(
     arg_index: usize,
     arg: &Expression,
     out: &mut Vec<Value>,
-    context: Option<&EmitContext>,
-    scope: Option<&EmitScope>,
-) {
+    context: &EmitContext,
+    scope: &EmitScope,
+) -> Result<(), CompilerError> {
     let is_ref_arg = context
-        .and_then(|ctx| ctx.function_ref_param_positions.get(function_name))
+        .function_ref_param_positions
+        .get(function_name)
         .and_then(|positions| positions.get(arg_index))
         .copied()
         .unwrap_or(false);
@@ -451,8 +379,9 @@ fn emit_call_argument(
     if is_ref_arg && let Expression::Variable(name) = arg {
         out.push(json!({"^var": name, "ci": -1}));
     } else {
-        emit_expression_ctx(arg, out, context, scope);
+        emit_expression_ctx(arg, out, context, scope)?;
     }
+    Ok(())
 }
 
 fn emit_dynamic_string(
@@ -461,43 +390,20 @@ fn emit_dynamic_string(
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    emit_dynamic_string_parts(&dynamic.parts, out, scope, context)
-}
-
-fn emit_dynamic_string_parts(
-    parts: &[DynamicStringPart],
-    out: &mut Vec<Value>,
-    scope: &EmitScope,
-    context: &EmitContext,
-) -> Result<(), CompilerError> {
-    if parts.is_empty() {
-        return Ok(());
-    }
-
-    match &parts[0] {
-        DynamicStringPart::Text(text) => {
-            if !text.is_empty() {
-                out.push(json!(format!("^{text}")));
-            }
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Expression(expression) => {
-            out.push(json!("ev"));
-            emit_expression_ctx(expression, out, Some(context), Some(scope));
-            out.push(json!("out"));
-            out.push(json!("/ev"));
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
-        DynamicStringPart::Sequence(sequence) => {
-            out.push(emit_sequence(
-                sequence,
-                scope,
-                out.len() + scope.param_offset,
-                context,
-            )?);
-            emit_dynamic_string_parts(&parts[1..], out, scope, context)
-        }
+    let in_container = |node: &Node| {
+        matches!(
+            node,
+            Node::Conditional { .. } | Node::SwitchConditional { .. } | Node::Sequence(_)
+        )
+    };
+    if !dynamic.nodes.iter().any(in_container) {
+        out.extend(emit_nodes(&dynamic.nodes, scope, context)?.content);
+    } else {
+        // In a container of its own, the paths of its content are the same wherever this is.
+        let content = emit_nodes(&dynamic.nodes, &scope.at_path(context.new_path()), context)?;
+        out.push(content.into_json_array(None, None)?);
     }
+    Ok(())
 }
 
 fn emit_tag(
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 659a1fa..fa14ecf 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -31,9 +31,9 @@ fn emit_global_declarations(
         emit_expression_ctx(
             &global.initial_value,
             &mut container.content,
-            Some(context),
-            Some(scope),
-        );
+            context,
+            scope,
+        )?;
         container.push(json!({ "VAR=": global.name }));
     }
 
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 2fed191..d38b893 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -5,12 +5,11 @@ use serde_json::{Map, Value, json};
 
 use crate::{
     ast::{
-        AssignMode, BinaryOperator, Choice, Condition, Divert, DynamicString, DynamicStringPart,
-        Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory, Part, Sequence,
-        SequenceMode, visit_nodes,
+        AssignMode, BinaryOperator, Choice, Condition, Divert, DynamicString, Expression, Flow,
+        GlobalVariable, ListDeclaration, Node, ParsedStory, Part, Sequence, SequenceMode,
+        visit_nodes,
     },
     error::CompilerError,
-    inline::parse_dynamic_string,
     names::{Content, Names},
 };
 
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 8d28a9c..c5820fb 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -235,7 +235,7 @@ fn emit_nodes_with_continuation(
             Node::Text(text) => out.push(json!(format!("^{text}"))),
             Node::OutputExpression(expression) => {
                 out.push(json!("ev"));
-                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope));
+                emit_expression_ctx(expression, &mut out.content, context, scope)?;
                 out.push(json!("out"));
                 out.push(json!("/ev"));
             }
@@ -256,14 +256,14 @@ fn emit_nodes_with_continuation(
                 )?;
                 continue;
             }
-            Node::Divert(divert) => emit_divert(&mut out, divert, scope, context),
+            Node::Divert(divert) => emit_divert(&mut out, divert, scope, context)?,
             Node::TunnelDivert { target, args, .. } => {
                 let resolved_target = scope.resolve_divert_target(target, context);
                 let is_var = scope.is_variable_divert(target, context);
                 if !args.is_empty() {
                     out.push(json!("ev"));
                     for arg in args {
-                        emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                        emit_expression_ctx(arg, &mut out.content, context, scope)?;
                     }
                     out.push(json!("/ev"));
                 }
@@ -283,7 +283,7 @@ fn emit_nodes_with_continuation(
                 // ->-> target(args): push args + divert target, then ->->
                 out.push(json!("ev"));
                 for arg in args {
-                    emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                    emit_expression_ctx(arg, &mut out.content, context, scope)?;
                 }
                 let resolved = scope.resolve_divert_target(target, context);
                 out.push(json!({"^->": resolved}));
@@ -300,7 +300,7 @@ fn emit_nodes_with_continuation(
                             let resolved = scope.resolve_divert_target(target, context);
                             out.push(json!({"^->": resolved}));
                         } else {
-                            emit_expression_ctx(arg, &mut out.content, Some(context), Some(scope));
+                            emit_expression_ctx(arg, &mut out.content, context, scope)?;
                         }
                     }
                     out.push(json!("/ev"));
@@ -323,7 +323,7 @@ fn emit_nodes_with_continuation(
             }
             Node::ReturnExpr(expression) => {
                 out.push(json!("ev"));
-                emit_expression_ctx(expression, &mut out.content, Some(context), Some(scope));
+                emit_expression_ctx(expression, &mut out.content, context, scope)?;
                 out.push(json!("/ev"));
                 out.push(json!("~ret"));
             }
@@ -359,8 +359,8 @@ fn emit_nodes_with_continuation(
                 mode,
                 &mut out,
                 context,
-                Some(scope),
-            ),
+                scope,
+            )?,
             Node::VoidCall { name, args } => {
                 out.push(json!("ev"));
                 for (index, arg) in args.iter().enumerate() {
@@ -369,9 +369,9 @@ fn emit_nodes_with_continuation(
                         index,
                         arg,
                         &mut out.content,
-                        Some(context),
-                        Some(scope),
-                    );
+                        context,
+                        scope,
+                    )?;
                 }
                 // Only SEED_RANDOM makes sense as a void call (it has a side effect).
                 // All other built-ins return a value and are meaningless as void statements.
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 3922aa7..73dfc61 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,22 @@
 use crate::{
-    ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
+    ast::{Divert, DynamicString, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
 };
 
 use crate::parser::expression::{parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    tokenize(content, false)
+}
+
+/// The content of a string or a tag.
+pub fn parse_dynamic_string(content: &str) -> Result<DynamicString, CompilerError> {
+    Ok(DynamicString {
+        nodes: tokenize(content, true)?,
+    })
+}
+
+fn tokenize(content: &str, in_string: bool) -> Result<Vec<Node>, CompilerError> {
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
@@ -28,19 +39,23 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             continue;
         }
 
-        if ch == '#' {
+        if ch == '#' && !in_string {
             if !text.is_empty() {
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
-            // Multiple tags on one line: "text #tag1 #tag2 #tag3"
-            let tag_str = content[index + 1..].trim_start();
-            for tag in split_hash_tags(tag_str)? {
-                nodes.push(Node::Tag(tag));
-            }
-            break;
+            // A tag ends at the next one or at a divert.
+            let tag = &content[index + 1..];
+            let end = ["#", "->"]
+                .iter()
+                .filter_map(|end| find_top_level(tag, end))
+                .min()
+                .unwrap_or(tag.len());
+            nodes.push(Node::Tag(parse_dynamic_string(tag[..end].trim_start())?));
+            while chars.next_if(|(next, _)| *next < index + 1 + end).is_some() {}
+            continue;
         }
 
-        if ch == '<' && content[index..].starts_with("<>") {
+        if ch == '<' && !in_string && content[index..].starts_with("<>") {
             if !text.is_empty() {
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
@@ -50,7 +65,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
         }
 
         // Thread divert inline: <- target  or  <- target(args)
-        if ch == '<' && content[index..].starts_with("<-") {
+        if ch == '<' && !in_string && content[index..].starts_with("<-") {
             if !text.is_empty() {
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
@@ -80,9 +95,14 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
         }
 
         // Divert or tunnel: -> target  or  -> target ->
-        if ch == '-' && content[index..].starts_with("->") {
+        if ch == '-' && !in_string && content[index..].starts_with("->") {
+            // The text before ends with one space.
             if !text.is_empty() {
-                nodes.push(Node::Text(std::mem::take(&mut text)));
+                let text = std::mem::take(&mut text);
+                nodes.push(Node::Text(format!(
+                    "{} ",
+                    text.trim_end_matches([' ', '\t'])
+                )));
             }
             let divert_str = content[index..].trim();
             let mut divert_nodes = parse_divert_line(divert_str)?;
@@ -100,29 +120,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
 
-            let inline = &content[index..=end];
-            if let Some((condition, branch_text)) = parse_inline_conditional(inline)? {
-                // Split on top-level '|' to get optional false branch.
-                let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                // Use trim_end (not trim) to preserve the leading space that authors
-                // write after ':' — inklecate keeps it as part of the text token.
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
-                let when_false = if branches.len() > 1 {
-                    Some(tokenize_inline_content(branches[1].trim_end())?)
-                } else {
-                    None
-                };
-                nodes.push(Node::Conditional {
-                    condition,
-                    when_true,
-                    when_false,
-                });
-            } else if let Some(sequence) = parse_inline_sequence(&content[index + 1..end])? {
-                nodes.push(Node::Sequence(sequence));
-            } else {
-                let expression = parse_expression(&content[index + 1..end])?;
-                nodes.push(Node::OutputExpression(expression));
-            }
+            nodes.push(parse_inline_logic(&content[index + 1..end])?);
 
             while let Some((peek_index, _)) = chars.peek() {
                 if *peek_index <= end {
@@ -145,47 +143,61 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
     Ok(nodes)
 }
 
-pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
-    let mut parts = Vec::new();
-    let mut text = String::new();
-    let mut chars = input.char_indices().peekable();
-
-    while let Some((index, ch)) = chars.next() {
-        if ch == '{' {
-            let end = find_matching_brace(input, index).ok_or_else(|| {
-                CompilerError::invalid_source("unterminated inline brace expression".to_owned())
-            })?;
-
-            if !text.is_empty() {
-                parts.push(DynamicStringPart::Text(std::mem::take(&mut text)));
-            }
-
-            let inner = &input[index + 1..end];
-            if let Some(sequence) = parse_inline_sequence(inner)? {
-                parts.push(DynamicStringPart::Sequence(sequence));
-            } else {
-                parts.push(DynamicStringPart::Expression(parse_expression(inner)?));
-            }
-
-            while let Some((peek_index, _)) = chars.peek() {
-                if *peek_index <= end {
-                    chars.next();
-                } else {
-                    break;
-                }
+/// What is between braces: a conditional, a sequence or an expression to print.
+fn parse_inline_logic(inner: &str) -> Result<Node, CompilerError> {
+    let inner = inner.trim_start();
+    if !inner.starts_with(['&', '!', '~', '$'])
+        && let Some((condition, branches)) = split_condition(inner)
+    {
+        match parse_condition(condition.trim()) {
+            Ok(condition) => {
+                let (when_true, when_false) = parse_inline_branches(branches)?;
+                return Ok(Node::Conditional {
+                    condition,
+                    when_true,
+                    when_false,
+                });
             }
-
-            continue;
+            // Text with a colon in it.
+            Err(error) if split_top_level_pipe(inner).len() < 2 => return Err(error),
+            Err(_) => {}
         }
-
-        text.push(ch);
     }
+    if let Some(sequence) = parse_inline_sequence(inner)? {
+        return Ok(Node::Sequence(sequence));
+    }
+    Ok(Node::OutputExpression(parse_expression(inner)?))
+}
 
-    if !text.is_empty() {
-        parts.push(DynamicStringPart::Text(text));
+/// The condition and the branches of the content of an inline conditional.
+pub fn split_condition(inner: &str) -> Option<(&str, &str)> {
+    let mut depth = 0usize;
+    let mut in_string = false;
+    for (index, ch) in inner.char_indices() {
+        match ch {
+            '"' => in_string = !in_string,
+            _ if in_string => {}
+            '(' | '{' => depth += 1,
+            ')' | '}' => depth = depth.saturating_sub(1),
+            // `||` may be part of the condition.
+            ':' if depth == 0 => return Some((&inner[..index], &inner[index + 1..])),
+            _ => {}
+        }
     }
+    None
+}
 
-    Ok(DynamicString { parts })
+/// The content for when the condition holds and, after `|`, for when it does not.
+pub fn parse_inline_branches(
+    branches: &str,
+) -> Result<(Vec<Node>, Option<Vec<Node>>), CompilerError> {
+    let branches = split_top_level_pipe(branches);
+    let when_true = tokenize_inline_content(branches[0])?;
+    let when_false = match branches.get(1) {
+        Some(branch) => Some(tokenize_inline_content(branch)?),
+        None => None,
+    };
+    Ok((when_true, when_false))
 }
 
 pub fn parse_divert(input: &str) -> Result<Divert, CompilerError> {
@@ -358,38 +370,6 @@ fn split_top_level_divert_segments(input: &str) -> Vec<&str> {
     segments
 }
 
-pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
-    // Find the last "->" that is not inside braces/parens
-    let bytes = content.as_bytes();
-    let len = content.len();
-    let mut depth = 0usize;
-    let mut arrow_pos: Option<usize> = None;
-
-    let mut i = 0;
-    while i < len {
-        match bytes[i] {
-            b'{' | b'(' => depth += 1,
-            b'}' | b')' => depth = depth.saturating_sub(1),
-            b'-' if depth == 0 && i + 1 < len && bytes[i + 1] == b'>' => {
-                arrow_pos = Some(i);
-                i += 2;
-                continue;
-            }
-            _ => {}
-        }
-        i += 1;
-    }
-
-    let index = arrow_pos?;
-    let (text, rest) = content.split_at(index);
-    let divert = rest.strip_prefix("->")?.trim();
-    if divert.is_empty() {
-        None
-    } else {
-        Some((text, divert))
-    }
-}
-
 /// Find `wanted` outside of braces and escapes.
 pub fn find_top_level(input: &str, wanted: &str) -> Option<usize> {
     let mut depth = 0usize;
@@ -408,37 +388,6 @@ pub fn find_top_level(input: &str, wanted: &str) -> Option<usize> {
     None
 }
 
-/// Split a string like `"style: robot #target: comm_scn #type:TALK"` into individual tag
-/// strings `["style: robot ", "target: comm_scn ", "type:TALK"]`, then parse each one.
-fn split_hash_tags(input: &str) -> Result<Vec<DynamicString>, CompilerError> {
-    let mut tags = Vec::new();
-    let mut rest = input;
-    loop {
-        // Find the next # that is not inside braces
-        let mut depth = 0usize;
-        let mut split_at = None;
-        for (i, ch) in rest.char_indices() {
-            match ch {
-                '{' => depth += 1,
-                '}' => depth = depth.saturating_sub(1),
-                '#' if depth == 0 && i > 0 => {
-                    split_at = Some(i);
-                    break;
-                }
-                _ => {}
-            }
-        }
-        if let Some(idx) = split_at {
-            tags.push(parse_dynamic_string(rest[..idx].trim_start())?);
-            rest = &rest[idx + 1..];
-        } else {
-            tags.push(parse_dynamic_string(rest.trim_start())?);
-            break;
-        }
-    }
-    Ok(tags)
-}
-
 pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
     let mut result = Vec::new();
     let mut depth = 0;
@@ -476,8 +425,12 @@ pub fn split_top_level_pipe(input: &str) -> Vec<&str> {
 
 pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     let mut depth = 0;
-    for (index, ch) in content[start..].char_indices() {
+    let mut chars = content[start..].char_indices();
+    while let Some((index, ch)) = chars.next() {
         match ch {
+            '\\' => {
+                chars.next();
+            }
             '{' => depth += 1,
             '}' => {
                 depth -= 1;
@@ -491,28 +444,6 @@ pub fn find_matching_brace(content: &str, start: usize) -> Option<usize> {
     None
 }
 
-pub fn parse_inline_conditional(
-    content: &str,
-) -> Result<Option<(crate::ast::Condition, &str)>, CompilerError> {
-    let trimmed = content.trim();
-    if !(trimmed.starts_with('{') && trimmed.ends_with('}')) {
-        return Ok(None);
-    }
-
-    let inner = &trimmed[1..trimmed.len() - 1];
-    let (condition, branch) = match inner.split_once(':') {
-        Some(parts) => parts,
-        None => return Ok(None),
-    };
-
-    Ok(Some((
-        parse_condition(condition.trim())?,
-        // Do NOT trim the leading whitespace from the branch text: inklecate preserves
-        // the space that authors write after ':' (e.g. `{cond: text}` → `" text"`).
-        branch,
-    )))
-}
-
 pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, CompilerError> {
     use crate::ast::Condition;
     match condition {
@@ -530,6 +461,8 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
         (SequenceMode::Once, true, r)
     } else if let Some(r) = content.strip_prefix('~') {
         (SequenceMode::Shuffle, true, r)
+    } else if let Some(r) = content.strip_prefix('$') {
+        (SequenceMode::Stopping, true, r)
     } else {
         (SequenceMode::Stopping, false, content)
     };
@@ -546,7 +479,7 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
 
     let mut branches = Vec::new();
     for part in parts {
-        branches.push(tokenize_inline_content(part.trim())?);
+        branches.push(tokenize_inline_content(part)?);
     }
 
     Ok(Some(Sequence { mode, branches }))
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..4138d6f 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -6,7 +6,7 @@ use crate::{
 use super::{
     Line, ParsedStatement,
     expression::parse_expression,
-    inline::{parse_condition, parse_inline_conditional, tokenize_inline_content},
+    inline::{find_matching_brace, parse_condition, split_condition, tokenize_inline_content},
 };
 
 pub fn looks_like_conditional(content: &str) -> bool {
@@ -26,24 +26,10 @@ pub fn parse_conditional(
         line.content.trim()
     };
 
-    if let Some((condition, branch_text)) = parse_inline_conditional(content)? {
+    if find_matching_brace(content, 0).is_some() {
         *line_index += 1;
 
-        // Split the branch text by top-level `|` to get true and false branches
-        use super::inline::split_top_level_pipe;
-        let branches: Vec<&str> = split_top_level_pipe(branch_text);
-        let when_true = tokenize_inline_content(branches[0].trim_end())?;
-        let when_false = if branches.len() > 1 {
-            Some(tokenize_inline_content(branches[1].trim_end())?)
-        } else {
-            None
-        };
-
-        let mut nodes = vec![Node::Conditional {
-            condition,
-            when_true,
-            when_false,
-        }];
+        let mut nodes = tokenize_inline_content(content)?;
 
         if line.had_newline {
             nodes.push(Node::Newline);
@@ -60,7 +46,7 @@ pub fn parse_conditional(
         .trim()
         .strip_prefix('{')
         .ok_or_else(|| CompilerError::invalid_source("expected conditional block".to_owned()))?;
-    let (condition_text, rest_after_colon) = header.split_once(':').ok_or_else(|| {
+    let (condition_text, rest_after_colon) = split_condition(header).ok_or_else(|| {
         CompilerError::invalid_source("conditional block is missing ':'".to_owned())
     })?;
 
@@ -68,16 +54,9 @@ pub fn parse_conditional(
     let first_body_line_index = *line_index + 1;
     let is_switch = rest_after_colon.trim().is_empty() && first_body_line_index < lines.len() && {
         let first_body = lines[first_body_line_index].content.trim();
-        if first_body.starts_with('-')
-            && !first_body.starts_with("->")
-            && !first_body.starts_with("- else:")
-        {
-            // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
-            let branch_content = first_body.trim_start_matches('-').trim_start();
-            branch_content.contains(':') && !branch_content.starts_with("->")
-        } else {
-            false
-        }
+        // Check that the branch looks like "- case_expr: body"
+        branch_header(first_body)
+            .is_some_and(|header| else_branch(header).is_none() && header.contains(':'))
     };
 
     if is_switch {
@@ -164,20 +143,10 @@ pub fn parse_conditional(
             return Ok(nodes);
         }
 
-        if trimmed == "- else:" {
+        // `- else:`, perhaps with content on the same line
+        if let Some(rest) = branch_header(trimmed).and_then(else_branch) {
             in_else = true;
             *line_index += 1;
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
-            continue;
-        }
-
-        // `- else: inline_content` on a single line
-        if let Some(else_content) = trimmed.strip_prefix("- else:") {
-            in_else = true;
-            *line_index += 1;
-            let rest = else_content.trim();
             if !rest.is_empty() {
                 when_false.extend(tokenize_inline_content(rest)?);
             }
@@ -309,10 +278,10 @@ pub fn parse_multi_branch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(header) {
                 current_condition = None;
-                if !rest.trim().is_empty() {
-                    current_nodes.extend(tokenize_inline_content(rest.trim())?);
+                if !rest.is_empty() {
+                    current_nodes.extend(tokenize_inline_content(rest)?);
                     if line.had_newline {
                         current_nodes.push(Node::Newline);
                     }
@@ -353,7 +322,7 @@ pub fn parse_multi_branch_conditional(
                 continue;
             }
 
-            let (condition, rest) = match header.split_once(':') {
+            let (condition, rest) = match split_condition(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
@@ -494,9 +463,8 @@ fn parse_switch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = else_branch(header) {
                 current_case = None; // else branch
-                let rest = rest.trim();
                 if !rest.is_empty() {
                     let inline_line = Line {
                         content: rest,
@@ -514,7 +482,7 @@ fn parse_switch_conditional(
                 continue;
             }
 
-            let (case_text, rest) = match header.split_once(':') {
+            let (case_text, rest) = match split_condition(header) {
                 Some(pair) => pair,
                 None => {
                     // Bare default branch `- content` with no colon
@@ -579,6 +547,23 @@ fn parse_switch_conditional(
     Ok(result)
 }
 
+/// The rest of a line that starts a branch with `-`.
+fn branch_header(trimmed: &str) -> Option<&str> {
+    trimmed
+        .strip_prefix('-')
+        .filter(|rest| !rest.starts_with('>'))
+        .map(str::trim)
+}
+
+/// What follows `else:` in a branch header.
+fn else_branch(header: &str) -> Option<&str> {
+    let rest = header
+        .strip_prefix("else")?
+        .trim_start()
+        .strip_prefix(':')?;
+    Some(rest.trim())
+}
+
 /// If `trimmed` is exactly `}` or starts with `} ` / `}<>` etc., return the tail after `}`.
 /// Returns `None` if the line is not a closing brace line.
 fn closing_brace_tail(trimmed: &str) -> Option<&str> {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 1d9f494..7300b9d 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -8,13 +8,7 @@ fn parse_content_line(
         line.content
     };
 
-    let mut nodes = Vec::new();
-    if let Some((text_part, divert_part)) = split_inline_divert(content) {
-        nodes.extend(tokenize_inline_content(text_part)?);
-        nodes.push(Node::Divert(parse_divert(divert_part)?));
-    } else {
-        nodes.extend(tokenize_inline_content(content)?);
-    }
+    let mut nodes = tokenize_inline_content(content)?;
 
     if line.had_newline {
         // Trim trailing whitespace from the last text node (inklecate behavior)
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index b6f1f65..b303274 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,6 +1,7 @@
 use crate::{
-    ast::{BinaryOperator, Expression},
+    ast::{BinaryOperator, DynamicString, Expression},
     error::CompilerError,
+    inline::parse_dynamic_string,
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -8,7 +9,7 @@ pub enum Token {
     Bool(bool),
     Int(i32),
     Float(f32),
-    Str(String),
+    Str(DynamicString),
     Ident(String),
     DivertTarget(String),
     Plus,
@@ -149,6 +150,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 let mut brace_depth = 0usize;
                 while end < chars.len() {
                     match chars[end] {
+                        '\\' => end += 1,
                         '{' => brace_depth += 1,
                         '}' if brace_depth > 0 => brace_depth -= 1,
                         '"' if brace_depth == 0 => break,
@@ -161,7 +163,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                         "unterminated string literal".to_owned(),
                     ));
                 }
-                tokens.push(Token::Str(chars[index + 1..end].iter().collect()));
+                let content: String = chars[index + 1..end].iter().collect();
+                tokens.push(Token::Str(parse_dynamic_string(&content)?));
                 index = end + 1;
             }
             '0'..='9' => {
@@ -330,135 +333,19 @@ impl ExpressionParser {
     }
 
     fn parse_expression(&mut self) -> Result<Expression, CompilerError> {
-        self.parse_or()
+        self.parse_binary(0)
     }
 
-    fn parse_or(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_and()?;
-
-        while self.match_token(&Token::OrOr) {
-            let right = self.parse_and()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator: BinaryOperator::Or,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_and(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_equality()?;
-
-        while self.match_token(&Token::AndAnd) {
-            let right = self.parse_equality()?;
-            expression = Expression::Binary {
-                left: Box::new(expression),
-                operator: BinaryOperator::And,
-                right: Box::new(right),
-            };
-        }
-
-        Ok(expression)
-    }
-
-    fn is_at_end(&self) -> bool {
-        self.current >= self.tokens.len()
-    }
-
-    fn parse_equality(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_comparison()?;
-
-        loop {
-            if self.match_token(&Token::EqualEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Equal,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::NotEqual) {
-                let right = self.parse_comparison()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::NotEqual,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
-    }
+    /// An expression whose operators bind tighter than `minimum`.
+    fn parse_binary(&mut self, minimum: u8) -> Result<Expression, CompilerError> {
+        let mut expression = self.parse_unary()?;
 
-    fn parse_comparison(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_addition()?;
-
-        loop {
-            if self.match_token(&Token::Greater) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Greater,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::GreaterEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::GreaterEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Less) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Less,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::LessEqual) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::LessEqual,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Has) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Has,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Hasnt) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Hasnt,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Caret) {
-                let right = self.parse_addition()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Intersect,
-                    right: Box::new(right),
-                };
-            } else {
+        while let Some((operator, precedence)) = self.peek().and_then(binary_operator) {
+            if precedence <= minimum {
                 break;
             }
-        }
-
-        Ok(expression)
-    }
-
-    fn parse_addition(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_multiplication()?;
-
-        while let Some(operator) = self.match_additive_operator() {
-            let right = self.parse_multiplication()?;
+            self.current += 1;
+            let right = self.parse_binary(precedence)?;
             expression = Expression::Binary {
                 left: Box::new(expression),
                 operator,
@@ -469,37 +356,8 @@ impl ExpressionParser {
         Ok(expression)
     }
 
-    fn parse_multiplication(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_unary()?;
-
-        loop {
-            if self.match_token(&Token::Star) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Multiply,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Slash) {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Divide,
-                    right: Box::new(right),
-                };
-            } else if self.match_token(&Token::Percent) || self.match_identifier("mod") {
-                let right = self.parse_unary()?;
-                expression = Expression::Binary {
-                    left: Box::new(expression),
-                    operator: BinaryOperator::Modulo,
-                    right: Box::new(right),
-                };
-            } else {
-                break;
-            }
-        }
-
-        Ok(expression)
+    fn is_at_end(&self) -> bool {
+        self.current >= self.tokens.len()
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
@@ -592,16 +450,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_additive_operator(&mut self) -> Option<BinaryOperator> {
-        if self.match_token(&Token::Plus) {
-            Some(BinaryOperator::Add)
-        } else if self.match_token(&Token::Minus) {
-            Some(BinaryOperator::Subtract)
-        } else {
-            None
-        }
-    }
-
     fn match_token(&mut self, token: &Token) -> bool {
         if self.peek() == Some(token) {
             self.current += 1;
@@ -611,15 +459,6 @@ impl ExpressionParser {
         }
     }
 
-    fn match_identifier(&mut self, name: &str) -> bool {
-        if self.peek() == Some(&Token::Ident(name.to_owned())) {
-            self.current += 1;
-            true
-        } else {
-            false
-        }
-    }
-
     fn advance(&mut self) -> Option<Token> {
         let token = self.tokens.get(self.current).cloned();
         if token.is_some() {
@@ -633,6 +472,30 @@ impl ExpressionParser {
     }
 }
 
+/// Ink's binary operators and how tightly they bind.
+fn binary_operator(token: &Token) -> Option<(BinaryOperator, u8)> {
+    Some(match token {
+        Token::AndAnd => (BinaryOperator::And, 1),
+        Token::OrOr => (BinaryOperator::Or, 1),
+        Token::EqualEqual => (BinaryOperator::Equal, 2),
+        Token::NotEqual => (BinaryOperator::NotEqual, 2),
+        Token::Greater => (BinaryOperator::Greater, 2),
+        Token::GreaterEqual => (BinaryOperator::GreaterEqual, 2),
+        Token::Less => (BinaryOperator::Less, 2),
+        Token::LessEqual => (BinaryOperator::LessEqual, 2),
+        Token::Has => (BinaryOperator::Has, 3),
+        Token::Hasnt => (BinaryOperator::Hasnt, 3),
+        Token::Caret => (BinaryOperator::Intersect, 3),
+        Token::Plus => (BinaryOperator::Add, 4),
+        Token::Minus => (BinaryOperator::Subtract, 5),
+        Token::Star => (BinaryOperator::Multiply, 6),
+        Token::Slash => (BinaryOperator::Divide, 7),
+        Token::Percent => (BinaryOperator::Modulo, 8),
+        Token::Ident(name) if name == "mod" => (BinaryOperator::Modulo, 8),
+        _ => return None,
+    })
+}
+
 /// Extract the name string from an expression for use in a list literal.
 fn expr_to_list_item_name(expr: &Expression) -> Result<String, CompilerError> {
     match expr {
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 94421ca..0c8161e 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -15,10 +15,7 @@ use self::{
     expression::{
         is_identifier, parse_bool, parse_call_like, parse_expression, parse_path_identifier,
     },
-    inline::{
-        parse_divert, parse_divert_line, parse_dynamic_string, split_inline_divert,
-        tokenize_inline_content,
-    },
+    inline::{parse_divert, parse_divert_line, parse_dynamic_string, tokenize_inline_content},
     sequence::{looks_like_sequence, parse_sequence},
 };
 
-- 
2.43.0


From 80bbfc548c58910ab357207d0ecd19f1890a633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 42/56] fix: LIST items can have negative values

---
 compiler/src/ast.rs                 | 2 +-
 compiler/src/emitter/context.rs     | 6 +++---
 compiler/src/parser/declarations.rs | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index b933bd3..ed30b45 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -78,7 +78,7 @@ pub struct GlobalVariable {
 pub struct ListDeclaration {
     pub name: String,
     /// All items in order: (item_name, value_number, initially_selected)
-    pub items: Vec<(String, u32, bool)>,
+    pub items: Vec<(String, i32, bool)>,
 }
 
 #[derive(Debug, Clone, PartialEq)]
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index e007e28..1a4c480 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -113,7 +113,7 @@ struct EmitContext {
     /// Set of LIST declaration names (to detect list-typed function calls)
     list_names: BTreeSet<String>,
     /// For each list name, a map from bare item name → (qualified name, value)
-    list_items: std::collections::BTreeMap<String, Vec<(String, u32)>>,
+    list_items: std::collections::BTreeMap<String, Vec<(String, i32)>>,
     /// Set of EXTERNAL function declaration names
     external_functions: BTreeSet<String>,
     /// Count flags required by explicit references to content, by `target_path`.
@@ -245,7 +245,7 @@ impl EmitContext {
     fn new(story: &ParsedStory, count_all_visits: bool) -> Self {
         let mut list_items = std::collections::BTreeMap::new();
         for list_decl in story.list_declarations() {
-            let items: Vec<(String, u32)> = list_decl
+            let items: Vec<(String, i32)> = list_decl
                 .items
                 .iter()
                 .map(|(name, value, _)| (format!("{}.{}", list_decl.name, name), *value))
@@ -321,7 +321,7 @@ impl EmitContext {
 
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
-    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
+    fn resolve_list_item(&self, bare_name: &str) -> Option<(String, i32)> {
         // If already qualified (contains '.'), use as-is
         if bare_name.contains('.') {
             for items in self.list_items.values() {
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 7300b9d..eff4384 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -43,7 +43,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut value: i32 = 1;
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
@@ -59,7 +59,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         // Check for explicit value assignment: `name = number`
         if let Some((item_name, item_value)) = inner.split_once('=') {
             let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
+            let explicit_value: i32 = item_value.trim().parse().map_err(|_| {
                 CompilerError::invalid_source(format!(
                     "invalid LIST item value: '{}'",
                     item_value.trim()
@@ -70,7 +70,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
         } else {
             items.push((inner.to_owned(), value, selected));
         }
-        value += 1;
+        value = value.wrapping_add(1);
     }
 
     Ok(ListDeclaration { name, items })
-- 
2.43.0


From bae0937730af4ff4852d3d0509d4eaea76b05f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:06 +0000
Subject: [PATCH 43/56] fix: emptied lists and empty ranges remember the lists
 of the items they had

---
 runtime/src/ink_list.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index 49e7558..c3d18b4 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,7 +59,7 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
@@ -215,7 +215,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
-- 
2.43.0


From 4cb0b64327a5b8cc5943b6c498893cdb5e62655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 44/56] fix: parenthesised variables and unknown items are not
 made into list items

---
 compiler/src/emitter/expression.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 7bab568..be54780 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -316,14 +316,22 @@ fn emit_expression_ctx(
             }
         }
         Expression::ListItems(items) => {
+            // A single name in parentheses may as well be a variable's.
+            if let [name] = items.as_slice()
+                && context.resolve_list_item(name).is_none()
+            {
+                let variable = Expression::Variable(name.clone());
+                return emit_expression_ctx(&variable, out, context, scope);
+            }
             let mut list_map = serde_json::Map::new();
             for bare_name in items {
                 if let Some((qname, val)) = context.resolve_list_item(bare_name)
                 {
                     list_map.insert(qname, json!(val));
                 } else {
-                    // Fallback: use bare name with value 0 (unknown list)
-                    list_map.insert(bare_name.clone(), json!(0));
+                    return Err(CompilerError::invalid_source(format!(
+                        "unknown list item '{bare_name}'"
+                    )));
                 }
             }
             out.push(json!({"list": list_map}));
-- 
2.43.0


From 22d44cb4d57501374ced2e541dd0e3e814b43c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 45/56] fix: rinklecate's JSON output escapes control
 characters, and the paths and messages of failed diverts

---
 rinklecate/src/player.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..249dc61 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -140,8 +140,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                         if opts.json_output {
                             println!(
                                 "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
+                                escape_json_string(&path),
+                                escape_json_string(&e.to_string())
                             );
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
@@ -271,6 +271,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From f62c5c14fbd69b9515a2e86625b96b9eeaaa0935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 46/56] fix: rinklecate prints tags and its end remark on a
 line of their own in plain mode

---
 rinklecate/src/player.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 249dc61..b62b4c1 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -181,6 +181,9 @@ fn evaluate_story(
     err_handler: &Rc<RefCell<StoryErrors>>,
     opts: &Options,
 ) -> anyhow::Result<()> {
+    // Whether the text printed so far ends in the middle of a line.
+    let mut open_line = false;
+
     while story.can_continue() {
         let text = story.cont()?;
         let tags = story.get_current_tags()?;
@@ -189,9 +192,17 @@ fn evaluate_story(
             println!("{{\"text\": \"{}\"}}", escape_json_string(&text));
         } else {
             print!("{text}");
+            if !text.is_empty() {
+                open_line = !text.ends_with('\n');
+            }
         }
 
         if !tags.is_empty() {
+            if open_line {
+                println!();
+                open_line = false;
+            }
+
             if opts.json_output {
                 let tag_strings: Vec<String> = tags
                     .iter()
@@ -207,6 +218,10 @@ fn evaluate_story(
         flush_messages(err_handler, opts);
     }
 
+    if open_line {
+        println!();
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From cebfc280b511a630ca7bbbcf95622066751cbf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 47/56] fix: the compiler reads names and calls by character,
 and rejects calls without ')'

---
 compiler/src/inline.rs            | 59 +++++-------------------------
 compiler/src/parser/expression.rs | 61 +++++++++++++++++--------------
 2 files changed, 43 insertions(+), 77 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 73dfc61..42f667f 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -3,7 +3,7 @@ use crate::{
     error::CompilerError,
 };
 
-use crate::parser::expression::{parse_call_like, parse_expression};
+use crate::parser::expression::{is_path_char, parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
     tokenize(content, false)
@@ -76,7 +76,7 @@ fn tokenize(content: &str, in_string: bool) -> Result<Vec<Node>, CompilerError>
                 thread_divert_call_end(trimmed_after)
             } else {
                 trimmed_after
-                    .find(|c: char| !matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.'))
+                    .find(|c: char| !is_path_char(c))
                     .unwrap_or(trimmed_after.len())
             };
             let divert_str = &trimmed_after[..call_len];
@@ -220,31 +220,14 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         return Ok(vec![Node::TunnelReturn]);
     }
 
-    // `->-> target (args)`: tunnel return, continuing to `target` with args
-    // e.g. `->-> elsewhere (8)` emits args + {"^->": target} then `->->`
-    // Only applies when explicit args are provided (parenthesized).
-    // `->-> escape` with no parens falls through to the regular path.
+    // `->-> target` or `->-> target (args)`: tunnel return, continuing to `target`.
     if let Some(rest) = trimmed.strip_prefix("->->") {
         let rest = rest.trim();
-        if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
-            // Parse `target` or `target(args)` from `rest`
-            let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
-                let tname = rest[..open].trim().to_owned();
-                let args_str = &rest[open + 1..close];
-                let mut args = Vec::new();
-                for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                    if !arg_str.trim().is_empty() {
-                        args.push(parse_expression(arg_str.trim())?);
-                    }
-                }
-                (tname, args)
-            } else {
-                (rest.to_owned(), Vec::new())
-            };
+        if !rest.is_empty() && !rest.starts_with("->") {
+            let Divert { target, arguments } = parse_divert(rest)?;
             return Ok(vec![Node::TunnelOnwardsWithTarget {
-                target: target_name,
-                args,
+                target,
+                args: arguments,
             }]);
         }
     }
@@ -257,22 +240,9 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         ));
     }
 
-    // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
-        if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
-            let target = segment[..open].trim().to_owned();
-            let args_str = &segment[open + 1..close];
-            let mut args = Vec::new();
-            for arg_str in crate::parser::expression::split_top_level_commas(args_str) {
-                if !arg_str.trim().is_empty() {
-                    args.push(parse_expression(arg_str.trim())?);
-                }
-            }
-            Ok((target, args))
-        } else {
-            Ok((segment.to_string(), Vec::new()))
-        }
+        let Divert { target, arguments } = parse_divert(segment)?;
+        Ok((target, arguments))
     }
 
     // `-> tunnel2 ->->`: tunnel to `tunnel2` then return from current tunnel
@@ -316,16 +286,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
                 args,
             });
         }
-        let last = segments[segments.len() - 1];
-        let (target_name, args) = parse_segment(last)?;
-        if args.is_empty() {
-            nodes.push(Node::Divert(parse_divert(last)?));
-        } else {
-            nodes.push(Node::Divert(Divert {
-                target: target_name,
-                arguments: args,
-            }));
-        }
+        nodes.push(Node::Divert(parse_divert(segments[segments.len() - 1])?));
         return Ok(nodes);
     }
 
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index b303274..bb99f88 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -50,17 +50,20 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
-                CompilerError::invalid_source("expected divert target after '->'".to_owned())
-            })?;
-            tokens.push(Token::DivertTarget(parsed.to_owned()));
-            // advance past the arrow and the target identifier
             index += 2; // skip "->"
             while index < chars.len() && chars[index].is_whitespace() {
                 index += 1;
             }
-            index += parsed.len(); // skip the target name
+            let start = index;
+            while index < chars.len() && is_path_char(chars[index]) {
+                index += 1;
+            }
+            if index == start {
+                return Err(CompilerError::invalid_source(
+                    "expected divert target after '->'".to_owned(),
+                ));
+            }
+            tokens.push(Token::DivertTarget(chars[start..index].iter().collect()));
             continue;
         }
 
@@ -172,41 +175,37 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 let mut saw_identifier_tail = false;
                 let mut saw_dot = false;
                 index += 1;
-                while index < chars.len()
-                    && matches!(chars[index], 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.')
-                {
-                    if matches!(chars[index], 'a'..='z' | 'A'..='Z' | '_') {
-                        saw_identifier_tail = true;
-                    } else if chars[index] == '.' {
+                while index < chars.len() && is_path_char(chars[index]) {
+                    if chars[index] == '.' {
                         saw_dot = true;
+                    } else if !chars[index].is_ascii_digit() {
+                        saw_identifier_tail = true;
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
                 }
             }
-            'a'..='z' | 'A'..='Z' | '_' => {
+            _ if is_path_char(ch) && ch != '.' => {
                 let start = index;
                 index += 1;
-                while index < chars.len()
-                    && matches!(chars[index], 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.')
-                {
+                while index < chars.len() && is_path_char(chars[index]) {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -214,7 +213,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -257,13 +256,18 @@ pub fn parse_bool(value: &str) -> Result<bool, CompilerError> {
 pub fn parse_path_identifier(text: &str) -> Option<&str> {
     let end = text
         .char_indices()
-        .find(|(_, ch)| !matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.'))
+        .find(|(_, ch)| !is_path_char(*ch))
         .map(|(index, _)| index)
         .unwrap_or(text.len());
 
     if end == 0 { None } else { Some(&text[..end]) }
 }
 
+/// What the names of content, with the names of what they are in, are made of.
+pub fn is_path_char(ch: char) -> bool {
+    ch.is_alphanumeric() || ch == '_' || ch == '.'
+}
+
 /// Names are made of letters, digits and underscores, and are not numbers.
 pub fn is_identifier(text: &str) -> bool {
     text.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
@@ -285,7 +289,9 @@ pub fn parse_call_like(text: &str) -> Result<Option<(String, Vec<Expression>)>,
         ));
     }
 
-    let name = parse_path_identifier(trimmed[..open].trim())
+    let name = trimmed[..open].trim();
+    let name = parse_path_identifier(name)
+        .filter(|path| path.len() == name.len())
         .ok_or_else(|| CompilerError::invalid_source("invalid divert target".to_owned()))?
         .to_owned();
     let mut arguments = Vec::new();
@@ -303,9 +309,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
-- 
2.43.0


From b443a5502f23734592404029961ad548388a21cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 48/56] fix: the compiler rejects unknown variables, functions
 and divert targets

---
 compiler/src/emitter/context.rs    |  33 ++++++-
 compiler/src/emitter/expression.rs | 150 ++++++++++++++++-------------
 compiler/src/emitter/nodes.rs      |  55 +++--------
 compiler/src/validator/context.rs  |   7 ++
 compiler/src/validator/diverts.rs  |   7 +-
 5 files changed, 140 insertions(+), 112 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 1a4c480..09aac5e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -224,6 +224,12 @@ fn collect_count_flags(
                 add(target, COUNT_VISITS | COUNT_TURNS);
             }
             Expression::Variable(name) => add(name, COUNT_VISITS),
+            // A single name in parentheses may as well not be a list item's.
+            Expression::ListItems(items) => {
+                if let [name] = items.as_slice() {
+                    add(name, COUNT_VISITS);
+                }
+            }
             _ => {}
         }
     });
@@ -422,14 +428,33 @@ impl EmitScope {
         context.count_flags_of(&label_reference(&self.qualified_label(label)))
     }
 
-    fn resolve_divert_target(&self, target: &str, context: &EmitContext) -> String {
+    fn resolve_divert_target(
+        &self,
+        target: &str,
+        context: &EmitContext,
+    ) -> Result<String, CompilerError> {
         if target == "END" || target == "DONE" || self.is_variable_divert(target, context) {
-            return target.to_owned();
+            return Ok(target.to_owned());
         }
         match context.names.resolve(&self.flow, target) {
-            Some(content) => target_path(&content),
-            None => target.to_owned(),
+            Some(content) => Ok(target_path(&content)),
+            None => Err(CompilerError::invalid_source(format!(
+                "Divert target not found: '-> {target}'"
+            ))),
+        }
+    }
+
+    /// Error unless `name` is that of a variable.
+    fn check_variable(&self, name: &str, context: &EmitContext) -> Result<(), CompilerError> {
+        if self.temp_names.contains(name)
+            || context.global_variables.contains(name)
+            || context.list_names.contains(name)
+        {
+            return Ok(());
         }
+        Err(CompilerError::invalid_source(format!(
+            "Unresolved variable: {name}"
+        )))
     }
 
     fn is_variable_divert(&self, target: &str, context: &EmitContext) -> bool {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index be54780..6a286f6 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -111,7 +111,7 @@ fn emit_divert(
     scope: &EmitScope,
     context: &EmitContext,
 ) -> Result<(), CompilerError> {
-    let resolved_target = scope.resolve_divert_target(&divert.target, context);
+    let resolved_target = scope.resolve_divert_target(&divert.target, context)?;
 
     if resolved_target == "END" {
         out.push(json!("end"));
@@ -166,6 +166,7 @@ fn emit_assignment(
     } else {
         json!({"VAR=": variable_name, "re": true})
     };
+    scope.check_variable(variable_name, context)?;
     let variable = Expression::Variable(variable_name.to_owned());
 
     out.push(json!("ev"));
@@ -226,12 +227,15 @@ fn emit_expression_ctx(
                 && let Some(content) = context.names.resolve_enclosing(&scope.flow, name)
             {
                 out.push(json!({"CNT?": target_path(&content)}));
+            } else if context.resolve_list_item(name).is_some() {
+                out.push(json!({"VAR?": name}));
             } else {
+                scope.check_variable(name, context)?;
                 out.push(json!({"VAR?": name}));
             }
         }
         Expression::DivertTarget(target) => {
-            let resolved = scope.resolve_divert_target(target, context);
+            let resolved = scope.resolve_divert_target(target, context)?;
             out.push(json!({"^->": resolved}));
         }
         Expression::Negate(expr) => {
@@ -250,71 +254,7 @@ fn emit_expression_ctx(
             emit_expression_ctx(expr, out, context, scope)?;
             out.push(json!("!"));
         }
-        Expression::FunctionCall { name, args } => {
-            // Check if this is a list-typed call: list_name(n) or list_name()
-            if context.list_names.contains(name) {
-                if args.is_empty() {
-                    // list() → empty list with origins
-                    out.push(json!({"list": {}, "origins": [name]}));
-                } else if args.len() == 1 {
-                    // list(n) → "^list_name", n, "listInt"
-                    out.push(json!(format!("^{name}")));
-                    emit_expression_ctx(&args[0], out, context, scope)?;
-                    out.push(json!("listInt"));
-                } else {
-                    // Fallback: treat as user function call
-                    for arg in args {
-                        emit_expression_ctx(arg, out, context, scope)?;
-                    }
-                    out.push(json!({"f()": name}));
-                }
-                return Ok(());
-            }
-            // Map built-in Ink function names to runtime tokens
-            // Built-ins are emitted as plain strings; user functions as {"f()": name}
-            let builtin_token: Option<&str> = match name.as_str() {
-                "RANDOM" => Some("rnd"),
-                "SEED_RANDOM" => Some("srnd"),
-                "POW" => Some("POW"),
-                "FLOOR" => Some("FLOOR"),
-                "CEILING" => Some("CEILING"),
-                "INT" => Some("INT"),
-                "FLOAT" => Some("FLOAT"),
-                "MIN" => Some("MIN"),
-                "MAX" => Some("MAX"),
-                "READ_COUNT" => Some("readc"),
-                "TURNS_SINCE" => Some("turns"),
-                "CHOICE_COUNT" => Some("choiceCnt"),
-                "TURNS" => Some("turn"),
-                "LIST_VALUE" => Some("LIST_VALUE"),
-                "LIST_ALL" => Some("LIST_ALL"),
-                "LIST_INVERT" => Some("LIST_INVERT"),
-                "LIST_COUNT" => Some("LIST_COUNT"),
-                "LIST_MIN" => Some("LIST_MIN"),
-                "LIST_MAX" => Some("LIST_MAX"),
-                "LIST_RANGE" => Some("range"),
-                "LIST_RANDOM" => Some("lrnd"),
-                _ => None,
-            };
-            for (index, arg) in args.iter().enumerate() {
-                emit_call_argument(name, index, arg, out, context, scope)?;
-            }
-            if let Some(token) = builtin_token {
-                out.push(json!(token));
-            } else if context.external_functions.contains(name) {
-                let ex_args = args.len() as i32;
-                if ex_args > 0 {
-                    out.push(json!({"x()": name, "exArgs": ex_args}));
-                } else {
-                    out.push(json!({"x()": name}));
-                }
-            } else if context.global_variables.contains(name) {
-                // Variable holding a divert target — call it as a variable function
-                out.push(json!({"f()": name, "var": true}));
-            } else {
-                out.push(json!({"f()": name}));
-            }
-        }
+        Expression::FunctionCall { name, args } => emit_call(name, args, out, context, scope)?,
         Expression::ListItems(items) => {
             // A single name in parentheses may as well be a variable's.
             if let [name] = items.as_slice()
@@ -369,6 +309,81 @@ fn emit_expression_ctx(
     Ok(())
 }
 
+fn emit_call(
+    name: &str,
+    args: &[Expression],
+    out: &mut Vec<Value>,
+    context: &EmitContext,
+    scope: &EmitScope,
+) -> Result<(), CompilerError> {
+    // Check if this is a list-typed call: list_name(n) or list_name()
+    if context.list_names.contains(name) {
+        if args.is_empty() {
+            // list() → empty list with origins
+            out.push(json!({"list": {}, "origins": [name]}));
+        } else if args.len() == 1 {
+            // list(n) → "^list_name", n, "listInt"
+            out.push(json!(format!("^{name}")));
+            emit_expression_ctx(&args[0], out, context, scope)?;
+            out.push(json!("listInt"));
+        } else {
+            return Err(CompilerError::invalid_source(format!(
+                "'{name}' makes a list of at most one number"
+            )));
+        }
+        return Ok(());
+    }
+    // Map built-in Ink function names to runtime tokens
+    // Built-ins are emitted as plain strings; user functions as {"f()": name}
+    let builtin_token: Option<&str> = match name {
+        "RANDOM" => Some("rnd"),
+        "SEED_RANDOM" => Some("srnd"),
+        "POW" => Some("POW"),
+        "FLOOR" => Some("FLOOR"),
+        "CEILING" => Some("CEILING"),
+        "INT" => Some("INT"),
+        "FLOAT" => Some("FLOAT"),
+        "MIN" => Some("MIN"),
+        "MAX" => Some("MAX"),
+        "READ_COUNT" => Some("readc"),
+        "TURNS_SINCE" => Some("turns"),
+        "CHOICE_COUNT" => Some("choiceCnt"),
+        "TURNS" => Some("turn"),
+        "LIST_VALUE" => Some("LIST_VALUE"),
+        "LIST_ALL" => Some("LIST_ALL"),
+        "LIST_INVERT" => Some("LIST_INVERT"),
+        "LIST_COUNT" => Some("LIST_COUNT"),
+        "LIST_MIN" => Some("LIST_MIN"),
+        "LIST_MAX" => Some("LIST_MAX"),
+        "LIST_RANGE" => Some("range"),
+        "LIST_RANDOM" => Some("lrnd"),
+        _ => None,
+    };
+    for (index, arg) in args.iter().enumerate() {
+        emit_call_argument(name, index, arg, out, context, scope)?;
+    }
+    if let Some(token) = builtin_token {
+        out.push(json!(token));
+    } else if context.external_functions.contains(name) {
+        let ex_args = args.len() as i32;
+        if ex_args > 0 {
+            out.push(json!({"x()": name, "exArgs": ex_args}));
+        } else {
+            out.push(json!({"x()": name}));
+        }
+    } else if scope.temp_names.contains(name) || context.global_variables.contains(name) {
+        // Variable holding a divert target — call it as a variable function
+        out.push(json!({"f()": name, "var": true}));
+    } else if let Some(Content::Flow(path)) = context.names.resolve_enclosing("", name) {
+        out.push(json!({"f()": path}));
+    } else {
+        return Err(CompilerError::invalid_source(format!(
+            "Function not found: '{name}'"
+        )));
+    }
+    Ok(())
+}
+
 fn emit_call_argument(
     function_name: &str,
     arg_index: usize,
@@ -385,6 +400,7 @@ fn emit_call_argument(
         .unwrap_or(false);
 
     if is_ref_arg && let Expression::Variable(name) = arg {
+        scope.check_variable(name, context)?;
         out.push(json!({"^var": name, "ci": -1}));
     } else {
         emit_expression_ctx(arg, out, context, scope)?;
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index c5820fb..3ea1c06 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -258,7 +258,7 @@ fn emit_nodes_with_continuation(
             }
             Node::Divert(divert) => emit_divert(&mut out, divert, scope, context)?,
             Node::TunnelDivert { target, args, .. } => {
-                let resolved_target = scope.resolve_divert_target(target, context);
+                let resolved_target = scope.resolve_divert_target(target, context)?;
                 let is_var = scope.is_variable_divert(target, context);
                 if !args.is_empty() {
                     out.push(json!("ev"));
@@ -285,8 +285,12 @@ fn emit_nodes_with_continuation(
                 for arg in args {
                     emit_expression_ctx(arg, &mut out.content, context, scope)?;
                 }
-                let resolved = scope.resolve_divert_target(target, context);
-                out.push(json!({"^->": resolved}));
+                let resolved = scope.resolve_divert_target(target, context)?;
+                if scope.is_variable_divert(target, context) {
+                    out.push(json!({"VAR?": resolved}));
+                } else {
+                    out.push(json!({"^->": resolved}));
+                }
                 out.push(json!("/ev"));
                 out.push(json!("->->"));
             }
@@ -295,19 +299,17 @@ fn emit_nodes_with_continuation(
                 if !divert.arguments.is_empty() {
                     out.push(json!("ev"));
                     for arg in &divert.arguments {
-                        // Resolve DivertTarget arguments with full scope path
-                        if let Expression::DivertTarget(target) = arg {
-                            let resolved = scope.resolve_divert_target(target, context);
-                            out.push(json!({"^->": resolved}));
-                        } else {
-                            emit_expression_ctx(arg, &mut out.content, context, scope)?;
-                        }
+                        emit_expression_ctx(arg, &mut out.content, context, scope)?;
                     }
                     out.push(json!("/ev"));
                 }
                 out.push(json!("thread"));
-                let resolved = scope.resolve_divert_target(&divert.target, context);
-                out.push(json!({"->": resolved}));
+                let resolved = scope.resolve_divert_target(&divert.target, context)?;
+                if scope.is_variable_divert(&divert.target, context) {
+                    out.push(json!({"->": resolved, "var": true}));
+                } else {
+                    out.push(json!({"->": resolved}));
+                }
             }
             Node::ReturnBool(value) => {
                 out.push(json!("ev"));
@@ -363,34 +365,7 @@ fn emit_nodes_with_continuation(
             )?,
             Node::VoidCall { name, args } => {
                 out.push(json!("ev"));
-                for (index, arg) in args.iter().enumerate() {
-                    emit_call_argument(
-                        name,
-                        index,
-                        arg,
-                        &mut out.content,
-                        context,
-                        scope,
-                    )?;
-                }
-                // Only SEED_RANDOM makes sense as a void call (it has a side effect).
-                // All other built-ins return a value and are meaningless as void statements.
-                let builtin_token: Option<&str> = match name.as_str() {
-                    "SEED_RANDOM" => Some("srnd"),
-                    _ => None,
-                };
-                if let Some(token) = builtin_token {
-                    out.push(json!(token));
-                } else if context.external_functions.contains(name) {
-                    let ex_args = args.len() as i32;
-                    if ex_args > 0 {
-                        out.push(json!({"x()": name, "exArgs": ex_args}));
-                    } else {
-                        out.push(json!({"x()": name}));
-                    }
-                } else {
-                    out.push(json!({"f()": name}));
-                }
+                emit_call(name, args, &mut out.content, context, scope)?;
                 out.push(json!("pop"));
                 out.push(json!("/ev"));
                 out.push(json!("\n"));
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index e7dd7f1..d76c4f6 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -19,6 +19,8 @@ struct ValidationContext {
     external_functions: BTreeSet<String>,
     /// Global VAR names.
     global_var_names: BTreeSet<String>,
+    /// LIST names, which make a value of a list from a number.
+    list_names: BTreeSet<String>,
     /// CONST names.
     #[allow(dead_code)]
     const_names: BTreeSet<String>,
@@ -79,6 +81,11 @@ impl ValidationContext {
             flow_names,
             function_names,
             external_functions: story.external_functions.iter().cloned().collect(),
+            list_names: story
+                .list_declarations()
+                .iter()
+                .map(|list| list.name.clone())
+                .collect(),
             global_var_names,
             const_names,
         }
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index 9b72bdf..5c322f2 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -173,7 +173,12 @@ impl ValidationContext {
             )));
         }
 
-        Ok(())
+        if self.valid_targets.contains(name) || self.list_names.contains(name) {
+            return Ok(());
+        }
+        Err(CompilerError::invalid_source(format!(
+            "Function not found: '{name}'"
+        )))
     }
 
     fn validate_nodes_variable_divert_targets(
-- 
2.43.0


From dd471a587189b5f6b90d35a68e1037867fe09eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 49/56] fix: the compiler rejects variables whose initial value
 is not constant or whose name is none

---
 compiler/src/emitter/expression.rs  |  5 +++
 compiler/src/emitter/mod.rs         |  1 +
 compiler/src/validator/context.rs   |  1 +
 compiler/src/validator/structure.rs | 58 +++++++++++++++++++++++++++++
 4 files changed, 65 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a286f6..da67adf 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -166,6 +166,11 @@ fn emit_assignment(
     } else {
         json!({"VAR=": variable_name, "re": true})
     };
+    if !is_identifier(variable_name) {
+        return Err(CompilerError::invalid_source(format!(
+            "'{variable_name}' is not a valid name for a variable."
+        )));
+    }
     scope.check_variable(variable_name, context)?;
     let variable = Expression::Variable(variable_name.to_owned());
 
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index d38b893..26bce0c 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,7 @@ use crate::{
     },
     error::CompilerError,
     names::{Content, Names},
+    parser::expression::is_identifier,
 };
 
 include!("context.rs");
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index d76c4f6..17f5735 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -93,6 +93,7 @@ impl ValidationContext {
 
     fn validate_story(&self, story: &ParsedStory) -> Result<(), CompilerError> {
         self.validate_flow_names(story.flows())?;
+        self.validate_globals(story)?;
 
         // Validate root nodes
         let empty_params = BTreeSet::new();
diff --git a/compiler/src/validator/structure.rs b/compiler/src/validator/structure.rs
index 32134fa..0031fd8 100644
--- a/compiler/src/validator/structure.rs
+++ b/compiler/src/validator/structure.rs
@@ -1,4 +1,39 @@
 impl ValidationContext {
+    // -----------------------------------------------------------------------
+    // Global variables
+    // -----------------------------------------------------------------------
+
+    fn validate_globals(&self, story: &ParsedStory) -> Result<(), CompilerError> {
+        let lists = story.list_declarations();
+        let names = story.globals().iter().map(|global| &global.name);
+        for name in names.chain(lists.iter().map(|list| &list.name)) {
+            if !is_identifier(name) {
+                return Err(CompilerError::invalid_source(format!(
+                    "'{name}' is not a valid name for a variable."
+                )));
+            }
+        }
+        let is_item = |name: &str| {
+            lists.iter().any(|list| {
+                list.items.iter().any(|(item, _, _)| {
+                    name == item
+                        || name
+                            .split_once('.')
+                            .is_some_and(|(of, name)| of == list.name && name == item)
+                })
+            })
+        };
+        for global in story.globals() {
+            if !is_constant(&global.initial_value, &is_item) {
+                return Err(CompilerError::invalid_source(format!(
+                    "The initial value of '{}' must be a number, a string, a constant, a list or a divert target.",
+                    global.name
+                )));
+            }
+        }
+        Ok(())
+    }
+
     // -----------------------------------------------------------------------
     // Stitch name collision with vars
     // -----------------------------------------------------------------------
@@ -301,3 +336,26 @@ impl ValidationContext {
     }
 
 }
+
+fn is_constant(value: &Expression, is_item: &dyn Fn(&str) -> bool) -> bool {
+    match value {
+        Expression::Bool(_)
+        | Expression::Int(_)
+        | Expression::Float(_)
+        | Expression::DivertTarget(_)
+        | Expression::EmptyList => true,
+        Expression::Str(string) => string.nodes.iter().all(|node| matches!(node, Node::Text(_))),
+        Expression::Variable(name) => is_item(name),
+        Expression::ListItems(items) => items.iter().all(|name| is_item(name)),
+        Expression::Negate(_) | Expression::Not(_) => is_number(value),
+        Expression::Binary { .. } | Expression::FunctionCall { .. } => false,
+    }
+}
+
+fn is_number(value: &Expression) -> bool {
+    match value {
+        Expression::Bool(_) | Expression::Int(_) | Expression::Float(_) => true,
+        Expression::Negate(value) | Expression::Not(value) => is_number(value),
+        _ => false,
+    }
+}
-- 
2.43.0


From 349ac6174c070e74cd7fd4dc7d9a150c4a787f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 50/56] fix: the compiler rejects content nested too deeply to
 compile or load

---
 compiler/src/emitter/choice_threaded.rs |  2 +
 compiler/src/emitter/context.rs         |  1 +
 compiler/src/emitter/mod.rs             |  1 +
 compiler/src/inline.rs                  |  2 +
 compiler/src/lib.rs                     |  1 +
 compiler/src/nesting.rs                 | 62 +++++++++++++++++++++++++
 compiler/src/parser/conditional.rs      |  3 ++
 compiler/src/parser/expression.rs       |  5 ++
 compiler/src/parser/mod.rs              |  1 +
 compiler/src/parser/statement.rs        |  1 +
 10 files changed, 79 insertions(+)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index 69b2f52..1ba7b07 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -7,6 +7,8 @@ fn emit_choice_block(
     context: &EmitContext,
     fallback_continuation: Option<&str>,
 ) -> Result<(), CompilerError> {
+    // Each section of a weave is in the one before.
+    let _level = nesting::enter(nesting::BLOCK / 2)?;
     let section = analyze_weave_choice_section(choices, continuation, scope);
 
     if !section.prefix_nodes.is_empty() {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 09aac5e..660b692 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -12,6 +12,7 @@ pub fn story_to_json_string(
     count_all_visits: bool,
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
+    crate::nesting::check_json(&json)?;
     serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
     })
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 26bce0c..8bbe3ac 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,7 @@ use crate::{
     },
     error::CompilerError,
     names::{Content, Names},
+    nesting,
     parser::expression::is_identifier,
 };
 
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 42f667f..577132f 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Divert, DynamicString, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting,
 };
 
 use crate::parser::expression::{is_path_char, parse_call_like, parse_expression};
@@ -17,6 +18,7 @@ pub fn parse_dynamic_string(content: &str) -> Result<DynamicString, CompilerErro
 }
 
 fn tokenize(content: &str, in_string: bool) -> Result<Vec<Node>, CompilerError> {
+    let _level = nesting::enter(nesting::BLOCK)?;
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index d5dd306..0a6495d 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -5,6 +5,7 @@ pub mod error;
 mod includes;
 mod inline;
 mod names;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..aedd5e4
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,62 @@
+//! How deeply an Ink source nests, which bounds how deeply compiling it recurses.
+use std::cell::Cell;
+
+use crate::error::CompilerError;
+
+const MAX_DEPTH: usize = 256;
+/// The depth of a block, whose parts recurse deeper than those of an expression.
+pub const BLOCK: usize = 8;
+pub const EXPRESSION: usize = 1;
+
+/// How deeply the JSON of a story may nest for the runtime to load it.
+const MAX_JSON_DEPTH: usize = 127;
+
+thread_local! {
+    static DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// A construct whose parts are being read, until it is dropped.
+pub struct Level(usize);
+
+impl Drop for Level {
+    fn drop(&mut self) {
+        DEPTH.with(|depth| depth.set(depth.get() - self.0));
+    }
+}
+
+/// Go into a construct of the given depth.
+pub fn enter(levels: usize) -> Result<Level, CompilerError> {
+    let depth = DEPTH.with(|depth| {
+        depth.set(depth.get() + levels);
+        depth.get()
+    });
+    let level = Level(levels);
+    if depth > MAX_DEPTH {
+        return Err(nested_too_deeply());
+    }
+    Ok(level)
+}
+
+fn nested_too_deeply() -> CompilerError {
+    CompilerError::invalid_source("content is nested too deeply".to_owned())
+}
+
+/// Error when the runtime would not load `json`.
+pub fn check_json(json: &serde_json::Value) -> Result<(), CompilerError> {
+    fn fits(value: &serde_json::Value, levels: usize) -> bool {
+        match value {
+            serde_json::Value::Array(items) => {
+                levels > 0 && items.iter().all(|item| fits(item, levels - 1))
+            }
+            serde_json::Value::Object(fields) => {
+                levels > 0 && fields.values().all(|field| fits(field, levels - 1))
+            }
+            _ => true,
+        }
+    }
+    if fits(json, MAX_JSON_DEPTH) {
+        Ok(())
+    } else {
+        Err(nested_too_deeply())
+    }
+}
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 4138d6f..a107574 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Expression, Node},
     error::CompilerError,
+    nesting,
 };
 
 use super::{
@@ -402,6 +403,8 @@ pub fn fold_conditional_branches(
         return Ok(Vec::new());
     }
 
+    // Each branch is in what is for when the one before does not hold.
+    let _level = nesting::enter(branches.len())?;
     let mut accumulated_else = None;
     while let Some((condition, nodes)) = branches.pop() {
         if let Some(condition) = condition {
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index bb99f88..3b0a801 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -2,6 +2,7 @@ use crate::{
     ast::{BinaryOperator, DynamicString, Expression},
     error::CompilerError,
     inline::parse_dynamic_string,
+    nesting,
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -344,12 +345,15 @@ impl ExpressionParser {
     /// An expression whose operators bind tighter than `minimum`.
     fn parse_binary(&mut self, minimum: u8) -> Result<Expression, CompilerError> {
         let mut expression = self.parse_unary()?;
+        let mut levels = Vec::new();
 
         while let Some((operator, precedence)) = self.peek().and_then(binary_operator) {
             if precedence <= minimum {
                 break;
             }
             self.current += 1;
+            // What is on the left gets one level deeper.
+            levels.push(nesting::enter(nesting::EXPRESSION)?);
             let right = self.parse_binary(precedence)?;
             expression = Expression::Binary {
                 left: Box::new(expression),
@@ -366,6 +370,7 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        let _level = nesting::enter(nesting::EXPRESSION)?;
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 0c8161e..9924dd2 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting,
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 34fe7d1..dc045cf 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -7,6 +7,7 @@ pub fn parse_statement(
     let trimmed = line.content.trim();
     // 1-based line number for error messages; captured before any sub-parser advances the index.
     let ln = *line_index + 1;
+    let _level = nesting::enter(nesting::BLOCK).map_err(|e| e.with_line(ln))?;
 
     if trimmed.is_empty() || trimmed.starts_with("//") {
         *line_index += 1;
-- 
2.43.0


From 415cdd368bf70cbd8f4155c37b35cdaa022c286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 51/56] fix: every branch of a multi-line conditional or
 sequence starts on its own line

---
 compiler/src/parser/conditional.rs | 221 ++++++++++-------------------
 compiler/src/parser/sequence.rs    |  36 +----
 2 files changed, 82 insertions(+), 175 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index a107574..bc42afa 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -147,13 +147,7 @@ pub fn parse_conditional(
         // `- else:`, perhaps with content on the same line
         if let Some(rest) = branch_header(trimmed).and_then(else_branch) {
             in_else = true;
-            *line_index += 1;
-            if !rest.is_empty() {
-                when_false.extend(tokenize_inline_content(rest)?);
-            }
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
+            parse_branch_line(lines, line_index, rest, &mut when_false, parse_stmt)?;
             continue;
         }
 
@@ -161,8 +155,6 @@ pub fn parse_conditional(
         if let Some(branch_content) = trimmed.strip_prefix('-')
             && !branch_content.starts_with('>')
         {
-            *line_index += 1;
-            let rest = branch_content.trim();
             // Second (or later) `- ` switches to the else branch
             if seen_branch_dash {
                 in_else = true;
@@ -173,29 +165,7 @@ pub fn parse_conditional(
             } else {
                 &mut when_true
             };
-            if !rest.is_empty() {
-                // If the branch content starts with `~`, treat it as a tilde statement,
-                // not as inline text. e.g. `- ~ x = 5` inside `{true: ... }`.
-                if rest.starts_with('~') {
-                    // Create a synthetic single-line array for parse_stmt
-                    let synthetic = [Line {
-                        content: rest,
-                        had_newline: false,
-                        indent: 0,
-                    }];
-                    let mut idx = 0;
-                    if let ParsedStatement::Nodes(mut nodes) =
-                        parse_stmt(&synthetic, &mut idx, true)?
-                    {
-                        target.append(&mut nodes);
-                    }
-                } else {
-                    target.extend(tokenize_inline_content(rest)?);
-                }
-            }
-            if body_line.had_newline {
-                target.push(Node::Newline);
-            }
+            parse_branch_line(lines, line_index, branch_content.trim(), target, parse_stmt)?;
             continue;
         }
 
@@ -281,13 +251,7 @@ pub fn parse_multi_branch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(header) {
                 current_condition = None;
-                if !rest.is_empty() {
-                    current_nodes.extend(tokenize_inline_content(rest)?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                }
-                *line_index += 1;
+                parse_branch_line(lines, line_index, rest, &mut current_nodes, parse_stmt)?;
                 continue;
             }
 
@@ -299,27 +263,13 @@ pub fn parse_multi_branch_conditional(
                     current_nodes = Vec::new();
                 }
                 current_condition = None;
-                // Construct a temporary line whose content is the part after `- ` so that
-                // parse_conditional can see `{ 2+2==4: ...` directly.
-                let nested_content = header.trim_start();
-                let nested_line = Line {
-                    content: nested_content,
-                    indent: line.indent,
-                    had_newline: line.had_newline,
-                };
-                // Build a temporary slice: swap the current line with the stripped version
-                // and append the remaining lines.
-                let mut tmp_lines: Vec<Line<'_>> = Vec::with_capacity(lines.len() - *line_index);
-                tmp_lines.push(nested_line);
-                tmp_lines.extend(lines[*line_index + 1..].iter().map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                }));
-                let mut tmp_index = 0usize;
-                let nested_nodes = parse_conditional(&tmp_lines, &mut tmp_index, true, parse_stmt)?;
-                *line_index += tmp_index; // advance by however many lines parse_conditional consumed
-                current_nodes.extend(nested_nodes);
+                parse_branch_line(
+                    lines,
+                    line_index,
+                    header.trim_start(),
+                    &mut current_nodes,
+                    parse_stmt,
+                )?;
                 continue;
             }
 
@@ -328,52 +278,24 @@ pub fn parse_multi_branch_conditional(
                 None => {
                     // Bare default branch: `- content` with no colon — treat as else
                     current_condition = None;
-                    if !header.trim().is_empty() {
-                        current_nodes.extend(tokenize_inline_content(header.trim())?);
-                        if line.had_newline {
-                            current_nodes.push(Node::Newline);
-                        }
-                    }
-                    *line_index += 1;
+                    parse_branch_line(
+                        lines,
+                        line_index,
+                        header.trim(),
+                        &mut current_nodes,
+                        parse_stmt,
+                    )?;
                     continue;
                 }
             };
             current_condition = Some(parse_condition(condition.trim())?);
-            let rest_trimmed = rest.trim();
-            if !rest_trimmed.is_empty() {
-                if rest_trimmed.starts_with('*') || rest_trimmed.starts_with('+') {
-                    // The branch body starts with a choice — parse it via a temporary line.
-                    // Do NOT advance line_index yet; build tmp_lines = [choice_line, real_next_lines...]
-                    let choice_line = Line {
-                        content: rest_trimmed,
-                        indent: line.indent + 1,
-                        had_newline: false,
-                    };
-                    let next_line_index = *line_index + 1;
-                    let remaining_lines: Vec<Line<'_>> = std::iter::once(choice_line)
-                        .chain(lines[next_line_index..].iter().map(|l| Line {
-                            content: l.content,
-                            indent: l.indent,
-                            had_newline: l.had_newline,
-                        }))
-                        .collect();
-                    let mut tmp_idx = 0usize;
-                    let stmt = parse_stmt(&remaining_lines, &mut tmp_idx, true)?;
-                    // Advance: 1 for the branch header line + however many real lines the choice consumed
-                    *line_index += 1 + (tmp_idx.saturating_sub(1));
-                    if let ParsedStatement::Nodes(mut nodes) = stmt {
-                        current_nodes.append(&mut nodes);
-                    }
-                } else {
-                    current_nodes.extend(tokenize_inline_content(rest_trimmed)?);
-                    if line.had_newline {
-                        current_nodes.push(Node::Newline);
-                    }
-                    *line_index += 1;
-                }
-            } else {
-                *line_index += 1;
-            }
+            parse_branch_line(
+                lines,
+                line_index,
+                rest.trim(),
+                &mut current_nodes,
+                parse_stmt,
+            )?;
             continue;
         }
 
@@ -468,20 +390,7 @@ fn parse_switch_conditional(
             let header = header.trim_start();
             if let Some(rest) = else_branch(header) {
                 current_case = None; // else branch
-                if !rest.is_empty() {
-                    let inline_line = Line {
-                        content: rest,
-                        had_newline: line.had_newline,
-                        indent: 0,
-                    };
-                    let inline_lines = std::slice::from_ref(&inline_line);
-                    let mut idx = 0;
-                    let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                    if let ParsedStatement::Nodes(mut nodes) = statement {
-                        current_nodes.append(&mut nodes);
-                    }
-                }
-                *line_index += 1;
+                parse_branch_line(lines, line_index, rest, &mut current_nodes, parse_stmt)?;
                 continue;
             }
 
@@ -490,39 +399,24 @@ fn parse_switch_conditional(
                 None => {
                     // Bare default branch `- content` with no colon
                     current_case = None;
-                    if !header.trim().is_empty() {
-                        let inline_line = Line {
-                            content: header.trim(),
-                            had_newline: line.had_newline,
-                            indent: 0,
-                        };
-                        let inline_lines = std::slice::from_ref(&inline_line);
-                        let mut idx = 0;
-                        let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                        if let ParsedStatement::Nodes(mut nodes) = statement {
-                            current_nodes.append(&mut nodes);
-                        }
-                    }
-                    *line_index += 1;
+                    parse_branch_line(
+                        lines,
+                        line_index,
+                        header.trim(),
+                        &mut current_nodes,
+                        parse_stmt,
+                    )?;
                     continue;
                 }
             };
             current_case = Some(parse_expression(case_text.trim())?);
-            let rest = rest.trim();
-            if !rest.is_empty() {
-                let inline_line = Line {
-                    content: rest,
-                    had_newline: line.had_newline,
-                    indent: 0,
-                };
-                let inline_lines = std::slice::from_ref(&inline_line);
-                let mut idx = 0;
-                let statement = parse_stmt(inline_lines, &mut idx, true)?;
-                if let ParsedStatement::Nodes(mut nodes) = statement {
-                    current_nodes.append(&mut nodes);
-                }
-            }
-            *line_index += 1;
+            parse_branch_line(
+                lines,
+                line_index,
+                rest.trim(),
+                &mut current_nodes,
+                parse_stmt,
+            )?;
             continue;
         }
 
@@ -550,6 +444,43 @@ fn parse_switch_conditional(
     Ok(result)
 }
 
+/// The content of a branch on the line of its header: any statement, which may go on on the
+/// lines after it. A branch of a block starts on a line of its own.
+pub fn parse_branch_line(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    content: &str,
+    out: &mut Vec<Node>,
+    parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
+) -> Result<(), CompilerError> {
+    let line = &lines[*line_index];
+    out.push(Node::Newline);
+    if content.is_empty() {
+        *line_index += 1;
+        return Ok(());
+    }
+
+    let first = Line {
+        content,
+        indent: line.indent + 1,
+        had_newline: line.had_newline,
+    };
+    let rest: Vec<Line<'_>> = std::iter::once(first)
+        .chain(lines[*line_index + 1..].iter().cloned())
+        .collect();
+    let mut consumed = 0;
+    match parse_stmt(&rest, &mut consumed, true)? {
+        ParsedStatement::Nodes(mut nodes) => out.append(&mut nodes),
+        _ => {
+            return Err(CompilerError::unsupported_feature(
+                "global declarations are not supported inside conditionals".to_owned(),
+            ));
+        }
+    }
+    *line_index += consumed;
+    Ok(())
+}
+
 /// The rest of a line that starts a branch with `-`.
 fn branch_header(trimmed: &str) -> Option<&str> {
     trimmed
diff --git a/compiler/src/parser/sequence.rs b/compiler/src/parser/sequence.rs
index 173ed7c..26677c2 100644
--- a/compiler/src/parser/sequence.rs
+++ b/compiler/src/parser/sequence.rs
@@ -3,7 +3,9 @@ use crate::{
     error::CompilerError,
 };
 
-use super::{Line, ParsedStatement, inline::tokenize_inline_content};
+use super::{
+    Line, ParsedStatement, conditional::parse_branch_line, inline::tokenize_inline_content,
+};
 
 pub fn looks_like_sequence(content: &str) -> bool {
     if !content.starts_with('{') || !content.contains(':') {
@@ -128,35 +130,9 @@ pub fn parse_sequence(
             *line_index = body_end;
             nodes
         } else {
-            // Non-choice branch: parse the inline text on the branch header line.
-            // If it starts with '~' it is a statement (assignment, return, etc.)
-            // and must be parsed as such; otherwise tokenize it as inline content.
-            let mut nodes = if inline_text.is_empty() {
-                Vec::new()
-            } else if inline_text.starts_with('~') {
-                let synthetic = [Line {
-                    content: inline_text,
-                    had_newline: body_line.had_newline,
-                    indent: body_line.indent + 1,
-                }];
-                let mut idx = 0;
-                match parse_stmt(&synthetic, &mut idx, true)? {
-                    ParsedStatement::Nodes(n) => n,
-                    _ => Vec::new(),
-                }
-            } else {
-                tokenize_inline_content(inline_text)?
-            };
-            if body_line.had_newline {
-                nodes.insert(0, Node::Newline);
-                // Only add the trailing Newline when there is inline content.
-                // When inline_text is empty (dash on its own line), the body lines
-                // already produce their own trailing Newline; adding one here would
-                // produce an extra blank line between the leading \n and the content.
-                if !inline_text.is_empty() {
-                    nodes.push(Node::Newline);
-                }
-            }
+            let mut nodes = Vec::new();
+            *line_index -= 1;
+            parse_branch_line(lines, line_index, inline_text, &mut nodes, parse_stmt)?;
             // Collect body lines (stops at }, next branch header, or knot/stitch header)
             while *line_index < lines.len() {
                 let next_trimmed = lines[*line_index].content.trim();
-- 
2.43.0


From 139282fad7a176524af98f47caeb799341cfc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:33 +0000
Subject: [PATCH 52/56] fix: TODO notes produce no content

---
 compiler/src/parser/statement.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index dc045cf..4b8003e 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -14,6 +14,14 @@ pub fn parse_statement(
         return Ok(ParsedStatement::Nodes(Vec::new()));
     }
 
+    // A note of the author
+    if let Some(rest) = trimmed.strip_prefix("TODO")
+        && !rest.starts_with(|c: char| c.is_alphanumeric() || c == '_')
+    {
+        *line_index += 1;
+        return Ok(ParsedStatement::Nodes(Vec::new()));
+    }
+
     if trimmed == "{" {
         return parse_conditional(
             lines,
-- 
2.43.0


From 2b0598edbb8a3a53b9d5429cda481e623104f52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 53/56] fix: whatever follows a gather's dashes is a statement

---
 compiler/src/parser/conditional.rs |  30 +++++---
 compiler/src/parser/mod.rs         |   2 +-
 compiler/src/parser/statement.rs   | 117 ++++-------------------------
 3 files changed, 33 insertions(+), 116 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index bc42afa..1476b71 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -460,16 +460,7 @@ pub fn parse_branch_line(
         return Ok(());
     }
 
-    let first = Line {
-        content,
-        indent: line.indent + 1,
-        had_newline: line.had_newline,
-    };
-    let rest: Vec<Line<'_>> = std::iter::once(first)
-        .chain(lines[*line_index + 1..].iter().cloned())
-        .collect();
-    let mut consumed = 0;
-    match parse_stmt(&rest, &mut consumed, true)? {
+    match parse_rest_of_line(lines, line_index, content, line.indent + 1, parse_stmt)? {
         ParsedStatement::Nodes(mut nodes) => out.append(&mut nodes),
         _ => {
             return Err(CompilerError::unsupported_feature(
@@ -477,10 +468,27 @@ pub fn parse_branch_line(
             ));
         }
     }
-    *line_index += consumed;
     Ok(())
 }
 
+/// The statement that starts with `content` at the end of the current line.
+pub fn parse_rest_of_line(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    content: &str,
+    indent: usize,
+    parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
+) -> Result<ParsedStatement, CompilerError> {
+    let mut lines: Vec<Line<'_>> = lines.to_vec();
+    let line = &mut lines[*line_index];
+    *line = Line {
+        content,
+        indent,
+        had_newline: line.had_newline,
+    };
+    parse_stmt(&lines, line_index, true)
+}
+
 /// The rest of a line that starts a branch with `-`.
 fn branch_header(trimmed: &str) -> Option<&str> {
     trimmed
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 9924dd2..f44e201 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -12,7 +12,7 @@ use crate::{
 
 use self::{
     choice::parse_choice,
-    conditional::{looks_like_conditional, parse_conditional},
+    conditional::{looks_like_conditional, parse_conditional, parse_rest_of_line},
     expression::{
         is_identifier, parse_bool, parse_call_like, parse_expression, parse_path_identifier,
     },
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 4b8003e..801e72f 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -153,7 +153,6 @@ pub fn parse_statement(
     }
 
     if !trimmed.starts_with("->") && trimmed.starts_with('-') {
-        *line_index += 1;
         let gather_level = choice::gather_nesting_level(trimmed);
         // Strip all leading '-' markers (nested gathers like "- -" or "- - -") — nesting
         // is retained on labeled gathers for weave hierarchy emission.
@@ -166,10 +165,6 @@ pub fn parse_statement(
             }
             gather_content = next;
         }
-        if gather_content.is_empty() {
-            return Ok(ParsedStatement::Nodes(vec![Node::GatherPoint]));
-        }
-
         // Check for gather label: (label_name) at the start
         let (gather_label, gather_content) = if gather_content.starts_with('(') {
             // Anything in parentheses that is not a name is ordinary text.
@@ -185,108 +180,22 @@ pub fn parse_statement(
             (None, gather_content)
         };
 
-        // Handle "- * choice" or "- + choice": a gather point immediately followed by a
-        // choice on the same line.  *line_index has already been advanced past this line,
-        // so we build a synthetic slice with the choice content as line 0, followed by
-        // the remaining (not-yet-consumed) lines, and call parse_choice on it.
-        if gather_content.starts_with('*') || gather_content.starts_with('+') {
-            let synthetic = Line {
-                content: gather_content,
+        let mut nodes = match gather_label {
+            Some(label) => vec![Node::GatherLabel {
+                label,
+                level: gather_level,
                 indent: line.indent,
-                had_newline: line.had_newline,
-            };
-            let tail: Vec<Line<'_>> = lines[*line_index..]
-                .iter()
-                .map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                })
-                .collect();
-            let combined: Vec<Line<'_>> = std::iter::once(synthetic).chain(tail).collect();
-            let mut local_idx: usize = 0;
-            let choice_stmt = parse_choice(&combined, &mut local_idx, &parse_statement)
-                .map_err(|e| e.with_line(ln))?;
-            // local_idx lines were consumed from `combined`; combined[0] mapped to the
-            // already-consumed original line, combined[1..] maps to lines[*line_index..].
-            *line_index += local_idx.saturating_sub(1);
-            let choice_nodes = match choice_stmt {
-                ParsedStatement::Nodes(ns) => ns,
+            }],
+            None => vec![Node::GatherPoint],
+        };
+        // What follows on the line is a statement of its own.
+        if !gather_content.is_empty() {
+            match parse_rest_of_line(lines, line_index, gather_content, line.indent, &parse_statement)? {
+                ParsedStatement::Nodes(mut rest) => nodes.append(&mut rest),
                 other => return Ok(other),
-            };
-            let mut result = vec![Node::GatherPoint];
-            if let Some(label) = gather_label {
-                result.push(Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                });
             }
-            result.extend(choice_nodes);
-            return Ok(ParsedStatement::Nodes(result));
-        }
-
-        // If gather_content starts a multi-line conditional or sequence, parse it as such.
-        // Build a synthetic slice: the first entry uses gather_content as its content, then
-        // the remaining (not-yet-consumed) lines follow.  We track how many lines the
-        // sub-parser consumed and advance the outer line_index accordingly.
-        if looks_like_conditional(gather_content) || looks_like_sequence(gather_content) {
-            // Synthetic opening line using gather_content.
-            let synthetic = Line {
-                content: gather_content,
-                indent: line.indent,
-                had_newline: line.had_newline,
-            };
-            // Build the combined slice: [synthetic] ++ lines[*line_index..]
-            let combined: Vec<Line<'_>> = std::iter::once(synthetic)
-                .chain(lines[*line_index..].iter().map(|l| Line {
-                    content: l.content,
-                    indent: l.indent,
-                    had_newline: l.had_newline,
-                }))
-                .collect();
-            let mut local_idx: usize = 0;
-            let nodes = if looks_like_sequence(gather_content) {
-                parse_sequence(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            } else {
-                parse_conditional(&combined, &mut local_idx, true, &parse_statement)
-                    .map_err(|e| e.with_line(ln))?
-            };
-            // local_idx now points past whatever the sub-parser consumed in `combined`.
-            // combined[0] was the synthetic gather line (already consumed above via += 1).
-            // combined[1..] maps to lines[*line_index..], so advance by local_idx - 1.
-            if local_idx > 0 {
-                *line_index += local_idx - 1;
-            }
-            let mut result = Vec::new();
-            if let Some(label) = gather_label {
-                result.push(Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                });
-            }
-            result.extend(nodes);
-            return Ok(ParsedStatement::Nodes(result));
-        }
-
-        let gather_line = Line {
-            content: gather_content,
-            indent: line.indent,
-            // Don't emit a newline for a label-only gather line (no content after the label)
-            had_newline: line.had_newline && !gather_content.is_empty(),
-        };
-        let mut nodes = parse_content_line(&gather_line, true).map_err(|e| e.with_line(ln))?;
-        if let Some(label) = gather_label {
-            nodes.insert(
-                0,
-                Node::GatherLabel {
-                    label,
-                    level: gather_level,
-                    indent: line.indent,
-                },
-            );
+        } else {
+            *line_index += 1;
         }
         return Ok(ParsedStatement::Nodes(nodes));
     }
-- 
2.43.0


From cbce5b93db98ec282bdc9d5146cd55e824efc8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:16 +0000
Subject: [PATCH 54/56] fix: the body of a choice ends at the next choice or
 gather, whatever the indentation

---
 compiler/src/parser/choice.rs    | 57 +++-----------------------------
 compiler/src/parser/statement.rs | 31 ++++++++++++++---
 2 files changed, 32 insertions(+), 56 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 31740cb..e33f704 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -31,6 +31,7 @@ impl ParsedChoiceText {
 pub fn parse_choice(
     lines: &[Line<'_>],
     line_index: &mut usize,
+    in_block: bool,
     parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
 ) -> Result<ParsedStatement, CompilerError> {
     let line = &lines[*line_index];
@@ -112,71 +113,23 @@ pub fn parse_choice(
     let is_invisible_default = choice_text.is_empty();
 
     let mut body = choice_text.end.clone();
-    // Once we absorb a same-level gather, everything that follows at our indent
-    // (choices, text, etc.) becomes part of this choice's body continuation.
-    let mut absorbed_gather = false;
 
+    // What follows is the body of the choice, up to the next choice or gather that isn't deeper.
     while *line_index < lines.len() {
         let body_line = &lines[*line_index];
         let body_trimmed = body_line.content.trim();
-        let body_trimmed_start = body_line.content.trim_start();
         // Terminate on knot/stitch headers
         if super::parse_header(body_line.content).is_some() {
             break;
         }
-
-        // A choice line whose marker nesting level is <= ours starts a sibling choice
-        // block, even if it's indented deeper (Ink weave semantics).
-        if !absorbed_gather
-            && let Some(body_choice_level) = choice_marker_nesting_level(body_trimmed_start)
-            && body_choice_level <= nesting_level
-        {
+        if choice_marker_nesting_level(body_trimmed).is_some_and(|level| level <= nesting_level) {
             break;
         }
-
-        // Blank lines should not prematurely terminate a choice body when the next
-        // non-blank line is still indented as body content.
-        if body_trimmed.is_empty() {
-            let mut lookahead = *line_index + 1;
-            while lookahead < lines.len() && lines[lookahead].content.trim().is_empty() {
-                lookahead += 1;
-            }
-            if lookahead < lines.len()
-                && super::parse_header(lines[lookahead].content).is_none()
-                && lines[lookahead].indent > choice_indent
-            {
-                let statement = parse_stmt(lines, line_index, true)?;
-                if let ParsedStatement::Nodes(mut nodes) = statement {
-                    body.append(&mut nodes)
-                }
-                continue;
-            }
-        }
-
         let gather_level = gather_nesting_level(body_trimmed);
-
-        // A gather whose nesting level matches ours AND which is indented deeper than the
-        // choice itself is the "end of sub-choices / start of continuation" boundary for
-        // this weave level.  Absorb it so the emitter sees it as a GatherPoint separating
-        // the inner choice block from the post-gather continuation.
-        if gather_level == nesting_level && body_line.indent > choice_indent {
-            let statement = parse_stmt(lines, line_index, true)?;
-            if let ParsedStatement::Nodes(mut nodes) = statement {
-                body.append(&mut nodes)
-            }
-            absorbed_gather = true;
-            continue;
-        }
-
-        // A gather at or shallower than our choice indent terminates the choice body.
-        if gather_level > 0 && body_line.indent <= choice_indent {
+        if gather_level > 0 && (in_block || gather_level <= nesting_level) {
             break;
         }
-
-        // Non-gather line at or shallower than our indent:
-        // - If we haven't absorbed a same-level gather yet, this is a sibling — stop.
-        // - If we have absorbed a gather, it's the post-gather continuation — include it.
-        if gather_level == 0 && body_line.indent <= choice_indent && !absorbed_gather {
+        if in_block && body_trimmed.starts_with('}') {
             break;
         }
 
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 801e72f..1f37f34 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -2,6 +2,24 @@ pub fn parse_statement(
     lines: &[Line<'_>],
     line_index: &mut usize,
     strip_leading_whitespace: bool,
+) -> Result<ParsedStatement, CompilerError> {
+    parse_statement_in(lines, line_index, strip_leading_whitespace, false)
+}
+
+/// A statement in a branch of a conditional or a sequence, where `-` starts the next branch.
+fn parse_block_statement(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    strip_leading_whitespace: bool,
+) -> Result<ParsedStatement, CompilerError> {
+    parse_statement_in(lines, line_index, strip_leading_whitespace, true)
+}
+
+fn parse_statement_in(
+    lines: &[Line<'_>],
+    line_index: &mut usize,
+    strip_leading_whitespace: bool,
+    in_block: bool,
 ) -> Result<ParsedStatement, CompilerError> {
     let line = &lines[*line_index];
     let trimmed = line.content.trim();
@@ -27,7 +45,7 @@ pub fn parse_statement(
             lines,
             line_index,
             strip_leading_whitespace,
-            &parse_statement,
+            &parse_block_statement,
         )
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln));
@@ -38,7 +56,7 @@ pub fn parse_statement(
             lines,
             line_index,
             strip_leading_whitespace,
-            &parse_statement,
+            &parse_block_statement,
         )
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln));
@@ -49,7 +67,7 @@ pub fn parse_statement(
             lines,
             line_index,
             strip_leading_whitespace,
-            &parse_statement,
+            &parse_block_statement,
         )
         .map(ParsedStatement::Nodes)
         .map_err(|e| e.with_line(ln));
@@ -149,7 +167,12 @@ pub fn parse_statement(
     }
 
     if trimmed.starts_with('*') || trimmed.starts_with('+') {
-        return parse_choice(lines, line_index, &parse_statement).map_err(|e| e.with_line(ln));
+        let statement = if in_block {
+            parse_choice(lines, line_index, true, &parse_block_statement)
+        } else {
+            parse_choice(lines, line_index, false, &parse_statement)
+        };
+        return statement.map_err(|e| e.with_line(ln));
     }
 
     if !trimmed.starts_with("->") && trimmed.starts_with('-') {
-- 
2.43.0


From bf58fca30fe8b4d7dbc50b077e595f732171b4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 55/56] fix: only loose ends of the main content end the story

---
 compiler/src/emitter/choice.rs          | 2 +-
 compiler/src/emitter/choice_threaded.rs | 4 ++--
 compiler/src/emitter/choice_wrapped.rs  | 4 ++--
 compiler/src/emitter/context.rs         | 9 +++++++++
 compiler/src/emitter/nodes.rs           | 2 +-
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 799379d..592df6f 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -72,7 +72,7 @@ fn emit_choice(
         continuation_path,
         None,
         false,
-        LooseEndNoFallback::None,
+        scope.loose_end(),
     ) {
         branch_container.push(token);
     }
diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index 1ba7b07..37d516a 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -107,7 +107,7 @@ fn emit_choice_block(
                 fallback_continuation,
                 Some(g_n_path.as_str()),
                 true,
-                LooseEndNoFallback::Done,
+                scope.loose_end(),
             ) {
                 gather_container.push(token);
             }
@@ -309,7 +309,7 @@ fn build_threaded_choice_block_no_label(
         fallback_continuation,
         Some(continuation_path_abs.as_str()),
         true,
-        LooseEndNoFallback::Done,
+        scope.loose_end(),
     ) {
         continuation_container.push(token);
     }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index fe4a51a..d048c70 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -60,7 +60,7 @@ fn build_wrapped_loop_choice_block(
             fallback_continuation,
             Some(continuation_path_abs.as_str()),
             true,
-            LooseEndNoFallback::Done,
+            scope.loose_end(),
         ) {
             continuation_container.push(token);
         }
@@ -205,7 +205,7 @@ fn emit_wrapped_loop_choice_body(
     let no_fallback = if let Some(token) = config.continuation_terminal {
         LooseEndNoFallback::Token(token)
     } else {
-        LooseEndNoFallback::None
+        branch_scope.loose_end()
     };
     if let Some(token) = loose_end_append_for_nodes(
         branch_nodes,
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 660b692..16f2db2 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -419,6 +419,15 @@ impl EmitScope {
         scope
     }
 
+    /// What is behind a loose end that no gather takes up: only the main content ends there.
+    fn loose_end(&self) -> LooseEndNoFallback<'static> {
+        if self.flow.is_empty() {
+            LooseEndNoFallback::Done
+        } else {
+            LooseEndNoFallback::None
+        }
+    }
+
     /// The label of content in this flow, as other flows name it.
     fn qualified_label(&self, label: &str) -> String {
         joined_path(&self.flow, label)
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index 3ea1c06..f0e9856 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -481,7 +481,7 @@ fn emit_nodes_with_continuation(
                         gather_fallback,
                         None,
                         false,
-                        LooseEndNoFallback::None,
+                        scope.loose_end(),
                     ) {
                         sub_container.push(token);
                     }
-- 
2.43.0


From 63fd0331e5034df8a2ec69541e40d1b0aa4b52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 56/56] fix: choices in a block may leave their diverts to
 choices of their own

---
 compiler/src/validator/mod.rs     |  2 +-
 compiler/src/validator/symbols.rs | 34 +++++++++++++++++++++----------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/compiler/src/validator/mod.rs b/compiler/src/validator/mod.rs
index e73a436..74e041d 100644
--- a/compiler/src/validator/mod.rs
+++ b/compiler/src/validator/mod.rs
@@ -3,7 +3,7 @@
 use std::collections::BTreeSet;
 
 use crate::{
-    ast::{AssignMode, Condition, Divert, Expression, Flow, Node, ParsedStory},
+    ast::{AssignMode, Condition, Divert, Expression, Flow, Node, ParsedStory, Part, visit_nodes},
     error::CompilerError,
     parser::expression::is_identifier,
 };
diff --git a/compiler/src/validator/symbols.rs b/compiler/src/validator/symbols.rs
index 0bd90e1..9884958 100644
--- a/compiler/src/validator/symbols.rs
+++ b/compiler/src/validator/symbols.rs
@@ -74,22 +74,34 @@ fn collect_labels_from_nodes(nodes: &[Node], prefix: &str, targets: &mut BTreeSe
 /// Returns true if a choice has an explicit divert at the end of its body
 /// (i.e., the choice explicitly redirects flow rather than falling through).
 fn choice_has_explicit_divert(choice: &crate::ast::Choice) -> bool {
-    nodes_end_with_divert(&choice.body)
-}
-
-fn nodes_end_with_divert(nodes: &[Node]) -> bool {
-    nodes
+    let body = &choice.body;
+    let last_section = body
+        .iter()
+        .rposition(|n| matches!(n, Node::GatherPoint | Node::GatherLabel { .. }))
+        .map_or(body.as_slice(), |gather| &body[gather + 1..]);
+    // The loose ends of a choice with choices of its own are theirs.
+    let mut choices = last_section
         .iter()
-        .rev()
-        .find(|n| !matches!(n, Node::Newline))
-        .is_some_and(|n| {
-            matches!(
-                n,
+        .filter_map(|n| match n {
+            Node::Choice(choice) => Some(choice),
+            _ => None,
+        })
+        .peekable();
+    if choices.peek().is_some() {
+        return choices.all(choice_has_explicit_divert);
+    }
+    let mut diverts = false;
+    visit_nodes(last_section, &mut |part| {
+        diverts |= matches!(
+            part,
+            Part::Node(
                 Node::Divert(_)
                     | Node::TunnelReturn
                     | Node::TunnelOnwardsWithTarget { .. }
                     | Node::ReturnBool(_)
                     | Node::ReturnExpr(_)
             )
-        })
+        );
+    });
+    diverts
 }
-- 
2.43.0

