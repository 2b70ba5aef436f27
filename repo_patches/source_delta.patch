From 4dc32880c0281a8c602d8cac662942ed492a5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:02 +0000
Subject: [PATCH 01/69] verif hooks (cfg bladeink_verif): step fuel, virtual
 clock, seed setter, content audit

---
 runtime/src/lib.rs                     |   2 +
 runtime/src/list_definitions_origin.rs |  23 ++
 runtime/src/story/mod.rs               |   2 +
 runtime/src/story/progress.rs          |  10 +-
 runtime/src/story/verif.rs             | 292 +++++++++++++++++++++++++
 5 files changed, 328 insertions(+), 1 deletion(-)
 create mode 100644 runtime/src/story/verif.rs

diff --git a/runtime/src/lib.rs b/runtime/src/lib.rs
index 3c0587d..42942ec 100644
--- a/runtime/src/lib.rs
+++ b/runtime/src/lib.rs
@@ -45,6 +45,8 @@
 //! all the examples can be found in the `runtime/tests` folder in the source code
 //! of this crate.
 
+#![allow(unexpected_cfgs)]
+
 mod callstack;
 pub mod choice;
 mod choice_point;
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index 53e4c0d..b8886b5 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -50,3 +50,26 @@ impl ListDefinitionsOrigin {
         self.all_unambiguous_list_value_cache.get(name)
     }
 }
+
+#[cfg(bladeink_verif)]
+impl ListDefinitionsOrigin {
+    /// Every list with its items and values, sorted (verification hook).
+    pub(crate) fn verif_lists(&self) -> serde_json::Value {
+        let mut names: Vec<&String> = self.lists.keys().collect();
+        names.sort();
+        let lists: Vec<serde_json::Value> = names
+            .iter()
+            .map(|n| {
+                let mut def = self.lists[*n].clone();
+                let mut items: Vec<(String, i32)> = def
+                    .get_items()
+                    .iter()
+                    .map(|(k, v)| (k.get_full_name(), *v))
+                    .collect();
+                items.sort();
+                serde_json::json!([n, items])
+            })
+            .collect();
+        serde_json::Value::Array(lists)
+    }
+}
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e9c369f..8396c80 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -192,3 +192,5 @@ mod progress;
 mod state;
 mod tags;
 pub mod variable_observer;
+#[cfg(bladeink_verif)]
+pub mod verif;
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 5c5ca7d..20419ff 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -14,6 +14,11 @@ use crate::{
 };
 use std::{self, rc::Rc};
 
+#[cfg(bladeink_verif)]
+use crate::story::verif::Instant;
+#[cfg(not(bladeink_verif))]
+use web_time::Instant;
+
 /// # Story Progress
 /// Methods to move the story forwards.
 impl Story {
@@ -99,7 +104,7 @@ impl Story {
 
         // Start timing (only when necessary)
         let duration_stopwatch = match self.async_continue_active {
-            true => Some(web_time::Instant::now()),
+            true => Some(Instant::now()),
             false => None,
         };
 
@@ -107,6 +112,9 @@ impl Story {
         self.saw_lookahead_unsafe_function_after_new_line = false;
 
         loop {
+            #[cfg(bladeink_verif)]
+            crate::story::verif::tick();
+
             match self.continue_single_step() {
                 Ok(r) => output_stream_ends_in_newline = r,
                 Err(e) => {
diff --git a/runtime/src/story/verif.rs b/runtime/src/story/verif.rs
new file mode 100644
index 0000000..ed06cb0
--- /dev/null
+++ b/runtime/src/story/verif.rs
@@ -0,0 +1,292 @@
+//! Verification hooks. Compiled only with `RUSTFLAGS="--cfg bladeink_verif"`;
+//! never part of a normal build.
+//!
+//! * a step counter with an optional fuel limit, so that a host can bound
+//!   runaway stories,
+//! * a virtual clock that advances one millisecond per interpreter step, so
+//!   that time-limited continues pause at exact, reproducible positions,
+//! * a setter for the story seed,
+//! * a listing of the loaded content tree.
+use crate::{
+    container::Container,
+    divert::Divert,
+    json::json_write,
+    object::{Object, RTObject},
+    path::Path,
+    pointer::Pointer,
+    story::Story,
+};
+use serde_json::{Value as Json, json};
+use std::{
+    cell::Cell,
+    collections::hash_map::DefaultHasher,
+    hash::{Hash, Hasher},
+    rc::Rc,
+    time::Duration,
+};
+
+/// Panic payload used when the step budget is exhausted.
+pub const OUT_OF_FUEL: &str = "bladeink_verif: out of fuel";
+
+thread_local! {
+    static STEPS: Cell<u64> = const { Cell::new(0) };
+    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
+}
+
+/// Number of interpreter steps executed on this thread.
+pub fn steps() -> u64 {
+    STEPS.with(|s| s.get())
+}
+
+/// Allow `n` more steps on this thread; after that [`tick`] panics with
+/// [`OUT_OF_FUEL`].
+pub fn set_fuel(n: u64) {
+    FUEL.with(|f| f.set(n));
+}
+
+pub(crate) fn tick() {
+    STEPS.with(|s| s.set(s.get() + 1));
+    FUEL.with(|f| {
+        let left = f.get();
+        if left == 0 {
+            std::panic::panic_any(OUT_OF_FUEL);
+        }
+        if left != u64::MAX {
+            f.set(left - 1);
+        }
+    });
+}
+
+/// Stand-in for `web_time::Instant`: one interpreter step is one millisecond.
+#[derive(Clone, Copy)]
+pub(crate) struct Instant(u64);
+
+impl Instant {
+    pub(crate) fn now() -> Instant {
+        Instant(steps())
+    }
+
+    pub(crate) fn elapsed(&self) -> Duration {
+        Duration::from_millis(steps() - self.0)
+    }
+}
+
+fn hash_of(p: &Path) -> u64 {
+    let mut h = DefaultHasher::new();
+    p.hash(&mut h);
+    h.finish()
+}
+
+fn thin(o: &Rc<dyn RTObject>) -> *const () {
+    Rc::as_ptr(o) as *const ()
+}
+
+fn kind_of(o: &Rc<dyn RTObject>) -> String {
+    if o.as_any().is::<Container>() {
+        return "container".to_owned();
+    }
+    o.to_string()
+}
+
+impl Story {
+    /// Sets the seed all of the story's randomness is derived from.
+    pub fn verif_set_seed(&mut self, seed: i32) {
+        self.state.story_seed = seed;
+    }
+
+    /// The seed currently in use.
+    pub fn verif_seed(&self) -> i32 {
+        self.state.story_seed
+    }
+
+    fn verif_collect(
+        o: Rc<dyn RTObject>,
+        depth: usize,
+        out: &mut Vec<(Rc<dyn RTObject>, usize)>,
+        seen: &mut std::collections::HashSet<*const ()>,
+    ) {
+        if !seen.insert(thin(&o)) {
+            return;
+        }
+        out.push((o.clone(), depth));
+        if let Ok(c) = o.into_any().downcast::<Container>() {
+            for child in c.content.iter() {
+                Story::verif_collect(child.clone(), depth + 1, out, seen);
+            }
+            let mut names: Vec<&String> = c.named_content.keys().collect();
+            names.sort();
+            for n in names {
+                let child: Rc<dyn RTObject> = c.named_content[n].clone();
+                Story::verif_collect(child, depth + 1, out, seen);
+            }
+        }
+    }
+
+    /// Every object of the content tree, in document order, as JSON: how it is
+    /// reached structurally, the path reported for it, and what that path
+    /// resolves to.
+    pub fn verif_audit(&self) -> Json {
+        let root: Rc<dyn RTObject> = self.main_content_container.clone();
+        let mut objs = Vec::new();
+        Story::verif_collect(root, 0, &mut objs, &mut Default::default());
+        let id = |o: &Rc<dyn RTObject>| -> i64 {
+            objs.iter()
+                .position(|(x, _)| thin(x) == thin(o))
+                .map(|p| p as i64)
+                .unwrap_or(-1)
+        };
+        let mut list = Vec::new();
+        for (o, depth) in objs.iter() {
+            let path = Object::get_path(o.as_ref());
+            let text = path.to_string();
+            let res = self.main_content_container.content_at_path(&path, 0, -1);
+            let back = Path::new_with_components_string(Some(&text));
+            let res_back = self.main_content_container.content_at_path(&back, 0, -1);
+            let mut j = json!({
+                "depth": depth,
+                "kind": kind_of(o),
+                "path": text,
+                "resolves": id(&res.obj),
+                "approximate": res.approximate,
+                "text_resolves": id(&res_back.obj),
+                "text_equal": back == path,
+                "text_again": back.to_string(),
+                "hash_equal": hash_of(&back) == hash_of(&path),
+            });
+            let m = j.as_object_mut().unwrap();
+            if let Some(p) = o.get_object().get_parent() {
+                let p: Rc<dyn RTObject> = p;
+                m.insert("parent".to_owned(), json!(id(&p)));
+            }
+            if let Ok(c) = o.clone().into_any().downcast::<Container>() {
+                m.insert("name".to_owned(), json!(c.name));
+                m.insert("flags".to_owned(), json!(c.get_count_flags()));
+                m.insert(
+                    "content".to_owned(),
+                    json!(c.content.iter().map(&id).collect::<Vec<_>>()),
+                );
+                let mut named: Vec<(String, i64)> = c
+                    .named_content
+                    .iter()
+                    .map(|(k, v)| {
+                        let v: Rc<dyn RTObject> = v.clone();
+                        (k.clone(), id(&v))
+                    })
+                    .collect();
+                named.sort();
+                m.insert("named".to_owned(), json!(named));
+                // Positions inside this container, as a save denotes them.
+                let mut pos = Vec::new();
+                for i in 0..c.content.len() {
+                    let p = Pointer::new(Some(c.clone()), i as i32);
+                    let t = p.get_path().map(|p| p.to_string()).unwrap_or_default();
+                    let q = Story::pointer_at_path(
+                        &self.main_content_container,
+                        &Path::new_with_components_string(Some(&t)),
+                    );
+                    pos.push(match q {
+                        Ok(q) => {
+                            let qc: Option<Rc<dyn RTObject>> =
+                                q.container.clone().map(|c| c as Rc<dyn RTObject>);
+                            json!([t, qc.map(|c| id(&c)).unwrap_or(-1), q.index])
+                        }
+                        Err(_) => json!([t, -2, 0]),
+                    });
+                }
+                m.insert("positions".to_owned(), json!(pos));
+            }
+            list.push(j);
+        }
+        json!({ "objects": list, "lists": self.list_definitions.verif_lists() })
+    }
+
+    /// For pairs of objects (indices into the [`verif_audit`](Self::verif_audit)
+    /// listing): the relative path from the first to the second, its textual
+    /// round trip and what it resolves to from the first.
+    pub fn verif_relative(&self, pairs: &[(usize, usize)]) -> Json {
+        let root: Rc<dyn RTObject> = self.main_content_container.clone();
+        let mut objs = Vec::new();
+        Story::verif_collect(root, 0, &mut objs, &mut Default::default());
+        let mut list = Vec::new();
+        for (a, b) in pairs {
+            let from = &objs[*a].0;
+            let to = &objs[*b].0;
+            let _ = Object::get_path(from.as_ref());
+            let global = Object::get_path(to.as_ref());
+            let rel = Object::convert_path_to_relative(from, &global);
+            let text = rel.to_string();
+            let back = Path::new_with_components_string(Some(&text));
+            let same = |p: &Path| {
+                let r = Object::resolve_path(from.clone(), p);
+                !r.approximate && thin(&r.obj) == thin(to)
+            };
+            let compact = Object::compact_path_string(from.clone(), &global);
+            let joined = if rel.is_relative() {
+                Object::get_path(from.as_ref())
+                    .path_by_appending_path(&rel)
+                    .to_string()
+            } else {
+                global.to_string()
+            };
+            list.push(json!({
+                "from": a, "to": b,
+                "relative": rel.is_relative(),
+                "text": text,
+                "back_relative": back.is_relative(),
+                "back_equal": back == rel,
+                "back_text": back.to_string(),
+                "back_hash_equal": hash_of(&back) == hash_of(&rel),
+                "resolves": same(&rel),
+                "back_resolves": same(&back),
+                "compact": compact,
+                "compact_resolves": same(&Path::new_with_components_string(Some(&compact))),
+                "joined": joined,
+            }));
+        }
+        json!(list)
+    }
+
+    /// The content tree written back as JSON by the runtime itself.
+    pub fn verif_tree(&self) -> Result<Json, String> {
+        json_write::write_rt_container(&self.main_content_container, false)
+            .map_err(|e| e.get_message().to_owned())
+    }
+
+    /// What a path text parses to: relative flag, components, text, and
+    /// whether parsing that text again gives an equal, equally hashed path.
+    pub fn verif_parse_path(text: &str) -> Json {
+        let p = Path::new_with_components_string(Some(text));
+        let t = p.to_string();
+        let q = Path::new_with_components_string(Some(&t));
+        let comps: Vec<Json> = (0..p.len())
+            .map(|i| {
+                let c = p.get_component(i).unwrap();
+                match c.index {
+                    Some(i) => json!(i),
+                    None => json!(c.name),
+                }
+            })
+            .collect();
+        let mut fresh = Vec::new();
+        for i in 0..p.len() {
+            fresh.push(p.get_component(i).unwrap().clone());
+        }
+        let built = Path::new(&fresh, p.is_relative());
+        json!({
+            "relative": p.is_relative(), "components": comps, "text": t,
+            "equal": p == q, "hash_equal": hash_of(&p) == hash_of(&q),
+            "built_equal": built == p, "built_text": built.to_string(),
+            "built_hash_equal": hash_of(&built) == hash_of(&p),
+        })
+    }
+
+    /// Number of content objects that are diverts (a coverage figure).
+    pub fn verif_divert_count(&self) -> usize {
+        let root: Rc<dyn RTObject> = self.main_content_container.clone();
+        let mut objs = Vec::new();
+        Story::verif_collect(root, 0, &mut objs, &mut Default::default());
+        objs.iter()
+            .filter(|(o, _)| o.as_any().is::<Divert>())
+            .count()
+    }
+}
-- 
2.43.0


From ca7afc5b92a848903762a4aae1294471591edfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 02/69] fix: index branch contents of sequences and switches
 after their leading pop

The bodies of sequence and switch branches were emitted with indices starting
at 0 although a pop is inserted in front of them, so diverts of conditionals
and sequences nested in such a branch pointed one element too early.
---
 compiler/src/emitter/conditional.rs | 4 +++-
 compiler/src/emitter/expression.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index c7ce76c..a3296c3 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -234,8 +234,10 @@ fn emit_switch_conditional(
     let mut branch_bodies: Vec<EmittedContainer> = Vec::new();
     for (branch_index, (_, body_nodes)) in branches.iter().enumerate() {
         let branch_array_index = switch_index + preamble_len + branch_index;
-        let branch_scope =
+        let mut branch_scope =
             scope.conditional_branch(&format!("{branch_array_index}.b"));
+        // The "pop" inserted below shifts every index inside the branch by one.
+        branch_scope.param_offset = 1;
         let mut body = emit_nodes(body_nodes, &branch_scope, context)?;
         body.push(json!({"->": exit_target}));
         branch_bodies.push(body);
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 6a4020a..839d634 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -79,8 +79,10 @@ fn emit_sequence(
 
     let mut named = Map::new();
     for (index, branch) in sequence.branches.iter().enumerate() {
-        let branch_scope =
+        let mut branch_scope =
             scope.at_path(joined_path(&sequence_path, format!("s{index}")));
+        // The "pop" inserted below shifts every index inside the branch by one.
+        branch_scope.param_offset = 1;
         let mut branch_container = emit_nodes(branch, &branch_scope, context)?;
         branch_container.content.insert(0, json!("pop"));
         branch_container.push(json!({"->": joined_path(&sequence_path, rejoin_index)}));
-- 
2.43.0


From b40f375ea13c2ff80aae74e08681cfae86194ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 03/69] fix: keep the author's spacing around choice brackets

Text between and after the square brackets of a choice was trimmed and
re-joined with heuristics, so '* Hello[ there], friend' offered 'Hellothere'
and 'hel[p]lo' printed 'hel lo'.
---
 compiler/src/parser/choice.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index b3bfad4..6c4965f 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -435,8 +435,8 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
     {
         let close = open + 1 + close_rel;
         let start = &trimmed[..open];
-        let choice_only = trimmed[open + 1..close].trim();
-        let end = trimmed[close + 1..].trim_start();
+        let choice_only = &trimmed[open + 1..close];
+        let end = &trimmed[close + 1..];
         let (end, inline_target) = split_inline_choice_divert(end)?;
         let (start_text, start_tags) = split_text_and_tags(start)?;
         let (choice_only_text, choice_only_tags) = split_text_and_tags(choice_only)?;
@@ -455,17 +455,7 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         };
         let choice_only_text = format!("{choice_only_text}{display_suffix}");
         let display = format!("{start_text}{choice_only_text}");
-        let selected_text = if end_text.is_empty() {
-            start_text.trim_end().to_owned()
-        } else if start_text.trim().is_empty() {
-            end_text
-        } else if end_text
-            .starts_with(|c: char| c.is_ascii_punctuation() && c != '"' && c != '\'' && c != '{')
-        {
-            format!("{}{}", start_text.trim_end(), end_text)
-        } else {
-            format!("{} {}", start_text.trim_end(), end_text)
-        };
+        let selected_text = format!("{start_text}{end_text}");
         let mut selected_tags = start_tags.clone();
         selected_tags.extend(end_tags);
         return Ok(ParsedChoiceText {
-- 
2.43.0


From b97b2f1b0a70e0f8d051cd194b3a9f1bc8e9201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 04/69] fix: find the colon of an inline conditional outside
 nested braces; conditional text in choices and tags

'{&p{b:1|2}|q}' and '{a: b} mid {c: d}' were cut at the wrong colon or brace,
and a conditional in choice text was printed as its own source.
---
 compiler/src/ast.rs                |  5 ++++
 compiler/src/emitter/expression.rs | 33 ++++++++++++++++++---
 compiler/src/inline.rs             | 46 +++++++++++++++++++++++++++---
 3 files changed, 76 insertions(+), 8 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 78b0f0e..ddf22c2 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -58,6 +58,11 @@ pub enum DynamicStringPart {
     Text(String),
     Expression(Expression),
     Sequence(Sequence),
+    Conditional {
+        condition: Condition,
+        when_true: Vec<Node>,
+        when_false: Option<Vec<Node>>,
+    },
 }
 
 #[derive(Debug, Clone, PartialEq, Default)]
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 839d634..f5e231e 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -239,9 +239,18 @@ fn emit_expression_ctx(
         Expression::Float(value) => out.push(float_to_json(*value)),
         Expression::Str(value) => {
             // Parse the string content for {expr} interpolations
-            let dynamic = parse_dynamic_string(value).unwrap_or_else(|_| DynamicString {
-                parts: vec![DynamicStringPart::Text(value.clone())],
-            });
+            // (conditional text inside string literals is not supported: kept as it is)
+            let dynamic = parse_dynamic_string(value)
+                .ok()
+                .filter(|dynamic| {
+                    !dynamic
+                        .parts
+                        .iter()
+                        .any(|p| matches!(p, DynamicStringPart::Conditional { .. }))
+                })
+                .unwrap_or_else(|| DynamicString {
+                    parts: vec![DynamicStringPart::Text(value.clone())],
+                });
             out.push(json!("str"));
             // If there are no expression parts (plain string or empty), emit as literal text
             let has_expressions = dynamic.parts.iter().any(|p| {
@@ -278,7 +287,8 @@ fn emit_expression_ctx(
                             out.push(json!("out"));
                             out.push(json!("/ev"));
                         }
-                        DynamicStringPart::Sequence(_) => {
+                        DynamicStringPart::Sequence(_)
+                        | DynamicStringPart::Conditional { .. } => {
                             // Sequences inside string literals not supported here; emit raw
                             out.push(json!(format!("^{value}")));
                         }
@@ -504,6 +514,21 @@ fn emit_dynamic_string_parts(
             )?);
             emit_dynamic_string_parts(&parts[1..], out, scope, context)
         }
+        DynamicStringPart::Conditional {
+            condition,
+            when_true,
+            when_false,
+        } => {
+            out.extend(emit_conditional(
+                condition,
+                when_true,
+                when_false.as_deref(),
+                scope,
+                out.len() + scope.param_offset,
+                context,
+            )?);
+            emit_dynamic_string_parts(&parts[1..], out, scope, context)
+        }
     }
 }
 
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 218089f..092d7d9 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -161,7 +161,19 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
             }
 
             let inner = &input[index + 1..end];
-            if let Some(sequence) = parse_inline_sequence(inner)? {
+            if let Some((condition, branch_text)) = parse_inline_conditional(&input[index..=end])? {
+                let branches: Vec<&str> = split_top_level_pipe(branch_text);
+                let when_true = tokenize_inline_content(branches[0].trim_end())?;
+                let when_false = match branches.get(1) {
+                    Some(branch) => Some(tokenize_inline_content(branch.trim_end())?),
+                    None => None,
+                };
+                parts.push(DynamicStringPart::Conditional {
+                    condition,
+                    when_true,
+                    when_false,
+                });
+            } else if let Some(sequence) = parse_inline_sequence(inner)? {
                 parts.push(DynamicStringPart::Sequence(sequence));
             } else {
                 parts.push(DynamicStringPart::Expression(parse_expression(inner)?));
@@ -499,10 +511,14 @@ pub fn parse_inline_conditional(
         return Ok(None);
     }
 
+    // The braces must belong together: `{a:b} c {d:e}` is not one conditional.
+    if find_matching_brace(trimmed, 0) != Some(trimmed.len() - 1) {
+        return Ok(None);
+    }
+
     let inner = &trimmed[1..trimmed.len() - 1];
-    let (condition, branch) = match inner.split_once(':') {
-        Some(parts) => parts,
-        None => return Ok(None),
+    let Some((condition, branch)) = split_top_level_colon(inner) else {
+        return Ok(None);
     };
 
     Ok(Some((
@@ -513,6 +529,28 @@ pub fn parse_inline_conditional(
     )))
 }
 
+/// Split at the first `:` that is not inside a nested brace or a string.
+fn split_top_level_colon(input: &str) -> Option<(&str, &str)> {
+    let mut depth = 0usize;
+    let mut in_string = false;
+    for (index, ch) in input.char_indices() {
+        match ch {
+            '"' => in_string = !in_string,
+            '{' if !in_string => depth += 1,
+            '}' if !in_string => depth = depth.saturating_sub(1),
+            // A separator before the colon: alternatives whose text has a colon.
+            '|' if !in_string && depth == 0 => {
+                if !input[index..].starts_with("||") && !input[..index].ends_with('|') {
+                    return None;
+                }
+            }
+            ':' if !in_string && depth == 0 => return Some((&input[..index], &input[index + 1..])),
+            _ => {}
+        }
+    }
+    None
+}
+
 pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, CompilerError> {
     use crate::ast::Condition;
     match condition {
-- 
2.43.0


From bb5115672c6fbbe0e063c5f85f93576002105179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:32 +0000
Subject: [PATCH 05/69] fix: a divert on the line of a choice continues that
 line

'* text -> target' printed a line end before the divert, and '* [x] text'
followed by a divert on the next line did not print one.
---
 compiler/src/emitter/choice.rs         | 19 +++++++++++++++++--
 compiler/src/emitter/choice_wrapped.rs |  3 ++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 34deadf..ed93520 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -53,9 +53,10 @@ fn emit_choice(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
+            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text} "))?);
             branch_nodes.extend(choice.body.clone());
             branch_nodes.push(Node::Newline);
             body_already_emitted = true;
@@ -82,7 +83,21 @@ fn emit_choice(
             );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
-            if !body_is_terminal_divert && !body_is_inline_divert {
+            if choice.body_divert_is_inline
+                && !body_is_terminal_divert
+                && !body_is_inline_divert
+                && let [divert @ Node::Divert(_), rest @ ..] = choice.body.as_slice()
+            {
+                // `* text -> target`: the divert is on the line of the text, so what
+                // follows at the target continues that line.
+                if choice.selected_tags.is_empty() {
+                    branch_nodes.push(Node::Text(" ".to_owned()));
+                }
+                branch_nodes.push(divert.clone());
+                branch_nodes.push(Node::Newline);
+                branch_nodes.extend(rest.iter().cloned());
+                body_already_emitted = true;
+            } else if !body_is_terminal_divert && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
             }
         }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 29948b8..e38371b 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -212,9 +212,10 @@ fn emit_wrapped_loop_choice_body(
 
         if choice.has_choice_only_content
             && !choice.has_start_content
+            && choice.body_divert_is_inline
             && matches!(choice.body.as_slice(), [Node::Divert(_)])
         {
-            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text}"))?);
+            branch_nodes.extend(tokenize_inline_content(&format!(" {selected_text} "))?);
             branch_nodes.extend(choice.body.clone());
             branch_nodes.push(Node::Newline);
             body_already_emitted = true;
-- 
2.43.0


From d7c6f589cb4929f0f1debf310f7f1dd562761ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:31 +0000
Subject: [PATCH 06/69] fix: emit choices before an anonymous gather like any
 other choices

Inside stitches and gathers such choices were emitted in a second form that
pushed one string where the runtime pops two ('* a[b]' panicked), dropped the
text after the brackets, misplaced the indices of nested content by the
prefix it added, and ignored conditions of fallback choices.
---
 compiler/src/emitter/choice_threaded.rs | 201 +-----------------------
 compiler/src/emitter/choice_wrapped.rs  |   1 -
 compiler/src/emitter/nodes.rs           |  59 -------
 3 files changed, 2 insertions(+), 259 deletions(-)

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index f0017e9..1ce0123 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -16,19 +16,6 @@ fn emit_choice_block(
     }
 
     match &section.mode {
-        ChoiceEmissionMode::ThreadedAnonGather => {
-            let threaded = build_threaded_choice_block_no_label(
-                section.choices,
-                section.continuation_nodes,
-                scope,
-                out.content.len(),
-                next_choice_index,
-                context,
-                fallback_continuation,
-            )?;
-            pack_threaded_choice_output(out, threaded)?;
-            return Ok(());
-        }
         ChoiceEmissionMode::ThreadedLoopLabel { loop_label } => {
             let threaded = build_wrapped_loop_choice_block(
                 section.choices,
@@ -159,16 +146,10 @@ fn emit_choice_block(
     Ok(())
 }
 
-enum ThreadedContinuationPlacement {
-    InsideGroup,
-    OutsideGroup,
-}
-
 struct ThreadedChoiceOutput {
     group: EmittedContainer,
     group_name: Option<String>,
     continuation: Option<(String, Value)>,
-    continuation_placement: ThreadedContinuationPlacement,
 }
 
 enum LooseEndNoFallback<'a> {
@@ -208,32 +189,13 @@ fn loose_end_append_for_nodes<'a>(
 
 fn pack_threaded_choice_output(
     out: &mut EmittedContainer,
-    mut threaded: ThreadedChoiceOutput,
+    threaded: ThreadedChoiceOutput,
 ) -> Result<(), CompilerError> {
-    if let Some((name, value)) = threaded
-        .continuation
-        .as_ref()
-        .filter(|_| {
-            matches!(
-                threaded.continuation_placement,
-                ThreadedContinuationPlacement::InsideGroup
-            )
-        })
-        .cloned()
-    {
-        threaded.group.insert_named(name, value);
-    }
-
     let group_value = threaded
         .group
         .into_json_array(threaded.group_name.as_deref(), None)?;
 
-    if let Some((name, value)) = threaded.continuation.filter(|_| {
-        matches!(
-            threaded.continuation_placement,
-            ThreadedContinuationPlacement::OutsideGroup
-        )
-    }) {
+    if let Some((name, value)) = threaded.continuation {
         let mut outer = EmittedContainer::default();
         outer.push(group_value);
         outer.insert_named(name, value);
@@ -244,162 +206,3 @@ fn pack_threaded_choice_output(
 
     Ok(())
 }
-
-fn build_threaded_choice_block_no_label(
-    choices: &[Node],
-    continuation: &[Node],
-    scope: &EmitScope,
-    group_index: usize,
-    next_choice_index: &mut usize,
-    context: &EmitContext,
-    fallback_continuation: Option<&str>,
-) -> Result<ThreadedChoiceOutput, CompilerError> {
-    let loop_choices = choices
-        .iter()
-        .filter_map(|node| match node {
-            Node::Choice(choice) => Some(choice),
-            _ => None,
-        })
-        .collect::<Vec<_>>();
-
-    let fallback_choice = loop_choices
-        .iter()
-        .find(|choice| {
-            choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty()
-        })
-        .copied();
-
-    let emit_choices = if fallback_choice.is_some() {
-        loop_choices
-            .iter()
-            .copied()
-            .filter(|choice| {
-                !(choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty())
-            })
-            .collect::<Vec<_>>()
-    } else {
-        loop_choices
-    };
-
-    let mut choice_labels = BTreeMap::new();
-    let group_path = joined_path(&scope.path, group_index);
-    for (offset, choice) in emit_choices.iter().enumerate() {
-        if let Some(label) = &choice.label {
-            let label_target =
-                joined_path(&group_path, format!("c-{}", *next_choice_index + offset));
-            choice_labels.insert(label.clone(), label_target);
-        }
-    }
-    let block_scope = scope
-        .at_path(group_path.clone())
-        .with_choice_labels(choice_labels);
-    let choices_prefix = group_path;
-
-    let mut choices_group = EmittedContainer::default();
-    let mut local_choice_index = *next_choice_index;
-
-    let g_name = format!("g-{}", *next_choice_index);
-    let continuation_path_abs = joined_path(&block_scope.path, &g_name);
-
-    let continuation_scope = block_scope.continuation(&g_name);
-    let continuation_body = match continuation.first() {
-        Some(Node::GatherPoint) => {
-            let mut idx = 1;
-            while idx < continuation.len() && matches!(continuation[idx], Node::Newline) {
-                idx += 1;
-            }
-            &continuation[idx..]
-        }
-        _ => continuation,
-    };
-    let continuation_has_nested_choices = continuation_body
-        .iter()
-        .any(|node| matches!(node, Node::Choice(_)));
-    let fallback_is_self = fallback_continuation == Some(continuation_path_abs.as_str());
-    let inner_fallback = if fallback_is_self {
-        None
-    } else {
-        fallback_continuation
-    };
-    let mut continuation_container = emit_nodes_with_continuation(
-        continuation_body,
-        &continuation_scope,
-        context,
-        inner_fallback,
-    )?;
-    if let Some(token) = loose_end_append_for_nodes(
-        continuation_body,
-        continuation_has_nested_choices,
-        fallback_continuation,
-        Some(continuation_path_abs.as_str()),
-        true,
-        LooseEndNoFallback::Done,
-    ) {
-        continuation_container.push(token);
-    }
-    let continuation_value = continuation_container.into_json_array(None, None)?;
-
-    for choice in emit_choices {
-        let header_idx = choices_group.content.len();
-        let header_scope =
-            block_scope.at_path(joined_path(&block_scope.path, header_idx));
-        choices_group.push(emit_wrapped_loop_choice_header(
-            choice,
-            &header_scope,
-            local_choice_index,
-            header_idx,
-            &choices_prefix,
-            context,
-        )?);
-
-        let branch_name = format!("c-{local_choice_index}");
-        let branch_scope = block_scope.choice_branch(&branch_name);
-        choices_group.insert_named(
-            branch_name,
-            emit_wrapped_loop_choice_body(
-                choice,
-                &branch_scope,
-                WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx,
-                    choices_prefix: &choices_prefix,
-                    continuation_path: Some(&continuation_path_abs),
-                    continuation_terminal: None,
-                },
-                context,
-            )?,
-        );
-
-        local_choice_index += 1;
-        *next_choice_index += 1;
-    }
-
-    if let Some(fallback_choice) = fallback_choice {
-        let branch_name = format!("c-{local_choice_index}");
-        let branch_scope = block_scope.choice_branch(&branch_name);
-        choices_group.push(json!({"*": branch_scope.path, "flg": 8}));
-        choices_group.insert_named(
-            branch_name,
-            emit_wrapped_loop_choice_body(
-                fallback_choice,
-                &branch_scope,
-                WrappedLoopChoiceBodyConfig {
-                    choice_index: local_choice_index,
-                    header_idx: 0,
-                    choices_prefix: &choices_prefix,
-                    continuation_path: Some(&continuation_path_abs),
-                    continuation_terminal: None,
-                },
-                context,
-            )?,
-        );
-        *next_choice_index += 1;
-    }
-
-    Ok(ThreadedChoiceOutput {
-        group: choices_group,
-        group_name: None,
-        continuation: Some((g_name, continuation_value)),
-        continuation_placement: ThreadedContinuationPlacement::InsideGroup,
-    })
-}
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index e38371b..05a0197 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -129,7 +129,6 @@ fn build_wrapped_loop_choice_block(
         group: choices_group,
         group_name: Some(loop_label.to_owned()),
         continuation: continuation_value.map(|value| (g_name, value)),
-        continuation_placement: ThreadedContinuationPlacement::OutsideGroup,
     })
 }
 
diff --git a/compiler/src/emitter/nodes.rs b/compiler/src/emitter/nodes.rs
index d44c4c8..48d4004 100644
--- a/compiler/src/emitter/nodes.rs
+++ b/compiler/src/emitter/nodes.rs
@@ -83,7 +83,6 @@ fn split_nodes_at_first_choice(nodes: &[Node]) -> (&[Node], &[Node], &[Node]) {
 enum ChoiceEmissionMode {
     Flat,
     ThreadedLoopLabel { loop_label: String },
-    ThreadedAnonGather,
 }
 
 struct WeaveChoiceSection<'a> {
@@ -128,55 +127,6 @@ fn nodes_contain_choice(nodes: &[Node]) -> bool {
     false
 }
 
-fn choice_block_contains_nested_choices(choices: &[Node]) -> bool {
-    choices.iter().any(|node| {
-        if let Node::Choice(choice) = node {
-            nodes_contain_choice(&choice.body)
-        } else {
-            false
-        }
-    })
-}
-
-fn choice_is_invisible_default(choice: &Choice) -> bool {
-    choice.start_text.trim().is_empty() && choice.choice_only_text.trim().is_empty()
-}
-
-fn choice_block_has_invisible_default(choices: &[Node]) -> bool {
-    choices.iter().any(|node| {
-        if let Node::Choice(choice) = node {
-            choice_is_invisible_default(choice)
-        } else {
-            false
-        }
-    })
-}
-
-fn should_use_threaded_anon_gather(
-    choices: &[Node],
-    continuation: &[Node],
-    scope: &EmitScope,
-) -> bool {
-    let continuation = skip_leading_newlines(continuation);
-
-    if !matches!(continuation.first(), Some(Node::GatherPoint)) {
-        return false;
-    }
-
-    if scope.path.contains(".c-") {
-        return false;
-    }
-
-    if !scope.path.contains('.')
-        || choice_block_contains_nested_choices(choices)
-        || choice_block_has_invisible_default(choices)
-    {
-        return false;
-    }
-
-    true
-}
-
 fn analyze_weave_choice_section<'a>(
     choices: &'a [Node],
     continuation: &'a [Node],
@@ -214,15 +164,6 @@ fn analyze_weave_choice_section<'a>(
         };
     }
 
-    if should_use_threaded_anon_gather(choices, continuation, scope) {
-        return WeaveChoiceSection {
-            prefix_nodes: &[],
-            choices,
-            continuation_nodes: continuation,
-            mode: ChoiceEmissionMode::ThreadedAnonGather,
-        };
-    }
-
     WeaveChoiceSection {
         prefix_nodes: &[],
         choices,
-- 
2.43.0


From 5386bc2f5eb7e852ed8dd22918d313c2f65da25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 07/69] fix: show the tags of a choice's text on the chosen
 line too

---
 compiler/src/parser/choice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 6c4965f..993b693 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -488,8 +488,8 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         has_choice_only_content: false,
         inline_target,
         inline_body_nodes: Vec::new(),
+        selected_tags: start_tags.clone(),
         start_tags,
         choice_only_tags: Vec::new(),
-        selected_tags: Vec::new(),
     })
 }
-- 
2.43.0


From 826b121b1fe1362d0f8fd5e3ba39c92478e94b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:04 +0000
Subject: [PATCH 08/69] fix: a condition ending in a call is not always just
 the call

'{not f():' and '{x > f():' compiled to a call of a function named 'not f'
or 'x > f'.
---
 compiler/src/inline.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 092d7d9..e052fe8 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -557,7 +557,12 @@ pub fn parse_condition(condition: &str) -> Result<crate::ast::Condition, Compile
         "true" => Ok(Condition::Bool(true)),
         "false" => Ok(Condition::Bool(false)),
         _ => {
-            if let Some(name) = condition.strip_suffix("()") {
+            if let Some(name) = condition.strip_suffix("()")
+                && name
+                    .trim()
+                    .chars()
+                    .all(|c| c.is_alphanumeric() || c == '_' || c == '.')
+            {
                 return Ok(Condition::FunctionCall(name.trim().to_owned()));
             }
 
-- 
2.43.0


From ccefe82891e9e20905ad00cfb5c1b90fa18bf95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:01 +0000
Subject: [PATCH 09/69] fix: find turn and visit references everywhere content
 can hold them

Sequences, choice text, tags, and the arguments of diverts, threads and
tunnels were not searched, so TURNS_SINCE of a knot mentioned only there
failed at runtime.
---
 compiler/src/emitter/context.rs | 95 ++++++++++++++++++++++++++++-----
 1 file changed, 82 insertions(+), 13 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f0d2f10..04a763e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -227,10 +227,26 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
             }
             Node::Choice(choice) => {
                 for cond in &choice.conditions {
-                    if let Condition::Expression(e) = cond {
-                        collect_flow_count_flags_from_expr(e, targets);
+                    collect_flow_count_flags_from_condition(cond, targets);
+                }
+                for text in [&choice.start_text, &choice.choice_only_text] {
+                    if let Ok(text) = parse_dynamic_string(text) {
+                        collect_flow_count_flags_from_string(&text, targets);
                     }
                 }
+                if let Some(text) = &choice.selected_text
+                    && let Ok(nodes) = tokenize_inline_content(text)
+                {
+                    collect_flow_count_flags_from_nodes(&nodes, targets);
+                }
+                for tag in choice
+                    .start_tags
+                    .iter()
+                    .chain(&choice.choice_only_tags)
+                    .chain(&choice.selected_tags)
+                {
+                    collect_flow_count_flags_from_string(tag, targets);
+                }
                 collect_flow_count_flags_from_nodes(&choice.body, targets);
             }
             Node::Conditional {
@@ -238,9 +254,7 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                 when_true,
                 when_false,
             } => {
-                if let Condition::Expression(e) = condition {
-                    collect_flow_count_flags_from_expr(e, targets);
-                }
+                collect_flow_count_flags_from_condition(condition, targets);
                 collect_flow_count_flags_from_nodes(when_true, targets);
                 if let Some(nodes) = when_false {
                     collect_flow_count_flags_from_nodes(nodes, targets);
@@ -255,26 +269,74 @@ fn collect_flow_count_flags_from_nodes(nodes: &[Node], targets: &mut BTreeMap<St
                     collect_flow_count_flags_from_nodes(branch_nodes, targets);
                 }
             }
+            Node::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+            Node::Tag(tag) => collect_flow_count_flags_from_string(tag, targets),
             Node::Assignment { expression, .. } => {
                 collect_flow_count_flags_from_expr(expression, targets);
             }
             Node::ReturnExpr(e) => {
                 collect_flow_count_flags_from_expr(e, targets);
             }
-            Node::VoidCall { args, .. } => {
-                for arg in args {
-                    if let Expression::DivertTarget(target) = arg {
-                        add_flow_count_flags(targets, target, COUNT_VISITS | COUNT_TURNS);
-                    } else {
-                        collect_flow_count_flags_from_expr(arg, targets);
-                    }
-                }
+            Node::Divert(divert) | Node::ThreadDivert(divert) => {
+                collect_flow_count_flags_from_args(&divert.arguments, targets);
+            }
+            Node::TunnelDivert { args, .. }
+            | Node::TunnelOnwardsWithTarget { args, .. }
+            | Node::VoidCall { args, .. } => {
+                collect_flow_count_flags_from_args(args, targets);
             }
             _ => {}
         }
     }
 }
 
+fn collect_flow_count_flags_from_condition(
+    condition: &Condition,
+    targets: &mut BTreeMap<String, i32>,
+) {
+    if let Condition::Expression(e) = condition {
+        collect_flow_count_flags_from_expr(e, targets);
+    }
+}
+
+fn collect_flow_count_flags_from_args(args: &[Expression], targets: &mut BTreeMap<String, i32>) {
+    for arg in args {
+        collect_flow_count_flags_from_expr(arg, targets);
+    }
+}
+
+fn collect_flow_count_flags_from_string(
+    string: &DynamicString,
+    targets: &mut BTreeMap<String, i32>,
+) {
+    for part in &string.parts {
+        match part {
+            DynamicStringPart::Text(_) => {}
+            DynamicStringPart::Expression(e) => collect_flow_count_flags_from_expr(e, targets),
+            DynamicStringPart::Sequence(sequence) => {
+                for branch in &sequence.branches {
+                    collect_flow_count_flags_from_nodes(branch, targets);
+                }
+            }
+            DynamicStringPart::Conditional {
+                condition,
+                when_true,
+                when_false,
+            } => {
+                collect_flow_count_flags_from_condition(condition, targets);
+                collect_flow_count_flags_from_nodes(when_true, targets);
+                if let Some(nodes) = when_false {
+                    collect_flow_count_flags_from_nodes(nodes, targets);
+                }
+            }
+        }
+    }
+}
+
 fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<String, i32>) {
     match expr {
         Expression::FunctionCall { name, args } => {
@@ -291,6 +353,10 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
                 }
             }
         }
+        // A divert target used as a value may later be counted either way.
+        Expression::DivertTarget(target) => {
+            add_flow_count_flags(targets, target, COUNT_VISITS | COUNT_TURNS);
+        }
         // A bare variable used as a condition (e.g., {label_name}) is treated as
         // a visit-count check at emission time (CNT?).  Flag the target so that
         // it gets COUNT_VISITS even when count_all_visits is false.
@@ -324,6 +390,9 @@ impl EmitContext {
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
         collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
+        for global in story.globals() {
+            collect_flow_count_flags_from_expr(&global.initial_value, &mut raw_flow_count_flags);
+        }
         let mut flow_count_flags = BTreeMap::new();
         for (target, flags) in raw_flow_count_flags {
             // First try unqualified flow targets (knots/stitches)
-- 
2.43.0


From 2bb4f6614f984cdc3aada0f5370009993525888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:13 +0000
Subject: [PATCH 10/69] fix: branches of multi-line conditionals and switches
 start on their own line

---
 compiler/src/parser/conditional.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 830c9e7..6e57af9 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -434,7 +434,9 @@ pub fn fold_conditional_branches(
     }
 
     let mut accumulated_else = None;
-    while let Some((condition, nodes)) = branches.pop() {
+    while let Some((condition, mut nodes)) = branches.pop() {
+        // The branches of a multi-line conditional start on a line of their own.
+        nodes.insert(0, Node::Newline);
         if let Some(condition) = condition {
             accumulated_else = Some(vec![Node::Conditional {
                 condition,
@@ -569,6 +571,10 @@ fn parse_switch_conditional(
         }
     }
 
+    // The branches of a multi-line conditional start on a line of their own.
+    for (_, nodes) in &mut branches {
+        nodes.insert(0, Node::Newline);
+    }
     let mut result = vec![Node::SwitchConditional { value, branches }];
     if !closing_tail.is_empty() {
         result.extend(tokenize_inline_content(&closing_tail)?);
-- 
2.43.0


From efdabdab78209af62ffb38a9502feb120750976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:11 +0000
Subject: [PATCH 11/69] fix: += and -= with a call end the line like = does

---
 compiler/src/emitter/expression.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index f5e231e..ea1ff7d 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -202,6 +202,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
         AssignMode::SubtractAssign => {
             out.push(json!("ev"));
@@ -219,6 +222,9 @@ fn emit_assignment(
                 out.push(json!({"VAR=": variable_name, "re": true}));
             }
             out.push(json!("/ev"));
+            if expression_has_function_call(expression) {
+                out.push(json!("\n"));
+            }
         }
     }
 }
-- 
2.43.0


From 5baecf27d43ac2703b468f7afe65d267bd8d02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 12/69] fix: END or DONE on the line after a choice ends the
 choice's line first

---
 compiler/src/emitter/choice.rs         | 3 ++-
 compiler/src/emitter/choice_wrapped.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index ed93520..667e7ec 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -79,7 +79,8 @@ fn emit_choice(
             // the trailing whitespace needed to join the diverted content).
             let body_is_terminal_divert = matches!(
                 choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
+                [Node::Divert(d)] if choice.body_divert_is_inline
+                    && (d.target == "END" || d.target == "DONE")
             );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 05a0197..65757e5 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -234,7 +234,8 @@ fn emit_wrapped_loop_choice_body(
         if !body_already_emitted && !choice.has_start_content {
             let body_is_terminal_divert = matches!(
                 choice.body.as_slice(),
-                [Node::Divert(d)] if d.target == "END" || d.target == "DONE"
+                [Node::Divert(d)] if choice.body_divert_is_inline
+                    && (d.target == "END" || d.target == "DONE")
             );
             let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
-- 
2.43.0


From b0d611664d17e3258f4653152620bd2e2bc9d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 13/69] fix: find turn references inside string literals too

---
 compiler/src/emitter/context.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 04a763e..c04a762 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -366,6 +366,11 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
         Expression::Negate(inner) | Expression::Not(inner) => {
             collect_flow_count_flags_from_expr(inner, targets);
         }
+        Expression::Str(text) => {
+            if let Ok(text) = parse_dynamic_string(text) {
+                collect_flow_count_flags_from_string(&text, targets);
+            }
+        }
         Expression::Binary { left, right, .. } => {
             collect_flow_count_flags_from_expr(left, targets);
             collect_flow_count_flags_from_expr(right, targets);
-- 
2.43.0


From 75ec26a9098ad123e9c5431753ee856275bd2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 14/69] fix: an exhausted once-only block leaves no value
 behind

---
 compiler/src/emitter/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index ea1ff7d..502383b 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -63,7 +63,8 @@ fn emit_sequence(
     }
     out.push(json!("/ev"));
 
-    for (index, _) in sequence.branches.iter().enumerate() {
+    // Every branch pops the index, the empty one of an exhausted "once" included.
+    for index in 0..branch_count {
         out.push(json!("ev"));
         out.push(json!("du"));
         out.push(json!(index as i32));
-- 
2.43.0


From 2df965f98d51d42c21442e80239051a5b028a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:47 +0000
Subject: [PATCH 15/69] fix: a divert on the line after a tagged choice starts
 a new line

---
 compiler/src/emitter/choice.rs         | 3 ++-
 compiler/src/emitter/choice_wrapped.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 667e7ec..7ff52a6 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -82,7 +82,8 @@ fn emit_choice(
                 [Node::Divert(d)] if choice.body_divert_is_inline
                     && (d.target == "END" || d.target == "DONE")
             );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
+            let body_is_inline_divert = choice.body_divert_is_inline
+                && matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
             if choice.body_divert_is_inline
                 && !body_is_terminal_divert
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index 65757e5..c2397b7 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -237,7 +237,8 @@ fn emit_wrapped_loop_choice_body(
                 [Node::Divert(d)] if choice.body_divert_is_inline
                     && (d.target == "END" || d.target == "DONE")
             );
-            let body_is_inline_divert = matches!(choice.body.as_slice(), [Node::Divert(_)])
+            let body_is_inline_divert = choice.body_divert_is_inline
+                && matches!(choice.body.as_slice(), [Node::Divert(_)])
                 && selected_text.ends_with(char::is_whitespace);
             if !body_is_terminal_divert && !body_is_inline_divert {
                 branch_nodes.push(Node::Newline);
-- 
2.43.0


From e4b0b86ba2bf948ee04f9f4688cd902ea746fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:16 +0000
Subject: [PATCH 16/69] fix: a switch without an else drops its value when no
 case matches

---
 compiler/src/emitter/conditional.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index a3296c3..7c9c1ca 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -226,8 +226,9 @@ fn emit_switch_conditional(
     let preamble_len = value_tokens.len() + 2; // ev + value_tokens + /ev
 
     let num_branches = branches.len();
-    // Layout: [preamble_len tokens] [N branch arrays] [nop]
-    let nop_index = switch_index + preamble_len + num_branches;
+    let has_else = branches.iter().any(|(case_expr, _)| case_expr.is_none());
+    // Layout: [preamble_len tokens] [N branch arrays] [pop unless there is an else] [nop]
+    let nop_index = switch_index + preamble_len + num_branches + usize::from(!has_else);
     let exit_target = joined_path(&scope.path, nop_index);
 
     // Emit all branch bodies first (they all reference exit_target)
@@ -289,6 +290,10 @@ fn emit_switch_conditional(
         }
     }
 
+    // Falling through every case leaves the switch value behind.
+    if !has_else {
+        out.push(json!("pop"));
+    }
     out.push(json!("nop"));
     Ok(out)
 }
-- 
2.43.0


From e446e0cd8653a35da005b5d8504704baff9dea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:36 +0000
Subject: [PATCH 17/69] fix: integer arithmetic wraps to 32 bits and division
 by zero is a story error

---
 runtime/src/native_function_call.rs | 22 ++++++++++++++--------
 runtime/src/story/control_logic.rs  | 26 +++++++++++++++++++-------
 runtime/src/story/mod.rs            |  4 +++-
 3 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index f048af4..c52b6fa 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -297,9 +297,9 @@ impl NativeFunctionCall {
         for (list_item, list_item_value) in list_val.items.iter() {
             let target_int = {
                 if self.op == Op::Add {
-                    list_item_value + int_val
+                    list_item_value.wrapping_add(int_val)
                 } else {
-                    list_item_value - int_val
+                    list_item_value.wrapping_sub(int_val)
                 }
             };
 
@@ -545,7 +545,7 @@ impl NativeFunctionCall {
     fn subtract_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(*op1 - op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_sub(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -571,7 +571,7 @@ impl NativeFunctionCall {
     fn add_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 + op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_add(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -608,7 +608,10 @@ impl NativeFunctionCall {
     fn divide_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 / op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Division by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_div(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -650,7 +653,7 @@ impl NativeFunctionCall {
     fn multiply_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 * op2))),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_mul(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -850,7 +853,10 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1 % op2))),
+                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
+                    "Modulo by zero.".to_owned(),
+                )),
+                ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
                 )),
@@ -984,7 +990,7 @@ impl NativeFunctionCall {
 
     fn negate_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match &params[0].value {
-            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(-op1))),
+            ValueType::Int(op1) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_neg()))),
             ValueType::Float(op1) => Ok(Rc::new(Value::new::<f32>(-op1))),
             _ => Err(StoryError::InvalidStoryState(
                 "Operation not available for type.".to_owned(),
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 779e6ae..8d52724 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -383,22 +383,32 @@ impl Story {
 
                     let min_value = min_int.unwrap();
                     let max_value = max_int.unwrap();
-                    let random_range = max_value - min_value + 1;
+                    let random_range = i64::from(max_value) - i64::from(min_value) + 1;
                     if random_range <= 0 {
                         return Err(StoryError::InvalidStoryState(format!(
                             "RANDOM was called with minimum as {} and maximum as {}. The maximum must be larger",
                             min_value, max_value
                         )));
                     }
+                    if random_range > i64::from(i32::MAX) {
+                        return Err(StoryError::InvalidStoryState(format!(
+                            "RANDOM was called with minimum as {} and maximum as {}. The range exceeds the size that ink numbers can use",
+                            min_value, max_value
+                        )));
+                    }
 
-                    let result_seed =
-                        self.get_state().story_seed + self.get_state().previous_random;
+                    let result_seed = self
+                        .get_state()
+                        .story_seed
+                        .wrapping_add(self.get_state().previous_random);
                     let mut rng = StdRng::seed_from_u64(result_seed as u64);
                     let next_random = rng.random::<u32>();
-                    let chosen_value = (next_random % random_range as u32) as i32 + min_value;
+                    let chosen_value =
+                        ((next_random % random_range as u32) as i32).wrapping_add(min_value);
                     self.get_state_mut()
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(chosen_value)));
-                    self.get_state_mut().previous_random = self.get_state().previous_random + 1;
+                    self.get_state_mut().previous_random =
+                        self.get_state().previous_random.wrapping_add(1);
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
@@ -535,8 +545,10 @@ impl Story {
                         // Non-empty source list
                         else {
                             // Generate a random index for the element to take
-                            let result_seed =
-                                self.get_state().story_seed + self.get_state().previous_random;
+                            let result_seed = self
+                                .get_state()
+                                .story_seed
+                                .wrapping_add(self.get_state().previous_random);
                             let mut rng = StdRng::seed_from_u64(result_seed as u64);
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 8396c80..3655de9 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -157,7 +157,9 @@ mod misc {
             // - How many times the runtime has looped around this full shuffle
             let seq_path_str = Object::get_path(seq_container.as_ref()).to_string();
             let sequence_hash: i32 = seq_path_str.chars().map(|c| c as i32).sum();
-            let random_seed = sequence_hash + loop_index + self.get_state().story_seed;
+            let random_seed = sequence_hash
+                .wrapping_add(loop_index)
+                .wrapping_add(self.get_state().story_seed);
 
             let mut rng = StdRng::seed_from_u64(random_seed as u64);
 
-- 
2.43.0


From 59529073557ed16182558ea11f4cd02b17e379aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:57 +0000
Subject: [PATCH 18/69] fix: an empty evaluation stack or an unexpected value
 on it is a story error

---
 runtime/src/story/choices.rs            | 23 ++++++++-----
 runtime/src/story/control_logic.rs      | 45 +++++++++++++++----------
 runtime/src/story/external_functions.rs |  2 +-
 runtime/src/story/mod.rs                |  4 +--
 runtime/src/story_state.rs              | 23 +++++++++----
 5 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index c9ed16e..0dbed2e 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -55,7 +55,7 @@ impl Story {
 
         // Don't create choice if choice point doesn't pass conditional
         if choice_point.has_condition() {
-            let condition_value = self.get_state_mut().pop_evaluation_stack();
+            let condition_value = self.get_state_mut().pop_evaluation_stack()?;
             if !self.is_truthy(condition_value)? {
                 show_choice = false;
             }
@@ -66,11 +66,11 @@ impl Story {
         let mut tags: Vec<String> = Vec::with_capacity(0);
 
         if choice_point.has_choice_only_content() {
-            choice_only_text = self.pop_choice_string_and_tags(&mut tags);
+            choice_only_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         if choice_point.has_start_content() {
-            start_text = self.pop_choice_string_and_tags(&mut tags);
+            start_text = self.pop_choice_string_and_tags(&mut tags)?;
         }
 
         // Don't create choice if player has already read this content
@@ -154,9 +154,16 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> String {
-        let obj = self.get_state_mut().pop_evaluation_stack();
-        let choice_only_str_val = Value::get_value::<&StringValue>(obj.as_ref()).unwrap();
+    fn pop_choice_string_and_tags(
+        &mut self,
+        tags: &mut Vec<String>,
+    ) -> Result<String, StoryError> {
+        let obj = self.get_state_mut().pop_evaluation_stack()?;
+        let Some(choice_only_str_val) = Value::get_value::<&StringValue>(obj.as_ref()) else {
+            return Err(StoryError::InvalidStoryState(
+                "Expected the text of a choice on the evaluation stack".to_owned(),
+            ));
+        };
 
         while !self.get_state().evaluation_stack.is_empty()
             && self
@@ -168,7 +175,7 @@ impl Story {
         {
             let tag = self
                 .get_state_mut()
-                .pop_evaluation_stack()
+                .pop_evaluation_stack()?
                 .into_any()
                 .downcast::<Tag>()
                 .unwrap();
@@ -176,6 +183,6 @@ impl Story {
             // order
         }
 
-        choice_only_str_val.string.to_string()
+        Ok(choice_only_str_val.string.to_string())
     }
 }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 8d52724..724669c 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -38,7 +38,7 @@ impl Story {
         }; // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
-                let o = self.get_state_mut().pop_evaluation_stack();
+                let o = self.get_state_mut().pop_evaluation_stack()?;
                 if !self.is_truthy(o)? {
                     return Ok(true);
                 }
@@ -123,7 +123,7 @@ impl Story {
                     // If the expression turned out to be empty, there may not be
                     // anything on the stack
                     if !self.get_state().evaluation_stack.is_empty() {
-                        let output = self.get_state_mut().pop_evaluation_stack(); // Functions may evaluate to Void, in which case we skip
+                        let output = self.get_state_mut().pop_evaluation_stack()?; // Functions may evaluate to Void, in which case we skip
                         // output
                         if !output.as_ref().as_any().is::<Void>() {
                             // TODO: Should we really always blanket convert to
@@ -147,11 +147,15 @@ impl Story {
                     self.get_state().set_in_expression_evaluation(false);
                 }
                 CommandType::Duplicate => {
-                    let obj = self.get_state().peek_evaluation_stack().unwrap().clone();
+                    let Some(obj) = self.get_state().peek_evaluation_stack().cloned() else {
+                        return Err(StoryError::InvalidStoryState(
+                            "Tried to duplicate a value of an empty evaluation stack".to_owned(),
+                        ));
+                    };
                     self.get_state_mut().push_evaluation_stack(obj);
                 }
                 CommandType::PopEvaluatedValue => {
-                    self.get_state_mut().pop_evaluation_stack();
+                    self.get_state_mut().pop_evaluation_stack()?;
                 }
                 CommandType::PopFunction | CommandType::PopTunnel => {
                     let pop_type = if CommandType::PopFunction == eval_command.command_type {
@@ -162,7 +166,7 @@ impl Story {
                     // divert to go to immediately after returning: ->-> target
                     let mut override_tunnel_return_target = None;
                     if pop_type == PushPopType::Tunnel {
-                        let popped = self.get_state_mut().pop_evaluation_stack();
+                        let popped = self.get_state_mut().pop_evaluation_stack()?;
                         if let Some(v) = Value::get_value::<&Path>(popped.as_ref()) {
                             override_tunnel_return_target = Some(v.clone());
                         }
@@ -301,7 +305,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<i32>(current_turn + 1)));
                 }
                 CommandType::TurnsSince | CommandType::ReadCount => {
-                    let target = self.get_state_mut().pop_evaluation_stack();
+                    let target = self.get_state_mut().pop_evaluation_stack()?;
                     if Value::get_value::<&Path>(target.as_ref()).is_none() {
                         let mut extra_note = "".to_owned();
                         if Value::get_value::<i32>(target.as_ref()).is_some() {
@@ -356,12 +360,12 @@ impl Story {
                 }
                 CommandType::Random => {
                     let mut max_int = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         max_int = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let mut min_int = None;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         min_int = Some(v);
@@ -412,7 +416,7 @@ impl Story {
                 }
                 CommandType::SeedRandom => {
                     let mut seed: Option<i32> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         seed = Some(v);
                     }
@@ -465,12 +469,12 @@ impl Story {
                 CommandType::ListFromInt => {
                     let mut int_val: Option<i32> = None;
                     let mut list_name_val: Option<&String> = None;
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(v) = Value::get_value::<i32>(o.as_ref()) {
                         int_val = Some(v);
                     }
 
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     if let Some(s) = Value::get_value::<&StringValue>(o.as_ref()) {
                         list_name_val = Some(&s.string);
                     }
@@ -509,11 +513,11 @@ impl Story {
                         .push_evaluation_stack(Rc::new(generated_list_value.unwrap()));
                 }
                 CommandType::ListRange => {
-                    let mut p = self.get_state_mut().pop_evaluation_stack();
+                    let mut p = self.get_state_mut().pop_evaluation_stack()?;
                     let max = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let min = p.into_any().downcast::<Value>();
-                    p = self.get_state_mut().pop_evaluation_stack();
+                    p = self.get_state_mut().pop_evaluation_stack()?;
                     let target_list = Value::get_value::<&InkList>(p.as_ref());
                     if target_list.is_none() || min.is_err() || max.is_err() {
                         return Err(StoryError::InvalidStoryState(
@@ -528,7 +532,7 @@ impl Story {
                         .push_evaluation_stack(Rc::new(Value::new::<InkList>(result)));
                 }
                 CommandType::ListRandom => {
-                    let o = self.get_state_mut().pop_evaluation_stack();
+                    let o = self.get_state_mut().pop_evaluation_stack()?;
                     let list = Value::get_value::<&InkList>(o.as_ref());
                     if list.is_none() {
                         return Err(StoryError::InvalidStoryState(
@@ -651,12 +655,17 @@ impl Story {
             .as_any()
             .downcast_ref::<VariableAssignment>()
         {
-            let assigned_val = self.get_state_mut().pop_evaluation_stack(); // When in temporary evaluation, don't create new variables purely
+            let assigned_val = self.get_state_mut().pop_evaluation_stack()?; // When in temporary evaluation, don't create new variables purely
             // within
             // the temporary context, but attempt to create them globally
             // var prioritiseHigherInCallStack = _temporaryEvaluationContainer
             // != null;
-            let assigned_val = assigned_val.into_any().downcast::<Value>().unwrap();
+            let Ok(assigned_val) = assigned_val.into_any().downcast::<Value>() else {
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Tried to assign a void value to '{}'. Did you forget to 'return' a value from a function you called here?",
+                    var_ass.variable_name
+                )));
+            };
             self.get_state_mut()
                 .variables_state
                 .assign(var_ass, assigned_val)?;
@@ -704,7 +713,7 @@ impl Story {
         {
             let func_params = self
                 .get_state_mut()
-                .pop_evaluation_stack_multiple(func.get_number_of_parameters());
+                .pop_evaluation_stack_multiple(func.get_number_of_parameters())?;
             let result = func.call(func_params)?;
             self.get_state_mut().push_evaluation_stack(result);
             return Ok(true);
diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index 177dc8a..f86ca30 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -158,7 +158,7 @@ impl Story {
         // Pop arguments
         let mut arguments: Vec<ValueType> = Vec::new();
         for _ in 0..number_of_arguments {
-            let popped_obj = self.get_state_mut().pop_evaluation_stack();
+            let popped_obj = self.get_state_mut().pop_evaluation_stack()?;
             let value_obj = popped_obj.into_any().downcast::<Value>();
 
             if let Ok(value_obj) = value_obj {
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index 3655de9..e2630a7 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -126,7 +126,7 @@ mod misc {
         }
 
         pub(crate) fn next_sequence_shuffle_index(&mut self) -> Result<i32, StoryError> {
-            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack();
+            let pop_evaluation_stack = self.get_state_mut().pop_evaluation_stack()?;
             let num_elements =
                 if let Some(v) = Value::get_value::<i32>(pop_evaluation_stack.as_ref()) {
                     v
@@ -139,7 +139,7 @@ mod misc {
             let seq_container = self.get_state().get_current_pointer().container.unwrap();
 
             let seq_count = if let Some(v) =
-                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack().as_ref())
+                Value::get_value::<i32>(self.get_state_mut().pop_evaluation_stack()?.as_ref())
             {
                 v
             } else {
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index b9886d1..09552a3 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -896,18 +896,27 @@ impl StoryState {
         self.output_stream_dirty();
     }
 
-    pub fn pop_evaluation_stack(&mut self) -> Rc<dyn RTObject> {
-        self.evaluation_stack.pop().unwrap()
+    pub fn pop_evaluation_stack(&mut self) -> Result<Rc<dyn RTObject>, StoryError> {
+        self.evaluation_stack.pop().ok_or_else(|| {
+            StoryError::InvalidStoryState(
+                "Tried to take a value from an empty evaluation stack".to_owned(),
+            )
+        })
     }
 
     pub fn pop_evaluation_stack_multiple(
         &mut self,
         number_of_objects: usize,
-    ) -> Vec<Rc<dyn RTObject>> {
-        let start = self.evaluation_stack.len() - number_of_objects;
-        let obj: Vec<Rc<dyn RTObject>> = self.evaluation_stack.drain(start..).collect();
+    ) -> Result<Vec<Rc<dyn RTObject>>, StoryError> {
+        let start = self
+            .evaluation_stack
+            .len()
+            .checked_sub(number_of_objects)
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState("Trying to pop too many objects".to_owned())
+            })?;
 
-        obj
+        Ok(self.evaluation_stack.drain(start..).collect())
     }
 
     pub fn set_diverted_pointer(&mut self, p: Pointer) {
@@ -1070,7 +1079,7 @@ impl StoryState {
         // for that)
         let mut returned_obj = None;
         while self.evaluation_stack.len() > original_evaluation_stack_height {
-            let popped_obj = self.pop_evaluation_stack();
+            let popped_obj = self.pop_evaluation_stack()?;
             if returned_obj.is_none() {
                 returned_obj = Some(popped_obj);
             }
-- 
2.43.0


From e7e8337c5ba81aad836249ef5a5b08d76ca6118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 19/69] fix: only look-ahead-unsafe externals are refused in
 strings

---
 runtime/src/story/external_functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/story/external_functions.rs b/runtime/src/story/external_functions.rs
index f86ca30..7a906a2 100644
--- a/runtime/src/story/external_functions.rs
+++ b/runtime/src/story/external_functions.rs
@@ -94,7 +94,7 @@ impl Story {
         // Should this function break glue? Abort run if we've already seen a newline.
         // Set a bool to tell it to restore the snapshot at the end of this instruction.
         if let Some(func_def) = self.externals.get(func_name) {
-            if func_def.lookahead_safe && self.get_state().in_string_evaluation() {
+            if !func_def.lookahead_safe && self.get_state().in_string_evaluation() {
                 // 16th Jan 2023: Example ink that was failing:
                 //
                 //      A line above
-- 
2.43.0


From dac0ffc80c83b542f6ef37d4881dc56620e68ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 20/69] fix: tunnels on the line of a choice

---
 compiler/src/ast.rs            |  2 ++
 compiler/src/emitter/choice.rs | 19 ++++++++++++++++++-
 compiler/src/inline.rs         | 27 +++++++++++++++++++++++++++
 compiler/src/parser/choice.rs  | 10 +++++++++-
 4 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index ddf22c2..0721dc9 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -119,6 +119,8 @@ pub struct Choice {
     pub nesting_level: usize,
     /// True when the divert in body came from an inline `-> target` on the choice line itself.
     pub body_divert_is_inline: bool,
+    /// How many nodes at the start of body are tunnels and diverts of the choice line itself.
+    pub inline_body_len: usize,
 }
 
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/compiler/src/emitter/choice.rs b/compiler/src/emitter/choice.rs
index 7ff52a6..b35c5ea 100644
--- a/compiler/src/emitter/choice.rs
+++ b/compiler/src/emitter/choice.rs
@@ -44,7 +44,24 @@ fn emit_choice(
 
     let mut branch_nodes = Vec::new();
     let mut body_already_emitted = false;
-    if let Some(selected_text) = &choice.selected_text {
+    if choice.inline_body_len > 0
+        && (choice.selected_text.is_some() || choice.has_choice_only_content)
+    {
+        // `* text -> tunnel ->`: the tunnel is on the line of the text, so what it says
+        // continues that line.
+        let (inline_nodes, rest) = choice.body.split_at(choice.inline_body_len);
+        if let Some(selected_text) = &choice.selected_text {
+            branch_nodes.extend(tokenize_inline_content(selected_text)?);
+            branch_nodes.extend(choice.selected_tags.iter().cloned().map(Node::Tag));
+            if choice.selected_tags.is_empty() && !selected_text.ends_with(char::is_whitespace) {
+                branch_nodes.push(Node::Text(" ".to_owned()));
+            }
+        }
+        branch_nodes.extend(inline_nodes.iter().cloned());
+        branch_nodes.push(Node::Newline);
+        branch_nodes.extend(rest.iter().cloned());
+        body_already_emitted = true;
+    } else if let Some(selected_text) = &choice.selected_text {
         let recovered_inline_divert = if choice.body.is_empty() {
             recover_selected_text_inline_divert(selected_text)
         } else {
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index e052fe8..0b4f6bb 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -402,6 +402,33 @@ pub fn split_inline_divert(content: &str) -> Option<(&str, &str)> {
     }
 }
 
+/// Split off the diverts at the end of a line when they are more than one plain divert.
+pub fn split_inline_tunnels(content: &str) -> Option<(&str, &str)> {
+    let bytes = content.as_bytes();
+    let mut depth = 0usize;
+    let mut first: Option<usize> = None;
+    let mut arrows = 0;
+    let mut i = 0;
+    while i < bytes.len() {
+        match bytes[i] {
+            b'{' | b'(' | b'[' => depth += 1,
+            b'}' | b')' | b']' => depth = depth.saturating_sub(1),
+            b'-' if depth == 0 && bytes.get(i + 1) == Some(&b'>') => {
+                first.get_or_insert(i);
+                arrows += 1;
+                i += 1;
+            }
+            _ => {}
+        }
+        i += 1;
+    }
+
+    if arrows < 2 {
+        return None;
+    }
+    Some(content.split_at(first?))
+}
+
 pub fn split_inline_choice_divert(input: &str) -> Result<(&str, Option<Divert>), CompilerError> {
     if let Some((text, divert_part)) = split_inline_divert(input) {
         return Ok((text.trim_end(), Some(parse_divert(divert_part)?)));
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 993b693..5431c65 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -8,7 +8,7 @@ use super::inline::parse_divert_line;
 use super::{
     Line, ParsedStatement,
     inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
+        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert, split_inline_tunnels,
         split_text_and_tags,
     },
 };
@@ -230,6 +230,7 @@ pub fn parse_choice(
         selected_tags: choice_text.selected_tags,
         nesting_level,
         body_divert_is_inline: choice_text.inline_target.is_some(),
+        inline_body_len: choice_text.inline_body_nodes.len(),
     })]))
 }
 
@@ -322,6 +323,13 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         });
     }
 
+    // Tunnels at the end of the line: `* text -> tunnel ->`, `-> tunnel -> target`, `->->`.
+    if let Some((text, diverts)) = split_inline_tunnels(trimmed) {
+        let mut parsed = parse_choice_text(text)?;
+        parsed.inline_body_nodes = parse_divert_line(diverts)?;
+        return Ok(parsed);
+    }
+
     if let Some(target) = trimmed.strip_prefix("->") {
         let inline_target = if target.trim().is_empty() {
             None
-- 
2.43.0


From 3979306e687bcdaa00614688ec7f6fad1a17b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 21/69] fix: list literals in global declarations name the
 lists of their items

---
 compiler/src/emitter/context.rs    |  2 +-
 compiler/src/emitter/expression.rs | 11 +++++++----
 compiler/src/emitter/flow.rs       |  8 +++++++-
 compiler/src/parser/choice.rs      |  4 ++--
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index c04a762..8a9b79c 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -40,7 +40,7 @@ pub fn story_to_json_value(
     if !story.globals().is_empty() || !story.list_declarations().is_empty() {
         named_content.insert(
             "global decl".to_owned(),
-            emit_global_declarations(story.globals(), story.list_declarations())?
+            emit_global_declarations(story.globals(), story.list_declarations(), &context)?
                 .into_json_array(None, None)?,
         );
     }
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 502383b..c434ddd 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -230,10 +230,6 @@ fn emit_assignment(
     }
 }
 
-fn emit_expression(expression: &Expression, out: &mut Vec<Value>) {
-    emit_expression_ctx(expression, out, None, None);
-}
-
 fn emit_expression_ctx(
     expression: &Expression,
     out: &mut Vec<Value>,
@@ -413,6 +409,13 @@ fn emit_expression_ctx(
                 out.push(json!({"f()": name}));
             }
         }
+        // `(name)` is a list of one item only if there is such an item.
+        Expression::ListItems(items)
+            if items.len() == 1
+                && context.is_some_and(|ctx| ctx.resolve_list_item(&items[0]).is_none()) =>
+        {
+            emit_expression_ctx(&Expression::Variable(items[0].clone()), out, context, scope);
+        }
         Expression::ListItems(items) => {
             let mut list_map = serde_json::Map::new();
             for bare_name in items {
diff --git a/compiler/src/emitter/flow.rs b/compiler/src/emitter/flow.rs
index 801e490..b58ffff 100644
--- a/compiler/src/emitter/flow.rs
+++ b/compiler/src/emitter/flow.rs
@@ -1,6 +1,7 @@
 fn emit_global_declarations(
     globals: &[GlobalVariable],
     list_decls: &[ListDeclaration],
+    context: &EmitContext,
 ) -> Result<EmittedContainer, CompilerError> {
     let mut container = EmittedContainer::default();
     container.push(json!("ev"));
@@ -26,7 +27,12 @@ fn emit_global_declarations(
     }
 
     for global in globals {
-        emit_expression(&global.initial_value, &mut container.content);
+        emit_expression_ctx(
+            &global.initial_value,
+            &mut container.content,
+            Some(context),
+            None,
+        );
         container.push(json!({ "VAR=": global.name }));
     }
 
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 5431c65..01c29d3 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -8,8 +8,8 @@ use super::inline::parse_divert_line;
 use super::{
     Line, ParsedStatement,
     inline::{
-        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert, split_inline_tunnels,
-        split_text_and_tags,
+        parse_condition, parse_divert, split_inline_choice_divert, split_inline_divert,
+        split_inline_tunnels, split_text_and_tags,
     },
 };
 
-- 
2.43.0


From 0b51585ff6e7ded053f59f6ce9eb5f8dfe2670f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 22/69] fix: list operations do not depend on hash map order
 and keep the origins of emptied lists

---
 runtime/src/ink_list.rs                | 47 +++++++++++---------------
 runtime/src/list_definition.rs         | 12 +++----
 runtime/src/list_definitions_origin.rs |  7 +++-
 runtime/src/native_function_call.rs    |  6 ++--
 runtime/src/story/choices.rs           |  5 +--
 runtime/src/story/control_logic.rs     | 10 +++---
 6 files changed, 39 insertions(+), 48 deletions(-)

diff --git a/runtime/src/ink_list.rs b/runtime/src/ink_list.rs
index e171a48..bd8f27e 100644
--- a/runtime/src/ink_list.rs
+++ b/runtime/src/ink_list.rs
@@ -59,47 +59,32 @@ impl InkList {
             ink_list.items.insert(item.clone(), *value);
         }
 
-        ink_list.initial_origin_names = other_list.initial_origin_names.clone();
+        // A copy that loses its items still knows the lists they came from.
+        ink_list.set_initial_origin_names(other_list.get_origin_names());
 
         ink_list.origins = other_list.origins.clone();
 
         ink_list
     }
 
-    fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
+    pub(crate) fn get_ordered_items(&self) -> Vec<(&InkListItem, &i32)> {
         let mut ordered: Vec<_> = self.items.iter().collect();
+        // By value; items with equal values are ordered by name so that the
+        // result never depends on the order of the hash map.
         ordered.sort_by(|a, b| {
-            if a.1 == b.1 {
-                a.0.get_origin_name().cmp(&b.0.get_origin_name())
-            } else {
-                a.1.cmp(b.1)
-            }
+            a.1.cmp(b.1)
+                .then_with(|| a.0.get_origin_name().cmp(&b.0.get_origin_name()))
+                .then_with(|| a.0.get_item_name().cmp(b.0.get_item_name()))
         });
         ordered
     }
 
     pub fn get_max_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut max: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if max.is_none() || *v > max.as_ref().unwrap().1 {
-                max = Some((k, *v));
-            }
-        }
-
-        max
+        self.get_ordered_items().last().map(|(k, v)| (*k, **v))
     }
 
     pub fn get_min_item(&self) -> Option<(&InkListItem, i32)> {
-        let mut min: Option<(&InkListItem, i32)> = None;
-
-        for (k, v) in &self.items {
-            if min.is_none() || *v < min.as_ref().unwrap().1 {
-                min = Some((k, *v));
-            }
-        }
-
-        min
+        self.get_ordered_items().first().map(|(k, v)| (*k, **v))
     }
 
     pub fn set_initial_origin_names(&self, initial_origin_names: Vec<String>) {
@@ -108,12 +93,18 @@ impl InkList {
 
     pub fn get_origin_names(&self) -> Vec<String> {
         if !self.items.is_empty() {
-            let mut names = Vec::new();
+            let mut names: Vec<String> = Vec::new();
 
             for k in self.items.keys() {
-                names.push(k.get_origin_name().unwrap().clone());
+                if let Some(name) = k.get_origin_name()
+                    && !names.contains(name)
+                {
+                    names.push(name.clone());
+                }
             }
 
+            names.sort();
+
             return names;
         }
 
@@ -220,7 +211,7 @@ impl InkList {
         }
 
         let mut sub_list = InkList::new();
-        sub_list.set_initial_origin_names(self.initial_origin_names.borrow().clone());
+        sub_list.set_initial_origin_names(self.get_origin_names());
 
         for (k, v) in ordered {
             if *v >= min_value && *v <= max_value {
diff --git a/runtime/src/list_definition.rs b/runtime/src/list_definition.rs
index e057912..7bc2532 100644
--- a/runtime/src/list_definition.rs
+++ b/runtime/src/list_definition.rs
@@ -49,11 +49,11 @@ impl ListDefinition {
     }
 
     pub fn get_item_with_value(&self, val: i32) -> Option<InkListItem> {
-        for (item_name, value) in &self.item_name_to_values {
-            if *value == val {
-                return Some(InkListItem::new(Some(self.name.clone()), item_name.clone()));
-            }
-        }
-        None
+        self.item_name_to_values
+            .iter()
+            .filter(|(_, value)| **value == val)
+            .map(|(item_name, _)| item_name)
+            .min()
+            .map(|item_name| InkListItem::new(Some(self.name.clone()), item_name.clone()))
     }
 }
diff --git a/runtime/src/list_definitions_origin.rs b/runtime/src/list_definitions_origin.rs
index b8886b5..998e634 100644
--- a/runtime/src/list_definitions_origin.rs
+++ b/runtime/src/list_definitions_origin.rs
@@ -15,6 +15,10 @@ impl ListDefinitionsOrigin {
             all_unambiguous_list_value_cache: HashMap::new(),
         };
 
+        // In order of their names: an item name that several lists share always
+        // means the item of the same list.
+        lists.sort_by(|a, b| a.get_name().cmp(b.get_name()));
+
         for list in lists {
             list_definitions_origin
                 .lists
@@ -28,7 +32,8 @@ impl ListDefinitionsOrigin {
 
                 list_definitions_origin
                     .all_unambiguous_list_value_cache
-                    .insert(key.get_item_name().to_string(), list_value.clone());
+                    .entry(key.get_item_name().to_string())
+                    .or_insert_with(|| list_value.clone());
                 list_definitions_origin
                     .all_unambiguous_list_value_cache
                     .insert(key.get_full_name().to_string(), list_value.clone());
diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index c52b6fa..23e82d0 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -853,9 +853,9 @@ impl NativeFunctionCall {
     fn mod_op(&self, params: &[Rc<Value>]) -> Result<Rc<dyn RTObject>, StoryError> {
         match params[0].value {
             ValueType::Int(op1) => match params[1].value {
-                ValueType::Int(0) => Err(StoryError::InvalidStoryState(
-                    "Modulo by zero.".to_owned(),
-                )),
+                ValueType::Int(0) => {
+                    Err(StoryError::InvalidStoryState("Modulo by zero.".to_owned()))
+                }
                 ValueType::Int(op2) => Ok(Rc::new(Value::new::<i32>(op1.wrapping_rem(op2)))),
                 _ => Err(StoryError::InvalidStoryState(
                     "Operation not available for type.".to_owned(),
diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index 0dbed2e..d620f25 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -154,10 +154,7 @@ impl Story {
         self.choose_path(&choice.target_path, false)
     }
 
-    fn pop_choice_string_and_tags(
-        &mut self,
-        tags: &mut Vec<String>,
-    ) -> Result<String, StoryError> {
+    fn pop_choice_string_and_tags(&mut self, tags: &mut Vec<String>) -> Result<String, StoryError> {
         let obj = self.get_state_mut().pop_evaluation_stack()?;
         let Some(choice_only_str_val) = Value::get_value::<&StringValue>(obj.as_ref()) else {
             return Err(StoryError::InvalidStoryState(
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 724669c..f06b59f 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -3,7 +3,6 @@ use crate::{
     control_command::{CommandType, ControlCommand},
     divert::Divert,
     ink_list::InkList,
-    ink_list_item::InkListItem,
     native_function_call::NativeFunctionCall,
     object::RTObject,
     path::Path,
@@ -479,7 +478,7 @@ impl Story {
                         list_name_val = Some(&s.string);
                     }
 
-                    if int_val.is_none() {
+                    if int_val.is_none() || list_name_val.is_none() {
                         return Err(StoryError::InvalidStoryState("Passed non-integer when creating a list element from a numerical value.".to_owned()));
                     }
 
@@ -557,11 +556,10 @@ impl Story {
                             let next_random = rng.random::<u32>();
                             let list_item_index = (next_random as usize) % list.items.len(); // Iterate through to get the random element, sorted for
                             // predictibility
-                            let mut sorted: Vec<(&InkListItem, &i32)> = list.items.iter().collect();
-                            sorted.sort_by(|a, b| b.1.cmp(a.1));
-                            let random_item = sorted[list_item_index]; // Origin list is simply the origin of the one element
+                            let sorted = list.get_ordered_items();
+                            let random_item = sorted[sorted.len() - 1 - list_item_index]; // Origin list is simply the origin of the one element
                             let mut new_list = InkList::from_single_origin(
-                                random_item.0.get_origin_name().unwrap().clone(),
+                                random_item.0.get_origin_name().cloned().unwrap_or_default(),
                                 self.list_definitions.as_ref(),
                             )?;
                             new_list.items.insert(random_item.0.clone(), *random_item.1);
-- 
2.43.0


From 9b865b2bd52477693c8292a6cc9f2b4f44b0af85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 23/69] fix: assigning an empty list does not change the list
 literal it came from

---
 runtime/src/callstack.rs       |  7 ++++---
 runtime/src/story_state.rs     |  4 +++-
 runtime/src/value.rs           | 18 +++++++++++++++---
 runtime/src/variables_state.rs |  7 ++++---
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index 5c162c7..fdc7fc3 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -342,9 +342,10 @@ impl CallStack {
 
         let old_value = context_element.temporary_variables.get(&name).cloned();
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match &old_value {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value.as_ref(), value),
+            None => value,
+        };
 
         context_element.temporary_variables.insert(name, value);
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 09552a3..f196534 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -369,7 +369,9 @@ impl StoryState {
             list.origins.borrow_mut().clear();
 
             for name in &origin_names {
-                let def = self.list_definitions.get_list_definition(name).unwrap();
+                let Some(def) = self.list_definitions.get_list_definition(name) else {
+                    continue;
+                };
                 if !list.origins.borrow().iter().any(|e| std::ptr::eq(e, def)) {
                     list.origins.borrow_mut().push(def.clone());
                 }
diff --git a/runtime/src/value.rs b/runtime/src/value.rs
index 73fea70..401ce98 100644
--- a/runtime/src/value.rs
+++ b/runtime/src/value.rs
@@ -1,3 +1,5 @@
+use std::rc::Rc;
+
 use std::fmt;
 
 use crate::{
@@ -187,13 +189,23 @@ impl Value {
         }
     }
 
-    pub fn retain_list_origins_for_assignment(old_value: &dyn RTObject, new_value: &dyn RTObject) {
+    /// The value to store when `new_value` is assigned over `old_value`: an
+    /// empty list keeps the origins of the list it replaces. The new value may
+    /// be shared with the story content, so a copy is made.
+    pub fn retain_list_origins_for_assignment(
+        old_value: &dyn RTObject,
+        new_value: Rc<Value>,
+    ) -> Rc<Value> {
         if let Some(old_list) = Self::get_value::<&InkList>(old_value)
-            && let Some(new_list) = Self::get_value::<&InkList>(new_value)
+            && let Some(new_list) = Self::get_value::<&InkList>(new_value.as_ref())
             && new_list.items.is_empty()
         {
-            new_list.set_initial_origin_names(old_list.get_origin_names());
+            let list = new_list.clone();
+            list.set_initial_origin_names(old_list.get_origin_names());
+            return Rc::new(Value::new::<InkList>(list));
         }
+
+        new_value
     }
 
     pub fn get_cast_ordinal(&self) -> u8 {
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 1730c4c..971d958 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -289,9 +289,10 @@ impl VariablesState {
             old_value = self.global_variables.get(name).cloned();
         }
 
-        if let Some(old_value) = &old_value {
-            Value::retain_list_origins_for_assignment(old_value.as_ref(), value.as_ref());
-        }
+        let value = match &old_value {
+            Some(old_value) => Value::retain_list_origins_for_assignment(old_value.as_ref(), value),
+            None => value,
+        };
 
         if let Some(patch) = &mut self.patch {
             patch.set_global(name, value.clone());
-- 
2.43.0


From 3d970fdb24b24dd69ecf2d9018c277645fbb9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:56 +0000
Subject: [PATCH 24/69] fix: saves keep pending fallback choices, empty list
 origins and the current flow

---
 runtime/src/choice.rs          |  3 ++-
 runtime/src/json/json_read.rs  |  5 +++++
 runtime/src/json/json_write.rs | 11 +++++++++++
 runtime/src/story_state.rs     | 14 +++-----------
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/runtime/src/choice.rs b/runtime/src/choice.rs
index fb55f9d..fbe075b 100644
--- a/runtime/src/choice.rs
+++ b/runtime/src/choice.rs
@@ -56,11 +56,12 @@ impl Choice {
         index: usize,
         original_thread_index: usize,
         choice_tags: Vec<String>,
+        is_invisible_default: bool,
     ) -> Choice {
         Choice {
             obj: Object::new(),
             target_path: Path::new_with_components_string(Some(path_string_on_choice)),
-            is_invisible_default: false,
+            is_invisible_default,
             tags: choice_tags,
             index: RefCell::new(index),
             original_thread_index: RefCell::new(original_thread_index),
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 900a6ed..58e46ef 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -422,6 +422,10 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
     let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
     let choice_tags = jarray_to_tags(obj);
+    let is_invisible_default = obj
+        .get("isInvisibleDefault")
+        .and_then(|v| v.as_bool())
+        .unwrap_or(false);
 
     Ok(Rc::new(Choice::new_from_json(
         path_string_on_choice,
@@ -430,6 +434,7 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
         index,
         original_thread_index,
         choice_tags,
+        is_invisible_default,
     )))
 }
 
diff --git a/runtime/src/json/json_write.rs b/runtime/src/json/json_write.rs
index 6a89456..f957520 100644
--- a/runtime/src/json/json_write.rs
+++ b/runtime/src/json/json_write.rs
@@ -266,6 +266,12 @@ pub fn write_ink_list(list: &InkList) -> serde_json::Value {
 
     jobj.insert("list".to_owned(), serde_json::Value::Object(jlist));
 
+    // An empty list only knows where it came from by its origins.
+    let origins = list.get_origin_names();
+    if list.items.is_empty() && !origins.is_empty() {
+        jobj.insert("origins".to_owned(), json!(origins));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
@@ -286,6 +292,11 @@ pub fn write_choice(choice: &Choice) -> serde_json::Value {
 
     jobj.insert("tags".to_owned(), write_choice_tags(choice));
 
+    // Only present when set, so that other saves keep their form.
+    if choice.is_invisible_default {
+        jobj.insert("isInvisibleDefault".to_owned(), json!(true));
+    }
+
     serde_json::Value::Object(jobj)
 }
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index f196534..bc7ae12 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -795,19 +795,11 @@ impl StoryState {
             copy.current_flow.current_choices = self.current_flow.current_choices.clone();
         }
 
-        // The copy of the state has its own copy of the named flows dictionary,
-        // except with the current flow replaced with the copy above
-        // (Assuming we're in multi-flow mode at all. If we're not then
-        // the above copy is simply the default flow copy and we're done)
+        // The named flows are the flows other than the current one (which is
+        // copied above), so they can be taken over as they are.
         if self.named_flows.is_some() {
-            let mut nf = self.named_flows.clone();
-            nf.as_mut().unwrap().insert(
-                copy.current_flow.name.to_string(),
-                copy.current_flow.clone(),
-            );
+            copy.named_flows = self.named_flows.clone();
             copy.alive_flow_names_dirty = true;
-
-            copy.named_flows = nf;
         }
 
         if self.has_error() {
-- 
2.43.0


From 708cf80afdfec55c57f9ae402bd199877e93d7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:20 +0000
Subject: [PATCH 25/69] fix: malformed stories and saves are rejected with an
 error

---
 runtime/src/callstack.rs       |  29 +++----
 runtime/src/flow.rs            |  78 +++++++++----------
 runtime/src/json/json_read.rs  | 138 +++++++++++++++++++++------------
 runtime/src/story_state.rs     |  97 +++++++++--------------
 runtime/src/variables_state.rs |   4 +-
 5 files changed, 180 insertions(+), 166 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index fdc7fc3..afba5db 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -63,11 +63,7 @@ impl Thread {
     ) -> Result<Thread, StoryError> {
         let mut thread = Thread::new();
 
-        thread.thread_index = j_obj
-            .get("threadIndex")
-            .and_then(|i| i.as_i64())
-            .ok_or(StoryError::BadJson("Invalid thread index".to_owned()))?
-            as usize;
+        thread.thread_index = json_read::json_usize(json_read::json_member(j_obj, "threadIndex")?)?;
 
         if let Some(j_thread_callstack) = j_obj
             .get("callstack")
@@ -134,6 +130,10 @@ impl Thread {
             thread.previous_pointer = Story::pointer_at_path(main_content_container, &prev_path)?;
         }
 
+        if thread.callstack.is_empty() {
+            return Err(StoryError::BadJson("thread without callstack".to_owned()));
+        }
+
         Ok(thread)
     }
 
@@ -171,12 +171,10 @@ impl Thread {
         thread.insert("callstack".to_owned(), serde_json::Value::Array(cs_array));
         thread.insert("threadIndex".to_owned(), json!(self.thread_index));
 
-        if !self.previous_pointer.is_null() {
+        if let Some(previous_content) = self.previous_pointer.resolve() {
             thread.insert(
                 "previousContentObject".to_owned(),
-                json!(
-                    Object::get_path(self.previous_pointer.resolve().unwrap().as_ref()).to_string()
-                ),
+                json!(Object::get_path(previous_content.as_ref()).to_string()),
             );
         }
 
@@ -428,15 +426,18 @@ impl CallStack {
     ) -> Result<(), StoryError> {
         self.threads.clear();
 
-        let j_threads = j_obj.get("threads").unwrap();
-
-        for j_thread_tok in j_threads.as_array().unwrap().iter() {
-            let j_thread_obj = j_thread_tok.as_object().unwrap();
+        for j_thread_tok in json_read::json_array(json_read::json_member(j_obj, "threads")?)? {
+            let j_thread_obj = json_read::json_object(j_thread_tok)?;
             let thread = Thread::from_json(main_content_container, j_thread_obj)?;
             self.threads.push(thread);
         }
 
-        self.thread_counter = j_obj.get("threadCounter").unwrap().as_i64().unwrap() as usize;
+        if self.threads.is_empty() {
+            return Err(StoryError::BadJson("callstack without threads".to_owned()));
+        }
+
+        self.thread_counter =
+            json_read::json_usize(json_read::json_member(j_obj, "threadCounter")?)?;
         self.start_of_root = Pointer::start_of(main_content_container.clone()).clone();
 
         Ok(())
diff --git a/runtime/src/flow.rs b/runtime/src/flow.rs
index db07aa1..3228116 100644
--- a/runtime/src/flow.rs
+++ b/runtime/src/flow.rs
@@ -38,33 +38,18 @@ impl Flow {
             name: name.to_string(),
             callstack: Rc::new(RefCell::new(CallStack::new(main_content_container.clone()))),
             output_stream: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("outputStream")
-                    .ok_or(StoryError::BadJson("outputStream not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
+                json_read::json_array(json_read::json_member(j_obj, "outputStream")?)?,
                 false,
             )?,
-            current_choices: json_read::jarray_to_runtime_obj_list(
-                j_obj
-                    .get("currentChoices")
-                    .ok_or(StoryError::BadJson("currentChoices not found.".to_owned()))?
-                    .as_array()
-                    .unwrap(),
-                false,
-            )?
-            .iter()
-            .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-            .collect::<Vec<Rc<Choice>>>(),
+            current_choices: Self::choices_from_json(json_read::json_member(
+                j_obj,
+                "currentChoices",
+            )?)?,
         };
 
         flow.callstack.borrow_mut().load_json(
             &main_content_container,
-            j_obj
-                .get("callstack")
-                .ok_or(StoryError::BadJson("loading callstack".to_owned()))?
-                .as_object()
-                .unwrap(),
+            json_read::json_object(json_read::json_member(j_obj, "callstack")?)?,
         )?;
         let j_choice_threads = j_obj.get("choiceThreads");
 
@@ -73,6 +58,19 @@ impl Flow {
         Ok(flow)
     }
 
+    pub(crate) fn choices_from_json(
+        j_choices: &serde_json::Value,
+    ) -> Result<Vec<Rc<Choice>>, StoryError> {
+        json_read::jarray_to_runtime_obj_list(json_read::json_array(j_choices)?, false)?
+            .into_iter()
+            .map(|o| {
+                o.into_any()
+                    .downcast::<Choice>()
+                    .map_err(|_| StoryError::BadJson("expected a choice".to_owned()))
+            })
+            .collect()
+    }
+
     pub(crate) fn write_json(&self) -> Result<serde_json::Value, StoryError> {
         let mut flow: Map<String, serde_json::Value> = Map::new();
 
@@ -133,25 +131,27 @@ impl Flow {
         j_choice_threads: Option<&serde_json::Value>,
         main_content_container: Rc<Container>,
     ) -> Result<(), StoryError> {
-        for choice in self.current_choices.iter_mut() {
-            self.callstack
-                .borrow()
-                .get_thread_with_index(*choice.original_thread_index.borrow())
-                .map(|o| choice.set_thread_at_generation(o.clone()))
-                .or_else(|| {
+        for choice in self.current_choices.iter() {
+            let index = *choice.original_thread_index.borrow();
+            let active_thread = self.callstack.borrow().get_thread_with_index(index).cloned();
+
+            let thread = match active_thread {
+                Some(thread) => thread,
+                None => {
                     let j_saved_choice_thread = j_choice_threads
-                        .and_then(|c| c.get(choice.original_thread_index.borrow().to_string()))
-                        .ok_or("loading choice threads")
-                        .unwrap();
-                    choice.set_thread_at_generation(
-                        Thread::from_json(
-                            &main_content_container,
-                            j_saved_choice_thread.as_object().unwrap(),
-                        )
-                        .unwrap(),
-                    );
-                    Some(())
-                });
+                        .and_then(|c| c.get(index.to_string()))
+                        .ok_or_else(|| {
+                            StoryError::BadJson("thread of a choice not found".to_owned())
+                        })?;
+
+                    Thread::from_json(
+                        &main_content_container,
+                        json_read::json_object(j_saved_choice_thread)?,
+                    )?
+                }
+            };
+
+            choice.set_thread_at_generation(thread);
         }
 
         Ok(())
diff --git a/runtime/src/json/json_read.rs b/runtime/src/json/json_read.rs
index 58e46ef..732ab67 100644
--- a/runtime/src/json/json_read.rs
+++ b/runtime/src/json/json_read.rs
@@ -26,6 +26,44 @@ use crate::{
     void::Void,
 };
 
+fn malformed(what: &str) -> StoryError {
+    StoryError::BadJson(format!("Malformed story or save: {what}"))
+}
+
+pub(crate) fn json_str(v: &serde_json::Value) -> Result<&str, StoryError> {
+    v.as_str().ok_or_else(|| malformed("expected a string"))
+}
+
+pub(crate) fn json_i32(v: &serde_json::Value) -> Result<i32, StoryError> {
+    v.as_i64()
+        .and_then(|v| v.try_into().ok())
+        .ok_or_else(|| malformed("expected a 32 bit integer"))
+}
+
+pub(crate) fn json_usize(v: &serde_json::Value) -> Result<usize, StoryError> {
+    v.as_u64()
+        .and_then(|v| v.try_into().ok())
+        .ok_or_else(|| malformed("expected a non-negative integer"))
+}
+
+pub(crate) fn json_array(v: &serde_json::Value) -> Result<&Vec<serde_json::Value>, StoryError> {
+    v.as_array().ok_or_else(|| malformed("expected an array"))
+}
+
+pub(crate) fn json_object(
+    v: &serde_json::Value,
+) -> Result<&Map<String, serde_json::Value>, StoryError> {
+    v.as_object().ok_or_else(|| malformed("expected an object"))
+}
+
+pub(crate) fn json_member<'a>(
+    obj: &'a Map<String, serde_json::Value>,
+    key: &str,
+) -> Result<&'a serde_json::Value, StoryError> {
+    obj.get(key)
+        .ok_or_else(|| malformed(&format!("'{key}' not found")))
+}
+
 pub fn load_from_string(
     s: &str,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
@@ -42,7 +80,10 @@ pub fn load_from_string(
         ));
     }
 
-    let version: i32 = version_opt.unwrap().as_i64().unwrap().try_into().unwrap();
+    let version: i32 = match version_opt {
+        Some(version) => json_i32(version)?,
+        None => 0,
+    };
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -97,10 +138,10 @@ pub fn jtoken_to_runtime_object(
         serde_json::Value::Bool(value) => Ok(Rc::new(Value::new::<bool>(value.to_owned()))),
         serde_json::Value::Number(_) => {
             if token.is_i64() {
-                let val: i32 = token.as_i64().unwrap().try_into().unwrap();
+                let val = json_i32(token)?;
                 Ok(Rc::new(Value::new::<i32>(val)))
             } else {
-                let val: f32 = token.as_f64().unwrap() as f32;
+                let val: f32 = token.as_f64().unwrap_or_default() as f32;
                 Ok(Rc::new(Value::new::<f32>(val)))
             }
         }
@@ -109,10 +150,9 @@ pub fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(Rc::new(Value::new::<&str>(&str[1..])));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(Rc::new(Value::new::<&str>(text)));
+            } else if str == "\n" {
                 return Ok(Rc::new(Value::new::<&str>("\n")));
             }
 
@@ -154,7 +194,7 @@ pub fn jtoken_to_runtime_object(
 
             if let Some(prop_value) = prop_value {
                 return Ok(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(json_str(prop_value)?)),
                 )));
             }
 
@@ -162,12 +202,12 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("^var");
 
             if let Some(v) = prop_value {
-                let variable_name = v.as_str().unwrap();
+                let variable_name = json_str(v)?;
                 let mut contex_index = -1;
                 let prop_value = obj.get("ci");
 
                 if let Some(v) = prop_value {
-                    contex_index = v.as_i64().unwrap() as i32;
+                    contex_index = json_i32(v)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -208,8 +248,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_divert {
-                let target = prop_value.unwrap().as_str().unwrap().to_string();
+            if let (true, Some(target)) = (is_divert, prop_value) {
+                let target = json_str(target)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -229,7 +269,7 @@ pub fn jtoken_to_runtime_object(
                 if external {
                     prop_value = obj.get("exArgs");
                     if let Some(prop_value) = prop_value {
-                        external_args = prop_value.as_i64().unwrap() as usize;
+                        external_args = json_usize(prop_value)?;
                     }
                 }
 
@@ -248,14 +288,14 @@ pub fn jtoken_to_runtime_object(
             let prop_value = obj.get("*");
             if let Some(cp) = prop_value {
                 let mut flags = 0;
-                let path_string_on_choice = cp.as_str().unwrap();
+                let path_string_on_choice = json_str(cp)?;
                 let prop_value = obj.get("flg");
                 if let Some(f) = prop_value {
-                    flags = f.as_u64().unwrap();
+                    flags = json_i32(f)?;
                 }
 
                 return Ok(Rc::new(ChoicePoint::new(
-                    flags as i32,
+                    flags,
                     path_string_on_choice,
                 )));
             }
@@ -263,13 +303,13 @@ pub fn jtoken_to_runtime_object(
             // // Variable reference
             let prop_value = obj.get("VAR?");
             if let Some(name) = prop_value {
-                return Ok(Rc::new(VariableReference::new(name.as_str().unwrap())));
+                return Ok(Rc::new(VariableReference::new(json_str(name)?)));
             }
 
             let prop_value = obj.get("CNT?");
             if let Some(v) = prop_value {
                 return Ok(Rc::new(VariableReference::from_path_for_count(
-                    v.as_str().unwrap(),
+                    json_str(v)?,
                 )));
             }
 
@@ -292,8 +332,8 @@ pub fn jtoken_to_runtime_object(
                 }
             }
 
-            if is_var_ass {
-                let var_name = prop_value.unwrap().as_str().unwrap();
+            if let (true, Some(var_name)) = (is_var_ass, prop_value) {
+                let var_name = json_str(var_name)?;
                 let prop_value = obj.get("re");
                 let is_new_decl = prop_value.is_none();
 
@@ -308,32 +348,30 @@ pub fn jtoken_to_runtime_object(
             // Legacy Tag
             prop_value = obj.get("#");
             if let Some(prop_value) = prop_value {
-                return Ok(Rc::new(Tag::new(prop_value.as_str().unwrap())));
+                return Ok(Rc::new(Tag::new(json_str(prop_value)?)));
             }
 
             // List value
             prop_value = obj.get("list");
 
             if let Some(pv) = prop_value {
-                let list_content = pv.as_object().unwrap();
+                let list_content = json_object(pv)?;
                 let mut raw_list = InkList::new();
 
                 prop_value = obj.get("origins");
 
                 if let Some(o) = prop_value {
-                    let names_as_objs = o.as_array().unwrap();
-
-                    let names = names_as_objs
+                    let names = json_array(o)?
                         .iter()
-                        .map(|e| e.as_str().unwrap().to_string())
-                        .collect();
+                        .map(|e| json_str(e).map(|s| s.to_string()))
+                        .collect::<Result<Vec<String>, StoryError>>()?;
 
                     raw_list.set_initial_origin_names(names);
                 }
 
                 for (k, v) in list_content {
                     let item = InkListItem::from_full_name(k);
-                    raw_list.items.insert(item, v.as_i64().unwrap() as i32);
+                    raw_list.items.insert(item, json_i32(v)?);
                 }
 
                 return Ok(Rc::new(Value::new::<InkList>(raw_list)));
@@ -360,7 +398,7 @@ fn jarray_to_container(
     //  - named content
     //  - a "#f" key with the countFlags
     // (if either exists at all, otherwise null)
-    let terminating_obj = jarray[jarray.len() - 1].as_object();
+    let terminating_obj = jarray.last().and_then(|last| last.as_object());
     let mut name: Option<String> = name;
     let mut flags = 0;
 
@@ -369,16 +407,15 @@ fn jarray_to_container(
     if let Some(terminating_obj) = terminating_obj {
         for (k, v) in terminating_obj {
             match k.as_str() {
-                "#f" => flags = v.as_i64().unwrap().try_into().unwrap(),
-                "#n" => name = Some(v.as_str().unwrap().to_string()),
+                "#f" => flags = json_i32(v)?,
+                "#n" => name = Some(json_str(v)?.to_string()),
                 k => {
-                    let named_content_item =
-                        jtoken_to_runtime_object(v, Some(k.to_string())).unwrap();
+                    let named_content_item = jtoken_to_runtime_object(v, Some(k.to_string()))?;
 
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| malformed("named content is not a container"))?;
 
                     named_only_content.insert(k.to_string(), named_sub_container);
                 }
@@ -402,7 +439,7 @@ pub fn jarray_to_runtime_obj_list(
     let mut count = jarray.len();
 
     if skip_last {
-        count -= 1;
+        count = count.saturating_sub(1);
     }
 
     let mut list: Vec<Rc<dyn RTObject>> = Vec::with_capacity(jarray.len());
@@ -416,12 +453,12 @@ pub fn jarray_to_runtime_obj_list(
 }
 
 fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTObject>, StoryError> {
-    let text = obj.get("text").unwrap().as_str().unwrap();
-    let index = obj.get("index").unwrap().as_u64().unwrap() as usize;
-    let source_path = obj.get("originalChoicePath").unwrap().as_str().unwrap();
-    let original_thread_index = obj.get("originalThreadIndex").unwrap().as_i64().unwrap() as usize;
-    let path_string_on_choice = obj.get("targetPath").unwrap().as_str().unwrap();
-    let choice_tags = jarray_to_tags(obj);
+    let text = json_str(json_member(obj, "text")?)?;
+    let index = json_usize(json_member(obj, "index")?)?;
+    let source_path = json_str(json_member(obj, "originalChoicePath")?)?;
+    let original_thread_index = json_usize(json_member(obj, "originalThreadIndex")?)?;
+    let path_string_on_choice = json_str(json_member(obj, "targetPath")?)?;
+    let choice_tags = jarray_to_tags(obj)?;
     let is_invisible_default = obj
         .get("isInvisibleDefault")
         .and_then(|v| v.as_bool())
@@ -438,18 +475,17 @@ fn jobject_to_choice(obj: &Map<String, serde_json::Value>) -> Result<Rc<dyn RTOb
     )))
 }
 
-fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Vec<String> {
+fn jarray_to_tags(obj: &Map<String, serde_json::Value>) -> Result<Vec<String>, StoryError> {
     let mut tags: Vec<String> = Vec::new();
 
     let prop_value = obj.get("tags");
     if let Some(pv) = prop_value {
-        let tags_array = pv.as_array().unwrap();
-        for tag in tags_array {
-            tags.push(tag.as_str().unwrap().to_string());
+        for tag in json_array(pv)? {
+            tags.push(json_str(tag)?.to_string());
         }
     }
 
-    tags
+    Ok(tags)
 }
 
 pub fn jtoken_to_list_definitions(
@@ -457,11 +493,11 @@ pub fn jtoken_to_list_definitions(
 ) -> Result<ListDefinitionsOrigin, StoryError> {
     let mut all_defs: Vec<ListDefinition> = Vec::with_capacity(0);
 
-    for (name, list_def_json) in def.as_object().unwrap() {
+    for (name, list_def_json) in json_object(def)? {
         // Cast (string, object) to (string, int) for items
         let mut items: HashMap<String, i32> = HashMap::new();
-        for (k, v) in list_def_json.as_object().unwrap() {
-            items.insert(k.clone(), v.as_u64().unwrap() as i32);
+        for (k, v) in json_object(list_def_json)? {
+            items.insert(k.clone(), json_i32(v)?);
         }
 
         let def = ListDefinition::new(name.clone(), items);
@@ -482,7 +518,7 @@ pub(crate) fn jobject_to_hashmap_values(
             jtoken_to_runtime_object(v, None)?
                 .into_any()
                 .downcast::<Value>()
-                .unwrap(),
+                .map_err(|_| malformed("expected a value"))?,
         );
     }
 
@@ -495,7 +531,7 @@ pub(crate) fn jobject_to_int_hashmap(
     let mut dict: HashMap<String, i32> = HashMap::new();
 
     for (k, v) in jobj.iter() {
-        dict.insert(k.clone(), v.as_i64().unwrap() as i32);
+        dict.insert(k.clone(), json_i32(v)?);
     }
 
     Ok(dict)
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index bc7ae12..75e7bfa 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1280,9 +1280,9 @@ impl StoryState {
             }
         };
 
-        if let Some(version) = j_save_version.as_i64()
-            && version < MIN_COMPATIBLE_LOAD_VERSION as i64
-        {
+        let version = json_read::json_i32(j_save_version)?;
+
+        if version < MIN_COMPATIBLE_LOAD_VERSION as i32 {
             return Err(StoryError::BadJson(format!(
                 "Ink save format isn't compatible with the current version (saw '{}', but minimum is {}), so can't load.",
                 version, MIN_COMPATIBLE_LOAD_VERSION
@@ -1296,51 +1296,37 @@ impl StoryState {
                 .as_object()
                 .ok_or_else(|| StoryError::BadJson("Invalid flows object".to_string()))?;
 
-            // Single default flow
-            if flows_obj_dict.len() == 1 {
-                self.named_flows = None;
-            }
-            // Multi-flow, need to create flows dict
-            else if self.named_flows.is_none() {
-                self.named_flows = Some(HashMap::new());
-            }
-            // Multi-flow, already have a flows dict
-            else {
-                self.named_flows.as_mut().unwrap().clear();
+            if flows_obj_dict.is_empty() {
+                return Err(StoryError::BadJson("Save without flows".to_owned()));
             }
 
             // Load up each flow (there may only be one)
-            for (named_flow_name, named_flow_obj) in flows_obj_dict.iter() {
-                let name = named_flow_name.clone();
+            let mut flows: HashMap<String, Flow> = HashMap::new();
+            for (name, named_flow_obj) in flows_obj_dict.iter() {
                 let flow_obj = named_flow_obj
                     .as_object()
                     .ok_or_else(|| StoryError::BadJson("Invalid flow object".to_string()))?;
 
                 // Load up this flow using JSON data
-                let flow = Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-
-                if flows_obj_dict.len() == 1 {
-                    self.current_flow =
-                        Flow::from_json(&name, self.main_content_container.clone(), flow_obj)?;
-                } else {
-                    self.named_flows
-                        .as_mut()
-                        .ok_or_else(|| {
-                            StoryError::BadJson("Named flows should be initialized".to_string())
-                        })?
-                        .insert(name, flow);
-                }
+                let flow = Flow::from_json(name, self.main_content_container.clone(), flow_obj)?;
+                flows.insert(name.clone(), flow);
             }
 
-            if let Some(named_flows) = &mut self.named_flows
-                && named_flows.len() > 1
-                && let Some(current_flow_name) = j_object.get("currentFlowName")
-                && let Some(curr_flow_name) = current_flow_name.as_str()
-                && let Some(curr_flow) = named_flows.get(curr_flow_name)
-            {
-                self.current_flow = curr_flow.clone();
-                named_flows.remove(curr_flow_name);
-            }
+            let current_flow_name = match j_object.get("currentFlowName") {
+                Some(name) => Some(json_read::json_str(name)?.to_owned()),
+                None => None,
+            };
+
+            // A single flow is the current one
+            let current_flow = match current_flow_name {
+                Some(name) if flows.len() > 1 => flows.remove(&name),
+                None if flows.len() > 1 => flows.remove(DEFAULT_FLOW_NAME),
+                _ => flows.drain().next().map(|(_, flow)| flow),
+            };
+
+            self.current_flow = current_flow
+                .ok_or_else(|| StoryError::BadJson("Current flow not found".to_owned()))?;
+            self.named_flows = if flows.is_empty() { None } else { Some(flows) };
         }
         // Old format: individually load up callstack, output stream, choices in
         // current/default flow
@@ -1357,19 +1343,13 @@ impl StoryState {
 
             if let Some(output_stream_obj) = j_object.get("outputStream") {
                 self.current_flow.output_stream = json_read::jarray_to_runtime_obj_list(
-                    output_stream_obj.as_array().unwrap(),
+                    json_read::json_array(output_stream_obj)?,
                     false,
                 )?;
             }
 
             if let Some(current_choices_obj) = j_object.get("currentChoices") {
-                self.current_flow.current_choices = json_read::jarray_to_runtime_obj_list(
-                    current_choices_obj.as_array().unwrap(),
-                    false,
-                )?
-                .iter()
-                .map(|o| o.clone().into_any().downcast::<Choice>().unwrap())
-                .collect();
+                self.current_flow.current_choices = Flow::choices_from_json(current_choices_obj)?;
             }
 
             let j_choice_threads_obj = j_object.get("choiceThreads");
@@ -1392,12 +1372,16 @@ impl StoryState {
         }
 
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
-            self.evaluation_stack =
-                json_read::jarray_to_runtime_obj_list(eval_stack_obj.as_array().unwrap(), false)?;
+            self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
+                json_read::json_array(eval_stack_obj)?,
+                false,
+            )?;
         }
 
         if let Some(current_divert_target_path) = j_object.get("currentDivertTarget") {
-            let divert_path = Path::new_with_components_string(current_divert_target_path.as_str());
+            let divert_path = Path::new_with_components_string(Some(json_read::json_str(
+                current_divert_target_path,
+            )?));
             self.diverted_pointer =
                 Story::pointer_at_path(&self.main_content_container, &divert_path)?.clone();
         }
@@ -1417,25 +1401,16 @@ impl StoryState {
         }
 
         if let Some(current_turn_index) = j_object.get("turnIdx") {
-            self.current_turn_index = current_turn_index
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid current turn index".to_string()))?
-                as i32;
+            self.current_turn_index = json_read::json_i32(current_turn_index)?;
         }
 
         if let Some(story_seed) = j_object.get("storySeed") {
-            self.story_seed = story_seed
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid story seed".to_string()))?
-                as i32;
+            self.story_seed = json_read::json_i32(story_seed)?;
         }
 
         // Not optional, but bug in inkjs means it's actually missing in inkjs saves
         if let Some(previous_random_obj) = j_object.get("previousRandom") {
-            self.previous_random = previous_random_obj
-                .as_i64()
-                .ok_or_else(|| StoryError::BadJson("Invalid previous random value".to_string()))?
-                as i32;
+            self.previous_random = json_read::json_i32(previous_random_obj)?;
         } else {
             self.previous_random = 0;
         }
diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 971d958..59beab8 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -402,7 +402,9 @@ impl VariablesState {
                     json_read::jtoken_to_runtime_object(loaded_token, None)?
                         .into_any()
                         .downcast::<Value>()
-                        .unwrap(),
+                        .map_err(|_| {
+                            StoryError::BadJson(format!("variable {k} does not hold a value"))
+                        })?,
                 );
             } else {
                 self.global_variables.insert(k.clone(), v.clone());
-- 
2.43.0


From eec13fff2ac19924fd9ff922e16f911ebaa46ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:31 +0000
Subject: [PATCH 26/69] fix: loading a save is all or nothing

---
 runtime/src/story/state.rs | 19 ++++++++++++++++++-
 runtime/src/story_state.rs | 10 ++++++++--
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index 43cb81f..a245821 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -118,7 +118,24 @@ impl Story {
 
     /// Loads a previously saved state in JSON format.
     pub fn load_state(&mut self, json_state: &str) -> Result<(), StoryError> {
-        self.get_state_mut().load_json(json_state)
+        self.if_async_we_cant("load a state")?;
+
+        // Load into a separate state, so that a failed load changes nothing.
+        let mut state = StoryState::new(
+            self.main_content_container.clone(),
+            self.list_definitions.clone(),
+        );
+        state.variables_state.default_global_variables =
+            self.state.variables_state.default_global_variables.clone();
+
+        state.load_json(json_state)?;
+
+        // Messages stay readable until the story is reset.
+        state.set_messages_from(&self.state);
+
+        self.state = state;
+
+        Ok(())
     }
 
     /// Reset the Story back to its initial state as it was when it was first constructed.
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 75e7bfa..af60d1f 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1367,10 +1367,11 @@ impl StoryState {
                 .load_json(variables_state_obj.as_object().ok_or_else(|| {
                     StoryError::BadJson("Invalid variables state object".to_string())
                 })?)?;
-            self.variables_state
-                .set_callstack(self.current_flow.callstack.clone());
         }
 
+        self.variables_state
+            .set_callstack(self.current_flow.callstack.clone());
+
         if let Some(eval_stack_obj) = j_object.get("evalStack") {
             self.evaluation_stack = json_read::jarray_to_runtime_obj_list(
                 json_read::json_array(eval_stack_obj)?,
@@ -1450,6 +1451,11 @@ impl StoryState {
         }
     }
 
+    pub(crate) fn set_messages_from(&mut self, other: &StoryState) {
+        self.current_errors = other.current_errors.clone();
+        self.current_warnings = other.current_warnings.clone();
+    }
+
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
     }
-- 
2.43.0


From caaf2913f67f412e839678c11c143a3bb38fa175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 27/69] fix: refuse state-changing calls while a time-limited
 continue is unfinished

---
 runtime/src/story/choices.rs | 2 ++
 runtime/src/story/flow.rs    | 7 +++++++
 runtime/src/story/state.rs   | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index d620f25..84b3137 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -12,6 +12,8 @@ impl Story {
     /// [`Choice`](crate::choice::Choice) points to, ready
     /// to continue story evaluation.
     pub fn choose_choice_index(&mut self, choice_index: usize) -> Result<(), StoryError> {
+        self.if_async_we_cant("choose")?;
+
         let choices = self.get_current_choices();
         if choice_index >= choices.len() {
             return Err(StoryError::BadArgument("choice out of range".to_owned()));
diff --git a/runtime/src/story/flow.rs b/runtime/src/story/flow.rs
index 230ecc8..553b37b 100644
--- a/runtime/src/story/flow.rs
+++ b/runtime/src/story/flow.rs
@@ -29,12 +29,19 @@ impl Story {
 
     /// Removes the specified flow from the story.
     pub fn remove_flow(&mut self, flow_name: &str) -> Result<(), StoryError> {
+        self.if_async_we_cant("remove a flow")?;
+
         self.get_state_mut().remove_flow_internal(flow_name)
     }
 
     /// Switches to the default flow, keeping the current flow around for
     /// later.
     pub fn switch_to_default_flow(&mut self) {
+        // The flow can't change in the middle of a line
+        if self.async_continue_active {
+            return;
+        }
+
         self.get_state_mut().switch_to_default_flow_internal();
     }
 }
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index a245821..fe77dd9 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -50,6 +50,8 @@ impl Story {
         variable_name: &str,
         value_type: &ValueType,
     ) -> Result<(), StoryError> {
+        self.if_async_we_cant("set a variable")?;
+
         let notify_observers = self
             .get_state_mut()
             .variables_state
-- 
2.43.0


From 155ce25e60a70ac2e9bfd3e38794af16f58aaaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 28/69] fix: rejected host calls change nothing

---
 runtime/src/story/navigation.rs        | 21 +++++++++++++++-
 runtime/src/story/progress.rs          | 11 +++++----
 runtime/src/story/variable_observer.rs | 25 +++++++++++++++----
 runtime/src/story_state.rs             | 33 +++++++++++++++++++++++++-
 4 files changed, 79 insertions(+), 11 deletions(-)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index eee8c6e..c1f2613 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -7,6 +7,7 @@ use crate::{
     search_result::SearchResult,
     story::Story,
     story_error::StoryError,
+    story_state::StoryState,
     value_type::ValueType,
 };
 use std::rc::Rc;
@@ -68,6 +69,17 @@ impl Story {
     ) -> Result<(), StoryError> {
         self.if_async_we_cant("call ChoosePathString right now")?;
 
+        // Check the request before changing anything
+        StoryState::check_arguments(args)?;
+
+        let target_path = Path::new_with_components_string(Some(path));
+        let target = Story::pointer_at_path(&self.main_content_container, &target_path)?;
+        if target.is_null() || (target.index >= 0 && target.resolve().is_none()) {
+            return Err(StoryError::BadArgument(format!(
+                "Failed to find content at path '{path}'."
+            )));
+        }
+
         if reset_call_stack {
             self.reset_callstack()?;
         } else {
@@ -108,7 +120,7 @@ impl Story {
 
         self.get_state_mut()
             .pass_arguments_to_evaluation_stack(args)?;
-        self.choose_path(&Path::new_with_components_string(Some(path)), true)?;
+        self.choose_path(&target_path, true)?;
 
         Ok(())
     }
@@ -142,6 +154,13 @@ impl Story {
             return Err(StoryError::BadArgument(e));
         }
 
+        // Check the request before changing anything
+        StoryState::check_arguments(args)?;
+
+        if !self.has_validated_externals {
+            self.validate_external_bindings()?;
+        }
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 20419ff..622359a 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -75,6 +75,12 @@ impl Story {
     ) -> Result<(), StoryError> {
         let is_async_time_limited = millisecs_limit_async > 0.0;
 
+        if !self.async_continue_active && !self.can_continue() {
+            return Err(StoryError::InvalidStoryState(
+                "Can't continue - should check can_continue before calling Continue".to_owned(),
+            ));
+        }
+
         self.recursive_continue_count += 1;
 
         // Doing either:
@@ -82,11 +88,6 @@ impl Story {
         // - Starting async run-through
         if !self.async_continue_active {
             self.async_continue_active = is_async_time_limited;
-            if !self.can_continue() {
-                return Err(StoryError::InvalidStoryState(
-                    "Can't continue - should check can_continue before calling Continue".to_owned(),
-                ));
-            }
 
             self.get_state_mut().set_did_safe_exit(false);
 
diff --git a/runtime/src/story/variable_observer.rs b/runtime/src/story/variable_observer.rs
index e53e7cc..e18d369 100644
--- a/runtime/src/story/variable_observer.rs
+++ b/runtime/src/story/variable_observer.rs
@@ -65,22 +65,33 @@ impl Story {
         // Remove observer for this specific variable
         match specific_variable_name {
             Some(specific_variable_name) => {
-                if let Some(v) = self.variable_observers.get_mut(specific_variable_name) {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
+                let observers = self.variable_observers.get_mut(specific_variable_name);
+                let index = observers
+                    .as_ref()
+                    .and_then(|v| v.iter().position(|x| Rc::ptr_eq(x, observer)));
+
+                if let (Some(v), Some(index)) = (observers, index) {
                     v.remove(index);
 
                     if v.is_empty() {
                         self.variable_observers.remove(specific_variable_name);
                     }
+                } else {
+                    return Err(StoryError::BadArgument(format!(
+                        "The observer isn't observing the variable '{specific_variable_name}'."
+                    )));
                 }
             }
             None => {
                 // Remove observer for all variables
                 let mut keys_to_remove = Vec::new();
+                let mut found = false;
 
                 for (k, v) in self.variable_observers.iter_mut() {
-                    let index = v.iter().position(|x| Rc::ptr_eq(x, observer)).unwrap();
-                    v.remove(index);
+                    if let Some(index) = v.iter().position(|x| Rc::ptr_eq(x, observer)) {
+                        v.remove(index);
+                        found = true;
+                    }
 
                     if v.is_empty() {
                         keys_to_remove.push(k.to_string());
@@ -90,6 +101,12 @@ impl Story {
                 for key_to_remove in keys_to_remove.iter() {
                     self.variable_observers.remove(key_to_remove);
                 }
+
+                if !found {
+                    return Err(StoryError::BadArgument(
+                        "The observer isn't observing any variable.".to_owned(),
+                    ));
+                }
             }
         }
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index af60d1f..bc635da 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1018,6 +1018,24 @@ impl StoryState {
         Ok(())
     }
 
+    pub(crate) fn check_arguments(arguments: Option<&Vec<ValueType>>) -> Result<(), StoryError> {
+        for arg in arguments.into_iter().flatten() {
+            match arg {
+                ValueType::Bool(_)
+                | ValueType::Int(_)
+                | ValueType::Float(_)
+                | ValueType::List(_)
+                | ValueType::String(_) => {}
+                _ => {
+                    return Err(StoryError::InvalidStoryState("ink arguments when calling EvaluateFunction / ChoosePathStringWithParameters must be \
+                        int, float, string, bool or InkList.".to_owned()));
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     pub fn pass_arguments_to_evaluation_stack(
         &mut self,
         arguments: Option<&Vec<ValueType>>,
@@ -1426,12 +1444,25 @@ impl StoryState {
             ));
         }
 
+        let known = self.current_flow.name.eq(flow_name)
+            || self
+                .named_flows
+                .as_ref()
+                .is_some_and(|flows| flows.contains_key(flow_name));
+        if !known {
+            return Err(StoryError::BadArgument(format!(
+                "Cannot remove unknown flow '{flow_name}'"
+            )));
+        }
+
         // If we're currently in the flow that's being removed, switch back to default
         if self.current_flow.name.eq(flow_name) {
             self.switch_to_default_flow_internal();
         }
 
-        self.named_flows.as_mut().unwrap().remove(flow_name);
+        if let Some(named_flows) = self.named_flows.as_mut() {
+            named_flows.remove(flow_name);
+        }
         self.alive_flow_names_dirty = true;
 
         Ok(())
-- 
2.43.0


From 0b722f62ac49e3d3ae7036b38563c4549354063c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:34 +0000
Subject: [PATCH 29/69] fix: saves keep the origins of lists emptied at runtime

---
 runtime/src/variables_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/variables_state.rs b/runtime/src/variables_state.rs
index 59beab8..030f314 100644
--- a/runtime/src/variables_state.rs
+++ b/runtime/src/variables_state.rs
@@ -369,7 +369,10 @@ impl VariablesState {
                 _ => false,
             },
             ValueType::List(val) => match &default_val.value {
-                ValueType::List(default_val) => *val == *default_val,
+                ValueType::List(default_val) => {
+                    *val == *default_val
+                        && val.get_origin_names() == default_val.get_origin_names()
+                }
                 _ => false,
             },
             ValueType::String(val) => match &default_val.value {
-- 
2.43.0


From 5248f5d07931fa176908dace13d930adc0d11c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 30/69] fix: evaluating a function in a story stopped by an
 error is refused

---
 runtime/src/story/navigation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/story/navigation.rs b/runtime/src/story/navigation.rs
index c1f2613..291c661 100644
--- a/runtime/src/story/navigation.rs
+++ b/runtime/src/story/navigation.rs
@@ -161,6 +161,12 @@ impl Story {
             self.validate_external_bindings()?;
         }
 
+        if self.has_error() {
+            return Err(StoryError::InvalidStoryState(format!(
+                "Can't evaluate the function '{func_name}' because the story was stopped by an error."
+            )));
+        }
+
         // Snapshot the output stream
         let output_stream_before = self.get_state().get_output_stream().clone();
         self.get_state_mut().reset_output(None);
-- 
2.43.0


From 7d187d31c82d311ce57527485abe19f86cf52a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 31/69] fix: closing quotes and glue in choice text

---
 compiler/src/emitter/expression.rs | 43 +++++++++++++++++++++++++++---
 compiler/src/parser/choice.rs      |  6 ++++-
 2 files changed, 44 insertions(+), 5 deletions(-)

diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index c434ddd..8b112c2 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -554,6 +554,17 @@ fn emit_tag(
     Ok(())
 }
 
+fn emit_text_with_glue(text: &str, out: &mut Vec<Value>) {
+    for (index, part) in text.split("<>").enumerate() {
+        if index > 0 {
+            out.push(json!("<>"));
+        }
+        if !part.is_empty() {
+            out.push(json!(format!("^{part}")));
+        }
+    }
+}
+
 fn emit_choice_text_segment(
     text: &str,
     tags: &[DynamicString],
@@ -576,9 +587,21 @@ fn emit_choice_text_segment(
             .iter()
             .any(|p| !matches!(p, DynamicStringPart::Text(_)));
         if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
+            for part in &dynamic.parts {
+                match part {
+                    DynamicStringPart::Text(text) if text.contains("<>") => {
+                        emit_text_with_glue(text, out)
+                    }
+                    _ => emit_dynamic_string_parts(
+                        std::slice::from_ref(part),
+                        out,
+                        scope,
+                        context,
+                    )?,
+                }
+            }
         } else {
-            out.push(json!(format!("^{text}")));
+            emit_text_with_glue(text, out);
         }
     }
     for tag in tags {
@@ -608,9 +631,21 @@ fn emit_choice_text_content(
             .iter()
             .any(|p| !matches!(p, DynamicStringPart::Text(_)));
         if has_inline {
-            emit_dynamic_string_parts(&dynamic.parts, out, scope, context)?;
+            for part in &dynamic.parts {
+                match part {
+                    DynamicStringPart::Text(text) if text.contains("<>") => {
+                        emit_text_with_glue(text, out)
+                    }
+                    _ => emit_dynamic_string_parts(
+                        std::slice::from_ref(part),
+                        out,
+                        scope,
+                        context,
+                    )?,
+                }
+            }
         } else {
-            out.push(json!(format!("^{text}")));
+            emit_text_with_glue(text, out);
         }
     }
     for tag in tags {
diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 01c29d3..2321d76 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -461,7 +461,11 @@ pub fn parse_choice_text(input: &str) -> Result<ParsedChoiceText, CompilerError>
         } else {
             String::new()
         };
-        let choice_only_text = format!("{choice_only_text}{display_suffix}");
+        let choice_only_text = if choice_only_text.ends_with(&display_suffix) {
+            choice_only_text
+        } else {
+            format!("{choice_only_text}{display_suffix}")
+        };
         let display = format!("{start_text}{choice_only_text}");
         let selected_text = format!("{start_text}{end_text}");
         let mut selected_tags = start_tags.clone();
-- 
2.43.0


From ed6744c07c088d4ebb3d75dcba18af283c508018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:17 +0000
Subject: [PATCH 32/69] fix: an else branch needs no space after its dash

---
 compiler/src/parser/conditional.rs | 33 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 6e57af9..e289ae8 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -70,7 +70,7 @@ pub fn parse_conditional(
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
             && !first_body.starts_with("->")
-            && !first_body.starts_with("- else:")
+            && else_branch(first_body).is_none()
         {
             // Check that the branch looks like "- case_expr: body" (has a colon after stripping -)
             let branch_content = first_body.trim_start_matches('-').trim_start();
@@ -164,20 +164,10 @@ pub fn parse_conditional(
             return Ok(nodes);
         }
 
-        if trimmed == "- else:" {
+        // `- else:`, with or without content on the same line
+        if let Some(rest) = else_branch(trimmed) {
             in_else = true;
             *line_index += 1;
-            if body_line.had_newline {
-                when_false.push(Node::Newline);
-            }
-            continue;
-        }
-
-        // `- else: inline_content` on a single line
-        if let Some(else_content) = trimmed.strip_prefix("- else:") {
-            in_else = true;
-            *line_index += 1;
-            let rest = else_content.trim();
             if !rest.is_empty() {
                 when_false.extend(tokenize_inline_content(rest)?);
             }
@@ -309,7 +299,7 @@ pub fn parse_multi_branch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = strip_else(header) {
                 current_condition = None;
                 if !rest.trim().is_empty() {
                     current_nodes.extend(tokenize_inline_content(rest.trim())?);
@@ -451,6 +441,19 @@ pub fn fold_conditional_branches(
     Ok(accumulated_else.unwrap_or_default())
 }
 
+fn strip_else(header: &str) -> Option<&str> {
+    header
+        .strip_prefix("else")?
+        .trim_start()
+        .strip_prefix(':')
+        .map(str::trim)
+}
+
+/// The content on the line of a `- else:` (or `-else:`) branch.
+fn else_branch(line: &str) -> Option<&str> {
+    strip_else(line.strip_prefix('-')?.trim_start())
+}
+
 /// Parse a switch-style conditional `{ expr:\n - Case1: body\n - Case2: body\n - else: body\n }`.
 /// `line_index` points to the first body line (after `{ expr:`).
 fn parse_switch_conditional(
@@ -496,7 +499,7 @@ fn parse_switch_conditional(
             }
 
             let header = header.trim_start();
-            if let Some(rest) = header.strip_prefix("else:") {
+            if let Some(rest) = strip_else(header) {
                 current_case = None; // else branch
                 let rest = rest.trim();
                 if !rest.is_empty() {
-- 
2.43.0


From 252acbeeb735fb3d51c40e6aaafcff5e66d12524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 33/69] fix: labels are found in the other stitches of a knot

---
 compiler/src/emitter/context.rs    | 17 +++++++++++++++++
 compiler/src/emitter/expression.rs |  5 +++++
 2 files changed, 22 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 8a9b79c..fad9683 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -625,6 +625,23 @@ impl EmitScope {
         self.choice_label_targets.get(label).map(String::as_str)
     }
 
+    /// A label anywhere in the knot, e.g. in another of its stitches.
+    fn resolve_label_in_knot(&self, label: &str, context: &EmitContext) -> Option<String> {
+        if context.global_variables.contains(label) {
+            return None;
+        }
+        let knot = format!("{}.", self.top_flow_name.as_deref()?);
+        context
+            .qualified_choice_labels
+            .iter()
+            .find(|(key, _)| {
+                key.strip_prefix(&knot)
+                    .and_then(|rest| rest.rsplit('.').next())
+                    == Some(label)
+            })
+            .map(|(_, path)| path.clone())
+    }
+
     fn resolve_qualified_choice_label(
         &self,
         target: &str,
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 8b112c2..2bc9839 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -316,6 +316,11 @@ fn emit_expression_ctx(
                 out.push(json!({"CNT?": s.resolve_divert_target(name, ctx)}))
             } else if context.is_some_and(|ctx| ctx.top_flow_names.contains(name)) {
                 out.push(json!({"CNT?": name}))
+            } else if let Some(path) = scope
+                .zip(context)
+                .and_then(|(s, ctx)| s.resolve_label_in_knot(name, ctx))
+            {
+                out.push(json!({"CNT?": path}))
             } else {
                 out.push(json!({"VAR?": name}))
             }
-- 
2.43.0


From c959cbdfda9a11849efc43fc595992752c170881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 34/69] fix: the spaces around the text of inline branches
 belong to it

---
 compiler/src/inline.rs             | 13 ++++++-------
 compiler/src/parser/conditional.rs |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 0b4f6bb..a5d6caa 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -104,11 +104,10 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
             if let Some((condition, branch_text)) = parse_inline_conditional(inline)? {
                 // Split on top-level '|' to get optional false branch.
                 let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                // Use trim_end (not trim) to preserve the leading space that authors
-                // write after ':' — inklecate keeps it as part of the text token.
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
+                // The spaces around a branch's text belong to it.
+                let when_true = tokenize_inline_content(branches[0])?;
                 let when_false = if branches.len() > 1 {
-                    Some(tokenize_inline_content(branches[1].trim_end())?)
+                    Some(tokenize_inline_content(branches[1])?)
                 } else {
                     None
                 };
@@ -163,9 +162,9 @@ pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError>
             let inner = &input[index + 1..end];
             if let Some((condition, branch_text)) = parse_inline_conditional(&input[index..=end])? {
                 let branches: Vec<&str> = split_top_level_pipe(branch_text);
-                let when_true = tokenize_inline_content(branches[0].trim_end())?;
+                let when_true = tokenize_inline_content(branches[0])?;
                 let when_false = match branches.get(1) {
-                    Some(branch) => Some(tokenize_inline_content(branch.trim_end())?),
+                    Some(branch) => Some(tokenize_inline_content(branch)?),
                     None => None,
                 };
                 parts.push(DynamicStringPart::Conditional {
@@ -622,7 +621,7 @@ pub fn parse_inline_sequence(content: &str) -> Result<Option<Sequence>, Compiler
 
     let mut branches = Vec::new();
     for part in parts {
-        branches.push(tokenize_inline_content(part.trim())?);
+        branches.push(tokenize_inline_content(part)?);
     }
 
     Ok(Some(Sequence { mode, branches }))
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index e289ae8..1dac55c 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -32,9 +32,9 @@ pub fn parse_conditional(
         // Split the branch text by top-level `|` to get true and false branches
         use super::inline::split_top_level_pipe;
         let branches: Vec<&str> = split_top_level_pipe(branch_text);
-        let when_true = tokenize_inline_content(branches[0].trim_end())?;
+        let when_true = tokenize_inline_content(branches[0])?;
         let when_false = if branches.len() > 1 {
-            Some(tokenize_inline_content(branches[1].trim_end())?)
+            Some(tokenize_inline_content(branches[1])?)
         } else {
             None
         };
-- 
2.43.0


From 60638f31d75c9847a9f43290b947cfe973afaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 35/69] fix: one space separates a line's text from its divert

---
 compiler/src/inline.rs              | 7 +++++++
 compiler/src/parser/declarations.rs | 3 +++
 compiler/src/parser/mod.rs          | 4 ++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index a5d6caa..a867ccd 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -82,6 +82,7 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
         // Divert or tunnel: -> target  or  -> target ->
         if ch == '-' && content[index..].starts_with("->") {
             if !text.is_empty() {
+                space_before_divert(&mut text);
                 nodes.push(Node::Text(std::mem::take(&mut text)));
             }
             let divert_str = content[index..].trim();
@@ -144,6 +145,12 @@ pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError
     Ok(nodes)
 }
 
+/// Exactly one space separates a line's text from its divert.
+pub fn space_before_divert(text: &mut String) {
+    text.truncate(text.trim_end_matches([' ', '\t']).len());
+    text.push(' ');
+}
+
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
     let mut parts = Vec::new();
     let mut text = String::new();
diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 92d4c2e..f8824b8 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -11,6 +11,9 @@ fn parse_content_line(
     let mut nodes = Vec::new();
     if let Some((text_part, divert_part)) = split_inline_divert(content) {
         nodes.extend(tokenize_inline_content(text_part)?);
+        if let Some(Node::Text(t)) = nodes.last_mut() {
+            space_before_divert(t);
+        }
         nodes.push(Node::Divert(parse_divert(divert_part)?));
     } else {
         nodes.extend(tokenize_inline_content(content)?);
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index aeb1ecc..0466658 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -14,8 +14,8 @@ use self::{
     conditional::{looks_like_conditional, parse_conditional},
     expression::{parse_bool, parse_call_like, parse_expression, parse_path_identifier},
     inline::{
-        parse_divert, parse_divert_line, parse_dynamic_string, split_inline_divert,
-        tokenize_inline_content,
+        parse_divert, parse_divert_line, parse_dynamic_string, space_before_divert,
+        split_inline_divert, tokenize_inline_content,
     },
     sequence::{looks_like_sequence, parse_sequence},
 };
-- 
2.43.0


From a38d6479483110a4a0b707518c7d922187a4cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 36/69] fix: the stream loader reads all JSON strings and
 numbers and rejects malformed stories

---
 runtime/src/json/json_read_stream.rs |  72 ++++++-----
 runtime/src/json/json_tokenizer.rs   | 184 ++++++++++++++++++++-------
 2 files changed, 177 insertions(+), 79 deletions(-)

diff --git a/runtime/src/json/json_read_stream.rs b/runtime/src/json/json_read_stream.rs
index f647837..46b6252 100644
--- a/runtime/src/json/json_read_stream.rs
+++ b/runtime/src/json/json_read_stream.rs
@@ -37,6 +37,20 @@ pub fn load_from_string(
     parse(&mut tok)
 }
 
+fn malformed(what: &str) -> StoryError {
+    StoryError::BadJson(format!("Malformed story: {what}"))
+}
+
+fn read_integer(tok: &mut JsonTokenizer) -> Result<i32, StoryError> {
+    tok.read_number()?
+        .as_integer()
+        .ok_or_else(|| malformed("expected a 32 bit integer"))
+}
+
+fn value_str(value: &JsonValue) -> Result<&str, StoryError> {
+    value.as_str().ok_or_else(|| malformed("expected a string"))
+}
+
 fn parse(
     tok: &mut JsonTokenizer,
 ) -> Result<(i32, Rc<Container>, Rc<ListDefinitionsOrigin>), StoryError> {
@@ -50,7 +64,7 @@ fn parse(
         ));
     }
 
-    let version: i32 = tok.read_number().unwrap().as_integer().unwrap();
+    let version: i32 = read_integer(tok)?;
 
     if version > INK_VERSION_CURRENT {
         return Err(StoryError::BadJson(
@@ -140,12 +154,9 @@ fn jtoken_to_runtime_object(
             let str = value.as_str();
 
             // String value
-            let first_char = str.chars().next().unwrap();
-            if first_char == '^' {
-                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(
-                    &str[1..],
-                ))));
-            } else if first_char == '\n' && str.len() == 1 {
+            if let Some(text) = str.strip_prefix('^') {
+                return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>(text))));
+            } else if str == "\n" {
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<&str>("\n"))));
             }
 
@@ -189,19 +200,19 @@ fn jtoken_to_runtime_object(
             if prop == "^->" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(Value::new::<Path>(
-                    Path::new_with_components_string(prop_value.as_str()),
+                    Path::new_with_components_string(Some(value_str(&prop_value)?)),
                 ))));
             }
 
             // // VariablePointerValue
             if prop == "^var" {
-                let variable_name = prop_value.as_str().unwrap();
+                let variable_name = value_str(&prop_value)?;
                 let mut contex_index = -1;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("ci")?;
-                    contex_index = tok.read_number().unwrap().as_integer().unwrap();
+                    contex_index = read_integer(tok)?;
                 }
 
                 let var_ptr = Rc::new(Value::new_variable_pointer(variable_name, contex_index));
@@ -233,7 +244,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_divert {
-                let target = prop_value.as_str().unwrap().to_string();
+                let target = value_str(&prop_value)?.to_string();
 
                 let mut var_divert_name: Option<String> = None;
                 let mut target_path: Option<String> = None;
@@ -252,7 +263,10 @@ fn jtoken_to_runtime_object(
                     } else if prop == "c" {
                         conditional = true;
                     } else if prop == "exArgs" {
-                        external_args = prop_value.as_integer().unwrap() as usize;
+                        external_args = prop_value
+                            .as_integer()
+                            .and_then(|n| n.try_into().ok())
+                            .ok_or_else(|| malformed("exArgs is not a number"))?;
                     }
                 }
 
@@ -275,12 +289,12 @@ fn jtoken_to_runtime_object(
             // Choice
             if prop == "*" {
                 let mut flags = 0;
-                let path_string_on_choice = prop_value.as_str().unwrap();
+                let path_string_on_choice = value_str(&prop_value)?;
 
                 if tok.peek()? == ',' {
                     tok.expect(',')?;
                     tok.expect_obj_key("flg")?;
-                    flags = tok.read_number().unwrap().as_integer().unwrap();
+                    flags = read_integer(tok)?;
                 }
 
                 tok.expect('}')?;
@@ -294,14 +308,14 @@ fn jtoken_to_runtime_object(
             if prop == "VAR?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(VariableReference::new(
-                    prop_value.as_str().unwrap(),
+                    value_str(&prop_value)?,
                 ))));
             }
 
             if prop == "CNT?" {
                 tok.expect('}')?;
                 return Ok(ArrayElement::RTObject(Rc::new(
-                    VariableReference::from_path_for_count(prop_value.as_str().unwrap()),
+                    VariableReference::from_path_for_count(value_str(&prop_value)?),
                 )));
             }
 
@@ -318,7 +332,7 @@ fn jtoken_to_runtime_object(
             }
 
             if is_var_ass {
-                let var_name = prop_value.as_str().unwrap();
+                let var_name = value_str(&prop_value)?;
                 let mut is_new_decl = true;
 
                 if tok.peek()? == ',' {
@@ -340,13 +354,13 @@ fn jtoken_to_runtime_object(
             // // Legacy Tag
             if prop == "#" {
                 tok.expect('}')?;
-                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(
-                    prop_value.as_str().unwrap(),
-                ))));
+                return Ok(ArrayElement::RTObject(Rc::new(Tag::new(value_str(
+                    &prop_value,
+                )?))));
             }
 
             // List value
-            if prop == "list" {
+            if prop == "list" && matches!(prop_value, JsonValue::Object) {
                 let list_content = parse_list(tok)?;
                 let mut raw_list = InkList::new();
 
@@ -383,12 +397,6 @@ fn jtoken_to_runtime_object(
                 ))));
             }
 
-            // Used when serialising save state only
-            if prop == "originalChoicePath" {
-                todo!("originalChoicePath");
-                // return jobject_to_choice(obj); // TODO
-            }
-
             // Last Element
             let mut flags = 0;
             let mut name: Option<String> = None;
@@ -399,9 +407,11 @@ fn jtoken_to_runtime_object(
 
             loop {
                 if p == "#f" {
-                    flags = pv.as_integer().unwrap();
+                    flags = pv
+                        .as_integer()
+                        .ok_or_else(|| malformed("#f is not a number"))?;
                 } else if p == "#n" {
-                    name = Some(pv.as_str().unwrap().to_string());
+                    name = Some(value_str(&pv)?.to_string());
                 } else {
                     let named_content_item = jtoken_to_runtime_object(tok, pv, Some(p.clone()))?;
 
@@ -417,7 +427,7 @@ fn jtoken_to_runtime_object(
                     let named_sub_container = named_content_item
                         .into_any()
                         .downcast::<Container>()
-                        .unwrap();
+                        .map_err(|_| malformed("named content is not a container"))?;
 
                     named_only_content.insert(p, named_sub_container);
                 }
@@ -447,7 +457,7 @@ fn parse_list(tok: &mut JsonTokenizer) -> Result<HashMap<String, i32>, StoryErro
 
     while tok.peek()? != '}' {
         let key = tok.read_obj_key()?;
-        let value = tok.read_number().unwrap().as_integer().unwrap();
+        let value = read_integer(tok)?;
         list_content.insert(key, value);
 
         if tok.peek()? != '}' {
diff --git a/runtime/src/json/json_tokenizer.rs b/runtime/src/json/json_tokenizer.rs
index 2321a4b..81dfb64 100644
--- a/runtime/src/json/json_tokenizer.rs
+++ b/runtime/src/json/json_tokenizer.rs
@@ -11,7 +11,7 @@ impl Number {
     pub(super) fn as_integer(&self) -> Option<i32> {
         match self {
             Number::Int(n) => Some(*n),
-            Number::Float(n) => Some(*n as i32),
+            Number::Float(_) => None,
         }
     }
 
@@ -60,14 +60,19 @@ pub(super) struct JsonTokenizer<'a> {
     json: &'a [u8],
     lookahead: Option<char>,
     skip_whitespaces: bool,
+    depth: usize,
 }
 
+/// How deep arrays and objects can be nested, the same as in the default parser.
+const MAX_DEPTH: usize = 127;
+
 impl<'a> JsonTokenizer<'a> {
     pub(super) fn new_from_str(s: &'a str) -> JsonTokenizer<'a> {
         JsonTokenizer {
             json: s.as_bytes(),
             lookahead: None,
             skip_whitespaces: true,
+            depth: 0,
         }
     }
 
@@ -161,60 +166,126 @@ impl<'a> JsonTokenizer<'a> {
         let number_str = self.read_until_separator()?;
         let number_str = number_str.trim();
 
-        // Check if the number is an integer
-        if let Ok(num) = number_str.parse::<i32>() {
-            return Ok(Number::Int(num));
-        }
-
-        // Convert the accumulated string to a f32
-        match number_str.parse::<f32>() {
-            Ok(num) => Ok(Number::Float(num)),
-            Err(_) => Err(io::Error::new(
+        let malformed = || {
+            io::Error::new(
                 io::ErrorKind::InvalidData,
                 format!("Invalid number format: '{}'", number_str),
-            )),
+            )
+        };
+
+        // Rust also parses forms that are no JSON numbers: "inf", "+1", ".5", "5.", "01"
+        let digits = number_str.strip_prefix('-').unwrap_or(number_str);
+        let (integer, rest) = digits.split_at(
+            digits
+                .find(|c: char| !c.is_ascii_digit())
+                .unwrap_or(digits.len()),
+        );
+        if integer.is_empty()
+            || (integer.len() > 1 && integer.starts_with('0'))
+            || rest == "."
+            || rest.starts_with(".e")
+            || rest.starts_with(".E")
+            || rest.ends_with('.')
+        {
+            return Err(malformed());
+        }
+
+        // Integers have 32 bits, and there is no negative zero among them
+        if rest.is_empty()
+            && number_str != "-0"
+            && let Ok(num) = number_str.parse::<i64>()
+        {
+            return match i32::try_from(num) {
+                Ok(num) => Ok(Number::Int(num)),
+                Err(_) => Err(malformed()),
+            };
+        }
+
+        match number_str.parse::<f64>() {
+            Ok(num) if num.is_finite() => Ok(Number::Float(num as f32)),
+            _ => Err(malformed()),
         }
     }
 
     pub(super) fn read_string(&mut self) -> io::Result<String> {
-        let mut result = String::new();
-        let mut escape = false;
-
         self.expect('"')?;
         self.skip_whitespaces = false;
+        let result = self.read_string_content();
+        self.skip_whitespaces = true;
 
-        while let Ok(c) = self.read() {
-            if escape {
-                // Handle escape sequences
-                match c {
-                    '\\' => result.push('\\'),
-                    '"' => result.push('"'),
-                    'n' => result.push('\n'),
-                    // 't' => result.push('\t'),
-                    // 'r' => result.push('\r'),
-                    // Add other escape sequences as needed
-                    // _ => result.push(c), // Push the character as is if unknown escape
-                    _ => {}
+        result
+    }
+
+    fn read_string_content(&mut self) -> io::Result<String> {
+        let mut result = String::new();
+
+        loop {
+            match self.read()? {
+                '"' => return Ok(result),
+                '\\' => {
+                    let c = self.read_escape()?;
+                    result.push(c);
                 }
-                escape = false;
-            } else if c == '\\' {
-                escape = true;
-            } else if c == '"' {
-                self.skip_whitespaces = true;
-                break; // End of the quoted string
-            } else {
-                result.push(c);
+                c if c < ' ' => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "Control character in a string",
+                    ));
+                }
+                c => result.push(c),
             }
         }
+    }
 
-        if !escape {
-            Ok(result)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::InvalidData,
-                "Unterminated string",
-            ))
+    fn read_escape(&mut self) -> io::Result<char> {
+        let c = match self.read()? {
+            c @ ('\\' | '"' | '/') => c,
+            'b' => '\u{8}',
+            'f' => '\u{c}',
+            'n' => '\n',
+            'r' => '\r',
+            't' => '\t',
+            'u' => {
+                let mut code = self.read_hex4()?;
+
+                // Characters outside the basic plane take a pair of surrogates
+                if (0xD800..0xDC00).contains(&code) {
+                    let low = match (self.read()?, self.read()?) {
+                        ('\\', 'u') => self.read_hex4()?,
+                        _ => 0,
+                    };
+                    code = match low {
+                        0xDC00..0xE000 => 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00),
+                        _ => code,
+                    };
+                }
+
+                return char::from_u32(code).ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "Lone surrogate in a string")
+                });
+            }
+            c => {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("Invalid escape: '{}'", c),
+                ));
+            }
+        };
+
+        Ok(c)
+    }
+
+    fn read_hex4(&mut self) -> io::Result<u32> {
+        let mut code = 0;
+
+        for _ in 0..4 {
+            let digit = self.read()?.to_digit(16).ok_or_else(|| {
+                io::Error::new(io::ErrorKind::InvalidData, "Invalid unicode escape")
+            })?;
+            code = code * 16 + digit;
         }
+
+        Ok(code)
     }
 
     fn read_until_separator(&mut self) -> io::Result<String> {
@@ -243,7 +314,7 @@ impl<'a> JsonTokenizer<'a> {
         while let Ok(c2) = self.read() {
             if !c2.is_whitespace() {
                 if c2 == c {
-                    return Ok(());
+                    return self.nest(c);
                 } else {
                     return Err(io::Error::new(
                         io::ErrorKind::InvalidData,
@@ -259,10 +330,28 @@ impl<'a> JsonTokenizer<'a> {
         ))
     }
 
+    /// Keeps track of how deep the value being read is nested.
+    fn nest(&mut self, c: char) -> io::Result<()> {
+        match c {
+            '[' | '{' => self.depth += 1,
+            ']' | '}' => self.depth = self.depth.saturating_sub(1),
+            _ => {}
+        }
+
+        if self.depth > MAX_DEPTH {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Nested too deep",
+            ));
+        }
+
+        Ok(())
+    }
+
     pub(super) fn read_obj_key(&mut self) -> io::Result<String> {
-        let s = self.read_string();
+        let s = self.read_string()?;
         self.expect(':')?;
-        s
+        Ok(s)
     }
 
     pub(super) fn expect_obj_key(&mut self, expected: &str) -> io::Result<()> {
@@ -273,19 +362,18 @@ impl<'a> JsonTokenizer<'a> {
                 format!("Expected '{}', found '{}'", expected, s),
             ));
         }
-        let _ = self.expect(':');
-        Ok(())
+        self.expect(':')
     }
 
     pub(super) fn read_value(&mut self) -> io::Result<JsonValue> {
         //self.skip_whitespaces()?;
         match self.peek()? {
             '[' => {
-                self.read()?;
+                self.expect('[')?;
                 Ok(JsonValue::Array)
             }
             '{' => {
-                self.read()?;
+                self.expect('{')?;
                 Ok(JsonValue::Object)
             }
             '"' => {
-- 
2.43.0


From 0150cd8c943a09feb459f7df81fa06644013e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 37/69] fix: a divert does not keep the container it leads to
 alive

---
 runtime/src/divert.rs              | 70 +++++++++++++++---------------
 runtime/src/story/control_logic.rs |  5 ++-
 2 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/runtime/src/divert.rs b/runtime/src/divert.rs
index e1678a6..4ea470d 100644
--- a/runtime/src/divert.rs
+++ b/runtime/src/divert.rs
@@ -1,4 +1,8 @@
-use std::{cell::RefCell, fmt, rc::Rc};
+use std::{
+    cell::RefCell,
+    fmt,
+    rc::{Rc, Weak},
+};
 
 use crate::{
     container::Container,
@@ -10,7 +14,8 @@ use crate::{
 
 pub struct Divert {
     obj: Object,
-    target_pointer: RefCell<Pointer>,
+    // Weak, as the target's container is often an ancestor of this divert.
+    target_pointer: RefCell<Option<(Weak<Container>, i32)>>,
     target_path: RefCell<Option<Path>>,
     pub external_args: usize,
     pub is_conditional: bool,
@@ -37,7 +42,7 @@ impl Divert {
             stack_push_type,
             is_external,
             external_args,
-            target_pointer: RefCell::new(pointer::NULL.clone()),
+            target_pointer: RefCell::new(None),
             target_path: RefCell::new(Self::target_path_string(target_path)),
             variable_divert_name: var_divert_name,
         }
@@ -80,39 +85,36 @@ impl Divert {
     }
 
     pub fn get_target_pointer(self: &Rc<Self>) -> Pointer {
-        let target_pointer_null = self.target_pointer.borrow().is_null();
-        if target_pointer_null {
-            let target_obj =
-                Object::resolve_path(self.clone(), self.target_path.borrow().as_ref().unwrap())
-                    .obj
-                    .clone();
-
-            if self
-                .target_path
-                .borrow()
-                .as_ref()
-                .unwrap()
-                .get_last_component()
-                .unwrap()
-                .is_index()
-            {
-                self.target_pointer.borrow_mut().container = target_obj.get_object().get_parent();
-                self.target_pointer.borrow_mut().index = self
-                    .target_path
-                    .borrow()
-                    .as_ref()
-                    .unwrap()
-                    .get_last_component()
-                    .unwrap()
-                    .index
-                    .unwrap() as i32;
-            } else {
-                let c = target_obj.into_any().downcast::<Container>();
-                self.target_pointer.replace(Pointer::start_of(c.unwrap()));
-            }
+        if let Some((container, index)) = self.target_pointer.borrow().as_ref() {
+            return Pointer::new(container.upgrade(), *index);
+        }
+
+        let pointer = self.resolve_target_pointer();
+
+        if let Some(container) = &pointer.container {
+            self.target_pointer
+                .replace(Some((Rc::downgrade(container), pointer.index)));
         }
 
-        self.target_pointer.borrow().clone()
+        pointer
+    }
+
+    fn resolve_target_pointer(self: &Rc<Self>) -> Pointer {
+        let target_path = self.target_path.borrow();
+        let Some(target_path) = target_path.as_ref() else {
+            return pointer::NULL.clone();
+        };
+
+        let target_obj = Object::resolve_path(self.clone(), target_path).obj;
+
+        if let Some(index) = target_path.get_last_component().and_then(|c| c.index) {
+            return Pointer::new(target_obj.get_object().get_parent(), index as i32);
+        }
+
+        match target_obj.into_any().downcast::<Container>() {
+            Ok(container) => Pointer::start_of(container),
+            Err(_) => pointer::NULL.clone(),
+        }
     }
 
     pub fn get_target_path(self: &Rc<Self>) -> Option<Path> {
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index f06b59f..6955ab5 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -96,8 +96,9 @@ impl Story {
             }
 
             if self.get_state().diverted_pointer.is_null() && !current_divert.is_external {
-                //     error(format!("Divert resolution failed: {:?}",
-                // current_divert));
+                return Err(StoryError::InvalidStoryState(format!(
+                    "Divert resolution failed: {current_divert}"
+                )));
             }
 
             return Ok(true);
-- 
2.43.0


From a9cef7286c768d084deeffb43f0fbf85c4ec9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 38/69] fix: a relative path keeps its dot and equal paths hash
 equally

---
 runtime/src/path.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/runtime/src/path.rs b/runtime/src/path.rs
index b9f86b8..c5c0eca 100644
--- a/runtime/src/path.rs
+++ b/runtime/src/path.rs
@@ -43,7 +43,7 @@ impl Path {
             };
         }
 
-        let mut cs = cs.unwrap().to_string();
+        let mut cs = cs.unwrap();
 
         // When components start with ".", it indicates a relative path, e.g.
         // .^.^.hello.5
@@ -52,15 +52,19 @@ impl Path {
 
         if cs.starts_with('.') {
             is_relative = true;
-            cs = cs[1..].to_string();
+            cs = &cs[1..];
         } else {
             is_relative = false;
         }
 
-        let component_string = cs.split('.');
+        // "." alone is the relative path to the object itself
+        if cs.is_empty() {
+            return Path::get_self();
+        }
+
         let mut components = Vec::new();
 
-        for str in component_string {
+        for str in cs.split('.') {
             let index = str.parse::<usize>();
 
             match index {
@@ -69,14 +73,7 @@ impl Path {
             }
         }
 
-        let cs_cell = OnceCell::new();
-        let _ = cs_cell.set(cs);
-
-        Path {
-            components,
-            is_relative,
-            components_string: cs_cell,
-        }
+        Path::new(&components, is_relative)
     }
 
     pub fn get_component(&self, index: usize) -> Option<&Component> {
@@ -133,9 +130,8 @@ impl Path {
 
         let mut components = Vec::new();
 
-        for i in 0..self.components.len() - upward_moves {
-            components.push(self.components.get(i).unwrap().clone());
-        }
+        let kept = self.components.len().saturating_sub(upward_moves);
+        components.extend_from_slice(&self.components[..kept]);
 
         for i in upward_moves..path_to_append.components.len() {
             components.push(path_to_append.components.get(i).unwrap().clone());
@@ -186,7 +182,8 @@ impl fmt::Display for Path {
 
 impl Hash for Path {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.to_string().hash(state)
+        self.is_relative.hash(state);
+        self.components.hash(state)
     }
 }
 
-- 
2.43.0


From beead0a451a94d8f4c7851caa65bb2c680d1aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 39/69] fix: counting what is not a container is an error, not
 a panic

---
 runtime/src/object.rs              | 5 ++++-
 runtime/src/story/control_logic.rs | 8 ++++----
 runtime/src/variable_reference.rs  | 4 ++--
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/runtime/src/object.rs b/runtime/src/object.rs
index d175b05..db826bc 100644
--- a/runtime/src/object.rs
+++ b/runtime/src/object.rs
@@ -116,7 +116,10 @@ impl Object {
                 p = path.get_tail();
             };
 
-            nearest_container.unwrap().content_at_path(&p, 0, -1)
+            match nearest_container {
+                Some(container) => container.content_at_path(&p, 0, -1),
+                None => SearchResult::new(rtobject, true),
+            }
         } else {
             Object::get_root_container(rtobject).content_at_path(path, 0, -1)
         }
diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 6955ab5..4f1082d 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -679,10 +679,10 @@ impl Story {
         {
             let found_value: Rc<Value>; // Explicit read count value
             if var_ref.path_for_count.is_some() {
-                let container = var_ref.get_container_for_count();
-                let count = self
-                    .get_state_mut()
-                    .visit_count_for_container(container.as_ref().unwrap());
+                let container = var_ref
+                    .get_container_for_count()
+                    .map_err(StoryError::InvalidStoryState)?;
+                let count = self.get_state_mut().visit_count_for_container(&container);
                 found_value = Rc::new(Value::new::<i32>(count));
             }
             // Normal variable reference
diff --git a/runtime/src/variable_reference.rs b/runtime/src/variable_reference.rs
index bee9c0d..4daf648 100644
--- a/runtime/src/variable_reference.rs
+++ b/runtime/src/variable_reference.rs
@@ -31,9 +31,9 @@ impl VariableReference {
 
     pub fn get_container_for_count(self: &Rc<Self>) -> Result<Rc<Container>, String> {
         if let Some(path) = &self.path_for_count {
-            Ok(Object::resolve_path(self.clone(), path)
+            Object::resolve_path(self.clone(), path)
                 .container()
-                .unwrap())
+                .ok_or_else(|| format!("There is nothing to count at '{path}'."))
         } else {
             Err("Path for count is not set.".to_owned())
         }
-- 
2.43.0


From bed0cae876d8cdfd8288babe86e63609d34ff1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 40/69] fix: ?, !? and ^ bind tighter than comparisons

---
 compiler/src/parser/expression.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 1280cbf..268826c 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -388,38 +388,51 @@ impl ExpressionParser {
     }
 
     fn parse_comparison(&mut self) -> Result<Expression, CompilerError> {
-        let mut expression = self.parse_addition()?;
+        let mut expression = self.parse_containment()?;
 
         loop {
             if self.match_token(&Token::Greater) {
-                let right = self.parse_addition()?;
+                let right = self.parse_containment()?;
                 expression = Expression::Binary {
                     left: Box::new(expression),
                     operator: BinaryOperator::Greater,
                     right: Box::new(right),
                 };
             } else if self.match_token(&Token::GreaterEqual) {
-                let right = self.parse_addition()?;
+                let right = self.parse_containment()?;
                 expression = Expression::Binary {
                     left: Box::new(expression),
                     operator: BinaryOperator::GreaterEqual,
                     right: Box::new(right),
                 };
             } else if self.match_token(&Token::Less) {
-                let right = self.parse_addition()?;
+                let right = self.parse_containment()?;
                 expression = Expression::Binary {
                     left: Box::new(expression),
                     operator: BinaryOperator::Less,
                     right: Box::new(right),
                 };
             } else if self.match_token(&Token::LessEqual) {
-                let right = self.parse_addition()?;
+                let right = self.parse_containment()?;
                 expression = Expression::Binary {
                     left: Box::new(expression),
                     operator: BinaryOperator::LessEqual,
                     right: Box::new(right),
                 };
-            } else if self.match_token(&Token::Has) {
+            } else {
+                break;
+            }
+        }
+
+        Ok(expression)
+    }
+
+    /// `?`, `!?` and `^` bind tighter than comparisons.
+    fn parse_containment(&mut self) -> Result<Expression, CompilerError> {
+        let mut expression = self.parse_addition()?;
+
+        loop {
+            if self.match_token(&Token::Has) {
                 let right = self.parse_addition()?;
                 expression = Expression::Binary {
                     left: Box::new(expression),
-- 
2.43.0


From b51d1830c7c425d6dd7410b1ed71192a62af99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 41/69] fix: a qualified list item in an expression is the
 item, not a read count

---
 compiler/src/emitter/conditional.rs | 4 +++-
 compiler/src/emitter/context.rs     | 5 +++++
 compiler/src/emitter/expression.rs  | 2 ++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index 7c9c1ca..a9aef48 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -26,7 +26,9 @@ fn emit_condition(
             out.push(json!({"CNT?": scope.resolve_divert_target(name, context)}));
         }
         // Fully-qualified path like knot.stitch.label — treat as CNT? visit count
-        Condition::Expression(Expression::Variable(name)) if name.contains('.') => {
+        Condition::Expression(Expression::Variable(name))
+            if name.contains('.') && !context.is_qualified_list_item(name) =>
+        {
             out.push(json!({"CNT?": name}));
         }
         Condition::Expression(expression) => {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index fad9683..f383854 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -456,6 +456,11 @@ impl EmitContext {
         }
     }
 
+    /// Whether `name` is `List.item` for a declared list and one of its items.
+    fn is_qualified_list_item(&self, name: &str) -> bool {
+        name.contains('.') && self.resolve_list_item(name).is_some()
+    }
+
     /// Look up a bare item name (e.g. "b") across all lists.
     /// Returns the qualified name and value if found.
     fn resolve_list_item(&self, bare_name: &str) -> Option<(String, u32)> {
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index 2bc9839..ada80ff 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -306,6 +306,8 @@ fn emit_expression_ctx(
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
                 out.push(json!({"CNT?": path}))
+            } else if context.is_some_and(|ctx| ctx.is_qualified_list_item(name)) {
+                out.push(json!({"VAR?": name}))
             } else if name.contains('.') {
                 out.push(json!({"CNT?": name}))
             } else if let (Some(s), Some(ctx)) = (scope, context)
-- 
2.43.0


From e8748deed2291e59a47cfd4264f43684d4379dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 42/69] fix: a condition that is one built-in or list call is
 not a call of a function

---
 compiler/src/emitter/conditional.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/emitter/conditional.rs b/compiler/src/emitter/conditional.rs
index a9aef48..0f9bf70 100644
--- a/compiler/src/emitter/conditional.rs
+++ b/compiler/src/emitter/conditional.rs
@@ -7,7 +7,11 @@ fn emit_condition(
     match condition {
         Condition::Bool(value) => out.push(json!(value)),
         Condition::FunctionCall(name) => {
-            out.push(json!({"f()": name}));
+            let call = Expression::FunctionCall {
+                name: name.clone(),
+                args: Vec::new(),
+            };
+            emit_expression_ctx(&call, out, Some(context), Some(scope))
         }
         Condition::Expression(Expression::Variable(name))
             if scope.resolve_choice_label(name).is_some() =>
-- 
2.43.0


From af225ad88ed6cb948933f61fbcbb622ba4e79a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 43/69] fix: a statement is a call or an assignment by what
 follows its name

---
 compiler/src/parser/declarations.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index f8824b8..32349b8 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -113,15 +113,21 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    // Check for a standalone function call (no '=' in the statement, but has '()')
+    // What follows the leading name tells a call from an assignment; an '=' further on
+    // may be part of a comparison or of a string.
+    let after_name = input
+        .trim_start_matches(|ch: char| ch.is_alphanumeric() || ch == '_')
+        .trim_start();
+
+    // Check for a standalone function call
     // e.g. `~ derp(2, 3, 4)` or `~ merchant_init()`
-    if !input.contains('=')
+    if (after_name.starts_with('(') || !input.contains('='))
         && let Ok(Some((name, args))) = parse_call_like(input)
     {
         return Ok(Node::VoidCall { name, args });
     }
 
-    if input.contains("+=") {
+    if after_name.starts_with("+=") {
         let (name, expression) = split_assignment(input, "+=")?;
         return Ok(Node::Assignment {
             variable_name: name,
@@ -130,7 +136,7 @@ fn parse_assignment(input: &str) -> Result<Node, CompilerError> {
         });
     }
 
-    if input.contains("-=") {
+    if after_name.starts_with("-=") {
         let (name, expression) = split_assignment(input, "-=")?;
         return Ok(Node::Assignment {
             variable_name: name,
-- 
2.43.0


From 7875a1670303939b9d125a68642de906e8d41163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 44/69] fix: running out of content after a fallback choice is
 reported

---
 runtime/src/story/choices.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/story/choices.rs b/runtime/src/story/choices.rs
index 84b3137..abb1ab3 100644
--- a/runtime/src/story/choices.rs
+++ b/runtime/src/story/choices.rs
@@ -153,6 +153,9 @@ impl Story {
                 .set_current_thread(fork_thread);
         }
 
+        // The exit that led to the choice is not an exit of what the choice leads to.
+        self.get_state_mut().set_did_safe_exit(false);
+
         self.choose_path(&choice.target_path, false)
     }
 
-- 
2.43.0


From 31cf6efed2be04d2a3d05f5698bd61626da21587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 45/69] fix: warnings that reached the error handler are not
 delivered again

---
 runtime/src/story/progress.rs | 7 +++----
 runtime/src/story_state.rs    | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 622359a..b0b06f9 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -256,10 +256,9 @@ impl Story {
                         sb.push_str(self.get_state().get_current_errors()[0].as_str());
                         return Err(StoryError::InvalidStoryState(sb));
                     }
-                    // Only warnings and no handler: discard silently (consistent
-                    // with the C# reference implementation which does not throw
-                    // for warnings without a handler).
-                    self.reset_errors();
+                    // Only warnings and no handler: they stay readable, but nothing
+                    // is thrown (consistent with the C# reference implementation
+                    // which does not throw for warnings without a handler).
                 }
             }
         }
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index bc635da..7dcb278 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -1489,5 +1489,6 @@ impl StoryState {
 
     pub(crate) fn reset_errors(&mut self) {
         self.current_errors.clear();
+        self.current_warnings.clear();
     }
 }
-- 
2.43.0


From 62970b45012b66188af285caac0e4327c91cbd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 46/69] fix: messages of an unfinished continue are reported
 when it completes

---
 runtime/src/story/progress.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index b0b06f9..070d159 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -209,7 +209,11 @@ impl Story {
         // Report any errors that occured during evaluation.
         // This may either have been StoryExceptions that were thrown
         // and caught during evaluation, or directly added with AddError.
-        if self.get_state().has_error() || self.get_state().has_warning() {
+        // An unfinished continue reports nothing yet: what it ran while looking
+        // ahead may be rewound and run again.
+        if !self.async_continue_active
+            && (self.get_state().has_error() || self.get_state().has_warning())
+        {
             match &self.on_error {
                 Some(on_err) => {
                     if self.get_state().has_error() {
-- 
2.43.0


From 8b672a341bb869ab6171d64bb0612a0e85533f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 47/69] fix: only the end of the top-level content is an
 implicit DONE

---
 compiler/src/emitter/choice_threaded.rs | 6 +++++-
 compiler/src/emitter/choice_wrapped.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/src/emitter/choice_threaded.rs b/compiler/src/emitter/choice_threaded.rs
index 1ce0123..428825e 100644
--- a/compiler/src/emitter/choice_threaded.rs
+++ b/compiler/src/emitter/choice_threaded.rs
@@ -108,7 +108,11 @@ fn emit_choice_block(
                 fallback_continuation,
                 Some(g_n_path.as_str()),
                 true,
-                LooseEndNoFallback::Done,
+                if scope.top_flow_name.is_none() {
+                    LooseEndNoFallback::Done
+                } else {
+                    LooseEndNoFallback::None
+                },
             ) {
                 gather_container.push(token);
             }
diff --git a/compiler/src/emitter/choice_wrapped.rs b/compiler/src/emitter/choice_wrapped.rs
index c2397b7..bbebd1b 100644
--- a/compiler/src/emitter/choice_wrapped.rs
+++ b/compiler/src/emitter/choice_wrapped.rs
@@ -73,7 +73,11 @@ fn build_wrapped_loop_choice_block(
             fallback_continuation,
             Some(continuation_path_abs.as_str()),
             true,
-            LooseEndNoFallback::Done,
+            if scope.top_flow_name.is_none() {
+                LooseEndNoFallback::Done
+            } else {
+                LooseEndNoFallback::None
+            },
         ) {
             continuation_container.push(token);
         }
-- 
2.43.0


From a0b1cd28da00a96b114ee55cd3f7deec69171ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 48/69] fix: global declarations that divert or offer choices
 are refused instead of running forever while a story is constructed

---
 runtime/src/story/control_logic.rs | 15 ++++++++++++++-
 runtime/src/story/mod.rs           |  2 ++
 runtime/src/story/state.rs         |  5 ++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/runtime/src/story/control_logic.rs b/runtime/src/story/control_logic.rs
index 4f1082d..1626b56 100644
--- a/runtime/src/story/control_logic.rs
+++ b/runtime/src/story/control_logic.rs
@@ -1,4 +1,5 @@
 use crate::{
+    choice_point::ChoicePoint,
     container::Container,
     control_command::{CommandType, ControlCommand},
     divert::Divert,
@@ -34,7 +35,19 @@ impl Story {
         let content_obj = match content_obj {
             Some(content_obj) => content_obj.clone(),
             None => return Ok(false),
-        }; // Divert
+        };
+
+        // Global declarations are only values and assignments: nothing in
+        // them can lead elsewhere (or back, forever).
+        if self.declaring_globals
+            && (content_obj.as_any().is::<Divert>() || content_obj.as_any().is::<ChoicePoint>())
+        {
+            return Err(StoryError::BadJson(
+                "Global declarations can't divert or offer choices".to_owned(),
+            ));
+        }
+
+        // Divert
         if let Ok(current_divert) = content_obj.clone().into_any().downcast::<Divert>() {
             if current_divert.is_conditional {
                 let o = self.get_state_mut().pop_evaluation_stack()?;
diff --git a/runtime/src/story/mod.rs b/runtime/src/story/mod.rs
index e2630a7..4502711 100644
--- a/runtime/src/story/mod.rs
+++ b/runtime/src/story/mod.rs
@@ -40,6 +40,7 @@ pub struct Story {
     pub(crate) has_validated_externals: bool,
     pub(crate) allow_external_function_fallbacks: bool,
     pub(crate) saw_lookahead_unsafe_function_after_new_line: bool,
+    pub(crate) declaring_globals: bool,
     pub(crate) externals: HashMap<String, ExternalFunctionDef>,
 }
 mod misc {
@@ -74,6 +75,7 @@ mod misc {
                 async_continue_active: false,
                 async_saving: false,
                 saw_lookahead_unsafe_function_after_new_line: false,
+                declaring_globals: false,
                 state_snapshot_at_last_new_line: None,
                 on_error: None,
                 prev_containers: Vec::new(),
diff --git a/runtime/src/story/state.rs b/runtime/src/story/state.rs
index fe77dd9..2a1309b 100644
--- a/runtime/src/story/state.rs
+++ b/runtime/src/story/state.rs
@@ -31,7 +31,10 @@ impl Story {
 
             // Continue, but without validating external bindings,
             // since we may be doing this reset at initialisation time.
-            self.continue_internal(0.0)?;
+            self.declaring_globals = true;
+            let declared = self.continue_internal(0.0);
+            self.declaring_globals = false;
+            declared?;
 
             self.get_state().set_current_pointer(original_pointer);
         }
-- 
2.43.0


From 6876a8ab26d13565561204a9074bd936f80da623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 49/69] fix: temporary variables of contexts that do not exist
 and pointer indexes out of range are errors, not panics

---
 runtime/src/callstack.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/runtime/src/callstack.rs b/runtime/src/callstack.rs
index afba5db..dcc5f66 100644
--- a/runtime/src/callstack.rs
+++ b/runtime/src/callstack.rs
@@ -94,8 +94,8 @@ impl Thread {
                         let pointer_index = j_element_obj
                             .get("idx")
                             .and_then(|i| i.as_i64())
-                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?
-                            as i32;
+                            .and_then(|i| i32::try_from(i).ok())
+                            .ok_or(StoryError::BadJson("Invalid pointer index".to_owned()))?;
                         pointer.index = pointer_index;
 
                         if thread_pointer_result.approximate {
@@ -243,7 +243,7 @@ impl CallStack {
 
     pub fn push_thread(&mut self) {
         let mut new_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         new_thread.thread_index = self.thread_counter;
         self.threads.push(new_thread);
     }
@@ -310,7 +310,7 @@ impl CallStack {
 
     pub fn fork_thread(&mut self) -> Thread {
         let mut forked_thread = self.get_current_thread().clone();
-        self.thread_counter += 1;
+        self.thread_counter = self.thread_counter.wrapping_add(1);
         forked_thread.thread_index = self.thread_counter;
         forked_thread
     }
@@ -328,8 +328,13 @@ impl CallStack {
 
         let context_element = self
             .get_callstack_mut()
-            .get_mut((context_index - 1) as usize)
-            .unwrap();
+            .get_mut(context_index.wrapping_sub(1) as usize)
+            .ok_or_else(|| {
+                StoryError::InvalidStoryState(format!(
+                    "Could not find the context of temporary variable: {}",
+                    name
+                ))
+            })?;
 
         if !declare_new && !context_element.temporary_variables.contains_key(&name) {
             return Err(StoryError::InvalidStoryState(format!(
@@ -376,8 +381,10 @@ impl CallStack {
             context_index = self.get_current_element_index() + 1;
         }
 
-        let context_element = self.get_callstack().get((context_index - 1) as usize);
-        let var_value = context_element.unwrap().temporary_variables.get(name);
+        let context_element = self
+            .get_callstack()
+            .get(context_index.wrapping_sub(1) as usize)?;
+        let var_value = context_element.temporary_variables.get(name);
 
         var_value.cloned()
     }
-- 
2.43.0


From 73d25fb016b2346431029e3d7df31ea85ad6764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 50/69] fix: a saved position past its container's content and
 extreme turn numbers no longer panic when play goes on

---
 runtime/src/story/progress.rs | 4 ++--
 runtime/src/story_state.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/src/story/progress.rs b/runtime/src/story/progress.rs
index 070d159..543a74a 100644
--- a/runtime/src/story/progress.rs
+++ b/runtime/src/story/progress.rs
@@ -408,7 +408,7 @@ impl Story {
             return Ok(());
         }
 
-        if is_logic_or_flow_control {
+        if is_logic_or_flow_control || current_content_obj.is_none() {
             should_add_to_stream = false;
         }
 
@@ -587,7 +587,7 @@ impl Story {
             .get_current_element()
             .current_pointer
             .clone();
-        pointer.index += 1;
+        pointer.index = pointer.index.saturating_add(1);
 
         let mut container = pointer.container.as_ref().unwrap().clone();
 
diff --git a/runtime/src/story_state.rs b/runtime/src/story_state.rs
index 7dcb278..7656650 100644
--- a/runtime/src/story_state.rs
+++ b/runtime/src/story_state.rs
@@ -933,7 +933,7 @@ impl StoryState {
         self.set_current_pointer(new_pointer);
 
         if incrementing_turn_index {
-            self.current_turn_index += 1;
+            self.current_turn_index = self.current_turn_index.wrapping_add(1);
         }
 
         Ok(())
-- 
2.43.0


From 8100a6f27fecb3f1cf392ea3a6fedc2039994d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 51/69] fix: tokenize expressions by byte positions

The expression tokenizer and the argument splitter mixed character and byte
positions; text outside ASCII in an expression panicked or was cut wrongly.
---
 compiler/src/parser/expression.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 268826c..7822a94 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -49,8 +49,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
         }
 
         if ch == '-' && chars.get(index + 1) == Some(&'>') {
-            let rest = input[index + 2..].trim_start();
-            let parsed = parse_path_identifier(rest).ok_or_else(|| {
+            let rest: String = chars[index + 2..].iter().collect();
+            let parsed = parse_path_identifier(rest.trim_start()).ok_or_else(|| {
                 CompilerError::invalid_source("expected divert target after '->'".to_owned())
             })?;
             tokens.push(Token::DivertTarget(parsed.to_owned()));
@@ -179,16 +179,16 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     }
                     index += 1;
                 }
-                let token_text = &input[start..index];
+                let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
-                    tokens.push(Token::Ident(token_text.to_owned()));
+                    tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
-                    let value = input[start..index].parse::<f32>().map_err(|error| {
+                    let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
                     tokens.push(Token::Float(value));
                 } else {
-                    let value = input[start..index].parse::<i32>().map_err(|error| {
+                    let value = token_text.parse::<i32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid integer literal: {error}"))
                     })?;
                     tokens.push(Token::Int(value));
@@ -202,8 +202,8 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 {
                     index += 1;
                 }
-                let ident = &input[start..index];
-                match ident {
+                let ident: String = chars[start..index].iter().collect();
+                match ident.as_str() {
                     "true" => tokens.push(Token::Bool(true)),
                     "false" => tokens.push(Token::Bool(false)),
                     "and" => tokens.push(Token::AndAnd),
@@ -211,7 +211,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident.to_owned())),
+                    _ => tokens.push(Token::Ident(ident)),
                 }
             }
             _ => {
@@ -294,9 +294,8 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
     let mut start = 0;
     let mut depth = 0;
     let mut in_string = false;
-    let chars: Vec<char> = input.chars().collect();
 
-    for (index, ch) in chars.iter().enumerate() {
+    for (index, ch) in input.char_indices() {
         match ch {
             '"' => in_string = !in_string,
             '(' if !in_string => depth += 1,
-- 
2.43.0


From 0aa2b021edde5f8a057fa5c62ec5f70ce332389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 52/69] fix: && and || of a list check the types of both
 operands

The right operand was only looked at when the left did not decide, so that a
divert target next to a list was an error or not depending on the list.
---
 runtime/src/native_function_call.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/native_function_call.rs b/runtime/src/native_function_call.rs
index 23e82d0..0217bde 100644
--- a/runtime/src/native_function_call.rs
+++ b/runtime/src/native_function_call.rs
@@ -260,12 +260,12 @@ impl NativeFunctionCall {
             && (Value::get_value::<&InkList>(params[0].as_ref()).is_none()
                 || Value::get_value::<&InkList>(params[1].as_ref()).is_none())
         {
-            let result = {
-                if self.op == Op::And {
-                    v1.is_truthy()? && v2.is_truthy()?
-                } else {
-                    v1.is_truthy()? || v2.is_truthy()?
-                }
+            // Both operands have to be of a type with a truth value
+            let (b1, b2) = (v1.is_truthy()?, v2.is_truthy()?);
+            let result = if self.op == Op::And {
+                b1 && b2
+            } else {
+                b1 || b2
             };
 
             return Ok(Rc::new(Value::new::<bool>(result)));
-- 
2.43.0


From a5928a3a456646e74c7d52d31c42b1b3c30a0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:11 +0000
Subject: [PATCH 53/69] fix: tags at a path that is not a knot or stitch are an
 error

tags_for_content_at_path panicked when the path led to content that is not a
container.
---
 runtime/src/story/tags.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/story/tags.rs b/runtime/src/story/tags.rs
index 5e168fe..d9d5a8a 100644
--- a/runtime/src/story/tags.rs
+++ b/runtime/src/story/tags.rs
@@ -31,7 +31,11 @@ impl Story {
         let path = Path::new_with_components_string(Some(path_string));
 
         // Expected to be global story, knot, or stitch
-        let mut flow_container = self.content_at_path(&path).container().unwrap();
+        let mut flow_container = self.content_at_path(&path).container().ok_or_else(|| {
+            StoryError::BadArgument(format!(
+                "The content at '{path_string}' is not a knot or stitch."
+            ))
+        })?;
 
         while let Some(first_content) = flow_container.content.first() {
             if let Ok(container) = first_content.clone().into_any().downcast::<Container>() {
-- 
2.43.0


From 09deaf0aa0b88ead27df11dbbfc31e6ee5d9a9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 54/69] fix: a divert without its closing parenthesis is an
 error, not a panic

---
 compiler/src/inline.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index a867ccd..6d156bb 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -235,7 +235,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
         if !rest.is_empty() && !rest.starts_with("->") && rest.contains('(') {
             // Parse `target` or `target(args)` from `rest`
             let (target_name, args) = if let Some(open) = rest.find('(') {
-                let close = rest.rfind(')').unwrap_or(rest.len() - 1);
+                let close = closing_parenthesis(rest, open)?;
                 let tname = rest[..open].trim().to_owned();
                 let args_str = &rest[open + 1..close];
                 let mut args = Vec::new();
@@ -266,7 +266,7 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     // Helper to parse "target" or "target(arg1, arg2)" from a segment
     fn parse_segment(segment: &str) -> Result<(String, Vec<Expression>), CompilerError> {
         if let Some(open) = segment.find('(') {
-            let close = segment.rfind(')').unwrap_or(segment.len() - 1);
+            let close = closing_parenthesis(segment, open)?;
             let target = segment[..open].trim().to_owned();
             let args_str = &segment[open + 1..close];
             let mut args = Vec::new();
@@ -338,6 +338,13 @@ pub fn parse_divert_line(input: &str) -> Result<Vec<Node>, CompilerError> {
     Ok(vec![Node::Divert(parse_divert(segments[0])?)])
 }
 
+/// The last `)` of a divert's arguments, which start at `open`.
+fn closing_parenthesis(text: &str, open: usize) -> Result<usize, CompilerError> {
+    text.rfind(')')
+        .filter(|close| *close > open)
+        .ok_or_else(|| CompilerError::invalid_source("missing ')' in divert target".to_owned()))
+}
+
 fn split_top_level_divert_segments(input: &str) -> Vec<&str> {
     let bytes = input.as_bytes();
     let len = input.len();
-- 
2.43.0


From 5c436ed0bc3b56881a0eec1b1a04d235862d941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 55/69] fix: sources nested too deeply to compile or to load
 are an error, not a stack overflow

---
 compiler/src/emitter/context.rs    |   1 +
 compiler/src/emitter/mod.rs        |   1 +
 compiler/src/inline.rs             |   3 +
 compiler/src/lib.rs                |   3 +
 compiler/src/nesting.rs            | 291 +++++++++++++++++++++++++++++
 compiler/src/parser/conditional.rs |   6 +
 compiler/src/parser/expression.rs  |  23 ++-
 compiler/src/parser/mod.rs         |   1 +
 compiler/src/parser/statement.rs   |   1 +
 9 files changed, 327 insertions(+), 3 deletions(-)
 create mode 100644 compiler/src/nesting.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index f383854..007022e 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -12,6 +12,7 @@ pub fn story_to_json_string(
     count_all_visits: bool,
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
+    nesting::check_json(&json)?;
     serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
     })
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index bada2f3..9381387 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,6 +11,7 @@ use crate::{
     },
     error::CompilerError,
     inline::{parse_dynamic_string, tokenize_inline_content},
+    nesting,
 };
 
 include!("context.rs");
diff --git a/compiler/src/inline.rs b/compiler/src/inline.rs
index 6d156bb..047dcd4 100644
--- a/compiler/src/inline.rs
+++ b/compiler/src/inline.rs
@@ -1,11 +1,13 @@
 use crate::{
     ast::{Divert, DynamicString, DynamicStringPart, Expression, Node, Sequence, SequenceMode},
     error::CompilerError,
+    nesting,
 };
 
 use crate::parser::expression::{parse_call_like, parse_expression};
 
 pub fn tokenize_inline_content(content: &str) -> Result<Vec<Node>, CompilerError> {
+    let _nested = nesting::block()?;
     let mut nodes = Vec::new();
     let mut text = String::new();
     let mut chars = content.char_indices().peekable();
@@ -152,6 +154,7 @@ pub fn space_before_divert(text: &mut String) {
 }
 
 pub fn parse_dynamic_string(input: &str) -> Result<DynamicString, CompilerError> {
+    let _nested = nesting::block()?;
     let mut parts = Vec::new();
     let mut text = String::new();
     let mut chars = input.char_indices().peekable();
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3214bb2..3b2bd9d 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -4,6 +4,7 @@ mod emitter;
 pub mod error;
 mod includes;
 mod inline;
+mod nesting;
 mod parser;
 pub mod stats;
 mod validator;
@@ -81,6 +82,7 @@ impl Compiler {
             .as_deref()
             .unwrap_or("<source>");
         let parsed_story = includes::parse_story_with_includes(source, &file_handler, source_name)?;
+        nesting::check_story(&parsed_story)?;
         Ok(stats::Stats::generate(&parsed_story))
     }
 
@@ -103,6 +105,7 @@ impl Compiler {
             .as_deref()
             .unwrap_or("<source>");
         let parsed_story = includes::parse_story_with_includes(source, &file_handler, source_name)?;
+        nesting::check_story(&parsed_story)?;
         let parsed_story = consts::resolve(parsed_story);
         validator::validate(&parsed_story)?;
         emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
diff --git a/compiler/src/nesting.rs b/compiler/src/nesting.rs
new file mode 100644
index 0000000..8a87d8f
--- /dev/null
+++ b/compiler/src/nesting.rs
@@ -0,0 +1,291 @@
+//! Limits how deeply the constructs of a source may be nested: every stage of the compiler
+//! recurses over them, and a compiled story whose containers are nested too deeply cannot be
+//! loaded.
+
+use std::cell::Cell;
+
+use serde_json::Value;
+
+use crate::{
+    ast::{
+        Choice, Condition, DynamicString, DynamicStringPart, Expression, Flow, Node, ParsedStory,
+    },
+    error::CompilerError,
+    inline::{parse_dynamic_string, tokenize_inline_content},
+};
+
+/// The most that nested constructs may weigh together.
+const LIMIT: usize = 600;
+/// What a nested block, string or parenthesis weighs.
+const BLOCK: usize = 10;
+/// What the continuation of a block of choices weighs.
+const GATHER: usize = 8;
+/// What one more operator or branch of a chain weighs.
+const LINK: usize = 1;
+/// The most operands one expression may have.
+const MAX_OPERANDS: usize = 200;
+/// The most arrays and objects of a compiled story that may be inside each other.
+const MAX_JSON_DEPTH: usize = 127;
+
+thread_local! {
+    static WEIGHT: Cell<usize> = const { Cell::new(0) };
+}
+
+/// A construct that is being parsed.
+pub(crate) struct Nested(usize);
+
+impl Drop for Nested {
+    fn drop(&mut self) {
+        WEIGHT.with(|weight| weight.set(weight.get() - self.0));
+    }
+}
+
+fn too_deep() -> CompilerError {
+    CompilerError::invalid_source("the source is nested too deeply")
+}
+
+fn enter(weight: usize) -> Result<Nested, CompilerError> {
+    WEIGHT.with(|total| {
+        if total.get() + weight > LIMIT {
+            return Err(too_deep());
+        }
+        total.set(total.get() + weight);
+        Ok(Nested(weight))
+    })
+}
+
+/// Start parsing a block, a string or a parenthesised expression.
+pub(crate) fn block() -> Result<Nested, CompilerError> {
+    enter(BLOCK)
+}
+
+/// Start parsing what follows in a chain of branches.
+pub(crate) fn link() -> Result<Nested, CompilerError> {
+    enter(LINK)
+}
+
+/// Count one more operand of an expression.
+pub(crate) fn operand(count: &mut usize) -> Result<(), CompilerError> {
+    *count += 1;
+    if *count > MAX_OPERANDS {
+        return Err(CompilerError::invalid_source(
+            "the expression has too many operands",
+        ));
+    }
+    Ok(())
+}
+
+/// Check the depth of a parsed story, looking into the strings and choices whose content is
+/// only parsed when it is emitted.
+pub(crate) fn check_story(story: &ParsedStory) -> Result<(), CompilerError> {
+    for global in story.globals() {
+        expression(&global.initial_value, 0)?;
+    }
+    for constant in story.consts.values() {
+        expression(constant, 0)?;
+    }
+    nodes(story.root(), 0)?;
+    story.flows().iter().try_for_each(flow)
+}
+
+fn flow(item: &Flow) -> Result<(), CompilerError> {
+    nodes(&item.nodes, 0)?;
+    item.children.iter().try_for_each(flow)
+}
+
+fn deeper(depth: usize, weight: usize) -> Result<usize, CompilerError> {
+    if depth + weight > LIMIT {
+        return Err(too_deep());
+    }
+    Ok(depth + weight)
+}
+
+fn nodes(items: &[Node], depth: usize) -> Result<(), CompilerError> {
+    let depth = deeper(depth, BLOCK)?;
+    // What follows a block of choices is nested in the block's gather, up to the next of
+    // the labelled gathers that are beside each other.
+    let mut gathers = depth;
+    let mut labelled = None;
+    let mut after_choice = false;
+    let mut first_level = None;
+    for item in items {
+        // Choices of deeper levels are nested in the ones above them.
+        if let Node::Choice(item) = item {
+            let first = *first_level.get_or_insert(item.nesting_level);
+            let levels = item.nesting_level.saturating_sub(first);
+            deeper(gathers, levels * BLOCK)?;
+        }
+        match (item, labelled) {
+            (Node::Choice(_), _) => after_choice = true,
+            (Node::GatherLabel { .. }, Some(depth)) => {
+                gathers = depth;
+                after_choice = false;
+            }
+            _ if after_choice => {
+                gathers = deeper(gathers, GATHER)?;
+                after_choice = false;
+            }
+            (Node::GatherLabel { .. }, None) => labelled = Some(gathers),
+            _ => {}
+        }
+        node(item, gathers)?;
+    }
+    Ok(())
+}
+
+fn node(item: &Node, depth: usize) -> Result<(), CompilerError> {
+    match item {
+        Node::OutputExpression(value) | Node::ReturnExpr(value) => expression(value, depth),
+        Node::Assignment {
+            expression: value, ..
+        } => expression(value, depth),
+        Node::Tag(tag) => string(tag, depth),
+        Node::Sequence(sequence) => sequence
+            .branches
+            .iter()
+            .try_for_each(|branch| nodes(branch, depth)),
+        Node::Divert(divert) | Node::ThreadDivert(divert) => expressions(&divert.arguments, depth),
+        Node::TunnelDivert { args, .. }
+        | Node::TunnelOnwardsWithTarget { args, .. }
+        | Node::VoidCall { args, .. } => expressions(args, depth),
+        Node::Conditional {
+            condition: value,
+            when_true,
+            when_false,
+        } => conditional(value, when_true, when_false.as_deref(), depth),
+        Node::SwitchConditional { value, branches } => {
+            expression(value, depth)?;
+            branches.iter().try_for_each(|(case, branch)| {
+                case.iter().try_for_each(|case| expression(case, depth))?;
+                nodes(branch, depth)
+            })
+        }
+        Node::Choice(item) => choice(item, depth),
+        Node::Text(_)
+        | Node::Newline
+        | Node::Glue
+        | Node::TunnelReturn
+        | Node::ReturnBool(_)
+        | Node::ReturnVoid
+        | Node::GatherPoint
+        | Node::GatherLabel { .. } => Ok(()),
+    }
+}
+
+/// Text that cannot be parsed for another reason is reported, or left as it is, where it is
+/// emitted.
+fn parsed<T>(result: Result<T, CompilerError>) -> Result<Option<T>, CompilerError> {
+    match result {
+        Err(error) if error == too_deep() => Err(error),
+        result => Ok(result.ok()),
+    }
+}
+
+fn conditional(
+    value: &Condition,
+    when_true: &[Node],
+    when_false: Option<&[Node]>,
+    depth: usize,
+) -> Result<(), CompilerError> {
+    condition(value, depth)?;
+    nodes(when_true, depth)?;
+    match when_false {
+        // A chain of branches.
+        Some([next @ Node::Conditional { .. }]) => node(next, deeper(depth, LINK)?),
+        Some(branch) => nodes(branch, depth),
+        None => Ok(()),
+    }
+}
+
+fn choice(item: &Choice, depth: usize) -> Result<(), CompilerError> {
+    let depth = deeper(depth, BLOCK)?;
+    item.conditions
+        .iter()
+        .try_for_each(|value| condition(value, depth))?;
+    for text in [&item.start_text, &item.choice_only_text] {
+        if let Some(text) = parsed(parse_dynamic_string(text))? {
+            string(&text, depth)?;
+        }
+    }
+    if let Some(text) = &item.selected_text
+        && let Some(text) = parsed(tokenize_inline_content(text))?
+    {
+        nodes(&text, depth)?;
+    }
+    for tag in item
+        .start_tags
+        .iter()
+        .chain(&item.choice_only_tags)
+        .chain(&item.selected_tags)
+    {
+        string(tag, depth)?;
+    }
+    nodes(&item.body, depth)
+}
+
+fn string(item: &DynamicString, depth: usize) -> Result<(), CompilerError> {
+    let depth = deeper(depth, BLOCK)?;
+    item.parts.iter().try_for_each(|part| match part {
+        DynamicStringPart::Text(_) => Ok(()),
+        DynamicStringPart::Expression(value) => expression(value, depth),
+        DynamicStringPart::Sequence(sequence) => sequence
+            .branches
+            .iter()
+            .try_for_each(|branch| nodes(branch, depth)),
+        DynamicStringPart::Conditional {
+            condition,
+            when_true,
+            when_false,
+        } => conditional(condition, when_true, when_false.as_deref(), depth),
+    })
+}
+
+fn condition(item: &Condition, depth: usize) -> Result<(), CompilerError> {
+    match item {
+        Condition::Expression(value) => expression(value, depth),
+        Condition::Bool(_) | Condition::FunctionCall(_) => Ok(()),
+    }
+}
+
+fn expressions(items: &[Expression], depth: usize) -> Result<(), CompilerError> {
+    items.iter().try_for_each(|item| expression(item, depth))
+}
+
+fn expression(item: &Expression, depth: usize) -> Result<(), CompilerError> {
+    let depth = deeper(depth, LINK)?;
+    match item {
+        Expression::Str(text) => match parsed(parse_dynamic_string(text))? {
+            Some(text) => string(&text, depth),
+            None => Ok(()),
+        },
+        Expression::Negate(inner) | Expression::Not(inner) => expression(inner, depth),
+        Expression::FunctionCall { args, .. } => expressions(args, depth),
+        Expression::Binary { left, right, .. } => {
+            expression(left, depth)?;
+            expression(right, depth)
+        }
+        Expression::Bool(_)
+        | Expression::Int(_)
+        | Expression::Float(_)
+        | Expression::Variable(_)
+        | Expression::DivertTarget(_)
+        | Expression::ListItems(_)
+        | Expression::EmptyList => Ok(()),
+    }
+}
+
+/// Check that a compiled story is not nested too deeply to be loaded.
+pub(crate) fn check_json(story: &Value) -> Result<(), CompilerError> {
+    let mut open = vec![(story, 1)];
+    while let Some((value, depth)) = open.pop() {
+        if depth > MAX_JSON_DEPTH && (value.is_array() || value.is_object()) {
+            return Err(too_deep());
+        }
+        match value {
+            Value::Array(items) => open.extend(items.iter().map(|item| (item, depth + 1))),
+            Value::Object(fields) => open.extend(fields.values().map(|item| (item, depth + 1))),
+            _ => {}
+        }
+    }
+    Ok(())
+}
diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 1dac55c..7188e82 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{Expression, Node},
     error::CompilerError,
+    nesting,
 };
 
 use super::{
@@ -19,6 +20,7 @@ pub fn parse_conditional(
     strip_leading_whitespace: bool,
     parse_stmt: &impl Fn(&[Line<'_>], &mut usize, bool) -> Result<ParsedStatement, CompilerError>,
 ) -> Result<Vec<Node>, CompilerError> {
+    let _nested = nesting::block()?;
     let line = &lines[*line_index];
     let content = if strip_leading_whitespace {
         line.content.trim_start()
@@ -251,6 +253,7 @@ pub fn parse_multi_branch_conditional(
     *line_index += 1;
 
     let mut branches: Vec<(Option<crate::ast::Condition>, Vec<Node>)> = Vec::new();
+    let mut chain = Vec::new();
     let mut current_condition: Option<crate::ast::Condition> = None;
     let mut current_nodes = Vec::new();
 
@@ -276,6 +279,9 @@ pub fn parse_multi_branch_conditional(
         }
 
         if let Some(header) = trimmed.strip_prefix('-') {
+            // Each branch is nested in the one before.
+            chain.push(nesting::link()?);
+
             // Ensure this is a branch header (- cond:) not a divert (->)
             if header.starts_with('>') {
                 // This is a divert "-> target", not a branch header; parse as content
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 7822a94..cd80948 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -1,6 +1,7 @@
 use crate::{
     ast::{BinaryOperator, Expression},
     error::CompilerError,
+    nesting,
 };
 
 #[derive(Debug, Clone, PartialEq)]
@@ -315,17 +316,30 @@ pub fn split_top_level_commas(input: &str) -> Vec<&str> {
 struct ExpressionParser {
     tokens: Vec<Token>,
     current: usize,
+    operands: usize,
 }
 
 impl ExpressionParser {
     fn new(tokens: Vec<Token>) -> Self {
-        Self { tokens, current: 0 }
+        Self {
+            tokens,
+            current: 0,
+            operands: 0,
+        }
     }
 
     fn parse_expression(&mut self) -> Result<Expression, CompilerError> {
         self.parse_or()
     }
 
+    /// Parse one of several expressions beside each other.
+    fn parse_item(&mut self) -> Result<Expression, CompilerError> {
+        let operands = self.operands;
+        let expression = self.parse_expression()?;
+        self.operands = operands;
+        Ok(expression)
+    }
+
     fn parse_or(&mut self) -> Result<Expression, CompilerError> {
         let mut expression = self.parse_and()?;
 
@@ -509,6 +523,9 @@ impl ExpressionParser {
     }
 
     fn parse_unary(&mut self) -> Result<Expression, CompilerError> {
+        // Every operand is parsed here.
+        nesting::operand(&mut self.operands)?;
+        let _nested = nesting::block()?;
         if self.match_token(&Token::Bang) {
             let expr = self.parse_unary()?;
             return Ok(Expression::Not(Box::new(expr)));
@@ -533,7 +550,7 @@ impl ExpressionParser {
                     // Parse arguments until ')'
                     if self.peek() != Some(&Token::RightParen) {
                         loop {
-                            args.push(self.parse_expression()?);
+                            args.push(self.parse_item()?);
                             if !self.match_token(&Token::Comma) {
                                 break;
                             }
@@ -567,7 +584,7 @@ impl ExpressionParser {
                         if self.peek() == Some(&Token::RightParen) {
                             break;
                         }
-                        let item_expr = self.parse_expression()?;
+                        let item_expr = self.parse_item()?;
                         items.push(expr_to_list_item_name(&item_expr)?);
                         if !self.match_token(&Token::Comma) {
                             break;
diff --git a/compiler/src/parser/mod.rs b/compiler/src/parser/mod.rs
index 0466658..0cad560 100644
--- a/compiler/src/parser/mod.rs
+++ b/compiler/src/parser/mod.rs
@@ -7,6 +7,7 @@ pub mod sequence;
 use crate::{
     ast::{AssignMode, Expression, Flow, GlobalVariable, ListDeclaration, Node, ParsedStory},
     error::CompilerError,
+    nesting,
 };
 
 use self::{
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 6048e82..934ffd2 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -3,6 +3,7 @@ pub fn parse_statement(
     line_index: &mut usize,
     strip_leading_whitespace: bool,
 ) -> Result<ParsedStatement, CompilerError> {
+    let _nested = nesting::block().map_err(|e| e.with_line(*line_index + 1))?;
     let line = &lines[*line_index];
     let trimmed = line.content.trim();
     // 1-based line number for error messages; captured before any sub-parser advances the index.
-- 
2.43.0


From e882d96639b7b530cadc8954c81277614174fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 56/69] fix: only a name in parentheses is a label

---
 compiler/src/parser/choice.rs    | 13 +++++++++++--
 compiler/src/parser/statement.rs |  4 +++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index 2321d76..aed69b2 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -269,6 +269,12 @@ pub(super) fn gather_nesting_level(trimmed: &str) -> usize {
     level
 }
 
+/// Whether `name` can be the label of a choice or a gather.
+pub(super) fn is_label(name: &str) -> bool {
+    name.chars().all(|ch| ch.is_alphanumeric() || ch == '_')
+        && name.chars().any(|ch| !ch.is_ascii_digit())
+}
+
 pub fn parse_choice_prefixes(
     input: &str,
 ) -> Result<(Option<String>, Vec<Condition>, &str), CompilerError> {
@@ -280,8 +286,11 @@ pub fn parse_choice_prefixes(
         let end = after_open.find(')').ok_or_else(|| {
             CompilerError::invalid_source("choice label is missing ')'".to_owned())
         })?;
-        label = Some(after_open[..end].trim().to_owned());
-        remainder = after_open[end + 1..].trim_start();
+        // Anything else in parentheses is text.
+        if is_label(after_open[..end].trim()) {
+            label = Some(after_open[..end].trim().to_owned());
+            remainder = after_open[end + 1..].trim_start();
+        }
     }
 
     while let Some(after_open) = remainder.strip_prefix('{') {
diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index 934ffd2..a09c49b 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -164,7 +164,9 @@ pub fn parse_statement(
 
         // Check for gather label: (label_name) at the start
         let (gather_label, gather_content) = if gather_content.starts_with('(') {
-            if let Some(end) = gather_content.find(')') {
+            if let Some(end) = gather_content.find(')')
+                && choice::is_label(gather_content[1..end].trim())
+            {
                 let label = gather_content[1..end].trim().to_owned();
                 let rest = gather_content[end + 1..].trim_start();
                 (Some(label), rest)
-- 
2.43.0


From 8291feafe6fe0b81b7d2a182a74f53217e45a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 57/69] fix: LIST values and float literals that are too large
 are errors, not panics

---
 compiler/src/parser/declarations.rs | 33 ++++++++++++++++++-----------
 compiler/src/parser/expression.rs   |  5 +++++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/compiler/src/parser/declarations.rs b/compiler/src/parser/declarations.rs
index 32349b8..99b56b6 100644
--- a/compiler/src/parser/declarations.rs
+++ b/compiler/src/parser/declarations.rs
@@ -52,7 +52,7 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
     let rhs = input[eq_pos + 1..].trim();
 
     let mut items = Vec::new();
-    let mut value: u32 = 1;
+    let mut next_value: Option<i32> = Some(1);
     for raw in rhs.split(',') {
         let item = raw.trim();
         if item.is_empty() {
@@ -66,20 +66,29 @@ fn parse_list_declaration(input: &str) -> Result<ListDeclaration, CompilerError>
                 (item, false)
             };
         // Check for explicit value assignment: `name = number`
-        if let Some((item_name, item_value)) = inner.split_once('=') {
-            let item_name = item_name.trim().to_owned();
-            let explicit_value: u32 = item_value.trim().parse().map_err(|_| {
+        let (item_name, value) = if let Some((item_name, item_value)) = inner.split_once('=') {
+            let value = item_value
+                .trim()
+                .parse::<u32>()
+                .ok()
+                .and_then(|value| i32::try_from(value).ok())
+                .ok_or_else(|| {
+                    CompilerError::invalid_source(format!(
+                        "invalid LIST item value: '{}'",
+                        item_value.trim()
+                    ))
+                })?;
+            (item_name.trim(), value)
+        } else {
+            let value = next_value.ok_or_else(|| {
                 CompilerError::invalid_source(format!(
-                    "invalid LIST item value: '{}'",
-                    item_value.trim()
+                    "the value of LIST item '{inner}' is too large"
                 ))
             })?;
-            value = explicit_value;
-            items.push((item_name, value, selected));
-        } else {
-            items.push((inner.to_owned(), value, selected));
-        }
-        value += 1;
+            (inner, value)
+        };
+        items.push((item_name.to_owned(), value as u32, selected));
+        next_value = value.checked_add(1);
     }
 
     Ok(ListDeclaration { name, items })
diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index cd80948..50eaa2d 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -187,6 +187,11 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     let value = token_text.parse::<f32>().map_err(|error| {
                         CompilerError::invalid_source(format!("invalid float literal: {error}"))
                     })?;
+                    if !value.is_finite() {
+                        return Err(CompilerError::invalid_source(format!(
+                            "float literal '{token_text}' is too large"
+                        )));
+                    }
                     tokens.push(Token::Float(value));
                 } else {
                     let value = token_text.parse::<i32>().map_err(|error| {
-- 
2.43.0


From 544a4d5373ab64969dac6c85368f26f78623ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 58/69] fix: constants are put in everywhere they are named,
 also in each other

---
 compiler/src/consts.rs             | 114 ++++++++++++++++++++++++++++-
 compiler/src/emitter/context.rs    |   6 ++
 compiler/src/emitter/expression.rs |   4 +-
 compiler/src/lib.rs                |   2 +-
 4 files changed, 120 insertions(+), 6 deletions(-)

diff --git a/compiler/src/consts.rs b/compiler/src/consts.rs
index 2a37218..ec56822 100644
--- a/compiler/src/consts.rs
+++ b/compiler/src/consts.rs
@@ -1,12 +1,21 @@
 use std::collections::HashMap;
 
-use crate::ast::{Choice, Condition, Expression, Flow, Node, ParsedStory};
+use crate::{
+    ast::{Choice, Condition, DynamicStringPart, Expression, Flow, Node, ParsedStory},
+    error::CompilerError,
+    inline::parse_dynamic_string,
+};
 
-pub(crate) fn resolve(mut story: ParsedStory) -> ParsedStory {
+/// The most parts a constant may have once the constants it refers to are put in.
+const MAX_CONST_SIZE: usize = 200;
+
+pub(crate) fn resolve(mut story: ParsedStory) -> Result<ParsedStory, CompilerError> {
     if story.consts.is_empty() {
-        return story;
+        return Ok(story);
     }
 
+    story.consts = resolve_consts(&story.consts)?;
+
     for global in &mut story.globals {
         resolve_expression(&mut global.initial_value, &story.consts);
     }
@@ -16,7 +25,99 @@ pub(crate) fn resolve(mut story: ParsedStory) -> ParsedStory {
     for flow in &mut story.flows {
         resolve_flow(flow, &consts);
     }
-    story
+    Ok(story)
+}
+
+/// Put the values of the constants that other constants refer to into those.
+fn resolve_consts(
+    consts: &HashMap<String, Expression>,
+) -> Result<HashMap<String, Expression>, CompilerError> {
+    let mut names: Vec<&String> = consts.keys().collect();
+    names.sort();
+    let mut resolved = HashMap::new();
+    for name in names {
+        resolve_const(name, consts, &mut Vec::new(), &mut resolved)?;
+    }
+    Ok(resolved)
+}
+
+fn resolve_const<'a>(
+    name: &'a str,
+    consts: &'a HashMap<String, Expression>,
+    open: &mut Vec<&'a str>,
+    resolved: &mut HashMap<String, Expression>,
+) -> Result<(), CompilerError> {
+    let Some((name, value)) = consts.get_key_value(name) else {
+        return Ok(());
+    };
+    if resolved.contains_key(name) {
+        return Ok(());
+    }
+    if open.contains(&name.as_str()) {
+        return Err(CompilerError::invalid_source(format!(
+            "CONST '{name}' refers to itself"
+        )));
+    }
+    if open.len() > MAX_CONST_SIZE {
+        return Err(too_large(name));
+    }
+
+    open.push(name);
+    let mut names = Vec::new();
+    collect_names(value, &mut names);
+    for name in names {
+        if let Some((name, _)) = consts.get_key_value(&name) {
+            resolve_const(name, consts, open, resolved)?;
+        }
+    }
+    open.pop();
+
+    let mut value = value.clone();
+    resolve_expression(&mut value, resolved);
+    if size(&value) > MAX_CONST_SIZE {
+        return Err(too_large(name));
+    }
+    resolved.insert(name.clone(), value);
+    Ok(())
+}
+
+fn too_large(name: &str) -> CompilerError {
+    CompilerError::invalid_source(format!("the value of CONST '{name}' is too large"))
+}
+
+/// The names an expression refers to, also within its strings.
+fn collect_names(expression: &Expression, names: &mut Vec<String>) {
+    match expression {
+        Expression::Variable(name) => names.push(name.clone()),
+        Expression::ListItems(items) => names.extend(items.iter().cloned()),
+        Expression::Str(text) => {
+            for part in parse_dynamic_string(text).map_or(Vec::new(), |text| text.parts) {
+                if let DynamicStringPart::Expression(expression) = part {
+                    collect_names(&expression, names);
+                }
+            }
+        }
+        Expression::Binary { left, right, .. } => {
+            collect_names(left, names);
+            collect_names(right, names);
+        }
+        Expression::Negate(inner) | Expression::Not(inner) => collect_names(inner, names),
+        Expression::FunctionCall { args, .. } => {
+            for argument in args {
+                collect_names(argument, names);
+            }
+        }
+        _ => {}
+    }
+}
+
+fn size(expression: &Expression) -> usize {
+    1 + match expression {
+        Expression::Binary { left, right, .. } => size(left) + size(right),
+        Expression::Negate(inner) | Expression::Not(inner) => size(inner),
+        Expression::FunctionCall { args, .. } => args.iter().map(size).sum(),
+        _ => 0,
+    }
 }
 
 fn resolve_flow(flow: &mut Flow, consts: &HashMap<String, Expression>) {
@@ -54,6 +155,11 @@ fn resolve_nodes(nodes: &mut [Node], consts: &HashMap<String, Expression>) {
             }
             Node::Assignment { expression, .. } => resolve_expression(expression, consts),
             Node::Choice(choice) => resolve_choice(choice, consts),
+            Node::Divert(divert) | Node::ThreadDivert(divert) => {
+                for argument in &mut divert.arguments {
+                    resolve_expression(argument, consts);
+                }
+            }
             Node::VoidCall { args, .. }
             | Node::TunnelDivert { args, .. }
             | Node::TunnelOnwardsWithTarget { args, .. } => {
diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 007022e..32e5a74 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -120,6 +120,8 @@ struct EmitContext {
     /// Unqualified flow/stitch target names mapped to their absolute path
     /// when the name is unique across the story.
     unqualified_flow_targets: BTreeMap<String, String>,
+    /// The values of the constants, for the strings that are only parsed here.
+    consts: std::collections::HashMap<String, Expression>,
 }
 
 fn register_unqualified_flow_target(
@@ -396,6 +398,9 @@ impl EmitContext {
         let mut raw_flow_count_flags = BTreeMap::new();
         collect_flow_count_flags_from_nodes(story.root(), &mut raw_flow_count_flags);
         collect_flow_count_flags_from_flows_into(story.flows(), &mut raw_flow_count_flags);
+        for constant in story.consts.values() {
+            collect_flow_count_flags_from_expr(constant, &mut raw_flow_count_flags);
+        }
         for global in story.globals() {
             collect_flow_count_flags_from_expr(&global.initial_value, &mut raw_flow_count_flags);
         }
@@ -454,6 +459,7 @@ impl EmitContext {
             qualified_choice_labels,
             function_ref_param_positions,
             unqualified_flow_targets,
+            consts: story.consts.clone(),
         }
     }
 
diff --git a/compiler/src/emitter/expression.rs b/compiler/src/emitter/expression.rs
index ada80ff..336a1c5 100644
--- a/compiler/src/emitter/expression.rs
+++ b/compiler/src/emitter/expression.rs
@@ -301,7 +301,9 @@ fn emit_expression_ctx(
             out.push(json!("/str"));
         }
         Expression::Variable(name) => {
-            if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
+            if let Some(value) = context.and_then(|ctx| ctx.consts.get(name)) {
+                emit_expression_ctx(value, out, context, scope);
+            } else if let Some(path) = scope.and_then(|s| s.resolve_choice_label(name)) {
                 out.push(json!({"CNT?": path}))
             } else if let Some(path) = context.and_then(|ctx| ctx.qualified_choice_labels.get(name))
             {
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 3b2bd9d..1f26373 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -106,7 +106,7 @@ impl Compiler {
             .unwrap_or("<source>");
         let parsed_story = includes::parse_story_with_includes(source, &file_handler, source_name)?;
         nesting::check_story(&parsed_story)?;
-        let parsed_story = consts::resolve(parsed_story);
+        let parsed_story = consts::resolve(parsed_story)?;
         validator::validate(&parsed_story)?;
         emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
             .map_err(|e| CompilerError::invalid_source(e.to_string()))
-- 
2.43.0


From 0801d644795b87a4781acf2b8e7de9cfac15b57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 59/69] fix: references that lead nowhere are compile errors

---
 compiler/src/emitter/context.rs |   1 +
 compiler/src/emitter/mod.rs     |   2 +-
 compiler/src/lib.rs             |   1 +
 compiler/src/references.rs      | 214 ++++++++++++++++++++++++++++++++
 4 files changed, 217 insertions(+), 1 deletion(-)
 create mode 100644 compiler/src/references.rs

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 32e5a74..15acac7 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -13,6 +13,7 @@ pub fn story_to_json_string(
 ) -> Result<String, CompilerError> {
     let json = story_to_json_value(story, count_all_visits)?;
     nesting::check_json(&json)?;
+    references::check(&json)?;
     serde_json::to_string(&json).map_err(|error| {
         CompilerError::invalid_source(format!("failed to serialize compiled ink: {error}"))
     })
diff --git a/compiler/src/emitter/mod.rs b/compiler/src/emitter/mod.rs
index 9381387..22d556a 100644
--- a/compiler/src/emitter/mod.rs
+++ b/compiler/src/emitter/mod.rs
@@ -11,7 +11,7 @@ use crate::{
     },
     error::CompilerError,
     inline::{parse_dynamic_string, tokenize_inline_content},
-    nesting,
+    nesting, references,
 };
 
 include!("context.rs");
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index 1f26373..e5c2bd1 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -6,6 +6,7 @@ mod includes;
 mod inline;
 mod nesting;
 mod parser;
+mod references;
 pub mod stats;
 mod validator;
 
diff --git a/compiler/src/references.rs b/compiler/src/references.rs
new file mode 100644
index 0000000..e606c88
--- /dev/null
+++ b/compiler/src/references.rs
@@ -0,0 +1,214 @@
+//! Checks that everything a compiled story refers to is there, so that an unknown name is an
+//! error of the compiler and not of the story when it is played.
+
+use std::collections::{BTreeMap, BTreeSet};
+
+use serde_json::{Map, Value};
+
+use crate::error::CompilerError;
+
+pub(crate) fn check(story: &Value) -> Result<(), CompilerError> {
+    let mut references = References::default();
+
+    if let Some(lists) = story.get("listDefs").and_then(Value::as_object) {
+        for (list, items) in lists {
+            for item in items.as_object().into_iter().flat_map(Map::keys) {
+                references.list_items.insert(item.clone());
+                references.list_items.insert(format!("{list}.{item}"));
+            }
+        }
+    }
+    if let Some(root) = story.get("root").and_then(Value::as_array) {
+        references.add_container(root, None, "");
+    }
+    references.check()
+}
+
+#[derive(Default)]
+struct References<'a> {
+    containers: Vec<Container<'a>>,
+    /// The references of the story and the containers they are in.
+    found: Vec<(usize, &'a Map<String, Value>)>,
+    globals: BTreeSet<&'a str>,
+    list_items: BTreeSet<String>,
+    /// The temporary variables and parameters of each knot and function.
+    temps: BTreeSet<(&'a str, &'a str)>,
+}
+
+struct Container<'a> {
+    parent: Option<usize>,
+    content: Vec<Target>,
+    named: BTreeMap<&'a str, usize>,
+    /// The knot or function the container belongs to.
+    flow: &'a str,
+}
+
+#[derive(Clone, Copy)]
+enum Target {
+    Container(usize),
+    Other,
+}
+
+impl<'a> References<'a> {
+    fn add_container(
+        &mut self,
+        values: &'a [Value],
+        parent: Option<usize>,
+        flow: &'a str,
+    ) -> usize {
+        let index = self.containers.len();
+        self.containers.push(Container {
+            parent,
+            content: Vec::new(),
+            named: BTreeMap::new(),
+            flow,
+        });
+
+        let Some((terminator, content)) = values.split_last() else {
+            return index;
+        };
+        for value in content {
+            let target = match value {
+                Value::Array(child) => {
+                    let id = self.add_container(child, Some(index), flow);
+                    let name = child.last().and_then(|last| last.get("#n"));
+                    if let Some(name) = name.and_then(Value::as_str) {
+                        self.containers[index].named.insert(name, id);
+                    }
+                    Target::Container(id)
+                }
+                Value::Object(fields) => {
+                    self.add_reference(index, fields);
+                    Target::Other
+                }
+                _ => Target::Other,
+            };
+            self.containers[index].content.push(target);
+        }
+        for (name, value) in terminator.as_object().into_iter().flatten() {
+            if let Value::Array(child) = value {
+                let flow = if parent.is_none() { name } else { flow };
+                let id = self.add_container(child, Some(index), flow);
+                self.containers[index].named.insert(name, id);
+            }
+        }
+        index
+    }
+
+    fn add_reference(&mut self, container: usize, fields: &'a Map<String, Value>) {
+        let is_new = !is_set(fields, "re");
+        if let Some(name) = text(fields, "VAR=").filter(|_| is_new) {
+            self.globals.insert(name);
+        } else if let Some(name) = text(fields, "temp=").filter(|_| is_new) {
+            self.temps.insert((self.containers[container].flow, name));
+        } else {
+            self.found.push((container, fields));
+        }
+    }
+
+    fn check(&self) -> Result<(), CompilerError> {
+        for (container, fields) in &self.found {
+            self.check_reference(*container, fields)?;
+        }
+        Ok(())
+    }
+
+    fn check_reference(
+        &self,
+        container: usize,
+        fields: &Map<String, Value>,
+    ) -> Result<(), CompilerError> {
+        let is_variable = is_set(fields, "var");
+        for field in ["->", "->t->", "f()", "*", "CNT?", "^->"] {
+            let Some(path) = text(fields, field) else {
+                continue;
+            };
+            if is_variable && matches!(field, "->" | "->t->" | "f()") {
+                self.check_variable(container, path)?;
+                continue;
+            }
+            let found = match self.resolve(container, path) {
+                Some(Target::Container(_)) => true,
+                Some(Target::Other) => field == "->",
+                None => false,
+            };
+            if !found {
+                return Err(CompilerError::invalid_source(match field {
+                    "f()" => format!("Function not found: '{path}'"),
+                    "CNT?" => format!("Unresolved variable: {path}"),
+                    _ => format!("Divert target not found: '-> {path}'"),
+                }));
+            }
+        }
+        if let Some(items) = fields.get("list").and_then(Value::as_object) {
+            for name in items.keys() {
+                if !name.contains('.') || !self.list_items.contains(name) {
+                    return Err(CompilerError::invalid_source(format!(
+                        "Unresolved list item: {name}"
+                    )));
+                }
+            }
+        }
+        for field in ["VAR?", "^var", "temp="] {
+            if let Some(name) = text(fields, field) {
+                self.check_variable(container, name)?;
+            }
+        }
+        if let Some(name) = text(fields, "VAR=") {
+            // Assigning to a temporary variable is written like this too.
+            self.check_assigned(container, name)?;
+        }
+        Ok(())
+    }
+
+    fn check_variable(&self, container: usize, name: &str) -> Result<(), CompilerError> {
+        if self.list_items.contains(name) {
+            return Ok(());
+        }
+        self.check_assigned(container, name)
+    }
+
+    fn check_assigned(&self, container: usize, name: &str) -> Result<(), CompilerError> {
+        let flow = self.containers[container].flow;
+        if self.globals.contains(name) || self.temps.contains(&(flow, name)) {
+            return Ok(());
+        }
+        Err(CompilerError::invalid_source(format!(
+            "Unresolved variable: {name}"
+        )))
+    }
+
+    fn resolve(&self, container: usize, path: &str) -> Option<Target> {
+        let mut components = path.split('.').filter(|component| !component.is_empty());
+        let mut target = Target::Container(0);
+        if path.starts_with('.') {
+            // The first step leads from the reference to its container.
+            if components.next() != Some("^") {
+                return None;
+            }
+            target = Target::Container(container);
+        }
+        for component in components {
+            let Target::Container(id) = target else {
+                return None;
+            };
+            let container = &self.containers[id];
+            target = if component == "^" {
+                Target::Container(container.parent?)
+            } else if let Ok(index) = component.parse::<usize>() {
+                *container.content.get(index)?
+            } else {
+                Target::Container(*container.named.get(component)?)
+            };
+        }
+        Some(target)
+    }
+}
+
+fn text<'a>(fields: &'a Map<String, Value>, name: &str) -> Option<&'a str> {
+    fields.get(name).and_then(Value::as_str)
+}
+
+fn is_set(fields: &Map<String, Value>, name: &str) -> bool {
+    fields.get(name).and_then(Value::as_bool) == Some(true)
+}
-- 
2.43.0


From 5134a1c72fcc9463687c798ec7a8091b3695d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 60/69] fix: initial values of variables that cannot be
 evaluated are compile errors

---
 compiler/src/ast.rs               | 17 ++++++++++++++++
 compiler/src/lib.rs               | 24 ++++++++++++++++++++--
 compiler/src/validator/context.rs |  2 ++
 compiler/src/validator/diverts.rs | 34 +++++++++++++++++++++++++++++++
 compiler/src/validator/mod.rs     |  5 ++++-
 5 files changed, 79 insertions(+), 3 deletions(-)

diff --git a/compiler/src/ast.rs b/compiler/src/ast.rs
index 0721dc9..2df00af 100644
--- a/compiler/src/ast.rs
+++ b/compiler/src/ast.rs
@@ -53,6 +53,23 @@ pub enum Expression {
     },
 }
 
+impl Expression {
+    /// Whether the expression is a value, so that nothing is left to evaluate.
+    pub(crate) fn is_literal(&self) -> bool {
+        match self {
+            Self::Bool(_)
+            | Self::Int(_)
+            | Self::Float(_)
+            | Self::DivertTarget(_)
+            | Self::ListItems(_)
+            | Self::EmptyList => true,
+            Self::Str(text) => !text.contains('{'),
+            Self::Negate(inner) => matches!(**inner, Self::Int(_) | Self::Float(_)),
+            _ => false,
+        }
+    }
+}
+
 #[derive(Debug, Clone, PartialEq)]
 pub enum DynamicStringPart {
     Text(String),
diff --git a/compiler/src/lib.rs b/compiler/src/lib.rs
index e5c2bd1..311849b 100644
--- a/compiler/src/lib.rs
+++ b/compiler/src/lib.rs
@@ -109,7 +109,27 @@ impl Compiler {
         nesting::check_story(&parsed_story)?;
         let parsed_story = consts::resolve(parsed_story)?;
         validator::validate(&parsed_story)?;
-        emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
-            .map_err(|e| CompilerError::invalid_source(e.to_string()))
+        let json = emitter::story_to_json_string(&parsed_story, self.options.count_all_visits)
+            .map_err(|e| CompilerError::invalid_source(e.to_string()))?;
+        check_initial_values(&parsed_story, &json)?;
+        Ok(json)
+    }
+}
+
+/// The initial values of variables are evaluated when a story is loaded: those that are more
+/// than a literal are tried.
+fn check_initial_values(story: &ast::ParsedStory, json: &str) -> Result<(), CompilerError> {
+    if story
+        .globals()
+        .iter()
+        .all(|global| global.initial_value.is_literal())
+    {
+        return Ok(());
+    }
+    match bladeink::story::Story::new(json) {
+        Ok(_) => Ok(()),
+        Err(error) => Err(CompilerError::invalid_source(format!(
+            "the initial value of a variable cannot be evaluated: {error}"
+        ))),
     }
 }
diff --git a/compiler/src/validator/context.rs b/compiler/src/validator/context.rs
index 25289e5..d4ec8ad 100644
--- a/compiler/src/validator/context.rs
+++ b/compiler/src/validator/context.rs
@@ -85,6 +85,8 @@ impl ValidationContext {
     }
 
     fn validate_story(&self, story: &ParsedStory) -> Result<(), CompilerError> {
+        self.validate_initial_values(story)?;
+
         // Validate root nodes
         let empty_params = BTreeSet::new();
         self.validate_temp_names(story.root(), &empty_params)?;
diff --git a/compiler/src/validator/diverts.rs b/compiler/src/validator/diverts.rs
index d0931ac..ea5e4fd 100644
--- a/compiler/src/validator/diverts.rs
+++ b/compiler/src/validator/diverts.rs
@@ -158,6 +158,40 @@ impl ValidationContext {
         Ok(())
     }
 
+    /// The functions of a story, and external ones, cannot be called before it has started.
+    fn validate_initial_values(&self, story: &ParsedStory) -> Result<(), CompilerError> {
+        for global in story.globals() {
+            if self.calls_function(&global.initial_value) {
+                return Err(CompilerError::invalid_source(format!(
+                    "The initial value of the variable '{}' cannot call a function",
+                    global.name
+                )));
+            }
+        }
+        Ok(())
+    }
+
+    fn calls_function(&self, expr: &Expression) -> bool {
+        match expr {
+            Expression::FunctionCall { name, args } => {
+                self.flow_names.contains(name)
+                    || self.global_var_names.contains(name)
+                    || self.external_functions.contains(name)
+                    || args.iter().any(|arg| self.calls_function(arg))
+            }
+            Expression::Negate(expr) | Expression::Not(expr) => self.calls_function(expr),
+            Expression::Binary { left, right, .. } => {
+                self.calls_function(left) || self.calls_function(right)
+            }
+            Expression::Str(text) => parse_dynamic_string(text).is_ok_and(|text| {
+                text.parts.iter().any(|part| {
+                    matches!(part, DynamicStringPart::Expression(expr) if self.calls_function(expr))
+                })
+            }),
+            _ => false,
+        }
+    }
+
     fn check_function_call_target(&self, name: &str) -> Result<(), CompilerError> {
         if self.function_names.contains(name)
             || self.external_functions.contains(name)
diff --git a/compiler/src/validator/mod.rs b/compiler/src/validator/mod.rs
index 9a08811..bd0fed2 100644
--- a/compiler/src/validator/mod.rs
+++ b/compiler/src/validator/mod.rs
@@ -3,8 +3,11 @@
 use std::collections::{BTreeMap, BTreeSet};
 
 use crate::{
-    ast::{AssignMode, Condition, Divert, Expression, Flow, Node, ParsedStory},
+    ast::{
+        AssignMode, Condition, Divert, DynamicStringPart, Expression, Flow, Node, ParsedStory,
+    },
     error::CompilerError,
+    inline::parse_dynamic_string,
 };
 
 include!("context.rs");
-- 
2.43.0


From 0f60d1bd7fa01df70d15fa25fc0c65b8bd8e019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:06 +0000
Subject: [PATCH 61/69] fix: a knot named in parentheses is counted on

---
 compiler/src/emitter/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/emitter/context.rs b/compiler/src/emitter/context.rs
index 15acac7..b49db65 100644
--- a/compiler/src/emitter/context.rs
+++ b/compiler/src/emitter/context.rs
@@ -367,6 +367,12 @@ fn collect_flow_count_flags_from_expr(expr: &Expression, targets: &mut BTreeMap<
         Expression::Variable(name) => {
             add_flow_count_flags(targets, name, COUNT_VISITS);
         }
+        // So is a name in parentheses that is no list item.
+        Expression::ListItems(names) => {
+            for name in names {
+                add_flow_count_flags(targets, name, COUNT_VISITS);
+            }
+        }
         Expression::Negate(inner) | Expression::Not(inner) => {
             collect_flow_count_flags_from_expr(inner, targets);
         }
-- 
2.43.0


From bcafcb3be262feb191c3614eb6c75dd3d611dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:23 +0000
Subject: [PATCH 62/69] fix: a name with nothing before, between or after its
 dots is an error

---
 compiler/src/parser/expression.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/compiler/src/parser/expression.rs b/compiler/src/parser/expression.rs
index 50eaa2d..41fc7e5 100644
--- a/compiler/src/parser/expression.rs
+++ b/compiler/src/parser/expression.rs
@@ -182,6 +182,7 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                 }
                 let token_text: String = chars[start..index].iter().collect();
                 if saw_identifier_tail {
+                    check_name_parts(&token_text)?;
                     tokens.push(Token::Ident(token_text));
                 } else if saw_dot {
                     let value = token_text.parse::<f32>().map_err(|error| {
@@ -217,7 +218,10 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
                     "not" => tokens.push(Token::Bang),
                     "has" => tokens.push(Token::Has),
                     "hasnt" => tokens.push(Token::Hasnt),
-                    _ => tokens.push(Token::Ident(ident)),
+                    _ => {
+                        check_name_parts(&ident)?;
+                        tokens.push(Token::Ident(ident));
+                    }
                 }
             }
             _ => {
@@ -232,6 +236,16 @@ pub fn tokenize_expression(input: &str) -> Result<Vec<Token>, CompilerError> {
     Ok(tokens)
 }
 
+/// Something stands before, after and between the dots of a name.
+fn check_name_parts(name: &str) -> Result<(), CompilerError> {
+    if name.split('.').any(str::is_empty) {
+        return Err(CompilerError::invalid_source(format!(
+            "'{name}' is not a name"
+        )));
+    }
+    Ok(())
+}
+
 pub fn parse_expression(input: &str) -> Result<Expression, CompilerError> {
     let tokens = tokenize_expression(input)?;
     let mut parser = ExpressionParser::new(tokens);
-- 
2.43.0


From 1a2c9e91065afe98fb76c4af610eee105662cbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 63/69] fix: JSON output of the player escapes every control
 character

---
 rinklecate/src/player.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rinklecate/src/player.rs b/rinklecate/src/player.rs
index 679b1d8..99a8901 100644
--- a/rinklecate/src/player.rs
+++ b/rinklecate/src/player.rs
@@ -138,11 +138,8 @@ pub fn play(mut story: Story, opts: &Options) -> anyhow::Result<()> {
                 InputResult::Divert(path) => {
                     if let Err(e) = story.choose_path_string(&path, true, None) {
                         if opts.json_output {
-                            println!(
-                                "{{\"issues\": [\"Error diverting to '{}': {}\"]}}",
-                                path,
-                                e.to_string().replace('"', "\\\"")
-                            );
+                            let msg = format!("Error diverting to '{path}': {e}");
+                            println!("{{\"issues\": [\"{}\"]}}", escape_json_string(&msg));
                         } else {
                             eprintln!("<error diverting to '{path}': {e}>");
                         }
@@ -271,6 +268,7 @@ fn escape_json_string(s: &str) -> String {
             '\n' => out.push_str("\\n"),
             '\r' => out.push_str("\\r"),
             '\t' => out.push_str("\\t"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
             c => out.push(c),
         }
     }
-- 
2.43.0


From d19a5ec0cb132211f0bc4cae3c5ad56cd4787899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 64/69] fix: errors after an INCLUDE name the line of their own
 file

---
 compiler/src/error.rs    |  6 ++++++
 compiler/src/includes.rs | 29 +++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/compiler/src/error.rs b/compiler/src/error.rs
index 9459c7c..99b8d08 100644
--- a/compiler/src/error.rs
+++ b/compiler/src/error.rs
@@ -97,6 +97,12 @@ impl CompilerError {
         }
     }
 
+    pub fn line(&self) -> Option<usize> {
+        match self {
+            Self::InvalidSource { line, .. } | Self::UnsupportedFeature { line, .. } => *line,
+        }
+    }
+
     pub fn message(&self) -> &str {
         match self {
             Self::InvalidSource { message, .. } | Self::UnsupportedFeature { message, .. } => {
diff --git a/compiler/src/includes.rs b/compiler/src/includes.rs
index 704390e..1748723 100644
--- a/compiler/src/includes.rs
+++ b/compiler/src/includes.rs
@@ -45,26 +45,32 @@ where
 
     let mut segments = Vec::new();
     let mut current_lines = Vec::new();
-    for line in source.lines() {
+    for (index, line) in source.lines().enumerate() {
         if let Some(filename) = line.trim().strip_prefix("INCLUDE ") {
-            push_ink_segment(&mut segments, &mut current_lines);
+            push_ink_segment(&mut segments, &mut current_lines, index);
             segments.push(Segment::Include(filename.trim().to_owned()));
         } else {
             current_lines.push(line);
         }
     }
-    push_ink_segment(&mut segments, &mut current_lines);
+    push_ink_segment(&mut segments, &mut current_lines, source.lines().count());
 
     let mut merged = ParsedStory::default();
     for segment in segments {
         match segment {
-            Segment::Ink(text) => {
+            Segment::Ink { text, lines_before } => {
                 if text.lines().all(|line| line.trim().is_empty()) {
                     continue;
                 }
                 let partial = Parser::new(&text)
                     .parse()
-                    .map_err(|error| error.with_file(source_name.to_owned()))?;
+                    .map_err(|error| {
+                        let error = error.with_file(source_name.to_owned());
+                        match error.line() {
+                            Some(line) => error.with_line_override(line + lines_before),
+                            None => error,
+                        }
+                    })?;
                 merge_stories(&mut merged, partial);
             }
             Segment::Include(filename) => {
@@ -84,13 +90,20 @@ where
 }
 
 enum Segment {
-    Ink(String),
+    /// Text between INCLUDE lines, and how many lines of its file come before it.
+    Ink {
+        text: String,
+        lines_before: usize,
+    },
     Include(String),
 }
 
-fn push_ink_segment(segments: &mut Vec<Segment>, lines: &mut Vec<&str>) {
+fn push_ink_segment(segments: &mut Vec<Segment>, lines: &mut Vec<&str>, end: usize) {
     if !lines.is_empty() {
-        segments.push(Segment::Ink(lines.join("\n") + "\n"));
+        segments.push(Segment::Ink {
+            text: lines.join("\n") + "\n",
+            lines_before: end - lines.len(),
+        });
         lines.clear();
     }
 }
-- 
2.43.0


From c86f369bfe9a7a1229952f5cc9d07fe0ff5348c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 65/69] fix: choices with conditions on lines of their own, and
 conditional fallbacks with content below

---
 compiler/src/parser/choice.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/compiler/src/parser/choice.rs b/compiler/src/parser/choice.rs
index aed69b2..fa1e902 100644
--- a/compiler/src/parser/choice.rs
+++ b/compiler/src/parser/choice.rs
@@ -51,9 +51,6 @@ pub fn parse_choice(
     }
     let (label, mut conditions, remainder) = parse_choice_prefixes(remainder)?;
     let mut choice_text = parse_choice_text(remainder)?;
-    let mut is_invisible_default =
-        choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
-
     *line_index += 1;
 
     let choice_indent = line.indent;
@@ -63,14 +60,19 @@ pub fn parse_choice(
     // This implements multi-line choice conditions:
     //   * { cond1 }
     //     { cond2 }  display text   OR   plain display text
-    // Only scan when there is no start text yet on the header line.
+    // Only scan when there is nothing else on the header line: after `* { cond } ->` the
+    // following lines are the content of the fallback choice.
     // We scan when: the header has conditions OR we absorb body conditions.
     let header_has_conditions = !conditions.is_empty();
-    if choice_text.start_text.is_empty() && choice_text.choice_only_text.is_empty() {
+    if remainder.trim().is_empty() {
         let mut absorbed_body_conditions = false;
         while *line_index < lines.len() {
             let peek = &lines[*line_index];
             let peek_trimmed = peek.content.trim();
+            if peek_trimmed.is_empty() && (header_has_conditions || absorbed_body_conditions) {
+                *line_index += 1;
+                continue;
+            }
             // Must be indented deeper than choice
             if peek.indent <= choice_indent {
                 break;
@@ -90,11 +92,7 @@ pub fn parse_choice(
                     *line_index += 1;
                     if !after_close.is_empty() {
                         // Remaining text after `{ cond }` becomes the display text
-                        choice_text.display_text = after_close.to_owned();
-                        choice_text.start_text = after_close.to_owned();
-                        choice_text.selected_text = Some(after_close.to_owned());
-                        choice_text.has_start_content = true;
-                        is_invisible_default = false;
+                        choice_text = parse_choice_text(after_close)?;
                         break;
                     }
                     // Pure condition line — continue looking for more conditions/text
@@ -110,11 +108,7 @@ pub fn parse_choice(
                 {
                     break;
                 }
-                choice_text.display_text = peek_trimmed.to_owned();
-                choice_text.start_text = peek_trimmed.to_owned();
-                choice_text.selected_text = Some(peek_trimmed.to_owned());
-                choice_text.has_start_content = true;
-                is_invisible_default = false;
+                choice_text = parse_choice_text(peek_trimmed)?;
                 *line_index += 1;
                 break;
             } else {
@@ -123,6 +117,9 @@ pub fn parse_choice(
         }
     }
 
+    let is_invisible_default =
+        choice_text.display_text.is_empty() && choice_text.selected_text.is_none();
+
     let mut body = Vec::new();
     // Once we absorb a same-level gather, everything that follows at our indent
     // (choices, text, etc.) becomes part of this choice's body continuation.
-- 
2.43.0


From 5223ce72ad1aa62d9ce774cb2dbe8a4290bca42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 66/69] fix: an author's TODO line is no part of the story

---
 compiler/src/parser/lines.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/compiler/src/parser/lines.rs b/compiler/src/parser/lines.rs
index 7e080a7..ed24920 100644
--- a/compiler/src/parser/lines.rs
+++ b/compiler/src/parser/lines.rs
@@ -5,6 +5,7 @@ pub fn split_lines(source: &str) -> Vec<Line<'_>> {
             let content = line.strip_suffix('\n').unwrap_or(line);
             // Strip trailing inline comments (// ...) but not inside strings
             let content = strip_inline_comment(content);
+            let content = if is_author_note(content) { "" } else { content };
             Line {
                 content,
                 indent: count_indent_columns(content),
@@ -66,6 +67,13 @@ fn strip_block_comments(s: &str) -> String {
     result
 }
 
+/// A `TODO: ...` line is a note of the author's and never part of the story.
+fn is_author_note(line: &str) -> bool {
+    line.trim_start()
+        .strip_prefix("TODO")
+        .is_some_and(|rest| rest.trim_start().starts_with(':'))
+}
+
 /// Strip trailing `// comment` from a line, respecting string literals.
 fn strip_inline_comment(line: &str) -> &str {
     let mut in_string = false;
-- 
2.43.0


From fbc6ddcb4bd622a8b1aee0a50f59bb28e0f3480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 67/69] fix: a blank line before the first case of a switch,
 and an else on one line starting a new line

---
 compiler/src/parser/conditional.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser/conditional.rs b/compiler/src/parser/conditional.rs
index 7188e82..be0ab19 100644
--- a/compiler/src/parser/conditional.rs
+++ b/compiler/src/parser/conditional.rs
@@ -67,7 +67,10 @@ pub fn parse_conditional(
     })?;
 
     // Detect switch-style: `{ expr: \n - Case1: ... }` — look ahead at next body line
-    let first_body_line_index = *line_index + 1;
+    let first_body_line_index = lines[*line_index + 1..]
+        .iter()
+        .position(|line| !line.content.trim().is_empty())
+        .map_or(lines.len(), |blank| *line_index + 1 + blank);
     let is_switch = rest_after_colon.trim().is_empty() && first_body_line_index < lines.len() && {
         let first_body = lines[first_body_line_index].content.trim();
         if first_body.starts_with('-')
@@ -84,7 +87,7 @@ pub fn parse_conditional(
 
     if is_switch {
         let value = parse_expression(condition_text.trim())?;
-        *line_index += 1; // skip the `{ expr:` line
+        *line_index = first_body_line_index; // skip the `{ expr:` line
         return parse_switch_conditional(lines, line_index, value, parse_stmt);
     }
 
@@ -171,6 +174,8 @@ pub fn parse_conditional(
             in_else = true;
             *line_index += 1;
             if !rest.is_empty() {
+                // A branch starts on a new line, wherever its content is written.
+                when_false.push(Node::Newline);
                 when_false.extend(tokenize_inline_content(rest)?);
             }
             if body_line.had_newline {
-- 
2.43.0


From c3c84328d255eac3b332d1bddca71d486d26b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 68/69] fix: white space after ~, and statements on the line of
 a gather

---
 compiler/src/parser/statement.rs | 62 +++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/compiler/src/parser/statement.rs b/compiler/src/parser/statement.rs
index a09c49b..c50ea0f 100644
--- a/compiler/src/parser/statement.rs
+++ b/compiler/src/parser/statement.rs
@@ -105,29 +105,26 @@ pub fn parse_statement(
         ));
     }
 
-    if trimmed == "~ return" || trimmed == "~return" {
+    if let Some(rest) = trimmed.strip_prefix('~') {
+        let rest = rest.trim_start();
         *line_index += 1;
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnVoid]));
-    }
 
-    if let Some(rest) = trimmed
-        .strip_prefix("~ return ")
-        .or_else(|| trimmed.strip_prefix("~return "))
-    {
-        *line_index += 1;
-        // Try as bool first (legacy), otherwise parse as expression
-        let expr = match parse_bool(rest.trim()) {
-            Ok(b) => Expression::Bool(b),
-            Err(_) => parse_expression(rest.trim()).map_err(|e| e.with_line(ln))?,
-        };
-        return Ok(ParsedStatement::Nodes(vec![Node::ReturnExpr(expr)]));
-    }
+        if rest == "return" {
+            return Ok(ParsedStatement::Nodes(vec![Node::ReturnVoid]));
+        }
+
+        if let Some(value) = rest
+            .strip_prefix("return")
+            .filter(|value| value.starts_with(char::is_whitespace))
+        {
+            // Try as bool first (legacy), otherwise parse as expression
+            let expr = match parse_bool(value.trim()) {
+                Ok(b) => Expression::Bool(b),
+                Err(_) => parse_expression(value.trim()).map_err(|e| e.with_line(ln))?,
+            };
+            return Ok(ParsedStatement::Nodes(vec![Node::ReturnExpr(expr)]));
+        }
 
-    if let Some(rest) = trimmed
-        .strip_prefix("~ ")
-        .or_else(|| trimmed.strip_prefix('~'))
-    {
-        *line_index += 1;
         return Ok(ParsedStatement::Nodes(vec![
             parse_assignment(rest).map_err(|e| e.with_line(ln))?,
         ]));
@@ -263,6 +260,31 @@ pub fn parse_statement(
             return Ok(ParsedStatement::Nodes(result));
         }
 
+        // A logic line, a thread or the opening brace of a block after the dash is the
+        // statement it would be on a line of its own.
+        if gather_content.starts_with('~')
+            || gather_content.starts_with("<-")
+            || gather_content == "{"
+        {
+            let mut own_line = lines.to_vec();
+            own_line[ln - 1].content = gather_content;
+            *line_index = ln - 1;
+            let statement = parse_statement(&own_line, line_index, true)?;
+            let ParsedStatement::Nodes(nodes) = statement else {
+                return Ok(statement);
+            };
+            let mut result = vec![match gather_label {
+                Some(label) => Node::GatherLabel {
+                    label,
+                    level: gather_level,
+                    indent: line.indent,
+                },
+                None => Node::GatherPoint,
+            }];
+            result.extend(nodes);
+            return Ok(ParsedStatement::Nodes(result));
+        }
+
         let gather_line = Line {
             content: gather_content,
             indent: line.indent,
-- 
2.43.0


From 39ee17f8781ac1cd99529abcc2af036d6e5ae31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 69/69] fix: a comment after the filename of an INCLUDE is not
 part of it

---
 compiler/src/includes.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/src/includes.rs b/compiler/src/includes.rs
index 1748723..7d5c729 100644
--- a/compiler/src/includes.rs
+++ b/compiler/src/includes.rs
@@ -48,6 +48,8 @@ where
     for (index, line) in source.lines().enumerate() {
         if let Some(filename) = line.trim().strip_prefix("INCLUDE ") {
             push_ink_segment(&mut segments, &mut current_lines, index);
+            // A `//` comment after the filename is not part of it.
+            let filename = filename.split_once("//").map_or(filename, |(name, _)| name);
             segments.push(Segment::Include(filename.trim().to_owned()));
         } else {
             current_lines.push(line);
-- 
2.43.0

