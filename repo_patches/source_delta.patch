From 51b7aaa8cc262047d17fa1a37531e639ea00381f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:34 +0000
Subject: [PATCH 01/68] fix: keep the token of a failed negative lookahead in
 the tree

A negative lookahead that failed where no alternative was left dropped the
token it looked at: in broken code like `(0 := a)` or `f(0 = a)` the `:=`
or `=` belonged to no leaf. The token now goes through the error recovery.
---
 crates/parsa/src/grammar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 59f629a..60fd3bf 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -240,6 +240,11 @@ impl<'a, T: Token> Grammar<T> {
                     if plan.mode == PlanMode::PositivePeek {
                         let tos_mut = stack.tos_mut();
                         tos_mut.dfa_state = plan.next_dfa();
+                    } else if plan.next_dfa().is_negative_lookahead() {
+                        // The lookahead failed. The token was not used and must therefore go
+                        // through the error recovery, otherwise it would vanish from the tree.
+                        let tos_mut = stack.tos_mut();
+                        tos_mut.dfa_state = plan.next_dfa();
                     } else {
                         self.apply_plan(stack, plan, token, backtracking_tokenizer);
                         break;
-- 
2.43.0


From 7020cba1bc72a2591cb13293452ca947da7aebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:06 +0000
Subject: [PATCH 02/68] fix: keep all children linked when a backtracked
 alternative is reused

---
 crates/parsa/src/grammar.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 60fd3bf..64c6070 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -366,6 +366,9 @@ impl<'a, T: Token> Grammar<T> {
                         let tos_mut = stack.tos_mut();
                         tos_mut.mode = alternative;
                         tos_mut.dfa_state = fallback_plan.next_dfa();
+                        // The first plan might have advanced past its first child.
+                        tos_mut.children_count = backtracking.children_count + 1;
+                        tos_mut.latest_child_node_index = c;
                         stack.tree_nodes.truncate(last_leaf_index + 1);
                         // Make sure the tree nodes have the right size to overwrite them later.
                         // It doesn't matter where we insert/remove, everything should be
-- 
2.43.0


From 49d60c55ab67307b83f2bfe21d4dd8928f1a4aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:52 +0000
Subject: [PATCH 03/68] fix: do not add an omittable node twice when
 backtracking after its first child

---
 crates/parsa/src/grammar.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa/src/grammar.rs b/crates/parsa/src/grammar.rs
index 64c6070..61a7923 100644
--- a/crates/parsa/src/grammar.rs
+++ b/crates/parsa/src/grammar.rs
@@ -531,6 +531,8 @@ impl<'a, T: Token> Grammar<T> {
         if tos_mut.dfa_state.node_may_be_omitted
             && plan.mode != PlanMode::LeftRecursive
             && tos_mut.children_count == 1
+            // After backtracking the node might already have been added.
+            && stack.tree_nodes[tos_mut.tree_node_index].type_ != tos_mut.node_id.to_squashed()
         {
             tos_mut.children_count = 1;
             tos_mut.latest_child_node_index = tos_mut.tree_node_index + 1;
-- 
2.43.0


From 9fdbea8771dc8a8f060f89a99f550684f75c4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 04/68] fix: let a nested f-string end at its own double quote

---
 crates/parsa_python/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 1fc3f15..b863e03 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -245,7 +245,7 @@ impl PythonTokenizer<'_> {
                     }
                 }
             } else if character == '"' {
-                for (j, node) in self.f_string_stack.iter().enumerate() {
+                for (j, node) in self.f_string_stack.iter().enumerate().rev() {
                     let quote = node.quote;
                     match quote {
                         QuoteType::Double => return self.end_f_string(i, j, quote),
-- 
2.43.0


From 2d2f9570f42437dba0ed3fb45a783a2213252907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:37 +0000
Subject: [PATCH 05/68] fix: require a comma between positional and keyword
 class patterns

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index d404f40..a5589ef 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -225,7 +225,7 @@ create_grammar!(
 
     class_pattern: dotted_pattern_name "(" param_patterns? ")"
     param_patterns:
-          ",".(pattern !"=")+ [",".(keyword_pattern)+] ","?
+          ",".(pattern !"=")+ ["," [",".(keyword_pattern)+ ","?]]
         | ",".(keyword_pattern)+ ","?
     keyword_pattern: Name "=" pattern
     dotted_pattern_name: [dotted_pattern_name "."] Name
-- 
2.43.0


From e5bd1df96511a574c743d3613ad7506b4e91645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:20 +0000
Subject: [PATCH 06/68] fix: only accept bitwise_or after the star of a display
 element

---
 crates/parsa_python/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python/src/lib.rs b/crates/parsa_python/src/lib.rs
index a5589ef..d3cb61a 100644
--- a/crates/parsa_python/src/lib.rs
+++ b/crates/parsa_python/src/lib.rs
@@ -263,7 +263,7 @@ create_grammar!(
     star_expressions: ",".(expression|star_expression)+ [","]
     star_expression: "*" bitwise_or
     star_named_expressions: ",".star_named_expression+ [","]
-    star_named_expression:? "*" disjunction | named_expression
+    star_named_expression:? "*" bitwise_or | named_expression
 
     named_expression: expression !":=" | walrus
     walrus: name_def ":=" expression
-- 
2.43.0


From 9fe5f265d03d6a84a6756aefb36cb24a313fa9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:27 +0000
Subject: [PATCH 07/68] fix: allow whitespace in front of an f-string format
 spec

---
 crates/parsa_python/src/tokenizer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index b863e03..19bf31f 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -216,11 +216,16 @@ impl PythonTokenizer<'_> {
     fn handle_fstring_stack(&mut self) -> Option<PyTerminal> {
         let in_expr = self.f_string_tos().in_expr();
         if in_expr {
-            if *self.code.as_bytes().get(self.index)? == b':' {
+            // There may be whitespace between the expression and the format spec.
+            let c = code_from_start(self.code, self.index);
+            let whitespace = c
+                .find(|c| !matches!(c, ' ' | '\t' | '\n' | '\r' | FORM_FEED))
+                .unwrap_or(c.len());
+            if *c.as_bytes().get(whitespace)? == b':' {
                 let tos = self.f_string_tos();
                 if tos.parentheses_level - tos.format_spec_count == 1 {
                     tos.format_spec_count += 1;
-                    self.index += 1;
+                    self.index += whitespace + 1;
                     // We cannot just return None here, because otherwise := would be tokenized
                     // the wrong way.
                     return self.new_tok(self.index - 1, true, TerminalType::Operator);
-- 
2.43.0


From 1c3cfecf23aa326e67c443f2c4c09a50f244d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:05 +0000
Subject: [PATCH 08/68] fix: measure the indentation of a continued line like
 CPython

---
 crates/parsa_python/src/tokenizer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 19bf31f..2567c87 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -433,8 +433,13 @@ impl PythonTokenizer<'_> {
                         return indentation;
                     }
                     self.index += 1;
-                    self.skip_whitespace();
-                    return indentation;
+                    let next_indentation = self.skip_whitespace();
+                    // Like in CPython, the first line that is indented decides.
+                    return if indentation == 0 {
+                        next_indentation
+                    } else {
+                        indentation
+                    };
                 } else {
                     break;
                 }
@@ -469,6 +474,7 @@ impl Iterator for PythonTokenizer<'_> {
             return Some(token);
         }
 
+        let before_whitespace = self.index;
         let indentation = self.skip_whitespace();
 
         let start = self.index;
@@ -485,7 +491,7 @@ impl Iterator for PythonTokenizer<'_> {
                     self.previous_token_was_newline = false;
                     return self.new_tok(start, false, TerminalType::Indent);
                 } else if let Some(token) = self.dedent_if_necessary(indentation) {
-                    self.index -= indentation;
+                    self.index = before_whitespace;
                     return Some(token);
                 }
             }
-- 
2.43.0


From d318b2f502a551be98c4447fead6b6d28c166ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:32 +0000
Subject: [PATCH 09/68] fix: recognise the items of an async with statement

---
 crates/parsa_python_cst/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5e252c6..5532ea8 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -1771,8 +1771,10 @@ impl<'db> WithItem<'db> {
     }
 
     pub fn in_async_with_stmt(&self) -> bool {
-        let with = self.node.parent().unwrap().parent().unwrap();
-        with.is_type(Nonterminal(async_stmt))
+        let items = self.node.parent().unwrap();
+        let with = items.parent().unwrap();
+        with.parent()
+            .is_some_and(|parent| parent.is_type(Nonterminal(async_stmt)))
     }
 }
 
-- 
2.43.0


From 95ef36a85e3b4f3889bfc6d23d201b3ed36435fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:42 +0000
Subject: [PATCH 10/68] fix: end the format spec of a nested replacement field
 with the field

---
 crates/parsa_python/src/tokenizer.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/parsa_python/src/tokenizer.rs b/crates/parsa_python/src/tokenizer.rs
index 2567c87..6d7a709 100644
--- a/crates/parsa_python/src/tokenizer.rs
+++ b/crates/parsa_python/src/tokenizer.rs
@@ -125,10 +125,8 @@ impl FStringNode {
         if self.parentheses_level > 0 {
             self.parentheses_level -= 1;
         }
-        if self.parentheses_level == 0 {
-            // No parentheses means that the format spec is also finished.
-            self.format_spec_count = 0
-        }
+        // A closed replacement field means that its format spec is also finished.
+        self.format_spec_count = self.format_spec_count.min(self.parentheses_level);
     }
 
     #[inline]
-- 
2.43.0


From d20a0f70761ac5ef334211a564722148b08b368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:10 +0000
Subject: [PATCH 11/68] fix: keep the file entry of an in memory file in sync
 when its directory is replaced

When a directory with open files in it is replaced or removed, the open files are
added to the tree again. The file state kept the old entry, so everything that
registered an invalidation on the new entry was never invalidated again.
---
 crates/vfs/src/vfs.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 3851511..59abd50 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -754,6 +754,9 @@ impl<F: VfsFile> Vfs<F> {
             match ensured.kind {
                 AddedKind::FileEntry(file_entry) => {
                     file_entry.with_set_file_index(|| file_index);
+                    // The entry might be a new one (e.g. when its directory was replaced) and
+                    // the file state needs to see the invalidations that are added to it.
+                    self.file_state_mut(file_index).file_entry = file_entry;
                     self.handler.on_invalidated_in_memory_file(path);
                 }
                 AddedKind::Gitignore(_) => {
-- 
2.43.0


From 3c62aa9619c4f0b55d7511862a6253f705787dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:30 +0000
Subject: [PATCH 12/68] fix: invalidate dependents of a file that could not be
 read and was then loaded

An event was dismissed when the loaded code equals the code on disk, even if a
dependent had observed in the meantime that the file was not readable.
---
 crates/vfs/src/tree.rs | 17 ++++++++++++++++-
 crates/vfs/src/vfs.rs  | 25 ++++++++++++++++++++-----
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/crates/vfs/src/tree.rs b/crates/vfs/src/tree.rs
index 097ee4c..9b63916 100644
--- a/crates/vfs/src/tree.rs
+++ b/crates/vfs/src/tree.rs
@@ -1,7 +1,10 @@
 use std::{
     ops::Deref,
     path::Path,
-    sync::{Arc, Mutex, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard, Weak},
+    sync::{
+        Arc, Mutex, OnceLock, RwLock, RwLockReadGuard, RwLockWriteGuard, Weak,
+        atomic::{AtomicBool, Ordering},
+    },
 };
 
 use ignore::gitignore::{Gitignore, GitignoreBuilder};
@@ -95,6 +98,8 @@ impl Parent {
 pub struct FileEntry {
     pub name: Arc<str>,
     file_index: Mutex<Option<FileIndex>>,
+    // Somebody tried to read the file, but it was not readable at that point
+    had_read_error: AtomicBool,
     pub(crate) invalidations: Invalidations,
     pub parent: Parent,
 }
@@ -104,6 +109,7 @@ impl Clone for FileEntry {
         Self {
             name: self.name.clone(),
             file_index: Mutex::new(*self.file_index.lock().unwrap()),
+            had_read_error: AtomicBool::new(self.had_read_error()),
             invalidations: self.invalidations.clone(),
             parent: self.parent.clone(),
         }
@@ -115,6 +121,7 @@ impl FileEntry {
         Arc::new(Self {
             name,
             file_index: Default::default(),
+            had_read_error: Default::default(),
             invalidations: Default::default(),
             parent,
         })
@@ -146,6 +153,14 @@ impl FileEntry {
         *self.file_index.lock().unwrap()
     }
 
+    pub(crate) fn had_read_error(&self) -> bool {
+        self.had_read_error.load(Ordering::SeqCst)
+    }
+
+    pub(crate) fn set_read_error(&self, had_error: bool) {
+        self.had_read_error.store(had_error, Ordering::SeqCst)
+    }
+
     pub(crate) fn with_set_file_index(&self, callback: impl FnOnce() -> FileIndex) -> FileIndex {
         let mut guard = self.file_index.lock().unwrap();
         if let Some(file_index) = *guard {
diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 59abd50..8fca5d5 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -371,7 +371,7 @@ impl<F: VfsFile> Vfs<F> {
             if file_state.file().is_some() {
                 return Some(file_index);
             }
-            let code = self.handler.read_and_watch_file(&file_state.path)?;
+            let code = self.read_file_of_entry(&file_entry, &file_state.path)?;
             if !should_load(&code) {
                 return None;
             }
@@ -379,7 +379,7 @@ impl<F: VfsFile> Vfs<F> {
             Some(file_index)
         } else {
             let path = file_entry.absolute_path(&*self.handler);
-            let code = self.handler.read_and_watch_file(&path)?;
+            let code = self.read_file_of_entry(&file_entry, &path)?;
             if !should_load(&code) {
                 return None;
             }
@@ -392,6 +392,14 @@ impl<F: VfsFile> Vfs<F> {
         }
     }
 
+    fn read_file_of_entry(&self, file_entry: &FileEntry, path: &PathWithScheme) -> Option<String> {
+        let code = self.handler.read_and_watch_file(path);
+        if code.is_none() {
+            file_entry.set_read_error(true);
+        }
+        code
+    }
+
     pub fn in_memory_file(&mut self, path: &PathWithScheme) -> Option<FileIndex> {
         match self.in_memory_files.get(path)? {
             InMemoryKind::File(file_index) => Some(*file_index),
@@ -436,7 +444,7 @@ impl<F: VfsFile> Vfs<F> {
         self.handler.on_invalidated_in_memory_file(path.clone());
         let mut result = InvalidationResult::InvalidatedFiles;
         if let Some(file_index) = in_mem_file {
-            if self.file_state(file_index).code() == Some(&code) {
+            if self.file_state(file_index).code() == Some(&code) && !file_entry.had_read_error() {
                 // It already exists with the same code, we can therefore skip generating a new
                 // file.
                 return (Some(file_index), result);
@@ -501,6 +509,7 @@ impl<F: VfsFile> Vfs<F> {
     fn invalidate_and_unload_file(&mut self, file_index: FileIndex) -> InvalidationResult {
         let file_state = &mut self.files[file_index.0 as usize];
         file_state.unload();
+        file_state.file_entry.set_read_error(false);
         let invalidations = file_state.file_entry.invalidations.take();
         self.invalidate_files(Some(file_index), invalidations)
     }
@@ -522,7 +531,9 @@ impl<F: VfsFile> Vfs<F> {
                         // In case the code matches the one already in the file, we don't have to do anything.
                         // This is the very typical case of closing a buffer after saving it and therefore
                         // unloading the file from memory and using the file from the file system.
-                        if Some(on_file_system_code.as_str()) != file_state.code() {
+                        if Some(on_file_system_code.as_str()) != file_state.code()
+                            || file_state.file_entry.had_read_error()
+                        {
                             self.update_file(file_index, on_file_system_code.into(), to_file)
                         } else {
                             InvalidationResult::InvalidatedFiles
@@ -772,7 +783,11 @@ impl<F: VfsFile> Vfs<F> {
     fn matches_current_dir_entry(&self, old: &DirectoryEntry, new: &DirectoryEntry) -> bool {
         match (old, new) {
             (DirectoryEntry::File(old), DirectoryEntry::File(_)) => {
-                if let Some(file_index) = old.get_file_index() {
+                // If the file was not readable at some point, there might be files that depend on
+                // that fact and need to be invalidated.
+                if let Some(file_index) = old.get_file_index()
+                    && !old.had_read_error()
+                {
                     let file_state = self.file_state(file_index);
                     if let Some(old_code) = file_state.code()
                         && let Some(new_code) = self.handler.read_and_watch_file(&file_state.path)
-- 
2.43.0


From c87983c788d7a22d4eff8134e2d3ec1bbff4c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:34 +0000
Subject: [PATCH 13/68] fix: invalidate files that depend on a file entry that
 was never loaded

---
 crates/vfs/src/vfs.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 8fca5d5..9dd8ac2 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -669,6 +669,15 @@ impl<F: VfsFile> Vfs<F> {
                                     }
                                 }
                                 all_unloads.insert(file_index);
+                            } else {
+                                // Files that are not Python files (e.g. `foo`) are never loaded,
+                                // but might still shadow something (e.g. a directory `foo`).
+                                match &*f.invalidations.borrow() {
+                                    InvalidationDetail::InvalidatesDb => invalidates_db = true,
+                                    InvalidationDetail::Some(invs) => {
+                                        all_invalidations.extend(invs)
+                                    }
+                                }
                             }
                         }
                         DirectoryEntry::MissingEntry(missing) => {
-- 
2.43.0


From f07a9d2ce0bcaf91d2912a29620340cf3c4bab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:34 +0000
Subject: [PATCH 14/68] fix: remove closed files outside of all workspaces from
 the tree

---
 crates/vfs/src/workspaces.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index 40f4b6a..87086b5 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -302,6 +302,9 @@ impl Workspaces {
         for workspace in self.load().iter() {
             if let Some(p) = workspace.strip_path_prefix(vfs, case_sensitive, path) {
                 workspace.entries.unload_file(vfs, p);
+            } else if workspace.kind == WorkspaceKind::Fallback {
+                // The fallback entries use the full path as a name
+                workspace.entries.remove_name(&path.path);
             }
         }
     }
-- 
2.43.0


From f050dda2b5b102dfad9235f45c0c3fc1170d286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:02 +0000
Subject: [PATCH 15/68] fix: let a nested workspace own the entries that file
 system events create

---
 crates/vfs/src/workspaces.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index 87086b5..e2be9e5 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -212,6 +212,10 @@ impl Workspaces {
                     let found = entries.search(name)?;
                     match &*found {
                         DirectoryEntry::Directory(d) => {
+                            if d.is_nested_workspace() {
+                                // The other workspace is responsible for the entry
+                                return None;
+                            }
                             let x = d.clone();
                             drop(found);
                             current_dir = Some(x);
-- 
2.43.0


From 8aafc5bb8a1e48356cfb43c353cba33b3e8f9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:17 +0000
Subject: [PATCH 16/68] fix: decode incomplete escapes and newlines in bytes
 literals like Python

An incomplete hex escape consumed characters that are not part of it, which could end in the middle of a
character or past the end of the literal, and bytes literals kept carriage returns.
---
 crates/parsa_python_cst/src/bytes.rs   | 26 ++++++++++++++++++-------
 crates/parsa_python_cst/src/strings.rs | 27 ++++++++++----------------
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/crates/parsa_python_cst/src/bytes.rs b/crates/parsa_python_cst/src/bytes.rs
index 9dc375a..e596d12 100644
--- a/crates/parsa_python_cst/src/bytes.rs
+++ b/crates/parsa_python_cst/src/bytes.rs
@@ -2,16 +2,19 @@ use std::borrow::Cow;
 
 use parsa_python::PyNode;
 
-use crate::strings::{parse_hex, parse_python_octal, unpack_string_or_bytes_content};
+use crate::strings::{PythonString, parse_hex, parse_python_octal, unpack_string_or_bytes_content};
 
 pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
     let code = literal.as_code();
     let unpacked = unpack_string_or_bytes_content(code);
     let inner_bytes = unpacked.inner.as_bytes();
     if unpacked.had_raw_modifier {
-        return Cow::Borrowed(inner_bytes);
+        return match PythonString::remove_carriage_returns_from_raw_literal(0, unpacked.inner) {
+            PythonString::String(_, s) => Cow::Owned(s.into_bytes()),
+            _ => Cow::Borrowed(inner_bytes),
+        };
     }
-    let mut iterator = inner_bytes.iter().enumerate();
+    let mut iterator = inner_bytes.iter().enumerate().peekable();
     let mut previous_insert = 0;
     let mut out = None;
     while let Some((i, ch)) = iterator.next() {
@@ -22,15 +25,17 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
             let s = out.as_mut().unwrap();
             s.extend_from_slice(&inner_bytes[previous_insert..i]);
             let (next_index, &ch) = iterator.next().unwrap();
-            previous_insert = i + 2;
 
             match ch {
                 b'\\' | b'\'' | b'"' => s.push(ch),
                 b'\n' => (), // Escaping a newline ignores it
+                b'\r' => {
+                    // A carriage return is a newline, maybe together with the next newline
+                    iterator.next_if(|(_, ch)| **ch == b'\n');
+                }
                 b'x' => {
-                    if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                    if let Some(c) = parse_hex(2, &mut iterator) {
                         s.push(c as u8);
-                        previous_insert += 2;
                     }
                 }
                 b'a' => s.push(b'\x07'), // Bell
@@ -43,7 +48,6 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                 _ => {
                     if let Some((len, octal)) = parse_python_octal(&inner_bytes[next_index..]) {
                         for _ in 1..len {
-                            previous_insert += 1;
                             iterator.next();
                         }
                         // We simply cut off a bit, which is also how Python does it
@@ -55,6 +59,14 @@ pub fn parse_python_bytes_literal(literal: PyNode) -> Cow<[u8]> {
                     }
                 }
             }
+            previous_insert = iterator.peek().map_or(inner_bytes.len(), |x| x.0);
+        } else if ch == &b'\r' {
+            let s = out.get_or_insert_with(|| Vec::with_capacity(inner_bytes.len()));
+            s.extend_from_slice(&inner_bytes[previous_insert..i]);
+            previous_insert = i + 1;
+            if !matches!(iterator.peek(), Some((_, b'\n'))) {
+                s.push(b'\n');
+            }
         }
     }
     if let Some(mut out) = out {
diff --git a/crates/parsa_python_cst/src/strings.rs b/crates/parsa_python_cst/src/strings.rs
index beb2235..8624c28 100644
--- a/crates/parsa_python_cst/src/strings.rs
+++ b/crates/parsa_python_cst/src/strings.rs
@@ -1,4 +1,4 @@
-use std::borrow::Cow;
+use std::{borrow::Cow, iter::Peekable};
 
 use parsa_python::{
     CodeIndex, NonterminalType::fstring, PyNode, PyNodeType::Nonterminal, SiblingIterator,
@@ -67,17 +67,17 @@ impl<'db> PythonString<'db> {
                             }
                         }
                         b'u' => {
-                            if let Some(c) = parse_hex(4, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(4, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'U' => {
-                            if let Some(c) = parse_hex(8, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(8, &mut iterator) {
                                 s.push(c)
                             }
                         }
                         b'x' => {
-                            if let Some(c) = parse_hex(2, iterator.by_ref()) {
+                            if let Some(c) = parse_hex(2, &mut iterator) {
                                 s.push(c)
                             }
                         }
@@ -139,7 +139,7 @@ impl<'db> PythonString<'db> {
         }
     }
 
-    fn remove_carriage_returns_from_raw_literal(
+    pub(crate) fn remove_carriage_returns_from_raw_literal(
         literal_start: CodeIndex,
         literal_inner: &'db str,
     ) -> Self {
@@ -201,20 +201,13 @@ impl<'db> PythonString<'db> {
 
 pub(crate) fn parse_hex<'x, I: Iterator<Item = (usize, &'x u8)>>(
     count: usize,
-    iterator: I,
+    iterator: &mut Peekable<I>,
 ) -> Option<char> {
     let mut number = 0;
-    for (i, (_, x)) in iterator.take(count).enumerate() {
-        let digit = if x.is_ascii_digit() {
-            *x - b'0'
-        } else if (b'a'..=b'f').contains(x) {
-            *x - b'a' + 10
-        } else if (b'A'..=b'F').contains(x) {
-            *x - b'A' + 10
-        } else {
-            return None;
-        };
-        number += (digit as u32) << ((count - i - 1) * 4);
+    for _ in 0..count {
+        // Only digits are consumed, because what follows an incomplete escape is not part of it.
+        let (_, x) = iterator.next_if(|(_, x)| x.is_ascii_hexdigit())?;
+        number = (number << 4) | (*x as char).to_digit(16)?;
     }
     char::from_u32(number)
 }
-- 
2.43.0


From 890d8a6c7b9fc5e21ae13263418d6346526c1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:36 +0000
Subject: [PATCH 17/68] fix: content of triple-quoted string literals excludes
 all quotes

---
 crates/parsa_python_cst/src/lib.rs | 53 +++---------------------------
 1 file changed, 5 insertions(+), 48 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 5532ea8..18ecd8b 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -29,6 +29,7 @@ use parsa_python::{
 pub use ranges::Range;
 pub use signatures::{SignatureArg, SignatureArgsIterator, SignatureBase};
 pub use strings::PythonString;
+use strings::unpack_string_or_bytes_content;
 
 pub const NAME_DEF_TO_NAME_DIFFERENCE: u32 = 1;
 
@@ -4911,57 +4912,13 @@ impl<'db> BytesLiteral<'db> {
 
 impl<'db> StringLiteral<'db> {
     pub fn content(&self) -> &'db str {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return &code[start + 3..code.len() - 3];
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        &code[start..end]
-    }
-
-    fn content_start_and_end_in_literal_internal(&self) -> (usize, usize) {
-        let code = self.node.as_code();
-        let bytes_ = code.as_bytes();
-        let mut start = 0;
-        let mut quote = None;
-        for (i, b) in bytes_.iter().enumerate() {
-            if *b == b'"' || *b == b'\'' {
-                if let Some(quote) = quote {
-                    if *b == quote && i == start + 3 {
-                        return (start + 3, code.len() - 3);
-                    }
-                    break;
-                } else {
-                    quote = Some(*b);
-                }
-            } else if quote.is_some() {
-                break;
-            } else {
-                start += 1;
-            }
-        }
-        (start + 1, code.len() - 1)
+        unpack_string_or_bytes_content(self.node.as_code()).inner
     }
 
     pub fn content_start_and_end_in_literal(&self) -> (CodeIndex, CodeIndex) {
-        let (start, end) = self.content_start_and_end_in_literal_internal();
-        (start as CodeIndex, end as CodeIndex)
+        let unpacked = unpack_string_or_bytes_content(self.node.as_code());
+        let start = unpacked.inner_start_offset;
+        (start, start + unpacked.inner.len() as CodeIndex)
     }
 
     pub fn in_simple_assignment(&self) -> Option<NameDef<'db>> {
-- 
2.43.0


From efcf201d34449351e47d8bd03da1ce4711be2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:27 +0000
Subject: [PATCH 18/68] fix: dedent does not slice inside of multi-byte
 whitespace

---
 crates/utils/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index 49faa1c..d3e0766 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -242,7 +242,10 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     let lines: &Vec<_> = &s.split('\n').collect();
     for line in lines {
         if !line.trim().is_empty() {
-            indent = std::cmp::min(indent, line.len() - line.trim_start().len());
+            indent = std::cmp::min(
+                indent,
+                line.chars().take_while(|c| c.is_whitespace()).count(),
+            );
         }
     }
     if indent == usize::MAX {
@@ -250,12 +253,10 @@ pub fn dedent_cow(s: Cow<str>) -> Cow<str> {
     }
     let new_lines: Vec<_> = lines
         .iter()
-        .map(|line| {
-            if line.len() >= indent {
-                &line[indent..]
-            } else {
-                line
-            }
+        .map(|line| match line.char_indices().nth(indent) {
+            Some((byte_index, _)) => &line[byte_index..],
+            None if line.chars().count() == indent => "",
+            None => line,
         })
         .collect();
     Cow::Owned(new_lines.join("\n"))
-- 
2.43.0


From ea810a38b02547bbcf5b56fe4a2e85d07516129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:13 +0000
Subject: [PATCH 19/68] fix: completion recognizes the end of a comment as
 being inside of it

This also stops comments from including the carriage return of a Windows newline.
---
 crates/parsa_python_cst/src/completion.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 4093541..25f70f2 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -405,10 +405,16 @@ pub(crate) fn scope_for_node<'db>(node: PyNode<'db>) -> Scope<'db> {
     }
 }
 
-fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(CodeIndex, &str)> {
-    if after_node.start() <= position {
+fn maybe_in_comment(mut after_node: PyNode<'_>, position: CodeIndex) -> Option<(CodeIndex, &str)> {
+    if after_node.start() < position {
         return None;
     }
+    // The comment is the prefix of the first node after it, others (like newlines) might follow.
+    while let Some(previous) = after_node.previous_leaf()
+        && previous.start() >= position
+    {
+        after_node = previous;
+    }
     let prefix = after_node.prefix_to_previous_leaf();
     let start = after_node.start() - prefix.len() as CodeIndex;
     let position_in_prefix = position.checked_sub(start)?;
@@ -421,7 +427,7 @@ fn maybe_in_comment(after_node: PyNode<'_>, position: CodeIndex) -> Option<(Code
                 }
                 comment_start = Some(i);
             }
-            b'\n' => {
+            b'\n' | b'\r' => {
                 if let Some(comment_start) = comment_start
                     && position_in_prefix as usize <= i
                 {
-- 
2.43.0


From c01b02ed817445aebc0b637daa35e3accc54cced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:18 +0000
Subject: [PATCH 20/68] fix: selection ranges always grow

---
 crates/parsa_python_cst/src/ranges.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa_python_cst/src/ranges.rs b/crates/parsa_python_cst/src/ranges.rs
index 3f50797..0bac415 100644
--- a/crates/parsa_python_cst/src/ranges.rs
+++ b/crates/parsa_python_cst/src/ranges.rs
@@ -122,6 +122,8 @@ impl Iterator for SelectionRanges<'_> {
         };
         let type_ = node.type_();
         if let Some(previous) = self.previous {
+            // The indentation of a statement might be in front of the first token of the parent.
+            range.start = range.start.min(previous.start);
             // We never want to repeat the same range.
             if previous == range {
                 return self.next();
-- 
2.43.0


From f99a7fc73f3e1fc3fd496f4cdc130d571b012754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:27 +0000
Subject: [PATCH 21/68] fix: prefix of an empty leaf is the text after the
 previous leaf

---
 crates/parsa/src/lib.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/crates/parsa/src/lib.rs b/crates/parsa/src/lib.rs
index 723feeb..362f65d 100644
--- a/crates/parsa/src/lib.rs
+++ b/crates/parsa/src/lib.rs
@@ -176,13 +176,6 @@ macro_rules! __create_node {
                         start = node.start_index + node.length;
                         break
                     }
-                    if node.start_index >= self.internal_node.start_index + self.internal_node.length {
-                        let start = self.internal_node.start_index + self.internal_node.length;
-                        return self.code_slice(
-                            start,
-                            node.start_index,
-                        );
-                    }
                 }
                 self.code_slice(start, self.internal_node.start_index)
             }
-- 
2.43.0


From 6dcecbdd1b40669685b96c3c00115d64cf7dc004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:28 +0000
Subject: [PATCH 22/68] fix: no crash for signature help within assignment
 targets

---
 crates/parsa_python_cst/src/signatures.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/signatures.rs b/crates/parsa_python_cst/src/signatures.rs
index eb30887..f78e132 100644
--- a/crates/parsa_python_cst/src/signatures.rs
+++ b/crates/parsa_python_cst/src/signatures.rs
@@ -49,7 +49,8 @@ impl Tree {
             if maybe_paren.as_code() != "(" || maybe_paren.end() > position {
                 continue;
             }
-            let base = ExpressionPart::new(first);
+            // The base of calls within targets, e.g. `a.b().c = 1` is not an expression.
+            let base = ExpressionPart::maybe_new(first)?;
             let Some(maybe_args) = iterator.next() else {
                 return Some((
                     scope,
-- 
2.43.0


From d6bf7ecb3c6fda8fd879e36ec43824dc05d1a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:58 +0000
Subject: [PATCH 23/68] fix: completion after an opening parenthesis ignores
 the arguments of an outer call

---
 crates/parsa_python_cst/src/completion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index 25f70f2..c722fad 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -301,6 +301,10 @@ fn context(node: PyNode) -> Option<CompletionContext> {
 }
 
 fn call_args(node: PyNode) -> Option<CallArgs> {
+    if node.as_code() == "(" {
+        // There are no arguments before the first one, but we might be within a different call.
+        return None;
+    }
     let args = node.parent_until(&[
         Nonterminal(arguments),
         ErrorNonterminal(arguments),
-- 
2.43.0


From 6ce0d39d78786cd746c136a9fceff97bec75127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:37 +0000
Subject: [PATCH 24/68] fix: complete module contents for relative imports
 without a name

---
 crates/parsa_python_cst/src/completion.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/completion.rs b/crates/parsa_python_cst/src/completion.rs
index c722fad..5c778ca 100644
--- a/crates/parsa_python_cst/src/completion.rs
+++ b/crates/parsa_python_cst/src/completion.rs
@@ -150,7 +150,13 @@ impl Tree {
                 }
                 "import" => {
                     if let Some(before_imp) = previous.previous_sibling() {
-                        if before_imp.is_type(Nonterminal(dotted_import_name)) {
+                        if before_imp.is_type(Nonterminal(dotted_import_name))
+                            || matches!(before_imp.as_code(), "." | "...")
+                                && before_imp
+                                    .parent()
+                                    .unwrap()
+                                    .is_type_or_error_thereof(Nonterminal(import_from))
+                        {
                             return (
                                 scope,
                                 import_from_target_node(before_imp.parent().unwrap()),
-- 
2.43.0


From 8daf385d15cbae65cfdc00b976fec1488eb13d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:05 +0000
Subject: [PATCH 25/68] fix: goto finds the operator at the start of an
 indented block

---
 crates/parsa_python_cst/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 18ecd8b..713bb39 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -207,6 +207,8 @@ impl Tree {
         if left.start() == position {
             if let Some(n) = left.previous_leaf()
                 && n.end() == position
+                // Indents and dedents are never what the cursor is on.
+                && n.start() < position
             {
                 left = n;
             }
-- 
2.43.0


From 14d057dbb2d80edd8c1b90d8412279cd4a1731f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:40 +0000
Subject: [PATCH 26/68] fix: report the right index of ignore codes on later
 lines

---
 crates/parsa_python_cst/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 713bb39..1163e45 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -157,7 +157,6 @@ impl Tree {
                 }
                 start_at += comment.len() as CodeIndex + 1;
             }
-            start_at += 1;
         }
         result
     }
-- 
2.43.0


From 79ed20965f7ea66c8c68aeb21e8572b4d222baea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:40 +0000
Subject: [PATCH 27/68] fix: accept tabs after the codes of an ignore comment

---
 crates/parsa_python_cst/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index 1163e45..df7037d 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -486,7 +486,7 @@ pub fn maybe_type_ignore<'db>(
     if let Some(after) = text.strip_prefix("ignore") {
         let trimmed = after.trim_start_matches(' ');
         let start_at = start_at + (text.len() - trimmed.len()) as CodeIndex;
-        let trimmed = trimmed.trim_end_matches(' ');
+        let trimmed = trimmed.trim_end_matches([' ', '\t']);
         if let Some(trimmed) = trimmed.strip_prefix('[')
             && let Some(trimmed) = trimmed.strip_suffix(']')
             && !trimmed.is_empty()
-- 
2.43.0


From d04503d02a6190b1ea1f67f6ff0e689587a80207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:24 +0000
Subject: [PATCH 28/68] fix: do not offer an ignore comment inside the text of
 an f-string

---
 crates/parsa_python_cst/src/code_actions.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/parsa_python_cst/src/code_actions.rs b/crates/parsa_python_cst/src/code_actions.rs
index b5ada69..e1a08af 100644
--- a/crates/parsa_python_cst/src/code_actions.rs
+++ b/crates/parsa_python_cst/src/code_actions.rs
@@ -1,4 +1,4 @@
-use parsa_python::CodeIndex;
+use parsa_python::{CodeIndex, PyNodeType::Terminal, TerminalType};
 
 use crate::{Tree, TypeIgnoreComment};
 
@@ -55,7 +55,13 @@ impl Tree {
                 {
                     leaf = next
                 }
-                if leaf.end() > last_valid_position {
+                if leaf.end() > last_valid_position
+                    || leaf.next_leaf().is_some_and(|next| {
+                        next.is_type(Terminal(TerminalType::FStringString))
+                            && next.start() == last_valid_position
+                    })
+                {
+                    // A comment would become part of a multi-line string
                     return None;
                 }
 
-- 
2.43.0


From 440732503dcba97eae9d858f444fa83faa820a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:46 +0000
Subject: [PATCH 29/68] fix: keep the lock of InsertOnlyVec while reading from
 it

---
 crates/utils/src/lib.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/utils/src/lib.rs b/crates/utils/src/lib.rs
index d3e0766..63b3e44 100644
--- a/crates/utils/src/lib.rs
+++ b/crates/utils/src/lib.rs
@@ -62,9 +62,8 @@ impl<T: ?Sized, P> Default for InsertOnlyVec<T, P> {
 
 impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     pub fn get(&self, index: usize) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .get(index)
-            .map(|x| x as &T)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.get(index).map(|x| x as &T)
     }
 
     /*
@@ -82,17 +81,18 @@ impl<T: ?Sized + Unpin, P: Deref<Target = T>> InsertOnlyVec<T, P> {
     }
 
     pub fn len(&self) -> usize {
-        unsafe { &*self.vec.lock().unwrap().get() }.len()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.len()
     }
 
     pub fn is_empty(&self) -> bool {
-        unsafe { &*self.vec.lock().unwrap().get() }.is_empty()
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.is_empty()
     }
 
     pub fn last(&self) -> Option<&T> {
-        unsafe { &*self.vec.lock().unwrap().get() }
-            .last()
-            .map(|x| x as &T)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.last().map(|x| x as &T)
     }
 
     pub fn clear(&mut self) {
@@ -135,7 +135,8 @@ impl<T, P> IntoIterator for InsertOnlyVec<T, P> {
 
 impl<T: fmt::Debug> fmt::Debug for InsertOnlyVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        unsafe { &*self.vec.lock().unwrap().get() }.fmt(f)
+        let guard = self.vec.lock().unwrap();
+        unsafe { &*guard.get() }.fmt(f)
     }
 }
 
@@ -143,7 +144,11 @@ impl<T: ?Sized> std::ops::Index<usize> for InsertOnlyVec<T> {
     type Output = T;
 
     fn index(&self, index: usize) -> &T {
-        unsafe { &*self.vec.lock().unwrap().get() }.index(index)
+        let guard = self.vec.lock().unwrap();
+        let result = unsafe { &*guard.get() }.get(index).map(|x| &**x);
+        // Dropping the guard first avoids poisoning it
+        drop(guard);
+        result.expect("index out of bounds")
     }
 }
 
@@ -154,10 +159,9 @@ impl<T: ?Sized + Unpin> std::ops::IndexMut<usize> for InsertOnlyVec<T> {
 }
 impl<T: ?Sized, P: Clone> Clone for InsertOnlyVec<T, P> {
     fn clone(&self) -> Self {
+        let guard = self.vec.lock().unwrap();
         Self {
-            vec: Mutex::new(UnsafeCell::new(
-                unsafe { &*self.vec.lock().unwrap().get() }.clone(),
-            )),
+            vec: Mutex::new(UnsafeCell::new(unsafe { &*guard.get() }.clone())),
             _ensure_sync: PhantomData,
         }
     }
-- 
2.43.0


From b454a99e9a4f5989f825efc79a7bf7acf9686659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:10 +0000
Subject: [PATCH 30/68] fix: keep that a file invalidates the database when it
 already has an index

---
 crates/vfs/src/vfs.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/vfs/src/vfs.rs b/crates/vfs/src/vfs.rs
index 9dd8ac2..e3b5be3 100644
--- a/crates/vfs/src/vfs.rs
+++ b/crates/vfs/src/vfs.rs
@@ -368,6 +368,10 @@ impl<F: VfsFile> Vfs<F> {
     ) -> Option<FileIndex> {
         if let Some(file_index) = file_entry.get_file_index() {
             let file_state = self.file_state(file_index);
+            if invalidates_db {
+                // It might have been added by someone that does not know about this
+                file_entry.invalidations.set_invalidates_db();
+            }
             if file_state.file().is_some() {
                 return Some(file_index);
             }
@@ -846,6 +850,9 @@ impl<F: VfsFile> Vfs<F> {
         } else {
             // This is a race condition where with_set_file_index did enter concurrently and only
             // one got to complete.
+            if invalidates_db {
+                file_entry.invalidations.set_invalidates_db();
+            }
             (self.file_state(file_index), file_index)
         }
     }
-- 
2.43.0


From 7008a648432c07ea5088f12784b3bc71e5a60be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:10 +0000
Subject: [PATCH 31/68] fix: do not replace the entry of a file outside of all
 workspaces

---
 crates/vfs/src/workspaces.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/vfs/src/workspaces.rs b/crates/vfs/src/workspaces.rs
index e2be9e5..2e8142d 100644
--- a/crates/vfs/src/workspaces.rs
+++ b/crates/vfs/src/workspaces.rs
@@ -285,10 +285,14 @@ impl Workspaces {
                 // We just use the full entry as a name, this is not supposed to be looked up by
                 // anything. It's just a fallback so we have a node to store the entry.
                 let name = NormalizedPath::arc_to_str(path.path);
-                workspace
-                    .entries
-                    .borrow_mut()
-                    .insert(name, dir_entry.clone());
+                let mut entries = workspace.entries.borrow_mut();
+                // The entry might already be in use, it should not be replaced in that case.
+                if let Some(existing) = entries.get(&name)
+                    && std::mem::discriminant(existing) == std::mem::discriminant(&dir_entry)
+                {
+                    return Some(existing.clone());
+                }
+                entries.insert(name, dir_entry.clone());
                 return Some(dir_entry);
             }
         }
-- 
2.43.0


From 2fc0116f652974942da0fe8fe35c7baac141cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:24 +0000
Subject: [PATCH 32/68] fix: drop delayed diagnostics when a file is analyzed
 again

They were reported twice if the file had been analyzed as an import, but not
yet been checked, when one of its dependencies changed.
---
 crates/zuban_python/src/file/python_file.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index 2809fc0..f534e87 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -261,6 +261,8 @@ impl vfs::VfsFile for PythonFile {
         );
         self.points.invalidate_references_to(file_index);
         self.issues.invalidate_non_name_binder_issues();
+        // The whole file is analyzed again, these would be added a second time.
+        self.delayed_diagnostics.get_mut().unwrap().clear();
         if let Some(cache) = self.stub_cache.as_mut() {
             *cache = StubCache::default();
         }
-- 
2.43.0


From 96c25422ea99e4cefb2abee6e758a5c92f968d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:24 +0000
Subject: [PATCH 33/68] fix: compute __all__ again when one of the imported
 files changes

---
 crates/zuban_python/src/file/python_file.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zuban_python/src/file/python_file.rs b/crates/zuban_python/src/file/python_file.rs
index f534e87..93e9e3f 100644
--- a/crates/zuban_python/src/file/python_file.rs
+++ b/crates/zuban_python/src/file/python_file.rs
@@ -261,6 +261,8 @@ impl vfs::VfsFile for PythonFile {
         );
         self.points.invalidate_references_to(file_index);
         self.issues.invalidate_non_name_binder_issues();
+        // __all__ might be composed of the __all__ of other files.
+        self.maybe_dunder_all = OnceLock::new();
         // The whole file is analyzed again, these would be added a second time.
         self.delayed_diagnostics.get_mut().unwrap().clear();
         if let Some(cache) = self.stub_cache.as_mut() {
-- 
2.43.0


From 6cb588e9591e9af5415d40b828280b44ef5aea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:06 +0000
Subject: [PATCH 34/68] fix: notice stubs and packages that are added next to
 an imported module

They take precedence over the module that was found, but the import was only
resolved again if nothing had been found.
---
 crates/zuban_python/src/imports.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zuban_python/src/imports.rs b/crates/zuban_python/src/imports.rs
index 370ba65..0314a12 100644
--- a/crates/zuban_python/src/imports.rs
+++ b/crates/zuban_python/src/imports.rs
@@ -453,6 +453,14 @@ pub fn python_import_with_needs_exact_case<'x>(
         if let Some((file_entry, file_index)) = stub_file_index.take().or(python_file_index.take())
         {
             file_entry.add_invalidation(from_file.file_index);
+            // Stubs and packages have a higher priority if they are added later.
+            let mut add_missing = dir.add_missing_entry_callback(from_file.file_index);
+            if check_stubs {
+                add_missing(&name_pyi);
+            }
+            if !had_namespace_dir {
+                add_missing(name);
+            }
             return Some(ImportResult::File(file_index));
         }
         let mut add_missing = dir.add_missing_entry_callback(from_file.file_index);
-- 
2.43.0


From 1ba2e4c0805ab67715a8c3003aad64f7db5f2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:47 +0000
Subject: [PATCH 35/68] fix: add the issues of a function only once

A query in a function (goto, completion, ...) before the first diagnostics of
its file caused issues like missing return statements to be reported twice.
---
 crates/zuban_python/src/database.rs         | 13 +++++++++++++
 crates/zuban_python/src/file/diagnostics.rs |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/crates/zuban_python/src/database.rs b/crates/zuban_python/src/database.rs
index 61ab4cb..bfa1f89 100644
--- a/crates/zuban_python/src/database.rs
+++ b/crates/zuban_python/src/database.rs
@@ -61,6 +61,8 @@ const KIND_MASK: u32 = 0b111 << KIND_BIT_INDEX;
 
 const FUNCTION_CHECKED_INDEX: u32 = SPECIFIC_BIT_LEN + 1;
 const FUNCTION_CHECKED_MASK: u32 = 1 << FUNCTION_CHECKED_INDEX;
+const FUNCTION_DIAGNOSTICS_ADDED_INDEX: u32 = SPECIFIC_BIT_LEN + 2;
+const FUNCTION_DIAGNOSTICS_ADDED_MASK: u32 = 1 << FUNCTION_DIAGNOSTICS_ADDED_INDEX;
 
 const PARTIAL_NULLABLE_INDEX: u32 = SPECIFIC_BIT_LEN + 1;
 const PARTIAL_NULLABLE_MASK: u32 = 1 << PARTIAL_NULLABLE_INDEX;
@@ -331,6 +333,17 @@ impl Point {
         self
     }
 
+    pub fn function_diagnostics_were_added(self) -> bool {
+        debug_assert!(self.specific().is_function_state());
+        (self.flags & FUNCTION_DIAGNOSTICS_ADDED_MASK) > 0
+    }
+
+    pub fn set_added_function_diagnostics(mut self) -> Self {
+        debug_assert!(self.specific().is_function_state());
+        self.flags |= FUNCTION_DIAGNOSTICS_ADDED_MASK;
+        self
+    }
+
     pub fn partial_flags(self) -> PartialFlags {
         debug_assert!(self.specific().is_partial(), "{:?}", self);
         PartialFlags {
diff --git a/crates/zuban_python/src/file/diagnostics.rs b/crates/zuban_python/src/file/diagnostics.rs
index 3519c66..3c2ee31 100644
--- a/crates/zuban_python/src/file/diagnostics.rs
+++ b/crates/zuban_python/src/file/diagnostics.rs
@@ -1538,6 +1538,15 @@ impl Inference<'_, '_, '_> {
     fn calc_func_diagnostics(&self, function: Function) -> Result<(), ()> {
         self.ensure_calculated_function_body(function)?;
 
+        // The rest is not cached and would otherwise add the same issues multiple times, e.g. if
+        // the function is first checked because of goto and after that because of diagnostics.
+        let body_ref = NodeRef::new(self.file, function.node().body().index());
+        let body_point = body_ref.point();
+        if body_point.function_diagnostics_were_added() {
+            return Ok(());
+        }
+        body_ref.set_point(body_point.set_added_function_diagnostics());
+
         let i_s = self.i_s;
 
         let (name_def, type_params, params, return_annotation, body) = function.node().unpack();
-- 
2.43.0


From dc58f8f55af9dfb0b3914d774a69728124ed2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:32 +0000
Subject: [PATCH 36/68] fix: accept UTF-16 columns at the end of lines with
 astral characters

The column was compared with the number of characters instead of code units.
---
 crates/zuban_python/src/lines.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/lines.rs b/crates/zuban_python/src/lines.rs
index fa3f16e..4c0f1f3 100644
--- a/crates/zuban_python/src/lines.rs
+++ b/crates/zuban_python/src/lines.rs
@@ -199,9 +199,7 @@ impl NewlineIndices {
 fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePositionInfos> {
     let mut utf16_count = 0;
 
-    let mut char_indices_counter = 0;
     for (utf8_idx, c) in s.char_indices() {
-        char_indices_counter += 1;
         if utf16_count == utf16_pos {
             return Ok(BytePositionInfos {
                 byte: utf8_idx as CodeIndex,
@@ -219,7 +217,7 @@ fn utf16_to_utf8_byte_offset(s: &str, utf16_pos: usize) -> anyhow::Result<BytePo
     }
     Ok(BytePositionInfos {
         byte: s.len() as CodeIndex,
-        column_out_of_bounds: utf16_pos > char_indices_counter,
+        column_out_of_bounds: utf16_pos > utf16_count,
     })
 }
 
-- 
2.43.0


From 0b43e64e2fcce21726bde557b45c93c2cb8b9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:16 +0000
Subject: [PATCH 37/68] fix: do not use the lines of the old text after a
 change of the whole document

Changes after it were applied at wrong positions or caused a panic.
---
 crates/zuban_python/src/lsp_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/lsp_utils.rs b/crates/zuban_python/src/lsp_utils.rs
index 8e3b9cf..5bab9ef 100644
--- a/crates/zuban_python/src/lsp_utils.rs
+++ b/crates/zuban_python/src/lsp_utils.rs
@@ -13,11 +13,14 @@ pub(crate) fn apply_document_changes(
 ) -> anyhow::Result<String> {
     // If at least one of the changes is a full document change, use the last
     // of them as the starting point and ignore all previous changes.
+    let mut line_indices = Cow::Borrowed(line_indices);
     let (mut text, content_changes) = match content_changes
         .iter()
         .rposition(|change| change.range.is_none())
     {
         Some(idx) => {
+            // The lines of the old text are meaningless for the new one.
+            line_indices = Cow::Owned(NewlineIndices::new());
             let text = std::mem::take(&mut content_changes[idx].text);
             (text, &content_changes[idx + 1..])
         }
@@ -27,7 +30,6 @@ pub(crate) fn apply_document_changes(
         return Ok(text);
     }
 
-    let mut line_indices = Cow::Borrowed(line_indices);
     // The changes we got must be applied sequentially, but can cross lines so we
     // have to keep our line index updated.
     // Some clients (e.g. Code) sort the ranges in reverse. As an optimization, we
-- 
2.43.0


From 0f920b3722ee717f1d3c8e7ab334178199d45f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:41 +0000
Subject: [PATCH 38/68] fix: comparisons remove None although the other side
 can be None

---
 crates/zuban_python/src/file/flow_analysis.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index fa9e7cf..021b50d 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -1502,8 +1502,9 @@ fn narrow_is_or_eq(
                     .any(|t| matches!(t, Type::None))
                 {
                     let (_, falsey) = split_off_singleton(i_s, checking_t, &Type::None, is_eq);
-                    if falsey.is_simple_sub_type_of(i_s, other_t).bool()
-                        || falsey.is_simple_super_type_of(i_s, other_t).bool()
+                    if !Type::None.is_simple_sub_type_of(i_s, other_t).bool()
+                        && (falsey.is_simple_sub_type_of(i_s, other_t).bool()
+                            || falsey.is_simple_super_type_of(i_s, other_t).bool())
                     {
                         return Some((Frame::from_type(key, falsey), Frame::new_conditional()));
                     }
-- 
2.43.0


From 388b7e60e7d7531ef1c5a3d1e6ce806b2a4f34c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:41 +0000
Subject: [PATCH 39/68] fix: a comparison chain narrows its negation although
 another part can fail

---
 crates/zuban_python/src/file/flow_analysis.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 021b50d..8262540 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -4177,6 +4177,9 @@ impl<'file> Inference<'_, 'file, '_> {
     fn find_guards_in_comparisons(&self, comps: Comparisons) -> Option<FramesWithParentUnions> {
         FLOW_ANALYSIS.with(|fa| {
             let mut frames: Option<FramesWithParentUnions> = None;
+            // If one of the parts of a chain is not a guard it can be the reason for the chain to
+            // be falsey.
+            let mut has_unknown_part = false;
             let mut iterator = comps.iter().peekable();
             let mut left_infos = self.comparison_part_infos(iterator.peek().unwrap().left());
             while let Some(comparison) = iterator.next() {
@@ -4237,6 +4240,7 @@ impl<'file> Inference<'_, 'file, '_> {
                             // See for example testInferFromEmptyListWhenUsingInWithStrictEquality,
                             // which has a TODO.
                             left_infos = right_infos;
+                            has_unknown_part = true;
                             continue;
                         }
                         self.guard_of_in_operator(op, &mut left_infos, &right_infos)
@@ -4272,6 +4276,7 @@ impl<'file> Inference<'_, 'file, '_> {
                                 &right_infos.inf,
                             );
                             left_infos = right_infos;
+                            has_unknown_part = true;
                             continue;
                         }
                     }
@@ -4282,10 +4287,14 @@ impl<'file> Inference<'_, 'file, '_> {
                     }
                     frames = Some(fa.merge_conjunction(self.i_s, frames, new));
                 } else {
+                    has_unknown_part = true;
                     self.infer_comparison_part(comparison, left_infos.inf, &right_infos.inf);
                 }
                 left_infos = right_infos
             }
+            if has_unknown_part && let Some(frames) = &mut frames {
+                frames.falsey = Frame::new_conditional();
+            }
             frames
         })
     }
@@ -5451,7 +5460,9 @@ fn find_comparison_chain_guards(
                 if i == k {
                     continue;
                 }
-                if let Some(new) = check_for_comparison_guard(i_s, part1, &part2.inf, is_eq) {
+                if let Some(mut new) = check_for_comparison_guard(i_s, part1, &part2.inf, is_eq) {
+                    // A chain can also be falsey because of one of the other comparisons.
+                    new.falsey = Frame::new_conditional();
                     frames = Some(fa.merge_conjunction(i_s, frames, new));
                     continue 'outer;
                 }
-- 
2.43.0


From 718d7578ab0b84f202620cd6a08a549d6a6fa4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:42 +0000
Subject: [PATCH 40/68] fix: type(x) is type(y) makes reachable code
 unreachable

---
 crates/zuban_python/src/file/flow_analysis.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 8262540..17174bf 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -5516,7 +5516,8 @@ fn check_for_comparison_guard(
                 };
                 let inf_t = inf.as_cow_type(i_s);
                 if !truthy.is_simple_sub_type_of(i_s, &inf_t).bool() {
-                    truthy = Type::Never(NeverCause::Other);
+                    // The other side can be any subclass, e.g. in `type(x) is type(y)`.
+                    (truthy, _) = split_and_intersect(i_s, &inf_t, base_truthy, |_| false);
                 }
                 Some(FramesWithParentUnions {
                     truthy: Frame::from_type(key.clone(), truthy),
-- 
2.43.0


From 593fe4f9472acc794dbc691961d8c3323bbc1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:40 +0000
Subject: [PATCH 41/68] fix: an exception before a narrowing in the try block
 is forgotten in except blocks

---
 crates/zuban_python/src/file/flow_analysis.rs | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index 17174bf..e550573 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -407,6 +407,8 @@ struct TryFrame {
     // This is true only when an explicit AttributeError is provided and not when e.g.
     // BaseException or Exception is caught.
     ignores_attribute_error: bool,
+    // The number of frames that existed when the try block started.
+    outer_frame_count: usize,
 }
 
 #[derive(Debug, Default)]
@@ -705,7 +707,11 @@ impl FlowAnalysis {
             // If we have a key that narrows in our ancestors, we either add it to an existing
             // one or push a new one.
             if !add_entry_to_try_frame(&new) {
-                try_frame.entries.push(new)
+                // Exceptions can also happen before the name was narrowed in the try block.
+                let count = try_frame.outer_frame_count;
+                try_frame
+                    .entries
+                    .push(self.merge_key_with_entry_in_first_frames(i_s, &new, count))
             }
         }
 
@@ -778,8 +784,17 @@ impl FlowAnalysis {
         i_s: &InferenceState,
         search_for: &Entry,
     ) -> Entry {
-        self.frames
-            .borrow()
+        self.merge_key_with_entry_in_first_frames(i_s, search_for, usize::MAX)
+    }
+
+    fn merge_key_with_entry_in_first_frames(
+        &self,
+        i_s: &InferenceState,
+        search_for: &Entry,
+        frame_count: usize,
+    ) -> Entry {
+        let frames = self.frames.borrow();
+        frames[..frame_count.min(frames.len())]
             .iter()
             .rev()
             .find_map(|frame| {
@@ -952,6 +967,7 @@ impl FlowAnalysis {
         self.try_frames.borrow_mut().push(TryFrame {
             entries: vec![],
             ignores_attribute_error,
+            outer_frame_count: self.frames.borrow().len(),
         });
         callable();
         Frame {
-- 
2.43.0


From 8ef2f46f6a74d50d9380653dc93cf48b2b7b6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:40 +0000
Subject: [PATCH 42/68] fix: the end of a while loop uses the types from before
 the loop for its condition

---
 crates/zuban_python/src/file/flow_analysis.rs | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/file/flow_analysis.rs b/crates/zuban_python/src/file/flow_analysis.rs
index e550573..ee20f07 100644
--- a/crates/zuban_python/src/file/flow_analysis.rs
+++ b/crates/zuban_python/src/file/flow_analysis.rs
@@ -2193,6 +2193,10 @@ impl<'file> Inference<'_, 'file, '_> {
         assign_for_stmt_names: impl FnOnce(),
     ) {
         FLOW_ANALYSIS.with(|fa| {
+            let points_before_condition = self
+                .file
+                .points
+                .backup(if_expr.map_or(block.index(), |e| e.index())..block.index());
             let (true_frame, false_frame) = if let Some(if_expr) = if_expr {
                 let (_, truthy, falsey) = self.find_guards_in_named_expr(if_expr);
                 (truthy, falsey)
@@ -2206,8 +2210,24 @@ impl<'file> Inference<'_, 'file, '_> {
             for continue_frame in loop_details.continue_frames {
                 after_frame = fa.merge_or(self.i_s, after_frame, continue_frame, false);
             }
-            if if_expr.is_some() {
-                after_frame = merge_and(self.i_s, after_frame, false_frame.clone());
+            if let Some(if_expr) = if_expr {
+                // The condition is evaluated again after the block, which might have reassigned
+                // the names in there.
+                let points = &self.file.points;
+                let range = if_expr.index()..block.index();
+                let first_points = points.backup(range.clone());
+                points.reset_from_backup(&points_before_condition);
+                let mut falsey = Frame::new_conditional();
+                after_frame = fa.with_frame(after_frame, || {
+                    self.i_s.avoid_errors_within(|i_s| {
+                        (_, _, falsey) = self
+                            .file
+                            .inference(i_s)
+                            .find_guards_in_named_expr(if_expr);
+                    });
+                });
+                points.reset_from_backup(&first_points);
+                after_frame = merge_and(self.i_s, after_frame, falsey);
             }
             // When we have a loop we need to merge with the statements before, because the
             // loop is not guaranteed to start.
-- 
2.43.0


From 6ce01e1c2aaa3c813105a25032b6766adfd6b372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 43/68] fix: a tuple of arbitrary length can be multiplied with
 anything

---
 crates/zuban_python/src/type_/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_/tuple.rs b/crates/zuban_python/src/type_/tuple.rs
index 6740344..a29910e 100644
--- a/crates/zuban_python/src/type_/tuple.rs
+++ b/crates/zuban_python/src/type_/tuple.rs
@@ -882,7 +882,8 @@ fn tuple_mul_internal<'db>(
                 ts.iter().cycle().take(int * ts.len()).cloned().collect(),
             ))))
         }),
-        TupleArgs::ArbitraryLen(_) => Some(Inferred::from_type(Type::Tuple(tuple))),
+        // The definition in typeshed checks the argument and returns the same tuple.
+        TupleArgs::ArbitraryLen(_) => None,
         TupleArgs::WithUnpack(_) => {
             debug!("TODO How do we multiply with unpack tuples?");
             None
-- 
2.43.0


From ed7c151813abc154fc45a64649ea57a9bd68c30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 44/68] fix: debug assertion fails for the @ operator with int
 literals

---
 crates/zuban_python/src/type_/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_/operations.rs b/crates/zuban_python/src/type_/operations.rs
index 25603c0..2fb0fd5 100644
--- a/crates/zuban_python/src/type_/operations.rs
+++ b/crates/zuban_python/src/type_/operations.rs
@@ -1081,7 +1081,10 @@ fn int_operations(
         "&" => Some(left & right),
         "^" => Some(left ^ right),
         _ => {
-            debug_assert!(matches!(operand, ">" | ">=" | "<" | "<="), "{operand}");
+            debug_assert!(
+                matches!(operand, "@" | ">" | ">=" | "<" | "<="),
+                "{operand}"
+            );
             return None;
         }
     };
-- 
2.43.0


From ae8886158bbe4c520e232da92515f810b0dd1a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:14 +0000
Subject: [PATCH 45/68] fix: hovering the parameters of an unfinished function
 panics

---
 crates/parsa_python_cst/src/lib.rs         | 6 ++++--
 crates/zuban_python/src/heuristic_infer.rs | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/parsa_python_cst/src/lib.rs b/crates/parsa_python_cst/src/lib.rs
index df7037d..7b611dc 100644
--- a/crates/parsa_python_cst/src/lib.rs
+++ b/crates/parsa_python_cst/src/lib.rs
@@ -4698,8 +4698,10 @@ impl<'db> NameDef<'db> {
         ) {
             None
         } else {
-            let par = parent.parent_until(&[Nonterminal(function_def)]).unwrap();
-            Some(FunctionDef::new(par))
+            let par =
+                parent.parent_until(&[Nonterminal(function_def), ErrorNonterminal(function_def)])?;
+            par.is_type(Nonterminal(function_def))
+                .then(|| FunctionDef::new(par))
         }
     }
 
diff --git a/crates/zuban_python/src/heuristic_infer.rs b/crates/zuban_python/src/heuristic_infer.rs
index e3f70d5..aaf1ee4 100644
--- a/crates/zuban_python/src/heuristic_infer.rs
+++ b/crates/zuban_python/src/heuristic_infer.rs
@@ -264,7 +264,8 @@ impl<'db, 'state> HeuristicInference<'db, 'state, '_> {
                 }
                 match name_def.expect_type() {
                     TypeLike::ParamName(_) => {
-                        let func_node = name.expect_as_param_of_function();
+                        // Functions that are not finished in broken code are not functions
+                        let func_node = name_def.maybe_parent_function_of_param()?;
                         let func_node_ref =
                             FuncNodeRef::new(self.inference.file, func_node.index());
                         let func = Function::new_with_unknown_parent(
-- 
2.43.0


From 8126223c671ae7ac3972783a9af16ec4f7e9f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 46/68] fix: Issues in the first argument of isinstance() were
 not reported outside of conditions

---
 crates/zuban_python/src/type_helpers/instance.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_helpers/instance.rs b/crates/zuban_python/src/type_helpers/instance.rs
index 0410a3a..e496db1 100644
--- a/crates/zuban_python/src/type_helpers/instance.rs
+++ b/crates/zuban_python/src/type_helpers/instance.rs
@@ -1011,13 +1011,18 @@ fn execute_isinstance_or_issubclass<'db>(
     args: &dyn Args<'db>,
     issubclass: bool,
 ) -> Inferred {
-    if let Some((_, node_ref2)) = args.maybe_two_positional_args(i_s)
+    if let Some((node_ref1, node_ref2)) = args.maybe_two_positional_args(i_s)
         && node_ref2
             .file
             .inference(i_s)
             .check_isinstance_or_issubclass_type(node_ref2.expect_named_expression(), issubclass)
             .is_some()
     {
+        // The first argument can have any type, but there can be issues in it.
+        node_ref1
+            .file
+            .inference(i_s)
+            .infer_named_expression(node_ref1.expect_named_expression());
         return Inferred::from_type(i_s.db.python_state.bool_type());
     };
     let original_func_ref = match issubclass {
-- 
2.43.0


From 46894bab66ec7afe31417bfc2eaa576fb90d125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 47/68] fix: Renaming a package produced a nonsensical path,
 its directory is renamed now

---
 crates/zuban_python/src/lib.rs | 50 ++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/crates/zuban_python/src/lib.rs b/crates/zuban_python/src/lib.rs
index 357c44e..c4cfd38 100644
--- a/crates/zuban_python/src/lib.rs
+++ b/crates/zuban_python/src/lib.rs
@@ -38,7 +38,7 @@ mod utils;
 
 use std::{cell::OnceCell, path::Path};
 
-use ::utils::FastHashMap;
+use ::utils::{FastHashMap, FastHashSet};
 use anyhow::bail;
 use completion::CompletionResolver;
 pub use completion::{Completion, CompletionItemKind};
@@ -497,29 +497,34 @@ impl<'db> FileRename<'db, '_> {
         self.from
     }
 
+    /// The file of the module, or the directory of a package
     pub fn from_uri(&self) -> String {
-        self.from.as_uri()
+        let mut uri = self.from.as_uri();
+        let path = Path::new(&uri);
+        if path.file_stem().is_some_and(|stem| stem == "__init__")
+            && let Some(parent) = path.parent()
+        {
+            let len = parent.as_os_str().len();
+            uri.truncate(len);
+        }
+        uri
     }
 
     pub fn to_uri(&self) -> String {
+        let is_package = Path::new(&self.from.as_uri())
+            .file_stem()
+            .is_some_and(|stem| stem == "__init__");
         let mut uri = self.from_uri();
         let path = Path::new(&uri);
-        let mut parent = path.parent().unwrap();
-        let old_name = path.file_stem().unwrap().to_str().unwrap();
-        let extension = path.extension().unwrap().to_str().unwrap().to_string();
-        let mut maybe_init = "".to_string();
-        if old_name == "__init__"
-            && let Some(par_parent) = parent.parent()
-        {
-            parent = par_parent;
-            maybe_init = format!("{old_name}/")
-        }
-        uri.truncate(parent.as_os_str().len());
+        let parent_len = path.parent().unwrap().as_os_str().len();
+        let extension = path.extension().map(|e| e.to_str().unwrap().to_string());
+        uri.truncate(parent_len);
         uri.push('/');
         uri += self.new_name;
-        uri += &maybe_init;
-        uri.push('.');
-        uri += &extension;
+        if !is_package && let Some(extension) = extension {
+            uri.push('.');
+            uri += &extension;
+        }
         uri
     }
 }
@@ -530,10 +535,15 @@ impl<'db> RenameChanges<'db, '_> {
     }
 
     pub fn renames(&self) -> impl Iterator<Item = FileRename<'db, '_>> {
-        self.file_renames.iter().map(|from| FileRename {
-            from,
-            new_name: self.new_name,
-        })
+        let mut seen = FastHashSet::default();
+        self.file_renames
+            .iter()
+            .map(|from| FileRename {
+                from,
+                new_name: self.new_name,
+            })
+            // A package can have both an __init__.py and an __init__.pyi
+            .filter(move |rename| seen.insert(rename.from_uri()))
     }
 }
 
-- 
2.43.0


From f3a74517b19f17fd2c21db6a5417bec9965496f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 48/68] fix: References of names that are imported through more
 than one re-export were not found

---
 crates/zuban_python/src/goto.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/zuban_python/src/goto.rs b/crates/zuban_python/src/goto.rs
index fb6bddc..1a85301 100644
--- a/crates/zuban_python/src/goto.rs
+++ b/crates/zuban_python/src/goto.rs
@@ -983,8 +983,22 @@ fn to_unique_position(n: &Name) -> (FileIndex, usize) {
     (n.file().file_index, n.name_range().0.byte_position)
 }
 
-fn follow_goto_if_necessary<'db, 'x>(name: Name<'db, '_>, on_name: &mut impl FnMut(Name<'db, '_>)) {
+fn follow_goto_if_necessary<'db>(name: Name<'db, '_>, on_name: &mut impl FnMut(Name<'db, '_>)) {
+    follow_goto(name, &mut vec![], on_name)
+}
+
+fn follow_goto<'db>(
+    name: Name<'db, '_>,
+    // Imports can be cyclic
+    already_followed: &mut Vec<(FileIndex, usize)>,
+    on_name: &mut dyn FnMut(Name<'db, '_>),
+) {
+    let position = to_unique_position(&name);
     let mut check_name = |tree_name: &TreeName<'db>, start| {
+        if already_followed.contains(&position) {
+            return;
+        }
+        already_followed.push(position);
         GotoResolver::new(
             PositionalDocument::for_goto(
                 tree_name.db,
@@ -993,17 +1007,7 @@ fn follow_goto_if_necessary<'db, 'x>(name: Name<'db, '_>, on_name: &mut impl FnM
             )
             .unwrap(),
             GotoGoal::Indifferent,
-            |n: Name<'db, '_>| {
-                if let Name::TreeName(new) = n
-                    && let Name::TreeName(old) = n
-                    && new.cst_name.index() == old.cst_name.index()
-                    && new.file.file_index == old.file.file_index
-                {
-                    on_name(n)
-                } else {
-                    follow_goto_if_necessary(n, on_name)
-                }
-            },
+            |n: Name<'db, '_>| follow_goto(n, already_followed, on_name),
         )
         .goto_name(false);
     };
-- 
2.43.0


From 091922fd3aa576195130bf3a6d475fb18cee7f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 49/68] fix: References of attributes that are defined on self
 were not found in other files

---
 crates/zuban_python/src/goto.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/goto.rs b/crates/zuban_python/src/goto.rs
index 1a85301..225843f 100644
--- a/crates/zuban_python/src/goto.rs
+++ b/crates/zuban_python/src/goto.rs
@@ -806,7 +806,10 @@ impl<'db, C: FnMut(Name<'db, '_>) -> T, T> ReferencesResolver<'db, C, T> {
                             only_reachable: true,
                             current: Some(tree_name.parent_scope),
                         };
-                        !scopes.any(|s| matches!(s, Scope::Function(_) | Scope::Lambda(_)))
+                        // Attributes like self.foo are defined in functions, but reachable
+                        tree_name.cst_name.name_def().is_some_and(|name_def| {
+                            matches!(name_def.parent(), NameDefParent::Primary)
+                        }) || !scopes.any(|s| matches!(s, Scope::Function(_) | Scope::Lambda(_)))
                     }
                     _ => true,
                 };
-- 
2.43.0


From 3aeb28ac0683df7588f0f256c1ce704f19e0f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:50 +0000
Subject: [PATCH 50/68] fix: Renaming the alias of an import renamed the
 imported definition

---
 crates/zuban_python/src/goto.rs | 115 ++++++++++++++++++++------------
 1 file changed, 71 insertions(+), 44 deletions(-)

diff --git a/crates/zuban_python/src/goto.rs b/crates/zuban_python/src/goto.rs
index 225843f..d651d95 100644
--- a/crates/zuban_python/src/goto.rs
+++ b/crates/zuban_python/src/goto.rs
@@ -792,14 +792,14 @@ impl<'db, C: FnMut(Name<'db, '_>) -> T, T> ReferencesResolver<'db, C, T> {
         //  1. Find the original definition
 
         let mut definition_results = vec![];
-        GotoResolver::new2(self.infos.clone(), GotoGoal::Indifferent, |n| {
-            follow_goto_if_necessary(n, &mut |name| {
-                if !self.definitions.is_empty() {
-                    // This is an import, definitions were already added
-                    return;
-                }
+        let mut on_definition = |name: Name<'db, '_>| {
+            if !self.definitions.is_empty() {
+                // This is an import, definitions were already added
+                return;
+            }
 
-                is_globally_reachable |= match &name {
+            is_globally_reachable |=
+                match &name {
                     Name::TreeName(tree_name) => {
                         let mut scopes = ScopesIterator {
                             file: name.file(),
@@ -814,48 +814,59 @@ impl<'db, C: FnMut(Name<'db, '_>) -> T, T> ReferencesResolver<'db, C, T> {
                     _ => true,
                 };
 
-                let other = if name.in_stub() {
-                    name.goto_non_stub()
-                } else {
-                    name.goto_stub()
-                };
+            let other = if name.in_stub() {
+                name.goto_non_stub()
+            } else {
+                name.goto_stub()
+            };
+            self.definitions.insert(to_unique_position(&name));
+            let mut add_definitions = |name| {
                 self.definitions.insert(to_unique_position(&name));
-                let mut add_definitions = |name| {
-                    self.definitions.insert(to_unique_position(&name));
-                    let should_add = include_declarations
-                        && (!matches!(goal, ReferencesGoal::OnlyCurrentFile)
-                            || include_declarations
-                                && name.file().file_index == self.infos.file.file_index);
-                    if should_add {
-                        definition_results.push((self.on_result)(name));
-                    }
-                    // Add the other definitions (there may be multiple ones for e.g. narrowing
-                    // or overloads)
-                    if let Name::TreeName(n) = name {
-                        let p = n.file.points.get(n.cst_name.index());
-                        if p.maybe_calculated_and_specific() == Some(Specific::FirstNameOfNameDef) {
-                            for name_index in
-                                OtherDefinitionIterator::new(&n.file.points, n.cst_name.index())
-                            {
-                                let new_name = Name::TreeName(TreeName {
-                                    cst_name: CSTName::by_index(&n.file.tree, name_index),
-                                    ..n
-                                });
-                                self.definitions.insert(to_unique_position(&new_name));
-                                if should_add {
-                                    definition_results.push((self.on_result)(new_name));
-                                }
+                let should_add = include_declarations
+                    && (!matches!(goal, ReferencesGoal::OnlyCurrentFile)
+                        || include_declarations
+                            && name.file().file_index == self.infos.file.file_index);
+                if should_add {
+                    definition_results.push((self.on_result)(name));
+                }
+                // Add the other definitions (there may be multiple ones for e.g. narrowing
+                // or overloads)
+                if let Name::TreeName(n) = name {
+                    let p = n.file.points.get(n.cst_name.index());
+                    if p.maybe_calculated_and_specific() == Some(Specific::FirstNameOfNameDef) {
+                        for name_index in
+                            OtherDefinitionIterator::new(&n.file.points, n.cst_name.index())
+                        {
+                            let new_name = Name::TreeName(TreeName {
+                                cst_name: CSTName::by_index(&n.file.tree, name_index),
+                                ..n
+                            });
+                            self.definitions.insert(to_unique_position(&new_name));
+                            if should_add {
+                                definition_results.push((self.on_result)(new_name));
                             }
                         }
                     }
-                };
-                if let Some(other) = other {
-                    add_definitions(other);
                 }
-                add_definitions(name);
-            });
-        })
-        .goto_name(false);
+            };
+            if let Some(other) = other {
+                add_definitions(other);
+            }
+            add_definitions(name);
+        };
+        if is_renaming_import(on_name) {
+            // The definition is the name that the import introduces and not what is imported.
+            on_definition(Name::TreeName(TreeName::with_unknown_parent_scope(
+                db,
+                self.infos.file,
+                on_name,
+            )));
+        } else {
+            GotoResolver::new2(self.infos.clone(), GotoGoal::Indifferent, |n| {
+                follow_goto_if_necessary(n, &mut on_definition);
+            })
+            .goto_name(false);
+        }
 
         if self.definitions.is_empty() {
             if on_name.name_def().is_some() {
@@ -982,6 +993,22 @@ impl<'db, C: FnMut(Name<'db, '_>) -> T, T> ReferencesResolver<'db, C, T> {
     }
 }
 
+fn is_renaming_import(name: CSTName) -> bool {
+    match name.name_def().and_then(|name_def| name_def.maybe_import()) {
+        Some(NameImportParent::ImportFromAsName(as_name)) => {
+            let (imported, name_def) = as_name.unpack();
+            imported.as_code() != name_def.as_code()
+        }
+        Some(NameImportParent::DottedAsName(dotted)) => match dotted.unpack() {
+            DottedAsNameContent::Simple(..) => false,
+            DottedAsNameContent::WithAs(imported, name_def) => {
+                imported.as_code() != name_def.as_code()
+            }
+        },
+        None => false,
+    }
+}
+
 fn to_unique_position(n: &Name) -> (FileIndex, usize) {
     (n.file().file_index, n.name_range().0.byte_position)
 }
-- 
2.43.0


From a3437aba852bd67bc8f816fda6cce4663b135fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 51/68] fix: Panic when inferring an invalid annotation like
 list[int]()

---
 crates/zuban_python/src/inferred.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/inferred.rs b/crates/zuban_python/src/inferred.rs
index 0a9e1d5..8330682 100644
--- a/crates/zuban_python/src/inferred.rs
+++ b/crates/zuban_python/src/inferred.rs
@@ -12,8 +12,9 @@ use crate::{
     debug,
     diagnostics::IssueKind,
     file::{
-        ANNOTATION_TO_EXPR_DIFFERENCE, ClassNodeRef, PythonFile, maybe_saved_annotation,
-        on_argument_type_error, should_add_deprecated, use_cached_annotation_or_type_comment,
+        ANNOTATION_TO_EXPR_DIFFERENCE, ClassNodeRef, PythonFile, expect_class_or_simple_generic,
+        maybe_saved_annotation, on_argument_type_error, should_add_deprecated,
+        use_cached_annotation_or_type_comment,
     },
     format_data::FormatData,
     getitem::SliceType,
@@ -3125,6 +3126,10 @@ pub fn specific_to_type<'db>(
         Specific::BuiltinsSentinel => {
             Cow::Owned(Type::Type(Arc::new(i_s.db.python_state.sentinel_type())))
         }
+        // Happens when an invalid annotation like x: list[int]() is inferred
+        Specific::SimpleGeneric => Cow::Owned(Type::Type(Arc::new(
+            expect_class_or_simple_generic(i_s.db, definition).into_owned(),
+        ))),
         actual => unreachable!("{actual:?}"),
     }
 }
-- 
2.43.0


From e532e2afcdd799c68c7e1e574cfb8c7760fbba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:37 +0000
Subject: [PATCH 52/68] fix: Panic for unpacked tuples of *args with errors in
 them

---
 crates/zuban_python/src/type_helpers/function.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/zuban_python/src/type_helpers/function.rs b/crates/zuban_python/src/type_helpers/function.rs
index a69b225..f834a8a 100644
--- a/crates/zuban_python/src/type_helpers/function.rs
+++ b/crates/zuban_python/src/type_helpers/function.rs
@@ -2300,13 +2300,14 @@ impl<'x> Param<'x> for FunctionParam<'x> {
                             unreachable!()
                         };
                         match &tup.args {
-                            // This case is handled earlier and functions should also be changed to
-                            // callables in that case.
-                            TupleArgs::FixedLen(..) => unreachable!(),
                             TupleArgs::ArbitraryLen(t) => {
                                 WrappedStar::ArbitraryLen(Some(Cow::Borrowed(t.as_ref())))
                             }
-                            TupleArgs::WithUnpack(_) => WrappedStar::UnpackedTuple(tup.clone()),
+                            // Fixed lengths are normally handled earlier, because functions are
+                            // changed to callables in that case.
+                            TupleArgs::WithUnpack(_) | TupleArgs::FixedLen(_) => {
+                                WrappedStar::UnpackedTuple(tup.clone())
+                            }
                         }
                     }
                     None => WrappedStar::ArbitraryLen(None),
-- 
2.43.0


From 5ffd27c3fdbef369b02d2307ae41f70e62b66586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:44 +0000
Subject: [PATCH 53/68] fix: global statements in generic classes did not find
 names that are defined later

---
 crates/zuban_python/src/file/name_binder.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/zuban_python/src/file/name_binder.rs b/crates/zuban_python/src/file/name_binder.rs
index 130e59b..e40cd1f 100644
--- a/crates/zuban_python/src/file/name_binder.rs
+++ b/crates/zuban_python/src/file/name_binder.rs
@@ -88,6 +88,8 @@ pub(crate) struct NameBinder<'db> {
     unresolved_nodes: Vec<Unresolved<'db>>,
     names_to_be_resolved_in_parent: Vec<Name<'db>>,
     unsaved_classes: Vec<UnsavedClass<'db>>,
+    // The names of global statements that are processed before the global definition
+    unresolved_globals: Vec<Name<'db>>,
     annotation_names: Vec<AnnotationName<'db>>,
     following_nodes_need_flow_analysis: bool,
     latest_return_or_yield: NodeIndex,
@@ -110,6 +112,7 @@ impl<'db> NameBinder<'db> {
             unresolved_nodes: vec![],
             names_to_be_resolved_in_parent: vec![],
             unsaved_classes: vec![],
+            unresolved_globals: vec![],
             annotation_names: vec![],
             following_nodes_need_flow_analysis: false,
             latest_return_or_yield: 0,
@@ -125,6 +128,15 @@ impl<'db> NameBinder<'db> {
         func(&mut binder);
         binder.close();
 
+        for name in std::mem::take(&mut binder.unresolved_globals) {
+            if let Some(i) = binder.symbol_table.lookup_symbol(name.as_code()) {
+                binder.db_infos.points.set(
+                    name.index() - GLOBAL_NONLOCAL_TO_NAME_DIFFERENCE,
+                    Point::new_redirect(binder.db_infos.file_index, i, Locality::NameBinder),
+                );
+            }
+        }
+
         while let Some(unresolved_class) = binder.unsaved_classes.pop() {
             let class_index = unresolved_class.class_def.index();
             let self_symbol_table = binder.index_self_vars(class_index, unresolved_class.class_def);
@@ -178,10 +190,12 @@ impl<'db> NameBinder<'db> {
             names_to_be_resolved_in_parent,
             annotation_names,
             unsaved_classes,
+            unresolved_globals,
             symbol_table,
             ..
         } = name_binder;
         self.unsaved_classes.extend(unsaved_classes);
+        self.unresolved_globals.extend(unresolved_globals);
         self.unresolved_nodes.extend(
             names_to_be_resolved_in_parent
                 .into_iter()
@@ -1194,6 +1208,7 @@ impl<'db> NameBinder<'db> {
                                                 Locality::NameBinder,
                                             )
                                         } else {
+                                            self.unresolved_globals.push(name);
                                             Point::new_uncalculated()
                                         };
                                         self.db_infos.points.set(
-- 
2.43.0


From b5e992b733f789057c8667f3659b2ce8f089e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:00 +0000
Subject: [PATCH 54/68] fix: a global statement on module level that is the
 only definition leads to a stack overflow

---
 crates/zuban_python/src/file/name_binder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/file/name_binder.rs b/crates/zuban_python/src/file/name_binder.rs
index e40cd1f..7d00d11 100644
--- a/crates/zuban_python/src/file/name_binder.rs
+++ b/crates/zuban_python/src/file/name_binder.rs
@@ -130,9 +130,16 @@ impl<'db> NameBinder<'db> {
 
         for name in std::mem::take(&mut binder.unresolved_globals) {
             if let Some(i) = binder.symbol_table.lookup_symbol(name.as_code()) {
+                let point = if i == name.index() {
+                    // A global statement on module level, that is an error and would otherwise
+                    // define the variable by itself.
+                    Point::new_specific(Specific::AnyDueToError, Locality::NameBinder)
+                } else {
+                    Point::new_redirect(binder.db_infos.file_index, i, Locality::NameBinder)
+                };
                 binder.db_infos.points.set(
                     name.index() - GLOBAL_NONLOCAL_TO_NAME_DIFFERENCE,
-                    Point::new_redirect(binder.db_infos.file_index, i, Locality::NameBinder),
+                    point,
                 );
             }
         }
-- 
2.43.0


From 76a1df2c344a71f35de25d8dc63df38139e81db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:07 +0000
Subject: [PATCH 55/68] fix: nonlocal statements do not find variables of
 functions outside of the enclosing classes

---
 crates/zuban_python/src/file/name_binder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/zuban_python/src/file/name_binder.rs b/crates/zuban_python/src/file/name_binder.rs
index 7d00d11..5c7dfbe 100644
--- a/crates/zuban_python/src/file/name_binder.rs
+++ b/crates/zuban_python/src/file/name_binder.rs
@@ -1494,6 +1494,9 @@ impl<'db> NameBinder<'db> {
                 {
                     return Some(NonlocalParent::TypeParam);
                 }
+            } else if matches!(parent.kind, NameBinderKind::Class) {
+                // The names in class bodies are not visible in the scopes within
+                return parent.lookup_nonlocal_in_parents(name);
             } else if !matches!(parent.kind, NameBinderKind::Function { .. }) {
                 self.add_issue(
                     name.index(),
-- 
2.43.0


From 8614eb3e40db9fc7339174da28732331df039526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 56/68] fix: a keyword argument for an already filled parameter
 was accepted by **kwargs

---
 crates/zuban_python/src/params.rs | 40 ++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/crates/zuban_python/src/params.rs b/crates/zuban_python/src/params.rs
index d4f6713..2d03916 100644
--- a/crates/zuban_python/src/params.rs
+++ b/crates/zuban_python/src/params.rs
@@ -1058,6 +1058,9 @@ pub(crate) struct InferrableParamIterator<'db, 'a, I, P, AI: Iterator> {
     pub unused_keyword_arguments: Vec<Arg<'db, 'a>>,
     current_starred_param: Option<P>,
     current_double_starred_param: Option<P>,
+    // Params that can be passed by keyword and already have an argument.
+    filled_params: Vec<P>,
+    keyword_arguments_of_filled_params: Vec<Arg<'db, 'a>>,
     pub too_many_positional_arguments: bool,
     arbitrary_length_handled: bool,
     pub unused_unpack_typed_dict: UnpackTypedDictState,
@@ -1073,6 +1076,8 @@ impl<'db, 'a, I, P, AI: Iterator<Item = Arg<'db, 'a>>> InferrableParamIterator<'
             unused_keyword_arguments: vec![],
             current_starred_param: None,
             current_double_starred_param: None,
+            filled_params: vec![],
+            keyword_arguments_of_filled_params: vec![],
             too_many_positional_arguments: false,
             arbitrary_length_handled: true,
             unused_unpack_typed_dict: UnpackTypedDictState::Used,
@@ -1231,16 +1236,29 @@ where
                         self.too_many_positional_arguments = true;
                     }
                 }
-            } else if let Some(argument) = self
-                .maybe_exact_multi_arg(true)
-                .or_else(|| self.unused_keyword_arguments.pop())
-            {
-                return Some(InferrableParam {
-                    param,
-                    argument: ParamArgument::Argument(argument),
-                });
             } else {
+                while let Some(argument) = self
+                    .maybe_exact_multi_arg(true)
+                    .or_else(|| self.unused_keyword_arguments.pop())
+                {
+                    if let Some(key) = argument.keyword_name(self.db)
+                        && self
+                            .filled_params
+                            .iter()
+                            .any(|p| p.name(self.db) == Some(key))
+                    {
+                        // This is the second a in `foo(1, a=1)`
+                        self.keyword_arguments_of_filled_params.push(argument);
+                        continue;
+                    }
+                    return Some(InferrableParam {
+                        param,
+                        argument: ParamArgument::Argument(argument),
+                    });
+                }
                 self.current_double_starred_param = None;
+                self.unused_keyword_arguments
+                    .append(&mut self.keyword_arguments_of_filled_params);
             }
         }
         let check_unused = |self_: &mut Self, param: P| {
@@ -1375,6 +1393,12 @@ where
                 return self.next();
             }
         }
+        if let Some(arg) = &argument_with_index
+            && !arg.in_args_or_kwargs_and_arbitrary_len()
+            && param.kind(self.db) != ParamKind::PositionalOnly
+        {
+            self.filled_params.push(param);
+        }
         Some(
             argument_with_index
                 .map(|a| InferrableParam {
-- 
2.43.0


From 27bd38139aab2ea9c9d16f19347c9b6eeeefa084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 57/68] fix: a ** argument was lost after keyword arguments if
 there is a *args parameter

---
 crates/zuban_python/src/params.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/params.rs b/crates/zuban_python/src/params.rs
index 2d03916..4726103 100644
--- a/crates/zuban_python/src/params.rs
+++ b/crates/zuban_python/src/params.rs
@@ -1137,7 +1137,12 @@ impl<'db, 'a, I, P, AI: Iterator<Item = Arg<'db, 'a>>> InferrableParamIterator<'
                     self.current_arg = None;
                     return self.maybe_exact_multi_arg(is_keyword_arg);
                 }
-                self.current_arg = Some(arg);
+                if self.current_arg.is_some() && !arg.in_args_or_kwargs_and_arbitrary_len() {
+                    // This is y in `foo(**x, y=3)`, x can still be used for other params.
+                    self.unused_keyword_arguments.push(arg);
+                } else {
+                    self.current_arg = Some(arg);
+                }
                 None
             }
         })
-- 
2.43.0


From d5f829e8325df0330917a250273f7c0bffab3d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 58/68] fix: dataclass fields overridden with init=False stayed
 in __init__

---
 crates/zuban_python/src/type_/dataclass.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_/dataclass.rs b/crates/zuban_python/src/type_/dataclass.rs
index f38ba80..817800b 100644
--- a/crates/zuban_python/src/type_/dataclass.rs
+++ b/crates/zuban_python/src/type_/dataclass.rs
@@ -414,7 +414,7 @@ fn calculate_init_of_dataclass(db: &Database, dataclass: &Arc<Dataclass>) -> Ini
     // want the original order in an enum.
     with_indexes.sort_by_key(|w| w.name_index);
 
-    let mut non_init_fields = vec![];
+    let mut non_init_fields: Vec<DbString> = vec![];
     let mut had_kw_only_marker = false;
     for infos in with_indexes.into_iter() {
         match infos.t {
@@ -476,6 +476,11 @@ fn calculate_init_of_dataclass(db: &Database, dataclass: &Arc<Dataclass>) -> Ini
             }
         }
     }
+    // A field with init=False might replace a field of a base class that is part of __init__.
+    params.retain(|param| {
+        let name = param.name.as_ref().unwrap().as_str(db);
+        !non_init_fields.iter().any(|n| n.as_str(db) == name)
+    });
     let mut latest_default_issue = None;
     for (prev_param, (i, next_param)) in params.iter().zip(params.iter().enumerate().skip(1)) {
         if next_param.type_.param_kind() == ParamKind::PositionalOrKeyword
-- 
2.43.0


From be8c77dddd78545227baf5e65aa27426a00f4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 59/68] fix: dataclass fields overridden with a different
 kw_only kept their place in __init__

---
 crates/zuban_python/src/type_/dataclass.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zuban_python/src/type_/dataclass.rs b/crates/zuban_python/src/type_/dataclass.rs
index 817800b..6a95634 100644
--- a/crates/zuban_python/src/type_/dataclass.rs
+++ b/crates/zuban_python/src/type_/dataclass.rs
@@ -226,6 +226,7 @@ fn calculate_init_of_dataclass(db: &Database, dataclass: &Arc<Dataclass>) -> Ini
                 _ => unreachable!(),
             }
         }
+        let mut replaces = None;
         for (i, param) in params.iter_mut().enumerate() {
             if first_kwarg.is_none()
                 && param.type_.param_kind() == ParamKind::KeywordOnly
@@ -236,16 +237,24 @@ fn calculate_init_of_dataclass(db: &Database, dataclass: &Arc<Dataclass>) -> Ini
             if param.name.as_ref().unwrap().as_str(db)
                 == new_param.name.as_ref().unwrap().as_str(db)
             {
-                *param = new_param;
-                return false;
+                if param.type_.param_kind() == new_param.type_.param_kind() {
+                    *param = new_param;
+                    return false;
+                }
+                replaces = Some(i);
+                break;
             }
         }
+        if let Some(index) = replaces {
+            // Keyword-only params are always after the other ones.
+            params.remove(index);
+        }
         if let Some(index) = first_kwarg {
             params.insert(index, new_param);
         } else {
             params.push(new_param)
         }
-        true
+        replaces.is_none()
     };
 
     let class_symbol_table = &cls.class_storage.class_symbol_table;
-- 
2.43.0


From 851b0eb6521c9a6e22c1776917f3f6b2407dc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 60/68] fix: a __getattr__ of the metaclass took precedence
 over class variables

---
 crates/zuban_python/src/type_helpers/class.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/crates/zuban_python/src/type_helpers/class.rs b/crates/zuban_python/src/type_helpers/class.rs
index 3cbe702..af9e3d9 100644
--- a/crates/zuban_python/src/type_helpers/class.rs
+++ b/crates/zuban_python/src/type_helpers/class.rs
@@ -847,15 +847,14 @@ impl<'db: 'a, 'a> Class<'a> {
                 MetaclassState::None if ignore_no_metaclass => return LookupDetails::none(),
                 _ => {
                     let instance = Instance::new(class_infos.metaclass(i_s.db), None);
-                    instance.lookup(
-                        i_s,
-                        name,
-                        InstanceLookupOptions::new(options.add_issue).with_as_self_instance(
-                            options
-                                .as_type_type
-                                .unwrap_or(&|| self.as_type_type(i_s.db)),
-                        ),
-                    )
+                    let as_type_type = || self.as_type_type(i_s.db);
+                    let mut instance_options = InstanceLookupOptions::new(options.add_issue)
+                        .with_as_self_instance(options.as_type_type.unwrap_or(&as_type_type));
+                    if ignore_no_metaclass {
+                        // The attribute exists on the class, so __getattr__ is never called.
+                        instance_options = instance_options.with_no_check_dunder_getattr();
+                    }
+                    instance.lookup(i_s, name, instance_options)
                 }
             };
             if matches!(&metaclass_result.lookup, LookupResult::None) && self.incomplete_mro(i_s.db)
-- 
2.43.0


From d03b98191fd3885574f5929472fb68a67c5ee168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:58 +0000
Subject: [PATCH 61/68] fix: inconsistent method resolution orders with three
 bases were accepted

---
 .../src/file/type_computation/class.rs        | 41 +++++++++++--------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/crates/zuban_python/src/file/type_computation/class.rs b/crates/zuban_python/src/file/type_computation/class.rs
index e1473a3..ecefeac 100644
--- a/crates/zuban_python/src/file/type_computation/class.rs
+++ b/crates/zuban_python/src/file/type_computation/class.rs
@@ -2091,10 +2091,7 @@ pub fn linearize_mro_and_return_linearizable(
             linearizable = false;
         }
     }
-    let to_base_class = |base_index: usize,
-                         is_direct_base,
-                         new_base: &BaseToBeAdded,
-                         allowed_to_use: &mut usize| {
+    let to_base_class = |base_index: usize, is_direct_base, new_base: &BaseToBeAdded| {
         BaseClass {
             type_: if new_base.needs_remapping {
                 new_base
@@ -2137,7 +2134,6 @@ pub fn linearize_mro_and_return_linearizable(
                     })
                     .unwrap_or_else(|| new_base.t.as_ref().clone())
             } else {
-                *allowed_to_use += 1;
                 new_base.t.as_ref().clone()
             },
             is_direct_base,
@@ -2173,11 +2169,21 @@ pub fn linearize_mro_and_return_linearizable(
             .peekable()
         })
         .collect();
-    // Signals how many of the base_iterators we can use.
-    let mut allowed_to_use = 1;
     'outer: loop {
         let mut had_entry = false;
-        for base_index in 0..allowed_to_use.min(bases.len()) {
+        // The direct bases that are not part of the MRO, yet. The order of them needs to be
+        // preserved.
+        let remaining_bases: Vec<_> = base_iterators
+            .iter_mut()
+            .zip(bases)
+            .filter_map(|(base_bases, base)| {
+                base_bases
+                    .peek()
+                    .is_some_and(|(i, _)| *i == 0)
+                    .then_some(base)
+            })
+            .collect();
+        for base_index in 0..bases.len() {
             if let Some((i, candidate)) = base_iterators[base_index].peek().cloned() {
                 had_entry = true;
                 let conflicts = base_iterators.iter().any(|base_bases| {
@@ -2185,18 +2191,18 @@ pub fn linearize_mro_and_return_linearizable(
                         .clone()
                         .skip(1)
                         .any(|(_, other)| to_base_kind(&candidate.t) == to_base_kind(&other.t))
-                });
+                }) || remaining_bases
+                    .iter()
+                    .skip(1)
+                    .any(|other| to_base_kind(&candidate.t) == to_base_kind(other));
                 if !conflicts {
                     let is_non_object = candidate.t.as_ref() != &object;
                     for (skip_index, base_bases) in base_iterators.iter_mut().enumerate() {
-                        base_bases.next_if(|(other_index, next)| {
-                            if *other_index == 0 {
-                                allowed_to_use += 1;
-                            }
+                        base_bases.next_if(|(_, next)| {
                             let skip = to_base_kind(&candidate.t) == to_base_kind(&next.t);
                             if skip && skip_index != base_index && is_non_object {
-                                let new = to_base_class(base_index, false, &candidate, &mut 0);
-                                let other = to_base_class(skip_index, false, next, &mut 0);
+                                let new = to_base_class(base_index, false, &candidate);
+                                let other = to_base_class(skip_index, false, next);
                                 if !new
                                     .type_
                                     .is_equal_type_where_any_matches_all(db, &other.type_)
@@ -2214,8 +2220,7 @@ pub fn linearize_mro_and_return_linearizable(
                         });
                     }
                     if is_non_object {
-                        let new =
-                            to_base_class(base_index, i == 0, &candidate, &mut allowed_to_use);
+                        let new = to_base_class(base_index, i == 0, &candidate);
                         mro.push(new);
                     };
                     continue 'outer;
@@ -2236,7 +2241,7 @@ pub fn linearize_mro_and_return_linearizable(
                 // there.
                 if mro.iter().any(|b| &b.type_ == type_.t.as_ref()) {
                     if type_.t.as_ref() != &object {
-                        let new = to_base_class(base_index, i == 0, &type_, &mut allowed_to_use);
+                        let new = to_base_class(base_index, i == 0, &type_);
                         mro.push(new);
                     };
                 }
-- 
2.43.0


From 1061bfe0c8b3474bf21ec585d205e9685298502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:46 +0000
Subject: [PATCH 62/68] fix: a tuple with an unpacked part was accepted where
 more elements are required before or after it

---
 crates/zuban_python/src/type_/matching.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/zuban_python/src/type_/matching.rs b/crates/zuban_python/src/type_/matching.rs
index b40ced4..15ac07a 100644
--- a/crates/zuban_python/src/type_/matching.rs
+++ b/crates/zuban_python/src/type_/matching.rs
@@ -1271,6 +1271,20 @@ fn match_unpack_internal(
                     )
                 }
                 TupleUnpack::ArbitraryLen(inner_t1) => {
+                    if with_unpack1.before.len() > with_unpack2.before.len()
+                        || with_unpack1.after.len() > with_unpack2.after.len()
+                    {
+                        // The other tuple might not be long enough
+                        match &with_unpack2.unpack {
+                            TupleUnpack::ArbitraryLen(inner_t2) if inner_t2.is_any() => (),
+                            _ => {
+                                if let Some(on_too_few_args) = on_too_few_args {
+                                    on_too_few_args()
+                                }
+                                return Match::new_false();
+                            }
+                        }
+                    }
                     for (i, t2) in before2_it.enumerate() {
                         matches &= check_type(matcher, inner_t1, t2, i as isize);
                     }
-- 
2.43.0


From 8f8eb96afe8d875797772d6810491a928df7f4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 63/68] fix: an enum was not accepted for a union of literals
 with all of its members

---
 crates/zuban_python/src/type_/matching.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_/matching.rs b/crates/zuban_python/src/type_/matching.rs
index 15ac07a..d95e7b7 100644
--- a/crates/zuban_python/src/type_/matching.rs
+++ b/crates/zuban_python/src/type_/matching.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use super::{
-    CallableContent, ClassGenerics, FunctionOverload, Tuple, Type, TypeVarKind, TypeVarLike,
+    CallableContent, ClassGenerics, Enum, FunctionOverload, Tuple, Type, TypeVarKind, TypeVarLike,
     UnionType, WithUnpack,
 };
 use crate::{
@@ -654,6 +654,15 @@ impl Type {
             {
                 Match::new_true()
             }
+            Type::Enum(e2)
+                if !e2.members.is_empty()
+                    && Enum::implicit_members(e2).all(|m2| {
+                        u1.iter()
+                            .any(|t1| matches!(t1, Type::EnumMember(m1) if m1.is_same_member(&m2)))
+                    }) =>
+            {
+                Match::new_true()
+            }
             _ => {
                 if let Type::TypeVar(type_var2) = value_type {
                     if matcher.is_matching_reverse() {
-- 
2.43.0


From 52a8bf073fdbb8ab15814451cbb1ab0193f270a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:23 +0000
Subject: [PATCH 64/68] fix: defaults of keyword-only params were compared with
 the wrong params

---
 crates/zuban_python/src/params.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/zuban_python/src/params.rs b/crates/zuban_python/src/params.rs
index 4726103..3f12063 100644
--- a/crates/zuban_python/src/params.rs
+++ b/crates/zuban_python/src/params.rs
@@ -199,7 +199,9 @@ fn matches_simple_params_part2<
                 );
                 return matches;
             }
+            // Keyword-only params are not matched by their position, see below.
             if param1.has_default()
+                && param1.kind(i_s.db) != ParamKind::KeywordOnly
                 && !(param2.has_default()
                     || matches!(
                         specific2,
@@ -369,6 +371,13 @@ fn matches_simple_params_part2<
                         _ => {
                             for (i, p2) in unused_keyword_params.iter().enumerate() {
                                 if param1.name(i_s.db) == p2.name(i_s.db) {
+                                    if param1.has_default() && !p2.has_default() {
+                                        debug!(
+                                            "Params mismatch, because the keyword param \
+                                                has no default"
+                                        );
+                                        return Match::new_false();
+                                    }
                                     match unused_keyword_params.remove(i).specific(i_s.db) {
                                         WrappedParamType::KeywordOnly(t2)
                                         | WrappedParamType::PositionalOrKeyword(t2) => {
@@ -386,6 +395,13 @@ fn matches_simple_params_part2<
                                     match &param2.specific(i_s.db) {
                                         WrappedParamType::PositionalOrKeyword(t2)
                                         | WrappedParamType::KeywordOnly(t2) => {
+                                            if param1.has_default() && !param2.has_default() {
+                                                debug!(
+                                                    "Params mismatch, because the keyword param \
+                                                        has no default"
+                                                );
+                                                return Match::new_false();
+                                            }
                                             matches &= match_(i_s, matcher, t1, t2);
                                             found = true;
                                             break;
-- 
2.43.0


From b1eba00ac2a7c7b61b630d7ff41257649b003d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:37 +0000
Subject: [PATCH 65/68] fix: a **kwargs param could only be used for one
 keyword param after other keyword params

---
 crates/zuban_python/src/params.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/params.rs b/crates/zuban_python/src/params.rs
index 3f12063..7a4161d 100644
--- a/crates/zuban_python/src/params.rs
+++ b/crates/zuban_python/src/params.rs
@@ -423,8 +423,7 @@ fn matches_simple_params_part2<
                                             break;
                                         };
                                         matches &= match_(i_s, matcher, t1, &vt);
-                                        found = true;
-                                        break;
+                                        continue 'p1_iter;
                                     }
                                     ParamKind::Star => {
                                         params2.next();
-- 
2.43.0


From 1d0299a9496aeb1a9d07fda458b48d88b6674ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:37 +0000
Subject: [PATCH 66/68] fix: a callable with optional params before *args was
 not accepted for one with *args only

---
 crates/zuban_python/src/params.rs | 46 +++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/crates/zuban_python/src/params.rs b/crates/zuban_python/src/params.rs
index 7a4161d..4129887 100644
--- a/crates/zuban_python/src/params.rs
+++ b/crates/zuban_python/src/params.rs
@@ -179,6 +179,7 @@ fn matches_simple_params_part2<
     let mut unused_keyword_params: Vec<P2> = vec![];
     let mut mismatched_name_pos_params1: Vec<P1> = vec![];
     let mut mismatched_name_pos_params2: Vec<P2> = vec![];
+    let mut params2_before_star: Vec<P2> = vec![];
     let mut previous_arbitrary_len_match = None;
 
     let mut matches = Match::new_true();
@@ -348,6 +349,13 @@ fn matches_simple_params_part2<
                     }
                 },
                 WrappedParamType::KeywordOnly(t1) => {
+                    if params2_before_star.iter().any(|p2| {
+                        p2.kind(i_s.db) == ParamKind::PositionalOrKeyword
+                            && p2.name(i_s.db) == param1.name(i_s.db)
+                    }) {
+                        debug!("Params mismatch, because *args might fill the keyword param");
+                        return Match::new_false();
+                    }
                     if matches!(specific2, WrappedParamType::Star(_)) {
                         params2.next();
                         if let Some(p2) = params2.peek() {
@@ -447,6 +455,44 @@ fn matches_simple_params_part2<
                     matches &= matcher.match_or_add_param_spec(i_s, u1, params2, variance);
                     return matches;
                 }
+                WrappedParamType::Star(WrappedStar::ArbitraryLen(t1))
+                    if matches!(
+                        specific2,
+                        WrappedParamType::PositionalOnly(_)
+                            | WrappedParamType::PositionalOrKeyword(_)
+                    ) && params2
+                        .clone()
+                        .find(|p2| {
+                            !p2.has_default()
+                                || !matches!(
+                                    p2.kind(i_s.db),
+                                    ParamKind::PositionalOnly | ParamKind::PositionalOrKeyword
+                                )
+                        })
+                        .is_some_and(|p2| {
+                            matches!(
+                                p2.specific(i_s.db),
+                                WrappedParamType::Star(WrappedStar::ArbitraryLen(_))
+                            )
+                        }) =>
+                {
+                    // The additional params before *args are optional: (*args) = (x=..., *args)
+                    while let Some(p2) = params2.peek() {
+                        match p2.specific(i_s.db) {
+                            WrappedParamType::PositionalOnly(t2)
+                            | WrappedParamType::PositionalOrKeyword(t2) => {
+                                matches &= match_(i_s, matcher, t1, &t2)
+                            }
+                            WrappedParamType::Star(WrappedStar::ArbitraryLen(t2)) => {
+                                matches &= match_(i_s, matcher, t1, &t2);
+                                break;
+                            }
+                            _ => unreachable!(),
+                        }
+                        params2_before_star.extend(params2.next());
+                    }
+                    previous_arbitrary_len_match = Some(specific1);
+                }
                 WrappedParamType::Star(s1) => match &specific2 {
                     WrappedParamType::Star(s2) => match (s1, s2) {
                         (WrappedStar::ArbitraryLen(t1), WrappedStar::ArbitraryLen(t2)) => {
-- 
2.43.0


From f0702252ee5e1f6ae8563f5131b784cc69dbb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:39 +0000
Subject: [PATCH 67/68] fix: final and settable members were not accepted for
 read-only properties of protocols

---
 crates/zuban_python/src/type_helpers/class.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zuban_python/src/type_helpers/class.rs b/crates/zuban_python/src/type_helpers/class.rs
index af9e3d9..3b6d623 100644
--- a/crates/zuban_python/src/type_helpers/class.rs
+++ b/crates/zuban_python/src/type_helpers/class.rs
@@ -456,7 +456,8 @@ impl<'db: 'a, 'a> Class<'a> {
                             let m = protocol_t.matches(i_s, matcher, &t2, variance);
 
                             let is_final_mismatch = lookup_details.attr_kind == AttributeKind::Final
-                                && protocol_lookup_details.attr_kind != AttributeKind::Final;
+                                && protocol_lookup_details.attr_kind != AttributeKind::Final
+                                && !protocol_lookup_details.attr_kind.is_read_only_property();
 
                             let mut maybe_add_conflict_note = |notes: &mut Vec<_>| {
                                 if !had_conflict_note {
@@ -526,7 +527,9 @@ impl<'db: 'a, 'a> Class<'a> {
                             match_result &= m;
 
                             let proto_setter_type = protocol_lookup_details.attr_kind.property_setter_type();
-                            if other_setter_type.is_some() || proto_setter_type.is_some() {
+                            if (other_setter_type.is_some() || proto_setter_type.is_some())
+                                && !protocol_lookup_details.attr_kind.is_read_only_property()
+                            {
                                 let o_t = other_setter_type.unwrap_or(&t2);
                                 let p_t = proto_setter_type.unwrap_or(&protocol_t);
                                 if !p_t.is_sub_type_of(i_s, matcher, o_t).bool() {
-- 
2.43.0


From 16b7313d9b739571f954d7e79c6b974e0b4d0ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:39 +0000
Subject: [PATCH 68/68] fix: methods and class variables were accepted for
 settable members of protocols

---
 crates/zuban_python/src/type_helpers/class.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/zuban_python/src/type_helpers/class.rs b/crates/zuban_python/src/type_helpers/class.rs
index 3b6d623..a423717 100644
--- a/crates/zuban_python/src/type_helpers/class.rs
+++ b/crates/zuban_python/src/type_helpers/class.rs
@@ -553,6 +553,15 @@ impl<'db: 'a, 'a> Class<'a> {
 
                             if lookup_details.attr_kind.is_read_only_property()
                                 && !protocol_lookup_details.attr_kind.is_read_only_property()
+                                || matches!(
+                                    lookup_details.attr_kind,
+                                    AttributeKind::DefMethod { .. }
+                                        | AttributeKind::Classmethod { .. }
+                                        | AttributeKind::Staticmethod { .. }
+                                ) && matches!(
+                                    protocol_lookup_details.attr_kind,
+                                    AttributeKind::AnnotatedAttribute | AttributeKind::Attribute
+                                )
                             {
                                 mismatch = true;
                                 if mismatches < SHOW_MAX_MISMATCHES {
@@ -597,7 +606,8 @@ impl<'db: 'a, 'a> Class<'a> {
                             }
 
                             if matches!(lookup_details.attr_kind, AttributeKind::ClassVar)
-                               && !protocol_lookup_details.attr_kind.classvar_like()
+                               && (!protocol_lookup_details.attr_kind.classvar_like()
+                                   || proto_setter_type.is_some())
                                && other.maybe_class(i_s.db).is_some()
                             {
                                 mismatch = true;
-- 
2.43.0

