From 8c42f0e8aeadb38b79838a670a3938e25f03f372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:40 +0000
Subject: [PATCH 01/24] fix: parser step limit counts lookaheads since the last
 token, not since the start of the file

The limit guards against loops that make no progress, but it was never reset, so
any file needing more than 10000 lookaheads in total panicked.
---
 crates/parser/src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 3c2e1ba..5090d3b 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -264,6 +264,7 @@ impl<'t> Parser<'t> {
         for _ in 0..n_raw_tokens {
             self.lexer.bump();
         }
+        self.steps.set(0);
 
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
-- 
2.43.0


From 4c5e4f5bd32b6e4241af581e232d1b1d50a6c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 02/24] fix: error recovery in the parser always consumes a
 token

Loops over modules, items, fields, statements and parenthesised expressions
reported an error without moving on, so most invalid files ended in the
'parser seems stuck' panic and nothing was diagnosed.
---
 crates/parser/src/grammar.rs                  |  8 +++++--
 crates/parser/src/grammar/expressions.rs      |  4 ++++
 crates/parser/src/grammar/expressions/atom.rs |  2 +-
 crates/parser/src/grammar/items.rs            | 21 +++++++++++--------
 crates/parser/src/grammar/items/adt.rs        | 10 ++++-----
 5 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/crates/parser/src/grammar.rs b/crates/parser/src/grammar.rs
index 9cbdd23..23e1b7a 100644
--- a/crates/parser/src/grammar.rs
+++ b/crates/parser/src/grammar.rs
@@ -7,7 +7,7 @@ mod generic_params;
 mod patterns;
 
 use crate::grammar::expressions::{stmt, StmtWithSemi};
-use crate::grammar::items::{address, item, module, script};
+use crate::grammar::items::{address, item, module, script, TOP_LEVEL_ITEM_RECOVERY_SET};
 use crate::marker::CompletedMarker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -32,6 +32,10 @@ pub(crate) fn block_expr_unchecked(p: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn block_contents(p: &mut Parser) {
     while !(p.at(T!['}']) || p.at(EOF)) {
+        if p.at(T![')']) {
+            p.err_and_bump("unmatched `)`");
+            continue;
+        }
         stmt(p, StmtWithSemi::Optional);
     }
 }
@@ -72,7 +76,7 @@ pub(crate) fn root(p: &mut Parser) {
         } else if p.current().is_trivia() {
             p.bump_any()
         } else {
-            p.error("expected module or script");
+            p.error_and_skip_until("expected module or script", TOP_LEVEL_ITEM_RECOVERY_SET);
         }
     }
     m.complete(p, SOURCE_FILE);
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 73d4a3c..9e13b04 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -262,6 +262,10 @@ pub(super) fn expr_block_contents(p: &mut Parser) {
             p.bump(T![;]);
             continue;
         }
+        if p.at(T![')']) {
+            p.err_and_bump("unmatched `)`");
+            continue;
+        }
         stmt(p, StmtWithSemi::Yes)
     }
 }
diff --git a/crates/parser/src/grammar/expressions/atom.rs b/crates/parser/src/grammar/expressions/atom.rs
index 107b8bc..fd33437 100644
--- a/crates/parser/src/grammar/expressions/atom.rs
+++ b/crates/parser/src/grammar/expressions/atom.rs
@@ -146,7 +146,7 @@ fn paren_expr(p: &mut Parser) -> CompletedMarker {
     let m = p.start();
     p.expect(T!['(']);
 
-    while !p.at(EOF) && !p.at(T![')']) {
+    while !p.at(EOF) && !p.at(T![')']) && !p.at(T![;]) {
         // saw_expr = true;
 
         // test tuple_attrs
diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index 115059f..d9d94f8 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -3,7 +3,7 @@ mod adt;
 use crate::grammar::expressions::atom::bump_address;
 use crate::grammar::params::param_list;
 use crate::grammar::types::type_;
-use crate::grammar::{block_expr, name, name_r};
+use crate::grammar::{block_expr, error_block, name, name_r};
 use crate::marker::Marker;
 use crate::parser::Parser;
 use crate::SyntaxKind::{self, *};
@@ -85,7 +85,13 @@ pub(crate) fn address_item_list(p: &mut Parser) {
     p.bump(T!['{']);
 
     while !(p.at(T!['}']) || p.at(EOF)) {
-        module(p);
+        if p.at(T![module]) {
+            module(p);
+        } else if p.at(T!['{']) {
+            error_block(p, "expected a module");
+        } else {
+            p.err_and_bump("expected a module");
+        }
     }
     p.expect(T!['}']);
     m.complete(p, ADDRESS_ITEM_LIST);
@@ -117,14 +123,14 @@ pub(crate) fn item(p: &mut Parser) {
         Err(m) => m,
     };
     m.abandon(p);
-    // if p.at(T!['{']) {
-    //     error_block(p, "expected an item");
+    if p.at(T!['{']) {
+        error_block(p, "expected an item");
     // } else if p.at(T!['}']) && !stop_on_r_curly {
     //     let e = p.start();
     //     p.error("unmatched `}`");
     //     p.bump(T!['}']);
     //     e.complete(p, ERROR);
-    if !p.at(EOF) && !p.at(T!['}']) {
+    } else if !p.at(EOF) && !p.at(T!['}']) {
         p.err_and_bump("expected an item");
     } else {
         p.error("expected an item");
@@ -136,10 +142,7 @@ pub(crate) fn opt_item(p: &mut Parser, m: Marker) -> Result<(), Marker> {
     match p.current() {
         T![fun] => function_def(p, m),
         T![struct] => adt::struct_(p, m),
-        _ => {
-            p.error("expected an item");
-            m.complete(p, ERROR);
-        }
+        _ => return Err(m),
     }
     Ok(())
 }
diff --git a/crates/parser/src/grammar/items/adt.rs b/crates/parser/src/grammar/items/adt.rs
index 9c8bf6c..b5598dd 100644
--- a/crates/parser/src/grammar/items/adt.rs
+++ b/crates/parser/src/grammar/items/adt.rs
@@ -1,5 +1,5 @@
 use super::*;
-use crate::grammar::{generic_params, types};
+use crate::grammar::{error_block, generic_params, types};
 
 pub(crate) fn struct_(p: &mut Parser, m: Marker) {
     p.bump(T![struct]);
@@ -44,10 +44,10 @@ pub(crate) fn record_field_list(p: &mut Parser) {
     let m = p.start();
     p.bump(T!['{']);
     while !p.at(T!['}']) && !p.at(EOF) {
-        // if p.at(T!['{']) {
-        //     error_block(p, "expected field");
-        //     continue;
-        // }
+        if p.at(T!['{']) {
+            error_block(p, "expected field");
+            continue;
+        }
         record_field(p);
         if !p.at(T!['}']) {
             p.expect(T![,]);
-- 
2.43.0


From 4499e99c2fff30a6b72dbe7b64e9ac21670bfc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/24] fix: lexer accepts any text

Invalid characters and unclosed byte strings hit todo!(), and the length of a byte
string was counted in characters instead of bytes; both panicked on the diagnostics
thread. They are ERROR tokens now.
---
 crates/parser/src/grammar/items.rs |  2 +-
 crates/parser/src/lexer.rs         | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/grammar/items.rs b/crates/parser/src/grammar/items.rs
index d9d94f8..ac58856 100644
--- a/crates/parser/src/grammar/items.rs
+++ b/crates/parser/src/grammar/items.rs
@@ -68,7 +68,7 @@ pub(crate) fn module(p: &mut Parser) {
 
     if p.nth_at(1, T![::]) {
         address_ident_r(p, TokenSet::new(&[T![::]]));
-        p.bump(T![::]);
+        p.expect(T![::]);
     }
     name(p);
     if p.at(T!['{']) {
diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index cee1c4c..22b83b8 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -205,9 +205,9 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
                 match get_string_len(line) {
                     Some(last_quote) => (BYTE_STRING, 2 + last_quote + 1),
                     None => {
-                        todo!()
+                        // Missing closing quote: the literal extends to the end of the line
+                        (ERROR, 2 + line.len())
                         // let loc = make_loc(file, start_offset, start_offset + line.len() + 2);
-                        // return todo!()
                         // return Err(diag!(
                         //     if is_hex {
                         //         Syntax::InvalidHexString
@@ -307,9 +307,9 @@ pub fn find_token(text: &str) -> (SyntaxKind, usize) {
         '#' => (NUMSIGN, 1),
         '@' => (ATSIGN, 1),
         _ => {
-            todo!()
+            // Invalid character
+            (ERROR, c.len_utf8())
             // let loc = make_loc(file, start_offset, start_offset);
-            // return todo!()
             // return Err(diag!(
             //     Syntax::InvalidCharacter,
             //     (loc, format!("Invalid character: '{}'", c))
@@ -360,20 +360,20 @@ fn get_number_maybe_with_suffix(text: &str, num_text_len: usize) -> (SyntaxKind,
     }
 }
 
-// Return the length of the quoted string, or None if there is no closing quote.
+// Return the length in bytes of the quoted string, or None if there is no closing quote.
 fn get_string_len(text: &str) -> Option<usize> {
     let mut pos = 0;
     let mut iter = text.chars();
     while let Some(chr) = iter.next() {
         if chr == '\\' {
             // Skip over the escaped character (e.g., a quote or another backslash)
-            if iter.next().is_some() {
-                pos += 1;
+            if let Some(escaped) = iter.next() {
+                pos += escaped.len_utf8();
             }
         } else if chr == '"' {
             return Some(pos);
         }
-        pos += 1;
+        pos += chr.len_utf8();
     }
     None
 }
-- 
2.43.0


From c08cbd063f1b339363d224f00d6d2bbe01676d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:17 +0000
Subject: [PATCH 04/24] fix: files outside any configured root are local, so
 their diagnostics are published

---
 crates/move_language_server/src/reload.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/reload.rs b/crates/move_language_server/src/reload.rs
index 856c6b7..24313ba 100644
--- a/crates/move_language_server/src/reload.rs
+++ b/crates/move_language_server/src/reload.rs
@@ -65,12 +65,20 @@ impl GlobalState {
     }
 }
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct SourceRootConfig {
     pub(crate) fsc: FileSetConfig,
     pub(crate) local_filesets: Vec<usize>,
 }
 
+impl Default for SourceRootConfig {
+    /// No file set is configured, so every file belongs to the default one, which is local:
+    /// diagnostics are published for local files only.
+    fn default() -> Self {
+        SourceRootConfig { fsc: FileSetConfig::default(), local_filesets: vec![0] }
+    }
+}
+
 impl SourceRootConfig {
     pub fn partition(&self, vfs: &vfs::Vfs) -> Vec<SourceRoot> {
         self.fsc
-- 
2.43.0


From 8c67962c6eded529f9f88bc58c3f38fc7c5a8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 05/24] fix: drop diagnostics computed for an older state

---
 crates/move_language_server/src/global_state.rs |  3 +++
 crates/move_language_server/src/main_loop.rs    | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index c1b62e9..a93c068 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -47,6 +47,8 @@ pub(crate) struct GlobalState {
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
     pub(crate) diagnostics: DiagnosticCollection,
+    /// Number of diagnostics batches started; only results of the latest one are current.
+    pub(crate) diagnostics_generation: usize,
     pub(crate) mem_docs: MemDocs,
     pub(crate) shutdown_requested: bool,
     pub(crate) last_reported_status: Option<lsp_ext::ServerStatusParams>,
@@ -86,6 +88,7 @@ impl GlobalState {
             config: Arc::new(config),
             analysis_host,
             diagnostics: Default::default(),
+            diagnostics_generation: 0,
             mem_docs: MemDocs::default(),
             shutdown_requested: false,
             last_reported_status: None,
diff --git a/crates/move_language_server/src/main_loop.rs b/crates/move_language_server/src/main_loop.rs
index e6ae6ba..69cf9d9 100644
--- a/crates/move_language_server/src/main_loop.rs
+++ b/crates/move_language_server/src/main_loop.rs
@@ -77,7 +77,8 @@ impl fmt::Debug for Event {
 #[derive(Debug)]
 pub(crate) enum Task {
     Response(lsp_server::Response),
-    Diagnostics(Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
+    /// Diagnostics computed by the `usize`-th batch, see `GlobalState::diagnostics_generation`.
+    Diagnostics(usize, Vec<(FileId, Vec<lsp_types::Diagnostic>)>),
 }
 
 impl GlobalState {
@@ -150,9 +151,13 @@ impl GlobalState {
                 loop {
                     match task {
                         Task::Response(response) => self.respond(response),
-                        Task::Diagnostics(diagnostics_per_file) => {
-                            for (file_id, diagnostics) in diagnostics_per_file {
-                                self.diagnostics.set_native_diagnostics(file_id, diagnostics)
+                        Task::Diagnostics(generation, diagnostics_per_file) => {
+                            // A newer batch is on its way: these are for texts that have
+                            // changed since, don't let them pass for the current ones.
+                            if generation == self.diagnostics_generation {
+                                for (file_id, diagnostics) in diagnostics_per_file {
+                                    self.diagnostics.set_native_diagnostics(file_id, diagnostics)
+                                }
                             }
                         }
                     }
@@ -313,6 +318,8 @@ impl GlobalState {
 
         tracing::trace!("updating notifications for {:?}", subscriptions);
 
+        self.diagnostics_generation += 1;
+        let generation = self.diagnostics_generation;
         let snapshot = self.snapshot();
         self.task_pool.handle.spawn(move || {
             let diagnostics = subscriptions
@@ -329,7 +336,7 @@ impl GlobalState {
                         .map(|diags| (file_id, diags))
                 })
                 .collect::<Vec<_>>();
-            Task::Diagnostics(diagnostics)
+            Task::Diagnostics(generation, diagnostics)
         })
     }
 }
-- 
2.43.0


From 9a2ba17b9395cbde10e967eced963c8d6cffc609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 06/24] fix: published positions use the negotiated encoding

---
 crates/move_language_server/src/global_state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index a93c068..62286e6 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -7,7 +7,7 @@ use std::{sync::Arc, time::Instant};
 
 use crate::config::Config;
 use crate::diagnostics::DiagnosticCollection;
-use crate::line_index::{LineEndings, LineIndex, OffsetEncoding};
+use crate::line_index::{LineEndings, LineIndex};
 use crate::main_loop::Task;
 use crate::mem_docs::MemDocs;
 use crate::reload::SourceRootConfig;
@@ -65,6 +65,7 @@ pub(crate) struct GlobalState {
 
 /// An immutable snapshot of the world's state at a point in time.
 pub(crate) struct GlobalStateSnapshot {
+    pub(crate) config: Arc<Config>,
     pub(crate) analysis: Analysis,
     mem_docs: MemDocs,
     vfs: Arc<RwLock<(vfs::Vfs, FxHashMap<FileId, LineEndings>)>>,
@@ -155,6 +156,7 @@ impl GlobalState {
 
     pub(crate) fn snapshot(&self) -> GlobalStateSnapshot {
         GlobalStateSnapshot {
+            config: Arc::clone(&self.config),
             analysis: self.analysis_host.analysis(),
             vfs: Arc::clone(&self.vfs),
             mem_docs: self.mem_docs.clone(),
@@ -225,7 +227,7 @@ impl GlobalStateSnapshot {
     pub(crate) fn file_line_index(&self, file_id: FileId) -> Cancellable<LineIndex> {
         let endings = self.vfs.read().1[&file_id];
         let index = self.analysis.file_line_index(file_id)?;
-        let res = LineIndex { index, endings, encoding: OffsetEncoding::Utf8 };
+        let res = LineIndex { index, endings, encoding: self.config.offset_encoding() };
         Ok(res)
     }
 
-- 
2.43.0


From b6f9e7bce0f696c91756462d11529cd10648cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 07/24] fix: edits at positions outside the document are
 clamped as LSP prescribes

---
 crates/move_language_server/src/lsp_utils.rs | 37 ++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 687da3c..054de57 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -2,7 +2,9 @@
 use std::{error::Error, ops::Range, sync::Arc};
 
 use ide_db::base_db::Cancelled;
+use ide_db::LineCol;
 use lsp_server::Notification;
+use syntax::TextSize;
 
 use crate::{
     from_proto,
@@ -85,6 +87,14 @@ pub(crate) fn apply_document_changes(
                 if !index_valid.covers(range.end.line) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
+                let range = lsp_types::Range::new(
+                    clamp_position(old_text, &line_index, range.start),
+                    clamp_position(old_text, &line_index, range.end),
+                );
+                if range.start > range.end {
+                    tracing::error!("ignoring an edit of an inverted range: {:?}", range);
+                    continue;
+                }
                 index_valid = IndexValid::UpToLineExclusive(range.start.line);
                 let range = from_proto::text_range(&line_index, range);
                 old_text.replace_range(Range::<usize>::from(range), &change.text);
@@ -97,6 +107,33 @@ pub(crate) fn apply_document_changes(
     }
 }
 
+/// Moves a position that is not one of `text` to where it stands for: LSP allows a character past
+/// the end of its line, it means the end of that line. A line past the end of the text means the
+/// end of the text, and a position inside a character means the start of it.
+fn clamp_position(
+    text: &str,
+    line_index: &LineIndex,
+    position: lsp_types::Position,
+) -> lsp_types::Position {
+    let last_line = line_index.index.line_col(TextSize::of(text)).line;
+    let (line, max_character) = if position.line > last_line {
+        (last_line, u32::MAX)
+    } else {
+        (position.line, position.character)
+    };
+    let line_start: usize = line_index.index.offset(LineCol { line, col: 0 }).into();
+    let line_text = text[line_start..].lines().next().unwrap_or_default();
+    let mut character = 0;
+    for c in line_text.chars() {
+        let c_len = c.len_utf16() as u32;
+        if character + c_len > max_character {
+            break;
+        }
+        character += c_len;
+    }
+    lsp_types::Position::new(line, character)
+}
+
 /// Checks that the edits inside the completion and the additional edits do not overlap.
 /// LSP explicitly forbids the additional edits to overlap both with the main edit and themselves.
 pub(crate) fn all_edits_are_disjoint(
-- 
2.43.0


From 03c0f0102f6b75b9fe0f926cf3076da247bb0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:47 +0000
Subject: [PATCH 08/24] fix: notifications with malformed parameters are
 ignored

---
 crates/move_language_server/src/dispatch.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/move_language_server/src/dispatch.rs b/crates/move_language_server/src/dispatch.rs
index c39e2d3..e0412eb 100644
--- a/crates/move_language_server/src/dispatch.rs
+++ b/crates/move_language_server/src/dispatch.rs
@@ -229,10 +229,14 @@ impl<'a> NotificationDispatcher<'a> {
             Some(it) => it,
             None => return Ok(self),
         };
-        let params = match not.extract::<N::Params>(N::METHOD) {
+        if not.method != N::METHOD {
+            self.not = Some(not);
+            return Ok(self);
+        }
+        let params = match crate::from_json::<N::Params>(N::METHOD, not.params) {
             Ok(it) => it,
-            Err(not) => {
-                self.not = Some(not);
+            Err(err) => {
+                tracing::error!("ignoring an invalid notification: {}", err);
                 return Ok(self);
             }
         };
-- 
2.43.0


From fd53d1c7ce7ffcd0c41ace9295070d98d06d6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 09/24] fix: responses to requests never made are ignored

---
 crates/move_language_server/src/global_state.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/global_state.rs b/crates/move_language_server/src/global_state.rs
index 62286e6..aabfcb3 100644
--- a/crates/move_language_server/src/global_state.rs
+++ b/crates/move_language_server/src/global_state.rs
@@ -21,7 +21,7 @@ use ide_db::base_db::{Change, FileId};
 use lsp_types::{SemanticTokens, Url};
 use parking_lot::{Mutex, RwLock};
 use project_model::ProjectWorkspace;
-use rustc_hash::FxHashMap;
+use rustc_hash::{FxHashMap, FxHashSet};
 use vfs::AnchoredPathBuf;
 
 // Enforces drop order
@@ -43,6 +43,8 @@ pub(crate) type ReqQueue = lsp_server::ReqQueue<(String, Instant), ReqHandler>;
 pub(crate) struct GlobalState {
     sender: Sender<lsp_server::Message>,
     req_queue: ReqQueue,
+    /// Ids of our requests the client has not answered yet.
+    awaited_responses: FxHashSet<lsp_server::RequestId>,
     pub(crate) task_pool: Handle<TaskPool<Task>, Receiver<Task>>,
     pub(crate) config: Arc<Config>,
     pub(crate) analysis_host: AnalysisHost,
@@ -85,6 +87,7 @@ impl GlobalState {
         let mut this = GlobalState {
             sender,
             req_queue: ReqQueue::default(),
+            awaited_responses: FxHashSet::default(),
             task_pool,
             config: Arc::new(config),
             analysis_host,
@@ -169,9 +172,14 @@ impl GlobalState {
         handler: ReqHandler,
     ) {
         let request = self.req_queue.outgoing.register(R::METHOD.to_string(), params, handler);
+        self.awaited_responses.insert(request.id.clone());
         self.send(request.into());
     }
     pub(crate) fn complete_request(&mut self, response: lsp_server::Response) {
+        if !self.awaited_responses.remove(&response.id) {
+            tracing::error!("ignoring a response to no request of ours: {:?}", response);
+            return;
+        }
         let handler = self.req_queue.outgoing.complete(response.id.clone());
         handler(self, response)
     }
-- 
2.43.0


From dafcb0a19b3bd39501b19df363aefef9c8f0ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 10/24] fix: skipping trivia does not recurse

---
 crates/parser/src/lexer.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 22b83b8..6c09119 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -114,17 +114,17 @@ impl<'t> Lexer<'t> {
     }
 
     pub fn bump(&mut self) {
-        self.prev_end = self.cur_end;
-        let text = &self.text[self.cur_end..];
-        // let text = self.text[self.cur_end..].trim_start();
-        self.cur_start = self.text.len() - text.len();
-        let (kind, len) = find_token(text);
-        if kind.is_trivia() {
+        loop {
+            self.prev_end = self.cur_end;
+            let text = &self.text[self.cur_end..];
+            // let text = self.text[self.cur_end..].trim_start();
+            self.cur_start = self.text.len() - text.len();
+            let (kind, len) = find_token(text);
             self.advance_with_token(kind, len);
-            self.bump();
-            return;
+            if !kind.is_trivia() {
+                break;
+            }
         }
-        self.advance_with_token(kind, len);
         // self.cur_end = self.cur_start + len;
         // let token = Token::new(kind, len);
         // self.all_tokens.push(token.clone());
-- 
2.43.0


From baab13f008b8c37ad21b9fc389d5dca613642070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 11/24] fix: deeply nested text does not overflow the stack

The parser recurses for nested expressions, patterns and types, and trees are
dropped and compared recursively, so a long enough run of '(' or '+1' aborted
the whole server.
---
 crates/parser/src/event.rs               | 17 +++++++++++++++--
 crates/parser/src/grammar/expressions.rs | 10 ++++++++++
 crates/parser/src/grammar/patterns.rs    |  5 +++++
 crates/parser/src/grammar/types.rs       |  5 +++++
 crates/parser/src/parser.rs              | 21 ++++++++++++++++++++-
 5 files changed, 55 insertions(+), 3 deletions(-)

diff --git a/crates/parser/src/event.rs b/crates/parser/src/event.rs
index 007691e..95c389e 100644
--- a/crates/parser/src/event.rs
+++ b/crates/parser/src/event.rs
@@ -87,9 +87,14 @@ impl Event {
     }
 }
 
+/// Nodes nested deeper than this are left out of the tree (their tokens become the children of the
+/// enclosing node), as the tree is dropped and compared recursively.
+const MAX_TREE_DEPTH: usize = 2000;
+
 /// Generate the syntax tree with the control of events.
 pub fn process(sink: &mut dyn TreeSink, mut events: Vec<Event>) {
     let mut forward_parents = Vec::new();
+    let mut depth = 0;
 
     for i in 0..events.len() {
         match mem::replace(&mut events[i], Event::tombstone()) {
@@ -120,10 +125,18 @@ pub fn process(sink: &mut dyn TreeSink, mut events: Vec<Event>) {
                 }
 
                 for kind in forward_parents.drain(..).rev() {
-                    sink.start_node(kind);
+                    if depth < MAX_TREE_DEPTH {
+                        sink.start_node(kind);
+                    }
+                    depth += 1;
+                }
+            }
+            Event::Finish => {
+                depth -= 1;
+                if depth < MAX_TREE_DEPTH {
+                    sink.finish_node();
                 }
             }
-            Event::Finish => sink.finish_node(),
             Event::Token { kind, n_raw_tokens } => {
                 sink.token(kind, n_raw_tokens);
             }
diff --git a/crates/parser/src/grammar/expressions.rs b/crates/parser/src/grammar/expressions.rs
index 9e13b04..33e13dc 100644
--- a/crates/parser/src/grammar/expressions.rs
+++ b/crates/parser/src/grammar/expressions.rs
@@ -20,6 +20,16 @@ pub(super) fn expr(p: &mut Parser) -> Option<CompletedMarker> {
 
 // Parses expression with binding power of at least bp.
 fn expr_bp(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
+    if !p.enter() {
+        let end_tokens = TokenSet::new(&[T![;], T![')']]);
+        return Some(p.error_and_skip_until("expression is nested too deeply", end_tokens));
+    }
+    let expr = expr_bp_inner(p, bp);
+    p.leave();
+    expr
+}
+
+fn expr_bp_inner(p: &mut Parser, bp: u8) -> Option<CompletedMarker> {
     let mut lhs = lhs(p)?;
     loop {
         let (op_bp, op) = current_op(p);
diff --git a/crates/parser/src/grammar/patterns.rs b/crates/parser/src/grammar/patterns.rs
index 755475e..36476ba 100644
--- a/crates/parser/src/grammar/patterns.rs
+++ b/crates/parser/src/grammar/patterns.rs
@@ -47,6 +47,10 @@ fn tuple_pat(p: &mut Parser) {
 }
 
 pub(crate) fn pattern(p: &mut Parser) {
+    if !p.enter() {
+        p.err_recover("pattern is nested too deeply", PAT_RECOVERY_SET);
+        return;
+    }
     match p.current() {
         T![mut] => ident_pat(p),
         IDENT => match p.nth(1) {
@@ -63,6 +67,7 @@ pub(crate) fn pattern(p: &mut Parser) {
             p.err_recover("expected pattern", PAT_RECOVERY_SET);
         }
     };
+    p.leave();
 }
 
 const PAT_RECOVERY_SET: TokenSet =
diff --git a/crates/parser/src/grammar/types.rs b/crates/parser/src/grammar/types.rs
index 53b705c..708fe84 100644
--- a/crates/parser/src/grammar/types.rs
+++ b/crates/parser/src/grammar/types.rs
@@ -19,6 +19,10 @@ pub(super) fn ascription(p: &mut Parser) {
 }
 
 pub(crate) fn type_(p: &mut Parser) {
+    if !p.enter() {
+        p.err_recover("type is nested too deeply", TYPE_RECOVERY_SET);
+        return;
+    }
     let allow_bounds = false;
     match p.current() {
         T![&] => ref_type(p),
@@ -27,6 +31,7 @@ pub(crate) fn type_(p: &mut Parser) {
             p.err_recover("expected type", TYPE_RECOVERY_SET);
         }
     }
+    p.leave();
 }
 
 pub(crate) fn ref_type(p: &mut Parser) {
diff --git a/crates/parser/src/parser.rs b/crates/parser/src/parser.rs
index 5090d3b..130cdf5 100644
--- a/crates/parser/src/parser.rs
+++ b/crates/parser/src/parser.rs
@@ -24,11 +24,16 @@ pub(crate) struct Parser<'t> {
     pub(crate) lexer: &'t mut Lexer<'t>,
     pub(crate) events: Vec<Event>,
     pub(crate) steps: Cell<u32>,
+    /// How many recursive grammar rules are being parsed, see [`Parser::enter`].
+    depth: u32,
 }
 
+/// Expressions, patterns and types nested deeper than this are reported as an error, not parsed.
+const MAX_NESTING: u32 = 256;
+
 impl<'t> Parser<'t> {
     pub(super) fn new(lexer: &'t mut Lexer<'t>) -> Parser<'t> {
-        Parser { lexer, events: Vec::new(), steps: Cell::new(0) }
+        Parser { lexer, events: Vec::new(), steps: Cell::new(0), depth: 0 }
     }
 
     pub(crate) fn tokens(&mut self) -> Vec<Token> {
@@ -269,6 +274,20 @@ impl<'t> Parser<'t> {
         self.push_event(Event::Token { kind, n_raw_tokens });
     }
 
+    /// Enters a rule which can contain itself. Every `enter` that returns true is paired
+    /// with a `leave`; false means that the nesting is too deep to parse the rule.
+    pub(crate) fn enter(&mut self) -> bool {
+        if self.depth >= MAX_NESTING {
+            return false;
+        }
+        self.depth += 1;
+        true
+    }
+
+    pub(crate) fn leave(&mut self) {
+        self.depth -= 1;
+    }
+
     pub(crate) fn push_event(&mut self, event: Event) {
         self.events.push(event)
     }
-- 
2.43.0


From da9d79b36a74b1cc5eb5acae6bce03f7d9586cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 12/24] fix: an edit up to right after a line break includes
 the line break, as before

---
 crates/move_language_server/src/lsp_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 054de57..26c5257 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -109,7 +109,8 @@ pub(crate) fn apply_document_changes(
 
 /// Moves a position that is not one of `text` to where it stands for: LSP allows a character past
 /// the end of its line, it means the end of that line. A line past the end of the text means the
-/// end of the text, and a position inside a character means the start of it.
+/// end of the text, and a position inside a character means the start of it. The position right
+/// after the line break is kept, it is the start of the next line.
 fn clamp_position(
     text: &str,
     line_index: &LineIndex,
@@ -122,7 +123,12 @@ fn clamp_position(
         (position.line, position.character)
     };
     let line_start: usize = line_index.index.offset(LineCol { line, col: 0 }).into();
-    let line_text = text[line_start..].lines().next().unwrap_or_default();
+    let with_break = text[line_start..].split_inclusive('\n').next().unwrap_or_default();
+    let len_with_break: u32 = with_break.chars().map(|c| c.len_utf16() as u32).sum();
+    if line < last_line && max_character == len_with_break {
+        return lsp_types::Position::new(line + 1, 0);
+    }
+    let line_text = with_break.lines().next().unwrap_or_default();
     let mut character = 0;
     for c in line_text.chars() {
         let c_len = c.len_utf16() as u32;
-- 
2.43.0


From d71ef93c2eaafe9631031bba7331ba201472fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 13/24] fix: documents of other schemes are not taken for the
 file with the same path

---
 crates/move_language_server/src/from_proto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/move_language_server/src/from_proto.rs b/crates/move_language_server/src/from_proto.rs
index 4de913d..e0bcfd3 100644
--- a/crates/move_language_server/src/from_proto.rs
+++ b/crates/move_language_server/src/from_proto.rs
@@ -15,6 +15,9 @@ use crate::{
 };
 
 pub(crate) fn abs_path(url: &lsp_types::Url) -> Result<AbsPathBuf> {
+    if url.scheme() != "file" {
+        return Err("url is not a file".into());
+    }
     let path = url.to_file_path().map_err(|()| "url is not a file")?;
     Ok(AbsPathBuf::try_from(path).unwrap())
 }
-- 
2.43.0


From cbf95d376e14aa4cbddcf72840f2cf2a5ea4c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:15 +0000
Subject: [PATCH 14/24] fix: the parser's lookahead skips exactly the trivia
 that bump skips

---
 crates/parser/src/lexer.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/parser/src/lexer.rs b/crates/parser/src/lexer.rs
index 6c09119..648804f 100644
--- a/crates/parser/src/lexer.rs
+++ b/crates/parser/src/lexer.rs
@@ -92,10 +92,15 @@ impl<'t> Lexer<'t> {
     // Look ahead to the next token after the current one and return it without advancing
     // the state of the lexer.
     pub fn lookahead(&self) -> Token {
-        let text = self.text[self.cur_end..].trim_start();
-        // let offset = self.text.len() - text.len();
-        let (tok, len) = find_token(text);
-        Token::new(tok, len)
+        // Skip exactly what `bump` skips, nothing more and nothing less
+        let mut text = &self.text[self.cur_end..];
+        loop {
+            let (kind, len) = find_token(text);
+            if !kind.is_trivia() {
+                return Token::new(kind, len);
+            }
+            text = &text[len..];
+        }
     }
 
     // Look ahead to the next two tokens after the current one and return them without advancing
-- 
2.43.0


From 47c44feca7b733289a5c8133ef6d222ba49feb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 15/24] fix: the extension starts the configured or downloaded
 language server

The path of a developer's debug build was left in place of the bootstrap of the
language server, so move.languageServerPath was ignored.
---
 editors/code/src/components/bootstrap.ts | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index e7fd746..577648f 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -44,10 +44,9 @@ export async function bootstrap(
         throw new Error(message);
     };
 
-    // const languageServerPath = await bootstrapLanguageServer(context, state).catch(
-    //     handleError.bind(null, 'move-language-server')
-    // );
-    const languageServerPath = "/home/mkurnikov/code/move-language-server/target/debug/move_language_server";
+    const languageServerPath = await bootstrapLanguageServer(context, state).catch(
+        handleError.bind(null, 'move-language-server')
+    );
 
     const doveExecutablePath = await bootstrapDoveExecutable(context, state).catch(
         handleError.bind(null, 'dove')
-- 
2.43.0


From ecf49a4502fb4ebc3e5a7e7192751ea2cbe89b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 16/24] fix: the extension on Windows does not take the macOS
 binary

"darwin" contains "win", so whichever asset came first in the release was taken.
---
 editors/code/src/components/bootstrap.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/bootstrap.ts b/editors/code/src/components/bootstrap.ts
index 577648f..159b31b 100644
--- a/editors/code/src/components/bootstrap.ts
+++ b/editors/code/src/components/bootstrap.ts
@@ -16,6 +16,11 @@ function getPlatformLabel(name: NodeJS.Platform): string | undefined {
     return undefined;
 }
 
+function isBuiltFor(assetName: string, platformLabel: string): boolean {
+    // 'darwin' contains 'win'
+    return assetName.replace(/darwin/g, platformLabel === 'darwin' ? '$&' : '').includes(platformLabel);
+}
+
 interface Executables {
     doveExecutablePath: string;
     languageServerPath: string;
@@ -114,7 +119,7 @@ async function getBinaryPathEnsureExists(
 
     const asset = release.assets.find(
         ({ browser_download_url, name }) =>
-            name.startsWith(binaryName) && name.includes(platformLabel)
+            name.startsWith(binaryName) && isBuiltFor(name, platformLabel)
     );
     assert(!!asset, `Bad release: ${JSON.stringify(release)}`);
 
-- 
2.43.0


From d9f2115af1150eef3cd5b13217014e03f0f0b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 17/24] fix: a dove executable that cannot be started is
 reported

The 'error' event of the child process had no listener: it was thrown into the
extension host, and the promise waiting for dove never settled.
---
 editors/code/src/components/dove.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index f4ddcef..a38b2c5 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -109,6 +109,11 @@ export class Dove {
             process.stderr.on('data', (data) => {
                 stderr += data;
             });
+            process.on('error', (err) => {
+                // not an exit: without a listener it is thrown, and 'close' never comes
+                stderr += err.message;
+                resolve(undefined);
+            });
             process.on('close', (code) => {
                 resolve(code);
             });
-- 
2.43.0


From 408bf47da081eee853586f305c591cfd670d918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 18/24] fix: a reload while a workspace is starting does not
 leave a second server

A ClientWorkspaceFactory that was disposed while it was waiting for the bootstrap
or for dove went on to start a server that nothing would ever stop. Likewise, the
task provider of a server that had failed to start was never unregistered.
---
 editors/code/src/components/ws.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 61f50a5..9e13714 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -25,6 +25,7 @@ export class ClientWorkspaceFactory implements Disposable {
     private readonly workspaces: Map<vscode.WorkspaceFolder, ClientWorkspace> = new Map();
     private doveExecutable: string | null = null;
     private languageServerExecutable: string | null = null;
+    private disposed = false;
 
     constructor(
         private readonly extensionContext: vscode.ExtensionContext,
@@ -54,6 +55,7 @@ export class ClientWorkspaceFactory implements Disposable {
             );
         }
 
+        if (this.disposed) return;
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
@@ -80,6 +82,7 @@ export class ClientWorkspaceFactory implements Disposable {
 
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
+        this.disposed = true;
         return Promise.all([...this.workspaces.values()].map((ws) => ws.stop()));
     }
 }
@@ -89,6 +92,7 @@ export class ClientWorkspaceFactory implements Disposable {
 export class ClientWorkspace {
     private readonly disposables: Disposable[] = [];
     private readonly languageClients: lc.LanguageClient[] = [];
+    private stopped = false;
 
     constructor(
         readonly folder: vscode.WorkspaceFolder,
@@ -100,7 +104,8 @@ export class ClientWorkspace {
         log.debug(`Starting new ClientWorkspace instance at ${this.folder.uri.toString()}`);
 
         const metadata = await dove.metadataWithErrorMessage(this.folder);
-        if (!metadata) return;
+        // stop() may have been called while dove was running
+        if (!metadata || this.stopped) return;
 
         const serverInitOpts = getServerInitOptsFromMetadata(metadata);
         const client = createLanguageServerClient(
@@ -116,8 +121,10 @@ export class ClientWorkspace {
 
     async stop(): Promise<any> {
         log.debug(`Stopping language clients for "${this.folder.uri.toString()}"`);
+        this.stopped = true;
         for (const client of this.languageClients) {
-            await client.stop();
+            // rejects if the server could not be started
+            await client.stop().catch((err) => log.warn('Stop error:', err));
         }
 
         log.debug(`Disposing ClientWorkspace for "${this.folder.uri.toString()}"`);
-- 
2.43.0


From 7ad8b3b0f8e1d8890ee5db90f58602775973f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:10 +0000
Subject: [PATCH 19/24] fix: changes made while the extension is starting are
 not missed

The reload command and the handlers of Dove.toml and settings changes were only
registered after the first workspace had started: a change made meanwhile was
ignored, after a failed start they were never registered, and after a
deactivation during the start nothing unregistered them.
---
 editors/code/src/extension.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 1d18deb..1b8f296 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -42,10 +42,6 @@ async function tryActivate(context: vscode.ExtensionContext) {
             }
         })
     );
-    // Manually trigger the first event to start up server instance if necessary,
-    // since VSCode doesn't do that on startup by itself.
-    await clientWorkspaceFactory.initClientWorkspace(window.activeTextEditor?.document);
-
     // Reloading is inspired by @DanTup maneuver: https://github.com/microsoft/vscode/issues/45774#issuecomment-373423895
     log.debug('Register command "move.reload"');
     context.subscriptions.push(
@@ -107,6 +103,11 @@ async function tryActivate(context: vscode.ExtensionContext) {
             await onDidDoveTomlChanged(document.uri);
         })
     );
+
+    // Manually trigger the first event to start up server instance if necessary,
+    // since VSCode doesn't do that on startup by itself. This can take long and can fail,
+    // the commands and handlers above have to be there all the same.
+    await clientWorkspaceFactory.initClientWorkspace(window.activeTextEditor?.document);
 }
 
 // this method is called when your extension is deactivated
-- 
2.43.0


From 8680b51e50b1ceee52f52e0858d1a73c20dc9fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:03 +0000
Subject: [PATCH 20/24] fix: rebuild a stale line index also when an edit's
 start lies past its end

---
 crates/move_language_server/src/lsp_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/move_language_server/src/lsp_utils.rs b/crates/move_language_server/src/lsp_utils.rs
index 26c5257..2bc35d9 100644
--- a/crates/move_language_server/src/lsp_utils.rs
+++ b/crates/move_language_server/src/lsp_utils.rs
@@ -84,7 +84,7 @@ pub(crate) fn apply_document_changes(
     for change in content_changes {
         match change.range {
             Some(range) => {
-                if !index_valid.covers(range.end.line) {
+                if !index_valid.covers(range.start.line.max(range.end.line)) {
                     line_index.index = Arc::new(ide_db::LineIndex::new(old_text));
                 }
                 let range = lsp_types::Range::new(
-- 
2.43.0


From ad1a6f06d2baf270bb2a8d1a4f98453750159e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:43 +0000
Subject: [PATCH 21/24] fix: serve a folder whose path has glob characters

The folder's path went into the document selector's pattern as it is, so
that no file of a folder such as p[x] matched it.
---
 editors/code/src/components/client.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/editors/code/src/components/client.ts b/editors/code/src/components/client.ts
index c858520..399a53e 100644
--- a/editors/code/src/components/client.ts
+++ b/editors/code/src/components/client.ts
@@ -18,6 +18,11 @@ export interface MoveLanguageServerInitOpts {
     sender_address: string | undefined | null;
 }
 
+// Matches all files below the folder, whatever characters its path is made of
+function filesOf(folder: vscode.WorkspaceFolder): string {
+    return folder.uri.fsPath.replace(/[?*[\]{}]/g, '[$&]') + '/**/*';
+}
+
 export function createLanguageServerClient(
     languageServerPath: string,
     folder: vscode.WorkspaceFolder,
@@ -41,7 +46,7 @@ export function createLanguageServerClient(
             {
                 scheme: 'file',
                 language: 'move',
-                pattern: projectRoot + '/**/*',
+                pattern: filesOf(folder),
             },
         ],
         initializationOptions: serverInitOpts,
@@ -85,7 +90,7 @@ export function createAutocompleteServerClient(
             {
                 scheme: 'file',
                 language: 'move',
-                pattern: projectRoot + '/**/*',
+                pattern: filesOf(folder),
             },
         ],
         traceOutputChannel,
-- 
2.43.0


From bb66b090ad5c669c94b82f75180e3b242bc6c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:43 +0000
Subject: [PATCH 22/24] fix: decode dove's output as a whole, not chunk by
 chunk

A chunk ending inside a multi-byte character corrupted the metadata.
---
 editors/code/src/components/dove.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/editors/code/src/components/dove.ts b/editors/code/src/components/dove.ts
index a38b2c5..f5435cc 100644
--- a/editors/code/src/components/dove.ts
+++ b/editors/code/src/components/dove.ts
@@ -103,6 +103,9 @@ export class Dove {
         let stderr = '';
         await new Promise((resolve) => {
             const process = spawn(this.executable, [command, ...args], { cwd });
+            // a chunk can end inside a character
+            process.stdout.setEncoding('utf8');
+            process.stderr.setEncoding('utf8');
             process.stdout.on('data', (data) => {
                 stdout += data;
             });
-- 
2.43.0


From 55ef6bdae87a3ee2c2453e75cf266228943e5659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:22 +0000
Subject: [PATCH 23/24] fix: stop the server of a folder that is removed from
 the workspace

---
 editors/code/src/components/ws.ts | 14 +++++++++++++-
 editors/code/src/extension.ts     |  7 +++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/editors/code/src/components/ws.ts b/editors/code/src/components/ws.ts
index 9e13714..0fbe551 100644
--- a/editors/code/src/components/ws.ts
+++ b/editors/code/src/components/ws.ts
@@ -55,7 +55,8 @@ export class ClientWorkspaceFactory implements Disposable {
             );
         }
 
-        if (this.disposed) return;
+        // the folder may have been removed from the workspace in the meantime
+        if (this.disposed || workspace.getWorkspaceFolder(text_document.uri) !== folder) return;
         log.debug(`initClientWorkspace called inside ${folder.uri.fsPath}`);
         let ws = this.workspaces.get(folder);
         if (!ws && isMoveDocument(text_document)) {
@@ -80,6 +81,17 @@ export class ClientWorkspaceFactory implements Disposable {
         }
     }
 
+    async removeClientWorkspace(folder: vscode.WorkspaceFolder) {
+        const ws = this.workspaces.get(folder);
+        if (!ws) return;
+
+        this.workspaces.delete(folder);
+        if (this.activeWorkspace === ws) {
+            this.activeWorkspace = null;
+        }
+        await ws.stop();
+    }
+
     dispose() {
         log.debug('Disposing ClientWorkspaceFactory');
         this.disposed = true;
diff --git a/editors/code/src/extension.ts b/editors/code/src/extension.ts
index 1b8f296..b82e9ce 100644
--- a/editors/code/src/extension.ts
+++ b/editors/code/src/extension.ts
@@ -35,6 +35,13 @@ async function tryActivate(context: vscode.ExtensionContext) {
             await clientWorkspaceFactory.initClientWorkspace(editor?.document);
         })
     );
+    context.subscriptions.push(
+        workspace.onDidChangeWorkspaceFolders(async (e) => {
+            await Promise.all(
+                e.removed.map((folder) => clientWorkspaceFactory.removeClientWorkspace(folder))
+            );
+        })
+    );
     context.subscriptions.push(
         workspace.onDidSaveTextDocument(async (text_document) => {
             if (text_document.uri.fsPath.endsWith('Dove.toml')) {
-- 
2.43.0


From 7f9f1c7fb061bbfa8d51c0b1805a84e8001fd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:29 +0000
Subject: [PATCH 24/24] fix: without a root folder the server does not need a
 current directory

---
 .../src/bin/move_language_server.rs               | 15 +++++++++------
 crates/move_language_server/src/config.rs         |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/move_language_server/src/bin/move_language_server.rs b/crates/move_language_server/src/bin/move_language_server.rs
index dc35aad..c3462a5 100644
--- a/crates/move_language_server/src/bin/move_language_server.rs
+++ b/crates/move_language_server/src/bin/move_language_server.rs
@@ -63,11 +63,14 @@ fn run_server() -> Result<()> {
         .and_then(|it| it.to_file_path().ok())
         .and_then(|it| AbsPathBuf::try_from(it).ok())
     {
-        Some(it) => it,
-        None => {
-            let cwd = env::current_dir()?;
-            AbsPathBuf::assert(cwd)
-        }
+        Some(it) => Some(it),
+        None => match env::current_dir() {
+            Ok(cwd) => Some(AbsPathBuf::assert(cwd)),
+            Err(err) => {
+                tracing::error!("no root folder, and no current directory: {}", err);
+                None
+            }
+        },
     };
 
     let mut config = Config::new(root_path, initialize_params.capabilities);
@@ -102,7 +105,7 @@ fn run_server() -> Result<()> {
                 .collect::<Vec<_>>()
         })
         .filter(|workspaces| !workspaces.is_empty())
-        .unwrap_or_else(|| vec![config.root_path.clone()]);
+        .unwrap_or_else(|| config.root_path.iter().cloned().collect());
 
     let discovered = ProjectManifest::discover_all(&workspace_roots);
     tracing::info!("discovered projects: {:?}", discovered);
diff --git a/crates/move_language_server/src/config.rs b/crates/move_language_server/src/config.rs
index f00f224..ce8c682 100644
--- a/crates/move_language_server/src/config.rs
+++ b/crates/move_language_server/src/config.rs
@@ -13,7 +13,8 @@ pub struct Config {
     pub caps: lsp_types::ClientCapabilities,
     pub discovered_projects: Option<Vec<ProjectManifest>>,
     detached_files: Vec<AbsPathBuf>,
-    pub root_path: AbsPathBuf,
+    /// `None` if the client names no folder and there is no current directory either.
+    pub root_path: Option<AbsPathBuf>,
 }
 
 #[derive(Debug, Clone, Eq, PartialEq)]
@@ -39,7 +40,7 @@ macro_rules! try_or {
 }
 
 impl Config {
-    pub fn new(root_path: AbsPathBuf, caps: lsp_types::ClientCapabilities) -> Self {
+    pub fn new(root_path: Option<AbsPathBuf>, caps: lsp_types::ClientCapabilities) -> Self {
         Config { caps, discovered_projects: None, root_path, detached_files: vec![] }
     }
 
-- 
2.43.0

