From d0fcb0c1ac5b90f986ac30b715fa7608d5737bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 01/64] fix: reparse a reopened document from scratch

add_tree handed the previous, unedited tree to the incremental parser, so
opening a document again with other text kept stale nodes, and crashed the
server when the new text was shorter.
---
 jinja-lsp/src/lsp_files.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 02f48e0..e0df1a6 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -127,21 +127,11 @@ impl LspFiles {
         lang_type: LangType,
         file_content: &str,
     ) -> Option<()> {
+        // `file_content` replaces whatever was known under this name. The previous tree was never
+        // edited to match it, so it can't be handed to the incremental parser.
+        let new_tree = self.parsers.parse(lang_type, file_content, None)?;
         let trees = self.trees.get_mut(&lang_type)?;
-        let old_tree = trees.get_mut(&file_name.to_string());
-        match old_tree {
-            Some(old_tree) => {
-                let new_tree = self
-                    .parsers
-                    .parse(lang_type, file_content, Some(old_tree))?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-            None => {
-                // tree doesn't exist, first insertion
-                let new_tree = self.parsers.parse(lang_type, file_content, None)?;
-                trees.insert(file_name.to_string(), new_tree);
-            }
-        };
+        trees.insert(file_name.to_string(), new_tree);
         None
     }
 
-- 
2.43.0


From 5795a78b2da0c0d72ca3453f4522d602fd85cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 02/64] fix: end position of an edit follows from the inserted
 text

It was looked up in the rope before the text was inserted, so the incremental
parser was told a wrong position for the end of every insertion.
---
 jinja-lsp-queries/src/to_input_edit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index a672b53..f6d55fb 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -52,8 +52,14 @@ impl ToInputEdit for Rope {
         let start_position = self.to_point(start);
 
         let new_end_byte = start_byte + text.len();
-        let new_end_position = self.to_position(new_end_byte);
-        let new_end_position = self.to_point(new_end_position);
+        // The rope doesn't contain `text` yet, the end of it follows from where it starts.
+        let new_end_position = match text.rfind('\n') {
+            Some(last) => Point::new(
+                start_position.row + text.matches('\n').count(),
+                text.len() - last - 1,
+            ),
+            None => Point::new(start_position.row, start_position.column + text.len()),
+        };
 
         let old_end_byte = self.to_byte(end);
         let old_end_position = self.to_point(end);
-- 
2.43.0


From 21284dc95e21a12a1ec029b1bfe8db20da21e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/64] fix: don't reuse an erroneous tree for an incremental
 parse

A tree with nodes recovered from a syntax error could leak into the tree of a
valid template, and definitions were lost depending on how it was typed.
---
 jinja-lsp/src/lsp_files.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index e0df1a6..8ea14a4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -146,7 +146,10 @@ impl LspFiles {
         let trees = self.trees.get_mut(&lang_type)?;
         let old_tree = trees.get_mut(file)?;
         old_tree.edit(&input_edit);
-        let new_tree = self.parsers.parse(lang_type, &code, Some(old_tree))?;
+        // Nodes recovered from a syntax error aren't reliable, reusing them can give a tree that
+        // differs from the one a full parse of `code` gives.
+        let old_tree = Some(&*old_tree).filter(|tree| !tree.root_node().has_error());
+        let new_tree = self.parsers.parse(lang_type, &code, old_tree)?;
         let trees = self.trees.get_mut(&lang_type)?;
         trees.insert(file.to_string(), new_tree);
         None
-- 
2.43.0


From 08403b00c1a3bdfeccdf0a16b2578b195ec2c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 04/64] fix: edit a document by chars, not by bytes

Ropey takes char indices. With a byte offset every edit after a multibyte
character changed the wrong place, or panicked and took the server down.
---
 jinja-lsp/src/lsp_files.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8ea14a4..b2526e5 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -163,8 +163,9 @@ impl LspFiles {
         for change in params.content_changes {
             let range = change.range?;
             let input_edit = rope.to_input_edit(range, &change.text);
-            let start = rope.to_byte(range.start);
-            let end = rope.to_byte(range.end);
+            // A rope is edited by chars.
+            let start = rope.byte_to_char(rope.to_byte(range.start));
+            let end = rope.byte_to_char(rope.to_byte(range.end));
             if start <= end {
                 rope.remove(start..end);
             } else {
-- 
2.43.0


From 442722f1457da25738bda834f415cb2fcf617cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:19 +0000
Subject: [PATCH 05/64] fix: clamp positions of an edit to the document

A line after the last one or a character past the end of a line panicked and
took the server down, instead of meaning the end of the document or line.
---
 jinja-lsp-queries/src/to_input_edit.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/to_input_edit.rs b/jinja-lsp-queries/src/to_input_edit.rs
index f6d55fb..5fb9784 100644
--- a/jinja-lsp-queries/src/to_input_edit.rs
+++ b/jinja-lsp-queries/src/to_input_edit.rs
@@ -17,8 +17,14 @@ impl ToInputEdit for Rope {
     }
 
     fn to_byte(&self, position: Position) -> usize {
-        let start_line = self.line_to_byte(position.line as usize);
-        start_line + position.character as usize
+        let line = position.line as usize;
+        if line >= self.len_lines() {
+            return self.len_bytes();
+        }
+        // A position past the end of a line is the end of that line.
+        let text = self.line(line).to_string();
+        let line_len = text.trim_end_matches(['\n', '\r']).len();
+        self.line_to_byte(line) + line_len.min(position.character as usize)
     }
 
     fn to_position(&self, mut offset: usize) -> Position {
@@ -49,7 +55,7 @@ impl ToInputEdit for Rope {
         let end = range.end;
 
         let start_byte = self.to_byte(start);
-        let start_position = self.to_point(start);
+        let start_position = self.to_point(self.to_position(start_byte));
 
         let new_end_byte = start_byte + text.len();
         // The rope doesn't contain `text` yet, the end of it follows from where it starts.
@@ -62,7 +68,7 @@ impl ToInputEdit for Rope {
         };
 
         let old_end_byte = self.to_byte(end);
-        let old_end_position = self.to_point(end);
+        let old_end_position = self.to_point(self.to_position(old_end_byte));
 
         InputEdit {
             start_byte,
-- 
2.43.0


From f3967a2c9fb724cf687caac5f433a0926aed284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 06/64] fix: accept a change of the whole document

A change without a range was dropped, along with the reparse for every other
change of the same notification.
---
 jinja-lsp/src/lsp_files.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index b2526e5..043a581 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -161,7 +161,9 @@ impl LspFiles {
         let lang_type = self.config.file_ext(&Path::new(&uri));
         let mut changes = vec![];
         for change in params.content_changes {
-            let range = change.range?;
+            // Without a range the text is the whole document.
+            let end = rope.to_position(rope.len_bytes());
+            let range = change.range.unwrap_or(Range::new(Position::default(), end));
             let input_edit = rope.to_input_edit(range, &change.text);
             // A rope is edited by chars.
             let start = rope.byte_to_char(rope.to_byte(range.start));
-- 
2.43.0


From 42e877b63a7095d8bfcff0030b393d102d922117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:59 +0000
Subject: [PATCH 07/64] fix: order the ends of an edit before using them

The text of an edit with a reversed range was inserted past the removed part,
which could be past the end of the document.
---
 jinja-lsp/src/lsp_files.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 043a581..aa2cfd4 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -163,7 +163,10 @@ impl LspFiles {
         for change in params.content_changes {
             // Without a range the text is the whole document.
             let end = rope.to_position(rope.len_bytes());
-            let range = change.range.unwrap_or(Range::new(Position::default(), end));
+            let mut range = change.range.unwrap_or(Range::new(Position::default(), end));
+            if range.start > range.end {
+                std::mem::swap(&mut range.start, &mut range.end);
+            }
             let input_edit = rope.to_input_edit(range, &change.text);
             // A rope is edited by chars.
             let start = rope.byte_to_char(rope.to_byte(range.start));
-- 
2.43.0


From 79a6e1bc58276a0841a9a8f9d497c9e3e5b49c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/64] fix: negotiate utf-8 positions

Every column read and reported is a byte column, which is what a client gets
only if it's told so.
---
 jinja-lsp/src/channels/lsp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 5a0ba6a..e563a67 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -13,8 +13,8 @@ use tower_lsp::{
         DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
         GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
         HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, ServerCapabilities, ServerInfo,
-        TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+        MarkupContent, MarkupKind, MessageType, OneOf, PositionEncodingKind, ServerCapabilities,
+        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
         TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
@@ -60,6 +60,13 @@ pub fn lsp_task(
                         })
                         .unwrap_or(search_config().unwrap_or(config));
 
+                    // Columns are bytes everywhere, clients that can count bytes are asked to.
+                    let position_encoding = params
+                        .capabilities
+                        .general
+                        .and_then(|general| general.position_encodings)
+                        .filter(|encodings| encodings.contains(&PositionEncodingKind::UTF8))
+                        .map(|_| PositionEncodingKind::UTF8);
                     let definition_provider = Some(OneOf::Left(true));
                     let references_provider = None;
                     let code_action_provider = Some(CodeActionProviderCapability::Simple(true));
@@ -72,6 +79,7 @@ pub fn lsp_task(
 
                     let msg = InitializeResult {
                         capabilities: ServerCapabilities {
+                            position_encoding,
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
-- 
2.43.0


From eba2d7fc82953c94c467e72f965b7182d6d51aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 09/64] fix: don't let the two tasks wait for each other

The lsp task waited for room in the diagnostics channel while the diagnostics
task waited for room in the lsp channel. A burst of a hundred saves was enough
to hang the server for good.
---
 jinja-lsp/src/backend.rs              |  3 ++-
 jinja-lsp/src/channels/diagnostics.rs |  4 ++--
 jinja-lsp/src/channels/lsp.rs         | 11 +++++------
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index e33a91a..03ef779 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -156,7 +156,8 @@ impl LanguageServer for Backend {
 impl Backend {
     pub fn _new(client: Client) -> Self {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
-        let (diagnostic_sender, diagnostic_recv) = mpsc::channel(20);
+        // The two tasks feed each other, they'd wait forever if both channels could be full.
+        let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(
             client.clone(),
             diagnostic_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index 9b5dc06..fe92399 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Sender, UnboundedReceiver};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -13,7 +13,7 @@ use super::lsp::LspMessage;
 
 pub fn diagnostics_task(
     client: Client,
-    mut receiver: Receiver<DiagnosticMessage>,
+    mut receiver: UnboundedReceiver<DiagnosticMessage>,
     lsp_channel: Sender<LspMessage>,
 ) {
     tokio::spawn(async move {
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index e563a67..e33863b 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -31,7 +31,7 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     client: Client,
-    diagnostics_channel: mpsc::Sender<DiagnosticMessage>,
+    diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
 ) {
@@ -136,9 +136,8 @@ pub fn lsp_task(
                     } else {
                         match walkdir(&config) {
                             Ok(errors) => {
-                                let _ = diagnostics_channel
-                                    .send(DiagnosticMessage::Errors(errors.0))
-                                    .await;
+                                let _ =
+                                    diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
                                 lsp_data = errors.1;
                                 lsp_data.is_vscode = vscode;
@@ -159,7 +158,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidSave(params) => {
                     if let Some(errors) = lsp_data.did_save(params) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::Completion(params, sender) => {
@@ -347,7 +346,7 @@ pub fn lsp_task(
                 }
                 LspMessage::DidOpen(params) => {
                     if let Some(errors) = lsp_data.did_open(params, false) {
-                        let _ = diagnostics_channel.send(errors).await;
+                        let _ = diagnostics_channel.send(errors);
                     }
                 }
                 LspMessage::DocumentSymbol(params, sender) => {
-- 
2.43.0


From 8aba86b8990609c271520933074a117209e181d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 10/64] fix: don't wait for room in the own channel

The only receiver of the channel waited for itself when a reset or a
configuration change came while the channel was full.
---
 jinja-lsp/src/channels/lsp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index e33863b..3b9d904 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -340,7 +340,7 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        let _ = lsp_channel.send(LspMessage::Initialized(sender2)).await;
+                        send_later(&lsp_channel, LspMessage::Initialized(sender2));
                         let _ = sender.send(None);
                     }
                 }
@@ -364,7 +364,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    let _ = lsp_channel.send(LspMessage::Initialized(sender)).await;
+                    send_later(&lsp_channel, LspMessage::Initialized(sender));
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -374,6 +374,14 @@ pub fn lsp_task(
     });
 }
 
+/// The receiver of this channel can't wait for room in it.
+fn send_later(lsp_channel: &mpsc::Sender<LspMessage>, msg: LspMessage) {
+    let lsp_channel = lsp_channel.clone();
+    tokio::spawn(async move {
+        let _ = lsp_channel.send(msg).await;
+    });
+}
+
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
-- 
2.43.0


From 6dbe2c8792e3abd1e2c84f56d4f639fa7b7234fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 11/64] fix: a change of one document doesn't cancel the
 analysis of another

There was one pending analysis for all documents. A document changed within
200 ms before a change of another one kept its old diagnostics and symbols.
---
 jinja-lsp/src/lsp_files.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index aa2cfd4..4f5c869 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -53,7 +53,7 @@ pub struct LspFiles {
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
-    pub diagnostics_task: Option<JoinHandle<()>>,
+    pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
     pub main_channel: Option<mpsc::Sender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
@@ -190,16 +190,17 @@ impl LspFiles {
             text_document: TextDocumentIdentifier::new(params.text_document.uri),
             text: None,
         };
-        if let Some(task) = &self.diagnostics_task {
+        if let Some(task) = self.diagnostics_tasks.get(&uri) {
             task.abort();
         }
         let channel = self.main_channel.clone();
-        self.diagnostics_task = Some(tokio::spawn(async move {
+        let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
                 let _ = channel.send(LspMessage::DidSave(param)).await;
             }
-        }));
+        });
+        self.diagnostics_tasks.insert(uri, task);
         None
     }
 
@@ -916,7 +917,6 @@ impl Default for LspFiles {
         let mut trees = HashMap::new();
         trees.insert(LangType::Template, HashMap::new());
         trees.insert(LangType::Backend, HashMap::new());
-        let diagnostics_task = None;
         let main_channel = None;
         Self {
             trees,
@@ -924,7 +924,7 @@ impl Default for LspFiles {
             queries: Queries::default(),
             documents: HashMap::new(),
             config: JinjaConfig::default(),
-            diagnostics_task,
+            diagnostics_tasks: HashMap::default(),
             main_channel,
             variables: HashMap::default(),
             is_vscode: false,
@@ -945,7 +945,6 @@ impl Clone for LspFiles {
         let is_vscode = self.is_vscode;
         let code_actions = self.code_actions.clone();
         let config = self.config.clone();
-        let task = None;
         Self {
             trees,
             documents,
@@ -956,7 +955,7 @@ impl Clone for LspFiles {
             variables,
             code_actions,
             is_vscode,
-            diagnostics_task: task,
+            diagnostics_tasks: HashMap::default(),
             ignore_globals: self.ignore_globals,
         }
     }
-- 
2.43.0


From f5da55bf60c3a2d397227d486f8aefba1848ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 12/64] fix: a reset keeps the text of open documents

Unsaved text was replaced by what's on the disk, so the next incremental edit
hit a different text. Diagnostics of files that are gone are cleared as well.
---
 jinja-lsp/src/channels/lsp.rs |  3 ++-
 jinja-lsp/src/lsp_files.rs    | 39 +++++++++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 3b9d904..1ceb3fa 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -135,7 +135,8 @@ pub fn lsp_task(
                             .await;
                     } else {
                         match walkdir(&config) {
-                            Ok(errors) => {
+                            Ok(mut errors) => {
+                                errors.1.keep_open_documents(&lsp_data, &mut errors.0);
                                 let _ =
                                     diagnostics_channel.send(DiagnosticMessage::Errors(errors.0));
                                 let vscode = lsp_data.is_vscode;
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4f5c869..363aa6f 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -50,6 +50,7 @@ use crate::{
 pub struct LspFiles {
     trees: HashMap<LangType, HashMap<String, Tree>>,
     documents: HashMap<String, Rope>,
+    open_documents: HashSet<String>,
     pub parsers: Parsers,
     pub queries: Queries,
     pub config: JinjaConfig,
@@ -796,12 +797,47 @@ impl LspFiles {
         if ignore {
             return Some(DiagnosticMessage::Errors(hm));
         }
+        self.open_documents.insert(name.to_string());
         let diagnostics = self.read_tree(name)?;
         hm.insert(name.to_owned(), diagnostics);
         let msg = DiagnosticMessage::Errors(hm);
         Some(msg)
     }
 
+    /// Until it's closed, the text of a document is what the client says, not what's on the disk.
+    pub fn keep_open_documents(
+        &mut self,
+        old: &LspFiles,
+        diags: &mut HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>,
+    ) {
+        for name in &old.open_documents {
+            let Some(lang_type) = self.config.file_ext(&Path::new(name)) else {
+                continue;
+            };
+            let Some(rope) = old.documents.get(name) else {
+                continue;
+            };
+            let file_content = rope.to_string();
+            self.delete_variables(name);
+            self.documents.insert(name.to_string(), rope.clone());
+            self.add_tree(name, lang_type, &file_content);
+            self.add_variables(name, lang_type, &file_content);
+            self.open_documents.insert(name.to_string());
+        }
+        diags.clear();
+        self.read_trees(diags);
+        for name in &self.open_documents {
+            if let Some(errors) = self.read_tree(name) {
+                diags.insert(name.to_string(), errors);
+            }
+        }
+        for name in old.documents.keys() {
+            if !self.documents.contains_key(name) {
+                diags.insert(name.to_string(), vec![]);
+            }
+        }
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
@@ -923,6 +959,7 @@ impl Default for LspFiles {
             parsers: Parsers::default(),
             queries: Queries::default(),
             documents: HashMap::new(),
+            open_documents: HashSet::new(),
             config: JinjaConfig::default(),
             diagnostics_tasks: HashMap::default(),
             main_channel,
@@ -940,6 +977,7 @@ impl Clone for LspFiles {
         let parsers = Parsers::default();
         let queries = Queries::default();
         let documents = self.documents.clone();
+        let open_documents = self.open_documents.clone();
         let main_channel = self.main_channel.clone();
         let variables = self.variables.clone();
         let is_vscode = self.is_vscode;
@@ -948,6 +986,7 @@ impl Clone for LspFiles {
         Self {
             trees,
             documents,
+            open_documents,
             parsers,
             queries,
             config,
-- 
2.43.0


From b161e55549543a75f53f40fc5f1fe3e4a9e2703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 13/64] fix: read a closed document back from the disk

Changes that were never saved stayed in the index after the document was
closed, and a closed document that doesn't exist kept its diagnostics.
---
 jinja-lsp/src/backend.rs      |  4 +++-
 jinja-lsp/src/channels/lsp.rs | 20 +++++++++++++-------
 jinja-lsp/src/lsp_files.rs    | 34 +++++++++++++++++++++++++++++++---
 3 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 03ef779..61a9827 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -55,7 +55,9 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
     }
 
-    async fn did_close(&self, _params: DidCloseTextDocumentParams) {}
+    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+    }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
         let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 1ceb3fa..8dd7372 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -9,13 +9,13 @@ use tower_lsp::{
         CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
         CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
         CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidOpenTextDocumentParams, DidSaveTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, Documentation, ExecuteCommandOptions, ExecuteCommandParams,
-        GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents, HoverParams,
-        HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
-        MarkupContent, MarkupKind, MessageType, OneOf, PositionEncodingKind, ServerCapabilities,
-        ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
-        TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
+        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
+        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, PositionEncodingKind,
+        ServerCapabilities, ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability,
+        TextDocumentSyncKind, TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
     },
     Client,
 };
@@ -350,6 +350,11 @@ pub fn lsp_task(
                         let _ = diagnostics_channel.send(errors);
                     }
                 }
+                LspMessage::DidClose(params) => {
+                    if let Some(errors) = lsp_data.did_close(params) {
+                        let _ = diagnostics_channel.send(errors);
+                    }
+                }
                 LspMessage::DocumentSymbol(params, sender) => {
                     if let Some(symbols) = lsp_data.document_symbols(params) {
                         let _ = sender.send(Some(symbols));
@@ -388,6 +393,7 @@ pub enum LspMessage {
     Initialized(oneshot::Sender<bool>),
     DidOpen(DidOpenTextDocumentParams),
     DidChange(DidChangeTextDocumentParams),
+    DidClose(DidCloseTextDocumentParams),
     DidSave(DidSaveTextDocumentParams),
     Completion(
         CompletionParams,
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 363aa6f..9a80812 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -23,9 +23,10 @@ use std::{
 use tokio::{sync::mpsc, task::JoinHandle, time::sleep};
 use tower_lsp::lsp_types::{
     CodeAction, CodeActionKind, CodeActionOrCommand, Command, CompletionItemKind,
-    CompletionTextEdit, CreateFile, CreateFileOptions, DidOpenTextDocumentParams,
-    DocumentChangeOperation, DocumentChanges, DocumentSymbol, DocumentSymbolResponse,
-    InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit, WorkspaceEdit,
+    CompletionTextEdit, CreateFile, CreateFileOptions, DidCloseTextDocumentParams,
+    DidOpenTextDocumentParams, DocumentChangeOperation, DocumentChanges, DocumentSymbol,
+    DocumentSymbolResponse, InsertReplaceEdit, ResourceOp, TextDocumentIdentifier, TextEdit,
+    WorkspaceEdit,
 };
 
 use jinja_lsp_queries::{
@@ -838,6 +839,33 @@ impl LspFiles {
         }
     }
 
+    /// From now on what's on the disk matters.
+    pub fn did_close(&mut self, params: DidCloseTextDocumentParams) -> Option<DiagnosticMessage> {
+        let uri = params.text_document.uri;
+        let name = uri.as_str();
+        if !self.open_documents.remove(name) {
+            return None;
+        }
+        let lang_type = self.config.file_ext(&Path::new(name))?;
+        let file_content = uri.to_file_path().ok().map(read_to_string);
+        let mut diagnostics = None;
+        self.delete_variables(name);
+        if let Some(Ok(file_content)) = file_content {
+            self.documents
+                .insert(name.to_string(), Rope::from_str(&file_content));
+            self.add_tree(name, lang_type, &file_content);
+            self.add_variables(name, lang_type, &file_content);
+            diagnostics = self.read_tree(name);
+        } else {
+            self.documents.remove(name);
+            self.variables.remove(name);
+            self.trees.get_mut(&lang_type)?.remove(name);
+        }
+        let mut hm = HashMap::new();
+        hm.insert(name.to_string(), diagnostics.unwrap_or_default());
+        Some(DiagnosticMessage::Errors(hm))
+    }
+
     pub fn read_objects(&self, uri: Url) -> Option<Vec<JinjaObject>> {
         let rope = self.documents.get(uri.as_str())?;
         let mut writter = FileContent::default();
-- 
2.43.0


From 15ea918227728079590051bc5c40502534766ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 14/64] fix: escape the paths of uris

Files with a space or a non-ASCII character in their path were known under a
uri no client sends, and the uri of a new template had a slash too much.
---
 jinja-lsp/src/lsp_files.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 9a80812..8cd9ac1 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -66,10 +66,9 @@ pub struct LspFiles {
 impl LspFiles {
     pub fn read_file(&mut self, path: &&Path, lang_type: LangType) -> Option<()> {
         if let Ok(name) = std::fs::canonicalize(path) {
-            let name = name.to_str()?;
-            let file_content = read_to_string(name).ok()?;
+            let file_content = read_to_string(&name).ok()?;
             let rope = Rope::from_str(&file_content);
-            let name = format!("file://{}", name);
+            let name = Url::from_file_path(name).ok()?.to_string();
             let adding = name.clone();
             self.documents.insert(name.to_string(), rope);
             self.add_tree(&name, lang_type, &file_content);
@@ -425,8 +424,7 @@ impl LspFiles {
                     let mut path = self.config.templates.clone();
                     path.push(&identifier.name);
                     let buffer = std::fs::canonicalize(path).ok()?;
-                    let url = format!("file://{}", buffer.to_str()?);
-                    let url = Url::parse(&url).ok()?;
+                    let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
                     res = Some(GotoDefinitionResponse::Scalar(location));
@@ -472,8 +470,7 @@ impl LspFiles {
                 let mut path = self.config.templates.clone();
                 path.push(&template.name);
                 let buffer = std::fs::canonicalize(path).ok()?;
-                let url = format!("file://{}", buffer.to_str()?);
-                let url = Url::parse(&url).ok()?;
+                let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
                 Some(GotoDefinitionResponse::Scalar(location))
@@ -549,9 +546,8 @@ impl LspFiles {
                 let templates = self.config.templates.to_owned();
                 if let Ok(mut path) = std::fs::canonicalize(templates) {
                     path.push(path_items(&template));
-                    let name = format!("file:///{}", path.to_str().unwrap());
                     let cf = CreateFile {
-                        uri: Url::parse(&name).unwrap(),
+                        uri: Url::from_file_path(path).ok()?,
                         options: Some(CreateFileOptions {
                             overwrite: Some(false),
                             ignore_if_exists: Some(true),
-- 
2.43.0


From b4780b4be39f1cf94ac9cf65204848626d4f13b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 15/64] fix: look for a template where the diagnostics do

A template name with a leading slash was looked for in the root directory by
goto definition and in the template directory by everything else.
---
 jinja-lsp/src/lsp_files.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8cd9ac1..41e8fdb 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -422,7 +422,7 @@ impl LspFiles {
                     let query = templates_query(query, tree, point, &writter.content, false);
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
-                    path.push(&identifier.name);
+                    path.push(path_items(&identifier.name));
                     let buffer = std::fs::canonicalize(path).ok()?;
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
@@ -468,7 +468,7 @@ impl LspFiles {
                     backend_templates_query(query, tree, point, &writter.content, false);
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
-                path.push(&template.name);
+                path.push(path_items(&template.name));
                 let buffer = std::fs::canonicalize(path).ok()?;
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
-- 
2.43.0


From 7e0b283f1dd694582817c0defd35612b4761025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:29 +0000
Subject: [PATCH 16/64] fix: offer templates by their path in the template
 directory

The path was cut at the first occurrence of the configured name without its
dots, so labels were wrong for many names and one open template outside of the
directory left the list empty.
---
 jinja-lsp/src/lsp_files.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 41e8fdb..67dd205 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -697,30 +697,26 @@ impl LspFiles {
 
     pub fn read_templates(
         &self,
-        mut prefix: String,
+        prefix: String,
         range: Range,
         start_point: Position,
         _: Option<String>,
     ) -> Option<Vec<CompletionItem>> {
         let all_templates = self.trees.get(&LangType::Template)?;
-        if prefix.is_empty() {
-            prefix = String::from("file:///");
-        }
-        let templates = all_templates
-            .keys()
-            .filter(|template| template.contains(&prefix));
+        let root = std::fs::canonicalize(&self.config.templates).ok()?;
         let mut abc = vec![];
-        for template in templates {
-            let c = &self
-                .config
-                .templates
-                .as_path()
-                .to_str()
-                .unwrap()
-                .replace('.', "");
-            let mut parts = template.split(c);
-            parts.next();
-            let label = parts.next()?.replacen('/', "", 1);
+        for template in all_templates.keys() {
+            let path = Url::parse(template)
+                .ok()
+                .and_then(|uri| uri.to_file_path().ok());
+            let Some(label) =
+                path.and_then(|path| Some(path.strip_prefix(&root).ok()?.to_str()?.to_string()))
+            else {
+                continue;
+            };
+            if !label.contains(&prefix) {
+                continue;
+            }
             let new_text = format!("\"{label}\"");
             let mut additional_text_edits = None;
             let text_edit = {
-- 
2.43.0


From 868dd18a0b35093593b322117938d5facccaa542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 17/64] fix: don't overflow on the columns of a completion
 request

Completion in a template name that spans lines, or at the largest column there
is, panicked and took the server down.
---
 jinja-lsp-queries/src/search/mod.rs                 | 2 +-
 jinja-lsp-queries/src/search/snippets_completion.rs | 2 +-
 jinja-lsp/src/lsp_files.rs                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2659569..2538cd5 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -61,7 +61,7 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     if len == 0 {
         return Some("");
     }
-    let diff = identifier.end.column - trigger_point.column;
+    let diff = identifier.end.column.saturating_sub(trigger_point.column);
     if diff == 0 || diff == 1 {
         return Some(&identifier.name);
     }
diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index 207f682..d61d0bd 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -46,7 +46,7 @@ impl Snippets {
             }
             let start_position = to_position2(trigger_point);
             let mut end_position = to_position2(trigger_point);
-            end_position.character += 1;
+            end_position.character = end_position.character.saturating_add(1);
             return Some(Range::new(start_position, end_position));
         }
         None
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 67dd205..57e209c 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -281,7 +281,7 @@ impl LspFiles {
                 if snippets.to_complete(point).is_some() {
                     let start = to_position2(point);
                     let mut end = to_position2(point);
-                    end.character += 1;
+                    end.character = end.character.saturating_add(1);
                     let range = Range::new(start, end);
                     return Some((CompletionType::Snippets { range }, false));
                 }
-- 
2.43.0


From 69e81be045519a53b779ba0ac47bdcf4051b2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 18/64] fix: define the second variable of a for loop

`{% for key, value in items %}` defined only the first one, every use of the
other one was reported as undefined.
---
 jinja-lsp-queries/src/search/definition.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 4eb8c15..080f266 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -1,6 +1,6 @@
 use std::collections::{HashSet, LinkedList};
 
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -231,11 +231,9 @@ impl JinjaDefinitions {
                         Definition::ForLoop { key, value } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if let Some(value) = value {
-                                if value.name.is_empty() {
-                                    *value = identifier;
-                                    self.can_add_id = false;
-                                }
+                            } else if value.is_none() && follows(capture.node, key, text) {
+                                *value = Some(identifier);
+                                self.can_add_id = false;
                             }
                         }
                         Definition::Set { key, .. } => {
@@ -359,6 +357,17 @@ impl JinjaDefinitions {
     }
 }
 
+/// Is there only a comma between `key` and `node`
+fn follows(node: Node, key: &Identifier, text: &str) -> bool {
+    let Some(comma) = node.prev_sibling() else {
+        return false;
+    };
+    comma.utf8_text(text.as_bytes()).map(str::trim) == Ok(",")
+        && comma
+            .prev_sibling()
+            .is_some_and(|node| node.end_position() == key.end)
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 7dfd2c69110534b7023e44935178e7c1b195ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:39 +0000
Subject: [PATCH 19/64] fix: only the first keyword of a statement opens a
 scope

An inline if or a filter in a for loop opened scopes that nothing closed, so
definitions after it ended at the wrong place.
---
 jinja-lsp-queries/src/search/definition.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 080f266..d5e8fa4 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -160,6 +160,9 @@ impl JinjaDefinitions {
         let id = capture.node.id();
         match name {
             "definition" => {
+                if !is_first(capture.node) {
+                    return Some(false);
+                }
                 if self.all_ids.contains(&id) {
                     return Some(false);
                 }
@@ -188,6 +191,9 @@ impl JinjaDefinitions {
                 }
             }
             "scope" => {
+                if !is_first(capture.node) {
+                    return Some(false);
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
@@ -357,6 +363,13 @@ impl JinjaDefinitions {
     }
 }
 
+/// Only the first keyword of a statement says what the statement is.
+fn is_first(keyword: Node) -> bool {
+    keyword
+        .prev_sibling()
+        .is_some_and(|node| node.kind() == "statement_begin")
+}
+
 /// Is there only a comma between `key` and `node`
 fn follows(node: Node, key: &Identifier, text: &str) -> bool {
     let Some(comma) = node.prev_sibling() else {
-- 
2.43.0


From ab28293363e1b022cf5dac9430fad98a0c6264e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:42 +0000
Subject: [PATCH 20/64] fix: close only scopes that were opened

set, call and trans open no scope, but their ends closed the one around them.
---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 844e3ed..aa82660 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end")
+        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 31ff08ea14b108cace79aa69f09d2b50b7d6979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:45 +0000
Subject: [PATCH 21/64] fix: elif and else end the branch before them

Every branch opened a scope and endif closed only the last one. What followed
in the block around it was taken for a part of the if statement.
---
 jinja-lsp-queries/src/search/definition.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index d5e8fa4..2ae2955 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -194,6 +194,14 @@ impl JinjaDefinitions {
                 if !is_first(capture.node) {
                     return Some(false);
                 }
+                let content = capture.node.utf8_text(text.as_bytes()).ok()?;
+                if content == "elif" || content == "else" {
+                    if let Some(mut last) = self.current_scope.pop_front() {
+                        let statement = capture.node.parent().unwrap_or(capture.node);
+                        last.end = statement.start_position();
+                        self.all_scopes.push(last);
+                    }
+                }
                 self.can_close_scope = false;
                 self.can_open_scope = true;
                 self.is_end = false;
-- 
2.43.0


From 18f803a5f873813bac5b6959ecc40ea20f39722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 22/64] fix: the name of a block isn't a variable of another
 file

Every block was reported as a variable that's defined in another file, and so
was every variable named like a block of the same file.
---
 jinja-lsp-queries/src/lsp_helper.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index e5399d3..45aa31e 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -34,6 +34,13 @@ pub fn search_errors(
                 if object.is_filter || object.is_test {
                     continue;
                 }
+                let names_block = this_file.iter().any(|variable| {
+                    variable.identifier_type == IdentifierType::TemplateBlock
+                        && variable.start == object.location.0
+                });
+                if names_block {
+                    continue;
+                }
                 let mut exist = false;
                 let mut err_type = JinjaDiagnostic::Undefined;
                 let mut to_warn = false;
@@ -63,6 +70,9 @@ pub fn search_errors(
                     }
                     to_warn = true;
                     for file in variables {
+                        if file.0 == file_name {
+                            continue;
+                        }
                         let temp = file
                             .1
                             .iter()
-- 
2.43.0


From 8173af9b652bed82da405d0f03f90c16e11bff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:52 +0000
Subject: [PATCH 23/64] fix: recognize a filter after a call, an index or a
 string

The operator before such a filter doesn't start with the pipe, so the filter
was reported as an undefined variable.
---
 jinja-lsp-queries/src/search/objects.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7049bb1..1a1f75c 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -73,7 +73,8 @@ impl JinjaObjects {
             }
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
-                if content.starts_with('|') {
+                // There can be more before the pipe, like the end of a call.
+                if content.trim_end().ends_with('|') {
                     self.pipe = (start, end);
                 }
                 return Some(ObjectAction::NewFilter);
-- 
2.43.0


From 3b50f73c70ab5c61b7ea7d184b9162d1936e14df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 24/64] fix: an attribute isn't a variable

The attribute in `items[0].name`, `f().name` or, at the start of a template,
`loop.index` was reported as undefined, and after another variable it was
taken for an attribute of that one.
---
 jinja-lsp-queries/src/search/objects.rs | 25 +++++++------------------
 jinja-lsp-queries/src/search/queries.rs |  2 +-
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 1a1f75c..f83696e 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -68,6 +68,9 @@ impl JinjaObjects {
                 return Some(self.build_object(capture, source));
             }
             "dot" => {
+                let content = capture.node.utf8_text(source.as_bytes()).ok()?;
+                // It continues an identifier only if there's nothing else before the dot.
+                let start = if content == "." { start } else { end };
                 self.dot = (start, end);
                 return Some(ObjectAction::NewField);
             }
@@ -108,25 +111,11 @@ impl JinjaObjects {
         let end = capture.node.end_position();
         if let Ok(value) = value {
             if start.row == self.dot.1.row && start.column == self.dot.1.column {
-                let last_object = self.objects.last_mut().map(|last| {
-                    last.fields.push((String::from(value), (start, end)));
-                    self.ident = (start, end);
-                });
-                match last_object {
-                    Some(_) => {}
-                    None => {
-                        // TODO: in future add those to main library
-                        if VALID_IDENTIFIERS.contains(&value) {
-                            return ObjectAction::Invalid;
-                        }
+                let dot = self.dot.0;
+                if let Some(last) = self.objects.last_mut() {
+                    if last.last_field_end() == dot {
+                        last.fields.push((String::from(value), (start, end)));
                         self.ident = (start, end);
-                        let is_test = self.test.2;
-                        let is_filter = self.is_hover(start) && self.is_filter();
-                        let obj =
-                            JinjaObject::new(String::from(value), start, end, is_filter, is_test);
-                        self.objects.push(obj);
-                        self.test.2 = false;
-                        return ObjectAction::NewObject;
                     }
                 }
             } else {
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index aa82660..ce806e7 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -57,7 +57,7 @@ const OBJECTS: &str = r#"
     [
         (
             (operator) @dot
-            (#eq? @dot "\.")
+            (#match? @dot "\\.$")
         )
 
         (
-- 
2.43.0


From 0c0d6c23c368fe2ce2088a9e448965520d80036b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 25/64] fix: keywords of an expression aren't variables

`if`, `else`, `is` and the like are identifiers to the grammar inside of
`{{ }}`, and all of them, and the tests after `is`, were reported.
---
 jinja-lsp-queries/src/search/objects.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index f83696e..a31769e 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -119,8 +119,18 @@ impl JinjaObjects {
                     }
                 }
             } else {
+                // The grammar has no keywords inside of an expression.
+                if value == "is" {
+                    self.test = (start, end, true);
+                    return ObjectAction::NewTest;
+                }
+                let negated = self.test.2 && value == "not";
+                let not_a_test = !self.test.2 && KEYWORDS.contains(&value);
+                if negated || not_a_test {
+                    return ObjectAction::Invalid;
+                }
                 // TODO: in future add those to main library
-                if VALID_IDENTIFIERS.contains(&value) {
+                if !self.test.2 && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
                 self.ident = (start, end);
@@ -318,6 +328,10 @@ static VALID_IDENTIFIERS: [&str; 8] = [
     "loop", "true", "false", "not", "as", "module", "super", "url_for",
 ];
 
+static KEYWORDS: [&str; 9] = [
+    "and", "or", "in", "if", "else", "none", "None", "True", "False",
+];
+
 #[derive(Default, Debug, Clone, Copy)]
 pub struct ExpressionRange {
     begin: (Point, Point),
-- 
2.43.0


From ce258158676f96b6c32dd953a5d89673d0f8d5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 26/64] fix: values of with and macro statements aren't
 definitions

Every identifier of the statement was taken for a new variable, like `b` in
`{% with a = b %}`, and was never reported as undefined from then on.
---
 jinja-lsp-queries/src/search/definition.rs | 28 +++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 2ae2955..b5df38a 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -257,9 +257,14 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::With { keys } => {
-                            keys.push(identifier);
+                            if names_value(capture.node, text) {
+                                keys.push(identifier);
+                            }
                         }
                         Definition::Macro { keys, scope } => {
+                            if is_value(capture.node, text) {
+                                return Some(false);
+                            }
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
                             }
@@ -378,6 +383,27 @@ fn is_first(keyword: Node) -> bool {
         .is_some_and(|node| node.kind() == "statement_begin")
 }
 
+fn operator_text<'a>(node: Option<Node>, text: &'a str) -> &'a str {
+    node.filter(|node| node.kind() == "operator")
+        .and_then(|node| text.get(node.byte_range()))
+        .map_or("", str::trim)
+}
+
+/// The name on the left side of `=`
+fn names_value(node: Node, text: &str) -> bool {
+    let before = operator_text(node.prev_sibling(), text);
+    let after = operator_text(node.next_sibling(), text);
+    (before.is_empty() || before.ends_with(','))
+        && after.starts_with('=')
+        && !after.starts_with("==")
+}
+
+/// The default of a parameter
+fn is_value(node: Node, text: &str) -> bool {
+    let before = operator_text(node.prev_sibling(), text);
+    !(before.is_empty() || before.ends_with('(') || before.ends_with(','))
+}
+
 /// Is there only a comma between `key` and `node`
 fn follows(node: Node, key: &Identifier, text: &str) -> bool {
     let Some(comma) = node.prev_sibling() else {
-- 
2.43.0


From e219874b9b3e2ea8ed0d448f1f8f975d1bc93da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 27/64] fix: the name of a keyword argument isn't a variable

It was reported as undefined in every call that has one.
---
 jinja-lsp-queries/src/search/objects.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index a31769e..ae6b5c3 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::Range;
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{completion_start, to_range, to_range2, Identifier};
 
@@ -133,6 +133,9 @@ impl JinjaObjects {
                 if !self.test.2 && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
+                if names_argument(capture.node, source) {
+                    return ObjectAction::Invalid;
+                }
                 self.ident = (start, end);
                 let is_test = self.test.2;
                 let is_filter = self.is_hover(start) && self.is_filter();
@@ -238,6 +241,22 @@ impl JinjaObjects {
     }
 }
 
+/// The name of a keyword argument, `with` and `macro` define what is on the left side of `=`
+fn names_argument(node: Node, source: &str) -> bool {
+    let text = |node: Option<Node>, kind: &str| {
+        node.filter(|node| node.kind() == kind)
+            .and_then(|node| source.get(node.byte_range()))
+            .map_or("", str::trim)
+    };
+    let before = text(node.prev_sibling(), "operator");
+    let after = text(node.next_sibling(), "operator");
+    let keyword = text(node.parent().and_then(|node| node.child(1)), "keyword");
+    (before.ends_with('(') || before.ends_with(','))
+        && after.starts_with('=')
+        && !after.starts_with("==")
+        && !["with", "macro"].contains(&keyword)
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From a04641bcc7e0c21bbc7067e5c2d62cbf8ad23185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 28/64] fix: don't offer filters at the start of a document

---
 jinja-lsp-queries/src/search/objects.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index ae6b5c3..0740efb 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -187,7 +187,9 @@ impl JinjaObjects {
     }
 
     pub fn in_pipe(&self, trigger_point: Point) -> bool {
-        trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
+        // There's no pipe at the start of a document.
+        let any = self.pipe.0 != self.pipe.1;
+        any && trigger_point >= self.pipe.0 && trigger_point <= self.pipe.1
     }
 
     pub fn in_expr(&self, trigger_point: Point) -> bool {
-- 
2.43.0


From 5ea0b7deb780a292b7ac9a21443e5ebddbd837f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 29/64] fix: offer tests wherever a test is expected, and only
 there

---
 jinja-lsp-queries/src/search/objects.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 0740efb..e9dc56c 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -47,6 +47,7 @@ pub struct JinjaObjects {
     dot: (Point, Point),
     pipe: (Point, Point),
     test: (Point, Point, bool),
+    test_ends: Point,
     expr: (Point, Point, ExpressionRange),
     ident: (Point, Point),
 }
@@ -84,6 +85,7 @@ impl JinjaObjects {
             }
             "is" => {
                 self.test = (start, end, true);
+                self.test_ends = parent_end(capture.node);
                 return Some(ObjectAction::NewTest);
             }
             "expr" => {
@@ -122,6 +124,7 @@ impl JinjaObjects {
                 // The grammar has no keywords inside of an expression.
                 if value == "is" {
                     self.test = (start, end, true);
+                    self.test_ends = parent_end(capture.node);
                     return ObjectAction::NewTest;
                 }
                 let negated = self.test.2 && value == "not";
@@ -157,6 +160,8 @@ impl JinjaObjects {
         let autoclose = self.should_autoclose();
         if self.in_pipe(trigger_point) {
             return Some((CompletionType::Filter, autoclose));
+        } else if self.is_test(trigger_point) {
+            return Some((CompletionType::Test, false));
         } else if self.in_expr(trigger_point) {
             if trigger_point == self.expr.2.begin.1 && trigger_point == self.expr.2.end.0 {
                 return Some((CompletionType::Identifier, autoclose));
@@ -180,8 +185,6 @@ impl JinjaObjects {
                 // }
             }
             return Some((CompletionType::Identifier, autoclose));
-        } else if self.is_test(trigger_point) {
-            return Some((CompletionType::Test, false));
         }
         None
     }
@@ -239,10 +242,17 @@ impl JinjaObjects {
     }
 
     pub fn is_test(&self, trigger_point: Point) -> bool {
-        self.test.2 && trigger_point >= self.test.1 && trigger_point.row == self.test.1.row
+        let same_row = trigger_point.row == self.test.1.row;
+        self.test.2 && same_row && trigger_point >= self.test.1 && trigger_point < self.test_ends
     }
 }
 
+/// Where the statement or expression around a node ends
+fn parent_end(node: Node) -> Point {
+    node.parent()
+        .map_or(node.end_position(), |parent| parent.end_position())
+}
+
 /// The name of a keyword argument, `with` and `macro` define what is on the left side of `=`
 fn names_argument(node: Node, source: &str) -> bool {
     let text = |node: Option<Node>, kind: &str| {
-- 
2.43.0


From 0a40fb3f5d832adf92f4ca0a0b2488e200c727c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 30/64] fix: the place of a filter starts with its pipe

---
 jinja-lsp-queries/src/search/objects.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index e9dc56c..bc5d023 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -78,7 +78,14 @@ impl JinjaObjects {
             "pipe" => {
                 let content = capture.node.utf8_text(source.as_bytes()).ok()?;
                 // There can be more before the pipe, like the end of a call.
-                if content.trim_end().ends_with('|') {
+                if let Some(before) = content.trim_end().strip_suffix('|') {
+                    let mut start = start;
+                    for byte in before.trim_end().bytes() {
+                        start.column += 1;
+                        if byte == b'\n' {
+                            start = Point::new(start.row + 1, 0);
+                        }
+                    }
                     self.pipe = (start, end);
                 }
                 return Some(ObjectAction::NewFilter);
-- 
2.43.0


From b6e037dc58b7ca3d257da4770778a15ba3752eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:08 +0000
Subject: [PATCH 31/64] fix: a template reference needs a file, not just
 anything of that name

---
 jinja-lsp-queries/src/lsp_helper.rs | 18 +++++++-----------
 jinja-lsp/src/lsp_files.rs          |  8 ++++++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index 45aa31e..b356e8a 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -1,4 +1,4 @@
-use std::{collections::HashMap, io::ErrorKind, path::PathBuf};
+use std::{collections::HashMap, path::PathBuf};
 
 use tower_lsp::lsp_types::{Diagnostic, DiagnosticSeverity, Position, Range};
 use tree_sitter::{Point, Tree};
@@ -109,11 +109,9 @@ pub fn search_errors(
                 } else {
                     let mut templates = templates.clone();
                     templates.push(path_items(&i.name));
-                    if let Err(err) = std::fs::canonicalize(templates) {
-                        if err.kind() == ErrorKind::NotFound {
-                            let diagnostic = (err_type, i.to_owned());
-                            diagnostics.push(diagnostic);
-                        }
+                    if !templates.is_file() {
+                        let diagnostic = (err_type, i.to_owned());
+                        diagnostics.push(diagnostic);
                     }
                 }
             }
@@ -127,11 +125,9 @@ pub fn search_errors(
             for template in templates2 {
                 let mut templates = templates.clone();
                 templates.push(path_items(&template.name));
-                if let Err(err) = std::fs::canonicalize(templates) {
-                    if err.kind() == ErrorKind::NotFound {
-                        let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
-                        diagnostics.push(diagnostic);
-                    }
+                if !templates.is_file() {
+                    let diagnostic = (JinjaDiagnostic::TemplateNotFound, template.to_owned());
+                    diagnostics.push(diagnostic);
                 }
             }
             Some(diagnostics)
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 57e209c..88e85db 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -423,7 +423,9 @@ impl LspFiles {
                     let identifier = query.in_template(point)?.get_identifier(point)?;
                     let mut path = self.config.templates.clone();
                     path.push(path_items(&identifier.name));
-                    let buffer = std::fs::canonicalize(path).ok()?;
+                    let buffer = std::fs::canonicalize(path)
+                        .ok()
+                        .filter(|path| path.is_file())?;
                     let url = Url::from_file_path(buffer).ok()?;
                     let range = Range::new(Position::default(), Position::default());
                     let location = Location::new(url, range);
@@ -469,7 +471,9 @@ impl LspFiles {
                 let template = templates.in_template(point)?;
                 let mut path = self.config.templates.clone();
                 path.push(path_items(&template.name));
-                let buffer = std::fs::canonicalize(path).ok()?;
+                let buffer = std::fs::canonicalize(path)
+                    .ok()
+                    .filter(|path| path.is_file())?;
                 let url = Url::from_file_path(buffer).ok()?;
                 let range = Range::new(Position::default(), Position::default());
                 let location = Location::new(url, range);
-- 
2.43.0


From 5b58e05253fd01a6602628abda3b1d29dad7fcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 32/64] fix: quotes inside of a template's name belong to it

---
 jinja-lsp-queries/src/search/rust_template_completion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/rust_template_completion.rs b/jinja-lsp-queries/src/search/rust_template_completion.rs
index ca42323..6b5b823 100644
--- a/jinja-lsp-queries/src/search/rust_template_completion.rs
+++ b/jinja-lsp-queries/src/search/rust_template_completion.rs
@@ -21,7 +21,7 @@ impl BackendTemplates {
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         if name == "template_name" && self.in_method {
             let template = capture.node.utf8_text(text.as_bytes()).ok()?;
-            let template = template.replace(['\"', '\''], "");
+            let template = template.trim_matches(['\"', '\'']).to_string();
             let start = capture.node.start_position();
             let end = capture.node.end_position();
             let mut identifer = Identifier::new(&template, start, end);
-- 
2.43.0


From 992d50a7748147a9294f5579e16a48a91df3065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:42 +0000
Subject: [PATCH 33/64] fix: filter the names of templates by all that is typed

---
 jinja-lsp-queries/src/search/mod.rs | 8 ++++++++
 jinja-lsp/src/lsp_files.rs          | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 2538cd5..9980623 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -73,6 +73,14 @@ pub fn completion_start(mut trigger_point: Point, identifier: &Identifier) -> Op
     let s = identifier.name.get(0..to + 1);
     s
 }
+
+/// What is typed of the name of a template, it stands between quotes.
+pub fn template_start(trigger_point: Point, identifier: &Identifier) -> Option<&str> {
+    let start = identifier.start.column + 1;
+    let typed = trigger_point.column.saturating_sub(start);
+    identifier.name.get(..typed.min(identifier.name.len()))
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 88e85db..4c27180 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -1,7 +1,6 @@
 use jinja_lsp_queries::{
     lsp_helper::{path_items, search_errors},
     search::{
-        completion_start,
         definition::definition_query,
         objects::{objects_query, JinjaObject},
         python_identifiers::{python_identifiers, PythonIdentifier},
@@ -9,6 +8,7 @@ use jinja_lsp_queries::{
         rust_identifiers::backend_definition_query,
         rust_template_completion::backend_templates_query,
         snippets_completion::snippets_query,
+        template_start,
         templates::templates_query,
         to_range, Identifier, IdentifierType,
     },
@@ -293,7 +293,7 @@ impl LspFiles {
                 let query = &self.queries.jinja_imports;
                 let query = templates_query(query, tree, point, &writter.content, false);
                 let identifier = query.in_template(point)?.get_identifier(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier)?;
                 let range = to_range((identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
@@ -312,7 +312,7 @@ impl LspFiles {
                     false,
                 );
                 let identifier = rust_templates.in_template(point)?;
-                let start = completion_start(point, identifier)?;
+                let start = template_start(point, identifier)?;
                 let range = to_range((identifier.start, identifier.end));
                 Some((
                     CompletionType::IncludedTemplate {
-- 
2.43.0


From 8943b4cf7b3b65f2134ac7ed1e4522759860b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:16 +0000
Subject: [PATCH 34/64] fix: names inside of other macros aren't given to
 templates

---
 .../src/search/rust_identifiers.rs            | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/rust_identifiers.rs b/jinja-lsp-queries/src/search/rust_identifiers.rs
index 10454b6..faee9bf 100644
--- a/jinja-lsp-queries/src/search/rust_identifiers.rs
+++ b/jinja-lsp-queries/src/search/rust_identifiers.rs
@@ -1,4 +1,4 @@
-use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
+use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
 use super::{Identifier, IdentifierType};
 
@@ -22,6 +22,9 @@ impl BackendIdentifiers {
     pub fn check(&mut self, name: &str, capture: &QueryCapture<'_>, text: &str) -> Option<()> {
         match name {
             "key_id" => {
+                if in_other_macro(capture.node, text) {
+                    return Some(());
+                }
                 let start = capture.node.start_position();
                 let end = capture.node.end_position();
                 let name = capture.node.utf8_text(text.as_bytes()).ok()?;
@@ -47,6 +50,28 @@ impl BackendIdentifiers {
     }
 }
 
+/// Only what's inside of `context!` is given to templates, wherever it's invoked.
+fn in_other_macro(node: Node, text: &str) -> bool {
+    let mut parent = node.parent();
+    let mut macros = 0;
+    while let Some(node) = parent {
+        parent = node.parent();
+        if node.kind() != "token_tree" {
+            continue;
+        }
+        macros += 1;
+        let name = node
+            .prev_sibling()
+            .filter(|before| before.kind() == "!")
+            .and_then(|before| before.prev_sibling())
+            .and_then(|name| name.utf8_text(text.as_bytes()).ok());
+        if name.is_some_and(|name| name.rsplit("::").next() == Some("context")) {
+            return false;
+        }
+    }
+    macros > 0
+}
+
 pub fn backend_definition_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 202f1303861151cbc03bbfd843e2b18b79eb31fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 35/64] fix: whatever renders a template gives its arguments to
 it

---
 jinja-lsp-queries/src/search/queries.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index ce806e7..8161a43 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -272,7 +272,6 @@ pub static PYTHON_DEFINITIONS: &str = r#"
       
       (call
         function: (attribute
-          object: (identifier)
           attribute: (identifier) @method
         ) 
         arguments: (argument_list
-- 
2.43.0


From 0173cfdc514433e624cef0e1aedf67c6a456c08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:21 +0000
Subject: [PATCH 36/64] fix: only add_global, add_filter and add_function
 register names

---
 jinja-lsp-queries/src/search/queries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 8161a43..1c134ff 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -104,7 +104,7 @@ pub static RUST_DEFINITIONS: &str = r#"
         )
     
         (#eq? @jinja "jinja")
-        (#match? @method "(add_global|add_filter|add_function)")
+        (#match? @method "^(add_global|add_filter|add_function)$")
     
     ) @function
 
-- 
2.43.0


From 6b1347621f412d7b024344e616fdb77befd792b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:26 +0000
Subject: [PATCH 37/64] fix: the name of a template that is loaded isn't a
 variable

---
 jinja-lsp-queries/src/lsp_helper.rs | 8 ++++----
 jinja-lsp/src/lsp_files.rs          | 5 ++++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/jinja-lsp-queries/src/lsp_helper.rs b/jinja-lsp-queries/src/lsp_helper.rs
index b356e8a..cfafd8a 100644
--- a/jinja-lsp-queries/src/lsp_helper.rs
+++ b/jinja-lsp-queries/src/lsp_helper.rs
@@ -73,10 +73,10 @@ pub fn search_errors(
                         if file.0 == file_name {
                             continue;
                         }
-                        let temp = file
-                            .1
-                            .iter()
-                            .filter(|variable| variable.name == object.name);
+                        let temp = file.1.iter().filter(|variable| {
+                            variable.identifier_type != IdentifierType::JinjaTemplate
+                                && variable.name == object.name
+                        });
                         if temp.count() != 0 {
                             err_type = JinjaDiagnostic::DefinedSomewhere;
                             to_warn = true;
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 4c27180..32ab718 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -439,7 +439,9 @@ impl LspFiles {
                             continue;
                         }
                         let variables = file.1.iter().filter(|item| {
-                            item.name.split('.').next().unwrap_or(&item.name) == current_ident
+                            item.identifier_type != IdentifierType::JinjaTemplate
+                                && item.name.split('.').next().unwrap_or(&item.name)
+                                    == current_ident
                         });
                         for variable in variables {
                             let uri = {
@@ -920,6 +922,7 @@ impl LspFiles {
             let variables = file
                 .1
                 .iter()
+                .filter(|item| item.identifier_type != IdentifierType::JinjaTemplate)
                 .filter(|item| item.name.split('.').next().unwrap_or(&item.name) == hover.name);
             if variables.count() > 0 {
                 return Some(IdentifierType::BackendVariable);
-- 
2.43.0


From 1d3fff42eedb3a2c3cc366f93ba98e6ecaaa680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 38/64] fix: analyse edited documents without a workspace as
 well

---
 jinja-lsp/src/channels/lsp.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 8dd7372..916c73e 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -37,6 +37,8 @@ pub fn lsp_task(
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
+    // Documents are analysed after edits even if there's no workspace to read.
+    lsp_data.main_channel = Some(lsp_channel.clone());
     let filters = init_filter_completions();
     let template_tests = init_template_test_completions();
     let snippets = snippets();
-- 
2.43.0


From e3c8e4f30e36f8b876a0e58fbe794cd289d41741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 39/64] fix: hints that are no places have no location

---
 jinja-lsp/src/lsp_files.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 32ab718..1afbd9e 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -448,11 +448,15 @@ impl LspFiles {
                                 if variable.start == Point::new(0, 0)
                                     && variable.end == Point::new(0, 0)
                                 {
-                                    Url::parse(&format!("{}-{}", &file.0, &variable.name)).unwrap()
+                                    Url::parse(&format!("{}-{}", &file.0, &variable.name))
                                 } else {
-                                    Url::parse(file.0).unwrap()
+                                    Url::parse(file.0)
                                 }
                             };
+                            // Hints can have any name, not all of them are places to go to.
+                            let Ok(uri) = uri else {
+                                continue;
+                            };
                             let start = to_position2(variable.start);
                             let end = to_position2(variable.end);
                             let range = Range::new(start, end);
-- 
2.43.0


From 2e47d86342530c51330dc87fd2ab72eb44f3a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 40/64] fix: go to definitions in files with any name

---
 jinja-lsp-nodejs/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 3436232..4e0349a 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -492,9 +492,10 @@ impl NodejsLspFiles {
     let mut definitions = vec![];
     match defintion {
       GotoDefinitionResponse::Scalar(mut location) => {
-        let uri2 = location.uri.to_string();
-        if uri2.contains(&filename) {
-          location.uri = Url::parse(&filename).unwrap();
+        if location.uri == uri {
+          if let Ok(url) = Url::parse(&filename) {
+            location.uri = url;
+          }
           location.range.start.line += line;
           location.range.end.line += line;
           definitions.push(JsLocation::from(&location));
-- 
2.43.0


From 3badb4ca9455c70ad6198c99207a26eec8256537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:13 +0000
Subject: [PATCH 41/64] fix: nothing is known of positions above a fragment

---
 jinja-lsp-nodejs/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index 4e0349a..a5cd681 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -260,7 +260,8 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<JsHover> {
-    position.line -= line;
+    // What is above the fragment isn't part of it.
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: HoverParams = HoverParams {
       text_document_position_params: TextDocumentPositionParams::new(
@@ -343,7 +344,8 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsCompletionItem>> {
-    position.line -= line;
+    // What is above the fragment isn't part of it.
+    position.line = position.line.checked_sub(line)?;
     let original_uri = filename.to_string();
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let position = Position::new(position.line, position.character);
@@ -474,7 +476,8 @@ impl NodejsLspFiles {
     line: u32,
     mut position: JsPosition,
   ) -> Option<Vec<JsLocation>> {
-    position.line -= line;
+    // What is above the fragment isn't part of it.
+    position.line = position.line.checked_sub(line)?;
     let uri = Url::parse(&format!("file:///home/{filename}.{id}.jinja")).unwrap();
     let params: GotoDefinitionParams = GotoDefinitionParams {
       text_document_position_params: TextDocumentPositionParams::new(
-- 
2.43.0


From 5fcf24feebb813cb46fc9673be1926caac914141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 42/64] fix: deleting the fragments of a file leaves other
 files alone

---
 jinja-lsp-nodejs/src/lib.rs | 4 +++-
 jinja-lsp/src/lsp_files.rs  | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index a5cd681..e076104 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -124,7 +124,9 @@ impl NodejsLspFiles {
 
   #[napi]
   pub fn delete_all(&mut self, filename: String) {
-    self.lsp_files.delete_documents_with_id(filename);
+    let fragment = Url::parse(&format!("file:///home/{filename}.0.jinja")).unwrap();
+    let prefix = fragment.as_str().trim_end_matches("0.jinja");
+    self.lsp_files.delete_documents_with_id(prefix.to_owned());
     self.counter = 0;
     // self.lsp_files.main_channel
   }
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 1afbd9e..8cd883d 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -962,10 +962,14 @@ impl LspFiles {
         self.documents.clear();
     }
 
+    /// Deletes documents named by `id`, a number and an extension.
     pub fn delete_documents_with_id(&mut self, id: String) {
         let mut ids = vec![];
         for i in &self.documents {
-            if i.0.contains(&id) {
+            let rest = i.0.strip_prefix(&id).and_then(|rest| rest.split_once('.'));
+            if rest.is_some_and(|(number, ext)| {
+                number.parse::<u32>().is_ok() && !ext.contains(['.', '/'])
+            }) {
                 ids.push(i.0.clone());
             }
         }
-- 
2.43.0


From cc1ca05fc43c2f61fbf6b808e1367f6241c66b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 43/64] fix: other fragments are not hints

---
 jinja-lsp-nodejs/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index e076104..cd44738 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -509,7 +509,11 @@ impl NodejsLspFiles {
       GotoDefinitionResponse::Array(locations) => {
         for mut location in locations {
           let uri2 = location.uri.to_string();
-          if uri2.contains("temp") {
+          let is_hint = self.actions.keys().any(|hint| {
+            hint.contains("temp")
+              && Url::parse(hint).is_ok_and(|hint| uri2.starts_with(hint.as_str()))
+          });
+          if is_hint {
             location.uri = Url::parse(&uri2).unwrap();
             location.range.start.line += line;
             location.range.end.line += line;
-- 
2.43.0


From a28c8f63ed4be7c782a7510b875527038cfc0858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:42 +0000
Subject: [PATCH 44/64] fix: hover shows the hint of that name

---
 jinja-lsp-nodejs/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp-nodejs/src/lib.rs b/jinja-lsp-nodejs/src/lib.rs
index cd44738..81f2efd 100644
--- a/jinja-lsp-nodejs/src/lib.rs
+++ b/jinja-lsp-nodejs/src/lib.rs
@@ -309,7 +309,7 @@ impl NodejsLspFiles {
       };
       let value = actions
         .iter()
-        .find(|item| item.name.starts_with(&full_name))
+        .find(|item| item.name.split('.').next() == Some(&full_name))
         .unwrap_or(&action);
       let markup_content = MarkupContent {
         kind: MarkupKind::Markdown,
-- 
2.43.0


From fafa16d94588fe5ffb0a733a8a26f1b53422afdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:44 +0000
Subject: [PATCH 45/64] fix: accepting a name in VS Code inserts that name

---
 jinja-lsp/src/lsp_files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index 8cd883d..b7a0021 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -653,7 +653,7 @@ impl LspFiles {
                         let mut edits = vec;
                         edits.push(TextEdit {
                             range: incomplete_range,
-                            new_text: start_item.to_string(),
+                            new_text: identifier.name.to_string(),
                         });
                         additional_text_edits = Some(edits);
                         CompletionTextEdit::Edit(TextEdit {
-- 
2.43.0


From 8be7b6952b8477011eb9f0b402720080cdaeca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:51 +0000
Subject: [PATCH 46/64] fix: tests are completed on the lines after is, not
 only on its own

---
 jinja-lsp-queries/src/search/objects.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index bc5d023..29d4788 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -249,8 +249,7 @@ impl JinjaObjects {
     }
 
     pub fn is_test(&self, trigger_point: Point) -> bool {
-        let same_row = trigger_point.row == self.test.1.row;
-        self.test.2 && same_row && trigger_point >= self.test.1 && trigger_point < self.test_ends
+        self.test.2 && trigger_point >= self.test.1 && trigger_point < self.test_ends
     }
 }
 
-- 
2.43.0


From 31758e15337b957a81f626a869f0abcd61299e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:29 +0000
Subject: [PATCH 47/64] fix: ask clients to say when documents are opened and
 closed

---
 jinja-lsp/src/channels/lsp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 916c73e..a8499cc 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -84,6 +84,7 @@ pub fn lsp_task(
                             position_encoding,
                             text_document_sync: Some(TextDocumentSyncCapability::Options(
                                 TextDocumentSyncOptions {
+                                    open_close: Some(true),
                                     change: Some(TextDocumentSyncKind::INCREMENTAL),
                                     will_save: Some(true),
                                     save: Some(TextDocumentSyncSaveOptions::Supported(true)),
-- 
2.43.0


From 9a7d919ae10e74f7062fda5450b21e4697519153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 48/64] fix: end with the client even if it goes away at the
 start

The main task waited for the client to take its log messages. If the input
ended meanwhile they were never taken, requests were never answered, and
the process stayed forever.
---
 jinja-lsp/src/backend.rs              |  7 +---
 jinja-lsp/src/channels/diagnostics.rs |  4 +--
 jinja-lsp/src/channels/lsp.rs         | 48 ++++++++++++---------------
 3 files changed, 24 insertions(+), 35 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 61a9827..d5a83bb 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -160,12 +160,7 @@ impl Backend {
         let (lsp_sender, lsp_recv) = mpsc::channel(50);
         // The two tasks feed each other, they'd wait forever if both channels could be full.
         let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
-        lsp_task(
-            client.clone(),
-            diagnostic_sender,
-            lsp_sender.clone(),
-            lsp_recv,
-        );
+        lsp_task(diagnostic_sender, lsp_sender.clone(), lsp_recv);
         diagnostics_task(client.clone(), diagnostic_recv, lsp_sender.clone());
         Self {
             main_channel: lsp_sender,
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index fe92399..cd9a622 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -19,7 +19,7 @@ pub fn diagnostics_task(
     tokio::spawn(async move {
         while let Some(msg) = receiver.recv().await {
             match msg {
-                DiagnosticMessage::Str(msg) => client.log_message(MessageType::INFO, msg).await,
+                DiagnosticMessage::Log(level, msg) => client.log_message(level, msg).await,
                 DiagnosticMessage::Errors(all_errors) => {
                     let mut code_actions = HashMap::new();
                     for (uri, errors) in all_errors.into_iter() {
@@ -55,5 +55,5 @@ pub fn diagnostics_task(
 #[derive(Debug)]
 pub enum DiagnosticMessage {
     Errors(HashMap<String, Vec<(JinjaDiagnostic, Identifier)>>),
-    Str(String),
+    Log(MessageType, String),
 }
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index a8499cc..6527a86 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -4,20 +4,17 @@ use jinja_lsp_queries::search::{
 use serde_json::Value;
 use std::collections::HashMap;
 use tokio::sync::{mpsc, oneshot};
-use tower_lsp::{
-    lsp_types::{
-        CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
-        CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
-        CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
-        DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
-        DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
-        ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
-        HoverParams, HoverProviderCapability, InitializeParams, InitializeResult,
-        InsertReplaceEdit, MarkupContent, MarkupKind, MessageType, OneOf, PositionEncodingKind,
-        ServerCapabilities, ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability,
-        TextDocumentSyncKind, TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
-    },
-    Client,
+use tower_lsp::lsp_types::{
+    CodeActionParams, CodeActionProviderCapability, CodeActionResponse, CompletionItem,
+    CompletionItemKind, CompletionOptions, CompletionParams, CompletionResponse,
+    CompletionTextEdit, DidChangeConfigurationParams, DidChangeTextDocumentParams,
+    DidCloseTextDocumentParams, DidOpenTextDocumentParams, DidSaveTextDocumentParams,
+    DocumentSymbolParams, DocumentSymbolResponse, Documentation, ExecuteCommandOptions,
+    ExecuteCommandParams, GotoDefinitionParams, GotoDefinitionResponse, Hover, HoverContents,
+    HoverParams, HoverProviderCapability, InitializeParams, InitializeResult, InsertReplaceEdit,
+    MarkupContent, MarkupKind, MessageType, OneOf, PositionEncodingKind, ServerCapabilities,
+    ServerInfo, TextDocumentIdentifier, TextDocumentSyncCapability, TextDocumentSyncKind,
+    TextDocumentSyncOptions, TextDocumentSyncSaveOptions, TextEdit,
 };
 
 use crate::{
@@ -30,7 +27,6 @@ use crate::{
 use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
-    client: Client,
     diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
     lsp_channel: mpsc::Sender<LspMessage>,
     mut lsp_recv: mpsc::Receiver<LspMessage>,
@@ -121,21 +117,20 @@ pub fn lsp_task(
                     let _ = sender.send(msg);
                 }
                 LspMessage::Initialized(sender) => {
-                    client.log_message(MessageType::INFO, "Initialized").await;
+                    // The client may be gone, this task doesn't wait for it.
+                    let log = |level: MessageType, msg: &str| {
+                        let _ = diagnostics_channel
+                            .send(DiagnosticMessage::Log(level, msg.to_string()));
+                    };
+                    log(MessageType::INFO, "Initialized");
                     if !config.user_defined {
-                        client
-                            .log_message(MessageType::WARNING, "Config doesn't exist.")
-                            .await;
+                        log(MessageType::WARNING, "Config doesn't exist.");
                     }
                     if config.templates.as_path().to_str().unwrap().is_empty() {
-                        client
-                            .log_message(MessageType::WARNING, "Template directory not found")
-                            .await;
+                        log(MessageType::WARNING, "Template directory not found");
                     }
                     if !["rust", "python"].contains(&config.lang.as_str()) {
-                        client
-                            .log_message(MessageType::WARNING, "Backend language not supported")
-                            .await;
+                        log(MessageType::WARNING, "Backend language not supported");
                     } else {
                         match walkdir(&config) {
                             Ok(mut errors) => {
@@ -150,8 +145,7 @@ pub fn lsp_task(
                                 let _ = sender.send(true);
                             }
                             Err(err) => {
-                                let msg = err.to_string();
-                                client.log_message(MessageType::INFO, msg).await;
+                                log(MessageType::INFO, &err.to_string());
                                 let _ = sender.send(false);
                             }
                         }
-- 
2.43.0


From c5c8b53a1bd7f8eda568ce3d723e78483317c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:15 +0000
Subject: [PATCH 49/64] fix: handle messages in the order they were sent, even
 many at once

---
 jinja-lsp/src/backend.rs              | 46 ++++++++++-----------------
 jinja-lsp/src/channels/diagnostics.rs |  8 ++---
 jinja-lsp/src/channels/lsp.rs         | 16 +++-------
 jinja-lsp/src/lsp_files.rs            |  6 ++--
 4 files changed, 27 insertions(+), 49 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index d5a83bb..03bd026 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -1,6 +1,6 @@
 use serde_json::Value;
 use tokio::sync::{
-    mpsc::{self, Sender},
+    mpsc::{self, UnboundedSender},
     oneshot,
 };
 use tower_lsp::{
@@ -25,7 +25,7 @@ use crate::channels::{
 };
 
 pub struct Backend {
-    main_channel: Sender<LspMessage>,
+    main_channel: UnboundedSender<LspMessage>,
 }
 
 #[tower_lsp::async_trait]
@@ -34,8 +34,7 @@ impl LanguageServer for Backend {
         let (sender, rx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Initialize(Box::new(params), sender))
-            .await;
+            .send(LspMessage::Initialize(Box::new(params), sender));
         if let Ok(msg) = rx.await {
             Ok(msg)
         } else {
@@ -45,34 +44,30 @@ impl LanguageServer for Backend {
 
     async fn initialized(&self, _params: InitializedParams) {
         let (sender, _) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Initialized(sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Initialized(sender));
     }
 
     async fn did_open(&self, params: DidOpenTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidOpen(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidOpen(params));
     }
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidClose(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidClose(params));
     }
 
     async fn did_change(&self, params: DidChangeTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidChange(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidChange(params));
     }
 
     async fn did_save(&self, params: DidSaveTextDocumentParams) {
-        let _ = self.main_channel.send(LspMessage::DidSave(params)).await;
+        let _ = self.main_channel.send(LspMessage::DidSave(params));
     }
 
     async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::Completion(params, sender))
-            .await;
+            .send(LspMessage::Completion(params, sender));
         if let Ok(completion) = tx.await {
             return Ok(completion);
         }
@@ -81,10 +76,7 @@ impl LanguageServer for Backend {
 
     async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
         let (sender, tx) = oneshot::channel();
-        let _ = self
-            .main_channel
-            .send(LspMessage::Hover(params, sender))
-            .await;
+        let _ = self.main_channel.send(LspMessage::Hover(params, sender));
         if let Ok(hover) = tx.await {
             return Ok(hover);
         }
@@ -98,8 +90,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::GoToDefinition(params, sender))
-            .await;
+            .send(LspMessage::GoToDefinition(params, sender));
         if let Ok(definition) = tx.await {
             return Ok(definition);
         }
@@ -110,8 +101,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::CodeAction(params, sender))
-            .await;
+            .send(LspMessage::CodeAction(params, sender));
         if let Ok(code_action) = tx.await {
             return Ok(code_action);
         }
@@ -122,8 +112,7 @@ impl LanguageServer for Backend {
         let (sender, _) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::ExecuteCommand(params, sender))
-            .await;
+            .send(LspMessage::ExecuteCommand(params, sender));
         Ok(None)
     }
 
@@ -134,8 +123,7 @@ impl LanguageServer for Backend {
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
-            .send(LspMessage::DocumentSymbol(params, sender))
-            .await;
+            .send(LspMessage::DocumentSymbol(params, sender));
         if let Ok(symbols) = tx.await {
             return Ok(symbols);
         }
@@ -146,8 +134,7 @@ impl LanguageServer for Backend {
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let _ = self
             .main_channel
-            .send(LspMessage::DidChangeConfiguration(params))
-            .await;
+            .send(LspMessage::DidChangeConfiguration(params));
     }
 
     async fn shutdown(&self) -> Result<()> {
@@ -157,7 +144,8 @@ impl LanguageServer for Backend {
 
 impl Backend {
     pub fn _new(client: Client) -> Self {
-        let (lsp_sender, lsp_recv) = mpsc::channel(50);
+        // Handlers that wait for room in a channel don't go on in the order of their messages.
+        let (lsp_sender, lsp_recv) = mpsc::unbounded_channel();
         // The two tasks feed each other, they'd wait forever if both channels could be full.
         let (diagnostic_sender, diagnostic_recv) = mpsc::unbounded_channel();
         lsp_task(diagnostic_sender, lsp_sender.clone(), lsp_recv);
diff --git a/jinja-lsp/src/channels/diagnostics.rs b/jinja-lsp/src/channels/diagnostics.rs
index cd9a622..ac3550d 100644
--- a/jinja-lsp/src/channels/diagnostics.rs
+++ b/jinja-lsp/src/channels/diagnostics.rs
@@ -3,7 +3,7 @@ use std::collections::HashMap;
 use jinja_lsp_queries::{
     lsp_helper::create_diagnostic, search::Identifier, tree_builder::JinjaDiagnostic,
 };
-use tokio::sync::mpsc::{Sender, UnboundedReceiver};
+use tokio::sync::mpsc::{UnboundedReceiver, UnboundedSender};
 use tower_lsp::{
     lsp_types::{MessageType, Url},
     Client,
@@ -14,7 +14,7 @@ use super::lsp::LspMessage;
 pub fn diagnostics_task(
     client: Client,
     mut receiver: UnboundedReceiver<DiagnosticMessage>,
-    lsp_channel: Sender<LspMessage>,
+    lsp_channel: UnboundedSender<LspMessage>,
 ) {
     tokio::spawn(async move {
         while let Some(msg) = receiver.recv().await {
@@ -43,9 +43,7 @@ pub fn diagnostics_task(
                         let uri = Url::parse(&uri).unwrap();
                         client.publish_diagnostics(uri, v, None).await;
                     }
-                    let _ = lsp_channel
-                        .send(LspMessage::CodeActions(code_actions))
-                        .await;
+                    let _ = lsp_channel.send(LspMessage::CodeActions(code_actions));
                 }
             }
         }
diff --git a/jinja-lsp/src/channels/lsp.rs b/jinja-lsp/src/channels/lsp.rs
index 6527a86..f9349b7 100644
--- a/jinja-lsp/src/channels/lsp.rs
+++ b/jinja-lsp/src/channels/lsp.rs
@@ -28,8 +28,8 @@ use super::diagnostics::DiagnosticMessage;
 
 pub fn lsp_task(
     diagnostics_channel: mpsc::UnboundedSender<DiagnosticMessage>,
-    lsp_channel: mpsc::Sender<LspMessage>,
-    mut lsp_recv: mpsc::Receiver<LspMessage>,
+    lsp_channel: mpsc::UnboundedSender<LspMessage>,
+    mut lsp_recv: mpsc::UnboundedReceiver<LspMessage>,
 ) {
     let mut config = JinjaConfig::default();
     let mut lsp_data = LspFiles::default();
@@ -338,7 +338,7 @@ pub fn lsp_task(
                     let command = params.command;
                     if command == "reset_variables" {
                         let (sender2, _) = oneshot::channel();
-                        send_later(&lsp_channel, LspMessage::Initialized(sender2));
+                        let _ = lsp_channel.send(LspMessage::Initialized(sender2));
                         let _ = sender.send(None);
                     }
                 }
@@ -367,7 +367,7 @@ pub fn lsp_task(
                     if !config.user_defined {
                         continue;
                     }
-                    send_later(&lsp_channel, LspMessage::Initialized(sender));
+                    let _ = lsp_channel.send(LspMessage::Initialized(sender));
                 }
                 LspMessage::CodeActions(code_actions) => {
                     lsp_data.add_code_actions(code_actions);
@@ -377,14 +377,6 @@ pub fn lsp_task(
     });
 }
 
-/// The receiver of this channel can't wait for room in it.
-fn send_later(lsp_channel: &mpsc::Sender<LspMessage>, msg: LspMessage) {
-    let lsp_channel = lsp_channel.clone();
-    tokio::spawn(async move {
-        let _ = lsp_channel.send(msg).await;
-    });
-}
-
 pub enum LspMessage {
     Initialize(Box<InitializeParams>, oneshot::Sender<InitializeResult>),
     Initialized(oneshot::Sender<bool>),
diff --git a/jinja-lsp/src/lsp_files.rs b/jinja-lsp/src/lsp_files.rs
index b7a0021..91271e5 100644
--- a/jinja-lsp/src/lsp_files.rs
+++ b/jinja-lsp/src/lsp_files.rs
@@ -56,7 +56,7 @@ pub struct LspFiles {
     pub queries: Queries,
     pub config: JinjaConfig,
     pub diagnostics_tasks: HashMap<String, JoinHandle<()>>,
-    pub main_channel: Option<mpsc::Sender<LspMessage>>,
+    pub main_channel: Option<mpsc::UnboundedSender<LspMessage>>,
     pub variables: HashMap<String, Vec<Identifier>>,
     pub code_actions: HashMap<String, Vec<Identifier>>,
     pub is_vscode: bool,
@@ -198,7 +198,7 @@ impl LspFiles {
         let task = tokio::spawn(async move {
             sleep(Duration::from_millis(200)).await;
             if let Some(channel) = channel {
-                let _ = channel.send(LspMessage::DidSave(param)).await;
+                let _ = channel.send(LspMessage::DidSave(param));
             }
         });
         self.diagnostics_tasks.insert(uri, task);
@@ -582,7 +582,7 @@ impl LspFiles {
                 tokio::spawn(async move {
                     sleep(Duration::from_millis(1400)).await;
                     if let Some(lsp_channel) = lsp_channel {
-                        let _ = lsp_channel.send(LspMessage::DidSave(param)).await;
+                        let _ = lsp_channel.send(LspMessage::DidSave(param));
                     }
                 });
                 Some(commands)
-- 
2.43.0


From 8a3f83884c06af5f9c0e9927e2f99b975577cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 50/64] fix: say that the snippets are snippets, not text

---
 jinja-lsp-queries/src/search/snippets_completion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/snippets_completion.rs b/jinja-lsp-queries/src/search/snippets_completion.rs
index d61d0bd..996a161 100644
--- a/jinja-lsp-queries/src/search/snippets_completion.rs
+++ b/jinja-lsp-queries/src/search/snippets_completion.rs
@@ -1,6 +1,6 @@
 use crate::to_input_edit::to_position2;
 use tower_lsp::lsp_types::{
-    CompletionItem, CompletionItemKind, CompletionTextEdit, Range, TextEdit,
+    CompletionItem, CompletionItemKind, CompletionTextEdit, InsertTextFormat, Range, TextEdit,
 };
 use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
 
@@ -173,6 +173,7 @@ pub fn snippets() -> Vec<CompletionItem> {
             label: snippet.0.to_owned(),
             detail: Some(snippet.1.to_owned()),
             kind: Some(CompletionItemKind::SNIPPET),
+            insert_text_format: Some(InsertTextFormat::SNIPPET),
             text_edit: Some(text_edit),
             ..Default::default()
         };
-- 
2.43.0


From a45040611414622937e675517b8ef216e532e298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:05 +0000
Subject: [PATCH 51/64] fix: the name of a filter block is a filter

---
 jinja-lsp-queries/src/search/objects.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 29d4788..8c275ce 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -146,6 +146,9 @@ impl JinjaObjects {
                 if names_argument(capture.node, source) {
                     return ObjectAction::Invalid;
                 }
+                if names_block_filter(capture.node, source) {
+                    self.pipe = (start, start);
+                }
                 self.ident = (start, end);
                 let is_test = self.test.2;
                 let is_filter = self.is_hover(start) && self.is_filter();
@@ -275,6 +278,14 @@ fn names_argument(node: Node, source: &str) -> bool {
         && !["with", "macro"].contains(&keyword)
 }
 
+/// The first filter of `{% filter %}` has no pipe before it
+fn names_block_filter(node: Node, source: &str) -> bool {
+    node.prev_sibling()
+        .filter(|before| before.kind() == "keyword")
+        .and_then(|before| source.get(before.byte_range()))
+        .is_some_and(|keyword| keyword == "filter")
+}
+
 pub fn objects_query(
     query: &Query,
     tree: &Tree,
-- 
2.43.0


From 9f2989b7bd9d2d91a54303db8cb1a441ceb75001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:17 +0000
Subject: [PATCH 52/64] fix: ignore missing and with context aren't variables

---
 jinja-lsp-queries/src/search/objects.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 8c275ce..9324f85 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -143,7 +143,7 @@ impl JinjaObjects {
                 if !self.test.2 && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
-                if names_argument(capture.node, source) {
+                if names_argument(capture.node, source) || modifies_import(capture.node, source) {
                     return ObjectAction::Invalid;
                 }
                 if names_block_filter(capture.node, source) {
@@ -278,6 +278,25 @@ fn names_argument(node: Node, source: &str) -> bool {
         && !["with", "macro"].contains(&keyword)
 }
 
+/// `ignore missing`, `with context` and `without context`
+fn modifies_import(node: Node, source: &str) -> bool {
+    let text = |node: Option<Node>| {
+        node.and_then(|node| source.get(node.byte_range()))
+            .map_or("", str::trim)
+    };
+    let keyword = text(node.parent().and_then(|node| node.child(1)));
+    let before = text(node.prev_sibling());
+    let after = text(node.next_sibling());
+    ["include", "import", "from"].contains(&keyword)
+        && match text(Some(node)) {
+            "ignore" => after == "missing",
+            "missing" => before == "ignore",
+            "without" => after == "context",
+            "context" => before == "with" || before == "without",
+            _ => false,
+        }
+}
+
 /// The first filter of `{% filter %}` has no pipe before it
 fn names_block_filter(node: Node, source: &str) -> bool {
     node.prev_sibling()
-- 
2.43.0


From 6f255531bb409df0379975561c698a15ff96b7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 53/64] fix: set and for can define more than one or two names

---
 jinja-lsp-queries/src/search/definition.rs | 79 +++++++++++-----------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index b5df38a..0ad5065 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -8,10 +8,10 @@ use super::{Identifier, IdentifierType};
 pub enum Definition {
     ForLoop {
         key: Identifier,
-        value: Option<Identifier>,
+        values: Vec<Identifier>,
     },
     Set {
-        key: Identifier,
+        keys: Vec<Identifier>,
         equals: bool,
     },
     With {
@@ -29,17 +29,19 @@ pub enum Definition {
 impl Definition {
     fn collect(self, ids: &mut Vec<Identifier>) {
         match self {
-            Definition::ForLoop { mut key, value, .. } => {
+            Definition::ForLoop { mut key, values } => {
                 key.identifier_type = IdentifierType::ForLoopKey;
                 ids.push(key);
-                if let Some(mut value) = value {
+                for mut value in values {
                     value.identifier_type = IdentifierType::ForLoopValue;
                     ids.push(value);
                 }
             }
-            Definition::Set { mut key, .. } => {
-                key.identifier_type = IdentifierType::SetVariable;
-                ids.push(key);
+            Definition::Set { keys, .. } => {
+                for mut key in keys {
+                    key.identifier_type = IdentifierType::SetVariable;
+                    ids.push(key);
+                }
             }
             Definition::With { keys, .. } => {
                 for mut key in keys {
@@ -70,10 +72,10 @@ impl From<&str> for Definition {
         match value {
             "for" => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
             "set" => Self::Set {
-                key: Identifier::default(),
+                keys: vec![],
                 equals: false,
             },
             "with" => Self::With { keys: vec![] },
@@ -86,7 +88,7 @@ impl From<&str> for Definition {
             },
             _ => Self::ForLoop {
                 key: Identifier::default(),
-                value: None,
+                values: vec![],
             },
         }
     }
@@ -242,18 +244,16 @@ impl JinjaDefinitions {
                 let last = self.definitions.last_mut();
                 if let Some(last) = last {
                     match last {
-                        Definition::ForLoop { key, value } => {
+                        Definition::ForLoop { key, values } => {
                             if key.name.is_empty() {
                                 *key = identifier;
-                            } else if value.is_none() && follows(capture.node, key, text) {
-                                *value = Some(identifier);
-                                self.can_add_id = false;
+                            } else if is_target(capture.node, text) {
+                                values.push(identifier);
                             }
                         }
-                        Definition::Set { key, .. } => {
-                            if key.name.is_empty() {
-                                *key = identifier;
-                                self.can_add_id = false;
+                        Definition::Set { keys, .. } => {
+                            if is_target(capture.node, text) {
+                                keys.push(identifier);
                             }
                         }
                         Definition::With { keys } => {
@@ -317,26 +317,18 @@ impl JinjaDefinitions {
         let global_scope = Scope::new(last_line);
         for def in self.definitions.iter_mut() {
             match def {
-                Definition::ForLoop { key, value } => {
+                Definition::ForLoop { key, values } => {
                     let scope = self
                         .all_scopes
                         .iter()
                         .find(|item| item.id == key.scope_ends.0);
                     let scope = scope.unwrap_or(&global_scope);
                     key.scope_ends.1 = scope.end;
-                    if let Some(value) = value {
+                    for value in values {
                         value.scope_ends.1 = scope.end;
                     }
                 }
-                Definition::Set { key, .. } => {
-                    let scope = self
-                        .all_scopes
-                        .iter()
-                        .find(|item| item.id == key.scope_ends.0);
-                    let scope = scope.unwrap_or(&global_scope);
-                    key.scope_ends.1 = scope.end;
-                }
-                Definition::With { keys } => {
+                Definition::Set { keys, .. } | Definition::With { keys } => {
                     for key in keys {
                         let scope = self
                             .all_scopes
@@ -404,15 +396,26 @@ fn is_value(node: Node, text: &str) -> bool {
     !(before.is_empty() || before.ends_with('(') || before.ends_with(','))
 }
 
-/// Is there only a comma between `key` and `node`
-fn follows(node: Node, key: &Identifier, text: &str) -> bool {
-    let Some(comma) = node.prev_sibling() else {
-        return false;
-    };
-    comma.utf8_text(text.as_bytes()).map(str::trim) == Ok(",")
-        && comma
-            .prev_sibling()
-            .is_some_and(|node| node.end_position() == key.end)
+/// Nothing but other targets is between the keyword of `for` or `set` and a target.
+fn is_target(node: Node, text: &str) -> bool {
+    let mut before = node.prev_sibling();
+    while let Some(sibling) = before {
+        match sibling.kind() {
+            "identifier" => {}
+            "operator" => {
+                let separates = |char: char| ",()".contains(char) || char.is_whitespace();
+                if !operator_text(before, text).chars().all(separates) {
+                    return false;
+                }
+            }
+            _ => {
+                let keyword = sibling.utf8_text(text.as_bytes());
+                return is_first(sibling) && (keyword == Ok("for") || keyword == Ok("set"));
+            }
+        }
+        before = sibling.prev_sibling();
+    }
+    false
 }
 
 pub fn definition_query(
-- 
2.43.0


From 60e3986fef009b1e2282c4050ca6cf42967fbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 54/64] fix: setting an attribute doesn't define a variable

---
 jinja-lsp-queries/src/search/definition.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 0ad5065..05ba6ce 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -398,6 +398,10 @@ fn is_value(node: Node, text: &str) -> bool {
 
 /// Nothing but other targets is between the keyword of `for` or `set` and a target.
 fn is_target(node: Node, text: &str) -> bool {
+    // It's an attribute of something that's already there.
+    if operator_text(node.next_sibling(), text).starts_with('.') {
+        return false;
+    }
     let mut before = node.prev_sibling();
     while let Some(sibling) = before {
         match sibling.kind() {
-- 
2.43.0


From 84b809d236f26854a9284952fe058887526dc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:35 +0000
Subject: [PATCH 55/64] fix: scoped, required, recursive and the name after
 endblock aren't variables

---
 jinja-lsp-queries/src/search/objects.rs | 31 ++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 9324f85..7cab77a 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -143,7 +143,10 @@ impl JinjaObjects {
                 if !self.test.2 && VALID_IDENTIFIERS.contains(&value) {
                     return ObjectAction::Invalid;
                 }
-                if names_argument(capture.node, source) || modifies_import(capture.node, source) {
+                if names_argument(capture.node, source)
+                    || modifies_import(capture.node, source)
+                    || modifies_statement(capture.node, source)
+                {
                     return ObjectAction::Invalid;
                 }
                 if names_block_filter(capture.node, source) {
@@ -297,6 +300,32 @@ fn modifies_import(node: Node, source: &str) -> bool {
         }
 }
 
+/// `scoped` and `required` of a block, the name after `endblock` and `recursive` of a loop
+fn modifies_statement(node: Node, source: &str) -> bool {
+    let text = |node: Option<Node>| {
+        node.and_then(|node| source.get(node.byte_range()))
+            .map_or("", str::trim)
+    };
+    let keyword = text(node.parent().and_then(|node| node.child(1)));
+    let before = text(node.prev_sibling());
+    match keyword {
+        "endblock" => true,
+        "block" => ["scoped", "required"].contains(&text(Some(node))) && before != keyword,
+        "for" => {
+            let last = node
+                .next_sibling()
+                .is_some_and(|node| node.kind() == "statement_end");
+            let value_ends = match node.prev_sibling().map(|node| node.kind()) {
+                Some("operator") => before.ends_with([')', ']', '}']),
+                Some("keyword") => false,
+                _ => !KEYWORDS.contains(&before) && before != "not",
+            };
+            text(Some(node)) == "recursive" && last && value_ends
+        }
+        _ => false,
+    }
+}
+
 /// The first filter of `{% filter %}` has no pipe before it
 fn names_block_filter(node: Node, source: &str) -> bool {
     node.prev_sibling()
-- 
2.43.0


From 4c73a277c3308154770946d244afb1bb04205db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:19 +0000
Subject: [PATCH 56/64] fix: the later names of a set aren't keyword arguments

---
 jinja-lsp-queries/src/search/definition.rs | 2 +-
 jinja-lsp-queries/src/search/objects.rs    | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 05ba6ce..7dadfa5 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -397,7 +397,7 @@ fn is_value(node: Node, text: &str) -> bool {
 }
 
 /// Nothing but other targets is between the keyword of `for` or `set` and a target.
-fn is_target(node: Node, text: &str) -> bool {
+pub fn is_target(node: Node, text: &str) -> bool {
     // It's an attribute of something that's already there.
     if operator_text(node.next_sibling(), text).starts_with('.') {
         return false;
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 7cab77a..9643ebf 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,7 +1,7 @@
 use tower_lsp::lsp_types::Range;
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{completion_start, to_range, to_range2, Identifier};
+use super::{completion_start, definition::is_target, to_range, to_range2, Identifier};
 
 #[derive(Default, Debug, Clone)]
 pub struct JinjaObject {
@@ -265,7 +265,7 @@ fn parent_end(node: Node) -> Point {
         .map_or(node.end_position(), |parent| parent.end_position())
 }
 
-/// The name of a keyword argument, `with` and `macro` define what is on the left side of `=`
+/// The name of a keyword argument, `with`, `macro` and `set` define what is on the left side of `=`
 fn names_argument(node: Node, source: &str) -> bool {
     let text = |node: Option<Node>, kind: &str| {
         node.filter(|node| node.kind() == kind)
@@ -279,6 +279,7 @@ fn names_argument(node: Node, source: &str) -> bool {
         && after.starts_with('=')
         && !after.starts_with("==")
         && !["with", "macro"].contains(&keyword)
+        && !is_target(node, source)
 }
 
 /// `ignore missing`, `with context` and `without context`
-- 
2.43.0


From 8310884284e9bed5dfe2ab95847fac9b81f70b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:05 +0000
Subject: [PATCH 57/64] fix: what's in the brackets of a value isn't defined by
 with or macro

---
 jinja-lsp-queries/src/search/definition.rs | 41 ++++++++++++++++++----
 jinja-lsp-queries/src/search/objects.rs    |  5 ++-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 7dadfa5..18883c9 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -262,11 +262,10 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::Macro { keys, scope } => {
-                            if is_value(capture.node, text) {
-                                return Some(false);
-                            }
                             if keys.is_empty() {
                                 identifier.scope_ends.0 = *scope;
+                            } else if !is_parameter(capture.node, text) {
+                                return Some(false);
                             }
                             keys.push(identifier);
                         }
@@ -381,6 +380,23 @@ fn operator_text<'a>(node: Option<Node>, text: &'a str) -> &'a str {
         .map_or("", str::trim)
 }
 
+/// How many brackets of its statement are open at a node
+fn depth(node: Node, text: &str) -> i32 {
+    let mut depth = 0;
+    let mut before = node.prev_sibling();
+    while let Some(sibling) = before {
+        for char in operator_text(before, text).chars() {
+            match char {
+                '(' | '[' | '{' => depth += 1,
+                ')' | ']' | '}' => depth -= 1,
+                _ => (),
+            }
+        }
+        before = sibling.prev_sibling();
+    }
+    depth
+}
+
 /// The name on the left side of `=`
 fn names_value(node: Node, text: &str) -> bool {
     let before = operator_text(node.prev_sibling(), text);
@@ -388,16 +404,27 @@ fn names_value(node: Node, text: &str) -> bool {
     (before.is_empty() || before.ends_with(','))
         && after.starts_with('=')
         && !after.starts_with("==")
+        && depth(node, text) == 0
 }
 
-/// The default of a parameter
-fn is_value(node: Node, text: &str) -> bool {
+/// Neither the default of a parameter nor a part of it
+fn is_parameter(node: Node, text: &str) -> bool {
     let before = operator_text(node.prev_sibling(), text);
-    !(before.is_empty() || before.ends_with('(') || before.ends_with(','))
+    before.ends_with(['(', ',']) && depth(node, text) == 1
+}
+
+/// Is it the name of something that its statement defines, not of an argument
+pub fn is_defined(keyword: &str, node: Node, text: &str) -> bool {
+    match keyword {
+        "with" => names_value(node, text),
+        "macro" => is_parameter(node, text),
+        "set" => is_target(node, text),
+        _ => false,
+    }
 }
 
 /// Nothing but other targets is between the keyword of `for` or `set` and a target.
-pub fn is_target(node: Node, text: &str) -> bool {
+fn is_target(node: Node, text: &str) -> bool {
     // It's an attribute of something that's already there.
     if operator_text(node.next_sibling(), text).starts_with('.') {
         return false;
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 9643ebf..5f2e161 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,7 +1,7 @@
 use tower_lsp::lsp_types::Range;
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{completion_start, definition::is_target, to_range, to_range2, Identifier};
+use super::{completion_start, definition::is_defined, to_range, to_range2, Identifier};
 
 #[derive(Default, Debug, Clone)]
 pub struct JinjaObject {
@@ -278,8 +278,7 @@ fn names_argument(node: Node, source: &str) -> bool {
     (before.ends_with('(') || before.ends_with(','))
         && after.starts_with('=')
         && !after.starts_with("==")
-        && !["with", "macro"].contains(&keyword)
-        && !is_target(node, source)
+        && !is_defined(keyword, node, source)
 }
 
 /// `ignore missing`, `with context` and `without context`
-- 
2.43.0


From a6ceab08402cf9ad98f27353e1e705bc5a06277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 58/64] fix: call blocks have parameters, and what they define
 stays inside

---
 jinja-lsp-queries/src/search/definition.rs | 32 +++++++++++++++++++++-
 jinja-lsp-queries/src/search/queries.rs    |  4 +--
 2 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 18883c9..27bdbf3 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -21,6 +21,9 @@ pub enum Definition {
         keys: Vec<Identifier>,
         scope: usize,
     },
+    Call {
+        keys: Vec<Identifier>,
+    },
     Block {
         name: Identifier,
     },
@@ -59,6 +62,12 @@ impl Definition {
                     ids.push(key.1);
                 }
             }
+            Definition::Call { keys } => {
+                for mut key in keys {
+                    key.identifier_type = IdentifierType::MacroParameter;
+                    ids.push(key);
+                }
+            }
             Definition::Block { mut name, .. } => {
                 name.identifier_type = IdentifierType::TemplateBlock;
                 ids.push(name);
@@ -83,6 +92,7 @@ impl From<&str> for Definition {
                 keys: vec![],
                 scope: 0,
             },
+            "call" => Self::Call { keys: vec![] },
             "block" => Self::Block {
                 name: Identifier::default(),
             },
@@ -269,6 +279,11 @@ impl JinjaDefinitions {
                             }
                             keys.push(identifier);
                         }
+                        Definition::Call { keys } => {
+                            if is_call_parameter(capture.node, text) {
+                                keys.push(identifier);
+                            }
+                        }
                         Definition::Block { name } => {
                             if name.name.is_empty() {
                                 *name = identifier;
@@ -327,7 +342,9 @@ impl JinjaDefinitions {
                         value.scope_ends.1 = scope.end;
                     }
                 }
-                Definition::Set { keys, .. } | Definition::With { keys } => {
+                Definition::Set { keys, .. }
+                | Definition::With { keys }
+                | Definition::Call { keys } => {
                     for key in keys {
                         let scope = self
                             .all_scopes
@@ -413,11 +430,24 @@ fn is_parameter(node: Node, text: &str) -> bool {
     before.ends_with(['(', ',']) && depth(node, text) == 1
 }
 
+/// `{% call(a, b=1) c(d) %}` has parameters before the name of the macro
+fn is_call_parameter(node: Node, text: &str) -> bool {
+    let mut before = node.prev_sibling();
+    while let Some(sibling) = before.filter(|node| node.kind() != "keyword") {
+        if sibling.kind() == "identifier" && depth(sibling, text) == 0 {
+            return false;
+        }
+        before = sibling.prev_sibling();
+    }
+    is_parameter(node, text)
+}
+
 /// Is it the name of something that its statement defines, not of an argument
 pub fn is_defined(keyword: &str, node: Node, text: &str) -> bool {
     match keyword {
         "with" => names_value(node, text),
         "macro" => is_parameter(node, text),
+        "call" => is_call_parameter(node, text),
         "set" => is_target(node, text),
         _ => false,
     }
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 1c134ff..19b20fa 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -207,7 +207,7 @@ const DEFINITIONS: &str = r#"
 )
     (
     	(keyword) @definition
-        (#match? @definition "^(for|set|with|macro|block)$")
+        (#match? @definition "^(for|set|with|macro|block|call)$")
     )
     
     (
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end(for|with|macro|block|if|filter|autoescape|raw)$")
+        (#match? @endblock "^end(for|with|macro|block|call|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 0130d520459194ae8f207b2e79814a41854dd578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 59/64] fix: imported modules and names are defined

---
 jinja-lsp-queries/src/search/definition.rs | 22 ++++++++++++++++++++--
 jinja-lsp-queries/src/search/objects.rs    |  3 ++-
 jinja-lsp-queries/src/search/queries.rs    |  2 +-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index 27bdbf3..ccc7b98 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -83,7 +83,7 @@ impl From<&str> for Definition {
                 key: Identifier::default(),
                 values: vec![],
             },
-            "set" => Self::Set {
+            "set" | "import" | "from" => Self::Set {
                 keys: vec![],
                 equals: false,
             },
@@ -262,7 +262,7 @@ impl JinjaDefinitions {
                             }
                         }
                         Definition::Set { keys, .. } => {
-                            if is_target(capture.node, text) {
+                            if is_target(capture.node, text) || is_imported(capture.node, text) {
                                 keys.push(identifier);
                             }
                         }
@@ -479,6 +479,24 @@ fn is_target(node: Node, text: &str) -> bool {
     false
 }
 
+/// What `import` or `from` calls the things of another template here
+pub fn is_imported(node: Node, text: &str) -> bool {
+    let text = |node: Option<Node>| {
+        node.and_then(|node| text.get(node.byte_range()))
+            .map_or("", str::trim)
+    };
+    let keyword = text(node.parent().and_then(|node| node.child(1)));
+    let before = text(node.prev_sibling());
+    match keyword {
+        "import" => before == "as",
+        "from" => {
+            let listed = before == "import" || before.ends_with(',');
+            before == "as" || (listed && text(node.next_sibling()) != "as")
+        }
+        _ => false,
+    }
+}
+
 pub fn definition_query(
     query: &Query,
     tree: &Tree,
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 5f2e161..c01e4c7 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -281,7 +281,7 @@ fn names_argument(node: Node, source: &str) -> bool {
         && !is_defined(keyword, node, source)
 }
 
-/// `ignore missing`, `with context` and `without context`
+/// `ignore missing`, `with context` and `without context`, and the names things have where they're imported from
 fn modifies_import(node: Node, source: &str) -> bool {
     let text = |node: Option<Node>| {
         node.and_then(|node| source.get(node.byte_range()))
@@ -292,6 +292,7 @@ fn modifies_import(node: Node, source: &str) -> bool {
     let after = text(node.next_sibling());
     ["include", "import", "from"].contains(&keyword)
         && match text(Some(node)) {
+            _ if after == "as" => keyword == "from",
             "ignore" => after == "missing",
             "missing" => before == "ignore",
             "without" => after == "context",
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index 19b20fa..aa1c7b9 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -207,7 +207,7 @@ const DEFINITIONS: &str = r#"
 )
     (
     	(keyword) @definition
-        (#match? @definition "^(for|set|with|macro|block|call)$")
+        (#match? @definition "^(for|set|with|macro|block|call|import|from)$")
     )
     
     (
-- 
2.43.0


From cbbe89d0d8ed47fee784255324cce47f92c7af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:57 +0000
Subject: [PATCH 60/64] fix: the contents of a raw block are text

---
 jinja-lsp-queries/src/search/definition.rs |  6 +++-
 jinja-lsp-queries/src/search/mod.rs        | 34 +++++++++++++++++++++-
 jinja-lsp-queries/src/search/objects.rs    |  8 ++++-
 jinja-lsp-queries/src/search/templates.rs  |  6 +++-
 4 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index ccc7b98..c9a8a4f 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -2,7 +2,7 @@ use std::collections::{HashSet, LinkedList};
 
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{Identifier, IdentifierType};
+use super::{Identifier, IdentifierType, RawBlocks};
 
 #[derive(Debug, Clone)]
 pub enum Definition {
@@ -508,6 +508,7 @@ pub fn definition_query(
     let mut definitions = JinjaDefinitions::default();
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
+    let raw = RawBlocks::new(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     let captures = matches.into_iter().flat_map(|m| {
         m.captures
@@ -515,6 +516,9 @@ pub fn definition_query(
             .filter(|capture| all || capture.node.start_position() <= trigger_point)
     });
     for capture in captures {
+        if raw.contain(capture.node) {
+            continue;
+        }
         let name = &capture_names[capture.index as usize];
         let err = definitions.check(name, capture, text);
         if err.is_none() {
diff --git a/jinja-lsp-queries/src/search/mod.rs b/jinja-lsp-queries/src/search/mod.rs
index 9980623..b963b20 100644
--- a/jinja-lsp-queries/src/search/mod.rs
+++ b/jinja-lsp-queries/src/search/mod.rs
@@ -1,5 +1,5 @@
 use tower_lsp::lsp_types::{CompletionItemKind, Position, Range, SymbolKind};
-use tree_sitter::Point;
+use tree_sitter::{Node, Point, Tree};
 
 use self::objects::JinjaObject;
 
@@ -81,6 +81,38 @@ pub fn template_start(trigger_point: Point, identifier: &Identifier) -> Option<&
     identifier.name.get(..typed.min(identifier.name.len()))
 }
 
+/// What is between `{% raw %}` and `{% endraw %}` is text.
+#[derive(Debug)]
+pub struct RawBlocks(Vec<(usize, usize)>);
+
+impl RawBlocks {
+    pub fn new(tree: &Tree, text: &str) -> Self {
+        let root = tree.root_node();
+        let mut blocks = vec![];
+        let mut start = None;
+        for node in root.children(&mut root.walk()) {
+            let keyword = node.child(1).and_then(|node| text.get(node.byte_range()));
+            match (start, keyword) {
+                (None, Some("raw")) => start = Some(node.end_byte()),
+                (Some(begin), Some("endraw")) => {
+                    blocks.push((begin, node.start_byte()));
+                    start = None;
+                }
+                _ => (),
+            }
+        }
+        blocks.extend(start.map(|start| (start, text.len())));
+        Self(blocks)
+    }
+
+    pub fn contain(&self, node: Node) -> bool {
+        let start = node.start_byte();
+        self.0
+            .iter()
+            .any(|block| block.0 <= start && start < block.1)
+    }
+}
+
 pub fn to_range(points: (Point, Point)) -> Range {
     let start = Position::new(points.0.row as u32, points.0.column as u32);
     let end = Position::new(points.1.row as u32, points.1.column as u32);
diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index c01e4c7..53f4e4a 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -1,7 +1,9 @@
 use tower_lsp::lsp_types::Range;
 use tree_sitter::{Node, Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{completion_start, definition::is_defined, to_range, to_range2, Identifier};
+use super::{
+    completion_start, definition::is_defined, to_range, to_range2, Identifier, RawBlocks,
+};
 
 #[derive(Default, Debug, Clone)]
 pub struct JinjaObject {
@@ -353,9 +355,13 @@ pub fn objects_query(
         Point::default(),
         ExpressionRange::default(),
     );
+    let raw = RawBlocks::new(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     'loop1: for m in matches {
         for capture in m.captures {
+            if raw.contain(capture.node) {
+                continue;
+            }
             let smaller = trigger_point <= capture.node.start_position();
             if all || trigger_point >= capture.node.start_position() {
                 let name = &capture_names[capture.index as usize];
diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index b66fe43..a904467 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -2,7 +2,7 @@ use std::collections::HashMap;
 
 use tree_sitter::{Point, Query, QueryCapture, QueryCursor, Tree};
 
-use super::{Identifier, IdentifierType};
+use super::{Identifier, IdentifierType, RawBlocks};
 
 #[derive(Debug)]
 pub enum Import {
@@ -234,6 +234,7 @@ pub fn templates_query(
     let mut imports = JinjaImports::default();
     let mut cursor_qry = QueryCursor::new();
     let capture_names = query.capture_names();
+    let raw = RawBlocks::new(tree, text);
     let matches = cursor_qry.matches(query, closest_node, text.as_bytes());
     let captures = matches.into_iter().flat_map(|m| {
         m.captures
@@ -241,6 +242,9 @@ pub fn templates_query(
             .filter(|capture| all || capture.node.start_position() <= trigger_point)
     });
     for capture in captures {
+        if raw.contain(capture.node) {
+            continue;
+        }
         let name = &capture_names[capture.index as usize];
         let res = imports.check(name, capture, text);
         if res.is_none() {
-- 
2.43.0


From b4549a5ce080b5a4c21a9769ae158c092e901a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:26 +0000
Subject: [PATCH 61/64] fix: the variables of a translation are defined in it

---
 jinja-lsp-queries/src/search/definition.rs | 4 ++--
 jinja-lsp-queries/src/search/queries.rs    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/jinja-lsp-queries/src/search/definition.rs b/jinja-lsp-queries/src/search/definition.rs
index c9a8a4f..cbe4cff 100644
--- a/jinja-lsp-queries/src/search/definition.rs
+++ b/jinja-lsp-queries/src/search/definition.rs
@@ -87,7 +87,7 @@ impl From<&str> for Definition {
                 keys: vec![],
                 equals: false,
             },
-            "with" => Self::With { keys: vec![] },
+            "with" | "trans" => Self::With { keys: vec![] },
             "macro" => Definition::Macro {
                 keys: vec![],
                 scope: 0,
@@ -445,7 +445,7 @@ fn is_call_parameter(node: Node, text: &str) -> bool {
 /// Is it the name of something that its statement defines, not of an argument
 pub fn is_defined(keyword: &str, node: Node, text: &str) -> bool {
     match keyword {
-        "with" => names_value(node, text),
+        "with" | "trans" => names_value(node, text),
         "macro" => is_parameter(node, text),
         "call" => is_call_parameter(node, text),
         "set" => is_target(node, text),
diff --git a/jinja-lsp-queries/src/search/queries.rs b/jinja-lsp-queries/src/search/queries.rs
index aa1c7b9..e26cb08 100644
--- a/jinja-lsp-queries/src/search/queries.rs
+++ b/jinja-lsp-queries/src/search/queries.rs
@@ -207,7 +207,7 @@ const DEFINITIONS: &str = r#"
 )
     (
     	(keyword) @definition
-        (#match? @definition "^(for|set|with|macro|block|call|import|from)$")
+        (#match? @definition "^(for|set|with|trans|macro|block|call|import|from)$")
     )
     
     (
@@ -217,7 +217,7 @@ const DEFINITIONS: &str = r#"
 
     (
         (keyword) @endblock
-        (#match? @endblock "^end(for|with|macro|block|call|if|filter|autoescape|raw)$")
+        (#match? @endblock "^end(for|with|trans|macro|block|call|if|filter|autoescape|raw)$")
     )
 
 (
-- 
2.43.0


From 025b7ca28a21ac45012e32dd4a1453885ea46298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:26 +0000
Subject: [PATCH 62/64] fix: break, continue, trimmed and notrimmed aren't
 variables

---
 jinja-lsp-queries/src/search/objects.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/objects.rs b/jinja-lsp-queries/src/search/objects.rs
index 53f4e4a..b53a716 100644
--- a/jinja-lsp-queries/src/search/objects.rs
+++ b/jinja-lsp-queries/src/search/objects.rs
@@ -303,7 +303,8 @@ fn modifies_import(node: Node, source: &str) -> bool {
         }
 }
 
-/// `scoped` and `required` of a block, the name after `endblock` and `recursive` of a loop
+/// `scoped` and `required` of a block, the name after `endblock`, `recursive` of a loop,
+/// `trimmed` and `notrimmed` of a translation, `break` and `continue`
 fn modifies_statement(node: Node, source: &str) -> bool {
     let text = |node: Option<Node>| {
         node.and_then(|node| source.get(node.byte_range()))
@@ -311,8 +312,16 @@ fn modifies_statement(node: Node, source: &str) -> bool {
     };
     let keyword = text(node.parent().and_then(|node| node.child(1)));
     let before = text(node.prev_sibling());
+    let after = text(node.next_sibling());
     match keyword {
         "endblock" => true,
+        // The grammar doesn't know them.
+        "" => ["break", "continue"].contains(&text(Some(node))) && after.ends_with("%}"),
+        "trans" => {
+            ["trimmed", "notrimmed"].contains(&text(Some(node)))
+                && before == keyword
+                && !after.starts_with('=')
+        }
         "block" => ["scoped", "required"].contains(&text(Some(node))) && before != keyword,
         "for" => {
             let last = node
-- 
2.43.0


From 3fb20482f2e57ccbb03fd9adcaf937acecb35a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:03 +0000
Subject: [PATCH 63/64] fix: templates were completed in front of a reference
 at the start of a document

---
 jinja-lsp-queries/src/search/templates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jinja-lsp-queries/src/search/templates.rs b/jinja-lsp-queries/src/search/templates.rs
index a904467..49681af 100644
--- a/jinja-lsp-queries/src/search/templates.rs
+++ b/jinja-lsp-queries/src/search/templates.rs
@@ -28,7 +28,9 @@ impl Import {
             Import::Extends { template }
             | Import::From { template, .. }
             | Import::Import { template, .. } => {
-                if trigger_point >= template.start && trigger_point <= template.end {
+                // The name may come after the point, then nothing is known of it yet.
+                let known = template.start != template.end;
+                if known && trigger_point >= template.start && trigger_point <= template.end {
                     Some(template)
                 } else {
                     None
-- 
2.43.0


From e47d636f87a88e77075ab4fb1c4e651d5d14b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:19 +0000
Subject: [PATCH 64/64] fix: a file whose URI is escaped in another way was
 another document

---
 jinja-lsp/src/backend.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/jinja-lsp/src/backend.rs b/jinja-lsp/src/backend.rs
index 03bd026..f25fe96 100644
--- a/jinja-lsp/src/backend.rs
+++ b/jinja-lsp/src/backend.rs
@@ -8,7 +8,7 @@ use tower_lsp::{
     lsp_types::{
         CompletionParams, CompletionResponse, DidChangeConfigurationParams,
         DidCloseTextDocumentParams, DidOpenTextDocumentParams, DocumentSymbolParams,
-        DocumentSymbolResponse, InitializeParams, InitializeResult,
+        DocumentSymbolResponse, InitializeParams, InitializeResult, Url,
     },
     Client, LanguageServer,
 };
@@ -47,23 +47,28 @@ impl LanguageServer for Backend {
         let _ = self.main_channel.send(LspMessage::Initialized(sender));
     }
 
-    async fn did_open(&self, params: DidOpenTextDocumentParams) {
+    async fn did_open(&self, mut params: DidOpenTextDocumentParams) {
+        one_spelling(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidOpen(params));
     }
 
-    async fn did_close(&self, params: DidCloseTextDocumentParams) {
+    async fn did_close(&self, mut params: DidCloseTextDocumentParams) {
+        one_spelling(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidClose(params));
     }
 
-    async fn did_change(&self, params: DidChangeTextDocumentParams) {
+    async fn did_change(&self, mut params: DidChangeTextDocumentParams) {
+        one_spelling(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidChange(params));
     }
 
-    async fn did_save(&self, params: DidSaveTextDocumentParams) {
+    async fn did_save(&self, mut params: DidSaveTextDocumentParams) {
+        one_spelling(&mut params.text_document.uri);
         let _ = self.main_channel.send(LspMessage::DidSave(params));
     }
 
-    async fn completion(&self, params: CompletionParams) -> Result<Option<CompletionResponse>> {
+    async fn completion(&self, mut params: CompletionParams) -> Result<Option<CompletionResponse>> {
+        one_spelling(&mut params.text_document_position.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -74,7 +79,8 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn hover(&self, params: HoverParams) -> Result<Option<Hover>> {
+    async fn hover(&self, mut params: HoverParams) -> Result<Option<Hover>> {
+        one_spelling(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self.main_channel.send(LspMessage::Hover(params, sender));
         if let Ok(hover) = tx.await {
@@ -85,8 +91,9 @@ impl LanguageServer for Backend {
 
     async fn goto_definition(
         &self,
-        params: GotoDefinitionParams,
+        mut params: GotoDefinitionParams,
     ) -> Result<Option<GotoDefinitionResponse>> {
+        one_spelling(&mut params.text_document_position_params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -97,7 +104,11 @@ impl LanguageServer for Backend {
         Ok(None)
     }
 
-    async fn code_action(&self, params: CodeActionParams) -> Result<Option<CodeActionResponse>> {
+    async fn code_action(
+        &self,
+        mut params: CodeActionParams,
+    ) -> Result<Option<CodeActionResponse>> {
+        one_spelling(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -118,8 +129,9 @@ impl LanguageServer for Backend {
 
     async fn document_symbol(
         &self,
-        params: DocumentSymbolParams,
+        mut params: DocumentSymbolParams,
     ) -> Result<Option<DocumentSymbolResponse>> {
+        one_spelling(&mut params.text_document.uri);
         let (sender, tx) = oneshot::channel();
         let _ = self
             .main_channel
@@ -142,6 +154,14 @@ impl LanguageServer for Backend {
     }
 }
 
+/// Clients escape different characters, `+` may be `%2B`. It's the same file.
+fn one_spelling(uri: &mut Url) {
+    let path = uri.to_file_path().ok();
+    if let Some(Ok(known)) = path.map(Url::from_file_path) {
+        *uri = known;
+    }
+}
+
 impl Backend {
     pub fn _new(client: Client) -> Self {
         // Handlers that wait for room in a channel don't go on in the order of their messages.
-- 
2.43.0

