From 1359adbb80323b4d8a362949b7a812adc823c42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:26 +0000
Subject: [PATCH 01/23] fix: only a newline ends a line in editor positions

Positions were computed with a text structure that also breaks lines at
vertical tab, form feed, lone carriage return, NEL and the Unicode line and
paragraph separators. Editors don't, so an edit after such a character was
applied at the wrong place or made the daemon panic.
---
 daemon/src/types.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..f275701 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -8,7 +8,6 @@ use anyhow::bail;
 use automerge::{Patch, PatchAction};
 use dissimilar::Chunk;
 use operational_transform::{Operation as OTOperation, OperationSeq};
-use ropey::Rope;
 use serde::{Deserialize, Serialize};
 use tracing::{debug, error, warn};
 
@@ -347,18 +346,33 @@ pub struct Position {
 impl Position {
     /// will panic when used with not matching offset/content
     fn from_offset(full_offset: usize, content: &str) -> Self {
-        let rope = Rope::from_str(content);
-        let line = rope.char_to_line(full_offset);
-        let character = full_offset - rope.line_to_char(line);
-        Self { line, character }
+        assert!(full_offset <= content.chars().count());
+
+        let mut position = Self::default();
+        for char in content.chars().take(full_offset) {
+            // Only a newline ends a line. Editors don't agree on other Unicode line breaks.
+            if char == '\n' {
+                position.line += 1;
+                position.character = 0;
+            } else {
+                position.character += 1;
+            }
+        }
+        position
     }
 
     fn to_offset(&self, content: &str) -> usize {
-        let rope = Rope::from_str(content);
-
-        assert!(self.character <= rope.line(self.line).len_chars());
-
-        rope.line_to_char(self.line) + self.character
+        let mut line_start = 0;
+        for (line, text) in content.split('\n').enumerate() {
+            let line_chars = text.chars().count();
+            if line == self.line {
+                let offset = line_start + self.character;
+                assert!(self.character <= line_chars + 1 && offset <= content.chars().count());
+                return offset;
+            }
+            line_start += line_chars + 1;
+        }
+        panic!("The content doesn't have a line {}", self.line);
     }
 }
 
-- 
2.43.0


From d1e7b3c806085011a6e1bb8c63ba5f2fecf912b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:19 +0000
Subject: [PATCH 02/23] fix: clean a path before computing where in the project
 it is

A URI like file:///project/../other was taken for a file inside of the
project, and file:///project/a//b and file:///project/a/b were shared as
two different files.
---
 daemon/src/path.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..feab6fe 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -6,6 +6,7 @@
 use anyhow::{bail, Context};
 use automerge::Prop;
 use derive_more::{AsRef, Deref, Display};
+use path_clean::PathClean;
 use serde::{Deserialize, Serialize};
 use std::path::{self, Path, PathBuf};
 
@@ -66,7 +67,9 @@ impl RelativePath {
                 base_dir.display()
             )
         })?;
-        let relative_path = path.strip_prefix(&project_dir).with_context(|| {
+        // Remove any ".." and "." from the path, so that each file has exactly one relative path.
+        let path = AbsolutePath(path.clean());
+        let relative_path = path.strip_prefix(project_dir.clean()).with_context(|| {
             format!(
                 "Failed to strip project directory '{}' from path {path}",
                 project_dir.display()
-- 
2.43.0


From 3c83ebe72a1485d8d9a26b1f74c4c111ee66aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:39 +0000
Subject: [PATCH 03/23] fix: refuse dangling symlinks and accept '..' below a
 missing directory

A dangling symlink was taken for a missing file, so that writing to it
created its target, even if that was outside of the project. A path with
'..' after a missing directory made the sandbox panic.
---
 daemon/src/sandbox.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..9d36ee4 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -145,8 +145,9 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut suffix_path = PathBuf::new();
     let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
-        if prefix_path.exists() {
+    for component in canonical_path.components().rev() {
+        // A dangling symlink is something that is there, and that we can't follow.
+        if prefix_path.exists() || prefix_path.is_symlink() {
             break;
         }
         prefix_path.pop();
-- 
2.43.0


From a2a63a173c5ff87ab04c2152dec0684febf23a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:56 +0000
Subject: [PATCH 04/23] fix: don't crash when a file from a peer can't be
 written

Any file name that the sandbox refuses, or that collides with a
directory, made the daemon panic, also on every later start.
---
 daemon/src/daemon.rs | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..26519a6 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -16,7 +16,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -495,30 +495,32 @@ impl DocumentActor {
         // Only write to the file if editor *doesn't* have the file open.
         if self.owns(file_path) {
             if let Ok(text) = self.current_file_content(file_path) {
-                let abs_path = self.absolute_path_for_file_path(file_path);
-                debug!("Writing to {abs_path}.");
-
-                // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
-
-                // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
-                    info!("Creating {file_path}.");
+                // The file name might come from a peer, so writing it can fail.
+                if let Err(err) = self.write_file(file_path, &text) {
+                    error!("Could not write to file {file_path}: {err}");
                 }
-
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
         }
     }
 
+    fn write_file(&self, file_path: &RelativePath, text: &str) -> Result<()> {
+        let abs_path = self.absolute_path_for_file_path(file_path);
+        debug!("Writing to {abs_path}.");
+
+        // Create the parent directorie(s), if neccessary.
+        let parent_dir = abs_path.parent().context("Path has no parent directory")?;
+        sandbox::create_dir_all(&self.base_dir, parent_dir)?;
+
+        // If the file didn't exist before, log it.
+        if !sandbox::exists(&self.base_dir, &abs_path)? {
+            info!("Creating {file_path}.");
+        }
+
+        sandbox::write_file(&self.base_dir, &abs_path, text.as_bytes())
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
@@ -572,7 +574,10 @@ impl DocumentActor {
             });
         for file_path in self.crdt_doc.files() {
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
+            if matches!(
+                sandbox::exists(&self.base_dir, &absolute_file_path),
+                Ok(false)
+            ) {
                 warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
                 self.crdt_doc.remove_text(&file_path);
             }
-- 
2.43.0


From f1851d71d7051c66f8bc8f7f5bc7e33abdd6ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:57 +0000
Subject: [PATCH 05/23] fix: don't crash when an editor disconnects while
 messages are pending

The editor was forgotten as soon as a message could not be sent to it.
The next message that it had sent before it went away, and even the
response to the current one, then made the daemon panic.
---
 daemon/src/daemon.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 26519a6..d5bcc25 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -473,8 +473,9 @@ impl DocumentActor {
             .expect("Could not get editor handle");
 
         connection.1.send(message).await.unwrap_or_else(|err| {
-            error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
+            // The editor is removed when its connection is closed. Until then, there
+            // might still be messages from it.
+            error!("Failed to send message to editor: {err}");
         });
     }
 
-- 
2.43.0


From 6e516c2db0710cb8344b01a74ccb914f2e0e4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:58 +0000
Subject: [PATCH 06/23] fix: write the files that a disconnecting editor had
 open

They kept their old content on disk, although the daemon owns them
again, so that the next change on disk reverted the edits made in the
meantime.
---
 daemon/src/daemon.rs            | 7 ++++++-
 daemon/src/editor_connection.rs | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d5bcc25..8993ae6 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -269,7 +269,12 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                if let Some((connection, _)) = self.editor_connections.remove(&editor_id) {
+                    // The editor gave up ownership of all files it had open.
+                    for file_path in connection.open_files() {
+                        self.maybe_write_file(file_path);
+                    }
+                }
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..cc34c1b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> impl Iterator<Item = &RelativePath> {
+        self.ot_servers.keys()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 6bb8457ea8f020c92f8c0bd436cc72c8042bd33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:59 +0000
Subject: [PATCH 07/23] fix: don't crash when an editor edits a file that a
 peer removed

The file stayed open for the editor, so that its next edit was applied to
a document that doesn't exist. Now, the editor gets the error for files
that aren't open.
---
 daemon/src/daemon.rs            | 3 +++
 daemon/src/editor_connection.rs | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 8993ae6..5e301e3 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -221,6 +221,9 @@ impl DocumentActor {
                             .unwrap_or_else(|err| {
                                 warn!("Failed to remove file {file_path}: {err}");
                             });
+                            for (connection, _) in self.editor_connections.values_mut() {
+                                connection.close(&file_path);
+                            }
                         }
                         PatchEffect::NoEffect => {}
                     }
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index cc34c1b..7ae5b84 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -45,6 +45,11 @@ impl EditorConnection {
         self.ot_servers.keys()
     }
 
+    /// Stops tracking a file that is not there anymore.
+    pub fn close(&mut self, file_path: &RelativePath) {
+        self.ot_servers.remove(file_path);
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 1c916b6628d66d633e401d4f9787dc2ee78e9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:36 +0000
Subject: [PATCH 08/23] fix: start editors with the shared content of a file
 they open

The daemon assumed that the content on disk is the shared content. That
is not so for a file that isn't shared yet (it was shared as an empty
file), that was changed on disk just before, or that another editor has
unsaved changes for. The editor was out of sync from then on, and its
next edit could make the daemon panic.
---
 daemon/src/daemon.rs            | 67 ++++++++++++++++++++++++++++-----
 daemon/src/editor_connection.rs |  6 +++
 daemon/src/ot.rs                |  2 +-
 3 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 5e301e3..b95c374 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -294,7 +294,13 @@ impl DocumentActor {
         &mut self,
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
-    ) -> Result<(), EditorProtocolMessageError> {
+    ) -> Result<ComponentMessage, EditorProtocolMessageError> {
+        let open_files: HashSet<RelativePath> = self
+            .editor_connections
+            .values()
+            .flat_map(|(connection, _)| connection.open_files().cloned())
+            .collect();
+
         let (inside_message, messages_to_editor) = self
             .editor_connections
             .get_mut(&editor_id)
@@ -302,7 +308,11 @@ impl DocumentActor {
             .0
             .message_from_editor(message)?;
 
-        self.inside_message_to_doc(&inside_message).await;
+        match &inside_message {
+            // The file on disk might lag behind the CRDT.
+            ComponentMessage::Open { file_path } if open_files.contains(file_path) => {}
+            _ => self.inside_message_to_doc(&inside_message).await,
+        }
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
         for message_to_editor in messages_to_editor {
@@ -313,7 +323,34 @@ impl DocumentActor {
             .await;
         }
 
-        Ok(())
+        Ok(inside_message)
+    }
+
+    /// An editor that opened a file starts with the content on disk. Send it what it is missing.
+    async fn bring_editor_up_to_date(&mut self, editor_id: EditorId, file_path: &RelativePath) {
+        let Some((connection, _)) = self.editor_connections.get_mut(&editor_id) else {
+            return;
+        };
+        let (Some(content), Ok(text)) = (
+            connection.content(file_path),
+            self.crdt_doc.current_file_content(file_path),
+        ) else {
+            return;
+        };
+        if content == text {
+            return;
+        }
+        let messages_to_editor = connection.message_from_daemon(&ComponentMessage::Edit {
+            file_path: file_path.clone(),
+            delta: dissimilar::diff(&content, &text).into(),
+        });
+        for message_to_editor in messages_to_editor {
+            self.send_to_editor_client(
+                &editor_id,
+                EditorProtocolObject::Request(message_to_editor),
+            )
+            .await;
+        }
     }
 
     fn cursor_id(&self, editor_id: EditorId) -> String {
@@ -325,6 +362,7 @@ impl DocumentActor {
             Ok(parsed_message) => match parsed_message {
                 JSONRPCFromEditor::Request { id, payload } => {
                     let result = self.react_to_message_from_editor(editor_id, &payload).await;
+                    let inside_message = result.clone().ok();
                     let response = match result {
                         Err(error) => {
                             error!("Error for JSON-RPC request: {:?}", error);
@@ -343,9 +381,15 @@ impl DocumentActor {
                         EditorProtocolObject::Response(response),
                     )
                     .await;
+                    if let Some(ComponentMessage::Open { file_path }) = inside_message {
+                        self.bring_editor_up_to_date(editor_id, &file_path).await;
+                    }
                 }
                 JSONRPCFromEditor::Notification { payload } => {
-                    let _ = self.react_to_message_from_editor(editor_id, &payload).await;
+                    let result = self.react_to_message_from_editor(editor_id, &payload).await;
+                    if let Ok(ComponentMessage::Open { file_path }) = result {
+                        self.bring_editor_up_to_date(editor_id, &file_path).await;
+                    }
                 }
             },
             Err(e) => {
@@ -601,12 +645,15 @@ impl DocumentActor {
     async fn inside_message_to_doc(&mut self, message: &ComponentMessage) {
         match message {
             ComponentMessage::Open { file_path } => {
-                self.current_file_content(file_path).unwrap_or_else(|_| {
-                    // The file doesn't exist yet - create it in the Automerge document.
-                    let text = String::new();
-                    self.crdt_doc.initialize_text(&text, file_path);
-                    text
-                });
+                // The editor has the content on disk, which we might not have noticed yet.
+                let content = self
+                    .editor_connections
+                    .values()
+                    .find_map(|(connection, _)| connection.content(file_path));
+                if let Some(content) = content {
+                    self.crdt_doc.update_text(&content, file_path);
+                    let _ = self.doc_changed_ping_tx.send(());
+                }
             }
             ComponentMessage::Close { file_path } => {
                 self.maybe_write_file(file_path);
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 7ae5b84..2725573 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -45,6 +45,12 @@ impl EditorConnection {
         self.ot_servers.keys()
     }
 
+    pub fn content(&self, file_path: &RelativePath) -> Option<String> {
+        self.ot_servers
+            .get(file_path)
+            .map(|ot_server| ot_server.current_content())
+    }
+
     /// Stops tracking a file that is not there anymore.
     pub fn close(&mut self, file_path: &RelativePath) {
         self.ot_servers.remove(file_path);
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..0e91222 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -188,7 +188,7 @@ impl OTServer {
         to_editor
     }
 
-    pub fn current_content(&mut self) -> String {
+    pub fn current_content(&self) -> String {
         self.current_content.clone()
     }
 
-- 
2.43.0


From f351afef6c9bd93f1445f40d46f62b8676979f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:03 +0000
Subject: [PATCH 09/23] fix: keep editors in sync when a file is replaced by a
 peer's version

When both sides create the same file, one of the two versions wins. An
editor that had the other version open got the winning content inserted
into its own, and was out of sync from then on.
---
 daemon/src/daemon.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index b95c374..f48a7b8 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -230,7 +230,23 @@ impl DocumentActor {
                 }
 
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
+                // An empty delta means that the file was created. If that replaced an existing file,
+                // the deltas don't apply to the content that editors have.
+                let created_files: HashSet<&RelativePath> = file_deltas
+                    .iter()
+                    .filter(|file_text_delta| file_text_delta.delta == TextDelta::default())
+                    .map(|file_text_delta| &file_text_delta.file_path)
+                    .collect();
+                let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
+                for file_path in &created_files {
+                    for editor_id in &editor_ids {
+                        self.bring_editor_up_to_date(*editor_id, file_path).await;
+                    }
+                }
                 for file_text_delta in &file_deltas {
+                    if created_files.contains(&file_text_delta.file_path) {
+                        continue;
+                    }
                     let message = ComponentMessage::Edit {
                         file_path: file_text_delta.file_path.clone(),
                         delta: file_text_delta.delta.clone(),
-- 
2.43.0


From 95da22f7d867aa25210faa9d068ca15ed8b2c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:43 +0000
Subject: [PATCH 10/23] fix: accept edits with several parts from editors

The protocol allows an edit to consist of several replacements, but the
daemon panicked on them.
---
 daemon/src/types.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index f275701..d751892 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -400,9 +400,11 @@ impl TextDelta {
     #[must_use]
     pub fn compose(self, other: Self) -> Self {
         let mut my_op_seq: OperationSeq = self.into();
-        let other_op_seq: OperationSeq = other.into();
+        let mut other_op_seq: OperationSeq = other.into();
         if my_op_seq.target_len() < other_op_seq.base_len() {
             my_op_seq.retain((other_op_seq.base_len() - my_op_seq.target_len()) as u64);
+        } else {
+            other_op_seq.retain((my_op_seq.target_len() - other_op_seq.base_len()) as u64);
         }
         my_op_seq
             .compose(&other_op_seq)
@@ -650,12 +652,10 @@ impl TextDelta {
     /// Will panic if the delta contains multiple operations.
     pub fn from_ed_delta(ed_delta: EditorTextDelta, content: &str) -> Self {
         let mut delta = TextDelta::default();
-        // TODO: add support, when needed
-        assert!(
-            ed_delta.0.len() <= 1,
-            "We don't yet support EditorTextDelta with multiple operations."
-        );
-        for ed_op in ed_delta {
+        // All ranges refer to the starting content, so begin with the last one.
+        let mut ed_ops = ed_delta.0;
+        ed_ops.sort_by_key(|ed_op| ed_op.range.as_relative(content).0);
+        for ed_op in ed_ops.into_iter().rev() {
             let mut delta_step = TextDelta::default();
             if ed_op.range.is_empty() {
                 if !ed_op.replacement.is_empty() {
-- 
2.43.0


From 7d69dc9766f4e48ec4e1b1cdf4bd97e98f76e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:08 +0000
Subject: [PATCH 11/23] fix: answer impossible edits with an error instead of
 crashing

An edit with a revision or a position that doesn't exist made the daemon
panic, which stopped it for all editors and peers.
---
 daemon/src/editor_connection.rs | 10 ++++++++++
 daemon/src/ot.rs                | 18 +++++++++++++++++
 daemon/src/types.rs             | 35 +++++++++++++++++++++++++++++----
 3 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 2725573..faa6d08 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -212,6 +212,16 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                if !ot_server.accepts_editor_operation(&rev_delta) {
+                    return Err(EditorProtocolMessageError {
+                        code: -1,
+                        message: "Edit does not apply".into(),
+                        data: Some(
+                            "Its revision or ranges don't exist, or the ranges overlap.".into(),
+                        ),
+                    });
+                }
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index 0e91222..95c3323 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -108,6 +108,24 @@ impl OTServer {
         }
     }
 
+    /// Whether an operation is one that the editor can have made. We know the daemon revisions
+    /// that it can have seen, and the content that it had then.
+    #[must_use]
+    pub fn accepts_editor_operation(&self, rev_editor_delta: &RevisionedEditorTextDelta) -> bool {
+        let Some(seen_operations) = self
+            .daemon_revision
+            .checked_sub(rev_editor_delta.revision)
+            .and_then(|unseen_operations| self.editor_queue.len().checked_sub(unseen_operations))
+        else {
+            return false;
+        };
+        let mut content = self.last_confirmed_editor_content.clone();
+        for op_seq in &self.editor_queue[..seen_operations] {
+            content = Self::force_apply(&content, op_seq.clone());
+        }
+        rev_editor_delta.delta.fits(&content)
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index d751892..3e5b84c 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -33,6 +33,27 @@ pub enum TextOp {
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
 pub struct EditorTextDelta(pub Vec<EditorTextOp>);
 
+impl EditorTextDelta {
+    /// Whether all ranges exist in the content, and don't overlap.
+    #[must_use]
+    pub fn fits(&self, content: &str) -> bool {
+        let ranges: Option<Vec<(usize, usize)>> = self
+            .0
+            .iter()
+            .map(|op| {
+                let start = op.range.start.try_to_offset(content)?;
+                let end = op.range.end.try_to_offset(content)?;
+                Some((start.min(end), start.max(end)))
+            })
+            .collect();
+        let Some(mut ranges) = ranges else {
+            return false;
+        };
+        ranges.sort_by_key(|(start, _)| *start);
+        ranges.windows(2).all(|pair| pair[0].1 <= pair[1].0)
+    }
+}
+
 impl IntoIterator for EditorTextDelta {
     type Item = EditorTextOp;
     type IntoIter = std::vec::IntoIter<Self::Item>;
@@ -361,18 +382,24 @@ impl Position {
         position
     }
 
+    /// will panic when used with not matching content
     fn to_offset(&self, content: &str) -> usize {
+        self.try_to_offset(content)
+            .unwrap_or_else(|| panic!("The content doesn't have a position {self:?}"))
+    }
+
+    fn try_to_offset(&self, content: &str) -> Option<usize> {
         let mut line_start = 0;
         for (line, text) in content.split('\n').enumerate() {
             let line_chars = text.chars().count();
             if line == self.line {
-                let offset = line_start + self.character;
-                assert!(self.character <= line_chars + 1 && offset <= content.chars().count());
-                return offset;
+                let fits = self.character <= line_chars + 1
+                    && line_start + self.character <= content.chars().count();
+                return fits.then(|| line_start + self.character);
             }
             line_start += line_chars + 1;
         }
-        panic!("The content doesn't have a line {}", self.line);
+        None
     }
 }
 
-- 
2.43.0


From 8c17d33b14a22f95af223bd11b8065c8ab7b3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:20 +0000
Subject: [PATCH 12/23] fix: accept further headers after Content-Length

---
 daemon/src/jsonrpc_forwarder.rs | 41 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 66714fb..40d4298 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -74,28 +74,29 @@ impl Decoder for ContentLengthCodec {
             None => return Ok(None),
         };
 
-        // Find the end of the line after that.
-        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
-            .windows(4)
-            .position(|window| window == b"\r\n\r\n")
-        {
-            Some(pos) => (pos, 4),
-            // Even though this is not valid in terms of the spec, also
-            // accept plain newline separators in order to simplify manual testing.
-            None => match src[start_of_header + c.len()..]
-                .windows(2)
-                .position(|window| (window == b"\n\n"))
-            {
-                Some(pos) => (pos, 2),
-                None => return Ok(None),
-            },
+        // Find the end of the headers after that. Even though this is not valid in terms of the
+        // spec, also accept plain newline separators in order to simplify manual testing.
+        let rest = &src[start_of_header + c.len()..];
+        let end_of_headers = |separator: &[u8]| {
+            rest.windows(separator.len())
+                .position(|window| window == separator)
+                .map(|pos| (pos, separator.len()))
+        };
+        let Some((end_of_line, end_of_line_bytes)) =
+            [end_of_headers(b"\r\n\r\n"), end_of_headers(b"\n\n")]
+                .into_iter()
+                .flatten()
+                .min()
+        else {
+            return Ok(None);
         };
 
-        // Parse the content length.
-        let content_length = std::str::from_utf8(
-            &src[start_of_header + c.len()..start_of_header + c.len() + end_of_line],
-        )?
-        .parse()?;
+        // Parse the content length. More headers can follow on the next lines.
+        let content_length = std::str::from_utf8(&rest[..end_of_line])?
+            .lines()
+            .next()
+            .unwrap_or_default()
+            .parse()?;
         let content_start = start_of_header + c.len() + end_of_line + end_of_line_bytes;
 
         // Recommended optimization, in anticipation for future calls to `decode`.
-- 
2.43.0


From b35cf9e7ad5fc96a5e4c6c4059b494fb061dd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:21 +0000
Subject: [PATCH 13/23] fix: pass on messages with line breaks as one line

---
 daemon/src/jsonrpc_forwarder.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 40d4298..dce7fdb 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -43,6 +43,8 @@ pub async fn connection(socket_path: &Path) -> anyhow::Result<()> {
     });
 
     while let Some(Ok(message)) = stdin.next().await {
+        // The socket takes one message per line. In JSON, line breaks are only used between tokens.
+        let message = message.replace(['\r', '\n'], " ");
         socket_write.send(message).await?;
     }
     // Stdin was closed.
-- 
2.43.0


From ed026309be852d9485076215c97ff79b50ea11a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:00 +0000
Subject: [PATCH 14/23] fix: keep a file open in editors when a peer replaces
 it

---
 daemon/src/daemon.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index f48a7b8..d7a4570 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -212,6 +212,11 @@ impl DocumentActor {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
+                            if self.crdt_doc.file_exists(&file_path) {
+                                // The file was created again, so it is only replaced.
+                                continue;
+                            }
+
                             info!("Removing file {file_path}.");
 
                             sandbox::remove_file(
-- 
2.43.0


From 5ac9eee85ca6a67e35f57650fed78386034e529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:14 +0000
Subject: [PATCH 15/23] fix: notice files that are replaced on disk

---
 daemon/src/daemon.rs | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d7a4570..0e20cca 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -435,27 +435,21 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
-                    if !self.crdt_doc.file_exists(&relative_file_path) {
-                        let content = match sandbox::read_file(
-                            &self.base_dir,
-                            Path::new(&file_path),
-                        ) {
-                            Ok(content) => content,
-                            Err(e) => {
-                                warn!(
-                                    "The file watcher noticed a file creation for {relative_file_path}, \
-                                    but we couldn't read it: {e} (probably it disappeared again already?)"
-                                );
-                                return;
-                            }
-                        };
-                        if let Ok(content) = String::from_utf8(content) {
-                            self.crdt_doc.initialize_text(&content, &relative_file_path);
-                        } else {
-                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
+                    let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
+                        Ok(content) => content,
+                        Err(e) => {
+                            warn!(
+                                "The file watcher noticed a file creation for {relative_file_path}, \
+                                but we couldn't read it: {e} (probably it disappeared again already?)"
+                            );
+                            return;
                         }
+                    };
+                    if let Ok(content) = String::from_utf8(content) {
+                        // The file might have been replaced, so it can already exist in the CRDT.
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
-                        debug!("Received watcher creation event, but file already exists in CRDT.")
+                        warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                     }
                     let _ = self.doc_changed_ping_tx.send(());
                 }
@@ -463,7 +457,9 @@ impl DocumentActor {
             WatcherEvent::Removed { file_path } => {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
+                let is_back = matches!(sandbox::exists(&self.base_dir, &file_path), Ok(true))
+                    && !file_path.is_dir();
+                if self.owns(&relative_file_path) && !is_back {
                     self.crdt_doc.remove_text(&relative_file_path);
                     let _ = self.doc_changed_ping_tx.send(());
                 }
-- 
2.43.0


From 35cb4b1d8679474f8c4e570f75c1bb02d6ee21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:59 +0000
Subject: [PATCH 16/23] fix: notice files that are moved into or out of the
 directory

---
 daemon/src/daemon.rs  |  7 +++++--
 daemon/src/watcher.rs | 17 +++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 0e20cca..cdd889a 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -455,8 +455,11 @@ impl DocumentActor {
                 }
             }
             WatcherEvent::Removed { file_path } => {
-                let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
-                    .expect("Watcher event should have a path within the base directory");
+                let Ok(relative_file_path) = RelativePath::try_from_path(&self.base_dir, &file_path)
+                else {
+                    warn!("The directory '{}' was moved away.", file_path.display());
+                    return;
+                };
                 let is_back = matches!(sandbox::exists(&self.base_dir, &file_path), Ok(true))
                     && !file_path.is_dir();
                 if self.owns(&relative_file_path) && !is_back {
diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..fbcce17 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -98,6 +98,23 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                // A file was moved out of or into the directory.
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::From,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                        return Some(e);
+                    }
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_created(&event.paths[0]) {
+                        return Some(e);
+                    }
+                }
                 // MacOS doesn't give us details on moving a file, so we need to infer what
                 // happened.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-- 
2.43.0


From d75b62ebcc4abe0f4ec8edc170eb5d39bef423e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:17 +0000
Subject: [PATCH 17/23] fix: notice the files in directories that are created,
 moved or renamed

---
 daemon/src/daemon.rs  | 21 +++++++++++++++------
 daemon/src/sandbox.rs | 25 ++++++++++++++++++-------
 daemon/src/watcher.rs | 17 ++++++++++++++++-
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index cdd889a..d796486 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -455,16 +455,25 @@ impl DocumentActor {
                 }
             }
             WatcherEvent::Removed { file_path } => {
-                let Ok(relative_file_path) = RelativePath::try_from_path(&self.base_dir, &file_path)
+                let Ok(relative_file_path) =
+                    RelativePath::try_from_path(&self.base_dir, &file_path)
                 else {
                     warn!("The directory '{}' was moved away.", file_path.display());
                     return;
                 };
-                let is_back = matches!(sandbox::exists(&self.base_dir, &file_path), Ok(true))
-                    && !file_path.is_dir();
-                if self.owns(&relative_file_path) && !is_back {
-                    self.crdt_doc.remove_text(&relative_file_path);
-                    let _ = self.doc_changed_ping_tx.send(());
+                // If it was a directory, everything in it was removed.
+                for file_path in self.crdt_doc.files() {
+                    if !file_path.starts_with(&relative_file_path) {
+                        continue;
+                    }
+                    let absolute_path = self.absolute_path_for_file_path(&file_path);
+                    let is_back =
+                        matches!(sandbox::exists(&self.base_dir, &absolute_path), Ok(true))
+                            && !absolute_path.is_dir();
+                    if self.owns(&file_path) && !is_back {
+                        self.crdt_doc.remove_text(&file_path);
+                        let _ = self.doc_changed_ping_tx.send(());
+                    }
                 }
             }
             WatcherEvent::Changed { file_path } => {
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 9d36ee4..1e4c17d 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -90,11 +90,25 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
 
-    let ignored_things = [".git", ".ethersync"];
-
     // To use the same logic for which files are ignored, iterate through all files
     // using ignore::Walk, and try to find this file.
     // This has the downside that the file must already exist.
+    return Ok(!files_not_ignored(absolute_base_dir)
+        .map(|path| absolute_and_canonicalized(&path))
+        .filter_map(Result::ok)
+        .any(|path| path == canonical_file_path));
+}
+
+/// The files in a directory (or in directories below it) that are not ignored.
+pub fn files_below(absolute_base_dir: &Path, absolute_dir_path: &Path) -> Vec<PathBuf> {
+    files_not_ignored(absolute_base_dir)
+        .filter(|path| path.starts_with(absolute_dir_path))
+        .collect()
+}
+
+fn files_not_ignored(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf> {
+    let ignored_things = [".git", ".ethersync"];
+
     // TODO: Things in .gitignore are only ignored when there is a .git? Does that make sense?
     let walk = WalkBuilder::new(absolute_base_dir)
         .standard_filters(true)
@@ -111,17 +125,14 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
         })
         .build();
 
-    return Ok(!walk
-        .filter_map(Result::ok)
+    walk.filter_map(Result::ok)
         .filter(|dir_entry| {
             dir_entry
                 .file_type()
                 .expect("Couldn't get file type of dir entry")
                 .is_file()
         })
-        .map(|dir_entry| absolute_and_canonicalized(dir_entry.path()))
-        .filter_map(Result::ok)
-        .any(|path| path == canonical_file_path));
+        .map(|dir_entry| dir_entry.into_path())
 }
 
 fn check_inside_base_dir_and_canonicalize(base_dir: &Path, path: &Path) -> Result<PathBuf> {
diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index fbcce17..4246678 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -70,6 +70,10 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                EventKind::Create(notify::event::CreateKind::Folder) => {
+                    assert!(event.paths.len() == 1);
+                    self.queue_created_below(&event.paths[0]);
+                }
                 EventKind::Remove(notify::event::RemoveKind::File) => {
                     assert!(event.paths.len() == 1);
                     if let Some(e) = self.maybe_removed(&event.paths[0]) {
@@ -98,7 +102,7 @@ impl Watcher {
                         return Some(e);
                     }
                 }
-                // A file was moved out of or into the directory.
+                // A file or directory was moved out of or into the directory.
                 EventKind::Modify(notify::event::ModifyKind::Name(
                     notify::event::RenameMode::From,
                 )) => {
@@ -111,6 +115,7 @@ impl Watcher {
                     notify::event::RenameMode::To,
                 )) => {
                     assert!(event.paths.len() == 1);
+                    self.queue_created_below(&event.paths[0]);
                     if let Some(e) = self.maybe_created(&event.paths[0]) {
                         return Some(e);
                     }
@@ -165,6 +170,16 @@ impl Watcher {
         })
     }
 
+    /// A directory that appears might have files in it already.
+    fn queue_created_below(&mut self, dir_path: &Path) {
+        if dir_path.is_dir() {
+            for file_path in sandbox::files_below(&self.base_dir, dir_path) {
+                self.out_queue
+                    .push_back(WatcherEvent::Created { file_path });
+            }
+        }
+    }
+
     fn maybe_removed(&self, file_path: &Path) -> Option<WatcherEvent> {
         // TODO: We should check whether the file was ignored here. But how?
         Some(WatcherEvent::Removed {
-- 
2.43.0


From e4e873ff3bb9081d9cea32530cabefcfd66ec735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:17 +0000
Subject: [PATCH 18/23] fix: don't crash on file names that are not UTF-8

---
 daemon/src/daemon.rs  | 7 +++++--
 daemon/src/sandbox.rs | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d796486..99cc094 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -612,12 +612,15 @@ impl DocumentActor {
             .hidden(false)
             // Interestingly, the standard filters don't seem to ignore .git.
             .filter_entry(move |dir_entry| {
-                let name = dir_entry
+                // Names that are not UTF-8 can't be shared.
+                let Some(name) = dir_entry
                     .path()
                     .file_name()
                     .expect("Failed to get file name from path.")
                     .to_str()
-                    .expect("Failed to convert OsStr to str");
+                else {
+                    return false;
+                };
                 !ignored_things.contains(&name)
             })
             .build()
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 1e4c17d..55d243b 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -115,12 +115,15 @@ fn files_not_ignored(absolute_base_dir: &Path) -> impl Iterator<Item = PathBuf>
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
         .filter_entry(move |dir_entry| {
-            let name = dir_entry
+            // Names that are not UTF-8 can't be shared.
+            let Some(name) = dir_entry
                 .path()
                 .file_name()
                 .expect("Failed to get file name from path.")
                 .to_str()
-                .expect("Failed to convert OsStr to str");
+            else {
+                return false;
+            };
             !ignored_things.contains(&name) && !name.ends_with('~')
         })
         .build();
-- 
2.43.0


From 89c5fdec211cd77dbf1244320f6fddadbb5d8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:17 +0000
Subject: [PATCH 19/23] fix: don't share backup files at start-up

---
 daemon/src/daemon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 99cc094..9b20600 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -621,7 +621,7 @@ impl DocumentActor {
                 else {
                     return false;
                 };
-                !ignored_things.contains(&name)
+                !ignored_things.contains(&name) && !name.ends_with('~')
             })
             .build()
     }
-- 
2.43.0


From 4e837c729918a658c5445283b3662bf7bdf4cac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:03 +0000
Subject: [PATCH 20/23] fix: keep the persisted state intact when saving it is
 interrupted

---
 daemon/src/daemon.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 9b20600..08c027f 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -179,9 +179,15 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    // Write to a new file first, so that an interruption leaves the old state intact.
+                    let new_file = self.base_dir.join(".ethersync/doc.new");
+                    sandbox::write_file(&self.base_dir, &new_file, &bytes)
+                        .and_then(|()| {
+                            sandbox::rename_file(&self.base_dir, &new_file, &persistence_file)
+                        })
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
-- 
2.43.0


From aac99762248ffb7618705ec1f7dc37d70a493cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:14:07 +0000
Subject: [PATCH 21/23] fix: recover from an interrupted incremental save

---
 daemon/src/document.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..c30e29d 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -12,7 +12,7 @@ use automerge::{
     patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
+    AutoCommit, AutomergeError, LoadOptions, ObjType, OnPartialLoad, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
 use tracing::{debug, info};
@@ -49,11 +49,21 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        let doc = AutoCommit::load(bytes)
+            .or_else(|_| Self::load_without_incomplete_tail(bytes))
+            .expect("Failed to load Automerge document from given bytes");
         Self { doc }
     }
 
+    /// If the last incremental save was interrupted, use everything that was saved before.
+    fn load_without_incomplete_tail(bytes: &[u8]) -> Result<AutoCommit, AutomergeError> {
+        let options = LoadOptions::new().on_partial_load(OnPartialLoad::Ignore);
+        let mut doc = AutoCommit::load_with_options(bytes, options)?;
+        // The previous step only loads the first chunk.
+        doc.load_incremental(bytes)?;
+        Ok(doc)
+    }
+
     pub fn save(&mut self) -> Vec<u8> {
         self.doc.save()
     }
-- 
2.43.0


From 691b802d569ea992e11e50fd6f046a18b7ce57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:01 +0000
Subject: [PATCH 22/23] fix: don't lose parts of messages between peers

Waiting for the length of the next message was abandoned whenever there was
something to send. Bytes of the length that had already arrived were lost.
The end of the connection while waiting for a length went unnoticed, too.
Now, both directions of a connection run side by side.
---
 daemon/src/peer.rs | 69 ++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 33 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..3243620 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -9,12 +9,11 @@ use crate::daemon::{DocMessage, DocumentActorHandle};
 use anyhow::{Context, Result};
 use automerge::sync::{Message as AutomergeSyncMessage, State as SyncState};
 use futures::StreamExt;
-use futures::{AsyncReadExt, AsyncWriteExt};
+use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
 use ini::Ini;
 use libp2p::core::transport::upgrade::Version;
 use libp2p::core::ConnectedPoint;
 use libp2p::multiaddr::{Multiaddr, Protocol};
-use libp2p::Stream;
 use libp2p::StreamProtocol;
 use libp2p::Transport;
 use libp2p::{identity::Keypair, noise, pnet, tcp, yamux};
@@ -265,7 +264,7 @@ impl P2PActor {
         key
     }
 
-    fn spawn_peer_sync(&self, stream: Stream) {
+    fn spawn_peer_sync(&self, stream: impl AsyncRead + AsyncWrite + Send + 'static) {
         let (to_peer_tx, to_peer_rx) = mpsc::channel(16);
         let (from_peer_tx, from_peer_rx) = mpsc::channel(16);
 
@@ -291,42 +290,46 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        stream: impl AsyncRead + AsyncWrite,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
+        to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        let (reader, writer) = stream.split();
+        // Neither direction may be interrupted in the middle of a message, or wait for the other
+        // one, so they run side by side until the first one ends.
+        tokio::select! {
+            result = Self::receive_messages(reader, from_peer_tx) => result,
+            result = Self::send_messages(writer, to_peer_rx) => result,
+        }
+    }
+
+    async fn send_messages(
+        mut stream: impl AsyncWrite + Unpin,
         mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
+    ) -> Result<()> {
+        while let Some(message) = to_peer_rx.recv().await {
+            let message = message.encode();
+            let message_len = u32::try_from(message.len());
+            stream.write_all(&message_len?.to_be_bytes()).await?;
+            stream.write_all(&message).await?;
+        }
+        // The syncer has stopped.
+        Ok(())
+    }
+
+    async fn receive_messages(
+        mut stream: impl AsyncRead + Unpin,
+        from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
     ) -> Result<()> {
         loop {
             let mut message_len_buf = [0; 4];
+            stream.read_exact(&mut message_len_buf).await?;
+            let message_len = u32::from_be_bytes(message_len_buf);
+            let mut message_buf = vec![0; message_len as usize];
+            stream.read_exact(&mut message_buf).await?;
 
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
-            }
+            let message = AutomergeSyncMessage::decode(&message_buf)?;
+            from_peer_tx.send(message).await?;
         }
     }
 }
-- 
2.43.0


From 1db5d4f45951f189a88962653a57174f4afdf4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:32:29 +0000
Subject: [PATCH 23/23] Let a verification harness reach peer connections

Only compiled with --cfg ethersync_verif.
---
 daemon/src/peer.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 3243620..81a3845 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -424,3 +424,29 @@ impl SyncActor {
         }
     }
 }
+
+/// Lets a verification harness reach the parts of a peer connection.
+#[allow(unexpected_cfgs)]
+mod verif {
+    #[cfg(ethersync_verif)]
+    impl super::P2PActor {
+        pub fn verif_identity(&self) -> Vec<u8> {
+            self.get_keypair().public().encode_protobuf()
+        }
+
+        pub async fn verif_protocol_handler(
+            stream: impl futures::AsyncRead + futures::AsyncWrite,
+            from_peer_tx: super::mpsc::Sender<super::AutomergeSyncMessage>,
+            to_peer_rx: super::mpsc::Receiver<super::AutomergeSyncMessage>,
+        ) -> anyhow::Result<()> {
+            Self::protocol_handler(stream, from_peer_tx, to_peer_rx).await
+        }
+
+        pub fn verif_spawn_peer_sync(
+            &self,
+            stream: impl futures::AsyncRead + futures::AsyncWrite + Send + 'static,
+        ) {
+            self.spawn_peer_sync(stream);
+        }
+    }
+}
-- 
2.43.0

