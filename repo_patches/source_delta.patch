From 7017b8b66937e5437cda956b0bac3927abaacd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:56 +0000
Subject: [PATCH 01/32] fix: count only newlines as line breaks in editor
 positions

Positions were computed with ropey, which also breaks lines at lone
carriage returns, vertical tabs, form feeds and Unicode separators.
Editors do not, so edits behind such a character went to the wrong
place or crashed the daemon.
---
 daemon/src/types.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3916a9a..d1ebc39 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -8,7 +8,6 @@ use anyhow::bail;
 use automerge::{Patch, PatchAction};
 use dissimilar::Chunk;
 use operational_transform::{Operation as OTOperation, OperationSeq};
-use ropey::Rope;
 use serde::{Deserialize, Serialize};
 use tracing::{debug, error, warn};
 
@@ -345,20 +344,37 @@ pub struct Position {
 }
 
 impl Position {
+    /// Lines are separated by newline characters only, like in the editors: Other Unicode line
+    /// breaks are just characters in a line.
+    ///
     /// will panic when used with not matching offset/content
     fn from_offset(full_offset: usize, content: &str) -> Self {
-        let rope = Rope::from_str(content);
-        let line = rope.char_to_line(full_offset);
-        let character = full_offset - rope.line_to_char(line);
-        Self { line, character }
+        let mut position = Self::default();
+        let mut chars = content.chars();
+        for _ in 0..full_offset {
+            let c = chars.next().expect("Offset should be inside the content");
+            if c == '\n' {
+                position.line += 1;
+                position.character = 0;
+            } else {
+                position.character += 1;
+            }
+        }
+        position
     }
 
     fn to_offset(&self, content: &str) -> usize {
-        let rope = Rope::from_str(content);
+        let mut offset = 0;
+        let mut lines = content.split_inclusive('\n');
+        for _ in 0..self.line {
+            let line = lines.next().expect("Line should be inside the content");
+            assert!(line.ends_with('\n'), "Line should be inside the content");
+            offset += line.chars().count();
+        }
 
-        assert!(self.character <= rope.line(self.line).len_chars());
+        assert!(self.character <= lines.next().unwrap_or("").chars().count());
 
-        rope.line_to_char(self.line) + self.character
+        offset + self.character
     }
 }
 
-- 
2.43.0


From f2249dca1339995aee8cd5e1b36c97da860eebd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:14:10 +0000
Subject: [PATCH 02/32] fix: write open files to disk when their editor
 disconnects

Files belong to the editors that have them open, so changes were not
written to disk. When the connection broke without the files being
closed, the disk kept an old version, which is shared again at the next
start.
---
 daemon/src/daemon.rs            | 17 +++++++++++++----
 daemon/src/editor_connection.rs |  4 ++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1fffef0..56cb27e 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -269,7 +269,7 @@ impl DocumentActor {
                 );
             }
             DocMessage::CloseEditorConnection(editor_id) => {
-                self.editor_connections.remove(&editor_id);
+                self.remove_editor(editor_id);
 
                 let cursor_id = self.cursor_id(editor_id);
                 debug!("Deleting cursor {cursor_id}");
@@ -472,10 +472,19 @@ impl DocumentActor {
             .get_mut(editor_id)
             .expect("Could not get editor handle");
 
-        connection.1.send(message).await.unwrap_or_else(|err| {
+        if let Err(err) = connection.1.send(message).await {
             error!("Failed to send message to editor: {err} Removing editor.");
-            self.editor_connections.remove(editor_id);
-        });
+            self.remove_editor(*editor_id);
+        }
+    }
+
+    fn remove_editor(&mut self, editor_id: EditorId) {
+        if let Some((connection, _)) = self.editor_connections.remove(&editor_id) {
+            // The editor gave up ownership of its open files.
+            for file_path in connection.open_files() {
+                self.maybe_write_file(file_path);
+            }
+        }
     }
 
     fn maybe_write_files_changed_in_file_deltas(&mut self, file_deltas: &Vec<FileTextDelta>) {
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index a8b2308..cc34c1b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -41,6 +41,10 @@ impl EditorConnection {
         self.ot_servers.contains_key(file_path)
     }
 
+    pub fn open_files(&self) -> impl Iterator<Item = &RelativePath> {
+        self.ot_servers.keys()
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 68f0dfa8f909255632087b2727c720ae9531af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:22 +0000
Subject: [PATCH 03/32] fix: bring editor and document together when a file is
 opened

The editor starts with the content on disk. The document might not have
that content: the file can be missing in it, the watcher might not have
reported a change yet, or another editor has unsaved changes. All of
these led to different contents, and crashes when editing.

Also tell the peers about files created by opening them.
---
 daemon/src/daemon.rs            | 60 ++++++++++++++++++++++++++++-----
 daemon/src/editor_connection.rs | 30 +++++++++++++++++
 2 files changed, 82 insertions(+), 8 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 56cb27e..1657127 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -287,6 +287,7 @@ impl DocumentActor {
         editor_id: EditorId,
         message: &EditorProtocolMessageFromEditor,
     ) -> Result<(), EditorProtocolMessageError> {
+        let files_open_before = self.files_open_in_editors();
         let (inside_message, messages_to_editor) = self
             .editor_connections
             .get_mut(&editor_id)
@@ -294,6 +295,12 @@ impl DocumentActor {
             .0
             .message_from_editor(message)?;
 
+        if let ComponentMessage::Open { file_path } = &inside_message {
+            if !files_open_before.contains(file_path) || !self.crdt_doc.file_exists(file_path) {
+                // The editor starts with the content on disk, and we might not know it yet.
+                self.read_opened_file(editor_id, file_path);
+            }
+        }
         self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
@@ -308,6 +315,24 @@ impl DocumentActor {
         Ok(())
     }
 
+    fn files_open_in_editors(&self) -> HashSet<RelativePath> {
+        self.editor_connections
+            .values()
+            .flat_map(|connection| connection.0.open_files().cloned())
+            .collect()
+    }
+
+    fn read_opened_file(&mut self, editor_id: EditorId, file_path: &RelativePath) {
+        if let Some(content) = self
+            .editor_connections
+            .get_mut(&editor_id)
+            .and_then(|connection| connection.0.current_content(file_path))
+        {
+            self.crdt_doc.update_text(&content, file_path);
+            let _ = self.doc_changed_ping_tx.send(());
+        }
+    }
+
     fn cursor_id(&self, editor_id: EditorId) -> String {
         self.crdt_doc.actor_id() + "-" + editor_id.to_string().as_str()
     }
@@ -335,9 +360,15 @@ impl DocumentActor {
                         EditorProtocolObject::Response(response),
                     )
                     .await;
+                    if let EditorProtocolMessageFromEditor::Open { .. } = payload {
+                        self.update_outdated_editors().await;
+                    }
                 }
                 JSONRPCFromEditor::Notification { payload } => {
                     let _ = self.react_to_message_from_editor(editor_id, &payload).await;
+                    if let EditorProtocolMessageFromEditor::Open { .. } = payload {
+                        self.update_outdated_editors().await;
+                    }
                 }
             },
             Err(e) => {
@@ -595,14 +626,7 @@ impl DocumentActor {
 
     async fn inside_message_to_doc(&mut self, message: &ComponentMessage) {
         match message {
-            ComponentMessage::Open { file_path } => {
-                self.current_file_content(file_path).unwrap_or_else(|_| {
-                    // The file doesn't exist yet - create it in the Automerge document.
-                    let text = String::new();
-                    self.crdt_doc.initialize_text(&text, file_path);
-                    text
-                });
-            }
+            ComponentMessage::Open { .. } => {}
             ComponentMessage::Close { file_path } => {
                 self.maybe_write_file(file_path);
             }
@@ -656,6 +680,26 @@ impl DocumentActor {
         }
     }
 
+    /// Sends the missing edits to editors whose content is not the one of the CRDT.
+    /// That's the case if they opened a file that's outdated on disk, because another editor has
+    /// it open.
+    async fn update_outdated_editors(&mut self) {
+        let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
+        for editor_id in editor_ids {
+            let messages_to_editor = match self.editor_connections.get_mut(&editor_id) {
+                Some(connection) => connection.0.update_outdated_files(&self.crdt_doc),
+                None => continue,
+            };
+            for message_to_editor in messages_to_editor {
+                self.send_to_editor_client(
+                    &editor_id,
+                    EditorProtocolObject::Request(message_to_editor),
+                )
+                .await;
+            }
+        }
+    }
+
     async fn maybe_delete_cursor_position(&mut self, cursor_id: &str) {
         self.crdt_doc.maybe_delete_cursor_position(cursor_id);
         let _ = self.doc_changed_ping_tx.send(());
diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index cc34c1b..03ef092 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -9,6 +9,7 @@ use anyhow::Context;
 use tracing::debug;
 
 use crate::{
+    document::Document,
     ot::OTServer,
     path::{AbsolutePath, FileUri, RelativePath},
     sandbox,
@@ -45,6 +46,35 @@ impl EditorConnection {
         self.ot_servers.keys()
     }
 
+    pub fn current_content(&mut self, file_path: &RelativePath) -> Option<String> {
+        self.ot_servers
+            .get_mut(file_path)
+            .map(OTServer::current_content)
+    }
+
+    /// Calculates edits for the open files whose content is not the one of the document.
+    pub fn update_outdated_files(
+        &mut self,
+        document: &Document,
+    ) -> Vec<EditorProtocolMessageToEditor> {
+        let mut messages_to_editor = vec![];
+        let file_paths: Vec<RelativePath> = self.open_files().cloned().collect();
+        for file_path in file_paths {
+            if let (Some(content), Ok(desired_content)) = (
+                self.current_content(&file_path),
+                document.current_file_content(&file_path),
+            ) {
+                if content != desired_content {
+                    let delta = dissimilar::diff(&content, &desired_content).into();
+                    messages_to_editor.extend(
+                        self.message_from_daemon(&ComponentMessage::Edit { file_path, delta }),
+                    );
+                }
+            }
+        }
+        messages_to_editor
+    }
+
     pub fn message_from_daemon(
         &mut self,
         message: &ComponentMessage,
-- 
2.43.0


From 4e73a8270967e244e8af2e3cf86798679543da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:49 +0000
Subject: [PATCH 04/32] fix: keep editors in sync when an open file is deleted
 or created again by peers

---
 daemon/src/daemon.rs   | 34 ++++++++++++++++++++++++++++------
 daemon/src/document.rs | 15 ++++++++++++++-
 2 files changed, 42 insertions(+), 7 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 1657127..caa5da9 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -227,13 +227,28 @@ impl DocumentActor {
                 }
 
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
+
+                // An empty delta means that the file was created. If an editor has it open already,
+                // the deltas don't apply to the content that the editor has.
+                let created_files: HashSet<&RelativePath> = file_deltas
+                    .iter()
+                    .filter(|file_text_delta| file_text_delta.delta.0.is_empty())
+                    .map(|file_text_delta| &file_text_delta.file_path)
+                    .collect();
+
                 for file_text_delta in &file_deltas {
+                    if created_files.contains(&file_text_delta.file_path) {
+                        continue;
+                    }
                     let message = ComponentMessage::Edit {
                         file_path: file_text_delta.file_path.clone(),
                         delta: file_text_delta.delta.clone(),
                     };
                     self.broadcast_to_editors(None, &message).await;
                 }
+                if !created_files.is_empty() {
+                    self.update_outdated_editors().await;
+                }
                 for cursor_state in &cursor_states {
                     let message = ComponentMessage::Cursor {
                         cursor_id: cursor_state.cursor_id.clone(),
@@ -295,13 +310,20 @@ impl DocumentActor {
             .0
             .message_from_editor(message)?;
 
-        if let ComponentMessage::Open { file_path } = &inside_message {
-            if !files_open_before.contains(file_path) || !self.crdt_doc.file_exists(file_path) {
+        match &inside_message {
+            ComponentMessage::Open { file_path }
+                if !files_open_before.contains(file_path)
+                    || !self.crdt_doc.file_exists(file_path) =>
+            {
                 // The editor starts with the content on disk, and we might not know it yet.
-                self.read_opened_file(editor_id, file_path);
+                self.read_content_from_editor(editor_id, file_path);
+            }
+            ComponentMessage::Edit { file_path, .. } if !self.crdt_doc.file_exists(file_path) => {
+                // The file was removed while the editor had it open. The edit creates it again.
+                self.read_content_from_editor(editor_id, file_path);
             }
+            _ => self.inside_message_to_doc(&inside_message).await,
         }
-        self.inside_message_to_doc(&inside_message).await;
         self.broadcast_to_editors(Some(editor_id), &inside_message)
             .await;
         for message_to_editor in messages_to_editor {
@@ -322,7 +344,7 @@ impl DocumentActor {
             .collect()
     }
 
-    fn read_opened_file(&mut self, editor_id: EditorId, file_path: &RelativePath) {
+    fn read_content_from_editor(&mut self, editor_id: EditorId, file_path: &RelativePath) {
         if let Some(content) = self
             .editor_connections
             .get_mut(&editor_id)
@@ -682,7 +704,7 @@ impl DocumentActor {
 
     /// Sends the missing edits to editors whose content is not the one of the CRDT.
     /// That's the case if they opened a file that's outdated on disk, because another editor has
-    /// it open.
+    /// it open, or if a peer created a file anew that they have open.
     async fn update_outdated_editors(&mut self) {
         let editor_ids: Vec<EditorId> = self.editor_connections.keys().cloned().collect();
         for editor_id in editor_ids {
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 038c294..3e43385 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -76,7 +76,20 @@ impl Document {
             .sync()
             .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
             .expect("Failed to apply sync message to Automerge document");
-        self.doc.make_patches(&mut patch_log)
+        let mut patches = self.doc.make_patches(&mut patch_log);
+        // If a file was created by two peers concurrently, Automerge also reports changes to the
+        // text that lost the conflict.
+        patches.retain(|patch| !self.is_hidden_by_conflict(patch));
+        patches
+    }
+
+    fn is_hidden_by_conflict(&self, patch: &Patch) -> bool {
+        if let Some((parent, automerge::Prop::Map(key))) = patch.path.last() {
+            if let Ok(Some((_, winner))) = self.doc.get(parent, key.as_str()) {
+                return winner != patch.obj;
+            }
+        }
+        false
     }
 
     pub fn generate_sync_message(
-- 
2.43.0


From df025618f7b36e7b0495c9a6b3c7cb0bc2cb0817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:41 +0000
Subject: [PATCH 05/32] fix: handle messages of an editor whose connection
 failed while sending

---
 daemon/src/daemon.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index caa5da9..c359545 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -526,8 +526,9 @@ impl DocumentActor {
             .expect("Could not get editor handle");
 
         if let Err(err) = connection.1.send(message).await {
-            error!("Failed to send message to editor: {err} Removing editor.");
-            self.remove_editor(*editor_id);
+            // We will remove the editor when its connection is closed. Until then, we might still
+            // receive messages that it sent before.
+            error!("Failed to send message to editor: {err}");
         }
     }
 
-- 
2.43.0


From 6bc4a5ebdda8875b1bded730f31d5c3c652596a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:05 +0000
Subject: [PATCH 06/32] fix: notice files that are moved into or out of the
 shared directory

---
 daemon/src/watcher.rs | 41 +++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/daemon/src/watcher.rs b/daemon/src/watcher.rs
index ab4ef68..84ee4c7 100644
--- a/daemon/src/watcher.rs
+++ b/daemon/src/watcher.rs
@@ -8,10 +8,7 @@ use notify::{
     event::EventKind, RecommendedWatcher, RecursiveMode, Result as NotifyResult,
     Watcher as NotifyWatcher,
 };
-use std::{
-    collections::VecDeque,
-    path::{Path, PathBuf},
-};
+use std::path::{Path, PathBuf};
 use tokio::sync::mpsc::{self, Receiver};
 use tracing::debug;
 
@@ -27,7 +24,6 @@ pub struct Watcher {
     _watcher: RecommendedWatcher,
     base_dir: PathBuf,
     notify_receiver: Receiver<NotifyResult<notify::Event>>,
-    out_queue: VecDeque<WatcherEvent>,
 }
 
 impl Watcher {
@@ -49,18 +45,12 @@ impl Watcher {
             _watcher: watcher,
             base_dir: dir.to_path_buf(),
             notify_receiver: rx,
-            out_queue: VecDeque::new(),
         }
     }
 
     pub async fn next(&mut self) -> Option<WatcherEvent> {
         loop {
-            // If there's an event in the queue, return the oldest one.
-            if let Some(event) = self.out_queue.pop_front() {
-                return Some(event);
-            }
-
-            // Otherwise, wait for the next event from the watcher.
+            // Wait for the next event from the watcher.
             let event = self.notify_receiver.recv().await.unwrap().unwrap();
 
             match event.kind {
@@ -82,19 +72,26 @@ impl Watcher {
                         return Some(e);
                     }
                 }
+                // If a file is renamed inside of the base directory, we get both of these events (and
+                // an additional "Both" event, which we ignore). If it is moved out of the base
+                // directory or into it, we only get one of them.
                 EventKind::Modify(notify::event::ModifyKind::Name(
-                    notify::event::RenameMode::Both,
+                    notify::event::RenameMode::From,
                 )) => {
-                    assert!(event.paths.len() == 2);
-                    let removed = self.maybe_removed(&event.paths[0]);
-                    let created = self.maybe_created(&event.paths[1]);
-
-                    // Queue the create event for later, return the remove event.
-                    if let Some(e) = created {
-                        self.out_queue.push_back(e);
+                    assert!(event.paths.len() == 1);
+                    if event.paths[0] == self.base_dir {
+                        // The base directory itself was moved.
+                        continue;
                     }
-
-                    if let Some(e) = removed {
+                    if let Some(e) = self.maybe_removed(&event.paths[0]) {
+                        return Some(e);
+                    }
+                }
+                EventKind::Modify(notify::event::ModifyKind::Name(
+                    notify::event::RenameMode::To,
+                )) => {
+                    assert!(event.paths.len() == 1);
+                    if let Some(e) = self.maybe_created(&event.paths[0]) {
                         return Some(e);
                     }
                 }
-- 
2.43.0


From 5c1387b0f28722c7e3ff356ce212701507021005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:24 +0000
Subject: [PATCH 07/32] fix: share files which replace a shared file on disk

---
 daemon/src/daemon.rs | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index c359545..89ad415 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -415,27 +415,22 @@ impl DocumentActor {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
                 if self.owns(&relative_file_path) {
-                    if !self.crdt_doc.file_exists(&relative_file_path) {
-                        let content = match sandbox::read_file(
-                            &self.base_dir,
-                            Path::new(&file_path),
-                        ) {
-                            Ok(content) => content,
-                            Err(e) => {
-                                warn!(
-                                    "The file watcher noticed a file creation for {relative_file_path}, \
-                                    but we couldn't read it: {e} (probably it disappeared again already?)"
-                                );
-                                return;
-                            }
-                        };
-                        if let Ok(content) = String::from_utf8(content) {
-                            self.crdt_doc.initialize_text(&content, &relative_file_path);
-                        } else {
-                            warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
+                    // The file might exist in the CRDT already: Because we wrote it ourselves, or
+                    // because another file was moved to this place.
+                    let content = match sandbox::read_file(&self.base_dir, Path::new(&file_path)) {
+                        Ok(content) => content,
+                        Err(e) => {
+                            warn!(
+                                "The file watcher noticed a file creation for {relative_file_path}, \
+                                but we couldn't read it: {e} (probably it disappeared again already?)"
+                            );
+                            return;
                         }
+                    };
+                    if let Ok(content) = String::from_utf8(content) {
+                        self.crdt_doc.update_text(&content, &relative_file_path);
                     } else {
-                        debug!("Received watcher creation event, but file already exists in CRDT.")
+                        warn!("Ignoring newly created non-UTF-8 file {relative_file_path}");
                     }
                     let _ = self.doc_changed_ping_tx.send(());
                 }
@@ -443,7 +438,9 @@ impl DocumentActor {
             WatcherEvent::Removed { file_path } => {
                 let relative_file_path = RelativePath::try_from_path(&self.base_dir, &file_path)
                     .expect("Watcher event should have a path within the base directory");
-                if self.owns(&relative_file_path) {
+                // The file might have been created again since then.
+                let exists = sandbox::exists(&self.base_dir, &file_path).unwrap_or(false);
+                if self.owns(&relative_file_path) && !exists {
                     self.crdt_doc.remove_text(&relative_file_path);
                     let _ = self.doc_changed_ping_tx.send(());
                 }
-- 
2.43.0


From 9deae45725549bfb6bc6b4f1d1f6baeda13af1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:12 +0000
Subject: [PATCH 08/32] fix: load the saved document after being killed while
 saving it

---
 daemon/src/daemon.rs   | 16 +++++++++++++---
 daemon/src/document.rs | 12 +++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 89ad415..d25b986 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -179,9 +179,19 @@ impl DocumentActor {
                 if self.save_fully {
                     debug!("Persisting fully!");
                     let bytes = self.crdt_doc.save();
-                    sandbox::write_file(&self.base_dir, &persistence_file, &bytes).unwrap_or_else(
-                        |_| panic!("Failed to persist to '{}'", persistence_file.display()),
-                    );
+                    // Replace the file at once, so that it's never incomplete.
+                    let new_persistence_file = self.base_dir.join(".ethersync/doc.new");
+                    sandbox::write_file(&self.base_dir, &new_persistence_file, &bytes)
+                        .and_then(|()| {
+                            sandbox::rename_file(
+                                &self.base_dir,
+                                &new_persistence_file,
+                                &persistence_file,
+                            )
+                        })
+                        .unwrap_or_else(|_| {
+                            panic!("Failed to persist to '{}'", persistence_file.display())
+                        });
                     self.save_fully = false
                 } else {
                     debug!("Persisting incrementally!");
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 3e43385..7e17e54 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -15,7 +15,7 @@ use automerge::{
     AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
 };
 use dissimilar::Chunk;
-use tracing::{debug, info};
+use tracing::{debug, info, warn};
 
 /// Encapsulates the Automerge `AutoCommit` and provides a generic interface,
 /// s.t. we don't need to worry about automerge internals elsewhere.
@@ -49,8 +49,14 @@ impl Default for Document {
 
 impl Document {
     pub fn load(bytes: &[u8]) -> Self {
-        let doc =
-            AutoCommit::load(bytes).expect("Failed to load Automerge document from given bytes");
+        let doc = AutoCommit::load(bytes).unwrap_or_else(|error| {
+            // Maybe we were killed while saving incrementally. Load everything that is complete.
+            warn!("Automerge document is not complete: {error}");
+            let mut doc = Self::default().doc;
+            doc.load_incremental(bytes)
+                .expect("Failed to load Automerge document from given bytes");
+            doc
+        });
         Self { doc }
     }
 
-- 
2.43.0


From 2d09e35789ddbc559c19f39660a0b08636c6c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:32 +0000
Subject: [PATCH 09/32] fix: do not leave an incomplete key file behind when
 killed

---
 daemon/src/peer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 10897a4..4067370 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -240,14 +240,19 @@ impl P2PActor {
                 .to_protobuf_encoding()
                 .expect("Failed to serialize keypair");
 
+            // Rename the file when it's complete, so that we never read an incomplete one.
+            let new_keyfile = keyfile.with_extension("new");
+            if new_keyfile.exists() {
+                fs::remove_file(&new_keyfile).expect("Failed to remove incomplete key file");
+            }
             let mut file = OpenOptions::new()
-                .create(true)
+                .create_new(true)
                 .write(true)
-                .truncate(true)
                 .mode(0o600)
-                .open(keyfile)
+                .open(&new_keyfile)
                 .expect("Should have been able to create key file that did not exist before");
             file.write_all(&bytes).expect("Failed to write to key file");
+            fs::rename(&new_keyfile, &keyfile).expect("Failed to move key file into place");
 
             keypair
         }
-- 
2.43.0


From 9bb28c98109e9e4732d843711f9c05058229ee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:22 +0000
Subject: [PATCH 10/32] fix: do not stop on paths with dot-dot after a missing
 directory

---
 daemon/src/sandbox.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index e8bce6c..61af5e5 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -145,7 +145,7 @@ fn absolute_and_canonicalized(path: &Path) -> Result<PathBuf> {
     let mut suffix_path = PathBuf::new();
     let mut prefix_path = canonical_path.clone();
 
-    for component in path.components().rev() {
+    for component in canonical_path.components().rev() {
         if prefix_path.exists() {
             break;
         }
-- 
2.43.0


From ea8238430013742b5456d3a9328d7c9f61b8f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:38 +0000
Subject: [PATCH 11/32] fix: do not create files outside the project through
 broken symbolic links

---
 daemon/src/sandbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index 61af5e5..ab4af24 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -28,6 +28,11 @@ pub fn write_file(
 ) -> Result<()> {
     let canonical_file_path =
         check_inside_base_dir_and_canonicalize(absolute_base_dir, absolute_file_path)?;
+    if canonical_file_path.is_symlink() {
+        // It points to something that doesn't exist, possibly outside the base directory. We must
+        // not create that.
+        bail!("File path is a broken symbolic link.");
+    }
     fs::write(canonical_file_path, content)?;
     Ok(())
 }
-- 
2.43.0


From 09ce7f722476321ee1b1cfedadff8680d30f0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:12 +0000
Subject: [PATCH 12/32] fix: ignore files whose name is not valid UTF-8

---
 daemon/src/daemon.rs  | 6 +++---
 daemon/src/sandbox.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index d25b986..a4ecace 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -598,13 +598,13 @@ impl DocumentActor {
             .hidden(false)
             // Interestingly, the standard filters don't seem to ignore .git.
             .filter_entry(move |dir_entry| {
-                let name = dir_entry
+                // We can't share files whose name isn't valid UTF-8.
+                dir_entry
                     .path()
                     .file_name()
                     .expect("Failed to get file name from path.")
                     .to_str()
-                    .expect("Failed to convert OsStr to str");
-                !ignored_things.contains(&name)
+                    .is_some_and(|name| !ignored_things.contains(&name))
             })
             .build()
     }
diff --git a/daemon/src/sandbox.rs b/daemon/src/sandbox.rs
index ab4af24..9ed9d4f 100644
--- a/daemon/src/sandbox.rs
+++ b/daemon/src/sandbox.rs
@@ -106,13 +106,13 @@ pub fn ignored(absolute_base_dir: &Path, absolute_file_path: &Path) -> Result<bo
         .hidden(false)
         // Interestingly, the standard filters don't seem to ignore .git.
         .filter_entry(move |dir_entry| {
-            let name = dir_entry
+            // We can't share files whose name isn't valid UTF-8.
+            dir_entry
                 .path()
                 .file_name()
                 .expect("Failed to get file name from path.")
                 .to_str()
-                .expect("Failed to convert OsStr to str");
-            !ignored_things.contains(&name) && !name.ends_with('~')
+                .is_some_and(|name| !ignored_things.contains(&name) && !name.ends_with('~'))
         })
         .build();
 
-- 
2.43.0


From a90beaa89674f9cb2650d6147dbedb76a50b3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:00:55 +0000
Subject: [PATCH 13/32] fix: answer invalid edits with an error instead of
 stopping

---
 daemon/src/editor_connection.rs |  6 +++++-
 daemon/src/ot.rs                | 33 +++++++++++++++++++++++++++++++++
 daemon/src/types.rs             | 19 +++++++++++++++----
 3 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 03ef092..0276c23 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -155,7 +155,7 @@ impl EditorConnection {
 
                 // We only want to process these messages for files that are not ignored.
                 if sandbox::ignored(&self.base_dir, &absolute_path)
-                    .expect("Could not check ignore status of opened file")
+                    .map_err(anyhow_err_to_protocol_err)?
                 {
                     return Err(EditorProtocolMessageError {
                         code: -1,
@@ -231,6 +231,10 @@ impl EditorConnection {
                     delta: delta.clone(),
                 };
 
+                ot_server
+                    .check_editor_operation(&rev_delta)
+                    .map_err(anyhow_err_to_protocol_err)?;
+
                 let (delta_for_crdt, rev_deltas_for_editor) =
                     ot_server.apply_editor_operation(rev_delta.clone());
 
diff --git a/daemon/src/ot.rs b/daemon/src/ot.rs
index b49bb93..262a395 100644
--- a/daemon/src/ot.rs
+++ b/daemon/src/ot.rs
@@ -6,6 +6,7 @@
 #![allow(dead_code)]
 
 use crate::types::{EditorTextDelta, RevisionedEditorTextDelta, RevisionedTextDelta, TextDelta};
+use anyhow::{bail, Result};
 use operational_transform::OperationSeq;
 use tracing::debug;
 
@@ -108,6 +109,38 @@ impl OTServer {
         }
     }
 
+    /// Checks whether an operation that the editor wants to send us can be applied.
+    pub fn check_editor_operation(
+        &self,
+        rev_editor_delta: &RevisionedEditorTextDelta,
+    ) -> Result<()> {
+        let Some(unconfirmed_operations) =
+            self.daemon_revision.checked_sub(rev_editor_delta.revision)
+        else {
+            bail!("The revision is from the future");
+        };
+        let Some(seen_operations) = self.editor_queue.len().checked_sub(unconfirmed_operations)
+        else {
+            bail!("The revision is older than the one of a previous edit");
+        };
+        let mut content = self.last_confirmed_editor_content.clone();
+        for seen_operation in &self.editor_queue[..seen_operations] {
+            content = Self::force_apply(&content, seen_operation.clone());
+        }
+        let ops = &rev_editor_delta.delta.0;
+        if ops.len() > 1 {
+            bail!("Deltas with multiple operations are not supported");
+        }
+        for op in ops {
+            if op.range.start.try_to_offset(&content).is_none()
+                || op.range.end.try_to_offset(&content).is_none()
+            {
+                bail!("The range is outside of the file's content");
+            }
+        }
+        Ok(())
+    }
+
     /// Called when the editor sends us an operation.
     /// daemonRevision is the revision this operation applies to.
     pub fn apply_editor_operation(
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index d1ebc39..3e2c2e0 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -363,18 +363,29 @@ impl Position {
         position
     }
 
+    /// will panic when used with not matching position/content
     fn to_offset(&self, content: &str) -> usize {
+        self.try_to_offset(content)
+            .expect("Position should be inside the content")
+    }
+
+    /// Returns None if the position is outside the content.
+    pub fn try_to_offset(&self, content: &str) -> Option<usize> {
         let mut offset = 0;
         let mut lines = content.split_inclusive('\n');
         for _ in 0..self.line {
-            let line = lines.next().expect("Line should be inside the content");
-            assert!(line.ends_with('\n'), "Line should be inside the content");
+            let line = lines.next()?;
+            if !line.ends_with('\n') {
+                return None;
+            }
             offset += line.chars().count();
         }
 
-        assert!(self.character <= lines.next().unwrap_or("").chars().count());
+        if self.character > lines.next().unwrap_or("").chars().count() {
+            return None;
+        }
 
-        offset + self.character
+        Some(offset + self.character)
     }
 }
 
-- 
2.43.0


From db8b16c91de033b9b02d46a3324d3473d55de7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:47 +0000
Subject: [PATCH 14/32] fix: reject requests whose id is not an integer instead
 of not answering them

---
 daemon/src/types.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 3e2c2e0..250f6c9 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -143,8 +143,12 @@ pub enum JSONRPCFromEditor {
 }
 impl JSONRPCFromEditor {
     pub fn from_jsonrpc(jsonrpc: &str) -> Result<Self, anyhow::Error> {
-        let message = serde_json::from_str(jsonrpc)?;
-        Ok(message)
+        let message: serde_json::Value = serde_json::from_str(jsonrpc)?;
+        if message.get("id").is_some_and(|id| !id.is_u64()) {
+            // Otherwise, it would be mistaken for a notification.
+            bail!("Request ids must be non-negative integers");
+        }
+        Ok(serde_json::from_value(message)?)
     }
 }
 
-- 
2.43.0


From 2d22a973a6d2cdbde457b2c039c6031ed1492133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:32 +0000
Subject: [PATCH 15/32] fix: refuse to open private files and paths with
 detours

---
 daemon/src/editor_connection.rs |  7 +++++++
 daemon/src/path.rs              | 13 ++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/daemon/src/editor_connection.rs b/daemon/src/editor_connection.rs
index 0276c23..51fd88b 100644
--- a/daemon/src/editor_connection.rs
+++ b/daemon/src/editor_connection.rs
@@ -144,6 +144,13 @@ impl EditorConnection {
                     .map_err(anyhow_err_to_protocol_err)?;
 
                 debug!("Got an 'open' message for {relative_path}");
+                if !relative_path.is_shareable() {
+                    return Err(EditorProtocolMessageError {
+                        code: -1,
+                        message: format!("File {absolute_path} can not be shared"),
+                        data: Some("This file should not be shared with other peers".into()),
+                    });
+                }
                 if !sandbox::exists(&self.base_dir, &absolute_path)
                     .map_err(anyhow_err_to_protocol_err)?
                 {
diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 2c6c8be..4484ca2 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -7,7 +7,7 @@ use anyhow::{bail, Context};
 use automerge::Prop;
 use derive_more::{AsRef, Deref, Display};
 use serde::{Deserialize, Serialize};
-use std::path::{self, Path, PathBuf};
+use std::path::{self, Component, Path, PathBuf};
 
 /// Paths like these are guaranteed to be absolute.
 #[derive(Debug, Clone, PartialEq, Serialize, Deserialize, Eq, Hash, Deref, AsRef, Display)]
@@ -80,6 +80,17 @@ impl RelativePath {
         Ok(Self(relative_path.to_path_buf()))
     }
 
+    /// Whether files at this path can be shared: It has to be a path inside the project directory,
+    /// written without any detours, and it must not be private.
+    pub fn is_shareable(&self) -> bool {
+        let normalized: PathBuf = self.0.components().collect();
+        normalized.components().count() > 0
+            && normalized.as_os_str() == self.0.as_os_str()
+            && normalized.components().all(|component| {
+                matches!(component, Component::Normal(name) if name != ".git" && name != ".ethersync")
+            })
+    }
+
     pub fn try_from_path(base_dir: &Path, path: &Path) -> Result<Self, anyhow::Error> {
         let absolute_path = AbsolutePath::try_from(path.to_path_buf())?;
         Self::try_from_absolute(base_dir, &absolute_path)
-- 
2.43.0


From d7eda219cab9434886e8f01222703cecef27c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:53 +0000
Subject: [PATCH 16/32] fix: keep running when a peer shares a file that can
 not be written

---
 daemon/src/daemon.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index a4ecace..295780b 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -16,7 +16,7 @@ use crate::types::{
 };
 use crate::watcher::Watcher;
 use crate::watcher::WatcherEvent;
-use anyhow::Result;
+use anyhow::{Context, Result};
 use automerge::{
     sync::{Message as AutomergeSyncMessage, State as SyncState},
     Patch,
@@ -222,6 +222,10 @@ impl DocumentActor {
                             cursor_states.push(cursor_state);
                         }
                         PatchEffect::FileRemoval(file_path) => {
+                            if !file_path.is_shareable() {
+                                warn!("Not removing {file_path}, because it's not a path for shared files.");
+                                continue;
+                            }
                             info!("Removing file {file_path}.");
 
                             sandbox::remove_file(
@@ -562,33 +566,40 @@ impl DocumentActor {
     }
 
     fn maybe_write_file(&mut self, file_path: &RelativePath) {
+        // The file path might come from a peer.
+        if !file_path.is_shareable() {
+            warn!("Not writing to {file_path}, because it's not a path for shared files.");
+            return;
+        }
+
         // Only write to the file if editor *doesn't* have the file open.
         if self.owns(file_path) {
             if let Ok(text) = self.current_file_content(file_path) {
                 let abs_path = self.absolute_path_for_file_path(file_path);
                 debug!("Writing to {abs_path}.");
 
-                // Create the parent directorie(s), if neccessary.
-                let parent_dir = abs_path.parent().unwrap();
-                sandbox::create_dir_all(&self.base_dir, parent_dir).unwrap_or_else(|_| {
-                    panic!("Could not create parent directory {}", parent_dir.display())
-                });
-
-                // If the file didn't exist before, log it.
-                if !sandbox::exists(&self.base_dir, &abs_path)
-                    .expect("Failed to check for file existence before writing to it")
-                {
-                    info!("Creating {file_path}.");
+                if let Err(error) = self.write_file(&abs_path, &text) {
+                    error!("Could not write to file {abs_path}: {error}");
                 }
-
-                sandbox::write_file(&self.base_dir, &abs_path, &text.into_bytes())
-                    .unwrap_or_else(|_| panic!("Could not write to file {abs_path}"));
             } else {
                 warn!("Failed to get content of file '{file_path}' when writing to disk. Key should have existed?");
             }
         }
     }
 
+    fn write_file(&self, abs_path: &AbsolutePath, text: &str) -> Result<()> {
+        // Create the parent directorie(s), if neccessary.
+        let parent_dir = abs_path.parent().context("File should have a parent")?;
+        sandbox::create_dir_all(&self.base_dir, parent_dir)?;
+
+        // If the file didn't exist before, log it.
+        if !sandbox::exists(&self.base_dir, abs_path)? {
+            info!("Creating {abs_path}.");
+        }
+
+        sandbox::write_file(&self.base_dir, abs_path, text.as_bytes())
+    }
+
     // TODO: Should this also go to the sandbox module?
     fn build_walk(&mut self) -> Walk {
         let ignored_things = [".git", ".ethersync"];
@@ -642,7 +653,7 @@ impl DocumentActor {
             });
         for file_path in self.crdt_doc.files() {
             let absolute_file_path = self.absolute_path_for_file_path(&file_path);
-            if !sandbox::exists(&self.base_dir, &absolute_file_path).expect("") {
+            if !sandbox::exists(&self.base_dir, &absolute_file_path).unwrap_or(false) {
                 warn!("File {file_path} exists in the CRDT, but not on disk. Deleting from CRDT.");
                 self.crdt_doc.remove_text(&file_path);
             }
-- 
2.43.0


From 578befc229410f8537120fa160e4e3617a9e9388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:10 +0000
Subject: [PATCH 17/32] fix: keep running when a peer's document has unexpected
 content

---
 daemon/src/daemon.rs   | 14 +++++++++++---
 daemon/src/document.rs | 29 ++++++++++++++++++-----------
 daemon/src/types.rs    |  8 +++++---
 3 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 295780b..2e6f6d8 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -212,6 +212,7 @@ impl DocumentActor {
 
                 let mut file_deltas = vec![];
                 let mut cursor_states = vec![];
+                let mut all_supported = true;
 
                 for patch_effect in patch_effects {
                     match patch_effect {
@@ -237,13 +238,17 @@ impl DocumentActor {
                             });
                         }
                         PatchEffect::NoEffect => {}
+                        PatchEffect::Unsupported => {
+                            all_supported = false;
+                        }
                     }
                 }
 
                 self.maybe_write_files_changed_in_file_deltas(&file_deltas);
 
                 // An empty delta means that the file was created. If an editor has it open already,
-                // the deltas don't apply to the content that the editor has.
+                // the deltas don't apply to the content that the editor has. The same goes if there
+                // were changes that we don't have deltas for.
                 let created_files: HashSet<&RelativePath> = file_deltas
                     .iter()
                     .filter(|file_text_delta| file_text_delta.delta.0.is_empty())
@@ -251,7 +256,10 @@ impl DocumentActor {
                     .collect();
 
                 for file_text_delta in &file_deltas {
-                    if created_files.contains(&file_text_delta.file_path) {
+                    if created_files.contains(&file_text_delta.file_path)
+                        || !all_supported
+                        || !self.crdt_doc.file_exists(&file_text_delta.file_path)
+                    {
                         continue;
                     }
                     let message = ComponentMessage::Edit {
@@ -260,7 +268,7 @@ impl DocumentActor {
                     };
                     self.broadcast_to_editors(None, &message).await;
                 }
-                if !created_files.is_empty() {
+                if !created_files.is_empty() || !all_supported {
                     self.update_outdated_editors().await;
                 }
                 for cursor_state in &cursor_states {
diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 7e17e54..5462f40 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -78,10 +78,13 @@ impl Document {
         peer_state: &mut SyncState,
     ) -> Vec<Patch> {
         let mut patch_log = PatchLog::active(TextRepresentation::String);
-        self.doc
-            .sync()
-            .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
-            .expect("Failed to apply sync message to Automerge document");
+        if let Err(error) =
+            self.doc
+                .sync()
+                .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
+        {
+            warn!("Failed to apply sync message to Automerge document: {error}");
+        }
         let mut patches = self.doc.make_patches(&mut patch_log);
         // If a file was created by two peers concurrently, Automerge also reports changes to the
         // text that lost the conflict.
@@ -141,10 +144,7 @@ impl Document {
     pub fn initialize_text(&mut self, text: &str, file_path: &RelativePath) {
         info!("Initializing {file_path} in CRDT.");
 
-        // Now it should definitely work?
-        let file_map = self
-            .top_level_map_obj("files")
-            .expect("Failed to get files Map object");
+        let file_map = self.get_or_create_top_level_map_obj("files");
 
         let text_obj = self
             .doc
@@ -205,6 +205,15 @@ impl Document {
         }
     }
 
+    fn get_or_create_top_level_map_obj(&mut self, name: &str) -> automerge::ObjId {
+        // A peer might have removed it.
+        self.top_level_map_obj(name).unwrap_or_else(|_| {
+            self.doc
+                .put_object(automerge::ROOT, name, ObjType::Map)
+                .expect("Failed to create top-level Map object")
+        })
+    }
+
     fn text_obj(&self, file_path: &RelativePath) -> Result<automerge::ObjId> {
         let file_map = self.top_level_map_obj("files")?;
         let text_obj = self
@@ -242,9 +251,7 @@ impl Document {
         file_path: &RelativePath,
         ranges: Vec<Range>,
     ) {
-        let state_map = self
-            .top_level_map_obj("states")
-            .expect("Failed to get states Map object");
+        let state_map = self.get_or_create_top_level_map_obj("states");
         let user_obj = self
             .doc
             .put_object(state_map, cursor_id, ObjType::Text)
diff --git a/daemon/src/types.rs b/daemon/src/types.rs
index 250f6c9..741edde 100644
--- a/daemon/src/types.rs
+++ b/daemon/src/types.rs
@@ -107,6 +107,8 @@ pub enum PatchEffect {
     FileRemoval(RelativePath),
     CursorChange(CursorState),
     NoEffect,
+    /// Something that we would never do, but peers can put anything into their document.
+    Unsupported,
 }
 
 impl PatchEffect {
@@ -119,7 +121,8 @@ impl PatchEffect {
                     file_deltas.push(result);
                 }
                 Err(e) => {
-                    panic!("Failed to convert patch to delta: {e:#?}");
+                    warn!("Failed to convert patch to delta, ignoring: {e:#?}");
+                    file_deltas.push(Self::Unsupported);
                 }
             }
         }
@@ -550,8 +553,7 @@ impl TryFrom<Patch> for PatchEffect {
             (_, automerge::Prop::Map(key)) if key == "states" => {
                 if patch.path.len() == 2 {
                     match patch.action {
-                        PatchAction::SpliceText { index, value, .. } => {
-                            assert_eq!(index, 0);
+                        PatchAction::SpliceText { value, .. } => {
                             if let Ok(cursor_state) = serde_json::from_str(&value.make_string()) {
                                 Ok(PatchEffect::CursorChange(cursor_state))
                             } else {
-- 
2.43.0


From 57efcadc012c44b873c991ae48d804ca56f03cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:12 +0000
Subject: [PATCH 18/32] fix: do not mix up differently written paths of the
 same file

---
 daemon/src/daemon.rs | 5 +++++
 daemon/src/path.rs   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/daemon/src/daemon.rs b/daemon/src/daemon.rs
index 2e6f6d8..a5395ff 100644
--- a/daemon/src/daemon.rs
+++ b/daemon/src/daemon.rs
@@ -217,6 +217,11 @@ impl DocumentActor {
                 for patch_effect in patch_effects {
                     match patch_effect {
                         PatchEffect::FileChange(file_text_delta) => {
+                            let file_path = &file_text_delta.file_path;
+                            if !file_path.is_shareable() {
+                                warn!("Not changing {file_path}, because it's not a path for shared files.");
+                                continue;
+                            }
                             file_deltas.push(file_text_delta);
                         }
                         PatchEffect::CursorChange(cursor_state) => {
diff --git a/daemon/src/path.rs b/daemon/src/path.rs
index 4484ca2..64a26f1 100644
--- a/daemon/src/path.rs
+++ b/daemon/src/path.rs
@@ -77,7 +77,8 @@ impl RelativePath {
             bail!("base_dir was equal to path when computing relative path");
         }
 
-        Ok(Self(relative_path.to_path_buf()))
+        // Leave out superfluous slashes and dots, so that every file has only one relative path.
+        Ok(Self(relative_path.components().collect()))
     }
 
     /// Whether files at this path can be shared: It has to be a path inside the project directory,
-- 
2.43.0


From f7d4fcc604a5580ea93080374acd6fd81c62a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:35 +0000
Subject: [PATCH 19/32] fix: show the file version that deleting conflicting
 ones uncovers

When several peers create the same file at once and one of them then deletes
it, another peer's version can become visible. The patches that Automerge
logs while receiving a sync message miss that, so files on disk and open
editors kept the old text. Compute the patches from the document's states
before and after the message instead.
---
 daemon/src/document.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/daemon/src/document.rs b/daemon/src/document.rs
index 5462f40..d1d7ea6 100644
--- a/daemon/src/document.rs
+++ b/daemon/src/document.rs
@@ -9,10 +9,9 @@ use crate::{
 };
 use anyhow::Result;
 use automerge::{
-    patches::TextRepresentation,
     sync::{Message as AutomergeSyncMessage, State as SyncState, SyncDoc},
     transaction::Transactable,
-    AutoCommit, ObjType, Patch, PatchLog, ReadDoc,
+    AutoCommit, ObjType, Patch, ReadDoc,
 };
 use dissimilar::Chunk;
 use tracing::{debug, info, warn};
@@ -77,15 +76,14 @@ impl Document {
         message: AutomergeSyncMessage,
         peer_state: &mut SyncState,
     ) -> Vec<Patch> {
-        let mut patch_log = PatchLog::active(TextRepresentation::String);
-        if let Err(error) =
-            self.doc
-                .sync()
-                .receive_sync_message_log_patches(peer_state, message, &mut patch_log)
-        {
+        let heads_before = self.doc.get_heads();
+        if let Err(error) = self.doc.sync().receive_sync_message(peer_state, message) {
             warn!("Failed to apply sync message to Automerge document: {error}");
         }
-        let mut patches = self.doc.make_patches(&mut patch_log);
+        let heads_after = self.doc.get_heads();
+        // The patches that Automerge logs while receiving lack the ones for a text that becomes
+        // visible because several others it was in conflict with were deleted.
+        let mut patches = self.doc.diff(&heads_before, &heads_after);
         // If a file was created by two peers concurrently, Automerge also reports changes to the
         // text that lost the conflict.
         patches.retain(|patch| !self.is_hidden_by_conflict(patch));
-- 
2.43.0


From 81a4f7ecac4e3b570082a52f13e4c54828d72812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:15 +0000
Subject: [PATCH 20/32] fix: end a message's header at the first separator

The client looked for a CRLF separator in everything it had read before it
considered a plain newline one. A message with plain newlines followed by
one with CRLF could then not be parsed, and the client quit.
---
 daemon/src/jsonrpc_forwarder.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/daemon/src/jsonrpc_forwarder.rs b/daemon/src/jsonrpc_forwarder.rs
index 66714fb..b2e643c 100644
--- a/daemon/src/jsonrpc_forwarder.rs
+++ b/daemon/src/jsonrpc_forwarder.rs
@@ -75,20 +75,18 @@ impl Decoder for ContentLengthCodec {
         };
 
         // Find the end of the line after that.
-        let (end_of_line, end_of_line_bytes) = match src[start_of_header + c.len()..]
-            .windows(4)
-            .position(|window| window == b"\r\n\r\n")
-        {
-            Some(pos) => (pos, 4),
-            // Even though this is not valid in terms of the spec, also
-            // accept plain newline separators in order to simplify manual testing.
-            None => match src[start_of_header + c.len()..]
-                .windows(2)
-                .position(|window| (window == b"\n\n"))
-            {
-                Some(pos) => (pos, 2),
-                None => return Ok(None),
-            },
+        let header = &src[start_of_header + c.len()..];
+        let crlf = header.windows(4).position(|window| window == b"\r\n\r\n");
+        // Even though this is not valid in terms of the spec, also
+        // accept plain newline separators in order to simplify manual testing.
+        // Only look in front of the other separator, which may belong to a later message.
+        let lf = header[..crlf.unwrap_or(header.len())]
+            .windows(2)
+            .position(|window| window == b"\n\n");
+        let (end_of_line, end_of_line_bytes) = match (lf, crlf) {
+            (Some(pos), _) => (pos, 2),
+            (None, Some(pos)) => (pos, 4),
+            (None, None) => return Ok(None),
         };
 
         // Parse the content length.
-- 
2.43.0


From 785c4b46c98d8b5c3b555339eb142679e476aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:52 +0000
Subject: [PATCH 21/32] fix: keep reading from a peer while writing to it

---
 daemon/src/peer.rs | 62 ++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 4067370..395ced7 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -296,42 +296,40 @@ impl P2PActor {
 
     /// Core low-level syncing protocol.
     async fn protocol_handler(
-        mut stream: Stream,
+        stream: Stream,
         from_peer_tx: mpsc::Sender<AutomergeSyncMessage>,
         mut to_peer_rx: mpsc::Receiver<AutomergeSyncMessage>,
     ) -> Result<()> {
-        loop {
-            let mut message_len_buf = [0; 4];
-
-            tokio::select! {
-                message_maybe = to_peer_rx.recv() => {
-                    match message_maybe {
-                        Some(message) => {
-                            let message = message.encode();
-                            let message_len = u32::try_from(message.len());
-                            stream
-                                .write_all(&message_len?.to_be_bytes())
-                                .await?;
-                            stream
-                                .write_all(&message)
-                                .await?;
-                            }
-                        None => {
-                            // TODO: What should we do?
-                            error!("None on to_peer_rx");
-                        }
-                    }
-                }
-                _ = stream.read_exact(&mut message_len_buf) => {
-                    let message_len = u32::from_be_bytes(message_len_buf);
-                    let mut message_buf = vec![0; message_len as usize];
-                    stream.read_exact(&mut message_buf).await?;
-
-                    let message =
-                        AutomergeSyncMessage::decode(&message_buf)?;
-                    from_peer_tx.send(message).await?;
-                }
+        let (mut read_half, mut write_half) = stream.split();
+
+        // Reading and writing must not wait for each other: When both sides have a lot to write,
+        // they'd otherwise wait for each other to read.
+        let read = async {
+            loop {
+                let mut message_len_buf = [0; 4];
+                read_half.read_exact(&mut message_len_buf).await?;
+                let message_len = u32::from_be_bytes(message_len_buf);
+                let mut message_buf = vec![0; message_len as usize];
+                read_half.read_exact(&mut message_buf).await?;
+
+                let message = AutomergeSyncMessage::decode(&message_buf)?;
+                from_peer_tx.send(message).await?;
             }
+        };
+
+        let write = async {
+            while let Some(message) = to_peer_rx.recv().await {
+                let message = message.encode();
+                let message_len = u32::try_from(message.len());
+                write_half.write_all(&message_len?.to_be_bytes()).await?;
+                write_half.write_all(&message).await?;
+            }
+            Ok(())
+        };
+
+        tokio::select! {
+            result = read => result,
+            result = write => result,
         }
     }
 }
-- 
2.43.0


From 597875515426b733dd9bf489036b78bda744a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:22 +0000
Subject: [PATCH 22/32] fix: do not wait for the stream of a peer that only
 connects

---
 daemon/src/peer.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/daemon/src/peer.rs b/daemon/src/peer.rs
index 395ced7..1ad066e 100644
--- a/daemon/src/peer.rs
+++ b/daemon/src/peer.rs
@@ -159,7 +159,14 @@ impl P2PActor {
 
         // Poll the swarm to make progress.
         loop {
-            let event = swarm.next().await.expect("never terminates");
+            let event = tokio::select! {
+                event = swarm.next() => event.expect("never terminates"),
+                Some((peer, stream)) = incoming_streams.next() => {
+                    info!("Peer connected: {}", peer);
+                    self.spawn_peer_sync(stream);
+                    continue;
+                }
+            };
 
             match event {
                 libp2p::swarm::SwarmEvent::NewListenAddr { address, .. } => {
@@ -199,7 +206,12 @@ impl P2PActor {
                     endpoint: ConnectedPoint::Listener { .. },
                     ..
                 } => {
-                    if let Some((peer, stream)) = incoming_streams.next().await {
+                    // Streams that arrive while another one has not been accepted yet are dropped
+                    // by libp2p_stream. So wait for this peer's stream before handling other
+                    // connections, but not forever, if the peer doesn't open one.
+                    if let Ok(Some((peer, stream))) =
+                        tokio::time::timeout(Duration::from_secs(1), incoming_streams.next()).await
+                    {
                         info!("Peer connected: {}", peer);
                         self.spawn_peer_sync(stream);
                     }
-- 
2.43.0


From d7a3f56568db1b45bd4b4dbd9571b665c78fb2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:52 +0000
Subject: [PATCH 23/32] fix: Neovim: report lines appended after an empty last
 line correctly

---
 vim-plugin/lua/changetracker.lua | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 07f81e3..2adbe73 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -71,19 +71,19 @@ function M.track_changes(buffer, callback)
                     -- The range doesn't start on the first line.
                     if diff.range["end"].character == 0 then
                         -- The range ends at the beginning of the line after the visible lines.
-                        if diff.range["start"].character == 0 then
+                        if string.sub(diff.text, -1) == "\n" then
+                            -- The replacement ends with a newline.
+                            -- Drop it, and shorten the range by one character.
+                            diff.text = string.sub(diff.text, 1, -2)
+                            diff.range["end"].line = diff.range["end"].line - 1
+                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
+                        elseif diff.range["start"].character == 0 then
                             -- Operation applies to beginning of lines, that means it's possible to shift it back.
                             -- Modify edit, s.t. not the last \n, but the one before is replaced.
                             diff.range["start"].line = diff.range["start"].line - 1
                             diff.range["end"].line = diff.range["end"].line - 1
                             diff.range["start"].character = vim.fn.strchars(prev_lines[diff.range["start"].line + 1])
                             diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
-                        elseif string.sub(diff.text, -1) == "\n" then
-                            -- The replacement ends with a newline.
-                            -- Drop it, and shorten the range by one character.
-                            diff.text = string.sub(diff.text, 1, -2)
-                            diff.range["end"].line = diff.range["end"].line - 1
-                            diff.range["end"].character = vim.fn.strchars(prev_lines[diff.range["end"].line + 1])
                         else
                             vim.api.nvim_err_writeln(
                                 "[ethersync] We don't know how to handle this case for a deletion after the last visible line. Please file a bug."
-- 
2.43.0


From 8b84189d97b7f404250460eac75ee299f00538cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:06 +0000
Subject: [PATCH 24/32] fix: Neovim: report changes outside of the lines Neovim
 names

---
 vim-plugin/lua/changetracker.lua | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/vim-plugin/lua/changetracker.lua b/vim-plugin/lua/changetracker.lua
index 2adbe73..cede1fb 100644
--- a/vim-plugin/lua/changetracker.lua
+++ b/vim-plugin/lua/changetracker.lua
@@ -12,6 +12,33 @@ local M = {}
 -- Used to note that changes to the buffer should be ignored, and not be sent out as deltas.
 local ignore_edits = false
 
+-- Some commands (for example, virtual replace mode, or putting lines over a selection) change lines outside of the
+-- range that we get called with. They might tell us about these lines later, or not at all.
+-- This widens the range, so that it contains all differences.
+local function include_all_changes(prev_lines, curr_lines, first_line, last_line, new_last_line)
+    if last_line > #prev_lines or #curr_lines - #prev_lines ~= new_last_line - last_line then
+        last_line = #prev_lines
+        new_last_line = #curr_lines
+    end
+
+    for i = 1, math.min(first_line, #prev_lines, #curr_lines) do
+        if prev_lines[i] ~= curr_lines[i] then
+            first_line = i - 1
+            break
+        end
+    end
+
+    for i = 0, #prev_lines - last_line - 1 do
+        if prev_lines[#prev_lines - i] ~= curr_lines[#curr_lines - i] then
+            last_line = #prev_lines - i
+            new_last_line = #curr_lines - i
+            break
+        end
+    end
+
+    return first_line, last_line, new_last_line
+end
+
 -- Subscribes the callback to changes for a given buffer id and reports with a delta.
 --
 -- The delta can be expected to be in the format as specified in the daemon-editor protocol.
@@ -43,6 +70,10 @@ function M.track_changes(buffer, callback)
             end
 
             debug({ curr_lines = curr_lines, prev_lines = prev_lines })
+
+            first_line, last_line, new_last_line =
+                include_all_changes(prev_lines, curr_lines, first_line, last_line, new_last_line)
+
             local diff = sync.compute_diff(prev_lines, curr_lines, first_line, last_line, new_last_line, "utf-32", "\n")
             -- line/character indices in diff are zero-based.
             debug({ diff = diff })
-- 
2.43.0


From 011b46581d3febb394f37231a9157baa86ef673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:29 +0000
Subject: [PATCH 25/32] fix: Neovim: remove the final newline of the buffer an
 edit is for

---
 vim-plugin/lua/utils.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index bbc60f0..6fd40b0 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -165,7 +165,7 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
     end
 
     if disable_eol then
-        vim.bo.eol = false
+        vim.bo[bufnr].eol = false
     end
 end
 
-- 
2.43.0


From 99e4611b806918d24dc1fd01b01f4fde3e2c3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:47:42 +0000
Subject: [PATCH 26/32] fix: Neovim: do not add a newline to text inserted at
 the end

---
 vim-plugin/lua/utils.lua | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vim-plugin/lua/utils.lua b/vim-plugin/lua/utils.lua
index 6fd40b0..79d4cf2 100644
--- a/vim-plugin/lua/utils.lua
+++ b/vim-plugin/lua/utils.lua
@@ -111,9 +111,11 @@ function M.apply_text_edits(text_edits, bufnr, offset_encoding)
             -- If the replacement text ends with a newline, drop it - we're happy with keeping the implicit
             -- newline at the end of the buffer (which we're assuming to be there, because we're getting
             -- an insert *after* the visible lines.
-            -- TODO: Is this always correct?
+            -- If it doesn't, the buffer no longer ends with a newline.
             if #e.text > 1 and e.text[#e.text] == "" then
                 table.remove(e.text)
+            else
+                disable_eol = true
             end
             vim.api.nvim_buf_set_lines(bufnr, max, max, false, e.text)
         else
-- 
2.43.0


From 2d8191aecc5a5d03c427f31651f3e77041d88e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:15 +0000
Subject: [PATCH 27/32] fix: Neovim: track the buffer that was opened, not the
 current one

---
 vim-plugin/lua/cursor.lua       |  4 ++--
 vim-plugin/plugin/ethersync.lua | 16 +++++++++-------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/vim-plugin/lua/cursor.lua b/vim-plugin/lua/cursor.lua
index 309d462..d59b236 100644
--- a/vim-plugin/lua/cursor.lua
+++ b/vim-plugin/lua/cursor.lua
@@ -197,8 +197,8 @@ function M.track_cursor(bufnr, callback)
                     local larger_row = math.max(start_row, end_row)
 
                     for row = smaller_row, larger_row do
-                        local bytes_start = vim.fn.virtcol2col(bufnr, row, smaller_cell + 1) - 1
-                        local bytes_end = vim.fn.virtcol2col(bufnr, row, larger_cell + 1) - 1
+                        local bytes_start = vim.fn.virtcol2col(0, row, smaller_cell + 1) - 1
+                        local bytes_end = vim.fn.virtcol2col(0, row, larger_cell + 1) - 1
 
                         if bytes_start ~= -1 then
                             -- The line is not empty, add a range.
diff --git a/vim-plugin/plugin/ethersync.lua b/vim-plugin/plugin/ethersync.lua
index d4ba110..9764143 100644
--- a/vim-plugin/plugin/ethersync.lua
+++ b/vim-plugin/plugin/ethersync.lua
@@ -123,7 +123,7 @@ local function is_ethersync_enabled(filename)
     end
 end
 
-local function track_edits(filename, uri)
+local function track_edits(bufnr, filename, uri)
     files[filename] = {
         -- Number of operations the daemon has made.
         daemon_revision = 0,
@@ -131,14 +131,14 @@ local function track_edits(filename, uri)
         editor_revision = 0,
     }
 
-    changetracker.track_changes(0, function(delta)
+    changetracker.track_changes(bufnr, function(delta)
         files[filename].editor_revision = files[filename].editor_revision + 1
 
         local params = { uri = uri, delta = delta, revision = files[filename].daemon_revision }
 
         send_request("edit", params)
     end)
-    cursor.track_cursor(0, function(ranges)
+    cursor.track_cursor(bufnr, function(ranges)
         local params = { uri = uri, ranges = ranges }
         -- Even though it's not "needed" we're sending requests in this case
         -- to ensure we're processing/seeing potential errors.
@@ -149,18 +149,19 @@ end
 -- Disabling 'autoread' prevents Neovim from reloading the file when it changes externally,
 -- but only in the case where the buffer hasn't been modified in Neovim already.
 -- For the conflicting case, we prevent a popup dialog by setting the FileChangedShell autocommand below.
-local function ensure_autoread_is_off()
+local function ensure_autoread_is_off(bufnr)
     if vim.o.autoread then
         if not did_print_autoread_info then
             print("Ethersync works better when autoread is off, so we're disabling it for you (in Ethersync buffers).")
             did_print_autoread_info = true
         end
-        vim.bo.autoread = false
+        vim.bo[bufnr].autoread = false
     end
 end
 
 -- Forward buffer edits to daemon as well as subscribe to daemon events ("open").
 local function on_buffer_open()
+    local bufnr = vim.api.nvim_get_current_buf()
     local filename = vim.fn.expand("%:p")
     debug("on_buffer_open: " .. filename)
 
@@ -182,8 +183,9 @@ local function on_buffer_open()
 
     send_request("open", { uri = uri }, function()
         debug("Tracking Edits")
-        ensure_autoread_is_off()
-        track_edits(filename, uri)
+        -- By now, another buffer might be the current one.
+        ensure_autoread_is_off(bufnr)
+        track_edits(bufnr, filename, uri)
     end)
 end
 
-- 
2.43.0


From 72c2ebdf2ad6dc109f2b695f007d517c7d425154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:21 +0000
Subject: [PATCH 28/32] fix: VS Code: do not change names of files with special
 characters

---
 vscode-plugin/src/extension.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 345e271..417d9cc 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -178,7 +178,7 @@ function openCurrentTextDocuments() {
 }
 
 function documentForUri(uri: string): vscode.TextDocument | undefined {
-    return vscode.workspace.textDocuments.find((doc) => decodeURI(doc.uri.toString()) === uri)
+    return vscode.workspace.textDocuments.find((doc) => decodeURIComponent(doc.uri.toString()) === uri)
 }
 
 async function processEditFromDaemon(edit: Edit) {
@@ -230,7 +230,7 @@ async function processCursorFromDaemon(cursor: CursorFromDaemon) {
         if (document) {
             selections = cursor.ranges.map((r) => ethersyncRangeToVSCodeRange(document, r)).map(vsCodeRangeToSelection)
         }
-        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.parse(uri), selections)
+        setCursor(cursor.userid, cursor.name || "anonymous", vscode.Uri.file(uriToFname(uri)), selections)
     } catch {
         // If we couldn't convert ethersyncRangeToVSCodeRange, it's probably because
         // we received the cursor message before integrating the edits, typing at the end of a line.
@@ -244,7 +244,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     for (const delta of edit.delta) {
         const range = ethersyncRangeToVSCodeRange(document, delta.range)
         let edit = new vscode.TextEdit(range, delta.replacement)
-        debug(`Edit applied to document ${decodeURI(document.uri.toString())}`)
+        debug(`Edit applied to document ${decodeURIComponent(document.uri.toString())}`)
         edits.push(edit)
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
@@ -262,7 +262,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
 
 // TODO: check if belongs to project.
 async function processUserOpen(document: vscode.TextDocument) {
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = decodeURIComponent(document.uri.toString())
     debug("OPEN " + fileUri)
     connection
         .sendRequest(openType, {uri: fileUri})
@@ -281,7 +281,7 @@ function processUserClose(document: vscode.TextDocument) {
         // File is not currently tracked in ethersync.
         return
     }
-    const fileUri = decodeURI(document.uri.toString())
+    const fileUri = decodeURIComponent(document.uri.toString())
     connection.sendRequest(closeType, {uri: fileUri})
 
     delete revisions[document.fileName]
@@ -380,7 +380,7 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
         // File is not currently tracked in ethersync.
         return
     }
-    let uri = decodeURI(event.textEditor.document.uri.toString())
+    let uri = decodeURIComponent(event.textEditor.document.uri.toString())
     let content = contents[event.textEditor.document.fileName]
     let ranges = event.selections.map((s) => {
         return vsCodeRangeToEthersyncRange(content, s)
@@ -399,7 +399,7 @@ function vsCodeChangeEventToEthersyncEdits(event: vscode.TextDocumentChangeEvent
 
     for (const change of event.contentChanges) {
         let delta = vsCodeChangeToEthersyncDelta(content, change)
-        let uri = decodeURI(document.uri.toString())
+        let uri = decodeURIComponent(document.uri.toString())
         let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
         edits.push(theEdit)
     }
-- 
2.43.0


From e88df1985428e6a51a76f7d3f1db457b350ff8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:35 +0000
Subject: [PATCH 29/32] fix: VS Code: convert changes with the text they apply
 to

A change that had to wait for its turn was converted with the text of the
document after later changes.
---
 vscode-plugin/src/extension.ts | 48 ++++++++++++----------------------
 1 file changed, 16 insertions(+), 32 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 417d9cc..dc1d261 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -249,15 +249,7 @@ async function applyEdit(document: vscode.TextDocument, edit: Edit): Promise<boo
     }
     let workspaceEdit = new vscode.WorkspaceEdit()
     workspaceEdit.set(document.uri, edits)
-    let worked = await vscode.workspace.applyEdit(workspaceEdit)
-
-    // TODO: Make this more efficient by replacing only the changed lines.
-    // The challenge with that is that we need to compute how many lines are
-    // left after the edit.
-    if (worked) {
-        updateContents(document)
-    }
-    return worked
+    return await vscode.workspace.applyEdit(workspaceEdit)
 }
 
 // TODO: check if belongs to project.
@@ -326,6 +318,15 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
         // File is not currently tracked in Ethersync.
         return
     }
+
+    // Convert the changes right away: When it's our turn below, the document might have changed again.
+    let deltas = vsCodeChangeEventToEthersyncDeltas(event)
+
+    // TODO: Make this more efficient by replacing only the changed lines.
+    // The challenge with that is that we need to compute how many lines are
+    // left after the edit.
+    updateContents(event.document)
+
     if (isRemoteEdit(event)) {
         debug("Ignoring remote event (we have caused it)")
         return
@@ -350,9 +351,10 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
 
             let revision = revisions[filename]
 
-            let edits = vsCodeChangeEventToEthersyncEdits(event)
+            let uri = decodeURIComponent(document.uri.toString())
 
-            for (const theEdit of edits) {
+            for (const delta of deltas) {
+                let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
                 // interestingly this seems to block when it can't send
                 // TODO: Catch exceptions, for example when daemon disconnects/crashes.
                 connection.sendRequest(editType, theEdit)
@@ -361,11 +363,6 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
             }
 
-            // TODO: Make this more efficient by replacing only the changed lines.
-            // The challenge with that is that we need to compute how many lines are
-            // left after the edit.
-            updateContents(document)
-
             // Attempt auto-save to avoid the situation where one user closes a modified
             // document without saving, which will cause VS Code to undo the dirty changes.
             document.save()
@@ -388,22 +385,9 @@ function processSelection(event: vscode.TextEditorSelectionChangeEvent) {
     connection.sendNotification(cursorType, {uri, ranges})
 }
 
-function vsCodeChangeEventToEthersyncEdits(event: vscode.TextDocumentChangeEvent): Edit[] {
-    let document = event.document
-    let filename = document.fileName
-
-    let revision = revisions[filename]
-
-    let content = contents[filename]
-    let edits = []
-
-    for (const change of event.contentChanges) {
-        let delta = vsCodeChangeToEthersyncDelta(content, change)
-        let uri = decodeURIComponent(document.uri.toString())
-        let theEdit: Edit = {uri, revision: revision.daemon, delta: [delta]}
-        edits.push(theEdit)
-    }
-    return edits
+function vsCodeChangeEventToEthersyncDeltas(event: vscode.TextDocumentChangeEvent): Delta[] {
+    let content = contents[event.document.fileName]
+    return event.contentChanges.map((change) => vsCodeChangeToEthersyncDelta(content, change))
 }
 
 function vsCodeChangeToEthersyncDelta(content: string[], change: vscode.TextDocumentContentChangeEvent): Delta {
-- 
2.43.0


From 1bf74db3b1a1fbd4c967ece8423f6c89e0dbb540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:48 +0000
Subject: [PATCH 30/32] fix: VS Code: tell changes of the user and the daemon
 apart

VS Code reports several changes in another order than the daemon sends them,
so they were taken for changes of the user and sent back. And changes of the
user that look like an edit from the daemon which was not applied, or was
meant for another document, were not sent.
---
 vscode-plugin/src/extension.ts | 63 +++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index dc1d261..9f30c6c 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -60,6 +60,12 @@ interface CursorFromDaemon {
     ranges: Range[]
 }
 
+interface RemoteEdit {
+    document: vscode.TextDocument
+    textEdits: vscode.TextEdit[]
+    worked: boolean
+}
+
 class Revision {
     daemon = 0
     editor = 0
@@ -73,7 +79,7 @@ let contents: {[filename: string]: string[]} = {}
 // TODO: if we load from disk, this will also cause edits :-/
 let t0 = Date.now()
 const mutex = new Mutex()
-let attemptedRemoteEdits: Set<vscode.TextEdit[]> = new Set()
+let attemptedRemoteEdits: Set<RemoteEdit> = new Set()
 
 const openType = new rpc.RequestType<{uri: string}, string, void>("open")
 const closeType = new rpc.RequestType<{uri: string}, string, void>("close")
@@ -197,16 +203,18 @@ async function processEditFromDaemon(edit: Edit) {
 
             const document = documentForUri(uri)
             if (document) {
-                let textEdit = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                attemptedRemoteEdits.add(textEdit)
-                let worked = await applyEdit(document, edit)
-                if (worked) {
+                let textEdits = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
+                let remoteEdit: RemoteEdit = {document, textEdits, worked: false}
+                attemptedRemoteEdits.add(remoteEdit)
+                remoteEdit.worked = await applyEdit(document, edit)
+                if (remoteEdit.worked) {
                     revision.daemon += 1
                     // Attempt auto-save to avoid the situation where one user closes a modified
                     // document without saving, which will cause VS Code to undo the dirty changes.
                     document.save()
                 } else {
                     debug("rejected an applyEdit, sending empty delta")
+                    attemptedRemoteEdits.delete(remoteEdit)
                     let theEdit: Edit = {uri, revision: revision.daemon, delta: []}
                     connection.sendRequest(editType, theEdit)
                     revision.editor += 1
@@ -286,9 +294,12 @@ function isTextEditsEqualToVSCodeContentChanges(
     if (textEdits.length !== changes.length) {
         return false
     }
-    for (let i = 0; i < textEdits.length; i++) {
-        let textEdit = textEdits[i]
-        let change = changes[i]
+    // VS Code reports changes from the end of the document to its start.
+    let sortedTextEdits = [...textEdits].sort(compareRangesDescending)
+    let sortedChanges = [...changes].sort(compareRangesDescending)
+    for (let i = 0; i < sortedTextEdits.length; i++) {
+        let textEdit = sortedTextEdits[i]
+        let change = sortedChanges[i]
         if (textEdit.newText !== change.text || !textEdit.range.isEqual(change.range)) {
             return false
         }
@@ -296,19 +307,22 @@ function isTextEditsEqualToVSCodeContentChanges(
     return true
 }
 
-function isRemoteEdit(event: vscode.TextDocumentChangeEvent): boolean {
-    let found: vscode.TextEdit[] | null = null
-    for (let attemptedEdit of attemptedRemoteEdits) {
-        if (isTextEditsEqualToVSCodeContentChanges(attemptedEdit, event.contentChanges)) {
-            found = attemptedEdit
-            break
+function compareRangesDescending(a: {range: vscode.Range}, b: {range: vscode.Range}): number {
+    return b.range.end.compareTo(a.range.end) || b.range.start.compareTo(a.range.start)
+}
+
+// Returns the remote edit that could have caused this event. If that edit turns out not to have worked,
+// the user has made the same change at the same time.
+function takeMatchingRemoteEdit(event: vscode.TextDocumentChangeEvent): RemoteEdit | undefined {
+    for (let remoteEdit of attemptedRemoteEdits) {
+        if (
+            remoteEdit.document === event.document &&
+            isTextEditsEqualToVSCodeContentChanges(remoteEdit.textEdits, event.contentChanges)
+        ) {
+            attemptedRemoteEdits.delete(remoteEdit)
+            return remoteEdit
         }
     }
-    if (found !== null) {
-        attemptedRemoteEdits.delete(found)
-        return true
-    }
-    return false
 }
 
 // NOTE: We might get multiple events per document.version,
@@ -327,12 +341,15 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
     // left after the edit.
     updateContents(event.document)
 
-    if (isRemoteEdit(event)) {
-        debug("Ignoring remote event (we have caused it)")
-        return
-    }
+    let remoteEdit = takeMatchingRemoteEdit(event)
+
     mutex
         .runExclusive(() => {
+            if (remoteEdit?.worked) {
+                debug("Ignoring remote event (we have caused it)")
+                return
+            }
+
             let document = event.document
 
             // For some reason we get multipe events per edit caused by us.
-- 
2.43.0


From a7173234cb35cb18b70e3746b42bb991899c99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:01 +0000
Subject: [PATCH 31/32] fix: VS Code: accept edits without changes

VS Code refuses to apply them, which made the daemon send them again.
---
 vscode-plugin/src/extension.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index 9f30c6c..be9521e 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -199,6 +199,12 @@ async function processEditFromDaemon(edit: Edit) {
 
             debug(`Received edit ${edit.revision}`)
 
+            if (edit.delta.length == 0) {
+                // VS Code would refuse an edit without changes.
+                revision.daemon += 1
+                return
+            }
+
             const uri = edit.uri
 
             const document = documentForUri(uri)
-- 
2.43.0


From 18f9f6dc5c7f0a23e2678e35337067e2b24348d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:15 +0000
Subject: [PATCH 32/32] fix: VS Code: ignore edits from before a change of the
 user

When an edit of the daemon waited for its turn, it was applied also if the
document changed in the meantime, as changes only counted after waiting, too.
---
 vscode-plugin/src/extension.ts | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/vscode-plugin/src/extension.ts b/vscode-plugin/src/extension.ts
index be9521e..26c10d5 100644
--- a/vscode-plugin/src/extension.ts
+++ b/vscode-plugin/src/extension.ts
@@ -63,6 +63,7 @@ interface CursorFromDaemon {
 interface RemoteEdit {
     document: vscode.TextDocument
     textEdits: vscode.TextEdit[]
+    seen: boolean
     worked: boolean
 }
 
@@ -210,7 +211,7 @@ async function processEditFromDaemon(edit: Edit) {
             const document = documentForUri(uri)
             if (document) {
                 let textEdits = ethersyncDeltasToVSCodeTextEdits(document, edit.delta)
-                let remoteEdit: RemoteEdit = {document, textEdits, worked: false}
+                let remoteEdit: RemoteEdit = {document, textEdits, seen: false, worked: false}
                 attemptedRemoteEdits.add(remoteEdit)
                 remoteEdit.worked = await applyEdit(document, edit)
                 if (remoteEdit.worked) {
@@ -224,6 +225,10 @@ async function processEditFromDaemon(edit: Edit) {
                     let theEdit: Edit = {uri, revision: revision.daemon, delta: []}
                     connection.sendRequest(editType, theEdit)
                     revision.editor += 1
+                    if (remoteEdit.seen) {
+                        // That was the user, making the same change.
+                        revision.editor += textEdits.length
+                    }
                 }
             } else {
                 throw new Error(`No document for URI ${uri}, why is the daemon sending me this?`)
@@ -326,6 +331,7 @@ function takeMatchingRemoteEdit(event: vscode.TextDocumentChangeEvent): RemoteEd
             isTextEditsEqualToVSCodeContentChanges(remoteEdit.textEdits, event.contentChanges)
         ) {
             attemptedRemoteEdits.delete(remoteEdit)
+            remoteEdit.seen = true
             return remoteEdit
         }
     }
@@ -347,7 +353,18 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
     // left after the edit.
     updateContents(event.document)
 
+    let document = event.document
+    const filename = document.fileName
+    if (!isEthersyncEnabled(path.dirname(filename))) {
+        return
+    }
+
+    let revision = revisions[filename]
     let remoteEdit = takeMatchingRemoteEdit(event)
+    if (!remoteEdit) {
+        // Edits from the daemon which are waiting for their turn do not apply to the document anymore.
+        revision.editor += deltas.length
+    }
 
     mutex
         .runExclusive(() => {
@@ -356,8 +373,6 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 return
             }
 
-            let document = event.document
-
             // For some reason we get multipe events per edit caused by us.
             // Let's actively skip the empty ones to make debugging output below less noisy.
             if (event.contentChanges.length == 0) {
@@ -367,13 +382,6 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 return
             }
 
-            const filename = document.fileName
-            if (!isEthersyncEnabled(path.dirname(filename))) {
-                return
-            }
-
-            let revision = revisions[filename]
-
             let uri = decodeURIComponent(document.uri.toString())
 
             for (const delta of deltas) {
@@ -381,7 +389,6 @@ function processUserEdit(event: vscode.TextDocumentChangeEvent) {
                 // interestingly this seems to block when it can't send
                 // TODO: Catch exceptions, for example when daemon disconnects/crashes.
                 connection.sendRequest(editType, theEdit)
-                revision.editor += 1
 
                 debug(`sent edit for dR ${revision.daemon} (having edR ${revision.editor})`)
             }
-- 
2.43.0

