From 56f470e970ffa17485883e7fe275d758f1447205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 01/56] verif hooks: state access for the checking harness,
 under cfg(ced_verif)

---
 core/src/editor/core.rs            |  5 ++
 core/src/editor/core/verif.rs      | 94 ++++++++++++++++++++++++++++++
 core/src/editor/mod.rs             |  3 +
 core/src/editor/piece_table/mod.rs | 11 ++++
 core/src/editor/verif.rs           | 12 ++++
 remote/src/client.rs               |  5 ++
 remote/src/connection.rs           | 13 +++++
 7 files changed, 143 insertions(+)
 create mode 100644 core/src/editor/core/verif.rs
 create mode 100644 core/src/editor/verif.rs

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..2e6d7a0 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -20,6 +20,11 @@ use remote::protocol::{
     Face, Text, TextFragment,
 };
 
+#[cfg(ced_verif)]
+mod verif;
+#[cfg(ced_verif)]
+pub use self::verif::ClientState;
+
 pub const BUFFER_DEBUG: &str = "*debug*";
 pub const BUFFER_SCRATCH: &str = "*scratch*";
 
diff --git a/core/src/editor/core/verif.rs b/core/src/editor/core/verif.rs
new file mode 100644
index 0000000..336af90
--- /dev/null
+++ b/core/src/editor/core/verif.rs
@@ -0,0 +1,94 @@
+//! Read and set-up access to the editor state for the verification harness (`--cfg ced_verif`).
+use super::*;
+
+/// A client as seen from outside: the buffers of its current view, the key of that view and the
+/// selections it holds for it, by buffer.
+pub struct ClientState {
+    pub id: usize,
+    pub view_key: String,
+    pub buffers: Vec<String>,
+    pub selections: Vec<(String, Vec<(usize, usize)>)>,
+}
+
+impl Core {
+    pub fn verif_clients(&self) -> Vec<ClientState> {
+        let state = self.state.lock().unwrap();
+        let mut clients: Vec<ClientState> = state
+            .clients
+            .iter()
+            .map(|(&id, ctx)| {
+                let view = ctx.view.borrow();
+                let view_key = view.key();
+                let mut selections: Vec<_> = ctx
+                    .selections
+                    .get(&view_key)
+                    .map(|by_buffer| {
+                        by_buffer
+                            .iter()
+                            .map(|(b, ss)| {
+                                let sels = ss.iter().map(|s| (s.anchor, s.cursor)).collect();
+                                (b.to_owned(), sels)
+                            })
+                            .collect()
+                    })
+                    .unwrap_or_default();
+                selections.sort();
+                ClientState {
+                    id,
+                    buffers: view.buffers().iter().map(|b| b.to_string()).collect(),
+                    view_key,
+                    selections,
+                }
+            })
+            .collect();
+        clients.sort_by_key(|c| c.id);
+        clients
+    }
+
+    pub fn verif_buffers(&self) -> Vec<(String, String)> {
+        let state = self.state.lock().unwrap();
+        let mut buffers: Vec<_> = state
+            .buffers
+            .iter()
+            .map(|(name, b)| (name.to_owned(), b.content.text()))
+            .collect();
+        buffers.sort_by(|a, b| a.0.cmp(&b.0));
+        buffers
+    }
+
+    pub fn verif_views(&self) -> Vec<(String, Vec<String>)> {
+        let state = self.state.lock().unwrap();
+        let mut views: Vec<_> = state
+            .views
+            .iter()
+            .map(|(key, view)| {
+                let view = view.borrow();
+                let buffers = view.buffers().iter().map(|b| b.to_string()).collect();
+                (key.to_owned(), buffers)
+            })
+            .collect();
+        views.sort();
+        views
+    }
+
+    /// Puts the selection of a client in the given buffer of its current view.
+    pub fn verif_select(&self, client_id: usize, buffer: &str, anchor: usize, cursor: usize) {
+        let mut state = self.state.lock().unwrap();
+        let target_col = state.buffers[buffer]
+            .content
+            .offset_to_coord(cursor)
+            .unwrap()
+            .c;
+        let ctx = state.clients.get_mut(&client_id).unwrap();
+        let view_key = ctx.view.borrow().key();
+        let selection = Selection {
+            anchor,
+            cursor,
+            target_col,
+        };
+        ctx.selections
+            .entry(view_key)
+            .or_default()
+            .insert(buffer.to_owned(), vec![selection]);
+    }
+}
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..b478369 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -8,6 +8,9 @@ mod range;
 mod selection;
 pub mod view;
 
+#[cfg(ced_verif)]
+pub mod verif;
+
 use std::collections::{HashMap, HashSet};
 use std::env;
 use std::path::PathBuf;
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..700d14e 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -637,6 +637,17 @@ impl PieceTable {
     }
 }
 
+#[cfg(ced_verif)]
+impl PieceTable {
+    pub fn verif_undo(&mut self) -> bool {
+        self.undo()
+    }
+
+    pub fn verif_redo(&mut self) -> bool {
+        self.redo()
+    }
+}
+
 impl Default for PieceTable {
     fn default() -> Self {
         Self::new()
diff --git a/core/src/editor/verif.rs b/core/src/editor/verif.rs
new file mode 100644
index 0000000..fe1df2b
--- /dev/null
+++ b/core/src/editor/verif.rs
@@ -0,0 +1,12 @@
+//! Names of private modules needed by the verification harness (`--cfg ced_verif`).
+pub use super::core::{ClientState, Core, CursorTarget};
+pub use super::piece_table::{Coords, Navigator, PieceTable, Position};
+pub use super::range::OffsetRange;
+pub use super::selection::Selection;
+use super::Editor;
+
+impl Editor {
+    pub fn verif_core(&mut self) -> &mut Core {
+        &mut self.core
+    }
+}
diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..f7b34e8 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -23,6 +23,11 @@ impl Client {
         (client, requests_tx)
     }
 
+    #[cfg(ced_verif)]
+    pub(crate) fn verif_sent(&self) -> Option<Request> {
+        self.requests.try_recv().ok()
+    }
+
     pub async fn run(&self) -> io::Result<(ClientEventStream, impl Future<Output = ()>)> {
         let mut requests_rx = self.requests.clone();
         log::trace!("opening stream for {}", &self.session.mode);
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..58269b9 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -165,6 +165,19 @@ impl Connection {
         )
     }
 
+    /// What `connect` does with an incoming event, without a socket.
+    #[cfg(ced_verif)]
+    pub fn verif_event(&self, event: &ClientEvent) -> ConnectionEvent {
+        let mut ctx = self.state_lock.write().unwrap();
+        ctx.event_update(event).unwrap_or(ConnectionEvent::Noop)
+    }
+
+    /// The oldest request not yet taken by the request loop.
+    #[cfg(ced_verif)]
+    pub fn verif_sent(&self) -> Option<Request> {
+        self.client.verif_sent()
+    }
+
     fn request_id(&mut self) -> Id {
         let id = self.next_request_id;
         self.next_request_id += 1;
-- 
2.43.0


From 2a23a42ff1bbd9348cb75502989d22f155d0e66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 02/56] fix: keep piece offsets right when a deletion leaves
 nothing of its first and last pieces

---
 core/src/editor/piece_table/mod.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 700d14e..2a586a1 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -568,18 +568,18 @@ impl PieceTable {
             for piece in &pieces {
                 assert!(self.pieces.remove(piece));
             }
-            let mut last_node = None;
+            // everything that follows the deleted range moves back, whatever remains of the
+            // pieces at its ends
+            for node in self.pieces.iter() {
+                if node.data().offset >= range.end() {
+                    node.apply(|p| p.offset -= range.len());
+                }
+            }
             if let Some(p) = head {
-                last_node = self.pieces.insert(p);
+                self.pieces.insert(p);
             }
             if let Some(p) = tail {
-                last_node = self.pieces.insert(p);
-            }
-            if let Some(ln) = last_node {
-                self.shift_offset_after(&ln, -(range.len() as i64));
-            } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+                self.pieces.insert(p);
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From 16404ae66085988071716a5cabc1b1aa41ec5dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:18 +0000
Subject: [PATCH 03/56] fix: empty edits and empty initial texts leave no
 zero-length piece

---
 core/src/editor/piece_table/mod.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 2a586a1..8af4c70 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -179,12 +179,14 @@ impl PieceTable {
     pub fn with_text(text: String) -> PieceTable {
         let mut pieces = RBTreeSet::new();
         let newlines = text.match_indices('\n').map(|(i, _)| i).collect();
-        pieces.insert(Piece {
-            offset: 0,
-            start: 0,
-            length: text.len(),
-            original: true,
-        });
+        if !text.is_empty() {
+            pieces.insert(Piece {
+                offset: 0,
+                start: 0,
+                length: text.len(),
+                original: true,
+            });
+        }
         PieceTable {
             original: text.into_bytes(),
             added: Vec::new(),
@@ -486,6 +488,9 @@ impl PieceTable {
     }
 
     pub fn append(&mut self, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
@@ -514,6 +519,9 @@ impl PieceTable {
     }
 
     pub fn insert(&mut self, offset: usize, text: String) {
+        if text.is_empty() {
+            return;
+        }
         self.action(Action::Insert);
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
@@ -548,6 +556,9 @@ impl PieceTable {
     }
 
     pub fn delete(&mut self, range: &dyn Range) {
+        if range.len() == 0 {
+            return;
+        }
         self.action(Action::Delete);
 
         // special case: deleting exactly the whole content
-- 
2.43.0


From e88310e4f3e0a861f5f30dd4dd9c1ad256478f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 04/56] fix: reload keeps every change and never splits a
 character

The diff dropped everything after the common prefix when there was no common
suffix (or one of the same length), missed a single trailing difference and
failed on empty sides.
---
 core/src/editor/diff.rs | 61 ++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..09fe925 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,30 +7,29 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
-    let l1 = b1.len();
-    let l2 = b2.len();
+fn precompute(c1: &[char], c2: &[char]) -> (usize, usize) {
+    let l1 = c1.len();
+    let l2 = c2.len();
 
     let mut start = 0;
-    while start < l1 && start < l2 && b1[start] == b2[start] {
+    while start < l1 && start < l2 && c1[start] == c2[start] {
         start += 1;
     }
 
     let mut end = 0;
-    while start < l1 - end && start < l2 - end && b1[l1 - 1 - end] == b2[l2 - 1 - end] {
+    while start < l1 - end && start < l2 - end && c1[l1 - 1 - end] == c2[l2 - 1 - end] {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
     let el = left.len();
     let er = right.len();
+    if el == 0 || er == 0 {
+        return Vec::new();
+    }
 
     let mut mt = vec![0; el * er];
     for i in 0..el {
@@ -77,24 +76,24 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
     lcs
 }
 
+fn byte_len(chars: &[char]) -> usize {
+    chars.iter().map(|c| c.len_utf8()).sum()
+}
+
+/// Describes how to go from left to right, the lengths are in bytes and never split a character.
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
+    let cleft: Vec<char> = left.chars().collect();
+    let cright: Vec<char> = right.chars().collect();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(&cleft, &cright);
     if start > 0 {
-        diffs.push(Diff::Both(start));
+        diffs.push(Diff::Both(byte_len(&cleft[..start])));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
-
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
+
+    let l = &cleft[start..cleft.len() - end];
+    let r = &cright[start..cright.len() - end];
     let lcs = find_lcs(l, r);
     let mut i = 0;
     let mut j = 0;
@@ -104,7 +103,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
     while let Some(&c) = lcs_it.next() {
         len = 0;
         while i < l.len() && l[i] != c {
-            len += 1;
+            len += l[i].len_utf8();
             i += 1;
         }
         if len > 0 {
@@ -113,7 +112,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
 
         len = 0;
         while j < r.len() && r[j] != c {
-            len += 1;
+            len += r[j].len_utf8();
             j += 1;
         }
         if len > 0 {
@@ -123,7 +122,7 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         len = 0;
         let mut sub_c = c;
         while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+            len += sub_c.len_utf8();
             i += 1;
             j += 1;
             match lcs_it.next() {
@@ -136,15 +135,15 @@ pub fn diff(left: &str, right: &str) -> Vec<Diff> {
         }
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(byte_len(&l[i..])));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(byte_len(&r[j..])));
     }
 
     if end > 0 {
-        diffs.push(Diff::Both(end));
+        diffs.push(Diff::Both(byte_len(&cleft[cleft.len() - end..])));
     }
     diffs
 }
-- 
2.43.0


From 7404409f23531a3f955a3acc75ae8837d54022f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 05/56] fix: undo and redo restore the line index with the text

---
 core/src/editor/piece_table/mod.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 8af4c70..9a7d046 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -171,8 +171,8 @@ pub struct PieceTable {
     pieces: RBTreeSet<Piece>,
     newlines: BTreeSet<usize>,
     last_action: Option<Action>,
-    undos: Vec<RBTreeSet<Piece>>,
-    redos: Vec<RBTreeSet<Piece>>,
+    undos: Vec<(RBTreeSet<Piece>, BTreeSet<usize>)>,
+    redos: Vec<(RBTreeSet<Piece>, BTreeSet<usize>)>,
 }
 
 impl PieceTable {
@@ -220,7 +220,8 @@ impl PieceTable {
 
     fn commit(&mut self) {
         self.pieces.repack();
-        self.undos.push(self.pieces.clone());
+        self.undos
+            .push((self.pieces.clone(), self.newlines.clone()));
         self.redos.clear();
         self.last_action = None;
     }
@@ -244,9 +245,11 @@ impl PieceTable {
     }
 
     fn undo(&mut self) -> bool {
-        if let Some(pieces) = self.undos.pop() {
-            self.redos.push(self.pieces.clone());
+        if let Some((pieces, newlines)) = self.undos.pop() {
+            self.redos
+                .push((self.pieces.clone(), self.newlines.clone()));
             self.pieces = pieces;
+            self.newlines = newlines;
             self.last_action = None;
             true
         } else {
@@ -255,9 +258,11 @@ impl PieceTable {
     }
 
     fn redo(&mut self) -> bool {
-        if let Some(pieces) = self.redos.pop() {
-            self.undos.push(self.pieces.clone());
+        if let Some((pieces, newlines)) = self.redos.pop() {
+            self.undos
+                .push((self.pieces.clone(), self.newlines.clone()));
             self.pieces = pieces;
+            self.newlines = newlines;
             self.last_action = None;
             true
         } else {
-- 
2.43.0


From f143e16a2491b063c2875b0eb1dcfaa56f5c5053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 06/56] fix: coordinates and cursor moves count graphemes on
 every line

Columns were bytes on the first line and next to newlines, moves past a
multibyte character, past the last line or from an empty line could land
nowhere and panic, and the position iterator stopped after one element.
---
 core/src/editor/piece_table/mod.rs       | 41 ++++++++----------------
 core/src/editor/piece_table/navigator.rs | 40 ++++++++++++-----------
 core/src/editor/piece_table/position.rs  |  5 ++-
 3 files changed, 37 insertions(+), 49 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 9a7d046..d12240c 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -332,6 +332,8 @@ impl PieceTable {
     pub fn line_bytes(&self, n: usize) -> Option<Vec<u8>> {
         if n == 0 || self.line_count() < n {
             None
+        } else if self.is_empty() {
+            Some(Vec::new())
         } else if n == 1 {
             let max_len = self.len();
             self.range(&OffsetRange::new(
@@ -376,18 +378,11 @@ impl PieceTable {
 
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_offset = preceding_lines.last().map_or(0, |&nli| nli + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
+        let col = indices.range(..=offset - line_offset).count();
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
@@ -413,7 +408,7 @@ impl PieceTable {
                 Some(line_offset + lbs.len())
             } else {
                 lbs.grapheme_indices()
-                    .nth(coords.c - 1)
+                    .nth(coords.c.checked_sub(1)?)
                     .map(|(i, _, _)| i)
                     .map(|col| line_offset + col)
             }
@@ -439,29 +434,19 @@ impl PieceTable {
             .range(offset..)
             .next()
             .map_or_else(|| self.len(), |&nl| nl);
-        self.range(&OffsetRange::new(offset, max(end - offset, 1)))
+        self.range(&OffsetRange::new(offset, max(end.saturating_sub(offset), 1)))
             .and_then(|l| l.graphemes().next().map(ToOwned::to_owned))
     }
 
     pub fn char_at(&self, coords: impl Into<Coords>) -> Option<String> {
         self.coord_to_offset(coords.into())
-            .map(|offset| self.char_at_offset(offset).unwrap())
+            .and_then(|offset| self.char_at_offset(offset))
     }
 
+    /// Number of graphemes of a line, without its newline.
     pub fn line_length(&self, index: usize) -> usize {
-        let mut nls = self.newlines.iter().collect::<Vec<_>>();
-        nls.sort_unstable();
-        if nls.is_empty() {
-            self.len()
-        } else if index == 1 {
-            *nls[0]
-        } else if index - 1 < nls.len() {
-            nls[index - 1] - nls[index - 2] - 1
-        } else if index - 1 == nls.len() {
-            self.len() - nls[index - 2] - 1
-        } else {
-            0
-        }
+        self.line_bytes(index)
+            .map_or(0, |line| line.graphemes().count())
     }
 
     pub fn longest_line(&self) -> (usize, usize) {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..03e6ffe 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,6 +1,4 @@
-use std::cmp::min;
-
-use bstr::ByteSlice;
+use std::cmp::{max, min};
 
 use crate::editor::piece_table::{Coords, PieceTable, Position};
 
@@ -30,19 +28,26 @@ impl Navigator<'_> {
     }
 
     pub fn is_at_end(&self) -> bool {
-        self.cursor == self.table.max_coord()
+        self.pos().coords == self.table.max_coord()
+    }
+
+    /// The last column of the current line: its newline, or its last character when it has none.
+    fn max_col(&self) -> usize {
+        let length = self.table.line_length(self.cursor.l);
+        let newline = Coords {
+            c: length + 1,
+            ..self.cursor
+        };
+        if self.table.coord_to_offset(newline) <= Some(self.table.max_offset()) {
+            newline.c
+        } else {
+            max(length, 1)
+        }
     }
 
     pub fn pos(&self) -> Position {
-        let col_count = self
-            .table
-            .line_bytes(self.cursor.l)
-            .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
-            .graphemes()
-            .count()
-            + 1;
         let cursor = Coords {
-            c: min(col_count, self.target_col),
+            c: min(self.max_col(), self.target_col),
             ..self.cursor
         };
         Position {
@@ -56,6 +61,7 @@ impl Navigator<'_> {
     }
 
     pub fn next(&mut self) -> &mut Self {
+        self.cursor.c = min(self.cursor.c, self.max_col());
         if self.cursor == self.table.max_coord() {
             return self;
         } else if self.table.char_at(self.cursor).map_or(false, |c| c == "\n") {
@@ -65,16 +71,14 @@ impl Navigator<'_> {
             };
             self.target_col = 1;
         } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
         }
         self
     }
 
     pub fn previous(&mut self) -> &mut Self {
+        self.cursor.c = min(self.cursor.c, self.max_col());
         if self.cursor != BEGIN {
             if self.cursor.l != 1 && self.cursor.c == 1 {
                 let l = self.cursor.l - 1;
@@ -109,7 +113,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.table.line_length(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
diff --git a/core/src/editor/piece_table/position.rs b/core/src/editor/piece_table/position.rs
index f8a0156..3a4b268 100644
--- a/core/src/editor/piece_table/position.rs
+++ b/core/src/editor/piece_table/position.rs
@@ -33,11 +33,10 @@ impl<'a> Iterator for PositionIterator<'a> {
             return Some(self.pos());
         }
 
-        self.nv.next();
         if self.nv.is_at_end() {
-            Some(self.nv.pos())
-        } else {
             None
+        } else {
+            Some(self.nv.next().pos())
         }
     }
 }
-- 
2.43.0


From 296e8ef711a5a088c3a0e46ba799718e041df345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 07/56] verif hooks: position iterator

---
 core/src/editor/verif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/verif.rs b/core/src/editor/verif.rs
index fe1df2b..c94b5eb 100644
--- a/core/src/editor/verif.rs
+++ b/core/src/editor/verif.rs
@@ -1,6 +1,6 @@
 //! Names of private modules needed by the verification harness (`--cfg ced_verif`).
 pub use super::core::{ClientState, Core, CursorTarget};
-pub use super::piece_table::{Coords, Navigator, PieceTable, Position};
+pub use super::piece_table::{Coords, Navigator, PieceTable, Position, PositionIterator};
 pub use super::range::OffsetRange;
 pub use super::selection::Selection;
 use super::Editor;
-- 
2.43.0


From 13d2312f25745fcf218ffc8358160232a99c97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 08/56] fix: a file that cannot be read is reported as an error

---
 core/src/editor/buffer.rs | 47 ++++++++++++++++++++++-----------------
 core/src/editor/core.rs   | 31 ++++++++++++++++++--------
 core/src/editor/mod.rs    |  5 +++--
 3 files changed, 51 insertions(+), 32 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..ab8d8b4 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,6 +1,6 @@
 use std::env::current_dir;
 use std::fs::{self, File};
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
@@ -79,30 +79,37 @@ impl Buffer {
         }
     }
 
-    pub fn new_file(filename: &Path) -> Buffer {
+    fn read_content(path: &Path) -> io::Result<String> {
+        let mut content = String::new();
+        File::open(path)?.read_to_string(&mut content)?;
+        if !content.ends_with('\n') {
+            content += "\n";
+        }
+        Ok(content)
+    }
+
+    pub fn open(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
-        let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
+        let content = Self::read_content(&absolute_path)?;
         let last_sync = Some(SystemTime::now());
 
-        if !file_content.ends_with('\n') {
-            file_content += "\n";
-        }
-
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
-            content: PieceTable::with_text(file_content),
+            content: PieceTable::with_text(content),
             last_sync,
             modified: false,
-        }
+        })
+    }
+
+    pub fn new_file(filename: &Path) -> Buffer {
+        Self::open(filename).expect("open file")
     }
 
     pub fn line_count(&self) -> usize {
@@ -142,19 +149,17 @@ impl Buffer {
         true
     }
 
-    pub fn load_from_disk(&mut self) -> bool {
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
                 if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
+                    let content = Self::read_content(path)?;
                     self.content.apply_diff(&content);
                     self.last_sync = Some(SystemTime::now());
-                    true
+                    Ok(true)
                 } else {
-                    false
+                    Ok(false)
                 }
             }
         }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 2e6d7a0..106c9db 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -122,6 +122,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    Io { name: String, reason: String },
     ViewNotFound { view_id: String },
 }
 
@@ -130,6 +131,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            Io { name, reason } => write!(f, "could not read {}: {}", name, reason),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -332,9 +334,10 @@ impl Core {
         lock!(self).buffers.insert(name.to_owned(), buffer);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> io::Result<()> {
+        let buffer = Buffer::open(filename)?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -418,7 +421,11 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
+        let io_error = |e: io::Error| Error::Io {
+            name: name.to_owned(),
+            reason: e.to_string(),
+        };
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -427,7 +434,12 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = lock!(self)
+                .buffers
+                .get_mut(name)
+                .unwrap()
+                .load_from_disk()
+                .map_err(io_error)?;
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -438,7 +450,7 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path).map_err(io_error)?;
             true
         };
 
@@ -456,6 +468,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -713,15 +726,15 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index b478369..f5540e5 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -247,8 +247,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From ffc86f00a3726de38292c2416496e039d3bf8b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 09/56] fix: a selection ending on the last character includes
 all its bytes

---
 core/src/editor/buffer.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index ab8d8b4..8d59792 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -171,15 +171,14 @@ impl Buffer {
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
-        let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
+        let mut nv = self
+            .content
+            .navigate(self.content.offset_to_coord(sel.end()))
+            .unwrap();
+        let end_offset = if nv.is_at_end() {
+            self.content.len()
         } else {
-            self.content
-                .navigate(self.content.offset_to_coord(sel.end()))
-                .unwrap()
-                .next()
-                .pos()
-                .offset
+            nv.next().pos().offset
         };
         sel.begin()..end_offset
     }
-- 
2.43.0


From 039a885d4e58518d4c37204728143d6eb7f60333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 10/56] fix: selections of all clients follow the content of
 their buffers

---
 core/src/editor/core.rs      | 60 +++++++++++++++++++++---------------
 core/src/editor/selection.rs | 28 ++++++++---------
 2 files changed, 49 insertions(+), 39 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 106c9db..0eed417 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -1,11 +1,8 @@
+use std::collections::{HashMap, HashSet};
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use std::sync::{Arc, Mutex};
 use std::{cell::RefCell, env::current_dir};
-use std::{
-    collections::{HashMap, HashSet},
-    sync::MutexGuard,
-};
 
 use crate::editor::selection::Selection;
 use crate::editor::view::{Focus, Lens, View};
@@ -218,6 +215,14 @@ impl Core {
             .collect()
     }
 
+    fn clients_with_buffers(&self, names: &HashSet<String>) -> Vec<usize> {
+        let clients: HashSet<usize> = names
+            .iter()
+            .flat_map(|name| self.clients_with_buffer(name))
+            .collect();
+        clients.into_iter().collect()
+    }
+
     fn get_selected_text(&self, buffer: &str, sel: &Selection) -> Option<String> {
         let state = lock!(self);
         state
@@ -331,7 +336,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::fit_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> io::Result<()> {
@@ -441,6 +448,7 @@ impl Core {
                 .load_from_disk()
                 .map_err(io_error)?;
             if reloaded {
+                Self::fit_selections(&mut lock!(self), name);
                 self.debug(&format!("reloaded from disk: {}", name));
             }
             reloaded
@@ -585,25 +593,25 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    /// Makes sure that all the selections over a buffer which content has changed are valid.
+    fn fit_selections(state: &mut CoreState, bufname: &str) {
+        let CoreState {
+            buffers, clients, ..
+        } = state;
+        let content = &buffers[bufname].content;
+        for context in clients.values_mut() {
+            for by_buffer in context.selections.values_mut() {
+                if let Some(selections) = by_buffer.get_mut(bufname) {
+                    selections.iter_mut().for_each(|s| s.fit_to(content));
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -627,13 +635,11 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::fit_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        self.notify_view_update(self.clients_with_buffers(&modified_buffers));
         deleted
     }
 }
@@ -727,7 +733,11 @@ impl rlua::UserData for Core {
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
-                    .map_err(rlua::Error::external)
+                    .map_err(rlua::Error::external)?;
+                let mut others = this.clients_with_buffer(&name);
+                others.retain(|&id| id != client);
+                this.notify_view_update(others);
+                Ok(())
             },
         );
         methods.add_method_mut(
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..f4208d4 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -1,3 +1,7 @@
+use std::cmp::min;
+
+use crate::editor::piece_table::PieceTable;
+
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
 pub struct Selection {
     pub anchor: usize,
@@ -36,19 +40,15 @@ impl Selection {
         }
     }
 
-    pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
+    /// Moves both ends to the beginning of a character of the content.
+    pub fn fit_to(&mut self, content: &PieceTable) {
+        let fit = |offset: usize| {
+            content
+                .offset_to_coord(min(offset, content.max_offset()))
+                .and_then(|coords| content.coord_to_offset(coords))
+                .unwrap_or(0)
+        };
+        self.anchor = fit(self.anchor);
+        self.cursor = fit(self.cursor);
     }
 }
-- 
2.43.0


From 46e55a08fcc2c52433e5d242964f20cc8266452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 11/56] fix: the first client has a selection for every view

---
 core/src/editor/core.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 0eed417..c5eda98 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -307,19 +307,21 @@ impl Core {
             let context = if let Some(c) = state.clients.latest() {
                 state.clients[c].clone()
             } else {
-                let latest_view = state.views.latest_value().unwrap();
-                let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                let selections = state
+                    .views
+                    .iter()
+                    .map(|(key, view)| {
+                        let by_buffer = view
+                            .borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect();
+                        (key.clone(), by_buffer)
+                    })
+                    .collect();
                 ClientContext {
-                    view: Rc::clone(latest_view),
+                    view: Rc::clone(state.views.latest_value().unwrap()),
                     selections,
                 }
             };
-- 
2.43.0


From 1d5361082ba12f98ed18b7c8dd7541ab314bfe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 12/56] fix: deleting a view leaves every client with a view of
 existing buffers

---
 core/src/editor/core.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index c5eda98..cf67b43 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -373,30 +373,32 @@ impl Core {
             });
         }
 
-        let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
         self.debug(&format!("delete view: {}", view_id));
-        for (_id, context) in lock!(self).clients.iter_mut() {
-            context.selections.remove(view_id);
-        }
-        for buffer in view.borrow().buffers() {
-            let mut has_ref = false;
-            for view in lock!(self).views.values() {
-                if view.borrow().buffers().iter().any(|&b| b == buffer) {
-                    has_ref = true;
-                    break;
-                }
+        let deleted_buffers = {
+            let mut state = lock!(self);
+            let view = state.views.remove(&view_id.to_owned()).unwrap();
+            for (_id, context) in state.clients.iter_mut() {
+                context.selections.remove(view_id);
             }
-            if !has_ref {
-                lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+            let orphans: Vec<String> = view
+                .borrow()
+                .buffers()
+                .into_iter()
+                .filter(|b| !state.views.values().any(|v| v.borrow().contains_buffer(b)))
+                .map(ToOwned::to_owned)
+                .collect();
+            for buffer in &orphans {
+                state.buffers.remove(buffer);
             }
-        }
+            orphans
+        };
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
         }
+        // no client shows a deleted buffer from now on
         let mut to_notify = Vec::new();
         let latest_view = Rc::clone(lock!(self).views.latest_value().expect("get latest view"));
         for (id, context) in lock!(self).clients.iter_mut() {
@@ -405,6 +407,9 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        for buffer in deleted_buffers {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
-- 
2.43.0


From e8df8d0c13d1d642e2c7c23b38ccbe0298ad6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 13/56] fix: changing a view keeps the selections of the
 buffers it still shows only

---
 core/src/editor/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index cf67b43..7fdf74d 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -425,8 +425,12 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
-                        context.selections.insert(new_key.clone(), old_sels);
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
+                        context
+                            .selections
+                            .entry(new_key.clone())
+                            .or_insert(old_sels);
                     }
                 }
                 self.add_view(new_view);
-- 
2.43.0


From c1d5876a122837fffbe7913123c59726d2771be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 14/56] fix: viewing a buffer registers its view

---
 core/src/editor/core.rs | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 7fdf74d..f77ac3f 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -491,30 +491,26 @@ impl Core {
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
-        if self.view_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::clone(&state.views[view_id]);
-                state.clients.get_mut(&client_id).unwrap().view = view;
+        let mut key = view_id.to_owned();
+        if !self.view_exists(view_id) {
+            if !self.buffer_exists(view_id) {
+                return Err(Error::ViewNotFound {
+                    view_id: view_id.to_owned(),
+                });
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
-        } else if self.buffer_exists(view_id) {
-            {
-                let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+            let view = View::for_buffer(view_id);
+            key = view.key();
+            if !self.view_exists(&key) {
+                self.add_view(view);
             }
-            self.notify_view_update(vec![client_id]);
-            Ok(())
-        } else {
-            Err(Error::ViewNotFound {
-                view_id: view_id.to_owned(),
-            })
         }
+        {
+            let mut state = lock!(self);
+            let view = Rc::clone(&state.views[&key]);
+            state.clients.get_mut(&client_id).unwrap().view = view;
+        }
+        self.notify_view_update(vec![client_id]);
+        Ok(())
     }
 
     pub fn delete_current_view(&mut self, client_id: usize) {
-- 
2.43.0


From 977d534aa1984066a0c8de7438fb6c089280438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 15/56] fix: highlight the bytes of the selected characters

---
 core/src/editor/view.rs | 74 +++++++++--------------------------------
 1 file changed, 16 insertions(+), 58 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..f865f7d 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -1,10 +1,10 @@
-use std::cmp::Ordering;
+use std::cmp::{min, Ordering};
 use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::ops::Range;
 
 use crate::editor::selection::Selection;
-use crate::editor::Buffer;
+use crate::editor::{Buffer, Coords};
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -191,48 +191,17 @@ impl View {
                     let mut selected: HashMap<usize, Vec<_>> = HashMap::new();
                     if let Some(ss) = sels {
                         for s in ss {
-                            let start = buffer.content.offset_to_coord(s.begin()).unwrap();
-                            let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
-                                    end.c += 1;
-                                    end
-                                } else {
-                                    buffer
-                                        .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
-                                        .unwrap()
-                                        .next()
-                                        .pos()
-                                        .coords
-                                }
-                            };
-                            if start.l == end.l {
-                                let range = (Some(start.c - 1), Some(end.c - 1));
-                                selected
-                                    .entry(start.l - 1)
-                                    .and_modify(|e| e.push(range))
-                                    .or_insert_with(|| vec![range]);
-                            } else if start.l == end.l - 1 && end.c == 1 {
-                                let range = (Some(start.c - 1), None);
+                            let range = buffer.selection_range(s);
+                            let line_of = |o| buffer.content.offset_to_coord(o).unwrap().l;
+                            for l in line_of(range.start)..=line_of(range.end - 1) {
+                                let begin = buffer
+                                    .content
+                                    .coord_to_offset(Coords { l, c: 1 })
+                                    .unwrap();
                                 selected
-                                    .entry(start.l - 1)
-                                    .and_modify(|e| e.push(range))
-                                    .or_insert_with(|| vec![range]);
-                            } else {
-                                for i in start.l..=end.l {
-                                    let range = if i == start.l {
-                                        (Some(start.c - 1), None)
-                                    } else if i == end.l {
-                                        (None, Some(end.c - 1))
-                                    } else {
-                                        (None, None)
-                                    };
-                                    selected
-                                        .entry(i - 1)
-                                        .and_modify(|e| e.push(range))
-                                        .or_insert_with(|| vec![range]);
-                                }
+                                    .entry(l - 1)
+                                    .or_default()
+                                    .push(range.start.saturating_sub(begin)..range.end - begin);
                             }
                         }
                     }
@@ -243,22 +212,11 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
-                            if let Some(ranges) = selected.get(&i) {
+                            if let Some(ranges) = selected.get(&(lens.focus.start() + i)) {
                                 for range in ranges {
-                                    match *range {
-                                        (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
-                                        }
-                                        (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
-                                        }
-                                        (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
-                                        }
-                                        (None, None) => {
-                                            deco.set(Face::Selection, 0..l.len());
-                                        }
-                                    }
+                                    // what is not displayed ends with the line
+                                    let start = min(range.start, line.len());
+                                    deco.set(Face::Selection, start..range.end);
                                 }
                             }
                             deco.build()
-- 
2.43.0


From 905ab3f72d365df5b30bcdfc5741a9769eb97fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 16/56] fix: the shortest name of a file ends at the root of
 its path

---
 core/src/editor/buffer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 8d59792..3acbdaf 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -10,13 +10,16 @@ use crate::editor::view::Focus;
 use crate::editor::PieceTable;
 
 fn find_uniq_name(path: &Path, acc: &str, path_set: &[PathBuf]) -> String {
-    let head = path.parent().unwrap();
-    let tail = path.file_name().unwrap();
+    let (head, tail) = match (path.parent(), path.components().next_back()) {
+        (Some(head), Some(tail)) => (head, tail),
+        // nothing is left to tell it apart from longer paths
+        _ => return acc.to_owned(),
+    };
     let matches = path_set
         .iter()
-        .filter(|x| x.file_name().map_or(false, |x| x.to_str().unwrap() == tail))
+        .filter(|x| x.components().next_back() == Some(tail))
         .count();
-    let mut new_acc = tail.to_str().unwrap().to_owned();
+    let mut new_acc = tail.as_os_str().to_string_lossy().into_owned();
     if !acc.is_empty() {
         new_acc.push('/');
         new_acc.push_str(acc);
-- 
2.43.0


From bc43e6471643935a2a733e8a0f68ae1bb5443f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 17/56] fix: commands and scripts for a client which is not
 there are errors

---
 core/src/editor/core.rs | 80 ++++++++++++++++++++++++++---------------
 core/src/editor/mod.rs  |  5 +--
 2 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index f77ac3f..236e3e4 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -119,6 +119,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { id: usize },
     Io { name: String, reason: String },
     ViewNotFound { view_id: String },
 }
@@ -128,6 +129,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { id } => write!(f, "client not found: {}", id),
             Io { name, reason } => write!(f, "could not read {}: {}", name, reason),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
@@ -181,6 +183,18 @@ impl Core {
         lock!(self).cwd.to_owned()
     }
 
+    fn client_context(&self, id: usize) -> Result<ClientContext, Error> {
+        lock!(self)
+            .clients
+            .get(&id)
+            .cloned()
+            .ok_or(Error::ClientNotFound { id })
+    }
+
+    fn current_view_key(&self, client_id: usize) -> Result<String, Error> {
+        Ok(self.client_context(client_id)?.view.borrow().key())
+    }
+
     fn buffer_exists(&self, name: &str) -> bool {
         lock!(self).buffers.contains_key(name)
     }
@@ -444,6 +458,7 @@ impl Core {
             name: name.to_owned(),
             reason: e.to_string(),
         };
+        self.client_context(client_id)?;
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -491,6 +506,7 @@ impl Core {
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
+        self.client_context(client_id)?;
         let mut key = view_id.to_owned();
         if !self.view_exists(view_id) {
             if !self.buffer_exists(view_id) {
@@ -513,9 +529,9 @@ impl Core {
         Ok(())
     }
 
-    pub fn delete_current_view(&mut self, client_id: usize) {
-        let view_id = lock!(self).clients[&client_id].view.borrow().key();
-        self.delete_view(&view_id).unwrap();
+    pub fn delete_current_view(&mut self, client_id: usize) -> Result<(), Error> {
+        let view_id = self.current_view_key(client_id)?;
+        self.delete_view(&view_id)
     }
 
     pub fn add_to_current_view(&mut self, client_id: usize, buffer: &str) -> Result<(), Error> {
@@ -525,7 +541,7 @@ impl Core {
             });
         }
 
-        let view_id = lock!(self).clients[&client_id].view.borrow().key();
+        let view_id = self.current_view_key(client_id)?;
         self.modify_view(&view_id, |view| {
             view.add_lens(Lens {
                 buffer: buffer.to_owned(),
@@ -546,7 +562,7 @@ impl Core {
             });
         }
 
-        let view_id = lock!(self).clients[&client_id].view.borrow().key();
+        let view_id = self.current_view_key(client_id)?;
         self.modify_view(&view_id, |view| {
             if view.contains_buffer(buffer) {
                 view.remove_lens_group(buffer);
@@ -555,8 +571,13 @@ impl Core {
         Ok(())
     }
 
-    pub fn move_cursor(&mut self, client_id: usize, direction: CursorTarget, extend: bool) {
-        let ctx = lock!(self).clients[&client_id].clone();
+    pub fn move_cursor(
+        &mut self,
+        client_id: usize,
+        direction: CursorTarget,
+        extend: bool,
+    ) -> Result<(), Error> {
+        let ctx = self.client_context(client_id)?;
         let curview = ctx.view.borrow().key();
         let mut selections = ctx.selections[&curview].clone();
         let mut moved = false;
@@ -598,6 +619,7 @@ impl Core {
         if moved {
             self.notify_view_update(vec![client_id]);
         }
+        Ok(())
     }
 
     /// Makes sure that all the selections over a buffer which content has changed are valid.
@@ -615,7 +637,8 @@ impl Core {
         }
     }
 
-    pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
+    pub fn delete_selection(&mut self, client_id: usize) -> Result<Vec<String>, Error> {
+        self.client_context(client_id)?;
         let mut deleted = Vec::new();
         let mut modified_buffers = HashSet::new();
         {
@@ -647,7 +670,7 @@ impl Core {
             }
         }
         self.notify_view_update(self.clients_with_buffers(&modified_buffers));
-        deleted
+        Ok(deleted)
     }
 }
 
@@ -703,7 +726,7 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
-            let context = lock!(this).clients[&client].clone();
+            let context = this.client_context(client).map_err(rlua::Error::external)?;
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
 
@@ -738,6 +761,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.client_context(client).map_err(rlua::Error::external)?;
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
                     .map_err(rlua::Error::external)?;
@@ -760,40 +784,40 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Left, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Left, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Right, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Right, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Up, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Up, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Down, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Down, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::LineBegin, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::LineBegin, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::LineEnd, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::LineEnd, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::Begin, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::Begin, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
-            this.move_cursor(client, CursorTarget::End, extend);
-            Ok(())
+            this.move_cursor(client, CursorTarget::End, extend)
+                .map_err(rlua::Error::external)
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
-            let deleted = this.delete_selection(client);
-            Ok(deleted)
+            this.delete_selection(client)
+                .map_err(rlua::Error::external)
         });
     }
 }
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index f5540e5..e377c70 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -275,8 +275,9 @@ impl Editor {
         &mut self,
         client_id: usize,
     ) -> Result<<requests::ViewDelete as requests::Request>::Result, Error> {
-        self.core.delete_current_view(client_id);
-        Ok(())
+        self.core
+            .delete_current_view(client_id)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_view_add(
-- 
2.43.0


From e0c3d25156f23cbe7a50097dad9f27f925e8a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 18/56] fix: menus search for the text that was typed

---
 core/src/editor/menu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..daab47a 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -150,7 +150,7 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
         let raw_re = format!("(?i){}", elements.join(".*"));
         Regex::new(&raw_re).unwrap()
-- 
2.43.0


From a9852c5c9fa0782951ad29642dbb5d05dd190a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 19/56] fix: a menu without entries has nothing to select

---
 remote/src/connection.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 58269b9..e4bf9cc 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -33,8 +33,8 @@ impl Menu {
         }
     }
 
-    fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+    fn selected_item(&self) -> Option<&str> {
+        self.entries.get(self.selected).map(|e| e.value.as_str())
     }
 }
 
@@ -210,18 +210,19 @@ impl Connection {
 
     pub fn menu_select(&mut self) {
         if let Some(menu) = self.state().menu {
-            let selected = menu.selected_item();
-            let id = self.request_id();
-            let choice = if selected.is_empty() {
-                &menu.search
-            } else {
-                selected
-            };
-            let params = requests::MenuSelectParams {
-                command: menu.command.to_owned(),
-                choice: choice.to_owned(),
-            };
-            self.request(requests::MenuSelect::new(id, params));
+            if let Some(selected) = menu.selected_item() {
+                let id = self.request_id();
+                let choice = if selected.is_empty() {
+                    &menu.search
+                } else {
+                    selected
+                };
+                let params = requests::MenuSelectParams {
+                    command: menu.command.to_owned(),
+                    choice: choice.to_owned(),
+                };
+                self.request(requests::MenuSelect::new(id, params));
+            }
             self.action_menu_cancel();
         } else {
             log::warn!("menu_select without active menu");
-- 
2.43.0


From 59c643e7b5985131c8487feb31500fc70f87c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 20/56] fix: a null result of a response is a result

---
 remote/src/jsonrpc.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..1f06155 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -2,7 +2,7 @@ use std::fmt;
 use std::str::FromStr;
 
 use serde::de::DeserializeOwned;
-use serde::Serialize;
+use serde::{Deserialize, Serialize};
 use serde_json::{from_value, to_string, to_value, Value};
 
 pub type JsonCodingError = serde_json::Error;
@@ -198,11 +198,23 @@ impl fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+fn present<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
 #[derive(Debug, Serialize, Deserialize)]
 pub struct Response {
     jsonrpc: String,
     pub id: Id,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    // a null result is a result
+    #[serde(
+        default,
+        deserialize_with = "present",
+        skip_serializing_if = "Option::is_none"
+    )]
     result: Option<Value>,
     #[serde(skip_serializing_if = "Option::is_none")]
     error: Option<Error>,
@@ -227,9 +239,9 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match self.error {
+            Some(ref error) => Err(error.clone()),
+            None => Ok(from_value(self.result.clone().unwrap_or(Value::Null))?),
         })
     }
 
-- 
2.43.0


From 514f52ac42e516d04ab30c737beac5acbb8619c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 21/56] fix: the server outlives clients which quit or whose
 connection fails

---
 core/src/editor/mod.rs |  2 +-
 core/src/server.rs     | 41 ++++++++++++++++++++++++++++-------------
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index e377c70..433167c 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -256,7 +256,7 @@ impl Editor {
         &mut self,
         client_id: usize,
     ) -> Result<<requests::Quit as requests::Request>::Result, Error> {
-        self.core.remove_client(client_id);
+        self.remove_client(client_id);
         self.stopped_clients.insert(client_id);
         Ok(())
     }
diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..5a977f9 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -105,31 +105,46 @@ impl Server {
                     editor.add_client(client_id);
                 }
                 Event::Leave(client_id) => {
-                    editor.remove_client(client_id);
-                    clients
+                    // a client which quit is already gone
+                    if clients
                         .write()
                         .expect("lock client index")
                         .remove(&client_id)
-                        .expect("remove client from index");
+                        .is_some()
+                    {
+                        editor.remove_client(client_id);
+                    }
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
-                Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
-                    Ok(message) => {
-                        let mut index = clients.write().expect("lock client index");
-                        let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                Event::Message((client_id, raw)) => {
+                    if !clients
+                        .read()
+                        .expect("lock client index")
+                        .contains_key(&client_id)
+                    {
+                        log::warn!("client {}: message after quit: {:?}", client_id, raw);
+                        continue;
                     }
-                    Err(e) => log::error!("{}: {:?}", e, raw),
-                },
+                    match editor.handle(client_id, &raw) {
+                        Ok(message) => {
+                            let mut index = clients.write().expect("lock client index");
+                            if let Some(stream) = index.get_mut(&client_id) {
+                                let res = Self::write_client(client_id, stream, &message);
+                                if let Err(e) = res {
+                                    log::error!("{}", e);
+                                }
+                            }
+                        }
+                        Err(e) => log::error!("{}: {:?}", e, raw),
+                    }
+                }
             }
             for client_id in editor.removed_clients() {
                 clients
                     .write()
                     .expect("lock client index")
-                    .remove(&client_id)
-                    .expect("remove client from index");
+                    .remove(&client_id);
                 log::info!("client {}: quit", client_id);
             }
             if clients.read().expect("lock client index").len() == 0 && is_leave_event {
-- 
2.43.0


From 27409ca245c51e00a7d8baf43fb953c9b385d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 22/56] fix: session names which are no valid address are
 socket names

---
 remote/src/session.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..c34e2fc 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -9,7 +9,7 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>\w+|\d+\.\d+\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
 }
 
 #[cfg(unix)]
@@ -24,8 +24,18 @@ pub enum ConnectionMode {
 }
 
 impl ConnectionMode {
+    fn tcp_address(s: &str) -> Option<SocketAddr> {
+        let caps = RE_ADDR.captures(s)?;
+        let address = caps
+            .name("address")
+            .map(|m| m.as_str())
+            .unwrap_or("127.0.0.1");
+        let port = caps.name("port")?.as_str();
+        format!("{}:{}", address, port).parse().ok()
+    }
+
     fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+        Self::tcp_address(s).is_some()
     }
 }
 
@@ -44,16 +54,8 @@ impl FromStr for ConnectionMode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use self::ConnectionMode::*;
-        if let Some(caps) = RE_ADDR.captures(s) {
-            let address = caps
-                .name("address")
-                .map(|m| m.as_str())
-                .unwrap_or("127.0.0.1");
-            let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
-            Ok(Tcp(sock_addr))
+        if let Some(address) = Self::tcp_address(s) {
+            Ok(Tcp(address))
         } else {
             Ok(Socket(s.into()))
         }
-- 
2.43.0


From 52e19506bee632ef06ae71624d97996fcec0e534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 23/56] fix: every key that is displayed can be parsed

---
 remote/src/keys.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..d045d02 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,15 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
+
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 20f72c0043efd57635e585e51d79eb34bccf34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:00 +0000
Subject: [PATCH 24/56] fix: the session name is a value for scripts, not a
 part of their source

---
 core/src/editor/mod.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 433167c..31309ab 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -160,17 +160,10 @@ impl Editor {
     {
         self.lua
             .context(|context| {
-                let env_source = format!(
-                    r#"
-                    env = {{
-                        session = "{session}",
-                        client = "{client}",
-                    }}
-                    "#,
-                    session = self.session_name,
-                    client = client_id,
-                );
-                context.load(&env_source).exec()?;
+                let env = context.create_table()?;
+                env.set("session", self.session_name.as_str())?;
+                env.set("client", client_id.to_string())?;
+                context.globals().set("env", env)?;
                 f(context)
             })
             .map_err(|e| {
-- 
2.43.0


From fd8957958cbc6830a7e66e19a2bd934d96872140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 25/56] fix: the last error stays pending until its message was
 copied

---
 remote-ffi/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..965f752 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -103,16 +103,17 @@ pub unsafe extern "C" fn ced_last_error_message(buffer: *mut c_char, length: c_i
     if buffer.is_null() {
         return -1;
     }
-    let last_error = match take_last_error() {
-        Some(err) => err,
+    let message = match LAST_ERROR.with(|last| last.borrow().as_ref().map(|e| e.to_string())) {
+        Some(message) => message,
         None => return 0,
     };
 
-    let message = last_error.to_string();
-    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
-    if message.len() >= buffer.len() {
+    // the error stays pending until its message has been copied
+    if length < 0 || message.len() >= length as usize {
         return -2;
     }
+    take_last_error();
+    let buffer = slice::from_raw_parts_mut(buffer as *mut u8, length as usize);
     ptr::copy_nonoverlapping(message.as_ptr(), buffer.as_mut_ptr(), message.len());
     buffer[message.len()] = 0;
 
-- 
2.43.0


From 9e68bb9530e0542268873e0a61e1d19f8ad09505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 26/56] fix: text with a NUL does not end the front end

---
 remote-ffi/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 965f752..74ad1be 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -20,7 +20,8 @@ macro_rules! raw {
 #[macro_export]
 macro_rules! cstring {
     ($e:expr) => {
-        std::ffi::CString::new($e)
+        // a C string ends at the first NUL, which none of the content may do
+        std::ffi::CString::new(String::from($e).replace('\0', ""))
             .expect("failed to encode string")
             .into_raw()
     };
-- 
2.43.0


From 48635807d97ec9413653bbe6880ae877ce5726f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:27 +0000
Subject: [PATCH 27/56] fix: every event of a connection can be given to a
 front end

---
 remote-ffi/src/event.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..af7dcd0 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -32,6 +32,13 @@ pub enum CedEvent {
     View {
         items: *mut ViewIterator,
     },
+    Hint {
+        lines: *mut ViewLensLineIterator,
+    },
+    ConnErr {
+        message: *const c_char,
+    },
+    Noop,
 }
 
 impl From<ConnectionEvent> for CedEvent {
@@ -40,7 +47,9 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
+            ConnectionEvent::Hint(hint) => CedEvent::Hint {
+                lines: raw!(ViewLensLineIterator::from(&hint.text)),
+            },
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,8 +67,10 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
+            ConnectionEvent::ConnErr(message) => CedEvent::ConnErr {
+                message: cstring!(message),
+            },
+            ConnectionEvent::Noop => CedEvent::Noop,
         }
     }
 }
-- 
2.43.0


From 39b11d6f87d748b10e492c7cbdce0de5751b8786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:29 +0000
Subject: [PATCH 28/56] fix: a client which joins is told the view it is given

---
 core/src/editor/core.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 236e3e4..b5da14c 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -343,6 +343,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0


From 49a2a1a3bf61298f1af041e43bd8c02a758bf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 29/56] fix: the column to return to leads to the cursor after
 a change of the text

---
 core/src/editor/selection.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index f4208d4..baa319e 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -50,5 +50,14 @@ impl Selection {
         };
         self.anchor = fit(self.anchor);
         self.cursor = fit(self.cursor);
+        // the column to return to has to lead to the cursor
+        if let Some(coords) = content.offset_to_coord(self.cursor) {
+            if let Some(mut nv) = content.navigate(coords) {
+                nv.target_col = self.target_col;
+                if nv.pos().offset != self.cursor {
+                    self.target_col = coords.c;
+                }
+            }
+        }
     }
 }
-- 
2.43.0


From 72862220c74338240c947bf657bc4757daab5f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:41 +0000
Subject: [PATCH 30/56] fix: the shortest name of a file is told apart from
 files which end the same only

---
 core/src/editor/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index 3acbdaf..354d8b9 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -28,7 +28,8 @@ fn find_uniq_name(path: &Path, acc: &str, path_set: &[PathBuf]) -> String {
         let mut new_path_set: Vec<PathBuf> = Vec::new();
         for pb in path_set {
             let mut new_pb = PathBuf::from(pb);
-            if new_pb.pop() {
+            // only the paths which end the same have to be told apart
+            if pb.components().next_back() == Some(tail) && new_pb.pop() {
                 new_path_set.push(new_pb);
             }
         }
-- 
2.43.0


From 1910ddd98781b2070f524646aa78f7799f6f6415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 31/56] verif hooks: streams in memory, tasks of a server

---
 core/src/server.rs                      |  22 +++
 remote/src/lib.rs                       |   2 +
 remote/src/transport/mod.rs             |   2 +
 remote/src/transport/server_listener.rs |   9 ++
 remote/src/transport/server_stream.rs   |  13 ++
 remote/src/transport/verif.rs           | 170 ++++++++++++++++++++++++
 6 files changed, 218 insertions(+)
 create mode 100644 remote/src/transport/verif.rs

diff --git a/core/src/server.rs b/core/src/server.rs
index 5a977f9..70c66cb 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -229,3 +229,25 @@ impl Server {
         }))
     }
 }
+
+#[cfg(ced_verif)]
+impl Server {
+    /// The tasks of a server: its executor, what accepts clients and what handles their events.
+    #[allow(clippy::type_complexity)]
+    pub fn verif_tasks(
+        session: Session,
+    ) -> (
+        Arc<LocalExecutor<'static>>,
+        Boxed<io::Result<()>>,
+        Boxed<()>,
+    ) {
+        let ex = Arc::new(LocalExecutor::new());
+        let (sender, receiver) = unbounded();
+        let events = Self::handle_events(ex.clone(), session.to_string(), receiver);
+        let serve = Self::serve(ex.clone(), session, sender);
+        (ex, Box::pin(serve), Box::pin(events))
+    }
+}
+
+#[cfg(ced_verif)]
+type Boxed<T> = std::pin::Pin<Box<dyn Future<Output = T>>>;
diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index e80371c..9dc2306 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -20,6 +20,8 @@ pub use self::connection::{Connection, ConnectionEvent, ConnectionState, Menu};
 pub use self::jsonrpc::{ClientEvent, Id, Request};
 pub use self::session::{ConnectionMode, Session};
 pub use self::transport::{ServerListener, ServerStream};
+#[cfg(ced_verif)]
+pub use self::transport::verif;
 
 pub fn find_bin() -> String {
     env::var("CED_BIN").unwrap_or_else(|_| {
diff --git a/remote/src/transport/mod.rs b/remote/src/transport/mod.rs
index 46c220e..1e3c80f 100644
--- a/remote/src/transport/mod.rs
+++ b/remote/src/transport/mod.rs
@@ -2,6 +2,8 @@ mod server_listener;
 mod server_stream;
 mod socket;
 mod socket_windows;
+#[cfg(ced_verif)]
+pub mod verif;
 
 pub use self::server_listener::ServerListener;
 pub use self::server_stream::ServerStream;
diff --git a/remote/src/transport/server_listener.rs b/remote/src/transport/server_listener.rs
index e73d3ac..00d1868 100644
--- a/remote/src/transport/server_listener.rs
+++ b/remote/src/transport/server_listener.rs
@@ -13,10 +13,15 @@ use crate::{ConnectionMode, Session};
 pub enum ServerListener {
     Socket(SocketListener),
     Tcp(TcpListener),
+    #[cfg(ced_verif)]
+    Memory,
 }
 
 impl ServerListener {
     pub async fn bind(session: &Session) -> io::Result<ServerListener> {
+        #[cfg(ced_verif)]
+        return Ok(ServerListener::Memory);
+        #[cfg(not(ced_verif))]
         match &session.mode {
             ConnectionMode::Socket(path) => {
                 Ok(ServerListener::Socket(SocketListener::bind(path).await?))
@@ -40,6 +45,10 @@ impl ServerListener {
                 let (stream, _) = inner.accept().await?;
                 Ok(ServerStream::Tcp(stream))
             }
+            #[cfg(ced_verif)]
+            Memory => future::poll_fn(crate::transport::verif::poll_accept)
+                .await
+                .map(ServerStream::Memory),
         }
     }
 }
diff --git a/remote/src/transport/server_stream.rs b/remote/src/transport/server_stream.rs
index abd280e..97ba574 100644
--- a/remote/src/transport/server_stream.rs
+++ b/remote/src/transport/server_stream.rs
@@ -12,11 +12,16 @@ use crate::ConnectionMode;
 pub enum ServerStream {
     Socket(SocketStream),
     Tcp(TcpStream),
+    #[cfg(ced_verif)]
+    Memory(crate::transport::verif::MemoryStream),
 }
 
 impl ServerStream {
     pub async fn new(mode: &ConnectionMode) -> io::Result<ServerStream> {
         use self::ConnectionMode::*;
+        #[cfg(ced_verif)]
+        return crate::transport::verif::connect().map(ServerStream::Memory);
+        #[cfg(not(ced_verif))]
         match mode {
             Socket(path) => Ok(ServerStream::Socket(SocketStream::connect(path).await?)),
             Tcp(sock_addr) => Ok(ServerStream::Tcp(TcpStream::connect(sock_addr).await?)),
@@ -36,6 +41,8 @@ impl AsyncRead for ServerStream {
             match Pin::get_unchecked_mut(self) {
                 Socket(inner) => Pin::new_unchecked(inner).poll_read(cx, buf),
                 Tcp(inner) => Pin::new_unchecked(inner).poll_read(cx, buf),
+                #[cfg(ced_verif)]
+                Memory(inner) => inner.poll_read(cx, buf),
             }
         }
     }
@@ -53,6 +60,8 @@ impl AsyncWrite for ServerStream {
             match Pin::get_unchecked_mut(self) {
                 Socket(inner) => Pin::new_unchecked(inner).poll_write(cx, buf),
                 Tcp(inner) => Pin::new_unchecked(inner).poll_write(cx, buf),
+                #[cfg(ced_verif)]
+                Memory(inner) => inner.poll_write(buf),
             }
         }
     }
@@ -64,6 +73,8 @@ impl AsyncWrite for ServerStream {
             match Pin::get_unchecked_mut(self) {
                 Socket(inner) => Pin::new_unchecked(inner).poll_flush(cx),
                 Tcp(inner) => Pin::new_unchecked(inner).poll_flush(cx),
+                #[cfg(ced_verif)]
+                Memory(_) => Poll::Ready(Ok(())),
             }
         }
     }
@@ -75,6 +86,8 @@ impl AsyncWrite for ServerStream {
             match Pin::get_unchecked_mut(self) {
                 Socket(inner) => Pin::new_unchecked(inner).poll_close(cx),
                 Tcp(inner) => Pin::new_unchecked(inner).poll_close(cx),
+                #[cfg(ced_verif)]
+                Memory(_) => Poll::Ready(Ok(())),
             }
         }
     }
diff --git a/remote/src/transport/verif.rs b/remote/src/transport/verif.rs
new file mode 100644
index 0000000..722af73
--- /dev/null
+++ b/remote/src/transport/verif.rs
@@ -0,0 +1,170 @@
+//! Streams in memory for the verification harness (`--cfg ced_verif`).
+use std::cell::RefCell;
+use std::collections::VecDeque;
+use std::sync::{Arc, Mutex};
+use std::task::{Context, Poll, Waker};
+
+use futures_lite::io;
+
+#[derive(Debug, Default)]
+struct End {
+    bytes: VecDeque<u8>,
+    closed: bool,
+    broken: bool,
+    waker: Option<Waker>,
+}
+
+/// What is written to one end of a pair is read from the other.
+#[derive(Clone, Debug)]
+pub struct MemoryStream {
+    input: Arc<Mutex<End>>,
+    output: Arc<Mutex<End>>,
+    /// Most bytes which are written at once.
+    limit: usize,
+    closer: Arc<Closer>,
+}
+
+/// Closes what an end writes to when the last handle to this end is dropped.
+#[derive(Debug, Default)]
+struct Closer(Arc<Mutex<End>>);
+
+impl Drop for Closer {
+    fn drop(&mut self) {
+        MemoryStream::change(&self.0, |end| end.closed = true);
+    }
+}
+
+impl MemoryStream {
+    pub fn pair(limit: usize) -> (MemoryStream, MemoryStream) {
+        let (x, y) = (Arc::<Mutex<End>>::default(), Arc::<Mutex<End>>::default());
+        let end = |input: &Arc<Mutex<End>>, output: &Arc<Mutex<End>>| MemoryStream {
+            input: input.clone(),
+            output: output.clone(),
+            limit,
+            closer: Arc::new(Closer(output.clone())),
+        };
+        (end(&x, &y), end(&y, &x))
+    }
+
+    fn change(end: &Arc<Mutex<End>>, f: impl FnOnce(&mut End)) {
+        let mut end = end.lock().unwrap();
+        f(&mut end);
+        if let Some(waker) = end.waker.take() {
+            waker.wake();
+        }
+    }
+
+    /// Writes bytes for the other end.
+    pub fn feed(&self, bytes: &[u8]) {
+        Self::change(&self.output, |end| end.bytes.extend(bytes));
+    }
+
+    /// The other end reads that there is nothing more.
+    pub fn close(&self) {
+        Self::change(&self.output, |end| end.closed = true);
+    }
+
+    /// The other end fails to read.
+    pub fn reset(&self) {
+        Self::change(&self.output, |end| end.broken = true);
+    }
+
+    /// The other end fails to write.
+    pub fn hang_up(&self) {
+        Self::change(&self.input, |end| end.broken = true);
+    }
+
+    /// Whether the other end was dropped.
+    pub fn is_closed(&self) -> bool {
+        self.input.lock().unwrap().closed
+    }
+
+    /// What the other end wrote since the last time.
+    pub fn drain(&self) -> Vec<u8> {
+        self.input.lock().unwrap().bytes.drain(..).collect()
+    }
+
+    pub(crate) fn poll_read(
+        &mut self,
+        cx: &mut Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<io::Result<usize>> {
+        let mut end = self.input.lock().unwrap();
+        if end.broken {
+            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
+        }
+        if end.bytes.is_empty() && !end.closed {
+            end.waker = Some(cx.waker().clone());
+            return Poll::Pending;
+        }
+        let mut n = 0;
+        while n < buf.len() {
+            match end.bytes.pop_front() {
+                Some(byte) => buf[n] = byte,
+                None => break,
+            }
+            n += 1;
+        }
+        Poll::Ready(Ok(n))
+    }
+
+    pub(crate) fn poll_write(&mut self, buf: &[u8]) -> Poll<io::Result<usize>> {
+        if self.output.lock().unwrap().broken {
+            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
+        }
+        let n = buf.len().min(self.limit);
+        Self::change(&self.output, |end| end.bytes.extend(&buf[..n]));
+        Poll::Ready(Ok(n))
+    }
+}
+
+#[derive(Debug, Default)]
+struct Network {
+    connecting: VecDeque<MemoryStream>,
+    accepting: VecDeque<MemoryStream>,
+    waker: Option<Waker>,
+}
+
+thread_local! {
+    static NETWORK: RefCell<Network> = RefCell::new(Network::default());
+}
+
+/// The next client to connect gets this stream.
+pub fn connects(stream: MemoryStream) {
+    NETWORK.with(|n| n.borrow_mut().connecting.push_back(stream));
+}
+
+/// The server accepts this stream.
+pub fn accepts(stream: MemoryStream) {
+    NETWORK.with(|n| {
+        let mut network = n.borrow_mut();
+        network.accepting.push_back(stream);
+        if let Some(waker) = network.waker.take() {
+            waker.wake();
+        }
+    });
+}
+
+/// What waits to be accepted never will be.
+pub fn refuse() {
+    let _waiting = NETWORK.with(|n| std::mem::take(&mut n.borrow_mut().accepting));
+}
+
+pub(crate) fn connect() -> io::Result<MemoryStream> {
+    NETWORK
+        .with(|n| n.borrow_mut().connecting.pop_front())
+        .ok_or_else(|| io::ErrorKind::ConnectionRefused.into())
+}
+
+pub(crate) fn poll_accept(cx: &mut Context<'_>) -> Poll<io::Result<MemoryStream>> {
+    NETWORK.with(|n| {
+        let mut network = n.borrow_mut();
+        match network.accepting.pop_front() {
+            Some(stream) => Poll::Ready(Ok(stream)),
+            None => {
+                network.waker = Some(cx.waker().clone());
+                Poll::Pending
+            }
+        }
+    })
+}
-- 
2.43.0


From c1888a172e3c1b2e290fb3c2dd1a9faf949b4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 32/56] fix: a broken connection is an error for the front end,
 not a panic

---
 remote/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/remote/src/client.rs b/remote/src/client.rs
index f7b34e8..603e2f7 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -3,6 +3,7 @@ use crate::session::Session;
 use crate::transport::ServerStream;
 use async_channel::{unbounded, Receiver, Sender};
 use futures_lite::*;
+use serde::de::Error;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
@@ -42,8 +43,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(JsonCodingError::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
-- 
2.43.0


From 235e5824bbcbced2b2a4437890198757ea0b55b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:44 +0000
Subject: [PATCH 33/56] verif hooks: a reset is told once, what waits can be
 refused

---
 remote/src/transport/verif.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/remote/src/transport/verif.rs b/remote/src/transport/verif.rs
index 722af73..6ec919a 100644
--- a/remote/src/transport/verif.rs
+++ b/remote/src/transport/verif.rs
@@ -91,6 +91,10 @@ impl MemoryStream {
     ) -> Poll<io::Result<usize>> {
         let mut end = self.input.lock().unwrap();
         if end.broken {
+            // told once, as by a socket
+            end.broken = false;
+            end.closed = true;
+            end.bytes.clear();
             return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
         }
         if end.bytes.is_empty() && !end.closed {
-- 
2.43.0


From abbfdbd7470c05a9bb20a3dd416838213a82cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:33 +0000
Subject: [PATCH 34/56] verif hooks: what the terminal draws

---
 core/src/tui.rs | 75 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..c5aecdf 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -1,5 +1,8 @@
+#[cfg(not(ced_verif))]
 use std::io::{self, Write};
 
+#[cfg(ced_verif)]
+use self::verif::io::{self, Write};
 use async_channel::bounded;
 use async_executor::LocalExecutor;
 use crossterm::{
@@ -447,3 +450,75 @@ impl Drop for Term {
             .map_err(|e| eprintln!("revert terminal state: {}", e));
     }
 }
+
+#[cfg(ced_verif)]
+pub mod verif {
+    use super::*;
+
+    /// What is drawn, for the harness.
+    pub mod io {
+        use std::cell::RefCell;
+        pub use std::io::*;
+
+        thread_local! {
+            static DRAWN: RefCell<Vec<u8>> = RefCell::new(Vec::new());
+        }
+
+        pub struct Drawn;
+
+        impl Write for Drawn {
+            fn write(&mut self, buf: &[u8]) -> Result<usize> {
+                DRAWN.with(|d| d.borrow_mut().extend(buf));
+                Ok(buf.len())
+            }
+
+            fn flush(&mut self) -> Result<()> {
+                Ok(())
+            }
+        }
+
+        pub fn stdout() -> Drawn {
+            Drawn
+        }
+
+        pub fn drawn() -> Vec<u8> {
+            DRAWN.with(|d| std::mem::take(&mut *d.borrow_mut()))
+        }
+    }
+
+    impl Term {
+        pub fn verif_new(connection: Connection, size: (u16, u16)) -> Term {
+            Term {
+                connection,
+                exit_pending: false,
+                last_size: size,
+            }
+        }
+
+        pub fn verif_connection(&self) -> &Connection {
+            &self.connection
+        }
+
+        /// What `start` does with an event of the connection.
+        pub fn verif_event(&mut self, event: ConnectionEvent) {
+            use ConnectionEvent::*;
+            match event {
+                Echo(_) | View(_) => self.draw_view().unwrap(),
+                Hint(hint) => self.draw_hint(&hint).unwrap(),
+                Menu(menu) => self.draw_menu(&menu).unwrap(),
+                Status(_) => self.draw_status(true).unwrap(),
+                ConnErr(message) => self.error(&message),
+                Info(_, _) | Noop => {}
+            }
+        }
+
+        /// What `start` does with an event of the terminal; whether to exit.
+        pub fn verif_input(&mut self, event: CEvent) -> bool {
+            match event {
+                CEvent::Resize(w, h) => self.resize(w, h).unwrap(),
+                event => self.handle_input(event).unwrap(),
+            }
+            self.exit_pending
+        }
+    }
+}
-- 
2.43.0


From 76815c8aa171ccdd71feddc1041448487cc4df46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:04 +0000
Subject: [PATCH 35/56] fix: draw a view in the space there is, whatever its
 texts

---
 core/src/tui.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index c5aecdf..7852748 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -14,7 +14,7 @@ use crossterm::{
     Result as CTResult,
 };
 use futures_lite::*;
-use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, TextFragment};
+use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
 fn logline(msg: impl std::fmt::Display) {
@@ -71,6 +71,21 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+/// The start of a text, at most `width` characters.
+fn clip(text: &Text, width: usize) -> Text {
+    let mut left = width;
+    let mut fragments = Vec::new();
+    for tf in text.iter() {
+        let text: String = tf.text.chars().take(left).collect();
+        left -= text.chars().count();
+        fragments.push(TextFragment {
+            text,
+            face: tf.face.clone(),
+        });
+    }
+    fragments.into()
+}
+
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
@@ -194,24 +209,19 @@ impl Term {
         let mut i = 0;
         let mut content = Vec::new();
         'outer: for item in &state.view {
-            let buffer = &item.buffer;
-            let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
-            content.push(format!("-[{}][{}]{}", buffer, coords, padding));
+            if i == height.saturating_sub(1) {
+                break;
+            }
+            let header = format!("-[{}][{}:{}]", item.buffer, item.start, item.end);
+            content.push(format!("{:-<1$.1$}", header, width as usize));
             i += 1;
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if i == height.saturating_sub(1) {
                         break 'outer;
                     }
-                    let rendered = line.render(format_text);
-                    let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
-                    } else {
-                        &rendered
-                    };
-                    content.push(line_view.to_string());
+                    content.push(clip(line, width as usize).render(format_text));
                     i += 1;
                 }
             }
-- 
2.43.0


From 7859664ee4945fdb6bed9b325ddcdf85ad9f029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 36/56] fix: draw a hint in the space there is

---
 core/src/tui.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 7852748..00f2105 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -237,12 +237,13 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
+        let width_h = hint.text.first().map_or(0, |l| l.plain().chars().count());
+        let width_h = width_h.min(width_w as usize);
+        let height_h = hint.text.len().min(height_w as usize);
         let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
+        let mut y = height_w - height_h as u16;
         for line in &hint.text {
-            // TODO clamp to screen size (or less?)
-            let text = line.render(format_text);
+            let text = clip(line, width_h).render(format_text);
             queue!(
                 stdout,
                 cursor::MoveTo(x, y),
-- 
2.43.0


From 012dd81e18c8c597b54e63b90405d67001ae27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 37/56] fix: draw a menu in the space there is

---
 core/src/tui.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 00f2105..59a3998 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -263,34 +263,30 @@ impl Term {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
         let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let title = format!("{:<1$.1$}", title, width as usize);
 
         queue!(
             stdout,
             Clear(ClearType::All),
             cursor::MoveTo(0, 0),
-            PrintStyledContent(style(title + &padding).reverse())
+            PrintStyledContent(style(title).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1) as usize;
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
                 }
-                let item = &menu.entries[i].text.render(|tf| match tf.face {
+                let text = clip(&menu.entries[i].text, width as usize);
+                let item = text.render(|tf| match tf.face {
                     Face::Match => style(&tf.text).underlined().to_string(),
                     _ => tf.text.to_owned(),
                 });
 
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
-                } else {
-                    &item
-                };
                 let item_print = if i == menu.selected {
-                    PrintStyledContent(style(item_view).reverse())
+                    PrintStyledContent(style(item).reverse())
                 } else {
-                    PrintStyledContent(style(item_view))
+                    PrintStyledContent(style(item))
                 };
                 queue!(
                     stdout,
-- 
2.43.0


From b4ef018dd83b122139b39e5ee32dd5812cceaf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:09 +0000
Subject: [PATCH 38/56] fix: draw the end of the status when it is too long

---
 core/src/tui.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 59a3998..ceb9b93 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -312,13 +312,18 @@ impl Term {
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
             .join("·");
-        let text = if echo.text_len() >= width as usize {
+        let width = width as usize;
+        let echo = clip(&echo, width);
+        let echo_len = echo.plain().chars().count();
+        let status_len = status.chars().count();
+        let text = if echo_len >= width {
             echo.render(format_text)
-        } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+        } else if echo_len + status_len >= width {
+            let skip = echo_len + status_len + 1 - width;
+            let end: String = status.chars().skip(skip).collect();
+            format!("{} {}", echo.render(format_text), end)
         } else {
-            let padding = width as usize - echo.text_len() - status.len();
+            let padding = width - echo_len - status_len;
             format!(
                 "{}{}{}",
                 echo.render(format_text),
-- 
2.43.0


From b49f50bf863760e0238d20aac4165a094b70f8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:11 +0000
Subject: [PATCH 39/56] fix: an error of the front end is sent as a string, to
 its client

---
 core/src/tui.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index ceb9b93..c64a472 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -142,7 +142,7 @@ impl Term {
                             tx.send(Event::Resize((w, h))).await.expect("send event")
                         }
                         Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
+                            .send(Event::Error(format!("event read: {}", e)))
                             .await
                             .expect("send event"),
                     }
@@ -197,7 +197,10 @@ impl Term {
     }
 
     fn error(&mut self, message: &str) {
-        self.connection.exec(&format!("editor:error({})", message));
+        self.connection.exec(&format!(
+            "editor:error(tonumber(env.client), {:?})",
+            message
+        ));
     }
 
     fn draw_view(&mut self) -> CTResult<()> {
-- 
2.43.0


From 1c8713473289c836f7b1c5d2e132152c714f6746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:20 +0000
Subject: [PATCH 40/56] fix: the JSON client writes each message on a line, at
 once

---
 core/src/clients.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..97f1ebc 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -80,7 +80,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
-- 
2.43.0


From cafa2dde131d09cd8680d88e94b3e56fb0c1d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:20 +0000
Subject: [PATCH 41/56] verif hooks: the JSON client's console and what it
 waits for

---
 core/src/clients.rs | 113 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 113 insertions(+)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 97f1ebc..8addd7b 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -4,10 +4,14 @@ use std::thread;
 use crate::editor::Editor;
 use async_channel::{bounded, Sender};
 use async_executor::LocalExecutor;
+#[cfg(not(ced_verif))]
 use blocking::Unblock;
 use futures_lite::*;
 use remote::{protocol::requests::EditParams, Client, Request, Session};
 
+#[cfg(ced_verif)]
+use self::verif::{future, Unblock};
+
 const CLIENT_ID: usize = 1;
 
 pub fn start_standalone(filenames: &[&str]) {
@@ -91,3 +95,112 @@ impl StdioClient {
         }))
     }
 }
+
+#[cfg(ced_verif)]
+pub mod verif {
+    //! Standard streams in memory for the verification harness (`--cfg ced_verif`).
+    use futures_lite::{AsyncRead, AsyncWrite};
+    use remote::verif::MemoryStream;
+    use remote::ServerStream;
+    use std::cell::RefCell;
+    use std::io;
+    use std::pin::Pin;
+    use std::task::{Context, Poll};
+
+    thread_local! {
+        static CONSOLE: RefCell<Option<MemoryStream>> = RefCell::new(None);
+        #[allow(clippy::type_complexity)]
+        static IDLE: RefCell<Option<Box<dyn FnMut()>>> = RefCell::new(None);
+    }
+
+    /// The client reads and writes this stream, and `idle` is called when it waits.
+    pub fn console(stream: MemoryStream, idle: Box<dyn FnMut()>) {
+        CONSOLE.with(|c| *c.borrow_mut() = Some(stream));
+        IDLE.with(|c| *c.borrow_mut() = Some(idle));
+    }
+
+    /// Stands for a standard stream. What is written is seen once flushed.
+    pub struct Unblock {
+        stream: ServerStream,
+        written: Vec<u8>,
+    }
+
+    impl Unblock {
+        pub fn new<T>(_: T) -> Unblock {
+            let stream = CONSOLE.with(|c| c.borrow().clone()).expect("console");
+            Unblock {
+                stream: ServerStream::Memory(stream),
+                written: Vec::new(),
+            }
+        }
+    }
+
+    impl AsyncRead for Unblock {
+        fn poll_read(
+            mut self: Pin<&mut Self>,
+            cx: &mut Context<'_>,
+            buf: &mut [u8],
+        ) -> Poll<io::Result<usize>> {
+            Pin::new(&mut self.stream).poll_read(cx, buf)
+        }
+    }
+
+    impl AsyncWrite for Unblock {
+        fn poll_write(
+            mut self: Pin<&mut Self>,
+            _: &mut Context<'_>,
+            buf: &[u8],
+        ) -> Poll<io::Result<usize>> {
+            self.written.extend_from_slice(buf);
+            Poll::Ready(Ok(buf.len()))
+        }
+
+        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+            while !self.written.is_empty() {
+                let Unblock { stream, written } = &mut *self;
+                match Pin::new(stream).poll_write(cx, written) {
+                    Poll::Ready(Ok(n)) => drop(written.drain(..n)),
+                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                    Poll::Pending => return Poll::Pending,
+                }
+            }
+            Poll::Ready(Ok(()))
+        }
+
+        fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+            self.poll_flush(cx)
+        }
+    }
+
+    /// Runs a future as `futures_lite::future` does, with the harness in place of what it waits for.
+    pub mod future {
+        pub use futures_lite::future::Future;
+        use std::sync::atomic::{AtomicBool, Ordering};
+        use std::sync::Arc;
+        use std::task::{Context, Poll, Wake, Waker};
+
+        struct Woken(AtomicBool);
+
+        impl Wake for Woken {
+            fn wake(self: Arc<Self>) {
+                self.0.store(true, Ordering::SeqCst);
+            }
+        }
+
+        pub fn block_on<T>(future: impl Future<Output = T>) -> T {
+            let woken = Arc::new(Woken(AtomicBool::new(true)));
+            let waker = Waker::from(woken.clone());
+            let mut future = Box::pin(future);
+            let mut idle = super::IDLE.with(|i| i.borrow_mut().take()).expect("idle");
+            loop {
+                if !woken.0.swap(false, Ordering::SeqCst) {
+                    idle();
+                    continue;
+                }
+                if let Poll::Ready(value) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
+                    return value;
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From ff210be973e20635173fd964439be91b7658d44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:50 +0000
Subject: [PATCH 42/56] fix: hints are measured in characters, make room for
 their title and leave their lines alone

---
 core/scripts/editor.lua | 10 +++++++---
 core/scripts/utils.lua  | 11 +++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/scripts/editor.lua b/core/scripts/editor.lua
index 58c0c39..2e2aaa0 100644
--- a/core/scripts/editor.lua
+++ b/core/scripts/editor.lua
@@ -62,20 +62,24 @@ end
 ---@param client_id integer
 ---@param lines string[]
 function Editor:show_hint(client_id, lines, framed)
+    -- what the caller holds is left alone
+    lines = { table.unpack(lines) }
     local width = utils.max_length(lines)
     if framed then
+        -- the title is between spaces
+        width = math.max(width, utils.length(lines[1] or "") + 2)
         for i, line in ipairs(lines) do
             if i == 1 then
-                lines[i] = string.format("╭─ %s %s─╮", line, string.rep("─", width - #line - 2))
+                lines[i] = string.format("╭─ %s %s─╮", line, string.rep("─", width - utils.length(line) - 2))
             else
-                local padded = line .. string.rep(" ", width - #line)
+                local padded = line .. string.rep(" ", width - utils.length(line))
                 lines[i] = string.format("│ %s │", padded)
             end
         end
         table.insert(lines, "╰─" .. string.rep("─", width) .. "─╯")
     else
         for i, line in ipairs(lines) do
-            lines[i] = line .. string.rep(" ", width - #line)
+            lines[i] = line .. string.rep(" ", width - utils.length(line))
         end
     end
 
diff --git a/core/scripts/utils.lua b/core/scripts/utils.lua
index ea77462..59107cb 100644
--- a/core/scripts/utils.lua
+++ b/core/scripts/utils.lua
@@ -34,11 +34,18 @@ local function stringify(val)
 end
 M.stringify = stringify
 
+---@param value string
+---@return integer number of characters
+local function length(value)
+    return utf8.len(value) or #value
+end
+M.length = length
+
 local function max_length(values)
     local max = 0
     for _, it in ipairs(values) do
-        if #it > max then
-            max = #it
+        if length(it) > max then
+            max = length(it)
         end
     end
     return max
-- 
2.43.0


From bcb05b164dc43f407b1c333fc7e5ab8d5ef2bd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:47 +0000
Subject: [PATCH 43/56] verif hooks: the terminal and its events

---
 core/src/clients.rs |  5 +++
 core/src/tui.rs     | 91 +++++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 93 insertions(+), 3 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 8addd7b..99c4abf 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -116,6 +116,11 @@ pub mod verif {
     /// The client reads and writes this stream, and `idle` is called when it waits.
     pub fn console(stream: MemoryStream, idle: Box<dyn FnMut()>) {
         CONSOLE.with(|c| *c.borrow_mut() = Some(stream));
+        waits(idle);
+    }
+
+    /// What is called when a client waits.
+    pub fn waits(idle: Box<dyn FnMut()>) {
         IDLE.with(|c| *c.borrow_mut() = Some(idle));
     }
 
diff --git a/core/src/tui.rs b/core/src/tui.rs
index c64a472..02a7b20 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -2,17 +2,24 @@
 use std::io::{self, Write};
 
 #[cfg(ced_verif)]
-use self::verif::io::{self, Write};
+use self::verif::{
+    io::{self, Write},
+    terminal, EventStream,
+};
+#[cfg(ced_verif)]
+use crate::clients::verif::future;
 use async_channel::bounded;
 use async_executor::LocalExecutor;
 use crossterm::{
     cursor,
-    event::{Event as CEvent, EventStream, KeyCode as CKeyCode, KeyModifiers as CKeyModifiers},
+    event::{Event as CEvent, KeyCode as CKeyCode, KeyModifiers as CKeyModifiers},
     execute, queue,
     style::{style, Print, PrintStyledContent, Stylize},
-    terminal::{self, Clear, ClearType},
+    terminal::{Clear, ClearType},
     Result as CTResult,
 };
+#[cfg(not(ced_verif))]
+use crossterm::{event::EventStream, terminal};
 use futures_lite::*;
 use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
@@ -501,6 +508,84 @@ pub mod verif {
         }
     }
 
+    /// The terminal, as the harness has it.
+    pub mod terminal {
+        pub use crossterm::terminal::*;
+        use crossterm::Result;
+        use std::cell::Cell;
+
+        thread_local! {
+            static SIZE: Cell<(u16, u16)> = Cell::new((80, 25));
+        }
+
+        pub fn set_size(size: (u16, u16)) {
+            SIZE.with(|s| s.set(size));
+        }
+
+        pub fn size() -> Result<(u16, u16)> {
+            Ok(SIZE.with(|s| s.get()))
+        }
+
+        pub fn enable_raw_mode() -> Result<()> {
+            Ok(())
+        }
+
+        pub fn disable_raw_mode() -> Result<()> {
+            Ok(())
+        }
+    }
+
+    #[derive(Default)]
+    struct Inputs {
+        events: std::collections::VecDeque<CTResult<CEvent>>,
+        waker: Option<std::task::Waker>,
+    }
+
+    thread_local! {
+        static INPUTS: std::cell::RefCell<Inputs> = Default::default();
+    }
+
+    /// Something happens in the terminal.
+    pub fn input(event: CTResult<CEvent>) {
+        INPUTS.with(|i| {
+            let mut inputs = i.borrow_mut();
+            inputs.events.push_back(event);
+            if let Some(waker) = inputs.waker.take() {
+                waker.wake();
+            }
+        });
+    }
+
+    /// What happens in the terminal.
+    pub struct EventStream;
+
+    impl EventStream {
+        #[allow(clippy::new_without_default)]
+        pub fn new() -> EventStream {
+            EventStream
+        }
+    }
+
+    impl Stream for EventStream {
+        type Item = CTResult<CEvent>;
+
+        fn poll_next(
+            self: std::pin::Pin<&mut Self>,
+            cx: &mut std::task::Context<'_>,
+        ) -> std::task::Poll<Option<Self::Item>> {
+            INPUTS.with(|i| {
+                let mut inputs = i.borrow_mut();
+                match inputs.events.pop_front() {
+                    Some(event) => std::task::Poll::Ready(Some(event)),
+                    None => {
+                        inputs.waker = Some(cx.waker().clone());
+                        std::task::Poll::Pending
+                    }
+                }
+            })
+        }
+    }
+
     impl Term {
         pub fn verif_new(connection: Connection, size: (u16, u16)) -> Term {
             Term {
-- 
2.43.0


From f060d9c888c3549381125bd81d47aecff772cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:37 +0000
Subject: [PATCH 44/56] fix: the terminal front end does not write a log in the
 current directory

---
 core/src/tui.rs | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 02a7b20..20ed754 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -24,20 +24,6 @@ use futures_lite::*;
 use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
-fn logline(msg: impl std::fmt::Display) {
-    use std::fs::OpenOptions;
-
-    let mut file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("log.txt")
-        .expect("open file");
-
-    if let Err(e) = writeln!(file, "{}", msg) {
-        eprintln!("Couldn't write to file: {}", e);
-    }
-}
-
 struct ToKey(Option<KeyEvent>);
 
 impl From<CEvent> for ToKey {
@@ -112,13 +98,12 @@ pub struct Term {
 
 impl Term {
     pub fn new(session: Session, filenames: &[&str]) -> Term {
-        logline("----------");
         let mut term = Term {
             connection: Connection::new(session),
             exit_pending: false,
             last_size: terminal::size().expect("get terminal"),
         };
-        logline("new connection");
+        log::trace!("new connection");
         for fname in filenames {
             term.connection.edit(fname.to_string(), false);
         }
@@ -139,7 +124,7 @@ impl Term {
                 let tx = events_tx;
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
-                    logline(format!("new input: {:?}", event));
+                    log::trace!("new input: {:?}", event);
                     match event {
                         Ok(ev @ CEvent::Key(_)) => {
                             tx.send(Event::Input(ev)).await.expect("send event")
@@ -163,7 +148,7 @@ impl Term {
             ex.spawn(async move {
                 let tx = messages_tx;
                 while let Some(msg) = messages.next().await {
-                    logline(format!("new message: {:?}", msg));
+                    log::trace!("new message: {:?}", msg);
                     use ConnectionEvent::*;
                     match msg {
                         Echo(_) | View(_) => tx.send(Event::DrawView).await.expect("send event"),
@@ -175,13 +160,13 @@ impl Term {
                         Noop => {}
                     }
                 }
-                logline("connection lost");
+                log::trace!("connection lost");
                 tx.close();
             })
             .detach();
 
             while let Ok(event) = rx.recv().await {
-                logline(format!("new event: {:?}", event));
+                log::trace!("new event: {:?}", event);
                 use Event::*;
                 match event {
                     DrawMenu(menu) => self.draw_menu(&menu).expect("draw menu"),
-- 
2.43.0


From 4fa50d0d47cf2d441a70f959b7a9c6dade1a22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:39 +0000
Subject: [PATCH 45/56] fix: an event of the terminal once the connection is
 lost is no failure

---
 core/src/tui.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 20ed754..9ff4b5e 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -125,18 +125,15 @@ impl Term {
                 let mut reader = EventStream::new();
                 while let Some(event) = reader.next().await {
                     log::trace!("new input: {:?}", event);
-                    match event {
-                        Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
-                        }
-                        Ok(CEvent::Mouse(_)) => {}
-                        Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
-                        }
-                        Err(e) => tx
-                            .send(Event::Error(format!("event read: {}", e)))
-                            .await
-                            .expect("send event"),
+                    let event = match event {
+                        Ok(ev @ CEvent::Key(_)) => Event::Input(ev),
+                        Ok(CEvent::Mouse(_)) => continue,
+                        Ok(CEvent::Resize(w, h)) => Event::Resize((w, h)),
+                        Err(e) => Event::Error(format!("event read: {}", e)),
+                    };
+                    if tx.send(event).await.is_err() {
+                        // the connection is lost
+                        break;
                     }
                 }
             })
-- 
2.43.0


From 124fb0c1f2dda99d7912c756934fbea9e8d6988e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 46/56] fix: a menu stays on the screen while it is open,
 whatever arrives meanwhile

---
 core/src/tui.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 9ff4b5e..c8e105e 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -82,9 +82,8 @@ fn clip(text: &Text, width: usize) -> Text {
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
-    DrawMenu(Menu),
+    Draw,
     DrawStatus,
-    DrawView,
     Error(String),
     Input(CEvent),
     Resize((u16, u16)),
@@ -148,10 +147,11 @@ impl Term {
                     log::trace!("new message: {:?}", msg);
                     use ConnectionEvent::*;
                     match msg {
-                        Echo(_) | View(_) => tx.send(Event::DrawView).await.expect("send event"),
+                        Echo(_) | Menu(_) | View(_) => {
+                            tx.send(Event::Draw).await.expect("send event")
+                        }
                         Hint(hint) => tx.send(Event::DrawHint(hint)).await.expect("send event"),
                         Info(_, _) => {}
-                        Menu(menu) => tx.send(Event::DrawMenu(menu)).await.expect("send event"),
                         Status(_) => tx.send(Event::DrawStatus).await.expect("send event"),
                         ConnErr(msg) => tx.send(Event::Error(msg)).await.expect("send event"),
                         Noop => {}
@@ -166,10 +166,14 @@ impl Term {
                 log::trace!("new event: {:?}", event);
                 use Event::*;
                 match event {
-                    DrawMenu(menu) => self.draw_menu(&menu).expect("draw menu"),
-                    DrawView => self.draw_view().expect("draw view"),
+                    Draw => self.draw().expect("draw"),
                     DrawHint(h) => self.draw_hint(&h).expect("draw hint"),
-                    DrawStatus => self.draw_status(true).expect("draw view"),
+                    DrawStatus => {
+                        let state = self.connection.state();
+                        if state.menu.is_none() || state.echo.is_some() {
+                            self.draw_status(true).expect("draw status")
+                        }
+                    }
                     Error(msg) => self.error(&msg),
                     Input(ev) => self.handle_input(ev).expect("handle input"),
                     Resize((w, h)) => self.resize(w, h).expect("resize"),
@@ -192,6 +196,21 @@ impl Term {
         ));
     }
 
+    /// Draw the menu if there is one, with a message over it if there is one, else the view.
+    fn draw(&mut self) -> CTResult<()> {
+        let state = self.connection.state();
+        match state.menu {
+            Some(menu) => {
+                self.draw_menu(&menu)?;
+                if state.echo.is_some() {
+                    self.draw_status(true)?;
+                }
+                Ok(())
+            }
+            None => self.draw_view(),
+        }
+    }
+
     fn draw_view(&mut self) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = self.last_size;
@@ -339,10 +358,7 @@ impl Term {
         let current = (w, h);
         if self.last_size != current {
             self.last_size = current;
-            match self.connection.state().menu {
-                Some(menu) => self.draw_menu(&menu)?,
-                None => self.draw_view()?,
-            }
+            self.draw()?;
         }
         Ok(())
     }
@@ -372,13 +388,11 @@ impl Term {
                 }
                 KeyEvent { key: Key::Up, .. } => {
                     self.connection.action_menu_select_previous();
-                    let new_menu = self.connection.state().menu.unwrap();
-                    self.draw_menu(&new_menu)?;
+                    self.draw()?;
                 }
                 KeyEvent { key: Key::Down, .. } => {
                     self.connection.action_menu_select_next();
-                    let new_menu = self.connection.state().menu.unwrap();
-                    self.draw_menu(&new_menu)?;
+                    self.draw()?;
                 }
                 KeyEvent {
                     key: Key::Char(c), ..
@@ -585,9 +599,8 @@ pub mod verif {
         pub fn verif_event(&mut self, event: ConnectionEvent) {
             use ConnectionEvent::*;
             match event {
-                Echo(_) | View(_) => self.draw_view().unwrap(),
+                Echo(_) | Menu(_) | View(_) => self.draw().unwrap(),
                 Hint(hint) => self.draw_hint(&hint).unwrap(),
-                Menu(menu) => self.draw_menu(&menu).unwrap(),
                 Status(_) => self.draw_status(true).unwrap(),
                 ConnErr(message) => self.error(&message),
                 Info(_, _) | Noop => {}
-- 
2.43.0


From 184533a2967a559243e0d7f1d890b8b82862a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 47/56] verif hooks: programs which are started

---
 remote/src/lib.rs | 104 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 104 insertions(+)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index 9dc2306..c687b16 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -13,8 +13,12 @@ mod transport;
 
 use std::env;
 use std::io::{self, BufRead, BufReader};
+#[cfg(not(ced_verif))]
 use std::process::{Command, Stdio};
 
+#[cfg(ced_verif)]
+use self::process::{Command, Stdio};
+
 pub use self::client::{Client, ClientEventResult, ClientEventStream};
 pub use self::connection::{Connection, ConnectionEvent, ConnectionState, Menu};
 pub use self::jsonrpc::{ClientEvent, Id, Request};
@@ -91,3 +95,103 @@ pub fn ensure_session(session: &Session) -> io::Result<()> {
     }
     Ok(())
 }
+
+#[cfg(ced_verif)]
+pub mod process {
+    //! Programs which are started, as the verification harness has them (`--cfg ced_verif`).
+    use std::cell::RefCell;
+    use std::io::{self, Read};
+
+    /// What a program was started with.
+    #[derive(Clone, Debug, Default)]
+    pub struct Command {
+        pub program: String,
+        pub args: Vec<String>,
+        pub stdin: Option<Stdio>,
+        pub stdout: Option<Stdio>,
+        pub stderr: Option<Stdio>,
+    }
+
+    #[derive(Clone, Copy, Debug, PartialEq)]
+    pub enum Stdio {
+        Null,
+        Piped,
+        Inherit,
+    }
+
+    pub struct Child {
+        pub id: u32,
+        pub stdout: Option<Box<dyn Read>>,
+    }
+
+    type Start = Box<dyn FnMut(&Command) -> io::Result<Child>>;
+
+    thread_local! {
+        static START: RefCell<Option<Start>> = RefCell::new(None);
+    }
+
+    /// What happens when a program is started.
+    pub fn starts(start: Start) {
+        START.with(|s| *s.borrow_mut() = Some(start));
+    }
+
+    impl Stdio {
+        pub fn null() -> Stdio {
+            Stdio::Null
+        }
+
+        pub fn piped() -> Stdio {
+            Stdio::Piped
+        }
+
+        pub fn inherit() -> Stdio {
+            Stdio::Inherit
+        }
+    }
+
+    impl Command {
+        pub fn new(program: impl AsRef<str>) -> Command {
+            Command {
+                program: program.as_ref().to_owned(),
+                ..Command::default()
+            }
+        }
+
+        pub fn arg(&mut self, arg: impl AsRef<str>) -> &mut Command {
+            self.args.push(arg.as_ref().to_owned());
+            self
+        }
+
+        pub fn args<S: AsRef<str>>(&mut self, args: impl IntoIterator<Item = S>) -> &mut Command {
+            for arg in args {
+                self.arg(arg);
+            }
+            self
+        }
+
+        pub fn stdin(&mut self, stdio: Stdio) -> &mut Command {
+            self.stdin = Some(stdio);
+            self
+        }
+
+        pub fn stdout(&mut self, stdio: Stdio) -> &mut Command {
+            self.stdout = Some(stdio);
+            self
+        }
+
+        pub fn stderr(&mut self, stdio: Stdio) -> &mut Command {
+            self.stderr = Some(stdio);
+            self
+        }
+
+        pub fn spawn(&mut self) -> io::Result<Child> {
+            START.with(|s| (s.borrow_mut().as_mut().expect("starts"))(self))
+        }
+    }
+
+    impl Child {
+        pub fn id(&self) -> u32 {
+            self.id
+        }
+    }
+}
-- 
2.43.0


From 0c719be1495b9d831bc8cc877a04b4181bb20cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:11 +0000
Subject: [PATCH 48/56] fix: a server which ends before it is ready is reported

---
 remote/src/lib.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index c687b16..5c287de 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -66,22 +66,29 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let pid = prg.id();
 
     //  Once ready to accept connections the server send an empty line on stdout.
+    let mut ready = false;
     if let Some(stdout) = prg.stdout {
         for line in BufReader::new(stdout).lines() {
-            let should_stop = match line {
+            ready = match line {
                 Ok(l) => l.is_empty(),
                 Err(err) => {
                     log::error!("failed to read stdout: {}", err);
-                    true
+                    break;
                 }
             };
-            if should_stop {
+            if ready {
                 break;
             }
         }
     } else {
         log::error!("could not capture stdout");
     }
+    if !ready {
+        return Err(io::Error::new(
+            io::ErrorKind::Other,
+            format!("server ended before it was ready: {} {:?}", bin, args),
+        ));
+    }
 
     log::info!("server command: {} {:?}", bin, args);
     Ok(pid)
-- 
2.43.0


From a0f3279ed5fee75d8573f66e88d677c43f478cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 49/56] verif hooks: addresses which are taken and clients
 which fail to connect

---
 remote/src/transport/server_listener.rs |  2 +-
 remote/src/transport/verif.rs           | 26 +++++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/remote/src/transport/server_listener.rs b/remote/src/transport/server_listener.rs
index 00d1868..045deaa 100644
--- a/remote/src/transport/server_listener.rs
+++ b/remote/src/transport/server_listener.rs
@@ -20,7 +20,7 @@ pub enum ServerListener {
 impl ServerListener {
     pub async fn bind(session: &Session) -> io::Result<ServerListener> {
         #[cfg(ced_verif)]
-        return Ok(ServerListener::Memory);
+        return crate::transport::verif::bind().map(|_| ServerListener::Memory);
         #[cfg(not(ced_verif))]
         match &session.mode {
             ConnectionMode::Socket(path) => {
diff --git a/remote/src/transport/verif.rs b/remote/src/transport/verif.rs
index 6ec919a..1d181be 100644
--- a/remote/src/transport/verif.rs
+++ b/remote/src/transport/verif.rs
@@ -125,7 +125,8 @@ impl MemoryStream {
 #[derive(Debug, Default)]
 struct Network {
     connecting: VecDeque<MemoryStream>,
-    accepting: VecDeque<MemoryStream>,
+    accepting: VecDeque<io::Result<MemoryStream>>,
+    taken: bool,
     waker: Option<Waker>,
 }
 
@@ -140,6 +141,15 @@ pub fn connects(stream: MemoryStream) {
 
 /// The server accepts this stream.
 pub fn accepts(stream: MemoryStream) {
+    accept(Ok(stream))
+}
+
+/// The server fails to accept a client.
+pub fn accept_fails() {
+    accept(Err(io::ErrorKind::Other.into()))
+}
+
+fn accept(stream: io::Result<MemoryStream>) {
     NETWORK.with(|n| {
         let mut network = n.borrow_mut();
         network.accepting.push_back(stream);
@@ -164,7 +174,7 @@ pub(crate) fn poll_accept(cx: &mut Context<'_>) -> Poll<io::Result<MemoryStream>
     NETWORK.with(|n| {
         let mut network = n.borrow_mut();
         match network.accepting.pop_front() {
-            Some(stream) => Poll::Ready(Ok(stream)),
+            Some(stream) => Poll::Ready(stream),
             None => {
                 network.waker = Some(cx.waker().clone());
                 Poll::Pending
@@ -172,3 +182,15 @@ pub(crate) fn poll_accept(cx: &mut Context<'_>) -> Poll<io::Result<MemoryStream>
         }
     })
 }
+
+/// The address of a server is taken.
+pub fn taken() {
+    NETWORK.with(|n| n.borrow_mut().taken = true);
+}
+
+pub(crate) fn bind() -> io::Result<()> {
+    if NETWORK.with(|n| n.borrow().taken) {
+        return Err(io::ErrorKind::AddrInUse.into());
+    }
+    Ok(())
+}
-- 
2.43.0


From ccc410db5a54f848c6a4c3c91f18af741fee1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 50/56] fix: a server whose session is taken says so and leaves
 it alone

---
 core/src/server.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 70c66cb..dcd023c 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -212,9 +212,12 @@ impl Server {
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender))
-                .detach();
+            let mut serving = ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender));
             Self::handle_events(ex.clone(), self.session.to_string(), receiver).await;
+            // the session is of another server if this one could not bind it
+            if let Some(Err(e)) = future::poll_once(&mut serving).await {
+                return Err(e);
+            }
 
             log::info!("no more client, exiting...");
             if let ConnectionMode::Socket(path) = &self.session.mode {
-- 
2.43.0


From 8c04c16b29d20356b74597c9aa074bdf775a7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 51/56] fix: a client which fails to connect does not end the
 server

---
 core/src/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index dcd023c..0afac0b 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -191,7 +191,13 @@ impl Server {
         log::trace!("ready to accept incoming connections");
         while let Some(stream) = incoming.next().await {
             log::trace!("incoming connection");
-            let stream = stream.expect("error while accepting a new client");
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    log::error!("error while accepting a new client: {}", e);
+                    continue;
+                }
+            };
             let sender = sender.clone();
             log::trace!("connection ready");
             sender
-- 
2.43.0


From 45e3c33cae2870a17d1612627544e338c589ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:10 +0000
Subject: [PATCH 52/56] fix: a menu entry as wide as the screen keeps its last
 character

---
 core/src/tui.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index c8e105e..c6c7c7e 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -299,12 +299,7 @@ impl Term {
                 } else {
                     PrintStyledContent(style(item))
                 };
-                queue!(
-                    stdout,
-                    cursor::MoveTo(0, 1 + i as u16),
-                    item_print,
-                    Clear(ClearType::UntilNewLine)
-                )?;
+                queue!(stdout, cursor::MoveTo(0, 1 + i as u16), item_print)?;
             }
         }
         stdout.flush()?;
-- 
2.43.0


From aad7c78c585fd66a133a3c7c7df9a5ea07775f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:16 +0000
Subject: [PATCH 53/56] fix: a standalone editor shows its last notifications
 before it ends

---
 core/src/clients.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 99c4abf..aa80c9f 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -28,8 +28,8 @@ pub fn start_standalone(filenames: &[&str]) {
             .command_edit(CLIENT_ID, &params)
             .map_err(|err| log::error!("could not open file '{}': {}", fname, err));
     }
-    thread::spawn(move || loop {
-        if let Ok(bm) = future::block_on(rx.recv()) {
+    let notifications = thread::spawn(move || {
+        while let Ok(bm) = future::block_on(rx.recv()) {
             if bm.should_notify(CLIENT_ID) {
                 println!("{}", &bm.message);
             }
@@ -48,6 +48,9 @@ pub fn start_standalone(filenames: &[&str]) {
     }
 
     editor.remove_client(CLIENT_ID);
+    // what it still has to say is shown before the end
+    drop(editor);
+    let _ = notifications.join();
 }
 
 pub struct StdioClient {
-- 
2.43.0


From 5ed02862a670ea2234496e5bc16388e8f2e92c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:29 +0000
Subject: [PATCH 54/56] fix: a console which cannot be read any more ends the
 input instead of being read for ever

---
 core/src/clients.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index aa80c9f..976c873 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -43,7 +43,13 @@ pub fn start_standalone(filenames: &[&str]) {
                 Ok(response) => println!("{}", &response),
                 Err(e) => eprintln!("{}: {:?}", e, line),
             },
-            Err(e) => eprintln!("failed to read line: {}", e),
+            Err(e) => {
+                eprintln!("failed to read line: {}", e);
+                // a line may be no text, any other error would come back for ever
+                if e.kind() != io::ErrorKind::InvalidData {
+                    break;
+                }
+            }
         }
     }
 
@@ -78,7 +84,12 @@ impl StdioClient {
                             Ok(msg) => requests_tx.send(msg).await.expect("send request"),
                             Err(e) => log::error!("invalid message: {}: {}", e, line),
                         },
-                        Err(e) => log::error!("failed to read line from stdin: {}", e),
+                        Err(e) => {
+                            log::error!("failed to read line from stdin: {}", e);
+                            if e.kind() != io::ErrorKind::InvalidData {
+                                break;
+                            }
+                        }
                     }
                 }
             })
-- 
2.43.0


From 743a3e93f60d50118806a4a9b4d714992c9acb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:31 +0000
Subject: [PATCH 55/56] verif: threads and the console of a standalone editor
 as the harness has them (cfg ced_verif)

---
 core/src/clients.rs          |  82 +++++++++++++++-
 remote-ffi/src/connection.rs |  13 ++-
 remote/src/lib.rs            |   2 +
 remote/src/threads.rs        | 179 +++++++++++++++++++++++++++++++++++
 4 files changed, 269 insertions(+), 7 deletions(-)
 create mode 100644 remote/src/threads.rs

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 976c873..f2bc073 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -1,4 +1,4 @@
-use std::io::BufRead;
+use std::io::{stdin, BufRead};
 use std::thread;
 
 use crate::editor::Editor;
@@ -15,6 +15,11 @@ use self::verif::{future, Unblock};
 const CLIENT_ID: usize = 1;
 
 pub fn start_standalone(filenames: &[&str]) {
+    #[cfg(ced_verif)]
+    use self::verif::standalone::{println, stdin};
+    #[cfg(ced_verif)]
+    use remote::threads::{future, thread};
+
     let (tx, rx) = bounded(100);
     let mut editor = Editor::new("", tx);
 
@@ -36,7 +41,7 @@ pub fn start_standalone(filenames: &[&str]) {
         }
     });
 
-    let stdin = std::io::stdin();
+    let stdin = stdin();
     for maybe_line in stdin.lock().lines() {
         match maybe_line {
             Ok(line) => match editor.handle(CLIENT_ID, &line) {
@@ -73,7 +78,7 @@ impl StdioClient {
     pub fn run(&self) -> io::Result<()> {
         let ex = LocalExecutor::new();
         future::block_on(ex.run(async {
-            let stdin = Unblock::new(std::io::stdin());
+            let stdin = Unblock::new(stdin());
             let mut stdout = Unblock::new(std::io::stdout());
             let requests_tx = self.requests.clone();
             ex.spawn(async move {
@@ -191,6 +196,77 @@ pub mod verif {
         }
     }
 
+    pub mod standalone {
+        //! The console of a standalone editor.
+        use std::cell::RefCell;
+        use std::io::{self, BufRead, Cursor, Read};
+        use std::rc::Rc;
+
+        pub trait Console {
+            /// What is typed next: nothing at the end.
+            fn typed(&self) -> io::Result<Vec<u8>>;
+            fn shown(&self, line: String);
+        }
+
+        thread_local! {
+            static CONSOLE: RefCell<Option<Rc<dyn Console>>> = RefCell::new(None);
+        }
+
+        /// What a standalone editor reads and writes.
+        pub fn console(console: Rc<dyn Console>) {
+            CONSOLE.with(|c| *c.borrow_mut() = Some(console));
+        }
+
+        fn here() -> Rc<dyn Console> {
+            CONSOLE.with(|c| c.borrow().clone()).expect("console")
+        }
+
+        pub fn show(line: String) {
+            here().shown(line)
+        }
+
+        macro_rules! console_println {
+            ($($args:tt)*) => {
+                crate::clients::verif::standalone::show(format!($($args)*))
+            };
+        }
+        pub(crate) use console_println as println;
+
+        #[derive(Default)]
+        pub struct Stdin(Cursor<Vec<u8>>);
+
+        pub fn stdin() -> Stdin {
+            Stdin::default()
+        }
+
+        impl Stdin {
+            pub fn lock(self) -> Stdin {
+                self
+            }
+        }
+
+        impl Read for Stdin {
+            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+                let n = self.fill_buf()?.read(buf)?;
+                self.consume(n);
+                Ok(n)
+            }
+        }
+
+        impl BufRead for Stdin {
+            fn fill_buf(&mut self) -> io::Result<&[u8]> {
+                if self.0.fill_buf()?.is_empty() {
+                    self.0 = Cursor::new(here().typed()?);
+                }
+                self.0.fill_buf()
+            }
+
+            fn consume(&mut self, n: usize) {
+                self.0.consume(n)
+            }
+        }
+    }
+
     /// Runs a future as `futures_lite::future` does, with the harness in place of what it waits for.
     pub mod future {
         pub use futures_lite::future::Future;
diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..662ce61 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -1,16 +1,21 @@
 use std::ffi::CStr;
 use std::os::raw::c_char;
 use std::ptr;
-use std::sync::mpsc::{self, Receiver};
+#[cfg(not(ced_verif))]
+use std::sync::mpsc;
+#[cfg(not(ced_verif))]
+use std::thread;
 use std::time::Duration;
 
 use crate::event::CedEvent;
 use crate::{raw, set_last_error};
 use futures_lite::*;
+#[cfg(ced_verif)]
+use remote::threads::{future, mpsc, stream, thread};
 use remote::{ensure_session, Connection, ConnectionEvent, Session};
 
 pub struct CedConnection {
-    events: Receiver<ConnectionEvent>,
+    events: mpsc::Receiver<ConnectionEvent>,
 }
 
 #[no_mangle]
@@ -27,9 +32,9 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
 
     let connection = Connection::new(session);
     let (events, request_loop) = future::block_on(connection.connect());
-    std::thread::spawn(|| future::block_on(request_loop));
+    thread::spawn(|| future::block_on(request_loop));
     let (tx, rx) = mpsc::channel();
-    std::thread::spawn(move || {
+    thread::spawn(move || {
         let sync_events = stream::block_on(events);
         for ev in sync_events {
             if let Err(err) = tx.send(ev) {
diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index 5c287de..3ac6e3e 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -9,6 +9,8 @@ pub mod jsonrpc;
 mod keys;
 pub mod protocol;
 mod session;
+#[cfg(ced_verif)]
+pub mod threads;
 mod transport;
 
 use std::env;
diff --git a/remote/src/threads.rs b/remote/src/threads.rs
new file mode 100644
index 0000000..4dfedda
--- /dev/null
+++ b/remote/src/threads.rs
@@ -0,0 +1,179 @@
+//! Threads as the verification harness has them (`--cfg ced_verif`): which one runs is its choice,
+//! made where a thread waits for another one or may be overtaken by it.
+use std::cell::RefCell;
+use std::rc::Rc;
+
+/// Whether a thread which waits can go on.
+pub type Ready = Rc<dyn Fn() -> bool>;
+
+/// What runs threads.
+pub trait Scheduler {
+    /// Starts a thread.
+    fn spawn(&self, main: Box<dyn FnOnce()>);
+    /// Lets other threads run, until this one can go on, or not if its time is up.
+    fn wait(&self, ready: Ready, timed: bool) -> bool;
+}
+
+thread_local! {
+    static SCHEDULER: RefCell<Option<Rc<dyn Scheduler>>> = RefCell::new(None);
+}
+
+/// From now on threads are run by this.
+pub fn scheduled_by(scheduler: Rc<dyn Scheduler>) {
+    SCHEDULER.with(|s| *s.borrow_mut() = Some(scheduler));
+}
+
+fn scheduler() -> Rc<dyn Scheduler> {
+    SCHEDULER.with(|s| s.borrow().clone()).expect("scheduler")
+}
+
+pub mod thread {
+    //! Stands for `std::thread`.
+    use std::cell::RefCell;
+    use std::rc::Rc;
+
+    pub struct JoinHandle<T>(Rc<RefCell<Option<T>>>);
+
+    pub fn spawn<T: 'static>(main: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
+        let result = Rc::new(RefCell::new(None));
+        let sink = result.clone();
+        super::scheduler().spawn(Box::new(move || {
+            let value = main();
+            *sink.borrow_mut() = Some(value);
+        }));
+        JoinHandle(result)
+    }
+
+    impl<T: 'static> JoinHandle<T> {
+        pub fn join(self) -> std::thread::Result<T> {
+            let result = self.0.clone();
+            let ended: super::Ready = Rc::new(move || result.borrow().is_some());
+            super::scheduler().wait(ended, false);
+            Ok(self.0.borrow_mut().take().expect("thread ended"))
+        }
+    }
+
+    /// Another thread may run.
+    pub fn yield_now() {
+        super::scheduler().wait(Rc::new(|| true), false);
+    }
+}
+
+pub mod mpsc {
+    //! Stands for `std::sync::mpsc`.
+    use std::cell::RefCell;
+    use std::collections::VecDeque;
+    use std::rc::{Rc, Weak};
+    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError};
+    use std::time::Duration;
+
+    type Queue<T> = RefCell<VecDeque<T>>;
+
+    pub struct Sender<T>(Rc<()>, Weak<Queue<T>>);
+
+    pub struct Receiver<T>(Weak<()>, Rc<Queue<T>>);
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let (alive, queue) = (Rc::new(()), Rc::default());
+        let receiver = Receiver(Rc::downgrade(&alive), queue);
+        (Sender(alive, Rc::downgrade(&receiver.1)), receiver)
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Sender<T> {
+            Sender(self.0.clone(), self.1.clone())
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, value: T) -> Result<(), SendError<T>> {
+            match self.1.upgrade() {
+                Some(queue) => {
+                    queue.borrow_mut().push_back(value);
+                    super::thread::yield_now();
+                    Ok(())
+                }
+                None => Err(SendError(value)),
+            }
+        }
+    }
+
+    impl<T: 'static> Receiver<T> {
+        pub fn try_recv(&self) -> Result<T, TryRecvError> {
+            match self.1.borrow_mut().pop_front() {
+                Some(value) => Ok(value),
+                None if self.0.strong_count() == 0 => Err(TryRecvError::Disconnected),
+                None => Err(TryRecvError::Empty),
+            }
+        }
+
+        fn wait(&self, timed: bool) -> bool {
+            let (alive, queue) = (self.0.clone(), self.1.clone());
+            let ready = move || !queue.borrow().is_empty() || alive.strong_count() == 0;
+            super::scheduler().wait(Rc::new(ready), timed)
+        }
+
+        pub fn recv(&self) -> Result<T, RecvError> {
+            self.wait(false);
+            self.try_recv().map_err(|_| RecvError)
+        }
+
+        pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
+            if !self.wait(true) {
+                return Err(RecvTimeoutError::Timeout);
+            }
+            self.try_recv().map_err(|_| RecvTimeoutError::Disconnected)
+        }
+    }
+}
+
+/// Runs a future as `futures_lite::future` does.
+pub mod future {
+    pub use futures_lite::future::*;
+    use std::rc::Rc;
+    use std::sync::atomic::{AtomicBool, Ordering};
+    use std::sync::Arc;
+    use std::task::{Context, Poll, Wake, Waker};
+
+    struct Woken(AtomicBool);
+
+    impl Wake for Woken {
+        fn wake(self: Arc<Self>) {
+            self.0.store(true, Ordering::SeqCst);
+        }
+    }
+
+    pub fn block_on<T>(future: impl Future<Output = T>) -> T {
+        let woken = Arc::new(Woken(AtomicBool::new(true)));
+        let waker = Waker::from(woken.clone());
+        let mut future = Box::pin(future);
+        loop {
+            woken.0.store(false, Ordering::SeqCst);
+            if let Poll::Ready(value) = future.as_mut().poll(&mut Context::from_waker(&waker)) {
+                return value;
+            }
+            let woken = woken.clone();
+            let ready = move || woken.0.load(Ordering::SeqCst);
+            super::scheduler().wait(Rc::new(ready), false);
+        }
+    }
+}
+
+pub mod stream {
+    //! Stands for `futures_lite::stream`.
+    pub use futures_lite::stream::{Stream, StreamExt};
+
+    pub struct BlockOn<S>(S);
+
+    pub fn block_on<S: Stream + Unpin>(stream: S) -> BlockOn<S> {
+        BlockOn(stream)
+    }
+
+    impl<S: Stream + Unpin> Iterator for BlockOn<S> {
+        type Item = S::Item;
+
+        fn next(&mut self) -> Option<S::Item> {
+            super::future::block_on(self.0.next())
+        }
+    }
+}
-- 
2.43.0


From 627e3e508140ae52e510850f6d58fdeb837ae0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:06 +0000
Subject: [PATCH 56/56] verif: streams in memory which fail to be read for ever
 (cfg ced_verif)

---
 remote/src/transport/verif.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/remote/src/transport/verif.rs b/remote/src/transport/verif.rs
index 1d181be..8515207 100644
--- a/remote/src/transport/verif.rs
+++ b/remote/src/transport/verif.rs
@@ -11,6 +11,7 @@ struct End {
     bytes: VecDeque<u8>,
     closed: bool,
     broken: bool,
+    failing: bool,
     waker: Option<Waker>,
 }
 
@@ -69,6 +70,11 @@ impl MemoryStream {
         Self::change(&self.output, |end| end.broken = true);
     }
 
+    /// The other end fails to read, whenever it tries.
+    pub fn fail(&self) {
+        Self::change(&self.output, |end| end.failing = true);
+    }
+
     /// The other end fails to write.
     pub fn hang_up(&self) {
         Self::change(&self.input, |end| end.broken = true);
@@ -90,6 +96,9 @@ impl MemoryStream {
         buf: &mut [u8],
     ) -> Poll<io::Result<usize>> {
         let mut end = self.input.lock().unwrap();
+        if end.failing && end.bytes.is_empty() {
+            return Poll::Ready(Err(io::ErrorKind::Other.into()));
+        }
         if end.broken {
             // told once, as by a socket
             end.broken = false;
-- 
2.43.0

