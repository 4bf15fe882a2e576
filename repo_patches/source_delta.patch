From 22c9456eb72c52a0d2ed11bfba2961eaa0ce024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 01/18] fix: locate positions independently of where the gap is

Grapheme clusters spanning the gap were segmented as two, which made positions
depend on the edits that led to the content.
---
 src/buffer/gap_buffer.rs | 44 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..79b56de 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,16 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap, so we need to look at the
+        // content as a whole, rather than the halves surrounding the gap.
+        let content = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in content.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                return Some(self.data_offset(offset));
             }
 
             // Advance the line and offset characters.
@@ -247,15 +226,24 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
+        // We didn't find the position *within* the content, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
-            return Some(self.data.len());
+            return Some(self.data_offset(content.len()));
         }
 
         None
     }
 
+    // Maps a content offset to its equivalent in the data, which includes the gap.
+    fn data_offset(&self, content_offset: usize) -> usize {
+        if content_offset < self.gap_start {
+            content_offset
+        } else {
+            content_offset + self.gap_length
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
-- 
2.43.0


From 42441d21c83bbb7b215c27e0f3ec1f022d421dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 02/18] fix: treat CRLF as a line ending when locating
 positions

A CRLF pair is a single grapheme cluster, and was counted as an ordinary
character; line counts and everything else treats it as a line ending.
---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..58eb837 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c.ends_with('\n') {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 79b56de..d2291c6 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -218,7 +218,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme.ends_with('\n') {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 0a96110b6ef1cdbad04f7a067f67f47536b3c79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 03/18] fix: report search results as grapheme cluster-based
 positions

Results used byte offsets, which aren't usable as positions on lines with
multi-byte content.
---
 src/buffer/mod.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..9d288b2 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -328,13 +329,14 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
-
-                // Check haystack length before slicing it and comparing bytes with needle.
-                if haystack.len() >= needle.len()
-                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
-                {
+            // Position offsets are grapheme cluster-based.
+            for (offset, (start, grapheme)) in data.grapheme_indices(true).enumerate() {
+                // The needle may start at any of the characters in the cluster.
+                let found = grapheme
+                    .char_indices()
+                    .any(|(index, _)| data[start + index..].starts_with(needle));
+
+                if found {
                     results.push(Position { line, offset });
                 }
             }
-- 
2.43.0


From 7635b67dfc006f054e25e7a47a9bff2f82228020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 04/18] fix: measure distances in grapheme clusters

Position offsets are grapheme cluster-based, but distances counted bytes.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From 5cde7faf98751e92972776c8f419844c7bf5cd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 05/18] fix: remove exactly the inserted content when undoing
 insertions

Inserted content that merges with its surroundings to form grapheme clusters
(e.g. combining marks, or halves of a CRLF pair) changes the positions in the
buffer, and reversing the insertion using them removed the wrong content.
---
 src/buffer/gap_buffer.rs       | 18 ++++++++++++
 src/buffer/operation/insert.rs | 51 +++++++++++++---------------------
 2 files changed, 38 insertions(+), 31 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index d2291c6..631f8f3 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -235,6 +235,24 @@ impl GapBuffer {
         None
     }
 
+    // Maps a position to its byte offset in the content, which excludes the gap.
+    pub(super) fn content_offset(&self, position: &Position) -> Option<usize> {
+        self.find_offset(position).map(|offset| {
+            if offset < self.gap_start {
+                offset
+            } else {
+                offset - self.gap_length
+            }
+        })
+    }
+
+    // Removes the specified number of bytes at a content offset. Unlike positions, offsets can
+    // refer to content that has become part of a grapheme cluster since it was inserted.
+    pub(super) fn delete_bytes(&mut self, content_offset: usize, length: usize) {
+        self.move_gap(self.data_offset(content_offset));
+        self.gap_length += length;
+    }
+
     // Maps a content offset to its equivalent in the data, which includes the gap.
     fn data_offset(&self, content_offset: usize) -> usize {
         if content_offset < self.gap_start {
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..99544f4 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,8 +1,7 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
@@ -16,10 +15,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Store where we're about to insert the content, if that exists.
+        self.offset = buffer.data.borrow().content_offset(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,38 +34,20 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
+    // The inserted content can't be located using positions, because it may have merged with
+    // adjacent content to form grapheme clusters. Instead, we use the byte offset at which
+    // the content was inserted, which we've stored.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
+        let offset = match self.offset {
+            Some(offset) => offset,
+            None => return,
         };
-        let range = Range::new(self.position, end_position);
 
         // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        buffer
+            .data
+            .borrow_mut()
+            .delete_bytes(offset, self.content.len());
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +63,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 27f13bdba611650ad4367eb458d2943f30a1cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 06/18] fix: restore exactly the deleted content when undoing
 deletions

Deletions whose range ends beyond the end of a line or the buffer didn't store
the content they removed, so that undoing them had no effect. Restoring content
also relied on a position that no longer exists when the content surrounding the
deletion merges to form a grapheme cluster.
---
 src/buffer/gap_buffer.rs       | 14 ++++++++------
 src/buffer/operation/delete.rs | 23 ++++++++++++++++-------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 631f8f3..74f42e6 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,6 +56,13 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.content_offset(position) {
+            self.insert_at(data, offset);
+        }
+    }
+
+    // Inserts the specified data at a content offset.
+    pub(super) fn insert_at(&mut self, data: &str, content_offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
@@ -76,12 +83,7 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap(self.data_offset(content_offset));
         self.write_to_gap(data);
     }
 
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..294cfb9 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -13,17 +13,26 @@ use std::clone::Clone;
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: Option<usize>,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        // Store where we're about to delete, if that exists.
+        self.offset = buffer.data.borrow().content_offset(&self.range.start());
 
         // Delete the data.
+        let old_content = buffer.data();
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've just deleted. We can't read it beforehand using
+        // the range, because the end of the range isn't required to exist.
+        let length = old_content.len() - buffer.data().len();
+        self.content = self
+            .offset
+            .map(|offset| old_content[offset..offset + length].to_string());
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
@@ -31,11 +40,10 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(content), Some(offset)) = (&self.content, self.offset) {
+            // The content surrounding the deletion may have merged to form a grapheme
+            // cluster, so we can't use the range's position to locate it.
+            buffer.data.borrow_mut().insert_at(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +62,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: None,
             range,
         }
     }
-- 
2.43.0


From 27af11ec24948b732c1f0f2b2c226683b5b86046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 07/18] fix: make undone open operation groups redoable

Undoing an open operation group bypassed the history, so its edits were lost.
---
 src/buffer/mod.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9d288b2..e3316f4 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -242,21 +242,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // Edits in an open operation group are undone as a unit. Push
+        // it on to the history stack so that it can also be redone.
+        self.end_operation_group();
 
-        // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        // If there's an operation to undo, reverse it.
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
-- 
2.43.0


From aa938313e61d4c5f99269c90102a1851e6138f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 08/18] fix: don't redo on top of edits in an open operation
 group

Edits only discard undone operations once they're added to the history, which
doesn't happen until their group ends. Redoing before that applied operations
to content they weren't made for.
---
 src/buffer/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index e3316f4..b048d39 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -269,6 +269,12 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Edits in an open operation group discard previously
+        // undone operations, just like any other edit would.
+        if self.has_open_edits() {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
@@ -447,6 +453,14 @@ impl Buffer {
             })
         })
     }
+
+    // Whether or not there's an open operation group with edits that
+    // haven't been added to the history yet.
+    fn has_open_edits(&self) -> bool {
+        self.operation_group
+            .as_ref()
+            .map_or(false, |group| !group.is_empty())
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6f2877938b31da63a7e0d0d6ef4e78ec932a2c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 09/18] fix: consider open operation groups when tracking
 modifications

Edits in an open operation group aren't part of the history, so they weren't
reported as modifications, and marks made when saving or reloading amid a group
referred to the point in the history that preceded it.
---
 src/buffer/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index b048d39..49bb6a1 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -189,9 +189,7 @@ impl Buffer {
         // We use to_string here because we don't want to write the gap contents.
         file.write_all(self.data().to_string().as_bytes())?;
 
-        // We mark the history at points where the
-        // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_in_sync();
 
         Ok(())
     }
@@ -369,7 +367,7 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        !self.history.at_mark() || self.has_open_edits()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -416,9 +414,7 @@ impl Buffer {
 
         self.replace(content);
 
-        // We mark the history at points where the
-        // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_in_sync();
 
         Ok(())
     }
@@ -454,6 +450,19 @@ impl Buffer {
         })
     }
 
+    // We mark the history at points where the
+    // buffer is in sync with its file equivalent.
+    fn mark_in_sync(&mut self) {
+        // Edits in an open operation group need to be part of the history to
+        // be covered by the mark; the rest of the group can be undone to it.
+        if self.operation_group.is_some() {
+            self.end_operation_group();
+            self.start_operation_group();
+        }
+
+        self.history.mark();
+    }
+
     // Whether or not there's an open operation group with edits that
     // haven't been added to the history yet.
     fn has_open_edits(&self) -> bool {
-- 
2.43.0


From f8b48e3a8f4ac451ed06bf3f41fdead8fa42c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:25 +0000
Subject: [PATCH 10/18] fix: always report buffers without paths as modified

As documented; this includes those that have had their path removed.
---
 src/buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 49bb6a1..ba9ac6d 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -367,7 +367,7 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark() || self.has_open_edits()
+        self.path.is_none() || !self.history.at_mark() || self.has_open_edits()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
-- 
2.43.0


From c23d75b9b07fedca8ab541140490689e22ce0cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:28 +0000
Subject: [PATCH 11/18] fix: don't overflow when handling the last
 representable line

---
 src/buffer/gap_buffer.rs | 2 +-
 src/buffer/line_range.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 74f42e6..1724d5b 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -167,7 +167,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
diff --git a/src/buffer/line_range.rs b/src/buffer/line_range.rs
index 3031a46..7a7afad 100644
--- a/src/buffer/line_range.rs
+++ b/src/buffer/line_range.rs
@@ -82,7 +82,7 @@ impl LineRange {
                 offset: 0,
             },
             Position {
-                line: self.end + 1,
+                line: self.end.saturating_add(1),
                 offset: 0,
             },
         )
-- 
2.43.0


From 33304faabf6556acced61c77181332a029618d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 12/18] fix: locate tokens that start amid a grapheme cluster

Token values were segmented separately, counting clusters that span multiple
tokens more than once and shifting the positions of the tokens that follow.
---
 src/buffer/token/token_iterator.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..0635e27 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -2,8 +2,9 @@ use crate::buffer::{Lexeme, Position, Token};
 use crate::errors::*;
 use crate::util::LineIterator;
 use std::cmp;
+use std::iter::Peekable;
 use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxReference, SyntaxSet};
-use unicode_segmentation::UnicodeSegmentation;
+use unicode_segmentation::{GraphemeIndices, UnicodeSegmentation};
 
 pub struct TokenIterator<'a> {
     scopes: ScopeStack,
@@ -13,6 +14,7 @@ pub struct TokenIterator<'a> {
     current_byte_offset: usize,
     current_position: Position,
     line_events: Vec<(usize, ScopeStackOp)>,
+    line_graphemes: Peekable<GraphemeIndices<'a>>,
     syntaxes: &'a SyntaxSet,
     pub error: Option<Error>,
 }
@@ -31,6 +33,7 @@ impl<'a> TokenIterator<'a> {
             current_byte_offset: 0,
             current_position: Position { line: 0, offset: 0 },
             line_events: Vec::new(),
+            line_graphemes: "".grapheme_indices(true).peekable(),
             syntaxes,
             error: None,
         };
@@ -98,11 +101,16 @@ impl<'a> TokenIterator<'a> {
                         position: self.current_position,
                     }));
 
-                    // The event/current offsets are byte-based, but
-                    // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // The event/current offsets are byte-based, but position offsets
+                    // should be grapheme cluster-based. Tokens can start amid a cluster,
+                    // in which case their position is that of the cluster.
+                    while self
+                        .line_graphemes
+                        .next_if(|&(offset, grapheme)| offset + grapheme.len() <= end_of_token)
+                        .is_some()
+                    {
+                        self.current_position.offset += 1;
+                    }
 
                     self.current_byte_offset = event_offset;
                 }
@@ -149,6 +157,9 @@ impl<'a> TokenIterator<'a> {
                 offset: 0,
             };
 
+            // Start over at the line's first grapheme cluster.
+            self.line_graphemes = line.grapheme_indices(true).peekable();
+
             // Reset byte-based line offset.
             self.current_byte_offset = 0;
         } else {
-- 
2.43.0


From ce2644c16163116263c9bb917d78548d01ce8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 13/18] fix: don't resume token iteration after an error

---
 src/buffer/token/token_iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index 0635e27..d8e9dcc 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -174,6 +174,11 @@ impl<'a> Iterator for TokenIterator<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Errors are final; don't carry on with the next line.
+        if self.error.is_some() {
+            return None;
+        }
+
         self.next_token()
     }
 }
-- 
2.43.0


From 2e30ca95954455addc653c1bcb6757e6bf64a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 14/18] fix: move to the end of empty last lines

The last line was skipped if empty, leaving the cursor's remembered column (or
a position made invalid by edits) as it was, unlike on any other line.
---
 src/buffer/cursor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 58eb837..4bfeeae 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -175,14 +175,14 @@ impl Cursor {
     /// Moves the cursor offset to after the last character on the current line.
     pub fn move_to_end_of_line(&mut self) {
         let data = self.data.borrow().to_string();
-        let current_line = data.lines().nth(self.line);
-        if let Some(line) = current_line {
-            let new_position = Position {
-                line: self.line,
-                offset: line.graphemes(true).count(),
-            };
-            self.move_to(new_position);
-        }
+
+        // An empty last line isn't included when iterating over lines.
+        let line = data.lines().nth(self.line).unwrap_or("");
+        let new_position = Position {
+            line: self.line,
+            offset: line.graphemes(true).count(),
+        };
+        self.move_to(new_position);
     }
 
     /// Moves the cursor to the last line in the buffer.
-- 
2.43.0


From 2d5c8e742335a5e9f1a6df0d164d495087a92e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 15/18] fix: don't open a duplicate buffer when the path can't
 be resolved

---
 src/workspace.rs | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/workspace.rs b/src/workspace.rs
index 26c159b..c389003 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -109,7 +109,7 @@ impl Workspace {
     /// workspace.open_buffer(file_path.clone());
     /// ```
     pub fn open_buffer(&mut self, path: &Path) -> Result<()> {
-        if self.select_buffer_by_path(path) {
+        if self.select_buffer_by_path(path)? {
             Ok(())
         } else {
             let buffer = Buffer::from_file(path)?;
@@ -465,27 +465,26 @@ impl Workspace {
         false
     }
 
-    fn select_buffer_by_path(&mut self, path: &Path) -> bool {
-        if let Ok(ref canonical_path) = path.canonicalize() {
-            // Do nothing if the current buffer matches the path.
-            if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
-                return true;
-            }
+    fn select_buffer_by_path(&mut self, path: &Path) -> Result<bool> {
+        // Without its canonical path, there's no telling if a buffer is already open.
+        let canonical_path = &path.canonicalize()?;
 
-            // Look at other open buffers to see if one matches.
-            let index = self
-                .buffers
-                .iter()
-                .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
-
-            // If we found a matching buffer, select it and propagate the
-            // result of that operation. Otherwise, return false.
-            index
-                .map(|index| self.select_buffer(index))
-                .unwrap_or(false)
-        } else {
-            false
+        // Do nothing if the current buffer matches the path.
+        if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
+            return Ok(true);
         }
+
+        // Look at other open buffers to see if one matches.
+        let index = self
+            .buffers
+            .iter()
+            .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
+
+        // If we found a matching buffer, select it and propagate the
+        // result of that operation. Otherwise, return false.
+        Ok(index
+            .map(|index| self.select_buffer(index))
+            .unwrap_or(false))
     }
 }
 
-- 
2.43.0


From a60b25365eba8a8976e140d39127a391512a516f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:00 +0000
Subject: [PATCH 16/18] fix: find open buffers whose path isn't canonical

---
 src/workspace.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/workspace.rs b/src/workspace.rs
index c389003..127959f 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -469,16 +469,23 @@ impl Workspace {
         // Without its canonical path, there's no telling if a buffer is already open.
         let canonical_path = &path.canonicalize()?;
 
+        // Buffers can be given any path, which isn't necessarily canonical.
+        let matches = |buffer: &Buffer| {
+            buffer.path.as_ref().map_or(false, |path| {
+                path == canonical_path
+                    || path
+                        .canonicalize()
+                        .map_or(false, |path| path == *canonical_path)
+            })
+        };
+
         // Do nothing if the current buffer matches the path.
-        if self.current_buffer.as_ref().and_then(|b| b.path.as_ref()) == Some(canonical_path) {
+        if self.current_buffer.as_ref().map_or(false, matches) {
             return Ok(true);
         }
 
         // Look at other open buffers to see if one matches.
-        let index = self
-            .buffers
-            .iter()
-            .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
+        let index = self.buffers.iter().position(matches);
 
         // If we found a matching buffer, select it and propagate the
         // result of that operation. Otherwise, return false.
-- 
2.43.0


From 679c6bdc77e99453ee81a5a49744a77fedde13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 17/18] fix: Moving or deleting from a cursor with the largest
 line or offset doesn't overflow

---
 src/buffer/cursor.rs           | 4 ++--
 src/buffer/operation/delete.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 4bfeeae..5e9b57f 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -112,7 +112,7 @@ impl Cursor {
     /// Increments the cursor line. The location is bounds-checked against
     /// the data and the cursor will not be updated if it is out-of-bounds.
     pub fn move_down(&mut self) {
-        let target_line = self.line + 1;
+        let target_line = self.line.saturating_add(1);
         let new_position = Position {
             line: target_line,
             offset: self.sticky_offset,
@@ -158,7 +158,7 @@ impl Cursor {
     pub fn move_right(&mut self) {
         let new_position = Position {
             line: self.line,
-            offset: self.offset + 1,
+            offset: self.offset.saturating_add(1),
         };
         self.move_to(new_position);
     }
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 294cfb9..9e69a71 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -88,7 +88,7 @@ impl Buffer {
         // the current offset and delete the character to the right.
         let mut end = Position {
             line: self.cursor.line,
-            offset: self.cursor.offset + 1,
+            offset: self.cursor.offset.saturating_add(1),
         };
 
         // If there isn't a character to the right,
@@ -96,7 +96,7 @@ impl Buffer {
         // of the next line. If it doesn't exist, that's okay;
         // these values are bounds-checked by delete() anyway.
         if !self.data.borrow().in_bounds(&end) {
-            end.line += 1;
+            end.line = end.line.saturating_add(1);
             end.offset = 0;
         }
 
-- 
2.43.0


From 857ec2007ec3c2fa0b2701472076fd9ea8644ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 18/18] fix: Keep token iteration ended after its error has
 been taken

The error is a public field, and taking it, which is the only way to own
it, made the iterator carry on with the line after the failing one.
---
 src/buffer/token/token_iterator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index d8e9dcc..8dafa0d 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -16,6 +16,7 @@ pub struct TokenIterator<'a> {
     line_events: Vec<(usize, ScopeStackOp)>,
     line_graphemes: Peekable<GraphemeIndices<'a>>,
     syntaxes: &'a SyntaxSet,
+    failed: bool,
     pub error: Option<Error>,
 }
 
@@ -35,6 +36,7 @@ impl<'a> TokenIterator<'a> {
             line_events: Vec::new(),
             line_graphemes: "".grapheme_indices(true).peekable(),
             syntaxes,
+            failed: false,
             error: None,
         };
 
@@ -49,6 +51,7 @@ impl<'a> TokenIterator<'a> {
 
         // Track error before halting.
         if let Err(e) = token_result {
+            self.failed = true;
             self.error = Some(e);
 
             return None;
@@ -64,6 +67,7 @@ impl<'a> TokenIterator<'a> {
 
         // Track error before halting.
         if let Err(e) = parse_result {
+            self.failed = true;
             self.error = Some(e);
 
             return None;
@@ -174,8 +178,9 @@ impl<'a> Iterator for TokenIterator<'a> {
     type Item = Token<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Errors are final; don't carry on with the next line.
-        if self.error.is_some() {
+        // Errors are final, even once they have been taken by the
+        // caller; don't carry on with the next line.
+        if self.failed {
             return None;
         }
 
-- 
2.43.0

