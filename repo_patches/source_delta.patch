From 114339a234ca880a193151ebcc911efeefa934d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 01/16] fix: FocusTarget::Text must only find the text of the
 focused node

seek_text() stopped at the first Text it came across, whichever node it
belonged to, so focusing on a node without text landed in the text of a
child or of an unrelated later node instead of reporting MissingText.
---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From 8991b8b24857c07c2f5105da31720bb4b75aea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:19 +0000
Subject: [PATCH 02/16] fix: splitting a text at the focus must not change its
 width

The widths of the two halves were measured separately, so for texts whose
width isn't the sum of its parts (joined emoji, ligatures) the width of the
focused line, and with it later choices on that line, depended on the focus.
---
 src/consolidated_notation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 9f76e9c..269304d 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -113,15 +113,19 @@ impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
             .map(|(byte_pos, _)| byte_pos)
             .unwrap_or(self.str.len());
         let (left_str, right_str) = self.str.split_at(byte_pos);
+        // The width of a string can be less than the sum of the widths of its parts (e.g. for emoji
+        // joined by a zero-width joiner). Make sure that splitting doesn't change the total width.
+        let left_width = str_width(left_str).min(self.width);
+        let right_width = self.width - left_width;
         let left_textual = Textual {
             str: left_str,
-            width: str_width(left_str),
+            width: left_width,
             style: self.style.clone(),
             is_from_text: self.is_from_text,
         };
         let right_textual = Textual {
             str: right_str,
-            width: str_width(right_str),
+            width: right_width,
             style: self.style,
             is_from_text: self.is_from_text,
         };
-- 
2.43.0


From 00b7c16afbdae6a3d9c7b0b2870e47d9c796eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/16] fix: don't overflow on lines wider than the largest
 Width

Strings wider than 65535 columns had their width truncated (so that they
seemed to fit), and adding up the widths of the pieces of such a line
overflowed, which panics with overflow checks. Saturate instead.
---
 src/geometry.rs          | 12 +++++++++---
 src/pane/display_pane.rs |  2 +-
 src/pretty_print.rs      | 13 +++++++------
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..cb60aa6 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,10 +85,16 @@ impl Add<Size> for Pos {
     }
 }
 
-/// The width of a string in columns. May be an overestimate. Not to be confused with the number of
-/// bytes, Unicode code points, or Unicode grapheme clusters.
+/// The width of a string in columns, or `Width::MAX` if it's wider than that. May be an
+/// overestimate. Not to be confused with the number of bytes, Unicode code points, or Unicode
+/// grapheme clusters.
 pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width
+}
+
+/// The total of these widths, or `Width::MAX` if it's larger than that.
+pub(crate) fn sum_widths(widths: impl Iterator<Item = Width>) -> Width {
+    widths.fold(0, Width::saturating_add)
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..e8c2562 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -332,7 +332,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..59eca62 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::sum_widths,
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -141,22 +142,22 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
 
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.segments.iter().map(|seg| seg.width))
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.left_segments.iter().map(|seg| seg.width))
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.right_segments.iter().map(|seg| seg.width))
     }
 
     pub fn width(&self) -> Width {
         let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        sum_widths(segs.map(|seg| seg.width))
     }
 
     pub fn to_left_string(&self) -> String {
@@ -242,7 +243,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: sum_widths(indent_segments.iter().map(|seg| seg.width)),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -258,7 +259,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
             width: textual.width,
             style: textual.style,
         });
-        self.prefix_len += textual.width;
+        self.prefix_len = self.prefix_len.saturating_add(textual.width);
         Ok(())
     }
 
-- 
2.43.0


From 77afd76f3e4583c7b82f6d742faec00c32b80354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 04/16] fix: don't panic on all-zero or huge proportional pane
 weights

Dividing space among proportional panes divided by zero if all their weights
were zero, and overflowed if the weights were very large.
---
 src/pane/divvy.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..04ad961 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -80,12 +80,17 @@ impl Divvier {
                 child_hungers.push(*hunger);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        // (In u128, so that large hungers can't overflow.)
+        let total_hunger: u128 = child_hungers.iter().map(|hunger| *hunger as u128).sum();
+        if total_hunger == 0 {
+            // No child wants anything.
+            return;
+        }
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (self.cookies as u128 * *hunger as u128 / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -93,9 +98,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| self.cookies as u128 * *hunger as u128 % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From c302913a38c63032d208a5ee40b70b84776738a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 05/16] fix: show the document in a pane with dynamic height
 and a non-top focus

A pane with dynamic height is as high as the visible part of its document, but
the document was placed as if the pane had all the available height. Unless
the focus was at the top, some or all of the pane stayed blank, and the focus
was set outside of it.
---
 src/pane/display_pane.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e8c2562..785927b 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -160,12 +160,13 @@ where
                 }
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
-                let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
+                let mut printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
                     PrintedDoc::new(doc, &options, available_size, &doc_style)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
 
+                printed_doc.align_to_top();
                 let height = printed_doc.height();
                 available_size.height -= height;
                 dynamic_heights.push(height as usize);
@@ -304,6 +305,15 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         })
     }
 
+    /// Position the document at the top of its pane, regardless of the requested focus height. Used
+    /// for panes that are exactly as high as the visible part of the document.
+    fn align_to_top(&mut self) {
+        self.focus_line_row = self.focus_line_index as Row;
+        if let Some(focus_point) = &mut self.focus_point {
+            focus_point.row = self.focus_line_row;
+        }
+    }
+
     /// The number of lines in the document.
     fn height(&self) -> Height {
         self.lines.len() as Height
-- 
2.43.0


From c5353a1f018ef52e7ab433978e3ca5f00f5bc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 06/16] fix: don't overflow on full-width characters at column
 65534

Checking whether a full-width character fits before the right edge of a window
of the largest possible width overflowed.
---
 src/pane/display_pane.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 785927b..2e047fd 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while char_width <= rect.max_col - col {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -418,7 +418,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if char_width > rect.max_col - pos.col {
                 break 'segments_loop;
             }
             window
-- 
2.43.0


From aeb36b26a365f3799f6ab74d874245268a360e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 07/16] fix: notation errors mention the offending child index

The messages for child indices inside Count.one always said "index 0".
---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..377720b 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -31,11 +31,11 @@ pub enum NotationError {
     NestedCount,
     #[error("Notation contains a Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroChild,
-    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", .0)]
     CountOneChildIndex(isize),
     #[error("Notation contains a CheckPos::Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroCheckPosChild,
-    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", .0)]
     CountOneCheckPosChildIndex(isize),
     #[error(
         "Notation contains a Text inside a Count, but a node can't have both text and children."
-- 
2.43.0


From e9a93c98d1008dbfb19a5d88a8719b574f32e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 08/16] fix: highlight JSON constants

The style label of JSON constants, "green_bold", is not one that BasicStyle
knows, so they were printed without any color.
---
 src/doc_examples/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index f45d2d0..84b5be7 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -14,7 +14,7 @@ use crate::notation_constructors::{
 use crate::CheckPos;
 use once_cell::sync::Lazy;
 
-const CONSTANT_STYLE: &str = "green_bold";
+const CONSTANT_STYLE: &str = "bold_green";
 const STRING_STYLE: &str = "magenta";
 const NUMBER_STYLE: &str = "blue";
 const COMMENT_STYLE: &str = "yellow";
-- 
2.43.0


From 2ed0ae512c71b6a22c2bfc9511e5ca6f83713335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:37 +0000
Subject: [PATCH 09/16] fix: recompute separators when a child is put in
 another branch

Tree::new_branch() never cleared `needs_separator`, so a child that needed a
separator in one branch kept it when it was moved to the end of another one.
---
 src/doc_examples/tree.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..d180c05 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,13 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
-        for child in children
-            .iter_mut()
-            .rev()
-            .filter(|child| !child.is_comment)
-            .skip(1)
-        {
-            child.needs_separator = true;
+        let mut is_followed_by_value = false;
+        for child in children.iter_mut().rev() {
+            child.needs_separator = !child.is_comment && is_followed_by_value;
+            is_followed_by_value |= !child.is_comment;
         }
 
         Tree {
-- 
2.43.0


From d9943c8241b0812baf61ef2206ac83b66d4765be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 10/16] fix: highlight the words of JSON comments

Each word of a comment is a node of its own, and that node's (default) style
overrode the color of the comment, so only the "// " was highlighted.
---
 src/doc_examples/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index 84b5be7..ace7cde 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -117,7 +117,8 @@ static JSON_COMMENT_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     notation.validate().unwrap()
 });
 
-static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> = Lazy::new(|| text().validate().unwrap());
+static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> =
+    Lazy::new(|| style(COMMENT_STYLE, text()).validate().unwrap());
 
 static JSON_ROOTS_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     let notation = count(Count {
-- 
2.43.0


From ff59ebed68602834de3bf1027a0e43058a4d3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:34 +0000
Subject: [PATCH 11/16] fix: don't recurse once per child on joins that just
 evaluate to Left

---
 src/consolidated_notation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 269304d..cd05647 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -423,7 +423,11 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                         *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
                         *index -= 1;
                         self.notation = *join;
-                        self.eval()
+                        // Delay the join instead of evaluating it recursively, which could overflow
+                        // the stack if `join` just evaluates to `Left` for very many children.
+                        let mut empty = self.clone();
+                        empty.notation = &Empty;
+                        Ok(ConsolidatedNotation::Concat(empty, self))
                     }
                 }
             },
-- 
2.43.0


From f4b30db0fc911027cc98ec2def4e71dc5feddc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 12/16] fix: stop printing a pane's document once it is
 exhausted, however high the pane

---
 src/pane/display_pane.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 2e047fd..16cb284 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -283,16 +283,18 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
 
         let mut lines = Vec::new();
         for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
+            match upward_printer.next() {
+                Some(line) => lines.push(line?),
+                None => break,
             }
         }
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
         for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
+            match downward_printer.next() {
+                Some(line) => lines.push(line?),
+                None => break,
             }
         }
 
-- 
2.43.0


From 7b57c8dd2370a83c1ee3db6d5ab81c7d6a9bff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 13/16] fix: keep the focus line inside of extremely high panes

---
 src/pane/printing_options.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..fdb9d57 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,9 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let row = f32::round((pane_height - 1) as f32 * self.focus_height) as Row;
+        // An f32 can't represent very large heights precisely.
+        row.min(pane_height - 1)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From 6c58c2093f6b65283689b60adc0675ec7b048364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 14/16] fix: don't overflow the stack when dropping very many
 levels of indentation

The chain of IndentNodes was dropped recursively, so printing a document
whose nodes indent their children a few hundred thousand levels deep
crashed.
---
 src/consolidated_notation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index cd05647..adfee27 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -70,6 +70,20 @@ pub struct IndentNode<'d, D: PrettyDoc<'d>> {
     pub parent: Option<Rc<IndentNode<'d, D>>>,
 }
 
+// Drop the ancestors one at a time, instead of recursively, which could overflow the stack if there
+// are very many levels of indentation.
+impl<'d, D: PrettyDoc<'d>> Drop for IndentNode<'d, D> {
+    fn drop(&mut self) {
+        let mut ancestor = self.parent.take();
+        while let Some(node) = ancestor {
+            ancestor = match Rc::try_unwrap(node) {
+                Ok(mut node) => node.parent.take(),
+                Err(_) => None,
+            };
+        }
+    }
+}
+
 /// A `ConsolidatedNotation` that has not yet been evaluated, to prevent the entire notation tree
 /// from being in memory at once. Call `.eval()` to get a `ConsolidatedNotation`.
 #[derive(Debug)]
-- 
2.43.0


From 644a2a3173a787f5e8ae03a8f6d623911a0ea236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 15/16] fix: the oracle overflowed on texts and lines wider
 than the largest width

---
 src/oracle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 467462a..fbfb933 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -87,7 +87,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                     if prefix.ends_with_eol && first_len > 0 {
                         false
                     } else {
-                        last_len + first_len <= width
+                        last_len.saturating_add(first_len) <= width
                     }
                 }
             };
@@ -112,7 +112,7 @@ fn first_line_len<'d, D: PrettyDoc<'d>>(
 
     match note {
         Empty | FocusMark => Ok(suffix_len),
-        Textual(textual) => Ok(suffix_len.map(|w| textual.width + w)),
+        Textual(textual) => Ok(suffix_len.map(|w| textual.width.saturating_add(w))),
         EndOfLine => match suffix_len {
             None => Ok(None),
             Some(0) => Ok(Some(0)), // Followed by a newline, good
-- 
2.43.0


From 8407f1d4f9273dfe526ce12fc8e19a7c8dcd4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:15 +0000
Subject: [PATCH 16/16] fix: JSON strings were printed without escapes

The contents of JSON strings and keys were put between quotes as they are, so
those with quotes, backslashes or control characters came out as invalid or
different JSON.
---
 src/doc_examples/json.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index ace7cde..add3c47 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -155,9 +155,26 @@ pub fn json_bool(b: bool) -> Json {
     }
 }
 
-/// Create a string.
+/// Create a string with the given contents, which will be escaped as necessary.
 pub fn json_string(s: &str) -> Json {
-    Tree::new_text(&JSON_STRING_NOTATION, s.to_owned())
+    Tree::new_text(&JSON_STRING_NOTATION, escape(s))
+}
+
+/// Escape the characters that can't appear as they are between the quotes of a Json string.
+fn escape(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for ch in s.chars() {
+        match ch {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            '\0'..='\x1f' => escaped.push_str(&format!("\\u{:04x}", ch as u32)),
+            _ => escaped.push(ch),
+        }
+    }
+    escaped
 }
 
 /// Create a number.
-- 
2.43.0

