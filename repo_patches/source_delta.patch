From 0133b3eebd3bff0c12031884815641d66fc9b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 01/12] fix: deleting rows or columns of a grid really removes
 them

---
 aftermath-core/input_tree/src/input_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..696cabc 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,22 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
+                        old_grid
+                            .by_ref()
+                            .take(values.width() * values.height())
+                            .for_each(drop);
                         new_grid.extend(old_grid);
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 92be3483312a9c0b852261247dbfe6f59aa5ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 02/12] fix: stored ranges inside a container move with the
 container when its row is edited

---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 9fdf912f4d0f8bec00c9617c4770384a8911cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 03/12] fix: the default grid is a valid empty grid

---
 aftermath-core/input_tree/src/grid.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..fe9a6ae 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -26,7 +26,7 @@ pub enum GridDirection {
 
 /// A proper grid of values.
 /// Maybe someday I'll be able to use https://docs.rs/ndarray/latest/ndarray/ instead.
-#[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
+#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
 #[cfg_attr(
     feature = "wasm",
     derive(tsify::Tsify),
@@ -78,6 +78,13 @@ impl<T> GridVec<T> {
     }
 }
 
+impl<T> Default for GridVec<T> {
+    /// A grid without any rows. The width always has to be larger than zero.
+    fn default() -> Self {
+        GridVec::from_one_dimensional(vec![], 1)
+    }
+}
+
 impl<T> IntoIterator for GridVec<T> {
     type Item = T;
     type IntoIter = std::vec::IntoIter<T>;
-- 
2.43.0


From b84ff19761c98d482922226ab880b38958700a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 04/12] fix: a grid rectangle spans the rectangle between its
 two corner cells

---
 .../input_tree/src/grid/grid_view.rs          | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..2a10afa 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,14 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
-        self.grid
-            .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+        // Only cells inside the view are visible
+        xy.to_index_checked(self)?;
+        let start = self.range.start_index();
+        self.grid.get(Index2D::new(
+            start.x + xy.x,
+            start.y + xy.y,
+            self.range.width,
+        ))
     }
 }
 
@@ -55,25 +60,36 @@ pub struct GridRectangle {
 
 impl GridRectangle {
     pub fn new(range: Range<usize>, width: usize) -> Self {
+        if range.is_empty() {
+            return Self {
+                start: range.start,
+                end: range.start,
+                width,
+            };
+        }
+        // The first and the last cell are opposite corners, so the columns can be the other way around
+        let last = range.end - 1;
+        let start_x = (range.start % width).min(last % width);
+        let end_x = (range.start % width).max(last % width);
         Self {
-            start: range.start,
-            end: if !range.is_empty() {
-                range.end
-            } else {
-                range.start
-            },
+            start: (range.start / width) * width + start_x,
+            end: (last / width) * width + end_x + 1,
             width,
         }
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        match self.end_index_inclusive() {
+            Some(end_index) => end_index.x - self.start_index().x + 1,
+            None => 0,
+        }
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        match self.end_index_inclusive() {
+            Some(end_index) => end_index.y - self.start_index().y + 1,
+            None => 0,
+        }
     }
 
     pub fn size(&self) -> (usize, usize) {
-- 
2.43.0


From d809fc392c9c07710f980f4449ccfaee79ced1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 05/12] fix: the root row has no index in a parent instead of
 underflowing

---
 aftermath-core/input_tree/src/focus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..33c96cd 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -99,8 +99,9 @@ impl<'a> InputFocusRow<'a> {
     }
 
     pub fn index_in_parent(&self) -> Option<usize> {
+        let last_index = self.row_indices.len().checked_sub(1)?;
         self.row_indices
-            .at(self.row_indices.len() - 1)
+            .at(last_index)
             .map(|row_index| row_index.1)
     }
 
-- 
2.43.0


From 15f2690f1fc229c5af8d99ef70499ba92a84692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 06/12] fix: moving left out of the first row of a container
 does not underflow

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..64f73e4 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                Some(v + 1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From a4ec6f6c14644c8a2ff23fffa8873c3cc5e014a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 07/12] fix: moving the caret steps over a table without cells
 instead of crashing

---
 aftermath-core/caret/src/primitive/movement.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index 64f73e4..424713d 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -224,7 +224,7 @@ impl NavigationSettings {
         let adjacent_child = caret.row_focus.clone().child_at(adjacent_index).unwrap();
 
         match adjacent_child.node() {
-            input_tree::node::InputNode::Container(_, grid) => {
+            input_tree::node::InputNode::Container(_, grid) if !grid.is_empty() => {
                 let adjacent_row = if direction == HorizontalDirection::Left {
                     adjacent_child
                         .child_at(grid.width() * grid.height() - 1)
@@ -239,7 +239,8 @@ impl NavigationSettings {
                 };
                 Some(InputRowPosition::new(adjacent_row, offset))
             }
-            input_tree::node::InputNode::Symbol(_) => Some(InputRowPosition::new(
+            // Symbols and containers without any rows can only be stepped over
+            _ => Some(InputRowPosition::new(
                 caret.row_focus.clone(),
                 if direction == HorizontalDirection::Left {
                     Offset(caret.offset.0 - 1)
-- 
2.43.0


From ae7735ac22f4f3c46535ade379b8871c84af4df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 08/12] fix: the caret keeps its place when a range is replaced
 instead of going stale

---
 aftermath-core/caret/src/math_editor.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..f8ca023 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,7 +371,6 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
         let (basic_edit, _) = BasicEdit::replace_range(
@@ -382,7 +381,6 @@ impl MathEditor {
         caret.end_position.apply_edits(&basic_edit);
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 3231c2f1bd24cf66220eff4d6b138946d1c97581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 09/12] fix: autocomplete does not crash on symbols that are
 not a single byte

---
 aftermath-core/parser/src/autocomplete.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..8942b9f 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -72,10 +72,13 @@ impl AutocompleteRule {
 /// Can return overlapping ranges.
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
     let mut indices = Vec::new();
-    let mut i = 0;
-    while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
-        indices.push(index);
-        i = index + 1;
+    if needle.is_empty() {
+        return indices;
+    }
+    for (index, _) in haystack.char_indices() {
+        if haystack[index..].starts_with(needle) {
+            indices.push(index);
+        }
     }
     indices
 }
-- 
2.43.0


From f29bf69f3dde5cdf7e608c88548a1f0ae70363e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 10/12] fix: the matched length of an autocomplete rule counts
 the whole last symbol

---
 aftermath-core/parser/src/autocomplete.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index 8942b9f..788fcc0 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -101,13 +101,13 @@ impl AutocompleteMatcher for AutocompleteRule {
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, i + starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, parser_end_index) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -129,7 +129,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From d591885b1fd0e03deb0bc780793ff357ec4fcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 11/12] fix: re-check an autocorrection against the whole range
 it covers

---
 aftermath-core/caret/src/math_editor.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index f8ca023..d056124 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -307,11 +307,7 @@ impl MathEditor {
         // It might no longer be a perfect match, so we need to check again
         let is_perfect_match = autocorrect
             .rule
-            .matches(
-                autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
-                1,
-            )
+            .matches(autocomplete_range.values(), autocomplete_range.len(), 1)
             .iter()
             .any(|rule_match| rule_match.is_complete_match());
 
-- 
2.43.0


From 02e17a94fdc77adda678e5184789b0b9f9cb5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:45 +0000
Subject: [PATCH 12/12] fix: reading a grid that is not a rectangle is an error

The derived Deserialize of GridVec accepted a width of 0 and cells that do not
fill whole rows, so pasting such clipboard data put a broken table into the
formula. It is checked now like in from_one_dimensional.
---
 aftermath-core/input_tree/src/grid.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index fe9a6ae..b0d6f03 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -32,11 +32,30 @@ pub enum GridDirection {
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "GridVecData<T>")]
 pub struct GridVec<T> {
     values: Vec<T>,
     width: usize,
 }
 
+/// The data of a grid, before it has been checked.
+#[derive(Deserialize)]
+struct GridVecData<T> {
+    values: Vec<T>,
+    width: usize,
+}
+
+impl<T> TryFrom<GridVecData<T>> for GridVec<T> {
+    type Error = &'static str;
+
+    fn try_from(data: GridVecData<T>) -> Result<Self, Self::Error> {
+        if data.width == 0 || data.values.len() % data.width != 0 {
+            return Err("the values have to fill every row of the grid");
+        }
+        Ok(GridVec::from_one_dimensional(data.values, data.width))
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
-- 
2.43.0

