From 3cf693cfa3fa68496413ecdfa17b3803990a78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 01/15] fix: forget every row freed by
 DancingMatrix::add_solution

Only the rows sharing the last constraint of the added row were removed
from the row index; rows conflicting through any other constraint were
freed but stayed in it, so adding one of them read freed memory
(solve_sudoku with the same digit twice in a row aborted).
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..e09e706 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -66,8 +66,10 @@ impl DancingMatrix {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        for col in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From 9f176bd3dae08b6c6ba9fdeb4d89168b29b73d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 02/15] fix: do not record a rejected row in the partial
 solution

DancingMatrix::add_solution pushed the row before finding out that it
cannot be added, so a later solve returned it as part of the solution.
---
 src/structures/dancing_links/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index e09e706..631738c 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,13 +59,15 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
+        self.partial_solution.push(index);
+
         for col in unsafe { Node::iter_right(row) } {
             for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
                 self.rows[unsafe { Node::row(node) }] = null_mut();
-- 
2.43.0


From 19f92a05ef53343bc013f47f573937a7ef1e71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 03/15] fix: handle allocation failure of dancing links nodes

The result of alloc was written through without checking it for null.
---
 src/structures/dancing_links/node.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/structures/dancing_links/node.rs b/src/structures/dancing_links/node.rs
index c3e601a..30d1dc4 100644
--- a/src/structures/dancing_links/node.rs
+++ b/src/structures/dancing_links/node.rs
@@ -1,5 +1,5 @@
 use std::{
-    alloc::{alloc, dealloc, Layout},
+    alloc::{alloc, dealloc, handle_alloc_error, Layout},
     ptr::{null_mut, read},
 };
 
@@ -26,7 +26,7 @@ impl Node {
         col_previous: *mut Node,
         row: usize,
     ) -> *mut Self {
-        let ptr = unsafe { alloc(NODE_LAYOUT) } as *mut Node;
+        let ptr = unsafe { Node::allocate() };
         let mut node = Node {
             header,
             left: ptr,
@@ -65,7 +65,7 @@ impl Node {
     ///
     /// 'previous' must be a valid pointer (possibly null) to a header Node
     pub unsafe fn new_header(previous: *mut Node, num_rows: usize) -> *mut Self {
-        let ptr = unsafe { alloc(NODE_LAYOUT) } as *mut Node;
+        let ptr = unsafe { Node::allocate() };
         let mut node = Node {
             header: null_mut(),
             left: ptr,
@@ -90,6 +90,19 @@ impl Node {
         ptr
     }
 
+    /// # Safety
+    ///
+    /// The returned memory is uninitialized
+    unsafe fn allocate() -> *mut Self {
+        let ptr = unsafe { alloc(NODE_LAYOUT) } as *mut Node;
+
+        if ptr.is_null() {
+            handle_alloc_error(NODE_LAYOUT);
+        }
+
+        ptr
+    }
+
     /// # Safety
     ///
     /// 'node' must be a valid non-null pointer to a Node
-- 
2.43.0


From 9b04b321d6d0706bef7af04f30fcf03f0745f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 04/15] fix: reject sudoku clues above nine

A clue above nine was taken for a clue of a later cell, or ignored when
there is no later cell, and a solution was returned that contradicts it.
---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 3eb316a8020d21be628f9f73903db938fa852908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 05/15] fix: give vertical directions in the solution of mazes
 of width one

With a width of one the cell below is also the next cell, and steps down
were reported as steps to the right.
---
 src/puzzles/maze/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..6d0c1ac 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,14 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From c0249d09519bfcb8ce7869662b869dfaa487944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 06/15] fix: do not panic when creating a maze without cells

---
 src/puzzles/maze/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 6d0c1ac..2e80bf0 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -60,6 +60,10 @@ pub fn create_maze(
     height: usize,
     algorithm: MazeAlgorithm,
 ) -> (Vec<MazeNode>, Vec<MazeDirection>) {
+    if width == 0 || height == 0 {
+        return (Vec::new(), Vec::new());
+    }
+
     let mut grid = match algorithm {
         MazeAlgorithm::RecursiveBacktrack => recursive_backtrack(width, height),
     };
-- 
2.43.0


From a64188c0034a02c44722db3b65c5710a087d06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 07/15] fix: accept maze solutions that step back to the first
 column or row

Only a step to the left of column 0 (or above row 0) leaves the maze.
---
 src/puzzles/maze/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 2e80bf0..4fb021c 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -211,7 +211,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x == 0 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -222,7 +222,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y == 0 {
                     return Err(MazeError::InvalidSolution);
                 }
 
-- 
2.43.0


From 78dcccece386bd56ae73b825b6cb6a51763768f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 08/15] fix: accept maze solutions that end in the bottom row

The last segment goes down to the outer wall at y * 10 + 10, but eleven
rows below it were required to exist, so no solution of a maze that
print_maze draws was ever accepted.
---
 src/puzzles/maze/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 4fb021c..e8fef07 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -235,7 +235,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From 587c9668888a67e8fd46e9cd2c4083d89420809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 09/15] fix: return an error for mazes too large to print
 instead of overflowing

---
 src/puzzles/maze/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index e8fef07..2a4fc2d 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -140,7 +140,12 @@ pub fn print_maze(width: u32, height: u32, grid: &[MazeNode]) -> Result<RgbBuffe
         return Err(MazeError::InvalidDimensions);
     }
 
-    let mut image = RgbImage::from_pixel(width * 10 + 1, height * 10 + 1, WHITE_PIXEL);
+    let image_size = |cells: u32| cells.checked_mul(10)?.checked_add(1);
+    let (Some(image_width), Some(image_height)) = (image_size(width), image_size(height)) else {
+        return Err(MazeError::InvalidDimensions);
+    };
+
+    let mut image = RgbImage::from_pixel(image_width, image_height, WHITE_PIXEL);
 
     for row in 0..image.height() {
         image.put_pixel(0, row, BLACK_PIXEL);
-- 
2.43.0


From 45506e58d564ad94c1002c809dfb334585747a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 10/15] fix: return an error for nonograms too large to print
 instead of overflowing

---
 src/puzzles/nonogram/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..d3ac188 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -118,6 +118,9 @@ fn right_left(
 
 fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
 
+/// The largest width or height for which the size of the image fits in a u32
+const MAX_PRINT_SIZE: u32 = u32::MAX / 60;
+
 pub fn print_nonogram(
     width: u32,
     height: u32,
@@ -128,6 +131,10 @@ pub fn print_nonogram(
         return Err(NonogramError::InvalidDimensions);
     }
 
+    if width > MAX_PRINT_SIZE || height > MAX_PRINT_SIZE {
+        return Err(NonogramError::InvalidDimensions);
+    }
+
     let rule_width = max(150, width * 10);
     let rule_height = max(150, height * 10);
 
@@ -206,6 +213,10 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
+    if width > MAX_PRINT_SIZE || height > MAX_PRINT_SIZE {
+        return Err(NonogramError::InvalidDimensions);
+    }
+
     let rule_width = max(150, width * 10);
     let rule_height = max(150, height * 10);
 
-- 
2.43.0


From 5965d749266bcc6ac5464453a6002a2dfed09a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 11/15] fix: reject nonogram rules whose length overflows

The length of a rule was added up with wrapping (or panicking) addition,
so a rule such as 18446744073709551615,1 fitted any bound.
---
 src/puzzles/nonogram/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index d3ac188..38b987e 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -44,13 +44,17 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = value
+                        .checked_add(size)
+                        .ok_or(NonogramError::InvalidRuleDimension)?;
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = (values.len() - 1)
+                .checked_add(size)
+                .ok_or(NonogramError::InvalidRuleDimension)?;
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From 67ba483adf9594033f8d93396a7fe20a5c4f8553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 12/15] fix: do not panic on nonogram rules with a zero

A line without filled squares is written as the rule 0, which the rule
machine turned into a sequence of states it treats as unreachable.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..e0af651 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value != 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value != 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 6bb0d29d3f3b9b53dca8f9fe4f4ae3cf2dbc03f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 13/15] fix: report empty nonograms instead of panicking

Solving a puzzle with columns but no rows indexed an empty grid.
---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 38b987e..b1fae85 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -76,6 +76,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From ac05a3fe6314379b75e617d6828f232b01555589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 14/15] fix: report nonogram rules that do not fit as having no
 solution

A state is allocated for every square of a rule before it is compared
with the line, which panicked (or exhausted memory) on huge rules.
---
 src/puzzles/nonogram/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index b1fae85..e673114 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -80,6 +80,16 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         return Err(NonogramError::EmptyPuzzle);
     }
 
+    let fits = |rule: &Vec<usize>, length: usize| {
+        rule.iter()
+            .try_fold(0usize, |size, &value| size.checked_add(value))
+            .is_some_and(|size| size <= length)
+    };
+
+    if !col.iter().all(|rule| fits(rule, height)) || !row.iter().all(|rule| fits(rule, width)) {
+        return Err(NonogramError::NoSolution);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From 8ecd839a8d8a49c58206d836b3f41d16b04dd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 15/15] fix: solve nonograms that line solving leaves
 incomplete

recursive_backtrack was empty: puzzles that need a guess came back as
Ok with every undecided square empty, which satisfies no rule, also when
they have no solution.
---
 src/puzzles/nonogram/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index e673114..43e11aa 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -93,7 +93,7 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+    recursive_backtrack(&mut grid, col, row)?;
 
     Ok(grid
         .iter()
@@ -134,7 +134,29 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+fn recursive_backtrack(
+    grid: &mut [Square],
+    col: &[Vec<usize>],
+    row: &[Vec<usize>],
+) -> Result<(), NonogramError> {
+    let Some(blank) = grid.iter().position(|square| *square == Square::Blank) else {
+        return Ok(());
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[blank] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok()
+            && recursive_backtrack(&mut attempt, col, row).is_ok()
+        {
+            grid.clone_from_slice(&attempt);
+            return Ok(());
+        }
+    }
+
+    Err(NonogramError::NoSolution)
+}
 
 /// The largest width or height for which the size of the image fits in a u32
 const MAX_PRINT_SIZE: u32 = u32::MAX / 60;
-- 
2.43.0

