From 519dd935ab99f360d11ec409582a562c1eb647c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 1/8] fix: return sources without a unique solution unchanged
 from puzzle generation

Removing clues from a contradictory source could turn it into a uniquely
solvable puzzle, which was then returned instead of the source.
---
 src/board/sudoku.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 2656e94..0d148ac 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -229,6 +229,12 @@ impl Sudoku {
         symmetry: Symmetry,
         rng: &mut R,
     ) -> Self {
+        // removing clues can resolve contradictions, so sources without a unique solution
+        // must be sorted out before any are removed
+        if !sudoku.is_uniquely_solvable() {
+            return sudoku;
+        }
+
         // this function is following
         // the approach outlined here: https://stackoverflow.com/a/7280517
         //
-- 
2.43.0


From 40154a06f2627c38d6481dee72ca332e64ef666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 2/8] fix: report the number of rows found in
 BlockParseError::NotEnoughRows

It was one too high: a text with 8 rows was said to have 9.
---
 src/board/sudoku.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/sudoku.rs b/src/board/sudoku.rs
index 0d148ac..3a3251c 100644
--- a/src/board/sudoku.rs
+++ b/src/board/sudoku.rs
@@ -526,7 +526,7 @@ impl Sudoku {
             n_line_sud += 1;
         }
         if n_line_sud != 9 {
-            return Err(BlockParseError::NotEnoughRows(n_line_sud + 1)); // number of rows = index of last + 1
+            return Err(BlockParseError::NotEnoughRows(n_line_sud));
         }
         Ok(Sudoku(grid))
     }
-- 
2.43.0


From 670543c325a65b7e7d1c54fa565d034ec042cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 3/8] fix: panic on out-of-range numbers in position
 constructors as documented

---
 src/board/positions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/board/positions.rs b/src/board/positions.rs
index 81c4fd9..5a62193 100644
--- a/src/board/positions.rs
+++ b/src/board/positions.rs
@@ -179,7 +179,7 @@ macro_rules! define_types(
             /// # Panics
             /// Panics, if the argument is outside the allowed range.
             pub fn new(num: u8) -> Self {
-                debug_assert!(num < $limit);
+                assert!(num < $limit);
                 $name(num)
             }
 
-- 
2.43.0


From 0b35fc666461ef28eb3a7da61a334106aca767a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 4/8] fix: Enter all naked singles when they are the first
 strategy

As the first strategy, NakedSingles only found those naked singles that
showed while new entries were inserted by itself. If another strategy or
a query such as cell_state had updated the candidates before, naked
singles were left behind and solving stopped early, e.g. with the list
[NakedSingles, HiddenSingles].
---
 src/strategy/strategies.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/strategy/strategies.rs b/src/strategy/strategies.rs
index a55e59d..f67b3ec 100644
--- a/src/strategy/strategies.rs
+++ b/src/strategy/strategies.rs
@@ -78,7 +78,10 @@ impl Strategy {
         use self::Strategy::*;
         match *self {
             NakedSingles if !stop_after_first && is_first_strategy => {
-                state._update_cell_poss_house_solved(true, true)
+                // finds the singles that new entries and eliminations give rise to
+                state._update_cell_poss_house_solved(true, true)?;
+                // finds the singles in cells that were up to date already
+                state.find_naked_singles(false)
             }
             NakedSingles => state.find_naked_singles(stop_after_first),
             HiddenSingles => state.find_hidden_singles(stop_after_first),
-- 
2.43.0


From 0c12684ff55f9c88dafbac9432a2b87d2c6ffe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:23 +0000
Subject: [PATCH 5/8] fix: Fail when inserting a digit into a cell that already
 contains it

insert_candidate is documented to fail if the cell already contains a
digit. With the same digit it returned Ok and removed the most recent
deduction from the history.
---
 src/strategy/solver.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 27f8630..85c91f5 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -208,6 +208,9 @@ impl StrategySolver {
     #[allow(clippy::result_unit_err)] // yes, it should be changed
     pub fn insert_candidate(&mut self, candidate: Candidate) -> Result<(), ()> {
         self.update_grid();
+        if self.grid.state.0[candidate.cell.as_index()] != 0 {
+            return Err(());
+        }
         Self::push_new_candidate(
             &mut self.grid.state,
             &mut self.deduced_entries,
-- 
2.43.0


From 44d7909c40011ab01999a7cad2da1e044bcad4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:27 +0000
Subject: [PATCH 6/8] fix: Recognize solved grids by their entries

StrategySolver::is_solved relied on a counter that is only updated when
strategies or queries process the entries and that can also count
conflicting entries. After inserting the last candidates it returned
false, solve returned Err for solved grids when called without
strategies, and after insertions that contradict each other it could
return Ok with an invalid grid. Deductions made in impossible sudokus
could also overwrite clues.
---
 src/strategy/solver.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 85c91f5..8b114fa 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -232,8 +232,16 @@ impl StrategySolver {
     }
 
     fn update_grid(&mut self) {
-        for &Candidate { cell, digit } in &self.deduced_entries {
-            self.grid.state.0[cell.as_index()] = digit.get();
+        Self::enter_candidates(&mut self.grid.state, &self.deduced_entries);
+    }
+
+    fn enter_candidates(sudoku: &mut Sudoku, entries: &[Candidate]) {
+        for &Candidate { cell, digit } in entries {
+            // in impossible sudokus, deductions can contradict earlier entries
+            let entry = &mut sudoku.0[cell.as_index()];
+            if *entry == 0 {
+                *entry = digit.get();
+            }
         }
     }
 
@@ -258,6 +266,8 @@ impl StrategySolver {
             // no chance without strategies
             None => return false,
         };
+        // deductions that contradict known entries are recognized with the grid
+        self.update_grid();
         let lens = (self.deduced_entries.len(), self.eliminated_entries.len());
         'outer: loop {
             if self.is_solved() {
@@ -288,7 +298,14 @@ impl StrategySolver {
 
     /// Check whether the sudoku has been completely solved.
     pub fn is_solved(&self) -> bool {
-        self.n_solved == 81
+        // n_solved isn't sufficient for this. It lags behind while there are entries that haven't been processed yet
+        // and it can count conflicting entries in impossible sudokus.
+        if self.deduced_entries.len() < 81 {
+            return false;
+        }
+        let mut sudoku = self.grid.state;
+        Self::enter_candidates(&mut sudoku, &self.deduced_entries);
+        sudoku.is_solved()
     }
 
     fn update_cell_poss_house_solved(&mut self) -> Result<(), Unsolvable> {
-- 
2.43.0


From e41434fa5063f8e1c257752220c3730d1549f1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 7/8] fix: Don't report the row number as the number of entries
 found

BlockParseError::InvalidLineLength contains the index of the row, but its
message presented it as the number of entries: a text whose second row has
8 entries gave "a sudoku line should have 9 entries, found 1".
---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index 1afacce..13d7737 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -63,7 +63,7 @@ pub enum BlockParseError {
     InvalidEntry(InvalidEntry),
     /// Line contains (>9 valid entries) or (<9 and no invalids)
     /// Returns index of row (0-8)
-    #[error("a sudoku line should have 9 entries, found {0}")]
+    #[error("sudoku row {0} should have 9 entries")]
     InvalidLineLength(u8),
     /// Input ends with less than 9 rows. Returns number of rows encountered.
     #[error("a sudoku should have 9 rows, found only {0}")]
-- 
2.43.0


From ebae8285abec164c4f972a9f9329512f62a2ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:55 +0000
Subject: [PATCH 8/8] fix: Repeat the first strategy after it excluded
 candidates

solve stopped although the first strategy of the list could still
exclude candidates, if none of the others found anything after its pass.
---
 src/strategy/solver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strategy/solver.rs b/src/strategy/solver.rs
index 8b114fa..4849401 100644
--- a/src/strategy/solver.rs
+++ b/src/strategy/solver.rs
@@ -279,7 +279,7 @@ impl StrategySolver {
             if first.deduce_all(self, true).is_err() {
                 break;
             };
-            if self.deduced_entries.len() > n_deductions {
+            if self.deduced_entries.len() > n_deductions || self.eliminated_entries.len() > n_eliminated {
                 continue 'outer;
             }
 
-- 
2.43.0

