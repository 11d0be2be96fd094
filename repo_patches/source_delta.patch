From c04d60afa9003bca439bdf9bb540adcea02f05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 01/22] fix: index points row by row with the board's width

On boards that are not square the height was used as the row length, so
different points shared an index and neighbours were lost.
---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From 0edc6c11f5f0ebd2029dee949d11359d9ef454de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:10 +0000
Subject: [PATCH 02/22] fix: export only the points of the board in to_vec and
 matrix

Both listed all 361 slots of the storage whatever the size.
---
 src/pieces/goban.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..93b6b92 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -95,7 +95,7 @@ impl Goban {
 
     /// Returns the underlying goban in a vector with a RowMajor Policy, calculated on the fly.
     pub fn to_vec(&self) -> Vec<MaybeColor> {
-        self.board
+        self.board[..self.length()]
             .iter()
             .map(|point| {
                 point.map_or(EMPTY, |go_str_ptr| {
@@ -108,7 +108,7 @@ impl Goban {
     /// Like vec but in a matrix shape.
     pub fn matrix(&self) -> Vec<Vec<MaybeColor>> {
         let mut mat = vec![];
-        for line in self.board.chunks_exact(self.size.1 as usize) {
+        for line in self.board[..self.length()].chunks_exact(self.size.1 as usize) {
             let v = line
                 .iter()
                 .map(|o| o.map_or(EMPTY, |idx| self.chains[idx].color.into()))
@@ -138,6 +138,12 @@ impl Goban {
         (black_stones, white_stones)
     }
 
+    /// Number of points of the goban.
+    #[inline]
+    const fn length(&self) -> usize {
+        self.size.0 as usize * self.size.1 as usize
+    }
+
     #[inline]
     pub(crate) fn board(&self) -> &[Option<NonMaxU16>] {
         &self.board
-- 
2.43.0


From 8c9f75f4ade8b65ac53339f2415dd1cadcb0b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:12 +0000
Subject: [PATCH 03/22] fix: list only empty points in
 get_coords_by_color(EMPTY)

It listed occupied points too, and the board length overflowed on boards
of more than 255 points.
---
 src/pieces/goban.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 93b6b92..607fd18 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -396,9 +396,12 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
+        for board_idx in 0..self.length() {
             match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
+                EMPTY if self.board[board_idx].is_none() => {
+                    res.push(one_to_2dim(self.size, board_idx))
+                }
+                EMPTY => (),
                 Some(c) => self.board[board_idx]
                     .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
                     .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-- 
2.43.0


From 060c98c95aeb8bdae5500e545c6a9f0ad1b2d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 04/22] fix: make get_empty_idx list the empty points

It listed the occupied ones.
---
 src/pieces/goban.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 607fd18..ab5eef7 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -372,10 +372,11 @@ impl Goban {
     }
 
     pub fn get_empty_idx(&self) -> impl Iterator<Item = BoardIdx> + '_ {
-        self.board
+        self.board[..self.length()]
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter(|(_, group)| group.is_none())
+            .map(|(idx, _)| idx)
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From 57b224ba061e3f359119550aec9135843e520364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 05/22] fix: compute the capacity in pseudo_legals_vec without
 overflow

The product of the two dimensions does not fit u8 from 16x16 on and
panicked in debug builds.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 8e5b303abc34d8deed879e931b1707cb4001c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 06/22] fix: reuse the slots of removed groups

Every new group took a new slot, so a board crashed after 65535 of them
and every copy of it kept growing.
---
 src/pieces/group.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..4b1cfe5 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,16 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        match self.0.iter().position(|slot| slot.is_none()) {
+            Some(free) => {
+                self.0[free] = Some(group);
+                free
+            }
+            None => {
+                self.0.push(Some(group));
+                self.0.len() - 1
+            }
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From edffad1be48273cd53f246b415d433e5eb90d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 07/22] fix: count down the length announced by the group
 iterator

size_hint kept announcing the whole group while it was consumed.
---
 src/pieces/group.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index 4b1cfe5..b0ecde1 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -260,6 +260,9 @@ impl Iterator for CircularGroupIter<'_> {
             .next
             .map(|stone_idx| self.next_stone[stone_idx] as usize)
             .filter(move |&o| o != origin);
+        if ret.is_some() {
+            self.num_stones -= 1;
+        }
 
         #[cfg(debug_assertions)]
         if ret.is_some() && self.next == ret {
-- 
2.43.0


From 3eded3b34ead972f33c40a982be5eea00c59abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 08/22] fix: panic on points outside the board, as documented

push() and play() promise to panic on a point outside the board; in release
builds such a point was silently wrapped onto another one (or onto the part
of the buffer beyond the board).
---
 src/pieces/goban.rs | 4 ++--
 src/rules/game.rs   | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index ab5eef7..573f55c 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -279,12 +279,12 @@ impl Goban {
     /// # Panics
     /// if the point is out of bounds
     pub fn push(&mut self, point: Coord, color: Color) -> &mut Self {
-        debug_assert!(
+        assert!(
             (point.0) < self.size.0,
             "Coordinate point.0 {} out of bounds",
             point.0
         );
-        debug_assert!(
+        assert!(
             (point.1) < self.size.1,
             "Coordinate point.1 {} out of bounds",
             point.1
diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..b2f9b98 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -180,6 +180,10 @@ impl Game {
                 self
             }
             Move::Play(x, y) => {
+                assert!(
+                    is_coord_valid(self.goban.size(), (x, y)),
+                    "The move ({x}, {y}) is outside the board"
+                );
                 //let hash = self.goban.zobrist_hash();
                 self.history.insert(self.goban.clone());
                 let (dead_rens, added_ren) = self.goban.push_wth_feedback((x, y), self.turn);
-- 
2.43.0


From e5f072c2c8e0f811678e0e5a7a22be0afcb48ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:30 +0000
Subject: [PATCH 09/22] fix: resolve suicides in play_for_verification as play
 does

The flag was inverted: the simulation removed a suicide where the rule
forbids it and left it on the board where the rule allows it.
---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index b2f9b98..74679b1 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -207,7 +207,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From 76c39b4287215db76a95f74352fb00cd996ec517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:32 +0000
Subject: [PATCH 10/22] fix: make check_ko look at the stones the move captures

A ko recapture captures exactly one stone. check_ko also counted the
player's own groups in atari, and neither noticed a move that captures
nothing nor one that captures several single stones.
---
 src/rules/game.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 74679b1..28d1b27 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -403,14 +403,17 @@ impl Game {
     /// If the goban is in the configuration of two plays ago returns true
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
-        self.ko_point == Some(stone.coord)
-            && !self
-                .goban
-                .get_connected_groups(stone.coord)
-                .into_iter()
-                .any(|neighbor_go_string| {
-                    neighbor_go_string.is_atari() && neighbor_go_string.num_stones > 1
-                })
+        if self.ko_point != Some(stone.coord) {
+            return false;
+        }
+        let captured = self
+            .goban
+            .get_connected_groups(stone.coord)
+            .into_iter()
+            .filter(|group| group.color != stone.color && group.is_atari())
+            .map(|group| group.num_stones)
+            .collect::<Connections<_>>();
+        *captured == [1]
     }
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
-- 
2.43.0


From 8b24380efc2338c9c5a05b630a10bff36b974d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 11/22] fix: make check_eye independent of the orientation of
 the board

The verdict depended on which of the empty corners was looked at first, so
the same shape was an eye or not according to how it was turned.
---
 src/rules/game.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 28d1b27..a06d94e 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -380,21 +380,19 @@ impl Game {
         // If one corner or 2 are not allied corners then we need to test if the remaining corners are an eye.
         // We cannot call this function recursively because fo complexity with loops.
         if [3, 2].contains(&total_corners) {
-            for coord in empty_corners {
-                // We test the cross again for the empty corner
-                if self
-                    .goban
+            // We test the cross again for the empty corners
+            if empty_corners.iter().any(|&coord| {
+                self.goban
                     .get_connected_stones(coord)
                     .any(move |s| s.color != color)
-                {
-                    return false;
-                }
+            }) {
+                return false;
+            }
+            return empty_corners.iter().any(|&coord| {
                 let (ca, cof, _emc) = self.helper_check_eye(coord, color);
                 let c = ca.len() + cof.len();
-                if c == 3 || c == 2 {
-                    return true;
-                }
-            }
+                c == 3 || c == 2
+            });
         }
         false
     }
-- 
2.43.0


From c67b2d0fa144e165cd71b51188c8415cc438b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:52 +0000
Subject: [PATCH 12/22] fix: find every repeated position in check_super_ko

The rule was only applied from the third move on and to moves that capture:
a suicide, or a stone put back where a suicide had emptied the board, could
recreate an old position. On the other hand every ko recapture was refused,
even when the position was new.
---
 src/rules/game.rs | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index a06d94e..3419686 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -2,14 +2,15 @@ use crate::pieces::goban::*;
 use crate::pieces::stones::Color::{Black, White};
 use crate::pieces::stones::{Color, Stone, EMPTY};
 use crate::pieces::util::coord::{corner_points, is_coord_valid, two_to_1dim, Coord, Size};
+use crate::pieces::zobrist::index_zobrist;
 use crate::pieces::{Connections, Nat};
 use crate::rules::EndGame::{Draw, WinnerByScore};
 use crate::rules::Rule;
 use crate::rules::{EndGame, GobanSizes, IllegalRules, Move, ScoreRules};
 use crate::rules::{PlayError, CHINESE};
 use hash_hasher::{HashBuildHasher, HashHasher};
-use indexmap::IndexSet;
-use std::hash::BuildHasherDefault;
+use indexmap::{Equivalent, IndexSet};
+use std::hash::{BuildHasherDefault, Hash, Hasher};
 use std::ops::Deref;
 
 /// Most important struct of the library, it's the entry point.
@@ -36,6 +37,21 @@ impl Deref for Game {
     }
 }
 
+/// Key to look for a position in the history by its hash only.
+struct PositionHash(u64);
+
+impl Hash for PositionHash {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        state.write_u64(self.0);
+    }
+}
+
+impl Equivalent<Goban> for PositionHash {
+    fn equivalent(&self, goban: &Goban) -> bool {
+        self.0 == goban.zobrist_hash()
+    }
+}
+
 impl Game {
     /// Crates a new game for playing Go
     pub fn new(size: GobanSizes, rule: Rule) -> Self {
@@ -416,15 +432,17 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
-            false
-        } else {
-            let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+        if !self.will_capture(stone.coord) && !self.check_suicide(stone) {
+            // No stone leaves the board: the hash of the result is known, the move is simulated
+            // only when an old position has this hash.
+            let stone_idx = two_to_1dim(self.goban.size(), stone.coord);
+            let hash = self.goban.zobrist_hash() ^ index_zobrist(stone_idx, self.turn);
+            if !self.history.contains(&PositionHash(hash)) {
+                return false;
+            }
         }
+        let to_check = self.play_for_verification(stone.coord);
+        to_check == self.goban || self.history.contains(&to_check)
     }
 
     /// Add a stone to the board and then test if the stone or stone group is dead.
-- 
2.43.0


From 62ce062e7fe15660a795fd3c3f7234c02dfa8539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 13/22] fix: give the game to the opponent of the player who
 resigns

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 3419686..477c9cb 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -211,7 +211,7 @@ impl Game {
                 self
             }
             Move::Resign(player) => {
-                self.outcome = Some(EndGame::WinnerByResign(player));
+                self.outcome = Some(EndGame::WinnerByResign(!player));
                 self
             }
         }
-- 
2.43.0


From 68ce3824da7ff1ea0c8608c1ef071e0484f88609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 14/22] fix: refuse custom sizes above 255 instead of
 truncating them

Custom(265, 9) made a 9x9 board.
---
 src/rules/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..02c6786 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,10 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => (
+                u8::try_from(height).expect("The height is too large"),
+                u8::try_from(width).expect("The width is too large"),
+            ),
         }
     }
 }
-- 
2.43.0


From ed2bea7c2dabf6cb40eda81dfc50bc304df82554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 15/22] fix: read SGF sizes as columns:rows

SZ[columns:rows] was taken for (height, width): a record of a non square
board was played on a transposed one.
---
 src/rules/sgf_bridge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..362e31f 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,7 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            game_builder.size((*y as u8, *x as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From cc3fd5319cb7c4cdafc871874c9a3e3fb2f8977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 16/22] fix: replay every SGF move with its recorded colour

The import only looked at the first property of the nodes after the root and
ignored the colour of the moves: moves behind a comment or a time were lost,
moves in the root too, and a player moving twice turned into alternation.
---
 src/rules/sgf_bridge.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 362e31f..d57f926 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -16,9 +16,14 @@ impl Game {
         }?;
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
-        let mut moves = vec![];
+        let mut moves: Vec<(Color, Move)> = vec![];
 
         for node in game_tree.iter() {
+            for token in &node.tokens {
+                if let SgfToken::Move { color, action } = token {
+                    moves.push(((*color).into(), (*action).into()));
+                }
+            }
             if first {
                 // first token if the root token
                 // Game information
@@ -75,15 +80,16 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
-                }
             }
         }
-        game_builder.moves(&moves);
-        game_builder.build()
+
+        let mut game = game_builder.build()?;
+        for (color, play) in moves {
+            // The record tells who plays, the turns don't always alternate.
+            game.turn = color;
+            game.play(play);
+        }
+        Ok(game)
     }
 }
 
-- 
2.43.0


From 40e8c955a129e8db87e631be314bc19342af8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 17/22] fix: import the SGF move tt as a pass

---
 src/rules/sgf_bridge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index d57f926..1b3d858 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -127,6 +127,8 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
+            // "tt" is the pass of the older versions of SGF
+            Action::Move(20, 20) => Move::Pass,
             Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
             Action::Pass => Move::Pass,
         }
-- 
2.43.0


From 6191eb2719079767ae326fb9146ad661cb278b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 18/22] fix: import the SGF result 0 as a draw

---
 src/rules/sgf_bridge.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 1b3d858..5406d07 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -38,6 +38,10 @@ impl Game {
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
                         }
+                        // The standard spelling of a draw is RE[0], the parser only knows RE[Draw]
+                        SgfToken::Invalid((key, value)) if key == "RE" && value == "0" => {
+                            game_builder.outcome(EndGame::Draw);
+                        }
                         SgfToken::Add {
                             color,
                             coordinate: (x, y),
-- 
2.43.0


From e15da3ae9963f77e0c14b5169782b7e88ac205e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 19/22] fix: report unusable SGF records as errors

from_sgf returns a Result but panicked on (or silently misread) sizes above
19, unsupported rules, games other than Go, unknown players, points outside
the board, occupied points and a third pass.
---
 src/rules/sgf_bridge.rs | 53 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 5406d07..d7c24b0 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -1,6 +1,7 @@
 use sgf_parser::{Action, Outcome, RuleSet, SgfToken};
 
 use crate::pieces::stones::{Color, Stone};
+use crate::pieces::util::coord::{is_coord_valid, Size};
 use crate::pieces::Nat;
 use crate::rules::game::Game;
 use crate::rules::game_builder::GameBuilder;
@@ -16,11 +17,16 @@ impl Game {
         }?;
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
+        let mut size: Size = (19, 19);
+        let mut setup: Vec<Stone> = vec![];
         let mut moves: Vec<(Color, Move)> = vec![];
 
         for node in game_tree.iter() {
             for token in &node.tokens {
                 if let SgfToken::Move { color, action } = token {
+                    if matches!(action, Action::Move(0, _) | Action::Move(_, 0)) {
+                        return Err("A move is outside the board".to_string());
+                    }
                     moves.push(((*color).into(), (*action).into()));
                 }
             }
@@ -33,7 +39,11 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*y as u8, *x as u8));
+                            if !(1..=19).contains(x) || !(1..=19).contains(y) {
+                                return Err(format!("The size {x}:{y} is not supported"));
+                            }
+                            size = (*y as u8, *x as u8);
+                            game_builder.size(size);
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
@@ -46,7 +56,10 @@ impl Game {
                             color,
                             coordinate: (x, y),
                         } => {
-                            game_builder.add(Stone {
+                            if *x == 0 || *y == 0 {
+                                return Err("A setup stone is outside the board".to_string());
+                            }
+                            setup.push(Stone {
                                 coord: ((*y - 1) as Nat, (*x - 1) as Nat),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
@@ -54,14 +67,22 @@ impl Game {
                                 },
                             });
                         }
-                        SgfToken::Rule(rule) => {
+                        SgfToken::Rule(rule @ (RuleSet::Japanese | RuleSet::Chinese)) => {
                             game_builder.rule(rule.clone().into());
                         }
+                        SgfToken::Rule(rule) => {
+                            return Err(format!(
+                                "The rule {} is not implemented yet !",
+                                rule.to_string()
+                            ));
+                        }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err("The record is not a game of Go".to_string());
+                            }
                         }
 
                         //TODO another options
@@ -77,7 +98,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player {value}")),
                                 }
                             }
                         }
@@ -87,8 +108,30 @@ impl Game {
             }
         }
 
+        for (i, stone) in setup.iter().enumerate() {
+            if !is_coord_valid(size, stone.coord) {
+                return Err(format!("The setup stone {stone:?} is outside the board"));
+            }
+            if setup[..i].iter().any(|other| other.coord == stone.coord) {
+                return Err(format!("The setup stone {stone:?} is on an occupied point"));
+            }
+            game_builder.add(*stone);
+        }
+
         let mut game = game_builder.build()?;
         for (color, play) in moves {
+            match play {
+                Move::Play(x, y) if !is_coord_valid(size, (x, y)) => {
+                    return Err(format!("The move {play:?} is outside the board"));
+                }
+                Move::Play(x, y) if game.get_color((x, y)).is_some() => {
+                    return Err(format!("The move {play:?} is on an occupied point"));
+                }
+                Move::Pass if game.passes >= 2 => {
+                    return Err("The record has three passes in a row".to_string());
+                }
+                _ => (),
+            }
             // The record tells who plays, the turns don't always alternate.
             game.turn = color;
             game.play(play);
-- 
2.43.0


From 9c2ea5689e3c9083f1f49c7ca8d803aeefe700be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 20/22] fix: make get_floating_stones return the groups without
 two eyes

It returned the groups *with* eyes, counted the eyes from zero and confused
the rank of a group with its index.
---
 src/pieces/goban.rs      | 5 +++++
 src/rules/dead_stones.rs | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 573f55c..9f34c5b 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,11 @@ impl Goban {
         self.chains.iter()
     }
 
+    /// Returns all the groups in the goban with their indexes.
+    pub(crate) fn chains_with_index(&self) -> impl Iterator<Item = (GroupIdx, Group)> + '_ {
+        self.chains.iter_with_index()
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..a630ba1 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,10 +148,10 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
+        let all_chains = self.goban.chains_with_index();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
@@ -159,7 +159,7 @@ impl Game {
             .collect::<HashSet<_>>();
 
         all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
+            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))
             .map(|(idx, _chain)| idx)
             .collect()
     }
-- 
2.43.0


From 4d8c1c8a7b54f385562bb4c0b3648f5e69b72930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 21/22] fix: do not panic on drawn playouts in dead_stones

---
 src/rules/dead_stones.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index a630ba1..9c230b0 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -79,8 +79,9 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        // A drawn playout rewards nobody
+        let winner = child.outcome().and_then(|outcome| outcome.get_winner());
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From 46e54bc6361c50833819e406b2df5a86b43202a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 22/22] fix: SGF import refuses records nested too deeply
 instead of overflowing the stack

---
 src/rules/sgf_bridge.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index d7c24b0..be43e13 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -9,8 +9,39 @@ use crate::rules::{EndGame, Move, Rule, CHINESE, JAPANESE};
 
 type SgfColor = sgf_parser::Color;
 
+/// The deepest nesting of variations accepted in a record.
+const MAX_NESTING: usize = 256;
+
+/// Depth of the variations of a record, brackets in property values don't count.
+fn nesting(sgf_str: &str) -> usize {
+    let mut depth = 0_usize;
+    let mut deepest = 0;
+    let mut in_value = false;
+    let mut previous = 0;
+    for byte in sgf_str.bytes() {
+        match byte {
+            b']' if in_value => in_value = previous == b'\\',
+            _ if in_value => (),
+            b'[' => in_value = true,
+            b'(' => {
+                depth += 1;
+                deepest = deepest.max(depth);
+            }
+            b')' if depth <= 1 => break,
+            b')' => depth -= 1,
+            _ => (),
+        }
+        previous = byte;
+    }
+    deepest
+}
+
 impl Game {
     pub fn from_sgf(sgf_str: &str) -> Result<Self, String> {
+        // The parser is recursive, such a record would overflow the stack.
+        if nesting(sgf_str) > MAX_NESTING {
+            return Err("The variations of the record are nested too deeply".to_string());
+        }
         let game_tree = match sgf_parser::parse(sgf_str) {
             Ok(game) => Ok(game),
             Err(e) => Err(e.to_string()),
-- 
2.43.0

