From e16aaec3d0e555b3adf2cee7cde28bcdcfc11bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 01/20] fix: plain face turns on big cubes only turn the outer
 layer

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From 119d7d1ed5c1fdc7e34bd10764e591cb8870c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 02/20] fix: center edges follow the depth of the move, not its
 maximum depth

---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From 131f9b50c5a3771042b0abc42e7d3f9010629a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 03/20] fix: a center corner is only solved on its own face

---
 barbarosa/src/cube_n/pieces/center/corner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..a209af4 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,8 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        self.axis == original_pos.axis
+            && self.position[self.axis] == original_pos.position[original_pos.axis]
     }
 }
 
@@ -95,7 +96,8 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis
+            && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From 01e9ca49a41c9267f541451a9010eae3f7ac6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 04/20] fix: the 5x5x5 has wings

---
 barbarosa/src/cube_n/cube5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..6c2696e 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -40,6 +43,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 1ad2c0f4f7f526022050245c779c09be8e185011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 05/20] fix: a 5x5x5 with same-coloured centers exchanged is
 solved

---
 barbarosa/src/cube_n/cube5/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 6c2696e..cedcbc2 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -37,6 +37,17 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.wings.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From ced186f2ea9bf851fb3a85c73cda7e6452441138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 06/20] fix: rotations of an orientation lead to that
 orientation

---
 barbarosa/src/cube_n/orientable/orientation.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..44329a5 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -47,13 +47,11 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
         return None;
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
-    };
+    if from.axis == to.axis {
+        return Some(AxisRotation::new(face.axis, Amount::Double));
+    }
 
-    Some(AxisRotation::new(face.axis, amount))
+    connecting_rotation(from, to)
 }
 
 impl Orientation {
@@ -76,12 +74,7 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From 12855d8393b317ee7e00fceeb280f1169af46f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/20] fix: moves of a rotated cube turn the face that is at
 that place

---
 barbarosa/src/cube_n/orientable/mod.rs         |  7 +------
 barbarosa/src/cube_n/orientable/orientation.rs | 12 ++++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..d5cca3b 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,12 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
-
+        let m = self.orientation.to_base(m.clone());
         self.base_cube.apply(&m);
     }
 }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 44329a5..abd5492 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -86,6 +86,18 @@ impl Orientation {
         }
     }
 
+    /// Turns something given as seen in the current orientation into what it is in the default one,
+    /// by undoing the rotations that led here.
+    pub(crate) fn to_base<T: Rotatable>(&self, mut seen: T) -> T {
+        let rotations: Vec<_> = self.rotations().collect();
+
+        for rotation in rotations.iter().rev() {
+            seen.rotate(&rotation.inverse());
+        }
+
+        seen
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From 4c0e2f503419b875b5d35d5ad60050df3f5bb127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 08/20] fix: wide moves of an orientable cube turn depth + 1
 layers, as seen in its orientation

---
 barbarosa/src/cube_n/moves/extended.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..a001f84 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -72,19 +72,22 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        // A wide move of depth `d` turns `d + 1` layers
+                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth().saturating_add(2)) else {
+                            // If there is no layer left on the other side, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
 
-                        let m = if m.depth() < depth_oppossite {
+                        let mut m = if m.depth() <= depth_oppossite {
                             m.clone()
                         } else {
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             opposite(&m, depth_oppossite)
                         };
 
+                        m.axis_move = self.orientation.to_base(m.axis_move);
+
                         let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
                             .expect("the depth from both sides can't be larger than N/2");
                         self.base_cube.apply(&m);
-- 
2.43.0


From 113633fea7cbba7a7f6a4000be3d64112bbd7504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 09/20] fix: slice moves turn both outer layers against the
 rotation, as seen in the current orientation

---
 barbarosa/src/cube_n/moves/extended.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index a001f84..a5dc234 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -99,7 +99,9 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            // The outer layers turn against the rotation, which for the negative face is clockwise
+                            let m = AxisMove::new(Face::new(rot.axis, dir), rot.amount * dir * Direction::Negative);
+                            let m = self.orientation.to_base(m).widen::<{ <$cube>::N / 2 - 1 }>(depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From cc3d4217c7cc8840ad36da06e48ef55ffd651ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 10/20] fix: normalizing an alg joins moves on both sides of a
 cancellation

---
 barbarosa/src/cube_n/moves/non_redundant.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..ed86cc8 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,17 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back to the last axis (which can have two moves) to see
+                // if we can join it with something else
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
-                    if let Some(mov) = moves.pop() {
+                    while let Some(mov) = moves.pop() {
+                        let axis = mov.face.axis;
                         self.moves.push(mov);
+
+                        if !moves.last().is_some_and(|last| last.face.axis == axis) {
+                            break;
+                        }
                     }
                 }
 
-- 
2.43.0


From c35391d9970d5a06f35fd40ae5bbd6fcf0073871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 11/20] fix: an orientable cube is solved when its base cube is

---
 barbarosa/src/cube_n/orientable/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index d5cca3b..a825000 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -65,6 +65,10 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     const SOLVED: Self = Orientable::new(C::SOLVED);
+
+    fn is_solved(&self) -> bool {
+        self.orientation == Orientation::const_default() && self.base_cube.is_solved()
+    }
 }
 
 impl<C: CubeN> AsMove for Orientable<C>
-- 
2.43.0


From a66ef0c97737eaa22da6ebf4b9ada738377764e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 12/20] fix: random 2x2x2s have twisted corners

---
 barbarosa/src/cube_n/cube2/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube2/mod.rs b/barbarosa/src/cube_n/cube2/mod.rs
index 168a20a..aa56eb6 100644
--- a/barbarosa/src/cube_n/cube2/mod.rs
+++ b/barbarosa/src/cube_n/cube2/mod.rs
@@ -41,6 +41,10 @@ impl Distribution<Cube2> for Standard {
 
         cube.corners.shuffle(rng);
 
+        cube.corners
+            .iter_mut_unchecked()
+            .for_each(|corner| corner.orientation_axis = rng.gen());
+
         fix_corner_multiplicity(&mut cube.corners);
 
         cube
-- 
2.43.0


From 3e18efe2b842451be10d177f7914d38e671667bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:43 +0000
Subject: [PATCH 13/20] fix: the depth of a wide move can have several digits

---
 barbarosa/src/grammar/cube_n.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/grammar/cube_n.pest b/barbarosa/src/grammar/cube_n.pest
index fc5c5e7..d4dff8f 100644
--- a/barbarosa/src/grammar/cube_n.pest
+++ b/barbarosa/src/grammar/cube_n.pest
@@ -5,7 +5,7 @@ amount = { "2" | "'" | "" }
 axis_move = ${ face ~ amount }
 
 wide_face = ${ (face ~ "w") | face_small }
-depth = { NUMBER? }
+depth = @{ ASCII_DIGIT* }
 wide_move = ${ ((depth ~ wide_face) | face) ~ amount }
 
 axis = { "x" | "y" | "z" }
-- 
2.43.0


From 4a84c56182c0cd30f7eb84863285558c72a881bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 14/20] fix: printing the deepest wide move does not overflow

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index aae577e..9ef2258 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -111,7 +111,7 @@ impl<const N: u32> std::fmt::Display for WideAxisMove<N> {
             i => write!(
                 f,
                 "{}{}w{}",
-                i + 1,
+                u64::from(i) + 1,
                 self.axis_move.face,
                 self.axis_move.amount
             ),
-- 
2.43.0


From 556f6c8e4f77ee871f1b771fda406db1c62424ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 15/20] fix: the playground ends at the end of its input

---
 barbarosa/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/main.rs b/barbarosa/src/main.rs
index 6fd8745..7ba1c22 100644
--- a/barbarosa/src/main.rs
+++ b/barbarosa/src/main.rs
@@ -33,10 +33,14 @@ fn playground_3x3() {
 
     let mut cube = Orientable::new(Cube3::SOLVED);
 
-    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<(), Box<dyn std::error::Error>> {
+    /// Returns whether there might be more input
+    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<bool, Box<dyn std::error::Error>> {
         print!("> ");
         std::io::stdout().flush()?;
-        let input = std::io::stdin().lock().lines().next().unwrap()?;
+        let Some(input) = std::io::stdin().lock().lines().next() else {
+            return Ok(false);
+        };
+        let input = input?;
 
         let mov = Alg::<ExtendedAxisMove>::parse(&input)?;
 
@@ -44,14 +48,16 @@ fn playground_3x3() {
 
         println!("{}", cube.base_cube);
 
-        Ok(())
+        Ok(true)
     }
 
     println!("{}", cube.base_cube);
 
     loop {
-        if let Err(err) = playground_loop(&mut cube) {
-            eprintln!("Error: {}", err);
+        match playground_loop(&mut cube) {
+            Ok(true) => (),
+            Ok(false) => break,
+            Err(err) => eprintln!("Error: {}", err),
         }
     }
 }
-- 
2.43.0


From f5bcb6c3efbb6b69ace72af7f6f53446eb7201ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 16/20] fix: looking up an invalid cube in the mus cache does
 not read out of bounds

---
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index f9ae997..ff0781d 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -37,15 +37,11 @@ impl Cache {
     pub fn get(&self, cube: &Cube3) -> u8 {
         let indices = cube.indices();
 
-        let corner_heuristic = unsafe { self.corners.get_unchecked(indices.corners) };
-        let edge_heuristic = *indices
-            .edges
-            .map(|i| unsafe { self.edges.get_unchecked(i) })
-            .iter()
-            .max()
-            .unwrap();
+        // The set operations that don't check the pieces can make cubes whose indices are out of bounds
+        let corner_heuristic = self.corners[indices.corners];
+        let edge_heuristic = indices.edges.map(|i| self.edges[i]).into_iter().max().unwrap();
 
-        *corner_heuristic.max(edge_heuristic)
+        corner_heuristic.max(edge_heuristic)
     }
 
     /// Initializes the cache.
-- 
2.43.0


From eb64f0dd153cc43178503b817b614c37f76e6193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 17/20] hook: expose the parts of the mus cache to the
 verification harness (cfg barbarosa_verif)

---
 barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs |  2 +-
 barbarosa/src/cube_n/cube3/mus/cache/mod.rs          | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
index 7f21d6a..d256c5c 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/disk_storage.rs
@@ -30,7 +30,7 @@ pub fn load_or_build() -> io::Result<Cache> {
 //     }
 // }
 
-fn load_or_build_partial<T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone>(
+pub fn load_or_build_partial<T: DiskCacheable + Deindexable + Movable<AxisMove> + Clone>(
 ) -> io::Result<Vec<u8>> {
     match load_partial::<T>() {
         Ok(cache) => Ok(cache),
diff --git a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
index ff0781d..2a2ca36 100644
--- a/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
+++ b/barbarosa/src/cube_n/cube3/mus/cache/mod.rs
@@ -7,6 +7,17 @@ mod disk_storage;
 mod generation;
 mod test;
 
+/// Access to the parts of the cache for runtime verification (build with `--cfg barbarosa_verif`)
+#[allow(unexpected_cfgs)]
+#[cfg(barbarosa_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use super::disk_storage::{
+        load_or_build_partial, load_partial, write_partial, DiskCacheable,
+    };
+    pub use super::generation::build_partial;
+}
+
 use std::{io, sync::OnceLock};
 
 use crate::cube3::Cube3;
-- 
2.43.0


From cb1a6a46efd1cd16bae639b1e3cd623cf45a197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 18/20] fix: coordinates reach the last row and column of
 pictures bigger than 4x4

---
 barbarosa/src/cube_n/visualization/unfolded/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/visualization/unfolded/mod.rs b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
index 6b26f34..9ecc612 100644
--- a/barbarosa/src/cube_n/visualization/unfolded/mod.rs
+++ b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
@@ -94,15 +94,16 @@ impl<const N: usize> Square<N> {
     }
 
     fn transform_coord(x: f32) -> Option<usize> {
-        let x = x + 1.0;
-        let x = x * N as f32 / 3.0;
-        let x = x.round();
+        let limit = 1.0 + 1.5 / N as f32;
 
-        if x < 0.0 || x as usize >= N {
+        if x.abs() >= limit {
             return None;
         }
 
-        Some(x as usize)
+        // The first and last colors are at -1 and 1
+        let x = (x + 1.0) * (N as f32 - 1.0) / 2.0;
+
+        Some((x.round() as usize).min(N - 1))
     }
 
     /// Writes the square into a formatter with the specified colorscheme and padding at the front
-- 
2.43.0


From 27ecc71c6f7729da8f9f1c31ae8f38d4b0758eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:45 +0000
Subject: [PATCH 19/20] fix: the search gives up by depth, not by the number of
 rounds

With a heuristic that is not a whole number the bound grows by less than one
per round, so a search with a limit of n could miss a solution shorter than n.
---
 barbarosa/src/generic/search/ida.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/generic/search/ida.rs b/barbarosa/src/generic/search/ida.rs
index 7fb64da..8bbd315 100644
--- a/barbarosa/src/generic/search/ida.rs
+++ b/barbarosa/src/generic/search/ida.rs
@@ -97,8 +97,9 @@ where
 {
     fn search(&self, cube: &C, is_target: impl Fn(&C) -> bool) -> Option<(Alg<M>, C)> {
         let mut bound = (self.heuristic)(cube);
+        let last_bound = bound + self.max_depth as f32;
 
-        for _ in 0..=self.max_depth {
+        while bound <= last_bound {
             let mut min_exceeded = bound + 1.0;
             let mut path = Vec::with_capacity(20);
 
@@ -111,7 +112,8 @@ where
                     solution.moves.reverse();
                     return Some((solution, path.into_iter().last()?));
                 }
-                None => bound = min_exceeded,
+                None if min_exceeded > bound => bound = min_exceeded,
+                None => break,
             }
         }
 
-- 
2.43.0


From f51890af88dca43e5af16352b72ba08b688c3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 20/20] fix: document the unfolding as it is printed, with L
 left of F

---
 barbarosa/src/cube_n/visualization/unfolded/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/visualization/unfolded/mod.rs b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
index 9ecc612..62deec3 100644
--- a/barbarosa/src/cube_n/visualization/unfolded/mod.rs
+++ b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
@@ -135,7 +135,7 @@ impl<const N: usize> Square<N> {
 ///
 /// ```text
 ///   U
-/// R F L
+/// L F R
 ///   D
 ///   B
 /// ```
-- 
2.43.0

