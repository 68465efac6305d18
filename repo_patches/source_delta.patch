From 0accf2eb93032f8ee6ac4a50f3b9ebc47e46d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 01/18] fix: a wide turn moves only the center edges within its
 depth

---
 barbarosa/src/cube_n/pieces/center/edge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/pieces/center/edge.rs b/barbarosa/src/cube_n/pieces/center/edge.rs
index ea2e315..25985c9 100644
--- a/barbarosa/src/cube_n/pieces/center/edge.rs
+++ b/barbarosa/src/cube_n/pieces/center/edge.rs
@@ -133,7 +133,7 @@ impl DepthPiece for CenterEdge {
             return true;
         }
 
-        if m.face() == &self.side_face() && normal_depth <= M {
+        if m.face() == &self.side_face() && normal_depth <= m.depth() {
             return true;
         }
 
-- 
2.43.0


From 6987b94ed6d6e69d701d03877340146c34d77bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 02/18] fix: a plain face turn on a big cube turns only the
 outer layer

---
 barbarosa/src/cube_n/moves/wide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/wide.rs b/barbarosa/src/cube_n/moves/wide.rs
index 45ca0bf..aae577e 100644
--- a/barbarosa/src/cube_n/moves/wide.rs
+++ b/barbarosa/src/cube_n/moves/wide.rs
@@ -135,7 +135,7 @@ macro_rules! impl_movable_wide_move_inductively {
     ($cube:ty, $max_width:literal, 0) => {
         impl crate::generic::Movable<crate::cube_n::AxisMove> for $cube {
             fn apply(&mut self, m: &crate::cube_n::AxisMove) {
-                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen($max_width).unwrap());
+                <$cube as crate::generic::Movable<WideAxisMove<$max_width>>>::apply(self, &m.clone().widen(0).unwrap());
             }
         }
     };
-- 
2.43.0


From ef7eeaa6d98090e77fce428d9d7bae3ba0711ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 03/18] fix: give the 5x5 its wing pieces

---
 barbarosa/src/cube_n/cube5/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index e765cd0..6c2696e 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -8,6 +8,7 @@ use super::{
         center::{corner::CenterCornerSet, edge::CenterEdgeSet},
         corner::CornerSet,
         edge::EdgeSet,
+        wing::WingSet,
     },
     CubeN, WideAxisMove,
 };
@@ -19,6 +20,7 @@ use super::{
 pub struct Cube5 {
     corners: CornerSet,
     edges: EdgeSet,
+    wings: WingSet<1>,
     corner_centers: CenterCornerSet<1>,
     corner_edges: CenterEdgeSet<1>,
 }
@@ -31,6 +33,7 @@ impl generic::Cube for Cube5 {
     const SOLVED: Self = Self {
         corners: CornerSet::SOLVED,
         edges: EdgeSet::SOLVED,
+        wings: WingSet::SOLVED,
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
@@ -40,6 +43,7 @@ impl generic::Movable<WideAxisMove<1>> for Cube5 {
     fn apply(&mut self, m: &WideAxisMove<1>) {
         self.corners.apply(&m.axis_move);
         self.edges.apply(&m.axis_move);
+        self.wings.apply(m);
         self.corner_centers.apply(m);
         self.corner_edges.apply(m);
     }
-- 
2.43.0


From 6c49d4e314679484a55836e0c2e3a608d7789dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 04/18] fix: a 5x5 is solved whichever equal center pieces are
 where

---
 barbarosa/src/cube_n/cube5/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index 6c2696e..cedcbc2 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -37,6 +37,17 @@ impl generic::Cube for Cube5 {
         corner_centers: CenterCornerSet::SOLVED,
         corner_edges: CenterEdgeSet::SOLVED,
     };
+
+    fn is_solved(&self) -> bool
+    where
+        Self: 'static,
+    {
+        self.corners.is_solved()
+            && self.edges.is_solved()
+            && self.wings.is_solved()
+            && self.corner_centers.is_solved()
+            && self.corner_edges.is_solved()
+    }
 }
 
 impl generic::Movable<WideAxisMove<1>> for Cube5 {
-- 
2.43.0


From 674c25449fda2eea8eedb01bb4fe54d44829bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 05/18] fix: a center corner is solved only on its own face

---
 barbarosa/src/cube_n/pieces/center/corner.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index 836a345..a209af4 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -30,7 +30,8 @@ impl generic::Piece for CenterCorner {
     }
 
     fn is_solved(&self, original_pos: &Self::Position) -> bool {
-        self.position[self.axis] == original_pos.position[original_pos.axis]
+        self.axis == original_pos.axis
+            && self.position[self.axis] == original_pos.position[original_pos.axis]
     }
 }
 
@@ -95,7 +96,8 @@ impl CenterCorner {
 
     /// Determines whether the [`CenterCorner`] is solved.
     pub fn is_solved(&self, original: &CenterCorner) -> bool {
-        self.position[self.axis] == original.position[original.axis]
+        self.axis == original.axis
+            && self.position[self.axis] == original.position[original.axis]
     }
 }
 
-- 
2.43.0


From f62f699aa01b892f9f06027b33ee7971013c3ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 06/18] fix: the rotations of an orientation lead to that
 orientation

---
 barbarosa/src/cube_n/orientable/orientation.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index a0d39e0..9fc3aa7 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -47,10 +47,12 @@ fn connecting_rotation_with_face(from: &Face, to: &Face, face: &Face) -> Option<
         return None;
     }
 
-    let amount = match from.axis.get_handedness(&to.axis) {
-        Ok(Direction::Positive) => Amount::Single,
-        Ok(Direction::Negative) => Amount::Inverse,
-        Err(ParallelAxesError::SameAxis(_)) => Amount::Double,
+    let amount = if from.axis == to.axis {
+        Amount::Double
+    } else if from.clone().next_around(&face.axis) == *to {
+        Amount::Single
+    } else {
+        Amount::Inverse
     };
 
     Some(AxisRotation::new(face.axis, amount))
@@ -76,12 +78,8 @@ impl Orientation {
             .map(|rot| Face::U.rotated(rot))
             .unwrap_or(Face::U);
 
-        let r_face = r_rot.as_ref().map(|rot| Face::R.rotated(rot));
-
-        let u_rot = match r_face {
-            Some(r_face) => connecting_rotation_with_face(&new_u, &self.u_face(), &r_face),
-            None => connecting_rotation(&new_u, &self.u_face()),
-        };
+        // The second rotation has to leave the R face where it is
+        let u_rot = connecting_rotation_with_face(&new_u, &self.u_face(), &self.r_face);
 
         use std::iter::{empty, once};
         use Either::*;
-- 
2.43.0


From dbed1d37754db22897627488884718cba364f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 07/18] fix: moves on an oriented cube turn the face the viewer
 sees

---
 barbarosa/src/cube_n/orientable/mod.rs         |  6 +-----
 barbarosa/src/cube_n/orientable/orientation.rs | 13 +++++++++++++
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 70fe38a..06e6801 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -55,11 +55,7 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     fn apply(&mut self, m: &M) {
-        let mut m = m.clone();
-
-        for rotation in self.orientation.rotations() {
-            m.rotate(&rotation);
-        }
+        let m = self.orientation.to_base_frame(m.clone());
 
         self.base_cube.apply(&m);
     }
diff --git a/barbarosa/src/cube_n/orientable/orientation.rs b/barbarosa/src/cube_n/orientable/orientation.rs
index 9fc3aa7..6330e8b 100644
--- a/barbarosa/src/cube_n/orientable/orientation.rs
+++ b/barbarosa/src/cube_n/orientable/orientation.rs
@@ -91,6 +91,19 @@ impl Orientation {
         }
     }
 
+    /// Translates something from the frame of the viewer (like a move) to the frame of the base cube.
+    ///
+    /// The orientation maps the base cube to what the viewer sees, so this goes through it backwards.
+    pub(crate) fn to_base_frame<T: Rotatable>(&self, mut value: T) -> T {
+        let rotations: Vec<_> = self.rotations().collect();
+
+        for rotation in rotations.iter().rev() {
+            value.rotate(&rotation.inverse());
+        }
+
+        value
+    }
+
     pub(super) const fn const_default() -> Self {
         Self {
             r_face: Face::R,
-- 
2.43.0


From 608a12118660e7db6c92035575532030ea8a433c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 08/18] fix: wide moves past the middle leave exactly the
 layers on the other side

---
 barbarosa/src/cube_n/moves/extended.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index c8e1758..3f65250 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -72,8 +72,10 @@ macro_rules! impl_movable_extended {
                     ExtendedAxisMove::Regular(m) => self.apply(m),
                     ExtendedAxisMove::Rotation(rot) => self.orientation.rotate(rot),
                     ExtendedAxisMove::Wide(m) => {
-                        let Some(depth_oppossite) = <$cube>::N.checked_sub(m.depth()) else {
-                            // If depth is more than N, then it is equivalent to a rotation
+                        // A move of depth `d` turns `d + 1` layers, so the layers left on the
+                        // other side are a move of depth `N - (d + 1) - 1`
+                        let Some(depth_oppossite) = (<$cube>::N - 2).checked_sub(m.depth()) else {
+                            // If no layer is left, then it is equivalent to a rotation
                             self.orientation.rotate(&AxisRotation::from(&m.axis_move));
                             return;
                         };
-- 
2.43.0


From b474643ce5e247180293abe98a0722e6f8fdf630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 09/18] fix: a slice turns its two outer sides the same way
 around

---
 barbarosa/src/cube_n/moves/extended.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 3f65250..984164f 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -98,7 +98,7 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative, depth).unwrap();
+                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative * dir, depth).unwrap();
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From fae8118005dbfd0a8ddbc2420d13a4c5500d745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:13 +0000
Subject: [PATCH 10/18] fix: wide and slice moves on an oriented cube act on
 what the viewer sees

---
 barbarosa/src/cube_n/moves/extended.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/cube_n/moves/extended.rs b/barbarosa/src/cube_n/moves/extended.rs
index 984164f..f576206 100644
--- a/barbarosa/src/cube_n/moves/extended.rs
+++ b/barbarosa/src/cube_n/moves/extended.rs
@@ -87,8 +87,9 @@ macro_rules! impl_movable_extended {
                             opposite(&m, depth_oppossite)
                         };
 
-                        let m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
+                        let mut m = m.set_max_depth::<{ <$cube>::N / 2 - 1 }>()
                             .expect("the depth from both sides can't be larger than N/2");
+                        m.axis_move = self.orientation.to_base_frame(m.axis_move);
                         self.base_cube.apply(&m);
                     },
                     ExtendedAxisMove::Slice { rot, wide } => {
@@ -98,7 +99,8 @@ macro_rules! impl_movable_extended {
                                 true => <$cube>::N / 2 - 1,
                             };
 
-                            let m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative * dir, depth).unwrap();
+                            let mut m = WideAxisMove::<{ <$cube>::N / 2 - 1 }>::new(Face::new(rot.axis, dir), rot.amount * Direction::Negative * dir, depth).unwrap();
+                            m.axis_move = self.orientation.to_base_frame(m.axis_move);
 
                             self.base_cube.apply(&m);
                         }
-- 
2.43.0


From 478adc66f66e61b79bb282e477448f0baa17c1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 11/18] fix: normalising leaves no redundancy behind a
 cancelled pair

---
 barbarosa/src/cube_n/moves/non_redundant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/barbarosa/src/cube_n/moves/non_redundant.rs b/barbarosa/src/cube_n/moves/non_redundant.rs
index 70036ff..b38c96b 100644
--- a/barbarosa/src/cube_n/moves/non_redundant.rs
+++ b/barbarosa/src/cube_n/moves/non_redundant.rs
@@ -322,11 +322,17 @@ impl Alg<AxisMove> {
                     absorve(&mut nr_move, mov);
                 }
 
-                // If we collapsed something, we need to go back one move to see if we can join it with something else
+                // If we collapsed something, we need to go back one move to see if we can join it with something else.
+                // The move before it might be on the same axis, and then it has to come along.
                 AbsorveResult::Collapsed => {
                     offload(&mut nr_move, &mut moves);
                     if let Some(mov) = moves.pop() {
+                        let axis = mov.face.axis;
                         self.moves.push(mov);
+
+                        if moves.last().is_some_and(|last| last.face.axis == axis) {
+                            self.moves.extend(moves.pop());
+                        }
                     }
                 }
 
-- 
2.43.0


From 53aadebfee54956f696fed56774284cb079ed97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:40 +0000
Subject: [PATCH 12/18] fix: random 2x2 cubes have random corner orientations

---
 barbarosa/src/cube_n/cube2/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/barbarosa/src/cube_n/cube2/mod.rs b/barbarosa/src/cube_n/cube2/mod.rs
index 168a20a..aa0d5b6 100644
--- a/barbarosa/src/cube_n/cube2/mod.rs
+++ b/barbarosa/src/cube_n/cube2/mod.rs
@@ -40,6 +40,9 @@ impl Distribution<Cube2> for Standard {
         let mut cube = Cube2::SOLVED;
 
         cube.corners.shuffle(rng);
+        cube.corners
+            .iter_mut_unchecked()
+            .for_each(|corner| corner.orientation_axis = rng.gen());
 
         fix_corner_multiplicity(&mut cube.corners);
 
-- 
2.43.0


From 50a6f24176df1b7fbe5988bd3208dfd31a6f459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 13/18] fix: wide moves with a depth of several digits can be
 parsed

---
 barbarosa/src/grammar/cube_n.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/barbarosa/src/grammar/cube_n.pest b/barbarosa/src/grammar/cube_n.pest
index fc5c5e7..d4dff8f 100644
--- a/barbarosa/src/grammar/cube_n.pest
+++ b/barbarosa/src/grammar/cube_n.pest
@@ -5,7 +5,7 @@ amount = { "2" | "'" | "" }
 axis_move = ${ face ~ amount }
 
 wide_face = ${ (face ~ "w") | face_small }
-depth = { NUMBER? }
+depth = @{ ASCII_DIGIT* }
 wide_move = ${ ((depth ~ wide_face) | face) ~ amount }
 
 axis = { "x" | "y" | "z" }
-- 
2.43.0


From 233ed5dbd5c08060612fe4d98d00caee7625e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 14/18] fix: the playground ends when its input ends

---
 barbarosa/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/barbarosa/src/main.rs b/barbarosa/src/main.rs
index 6fd8745..4271211 100644
--- a/barbarosa/src/main.rs
+++ b/barbarosa/src/main.rs
@@ -33,10 +33,13 @@ fn playground_3x3() {
 
     let mut cube = Orientable::new(Cube3::SOLVED);
 
-    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<(), Box<dyn std::error::Error>> {
+    /// Returns whether there might be more input
+    fn playground_loop(cube: &mut Orientable<Cube3>) -> Result<bool, Box<dyn std::error::Error>> {
         print!("> ");
         std::io::stdout().flush()?;
-        let input = std::io::stdin().lock().lines().next().unwrap()?;
+        let Some(input) = std::io::stdin().lock().lines().next().transpose()? else {
+            return Ok(false);
+        };
 
         let mov = Alg::<ExtendedAxisMove>::parse(&input)?;
 
@@ -44,14 +47,16 @@ fn playground_3x3() {
 
         println!("{}", cube.base_cube);
 
-        Ok(())
+        Ok(true)
     }
 
     println!("{}", cube.base_cube);
 
     loop {
-        if let Err(err) = playground_loop(&mut cube) {
-            eprintln!("Error: {}", err);
+        match playground_loop(&mut cube) {
+            Ok(true) => (),
+            Ok(false) => break,
+            Err(err) => eprintln!("Error: {}", err),
         }
     }
 }
-- 
2.43.0


From 47206d996c0bdcb3d20c24ddaf261ba478f30850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 15/18] Add guarded read access to pieces (cfg verif_hooks) for
 the verification harness

---
 barbarosa/src/cube_n/cube4/mod.rs            |  9 +++++++
 barbarosa/src/cube_n/cube5/mod.rs            | 23 ++++++++++++++++++
 barbarosa/src/cube_n/cube6/mod.rs            | 21 ++++++++++++++++
 barbarosa/src/cube_n/cube7/mod.rs            | 25 ++++++++++++++++++++
 barbarosa/src/cube_n/pieces/center/corner.rs |  9 +++++++
 barbarosa/src/lib.rs                         |  2 ++
 6 files changed, 89 insertions(+)

diff --git a/barbarosa/src/cube_n/cube4/mod.rs b/barbarosa/src/cube_n/cube4/mod.rs
index 327c4b2..c00ce92 100644
--- a/barbarosa/src/cube_n/cube4/mod.rs
+++ b/barbarosa/src/cube_n/cube4/mod.rs
@@ -51,3 +51,12 @@ impl CubeN for Cube4 {
 }
 
 impl_movable_wide_move_inductively!(Cube4, 1, [0]);
+
+/// Read access to the pieces for the verification harness
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube4 {
+    pub fn verif_pieces(&self) -> (&CornerSet, &WingSet<1>, &CenterCornerSet<1>) {
+        (&self.corners, &self.wings, &self.centers)
+    }
+}
diff --git a/barbarosa/src/cube_n/cube5/mod.rs b/barbarosa/src/cube_n/cube5/mod.rs
index cedcbc2..6c3e572 100644
--- a/barbarosa/src/cube_n/cube5/mod.rs
+++ b/barbarosa/src/cube_n/cube5/mod.rs
@@ -65,3 +65,26 @@ impl CubeN for Cube5 {
 }
 
 impl_movable_wide_move_inductively!(Cube5, 1, [0]);
+
+/// Read access to the pieces for the verification harness
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube5 {
+    pub fn verif_pieces(
+        &self,
+    ) -> (
+        &CornerSet,
+        &EdgeSet,
+        &WingSet<1>,
+        &CenterCornerSet<1>,
+        &CenterEdgeSet<1>,
+    ) {
+        (
+            &self.corners,
+            &self.edges,
+            &self.wings,
+            &self.corner_centers,
+            &self.corner_edges,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube6/mod.rs b/barbarosa/src/cube_n/cube6/mod.rs
index 38ddfd2..479d9f9 100644
--- a/barbarosa/src/cube_n/cube6/mod.rs
+++ b/barbarosa/src/cube_n/cube6/mod.rs
@@ -69,3 +69,24 @@ impl CubeN for Cube6 {
 }
 
 impl_movable_wide_move_inductively!(Cube6, 2, [0, 1]);
+
+/// Read access to the pieces for the verification harness
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl Cube6 {
+    pub fn verif_pieces(
+        &self,
+    ) -> (
+        &CornerSet,
+        (&WingSet<1>, &WingSet<2>),
+        (&CenterCornerSet<1>, &CenterCornerSet<2>),
+        &CenterWingSet<1, 2>,
+    ) {
+        (
+            &self.corners,
+            (&self.wings_1, &self.wings_2),
+            (&self.center_corners_1, &self.center_corners_2),
+            &self.center_wings,
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/cube7/mod.rs b/barbarosa/src/cube_n/cube7/mod.rs
index c050793..6d9feb3 100644
--- a/barbarosa/src/cube_n/cube7/mod.rs
+++ b/barbarosa/src/cube_n/cube7/mod.rs
@@ -83,3 +83,28 @@ impl CubeN for Cube7 {
 }
 
 impl_movable_wide_move_inductively!(Cube7, 2, [0, 1]);
+
+/// Read access to the pieces for the verification harness
+#[cfg(verif_hooks)]
+#[allow(missing_docs, clippy::type_complexity)]
+impl Cube7 {
+    pub fn verif_pieces(
+        &self,
+    ) -> (
+        &CornerSet,
+        &EdgeSet,
+        (&WingSet<1>, &WingSet<2>),
+        (&CenterCornerSet<1>, &CenterCornerSet<2>),
+        &CenterWingSet<1, 2>,
+        (&CenterEdgeSet<1>, &CenterEdgeSet<2>),
+    ) {
+        (
+            &self.corners,
+            &self.edges,
+            (&self.wings_1, &self.wings_2),
+            (&self.center_corners_1, &self.center_corners_2),
+            &self.center_wings,
+            (&self.center_edges_1, &self.center_edges_2),
+        )
+    }
+}
diff --git a/barbarosa/src/cube_n/pieces/center/corner.rs b/barbarosa/src/cube_n/pieces/center/corner.rs
index a209af4..f78ee60 100644
--- a/barbarosa/src/cube_n/pieces/center/corner.rs
+++ b/barbarosa/src/cube_n/pieces/center/corner.rs
@@ -103,3 +103,12 @@ impl CenterCorner {
 
 /// A set of [`CenterCorner`]s with depth `ND`
 pub type CenterCornerSet<const ND: u32> = DepthPieceSet<CenterCorner, 24, ND>;
+
+/// Read access to the location for the verification harness
+#[cfg(verif_hooks)]
+#[allow(missing_docs)]
+impl CenterCorner {
+    pub fn verif_location(&self) -> (Vec3, Axis) {
+        (self.position, self.axis)
+    }
+}
diff --git a/barbarosa/src/lib.rs b/barbarosa/src/lib.rs
index adf6d5b..30dbaed 100644
--- a/barbarosa/src/lib.rs
+++ b/barbarosa/src/lib.rs
@@ -1,5 +1,7 @@
 #![warn(missing_docs)]
 #![warn(clippy::doc_markdown)]
+// `verif_hooks` is only ever set by the verification harness
+#![allow(unexpected_cfgs)]
 #![doc = include_str!("../README.md")]
 
 pub mod cube_n;
-- 
2.43.0


From bb0d1a498be186bde140107883dfdf0975a313b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 16/18] fix: fractional estimates do not use up the depth bound
 of the search

---
 barbarosa/src/generic/search/ida.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/barbarosa/src/generic/search/ida.rs b/barbarosa/src/generic/search/ida.rs
index 7fb64da..b9df7da 100644
--- a/barbarosa/src/generic/search/ida.rs
+++ b/barbarosa/src/generic/search/ida.rs
@@ -98,7 +98,11 @@ where
     fn search(&self, cube: &C, is_target: impl Fn(&C) -> bool) -> Option<(Alg<M>, C)> {
         let mut bound = (self.heuristic)(cube);
 
-        for _ in 0..=self.max_depth {
+        // An iteration may raise the bound by less than 1 if the heuristic has fractional values, so
+        // it's the bound that is limited and not the amount of iterations.
+        let max_bound = bound + self.max_depth as f32;
+
+        while bound <= max_bound {
             let mut min_exceeded = bound + 1.0;
             let mut path = Vec::with_capacity(20);
 
@@ -111,7 +115,8 @@ where
                     solution.moves.reverse();
                     return Some((solution, path.into_iter().last()?));
                 }
-                None => bound = min_exceeded,
+                None if min_exceeded > bound => bound = min_exceeded,
+                None => break,
             }
         }
 
-- 
2.43.0


From ad7effca3f151013e862073b9a8cb832fb1cbb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 17/18] fix: a held cube is solved exactly if the cube held is

`Orientable` used the default `is_solved`, which compares with `SOLVED`. On a 4x4 or
larger with exchanged centers of one color, it was unsolved while its base cube was solved.
---
 barbarosa/src/cube_n/orientable/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/barbarosa/src/cube_n/orientable/mod.rs b/barbarosa/src/cube_n/orientable/mod.rs
index 06e6801..66a4737 100644
--- a/barbarosa/src/cube_n/orientable/mod.rs
+++ b/barbarosa/src/cube_n/orientable/mod.rs
@@ -66,6 +66,11 @@ where
     Orientable<C>: Movable<ExtendedAxisMove>,
 {
     const SOLVED: Self = Orientable::new(C::SOLVED);
+
+    // Not all solved states of the base cube have to be equal to `C::SOLVED`
+    fn is_solved(&self) -> bool {
+        self.orientation == Orientation::const_default() && self.base_cube.is_solved()
+    }
 }
 
 impl<C: CubeN> AsMove for Orientable<C>
-- 
2.43.0


From 8f7c1885026ac17bd3570a82ac3638e048191549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 18/18] fix: a net of any size finds the square nearest to a
 point

---
 barbarosa/src/cube_n/visualization/unfolded/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/barbarosa/src/cube_n/visualization/unfolded/mod.rs b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
index 6b26f34..31486af 100644
--- a/barbarosa/src/cube_n/visualization/unfolded/mod.rs
+++ b/barbarosa/src/cube_n/visualization/unfolded/mod.rs
@@ -94,15 +94,15 @@ impl<const N: usize> Square<N> {
     }
 
     fn transform_coord(x: f32) -> Option<usize> {
-        let x = x + 1.0;
-        let x = x * N as f32 / 3.0;
-        let x = x.round();
-
-        if x < 0.0 || x as usize >= N {
+        // The outermost squares are at -1 and 1, and reach about half a square further
+        if x.abs() >= 1.0 + 1.5 / N as f32 {
             return None;
         }
 
-        Some(x as usize)
+        let last = N as f32 - 1.0;
+        let x = (x + 1.0) * last / 2.0;
+
+        Some(x.round().clamp(0.0, last) as usize)
     }
 
     /// Writes the square into a formatter with the specified colorscheme and padding at the front
-- 
2.43.0

