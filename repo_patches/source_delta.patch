From 01ad57baf686bfbc67026fd8db61f6438e33913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 01/24] fix: refuse (i32, i32) coordinates outside u16 instead
 of wrapping them

---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..9e27cdc 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).map_err(|_| Error::OutOfBounds)?;
+        let y = u16::try_from(xy.1).map_err(|_| Error::OutOfBounds)?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From 10ea783f81671d36fd8a5fcdbcea65ffc767cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:09 +0000
Subject: [PATCH 02/24] fix: do not truncate indices to 16 bits in
 Grid::extend_from_vecvec

---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From fca61c7ee49ffee2c7ea20395d59164a4d6257ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 03/24] fix: WIDTH and HEIGHT of integer tuples count both
 limits

---
 src/sqrid/postrait.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..b60fd59 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -587,8 +587,11 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            // MAX and MIN are inclusive:
+            const WIDTH: usize =
+                ({ <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize).saturating_add(1);
+            const HEIGHT: usize =
+                ({ <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From 9e2285401ff26155c4a75acbd9448882e093181e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 04/24] fix: check the SIZE parameter of Grid at compile time

---
 src/sqrid/grid.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d4cd094..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
-- 
2.43.0


From cdd278f797d4766330e761536e5779c95ab91758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 05/24] fix: rotate the innermost ring of boolean grids of even
 size

---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..eb9b484 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX.div_ceil(2) {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From bd0642c693bfc637071f0ba5e66a0dcc309887e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 06/24] fix: keep the unused bits of Gridbool::repeat(true)
 false

---
 src/sqrid/gridbool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index eb9b484..d94496b 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,14 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Bits beyond the last square are always false, otherwise they would
+        // take part in comparisons and hashing. There can be up to 32 of them.
+        let size = P::WIDTH * P::HEIGHT;
+        if size < WORDS * 32 {
+            words[WORDS - 1] &= !(Self::WORD_TRUE >> (size % 32));
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 0d253c0587e0ca1a9549bae63b5bf9126d1adf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 07/24] fix: yield the last position of a range that ends in
 the bottom row

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index b60fd59..a9f8877 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    let x = self.topleft.x();
+                    pos = p.y().inc().and_then(|y| P::new(x, y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From 4668c2ad3514bcfad5761f3c4cf2eb8064ccac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 08/24] fix: size hint of a range is not the size of the whole
 grid

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index a9f8877..009109f 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -528,8 +528,8 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        // The range can have less positions than the grid:
+        (0, P::WIDTH.checked_mul(P::HEIGHT))
     }
 }
 
-- 
2.43.0


From 81920ffa32b5e5df6967067bca1f61d864bb7cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 09/24] fix: iterate columns and lines from the first
 coordinate of the type

---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 009109f..3f5073c 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From f721d3d24d32f3175f37dc0dde1b53b08ce5e902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 10/24] fix: do not report a loop for long paths in grids
 higher than wide

---
 src/sqrid/mappos.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..8d6123e 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -111,18 +111,25 @@ where
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
-    // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    // Loop detection (Brent's): we keep a position of the past, and renew it
+    // at exponentially spaced iterations. If we are in a loop, we eventually
+    // get back to it.
+    let mut past = pos;
+    let mut iters = 0_usize;
+    let mut renew = 1_usize;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
         pos = (pos + dir).or(Err(Error::InvalidMovement))?;
-        maxiter -= 1;
-        if maxiter == 0 {
-            // We have iterated more than the total coordinates,
-            // there's definitely a loop:
+        if pos == past {
             return Err(Error::Loop);
         }
+        iters += 1;
+        if iters == renew {
+            past = pos;
+            iters = 0;
+            renew *= 2;
+        }
     }
     Ok(Vec::from(ret))
 }
-- 
2.43.0


From 06fdf22f146bfa7fbff74f7baa533a359de19daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:39 +0000
Subject: [PATCH 11/24] fix: do not allocate according to the distance in
 camefrom_into_path

---
 src/sqrid/mappos.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 8d6123e..58dd910 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,8 +105,7 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
-- 
2.43.0


From 8eed30cbe88d026e7a675798d595b33244ecce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:43 +0000
Subject: [PATCH 12/24] fix: do not yield the origin if it moves to itself in
 BfIterator

---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ccf25c3 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 4d6738c4059f464ef29bc088b74ee11dd53c3f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 13/24] fix: find the destination of a breadth-first search at
 the origin

---
 src/sqrid/bf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index ccf25c3..529f987 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -194,6 +194,11 @@ where
     P: Copy,
 {
     let mut from = MapPosDir::default();
+    // The iterator doesn't yield the origin:
+    if found(*orig) {
+        from.set(*orig, Some(Dir::default()));
+        return Ok((*orig, from));
+    }
     for (pos, dir) in bf_iter::<GoFn, MySetPos, P, D, WORDS, SIZE>(go, orig).flatten() {
         from.set(pos, Some(dir));
         if found(pos) {
-- 
2.43.0


From 56663d9d1b0babaad9c8221fdc9728808dce1b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 14/24] fix: skip outdated frontier entries in uniform-cost
 search

---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..87925b2 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) {
+                // Outdated: a cheaper way was found after this was pushed.
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From f4a6f259619d100ef54320141154d4b2c9397091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 15/24] fix: do not overflow when adding large costs in
 uniform-cost search

---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 87925b2..70314b5 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From 8c3f71cd0b17c25790550dfd8977312f42a8d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/24] fix: manhattan distance of coordinates whose difference
 is out of bounds

---
 src/sqrid/boundedint.rs |  9 +++++++++
 src/sqrid/postrait.rs   | 12 +-----------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..f706cb2 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -75,6 +75,9 @@ where
     /// Checked integer subtraction.
     fn checked_sub(self, rhs: Self) -> Option<Self>;
 
+    /// Distance between the two values; panics if it doesn't fit an `usize`.
+    fn distance(self, rhs: Self) -> usize;
+
     /// Return the value `1` of the implementing type.
     fn one() -> Self {
         true.into()
@@ -114,6 +117,9 @@ macro_rules! boundedint_impl {
             fn checked_sub(self, rhs: Self) -> Option<Self> {
                 self.checked_sub(rhs)
             }
+            fn distance(self, rhs: Self) -> usize {
+                usize::try_from(self.abs_diff(rhs)).expect("distance doesn't fit usize")
+            }
         }
     };
 }
@@ -257,6 +263,9 @@ macro_rules! boundedint_type_create {
                     .map(|v| Self(v))
                     .filter(|v| Self(MIN) <= *v && *v <= Self(MAX))
             }
+            fn distance(self, other: Self) -> usize {
+                self.0.distance(other.0)
+            }
         }
 
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 3f5073c..01cf922 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -183,17 +183,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
 
     /// Return the manhattan distance
     fn manhattan(&self, pos: &Self) -> usize {
-        let dx = if self.x() > pos.x() {
-            self.x().checked_sub(pos.x()).unwrap()
-        } else {
-            pos.x().checked_sub(self.x()).unwrap()
-        };
-        let dy = if self.y() > pos.y() {
-            self.y().checked_sub(pos.y()).unwrap()
-        } else {
-            pos.y().checked_sub(self.y()).unwrap()
-        };
-        into_or_panic!(dx) + into_or_panic!(dy)
+        self.x().distance(pos.x()) + self.y().distance(pos.y())
     }
 
     /// Check that the position is inside the provided limits
-- 
2.43.0


From 9cda45c6b2860f8b9d9fb57a7ae75526179e8e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 17/24] fix: A* heuristic does not overestimate when using
 diagonals

---
 src/sqrid/astar.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..4bcfa42 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -48,6 +48,7 @@ use std::cmp::Reverse;
 use std::collections;
 use std::collections::BinaryHeap;
 
+use super::boundedint::BoundedInt;
 use super::camefrom_into_path;
 use super::postrait::PosT;
 use super::Dir;
@@ -97,6 +98,18 @@ impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usi
         it.cost.set(*orig, 0);
         it
     }
+
+    /// Lower bound of the number of steps to the destination
+    fn heuristic(&self, pos: &P) -> usize {
+        if D {
+            // A diagonal step gets us closer in both axes:
+            let dx = pos.x().distance(self.dest.x());
+            let dy = pos.y().distance(self.dest.y());
+            dx.max(dy)
+        } else {
+            pos.manhattan(&self.dest)
+        }
+    }
 }
 
 impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize> Iterator
@@ -116,7 +129,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + self.heuristic(&next_pos));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From 32d82b3c1f1923a8ed4321d69c1ead89b4a0ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:23 +0000
Subject: [PATCH 18/24] fix: skip outdated frontier entries in A*

---
 src/sqrid/astar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 4bcfa42..43e51aa 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -122,8 +122,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) + self.heuristic(&pos) {
+                // Outdated: a shorter way was found after this was pushed.
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -134,10 +138,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From e9e70988977c91826e9995bd9e8bfd3849283ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 19/24] fix: flip and rotate positions whose coordinates do not
 start at zero

---
 src/sqrid/boundedint.rs | 11 +++++++++++
 src/sqrid/postrait.rs   |  8 ++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index f706cb2..72056b2 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -78,6 +78,10 @@ where
     /// Distance between the two values; panics if it doesn't fit an `usize`.
     fn distance(self, rhs: Self) -> usize;
 
+    /// Mirror the value: `MIN` into `MAX`, the next one into the previous
+    /// one, etc.
+    fn mirror(self) -> Self;
+
     /// Return the value `1` of the implementing type.
     fn one() -> Self {
         true.into()
@@ -120,6 +124,9 @@ macro_rules! boundedint_impl {
             fn distance(self, rhs: Self) -> usize {
                 usize::try_from(self.abs_diff(rhs)).expect("distance doesn't fit usize")
             }
+            fn mirror(self) -> Self {
+                !self
+            }
         }
     };
 }
@@ -266,6 +273,10 @@ macro_rules! boundedint_type_create {
             fn distance(self, other: Self) -> usize {
                 self.0.distance(other.0)
             }
+            fn mirror(self) -> Self {
+                // The result is within bounds, the intermediate values might not be:
+                Self(MAX.wrapping_sub(self.0).wrapping_add(MIN))
+            }
         }
 
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 01cf922..b6088be 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -169,7 +169,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        Self::new(Self::Xtype::MAX.checked_sub(self.x()).unwrap(), self.y()).unwrap()
+        Self::new_((self.x().mirror(), self.y()))
     }
 
     /// Flip the coordinate horizontally
@@ -178,7 +178,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        Self::new(self.x(), Self::Ytype::MAX.checked_sub(self.y()).unwrap()).unwrap()
+        Self::new_((self.x(), self.y().mirror()))
     }
 
     /// Return the manhattan distance
@@ -380,7 +380,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
         Self::Xtype: TryFrom<<<Self as PosT>::Ytype as BoundedInt>::Inner>,
         Self::Ytype: TryFrom<<<Self as PosT>::Xtype as BoundedInt>::Inner>,
     {
-        let x = Self::Ytype::MAX.into_inner() - self.y().into_inner();
+        let x = self.y().mirror().into_inner();
         let Ok(x) = Self::Xtype::try_from(x) else {
             panic!();
         };
@@ -403,7 +403,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
         let Ok(x) = Self::Xtype::try_from(self.y().into_inner()) else {
             panic!();
         };
-        let y = Self::Xtype::MAX.into_inner() - self.x().into_inner();
+        let y = self.x().mirror().into_inner();
         let Ok(y) = Self::Ytype::try_from(y) else {
             panic!();
         };
-- 
2.43.0


From d8cb9f03164cc128aac50bd7b11ff484f0051f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 20/24] fix: default of bounded integers is within bounds

---
 src/sqrid/boundedint.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index 72056b2..aa0c2c2 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -279,6 +279,13 @@ macro_rules! boundedint_type_create {
             }
         }
 
+        impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
+            /// The value within bounds that is the closest to zero
+            fn default() -> Self {
+                Self(<$type>::default().clamp(MIN, MAX))
+            }
+        }
+
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
             fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                 write!(f, "{}", self.0)
@@ -326,56 +333,56 @@ macro_rules! boundedint_type_create {
 }
 
 /// A bounded u8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU8<const MIN: u8, const MAX: u8>(pub u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU16<const MIN: u16, const MAX: u16>(pub u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU32<const MIN: u32, const MAX: u32>(pub u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU64<const MIN: u64, const MAX: u64>(pub u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU128<const MIN: u128, const MAX: u128>(pub u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedIsize<const MIN: isize, const MAX: isize>(pub isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI8<const MIN: i8, const MAX: i8>(pub i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI16<const MIN: i16, const MAX: i16>(pub i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI32<const MIN: i32, const MAX: i32>(pub i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI64<const MIN: i64, const MAX: i64>(pub i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI128<const MIN: i128, const MAX: i128>(pub i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From 4e593acd3d88f302c00130f47e08c3a18ef8884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 21/24] fix: size hints of traversals of coordinates that do
 not start at zero

---
 src/sqrid/postrait.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index b6088be..6f1447e 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -451,8 +451,8 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let size = P::WIDTH.checked_mul(P::HEIGHT);
+        (size.unwrap_or(usize::MAX), size)
     }
 }
 
@@ -542,7 +542,7 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
+        let size = P::HEIGHT;
         (size, Some(size))
     }
 }
@@ -565,7 +565,7 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
+        let size = P::WIDTH;
         (size, Some(size))
     }
 }
-- 
2.43.0


From 8a87327e94e8324d4d392dbce59f2258b1f2ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 22/24] fix: Pos::SIZE of grids 65536 squares wide or high

---
 src/sqrid/pos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index 9e27cdc..8a3c6d6 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -100,7 +100,7 @@ impl<const XMAX: u16, const YMAX: u16> Pos<XMAX, YMAX> {
     pub const HEIGHT: u16 = YMAX + 1;
 
     /// Size of the grid, i.e. how many squares.
-    pub const SIZE: usize = Self::WIDTH as usize * Self::HEIGHT as usize;
+    pub const SIZE: usize = (XMAX as usize + 1) * (YMAX as usize + 1);
 
     /// Coordinates of the first element of the grid: `(0, 0)`.
     /// Also known as origin.
-- 
2.43.0


From 11ec8c3e15658f9af1c653d59c8c808d3622f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 23/24] fix: new_static checks its value at compile time
 wherever it is called

---
 src/sqrid/boundedint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index aa0c2c2..d985d03 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -236,7 +236,7 @@ macro_rules! boundedint_type_create {
             /// const Bounded : sqrid::U8Bounded<0,5> = sqrid::U8Bounded::<0,5>::new_static::<9>();
             /// ```
             pub const fn new_static<const V: $type>() -> Self {
-                assert!(V >= MIN && V <= MAX);
+                const { assert!(V >= MIN && V <= MAX) };
                 Self(V)
             }
 
-- 
2.43.0


From dc166449c60ab13a835e1a2e7e57576fd19ffb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:41 +0000
Subject: [PATCH 24/24] fix: reading or writing a Grid through a position type
 whose index doesn't fit it went outside the array

---
 src/sqrid/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 116e6a3..a128c4e 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -129,20 +129,20 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
 
     /// Get a reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// We can't use get_unchecked internally, because [`PosT`] can be
+    /// implemented for types whose index doesn't fit the grid.
     #[inline]
     pub fn get(&self, pos: &P) -> &T {
-        unsafe { self.0.get_unchecked(pos.to_usize()) }
+        &self.0[pos.to_usize()]
     }
 
     /// Get a mut reference to an element of the grid.
     ///
-    /// We use get_unchecked internally, because we guarantee the
-    /// validity of the Pos index on construction.
+    /// We can't use get_unchecked_mut internally, because [`PosT`] can be
+    /// implemented for types whose index doesn't fit the grid.
     #[inline]
     pub fn get_mut(&mut self, pos: &P) -> &mut T {
-        unsafe { self.0.get_unchecked_mut(pos.to_usize()) }
+        &mut self.0[pos.to_usize()]
     }
 
     /// Returns an iterator over the grid values
-- 
2.43.0

