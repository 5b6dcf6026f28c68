From 05c242d67fabc2f676f9dfb4297211b9edc37bbb Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 01/11] fix: alignment pattern position of version 21 (94, not
 92)

ISO/IEC 18004 Annex E places the last alignment pattern row/column of a
version 21 symbol at 94. With 92 every data module after the wrongly
excluded area was read from the wrong place.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From aa2868a81ff57986204e8b8ea0553b0daab8f987 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 02/11] fix: read the last data codeword of long blocks from
 the right place

The last data column of the interleaved codewords only holds the long
blocks, so its index is offset by the number of short blocks. Reading it
without that offset put one wrong codeword into every long block, using up
one correctable error of each.
---
 src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..82ab0ee 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -359,7 +359,9 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
         for j in 0..ecc.dw {
-            dst[j] = ds.data[j * bc + i];
+            // Only the long blocks have a codeword in the last data column
+            let skipped = if j < sb_ecc.dw { 0 } else { sb_ecc.ns };
+            dst[j] = ds.data[j * bc + i - skipped];
         }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
-- 
2.43.0


From 6fd925a24c9d47e2d2c3a51380b4a680dc95c83f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:06:32 +0000
Subject: [PATCH 03/11] fix: reject grids of impossible size before reading
 format information

---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 82ab0ee..2c62568 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -680,6 +680,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Also guarantees that the grid is large enough to hold format information
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -706,7 +708,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From ada33b05885ae6ee9e8a8280c9fb0266aa1c59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:18:16 +0000
Subject: [PATCH 04/11] fix: ignore finder pattern candidates whose corners are
 not convex

---
 src/identify/grid.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..e37380c 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -164,7 +164,9 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+/// Returns `None` if the rotated corners do not form a usable perspective, which
+/// happens if the corners found in the image do not form a convex shape.
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +176,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From faef1e5afa78538a6f47a386950ad3a65987cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:18:29 +0000
Subject: [PATCH 05/11] fix: no grid instead of a panic if there is no timing
 pattern at all

---
 src/identify/grid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index e37380c..016b2dd 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -63,7 +63,7 @@ impl SkewedGridLocation {
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
          */
-        let grid_size = measure_timing_pattern(img, &group);
+        let grid_size = measure_timing_pattern(img, &group)?;
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -189,7 +189,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
 // * which is nearest the centre of the code. Using these points, we do
 // * a horizontal and a vertical timing scan.
 // */
-fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> usize
+fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> Option<usize>
 where
     S: ImageBuffer,
 {
@@ -205,10 +205,12 @@ where
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
+    if scan < 1 {
+        return None;
+    }
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
-    ver * 4 + 17
+    Some(ver * 4 + 17)
 }
 
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
-- 
2.43.0


From 0d82c9c36218436d9829b8efcffa90997bb5d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 06/11] fix: find nothing in images without columns instead of
 panicking

---
 src/detect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..1e465e0 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,10 @@ where
 {
     let mut res = Vec::new();
 
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 20d4aee9ae197a8b1663f4229f2b780fa673ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:40:14 +0000
Subject: [PATCH 07/11] fix: no integer overflow when intersecting the edges of
 large patterns

---
 src/geometry.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..8112f2f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -84,15 +84,17 @@ impl Perspective {
 }
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
+    /* The products below exceed 32 bit for patterns spanning several hundred pixels */
+    let [p0, p1, q0, q1] = [p0, p1, q0, q1].map(|p| (i64::from(p.x), i64::from(p.y)));
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -(p1.1 - p0.1);
+    let b = p1.0 - p0.0;
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -(q1.1 - q0.1);
+    let d = q1.0 - q0.0;
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * p1.0 + b * p1.1;
+    let f = c * q1.0 + d * q1.1;
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +108,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From 01bb029816610f4998c936173fe4c5a12016567d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 17:40:39 +0000
Subject: [PATCH 08/11] fix: no panic on perspectives that map points to
 infinity

---
 src/detect.rs        |  3 +++
 src/geometry.rs      |  8 ++++----
 src/identify/grid.rs | 18 +++++++++++++++---
 src/prepare.rs       |  5 +++++
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 1e465e0..8993927 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -266,6 +266,9 @@ where
     /* Set up the perspective transform and find the center */
     let c = Perspective::create(&corners, 7.0, 7.0)?;
     let center = c.map(3.5, 3.5);
+    if !img.contains(center) {
+        return None;
+    }
 
     Some(CapStone { c, corners, center })
 }
diff --git a/src/geometry.rs b/src/geometry.rs
index 8112f2f..426d315 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -44,6 +44,10 @@ impl Perspective {
         Some(Perspective(c))
     }
 
+    /// Map from the unskewed square to image coordinates
+    ///
+    /// Points on or close to the horizon of the perspective have no finite image.
+    /// Their coordinates saturate at the numeric bounds of `Point`.
     pub fn map(&self, u: f64, v: f64) -> Point {
         let den = self.0[6] * u + self.0[7] * v + 1.0f64;
         let x = (self.0[0] * u + self.0[1] * v + self.0[2]) / den;
@@ -52,10 +56,6 @@ impl Perspective {
         let x = x.round();
         let y = y.round();
 
-        assert!(x <= i32::MAX as f64);
-        assert!(x >= i32::MIN as f64);
-        assert!(y <= i32::MAX as f64);
-        assert!(y >= i32::MIN as f64);
         Point {
             x: x as i32,
             y: y as i32,
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 016b2dd..fac5cc7 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -198,6 +198,9 @@ where
     let tpet0 = caps.0.c.map(US[0], VS[0]);
     let tpet1 = caps.1.c.map(US[1], VS[1]);
     let tpet2 = caps.2.c.map(US[2], VS[2]);
+    if ![tpet0, tpet1, tpet2].iter().all(|p| img.contains(*p)) {
+        return None;
+    }
 
     let hscan = timing_scan(img, &tpet1, &tpet2);
     let vscan = timing_scan(img, &tpet1, &tpet0);
@@ -248,9 +251,18 @@ where
     let a = c0.c.map(u, v + 1.0);
     let (u, v) = c2.c.unmap(&align_seed);
     let c = c2.c.map(u + 1.0, v);
-    let size_estimate = ((a.x - align_seed.x) * -(c.y - align_seed.y)
-        + (a.y - align_seed.y) * (c.x - align_seed.x))
-        .unsigned_abs() as usize;
+    let (ax, ay) = (
+        a.x as f64 - align_seed.x as f64,
+        a.y as f64 - align_seed.y as f64,
+    );
+    let (cx, cy) = (
+        c.x as f64 - align_seed.x as f64,
+        c.y as f64 - align_seed.y as f64,
+    );
+    let size_estimate = (ay * cx - ax * cy).abs() as usize;
+    if size_estimate > img.width() * img.height() {
+        return None;
+    }
 
     /* Spiral outwards from the estimate point until we find something
      * roughly the right size. Don't look too far from the estimate
diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..18326e2 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -392,6 +392,11 @@ where
         self.flood_fill(x, y, src, target_color.into(), fill)
     }
 
+    /// Check if the given point lies in the image
+    pub(crate) fn contains(&self, p: Point) -> bool {
+        p.x >= 0 && p.y >= 0 && (p.x as usize) < self.width() && (p.y as usize) < self.height()
+    }
+
     pub fn get_pixel_at_point(&self, p: Point) -> PixelColor {
         let x = cmp::max(0, cmp::min((self.width() - 1) as i32, p.x));
         let y = cmp::max(0, cmp::min((self.height() - 1) as i32, p.y));
-- 
2.43.0


From ba7086f73a2e1facecb203bf9eb0d3f144db601d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:38:40 +0000
Subject: [PATCH 09/11] fix: no integer overflow when measuring very large
 patterns

Distances and scores of patterns spanning more than 46340 pixels do not fit
in 32 bit.
---
 src/detect.rs        | 34 ++++++++++++++++++----------------
 src/identify/grid.rs | 23 +++++++++++++++++------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/detect.rs b/src/detect.rs
index 8993927..bf47907 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -281,7 +281,7 @@ where
 struct FirstCornerFinder {
     initial: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl FirstCornerFinder {
@@ -300,9 +300,10 @@ impl FirstCornerFinder {
 
 impl AreaFiller for FirstCornerFinder {
     fn update(&mut self, row: Row) {
-        let dy = (row.y as i32) - self.initial.y;
-        let l_dx = (row.left as i32) - self.initial.x;
-        let r_dx = (row.right as i32) - self.initial.x;
+        /* The squared distance exceeds 32 bit for very large patterns */
+        let dy = (row.y as i64) - i64::from(self.initial.y);
+        let l_dx = (row.left as i64) - i64::from(self.initial.x);
+        let r_dx = (row.right as i64) - i64::from(self.initial.x);
 
         let l_dist = l_dx * l_dx + dy * dy;
         let r_dist = r_dx * r_dx + dy * dy;
@@ -335,20 +336,19 @@ impl AreaFiller for FirstCornerFinder {
 /// those that are the farthest left and right from the reference line.
 #[derive(Debug, Eq, PartialEq, Clone)]
 struct AllCornerFinder {
-    baseline: Point,
+    baseline: (i64, i64),
     best: [Point; 4],
-    scores: [i32; 4],
+    scores: [i64; 4],
 }
 
 impl AllCornerFinder {
     pub fn new(initial: Point, corner: Point) -> Self {
-        let baseline = Point {
-            x: corner.x - initial.x,
-            y: corner.y - initial.y,
-        };
+        /* The scores exceed 32 bit for very large patterns */
+        let (x, y) = (i64::from(initial.x), i64::from(initial.y));
+        let baseline = (i64::from(corner.x) - x, i64::from(corner.y) - y);
 
-        let parallel_score = initial.x * baseline.x + initial.y * baseline.y;
-        let orthogonal_score = -initial.x * baseline.y + initial.y * baseline.x;
+        let parallel_score = x * baseline.0 + y * baseline.1;
+        let orthogonal_score = -x * baseline.1 + y * baseline.0;
 
         AllCornerFinder {
             baseline,
@@ -369,12 +369,14 @@ impl AllCornerFinder {
 
 impl AreaFiller for AllCornerFinder {
     fn update(&mut self, row: Row) {
-        let l_par_score = (row.left as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let l_ort_score = -(row.left as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let (left, right, y) = (row.left as i64, row.right as i64, row.y as i64);
+
+        let l_par_score = left * self.baseline.0 + y * self.baseline.1;
+        let l_ort_score = -left * self.baseline.1 + y * self.baseline.0;
         let l_scores = [l_par_score, l_ort_score, -l_par_score, -l_ort_score];
 
-        let r_par_score = (row.right as i32) * self.baseline.x + (row.y as i32) * self.baseline.y;
-        let r_ort_score = -(row.right as i32) * self.baseline.y + (row.y as i32) * self.baseline.x;
+        let r_par_score = right * self.baseline.0 + y * self.baseline.1;
+        let r_ort_score = -right * self.baseline.1 + y * self.baseline.0;
         let r_scores = [r_par_score, r_ort_score, -r_par_score, -r_ort_score];
 
         for j in 0..4 {
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index fac5cc7..9a4c597 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -47,7 +47,7 @@ impl SkewedGridLocation {
         };
 
         /* Make sure A-B-C is clockwise */
-        if (group.1.center.x - h0.x) * -hd.y + (group.1.center.y - h0.y) * hd.x > 0 {
+        if side_of_line(&h0, &hd, &group.1.center) > 0 {
             mem::swap(&mut group.0, &mut group.2);
             hd.x = -hd.x;
             hd.y = -hd.y
@@ -80,7 +80,7 @@ impl SkewedGridLocation {
         if grid_size > 21 {
             /* Try to find the actual location of the alignment pattern. */
             align = find_alignment_pattern(img, align, &group.0, &group.2)?;
-            let score = -hd.y * align.x + hd.x * align.y;
+            let score = side_of_line(&Point { x: 0, y: 0 }, &hd, &align);
             let finder = LeftMostFinder {
                 line_p: hd,
                 best: align,
@@ -109,6 +109,16 @@ impl SkewedGridLocation {
     }
 }
 
+/// Signed distance of `p` from the line through `origin` with direction `dir`,
+/// in multiples of the length of `dir`. Negative values lie to the left.
+fn side_of_line(origin: &Point, dir: &Point, p: &Point) -> i64 {
+    let (x, y) = (
+        i64::from(p.x) - i64::from(origin.x),
+        i64::from(p.y) - i64::from(origin.y),
+    );
+    -x * i64::from(dir.y) + y * i64::from(dir.x)
+}
+
 /// Get the version for a given grid size.
 ///
 /// The returned version can be used to fetch the VersionInfo for the given grid
@@ -171,7 +181,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
         .corners
         .iter()
         .enumerate()
-        .min_by_key(|(_, a)| (a.x - h0.x) * (-hd.y) + (a.y - h0.y) * hd.x)
+        .min_by_key(|(_, a)| side_of_line(h0, hd, a))
         .expect("corners cannot be empty");
 
     /* Rotate the capstone */
@@ -308,13 +318,14 @@ where
 struct LeftMostFinder {
     line_p: Point,
     best: Point,
-    score: i32,
+    score: i64,
 }
 
 impl AreaFiller for LeftMostFinder {
     fn update(&mut self, row: Row) {
-        let left_d = -self.line_p.y * (row.left as i32) + self.line_p.x * row.y as i32;
-        let right_d = -self.line_p.y * (row.right as i32) + self.line_p.x * row.y as i32;
+        let (dx, dy) = (i64::from(self.line_p.x), i64::from(self.line_p.y));
+        let left_d = -dy * (row.left as i64) + dx * row.y as i64;
+        let right_d = -dy * (row.right as i64) + dx * row.y as i64;
 
         if left_d < self.score {
             self.score = left_d;
-- 
2.43.0


From ba869da232e370c179744bc89fcc25d00839a7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 19:49:12 +0000
Subject: [PATCH 10/11] fix: a locator pattern is the corner of one code only

After a code was found, its corner pattern could still be combined with the
patterns of other codes (e.g. on a sheet of equal codes), which reported
codes that don't exist and hid those whose patterns were used up.
---
 src/prepare.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/prepare.rs b/src/prepare.rs
index 18326e2..bb2d0f1 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -299,6 +299,8 @@ where
                 used_capstones.push(pair.0);
                 used_capstones.push(idx);
                 used_capstones.push(pair.1);
+                // Each capstone is part of at most one QR code
+                break;
             }
         }
         groups
-- 
2.43.0


From b4e0188186b03874145761b3e601a59a1018f499 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 23:47:49 +0000
Subject: [PATCH 11/11] fix: locator patterns of different codes are not taken
 for one code

---
 src/identify/grid.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 9a4c597..45176fa 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -64,6 +64,9 @@ impl SkewedGridLocation {
          * transform.
          */
         let grid_size = measure_timing_pattern(img, &group)?;
+        if !distances_match(&group, grid_size) {
+            return None;
+        }
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -226,6 +229,33 @@ where
     Some(ver * 4 + 17)
 }
 
+/// Check that the capstones are about as far apart as those of a grid of the
+/// given size.
+///
+/// If they are not, they most likely belong to different QR codes.
+fn distances_match(caps: &CapStoneGroup, grid_size: usize) -> bool {
+    fn distance(a: &Point, b: &Point) -> f64 {
+        (f64::from(a.x) - f64::from(b.x)).hypot(f64::from(a.y) - f64::from(b.y))
+    }
+    let modules = (grid_size - 7) as f64;
+    // The sides of a capstone that run in the direction of its neighbor
+    let horizontal = (&caps.2, [(0, 1), (3, 2)]);
+    let vertical = (&caps.0, [(0, 3), (1, 2)]);
+    [horizontal, vertical].iter().all(|(other, sides)| {
+        let width = |cap: &CapStone| -> f64 {
+            let sum: f64 = sides
+                .iter()
+                .map(|&(from, to)| distance(&cap.corners[from], &cap.corners[to]))
+                .sum();
+            sum / 2.0
+        };
+        // In perspective the width of a module varies, its geometric mean is exact
+        let module = (width(&caps.1) * width(other)).sqrt() / 7.0;
+        let ratio = distance(&caps.1.center, &other.center) / (modules * module);
+        (0.8..=1.25).contains(&ratio)
+    })
+}
+
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
 where
     S: ImageBuffer,
-- 
2.43.0

