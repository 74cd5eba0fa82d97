From 5d980f2c1b01f0ca8aa58d183680478b63ada524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 1/8] fix: reject grids of impossible size before reading the
 format bits

read_format read the format cells first, so decoding any grid smaller
than 9x9 indexed out of bounds instead of returning InvalidVersion.
---
 src/decode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 98866f3..754a3fd 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -678,6 +678,8 @@ fn correct_format(mut word: u16) -> DeQRResult<u16> {
 }
 
 fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
+    // Grids too small for a QR code do not have the cells read below
+    let version = Version::from_size(code.size())?;
     let mut format = 0;
 
     // Try first location
@@ -704,7 +706,6 @@ fn read_format(code: &dyn BitGrid) -> DeQRResult<MetaData> {
     let fdata = verified_format >> 10;
     let ecc_level = fdata >> 3;
     let mask = fdata & 7;
-    let version = Version::from_size(code.size())?;
 
     Ok(MetaData {
         version,
-- 
2.43.0


From 6ed568bdba907b28d0d0579ec658801ee0f81d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 2/8] fix: detect_grids on an image of width 0

capstones_from_image read pixel (0, y) of every line, which does not
exist in an image of width 0 and non-zero height.
---
 src/detect.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/detect.rs b/src/detect.rs
index 216f8e0..64ba4ee 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -38,6 +38,11 @@ where
 {
     let mut res = Vec::new();
 
+    // Lines without pixels have nothing to scan
+    if img.width() == 0 {
+        return res;
+    }
+
     for y in 0..img.height() {
         let mut finder = LineScanner::new(img.get_pixel_at(0, y));
         for x in 1..img.width() {
-- 
2.43.0


From 35f76b0f6987870a076ad099fcb5e1a236891a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 3/8] fix: integer overflow in line_intersect on large images

The products have three factors in pixels, which leaves i32 from about
1000 pixels on: a sharp version 1 code 3450 pixels wide panicked in a
debug build and was placed wrongly in a release build.
---
 src/geometry.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index 94d89ae..5350f4d 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -85,14 +85,14 @@ impl Perspective {
 
 pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<Point> {
     /* (a, b) is perpendicular to line p */
-    let a = -(p1.y - p0.y);
-    let b = p1.x - p0.x;
+    let a = -(p1.y as i64 - p0.y as i64);
+    let b = p1.x as i64 - p0.x as i64;
     /* (c, d) is perpendicular to line q */
-    let c = -(q1.y - q0.y);
-    let d = q1.x - q0.x;
+    let c = -(q1.y as i64 - q0.y as i64);
+    let d = q1.x as i64 - q0.x as i64;
     /* e and f are dot products of the respective vectors with p and q */
-    let e = a * p1.x + b * p1.y;
-    let f = c * q1.x + d * q1.y;
+    let e = a * p1.x as i64 + b * p1.y as i64;
+    let f = c * q1.x as i64 + d * q1.y as i64;
     /* Now we need to solve:
      *     [a b] [rx]   [e]
      *     [c d] [ry] = [f]
@@ -106,8 +106,8 @@ pub fn line_intersect(p0: &Point, p1: &Point, q0: &Point, q1: &Point) -> Option<
         None
     } else {
         Some(Point {
-            x: (d * e - b * f) / det,
-            y: (-c * e + a * f) / det,
+            x: i32::try_from((d * e - b * f) / det).ok()?,
+            y: i32::try_from((-c * e + a * f) / det).ok()?,
         })
     }
 }
-- 
2.43.0


From 3581be4794338115d911d4eed72df84dd2260c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 4/8] fix: a capstone that has no perspective after rotation is
 no grid

Perspective::create only requires three of the corners to be in
orientation, so it can succeed for a concave quadrilateral and fail for
its rotation. from_group panicked on such images.
---
 src/identify/grid.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 805e261..6a35eb2 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -56,9 +56,9 @@ impl SkewedGridLocation {
         /* Rotate each capstone so that corner 0 is top-left with respect
          * to the grid.
          */
-        rotate_capstone(&mut group.0, &h0, &hd);
-        rotate_capstone(&mut group.1, &h0, &hd);
-        rotate_capstone(&mut group.2, &h0, &hd);
+        rotate_capstone(&mut group.0, &h0, &hd)?;
+        rotate_capstone(&mut group.1, &h0, &hd)?;
+        rotate_capstone(&mut group.2, &h0, &hd)?;
 
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
@@ -164,7 +164,7 @@ where
     Some(jiggle_perspective(img, initial, grid_size))
 }
 
-fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
+fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
     let (best_idx, _) = cap
         .corners
         .iter()
@@ -174,8 +174,8 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) {
 
     /* Rotate the capstone */
     cap.corners.rotate_left(best_idx);
-    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)
-        .expect("rotated perspective can't fail");
+    cap.c = geometry::Perspective::create(&cap.corners, 7.0, 7.0)?;
+    Some(())
 }
 
 //* Try the measure the timing pattern for a given QR code. This does
-- 
2.43.0


From e5b1e6e085166f786d15027514a8068b2aa74e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:09 +0000
Subject: [PATCH 5/8] fix: capstones without any timing pattern between them
 are no grid

measure_timing_pattern panicked when neither scan between the capstones
crossed a colour change.
---
 src/identify/grid.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 6a35eb2..839fac9 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -63,7 +63,7 @@ impl SkewedGridLocation {
         /* Check the timing pattern. This doesn't require a perspective
          * transform.
          */
-        let grid_size = measure_timing_pattern(img, &group);
+        let grid_size = measure_timing_pattern(img, &group)?;
 
         /* Make an estimate based for the alignment pattern based on extending
          * lines from capstones A and C.
@@ -187,7 +187,7 @@ fn rotate_capstone(cap: &mut CapStone, h0: &Point, hd: &Point) -> Option<()> {
 // * which is nearest the centre of the code. Using these points, we do
 // * a horizontal and a vertical timing scan.
 // */
-fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> usize
+fn measure_timing_pattern<S>(img: &PreparedImage<S>, caps: &CapStoneGroup) -> Option<usize>
 where
     S: ImageBuffer,
 {
@@ -203,10 +203,12 @@ where
     let scan = cmp::max(hscan, vscan);
 
     /* Choose the nearest allowable grid size */
-    assert!(scan >= 1);
+    if scan < 1 {
+        return None;
+    }
     let size = scan + 13;
     let ver = (size as f64 - 15.0).floor() as usize / 4;
-    ver * 4 + 17
+    Some(ver * 4 + 17)
 }
 
 fn timing_scan<S>(img: &PreparedImage<S>, p0: &Point, p1: &Point) -> usize
-- 
2.43.0


From 49de20d1fbc5b0f2dfefb4086e014364e5a0d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:05 +0000
Subject: [PATCH 6/8] fix: last alignment pattern coordinate of version 21

ISO/IEC 18004 table E.1 has 94 (the last coordinate is always size - 7);
with 92 the data modules of every version 21 symbol were misread.
---
 src/version_db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version_db.rs b/src/version_db.rs
index 80bdae8..f8b68da 100644
--- a/src/version_db.rs
+++ b/src/version_db.rs
@@ -551,7 +551,7 @@ pub const VERSION_DATA_BASE: [VersionInfo; 41] = [
     },
     VersionInfo {
         data_bytes: 1156,
-        apat: [6, 28, 50, 72, 92, 0, 0],
+        apat: [6, 28, 50, 72, 94, 0, 0],
         ecc: [
             RSParameters {
                 bs: 68,
-- 
2.43.0


From 5972f148a7d3fa2643c8e71b1ed2b6cfa3c8cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:35 +0000
Subject: [PATCH 7/8] verif: hooks for the verification harness, off unless
 cfg(rqrr_verif)

---
 src/decode.rs        |  6 ++++++
 src/detect.rs        |  6 ++++++
 src/geometry.rs      |  6 ++++++
 src/identify/grid.rs |  6 ++++++
 src/lib.rs           | 13 +++++++++++++
 src/prepare.rs       |  6 ++++++
 6 files changed, 43 insertions(+)

diff --git a/src/decode.rs b/src/decode.rs
index 754a3fd..530b1c3 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -897,3 +897,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RQRR_VERIF_HOOKS"), "/decode.rs"));
+}
diff --git a/src/detect.rs b/src/detect.rs
index 64ba4ee..e4a88b8 100644
--- a/src/detect.rs
+++ b/src/detect.rs
@@ -702,3 +702,9 @@ mod tests {
         assert_eq!(0, caps.len());
     }
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RQRR_VERIF_HOOKS"), "/detect.rs"));
+}
diff --git a/src/geometry.rs b/src/geometry.rs
index 5350f4d..c6fafc0 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -319,3 +319,9 @@ mod tests {
         );
     }
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RQRR_VERIF_HOOKS"), "/geometry.rs"));
+}
diff --git a/src/identify/grid.rs b/src/identify/grid.rs
index 839fac9..c5206a0 100644
--- a/src/identify/grid.rs
+++ b/src/identify/grid.rs
@@ -479,3 +479,9 @@ where
         - fitness_ring(img, perspective, x + 3, y + 3, 2)
         + fitness_ring(img, perspective, x + 3, y + 3, 3)
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RQRR_VERIF_HOOKS"), "/grid.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index f176783..6701850 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,6 +34,9 @@ If you have some other form of picture storage, you can use
 you to define your own source for images.
 "##
 )]
+// `rqrr_verif` is set on the command line by the verification harness only
+#![allow(unexpected_cfgs)]
+
 pub use self::decode::{MetaData, RawData, Version, MAX_PAYLOAD_SIZE};
 pub(crate) use self::detect::{capstones_from_image, CapStone};
 pub use self::identify::Point;
@@ -703,3 +706,13 @@ mod tests {
         assert_eq!(b"1234567891011121314151617181920".as_ref(), &vec[..])
     }
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::decode::verif as decode;
+    pub use crate::detect::verif as detect;
+    pub use crate::geometry::verif as geometry;
+    pub use crate::identify::grid::verif as grid;
+    pub use crate::prepare::verif as prepare;
+}
diff --git a/src/prepare.rs b/src/prepare.rs
index 27b77b4..a041bcf 100644
--- a/src/prepare.rs
+++ b/src/prepare.rs
@@ -677,3 +677,9 @@ mod tests {
         }
     }
 }
+
+#[cfg(rqrr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("RQRR_VERIF_HOOKS"), "/prepare.rs"));
+}
-- 
2.43.0


From 972ba0a12b479b7660bfd8cf2463415e1f157d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:40 +0000
Subject: [PATCH 8/8] fix: last data word of large blocks was taken from the
 parity words

The row of data words that only large blocks have holds no word for the
small ones, so the large block i has its word at i - ns of that row. The
wrong word went unnoticed in undamaged symbols since it was corrected as
an error, at the cost of the correction capacity of the block.
---
 src/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decode.rs b/src/decode.rs
index 530b1c3..c2751f0 100644
--- a/src/decode.rs
+++ b/src/decode.rs
@@ -358,9 +358,13 @@ fn codestream_ecc(meta: &MetaData, ds: RawData) -> DeQRResult<CorrectedDataStrea
         let dst = &mut out.data[dst_offset..(dst_offset + ecc.bs)];
         let num_ec = ecc.bs - ecc.dw;
         #[allow(clippy::needless_range_loop)]
-        for j in 0..ecc.dw {
+        for j in 0..sb_ecc.dw {
             dst[j] = ds.data[j * bc + i];
         }
+        // The last row of data words only has the words of the large blocks
+        if ecc.dw > sb_ecc.dw {
+            dst[sb_ecc.dw] = ds.data[sb_ecc.dw * bc + i - sb_ecc.ns];
+        }
         for j in 0..num_ec {
             dst[ecc.dw + j] = ds.data[ecc_offset + j * bc + i];
         }
-- 
2.43.0

