From ace098f89b30da477802c6c2665bb8ebc032ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 01/28] fix: facet neighbours of a convex hull all pointed at
 facet 0

---
 qhull-rs/src/convex_hull.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/convex_hull.rs b/qhull-rs/src/convex_hull.rs
index f9c1425..892baa3 100644
--- a/qhull-rs/src/convex_hull.rs
+++ b/qhull-rs/src/convex_hull.rs
@@ -49,7 +49,7 @@ impl<N> ConvexHull<N>
         let mut offsets_and_normals = vec![];
         let mut facet_id_map = HashMap::<u64, usize>::new();
         for facet in hull.facets() {
-            facet_id_map.insert(facet.id(), facets.len());
+            facet_id_map.insert(facet.id(), offsets_and_normals.len());
             offsets_and_normals.push((
                 // XXX This feels really gross, but it's necessary until a change is made to the
                 //     facet api :(
-- 
2.43.0


From 24d45801b7a7119684c154605eef0046cc6926b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 02/28] fix: simplex search without a hint panicked on
 single-simplex triangulations

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 180c2d7..4c91244 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -399,7 +399,7 @@ impl<'a, N> SimplexSearcher<'a, N>
         }
 
 
-        let start_simplex_idx = self.start_hint.get().unwrap_or(1);
+        let start_simplex_idx = self.start_hint.get().unwrap_or(0);
         let mut simplex = Simplex { delaunay: self.delaunay, idx: start_simplex_idx };
 
         let lifted_point = self.delaunay.lift_point(point);
-- 
2.43.0


From f0bffb0c1c25409349d1091074690b7d0cedb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:04 +0000
Subject: [PATCH 03/28] fix: Simplex::plane_distance added the normal instead
 of taking the dot product

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 4c91244..7221c0f 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -245,7 +245,7 @@ impl<'a, N> Simplex<'a, N>
         let (normal, offset) = self.delaunay.normals_and_offsets.get(self.idx).unwrap();
         let mut sum = *offset;
         for (a, b) in point.as_slice().iter().zip(normal.as_slice()) {
-            sum += a + b;
+            sum += a * b;
         }
         sum
     }
-- 
2.43.0


From 13ceefd0daff888674d2d4470486dbd9ef7cfc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:51 +0000
Subject: [PATCH 04/28] fix: nearly singular simplices were treated as
 invertible when locating points

---
 qhull-rs/src/delaunay.rs | 11 +++++++++--
 qhull-rs/src/raw.rs      |  8 ++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 7221c0f..815d961 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -12,6 +12,9 @@ pub type Plus1<N> = DimSum<N, U1>;
 
 const NON_SIMPLEX_IDX: usize = usize::MAX;
 
+/// Simplices whose barycentric transformation has a larger condition number are degenerate.
+pub(crate) const MAX_CONDITION: f64 = 1.0 / (1000.0 * f64::EPSILON);
+
 
 /// N dimensional Deluanay triangulation.
 ///
@@ -612,9 +615,13 @@ impl<N> BarycentricTransformation<N>
                 .map(move |vert| vert[i] - rn)
             );
         let t = OMatrix::<f64, N, N>::from_row_iterator(iter);
-        let decomp = t.lu();
+        let decomp = t.clone().lu();
         let mut t_inv = OMatrix::<f64, N, N>::from_element(f64::NAN);
-        let _ = decomp.try_inverse_to(&mut t_inv);
+        // Rounding can leave a flat simplex with a matrix that is not quite singular, but whose
+        // inverse is pure noise. Like SciPy, consider those degenerate too.
+        if !decomp.try_inverse_to(&mut t_inv) || !(t.norm() * t_inv.norm() < MAX_CONDITION) {
+            t_inv.fill(f64::NAN);
+        }
 
         BarycentricTransformation {
             t_inv,
diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index 04f2f4f..ff5ab5c 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -894,10 +894,10 @@ impl<N: DimName> Delaunay<N>
             }
 
             let lu = mat.clone().lu();
-            let mat = if let Some(mat) = lu.try_inverse() {
-                mat
-            } else {
-                continue;
+            let mat = match lu.try_inverse() {
+                // A flat simplex can look invertible because of rounding, but its inverse is noise
+                Some(inv) if mat.norm() * inv.norm() < crate::delaunay::MAX_CONDITION => inv,
+                _ => continue,
             };
             solvers[simplex.id() as usize] = Some(BarycentricSolver {
                 mat,
-- 
2.43.0


From 312db1547836d5aeb1516b9577613ecce89109f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:34 +0000
Subject: [PATCH 05/28] fix: brute-force point location judged a degenerate
 simplex's neighbour by stale coordinates

---
 qhull-rs/src/delaunay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qhull-rs/src/delaunay.rs b/qhull-rs/src/delaunay.rs
index 815d961..f4dab54 100644
--- a/qhull-rs/src/delaunay.rs
+++ b/qhull-rs/src/delaunay.rs
@@ -465,9 +465,9 @@ impl<'a, N> SimplexSearcher<'a, N>
                         // This neighbor is degenerate too, skip it
                         continue
                     }
+                    transform.solve(point.clone(), bcoords);
                     let inside = self.delaunay.neighbors[neighbor].iter()
                         .zip(bcoords.iter())
-                        .filter(|(i, _)| **i != NON_SIMPLEX_IDX)
                         .all(|(inner_neighbor, coord)| {
                             if inner_neighbor == &i {
                                 *coord >= -eps_broad && *coord <= 1.0 + self.eps
-- 
2.43.0


From 813c2150ffb049dfa9958e37c5126a8c7615b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 06/28] fix: a qhull error jumped through an uninitialized
 jmp_buf instead of failing cleanly

---
 qhull-rs/src/raw.rs                  | 29 ++++++++++++++--------------
 qhull-sys/src/bindings/unix_64bit.rs | 10 ++++++++++
 qhull-sys/src/bindings/wasm_32bit.rs | 10 ++++++++++
 qhull-sys/src/ext.c                  | 20 +++++++++++++++++++
 4 files changed, 54 insertions(+), 15 deletions(-)

diff --git a/qhull-rs/src/raw.rs b/qhull-rs/src/raw.rs
index ff5ab5c..4988a66 100644
--- a/qhull-rs/src/raw.rs
+++ b/qhull-rs/src/raw.rs
@@ -55,16 +55,17 @@ impl<N: DimName> ConvexHull<N> {
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull   Qc Qx         Qt\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-        ConvexHull {
+        // Construct this first, so the memory is released if qhull fails
+        let hull = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
+        };
+        let mut cmd = *b"qhull   Qc Qx         Qt\0";
+        let error = qhull_sys::rqh_run(qh, cmd.as_mut_ptr().cast(), 0, buf, len as _, N::dim() as _);
+        if error != 0 {
+            panic!("qhull failed to construct a convex hull (error {})", error);
         }
+        hull
     }
 
     pub fn facets<'a>(&'a self) -> FacetListIterator<'a, N> {
@@ -417,18 +418,16 @@ impl<N: DimName> Delaunay<N>
         let stdout = qhull_sys::rqh_stdout();
         let stderr = qhull_sys::rqh_stderr();
         qhull_sys::qh_init_A(qh, stdin, stdout, stderr, 0, ptr::null_mut());
-        *qhull_sys::rqh_get_NOerrexit(qh) = 0;
-        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
-        qhull_sys::qh_initflags(qh, cmd.as_mut_ptr().cast());
-        *qhull_sys::rqh_get_PROJECTdelaunay(qh) = 1;
-        qhull_sys::qh_init_B(qh, buf, len as _, N::dim() as _, 1);
-        qhull_sys::qh_qhull(qh);
-        qhull_sys::qh_triangulate(qh);
-
+        // Construct this first, so the memory is released if qhull fails
         let cv = ConvexHull {
             qh: NonNull::new(qh).unwrap(),
             pd: PhantomData,
         };
+        let mut cmd = *b"qhull d Qc Qx Qbb Q12 Qt Qz\0";
+        let error = qhull_sys::rqh_run(qh, cmd.as_mut_ptr().cast(), 1, buf, len as _, N::dim() as _);
+        if error != 0 {
+            panic!("qhull failed to construct a Delaunay triangulation (error {})", error);
+        }
         let mut max_bounds = OVector::from_element(f64::MIN);
         let mut min_bounds = OVector::from_element(f64::MAX);
         for vertex in cv.vertices() {
diff --git a/qhull-sys/src/bindings/unix_64bit.rs b/qhull-sys/src/bindings/unix_64bit.rs
index 8f5103b..7adc9a2 100644
--- a/qhull-sys/src/bindings/unix_64bit.rs
+++ b/qhull-sys/src/bindings/unix_64bit.rs
@@ -1047,6 +1047,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_PROJECTdelaunay(qh: *mut qhT) -> *mut ::std::os::raw::c_uint;
 }
+extern "C" {
+    pub fn rqh_run(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_get_last_low(qh: *mut qhT) -> f64;
 }
diff --git a/qhull-sys/src/bindings/wasm_32bit.rs b/qhull-sys/src/bindings/wasm_32bit.rs
index 8f4835b..097e69a 100644
--- a/qhull-sys/src/bindings/wasm_32bit.rs
+++ b/qhull-sys/src/bindings/wasm_32bit.rs
@@ -1052,6 +1052,16 @@ extern "C" {
 extern "C" {
     pub fn rqh_get_PROJECTdelaunay(qh: *mut qhT) -> *mut ::std::os::raw::c_uint;
 }
+extern "C" {
+    pub fn rqh_run(
+        qh: *mut qhT,
+        flags: *mut ::std::os::raw::c_char,
+        delaunay: ::std::os::raw::c_uint,
+        points: *mut f64,
+        numpoints: ::std::os::raw::c_int,
+        dim: ::std::os::raw::c_int,
+    ) -> ::std::os::raw::c_int;
+}
 extern "C" {
     pub fn rqh_get_last_low(qh: *mut qhT) -> f64;
 }
diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index c0e324b..ee2a0d1 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -57,3 +57,23 @@ FILE* rqh_stdout() {
 FILE* rqh_stderr() {
     return stderr;
 }
+
+/* Run qhull on a freshly initialized qhT. Takes ownership of `points`.
+
+   qhull reports an error by a longjmp to qh->errexit, so that has to be set while it runs. Returns
+   0, or qhull's exit code if it gave up.
+   */
+int rqh_run(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoints, int dim) {
+    int exitcode = setjmp(qh->errexit);
+    if (!exitcode) {
+        qh->NOerrexit = False;
+        qh_initflags(qh, flags);
+        if (delaunay)
+            qh->PROJECTdelaunay = True;
+        qh_init_B(qh, points, numpoints, dim, True);
+        qh_qhull(qh);
+        qh_triangulate(qh);
+    }
+    qh->NOerrexit = True;
+    return exitcode;
+}
-- 
2.43.0


From caebc7cb881a2e8906e9699348a10ca4b6b25ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 07/28] fix: decomposing with a coplanar palette crashed
 instead of returning an error

---
 image-palette-recoloring/src/lib.rs     |  5 +++++
 image-palette-recoloring/src/palette.rs | 16 ++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 71e0462..4964dfd 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -160,6 +160,11 @@ impl DecomposedImage {
                 palette.len()
             ))
         }
+        if palette::is_coplanar(palette) {
+            return Err(
+                "The palette's colors all lie in a single plane, so their convex hull is empty".into()
+            );
+        }
         let palette_ch: ConvexHull<Const<3>> = palette.iter()
             .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
             .collect();
diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index c264838..3701cc9 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -306,6 +306,22 @@ fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &
 }
 
 
+/// Whether the 3D convex hull of the colors in the palette would be degenerate.
+pub(crate) fn is_coplanar(palette: &[Rgb<u8>]) -> bool {
+    let points: Vec<Vector3<i64>> = palette.iter()
+        .map(|p| Vector3::new(p[0] as i64, p[1] as i64, p[2] as i64))
+        .collect();
+    let mut edges = points.iter().map(|p| p - points[0]).skip_while(|e| *e == Vector3::zeros());
+    let Some(first) = edges.next() else {
+        return true
+    };
+    let mut normals = edges.map(|e| first.cross(&e)).skip_while(|n| *n == Vector3::zeros());
+    let Some(normal) = normals.next() else {
+        return true
+    };
+    points.iter().all(|p| normal.dot(&(p - points[0])) == 0)
+}
+
 pub(crate) fn compute_star_triangulation_coordinates(
     palette: &[Rgb<u8>],
     palette_ch: &ConvexHull<Const<3>>,
-- 
2.43.0


From f8fad2c46f8b9e26cf277f301155225b47ef8f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 08/28] fix: duplicate palette colors were accepted and left
 the decomposition one channel short

---
 image-palette-recoloring/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring/src/lib.rs b/image-palette-recoloring/src/lib.rs
index 4964dfd..4d2ce15 100644
--- a/image-palette-recoloring/src/lib.rs
+++ b/image-palette-recoloring/src/lib.rs
@@ -179,6 +179,10 @@ impl DecomposedImage {
             }
         }
 
+        if palette_ch.vertices().len() != palette.len() {
+            return Err("The palette contains the same color more than once".into());
+        }
+
         let palette_matrix = crate::palette::compute_star_triangulation_coordinates(
             &palette,
             &palette_ch,
-- 
2.43.0


From f6e6cbcd523e012b76597959c1ce0df0fd584bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 09/28] fix: compute_palette panicked when no edge of the hull
 could be collapsed

---
 image-palette-recoloring/src/palette.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 3701cc9..1990073 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -78,7 +78,10 @@ pub fn compute_palette(
     while ch.vertices().len() > min_palette_size {
         // TODO: We need to calculate the level of error we've created here. This gives us a better
         //       idea of when we should exit the loop
-        let (new_vertex, vertices_to_remove) = locate_edge_to_collapse(&ch);
+        let Some((new_vertex, vertices_to_remove)) = locate_edge_to_collapse(&ch) else {
+            // None of the edges can be collapsed, so this is as simple as the hull gets.
+            break
+        };
         let new_hull = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
@@ -228,7 +231,7 @@ impl<'a> EdgeData<'a> {
 }
 
 
-fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2]) {
+fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> Option<([f64; 3], [usize; 2])> {
 
     let edge_data = EdgeData::new(ch);
 
@@ -293,10 +296,9 @@ fn locate_edge_to_collapse(ch: &ConvexHull<Const<3>>) -> ([f64; 3], [usize; 2])
     }
     let (edge_vertices, new_point, _vol) = edge_candidates.iter()
         .min_by(|(_, _, vol_a), (_, _, vol_b)| vol_a.partial_cmp(vol_b).unwrap())
-        .cloned()
-        .unwrap();
+        .cloned()?;
 
-    (new_point, edge_vertices)
+    Some((new_point, edge_vertices))
 }
 
 fn tetrahedron_volume(a: &Vector3<f64>, b: &Vector3<f64>, c: &Vector3<f64>, d: &Vector3<f64>)
-- 
2.43.0


From 8e4c816fee9e39aeb72fcd380a0abbc9e1124f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 10/28] fix: compute_palette checked the error of the previous
 hull and returned one past the bound

---
 image-palette-recoloring/src/palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 1990073..4ae8cac 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -92,7 +92,7 @@ pub fn compute_palette(
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
-            let error = compute_pixel_error(&ch, &pixel_counts, total_count);
+            let error = compute_pixel_error(&new_hull, &pixel_counts, total_count);
             if error > error_bound {
                 // We've reached or exceeded the error bound, so we are exiting here.
                 // We return the previous hull that still was inside the error bound.
-- 
2.43.0


From 0fd90bdb038ecadb98910503eed7141fa662668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 11/28] fix: the palette error ignored that clamping moves
 colors, so it was always zero

---
 image-palette-recoloring/src/palette.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 4ae8cac..0a433db 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -130,7 +130,7 @@ fn compute_pixel_error(
         .map(|v| v.point())
         .map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())
         .collect();
-    let tri = Delaunay::from_arrays(ch.vertices()
+    let tri = Delaunay::from_arrays(new_ch.vertices()
         .map(|v| v.point())
         .map(|p| [p.x, p.y, p.z])
         .collect::<Vec<[f64; 3]>>()
-- 
2.43.0


From 59ebe0e1e1cf4b0e9a6a65c6e5de9ddde23ac7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 12/28] fix: decomposing panicked when a palette facet was
 coplanar with the darkest color

---
 image-palette-recoloring/src/palette.rs | 40 ++++++++++++++-----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 0a433db..63ae68f 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -354,9 +354,17 @@ pub(crate) fn compute_star_triangulation_coordinates(
     // hull - the "star". (Naturally, we exclude the triangles that include the star itself to
     // avoid degenerate tetrahedrons.)
 
-    let solvers: Vec<_> = palette_ch.facets()
-        // Facets involving the star vertex would create degenerate tetrahedrons, so skip them.
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+    let star_facets: Vec<_> = palette_ch.facets()
+        // Facets that lie in a plane with the star vertex (it might just be one of their vertices)
+        // would create degenerate tetrahedrons, so skip them. The colors are integers, so the
+        // volume is exact.
+        .filter(|f| {
+            let mut it = f.vertices().map(|v| v.point());
+            let [v0, v1, v2] = [it.next().unwrap(), it.next().unwrap(), it.next().unwrap()];
+            tetrahedron_volume(v0, v1, v2, &star_value) != 0.0
+        })
+        .collect();
+    let solvers: Vec<_> = star_facets.iter()
         .map(|f| {
             // TODO: Is there a better way to do this??? Can I do this with an iterator without
             //       completely losing my mind?
@@ -379,8 +387,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         //     of matrices?
         .map(|mat| mat.lu().try_inverse().unwrap())
         .collect();
-    let simplex_indices: Vec<_> = palette_ch.facets()
-        .filter(|f| f.vertices().all(|v| v.index() != star_index))
+    let simplex_indices: Vec<_> = star_facets.iter()
         .map(|f| Vector4::from_iterator(
                 std::iter::once(star_index).chain(f.vertices().map(|v| v.index()))
             ))
@@ -407,7 +414,7 @@ pub(crate) fn compute_star_triangulation_coordinates(
         } else {
             // If this point is outside of the convex hull, then we want to find the point on the
             // hull closest to the point.
-            let (closest_facet, projected_point, _) = palette_ch.facets()
+            let (projected_point, _) = palette_ch.facets()
                 .map(|f| {
                     let mut it = f.vertices();
                     let v0 = it.next().unwrap().point().clone();
@@ -418,25 +425,22 @@ pub(crate) fn compute_star_triangulation_coordinates(
                     );
                     let diff = pixel - projected_point;
                     let dist = diff.dot(&diff);
-                    (f, projected_point, dist)
+                    (projected_point, dist)
                 })
-                .min_by(|(_, _, left), (_, _, right)| left.total_cmp(right))
+                .min_by(|(_, left), (_, right)| left.total_cmp(right))
                 .unwrap();
 
-            let solver_index = simplex_indices.iter().enumerate()
-                .find(|(_, indices)| {
-                    // This is a match if the simplex has all 3 of the vertices of closest facet.
-                    // There should only every be 1 simplex for which that is true.
-                    let indices = indices.as_slice();
-                    closest_facet.vertices()
-                        .map(|v| v.index())
-                        .all(|i| indices.contains(&i))
-                })
+            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
+            // The simplex that contains the projected point is the one where the smallest
+            // barycentric coordinate isn't negative (or at least is the closest to that).
+            let solver_index = solvers.iter()
+                .map(|solver| (solver * vec).min())
+                .enumerate()
+                .max_by(|(_, left), (_, right)| left.total_cmp(right))
                 .map(|(i, _)| i)
                 .unwrap();
 
             let solver = &solvers[solver_index];
-            let vec = Vector4::new(projected_point[0], projected_point[1], projected_point[2], 1.0);
             solver.mul_to(&vec, &mut bcoords);
             &simplex_indices[solver_index]
         };
-- 
2.43.0


From e811f9c13c0915d9a9eda61b774101d259c42704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 13/28] fix: compute_palette could return colors that clamping
 made redundant, or panic on them

---
 image-palette-recoloring/src/palette.rs | 53 ++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index 63ae68f..f1dfb94 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -89,6 +89,12 @@ pub fn compute_palette(
             .chain(std::iter::once(new_vertex.into()))
             .collect();
 
+        if is_flat(&clamped_points(&new_hull)) || has_redundant_colors(&hull_colors(&new_hull)) {
+            // Clamping merged or flattened colors. An image can't be decomposed to that palette, so
+            // return the previous hull.
+            break
+        }
+
         // Calculating the average error can be expensive, so only do it for the last 6 or so
         // iterations
         if ch.vertices().len() <= max_palette_size {
@@ -109,16 +115,51 @@ pub fn compute_palette(
         previous_vcount = vcount;
     }
 
+    hull_colors(&ch)
+}
+
+fn clamped_points(ch: &ConvexHull<Const<3>>) -> Vec<Vector3<f64>> {
     ch.vertices()
-        .map(|v| v.point())
-        .map(|p| Rgb([
-            (p[0].clamp(0.0, 1.0) * 255.0).round() as u8,
-            (p[1].clamp(0.0, 1.0) * 255.0).round() as u8,
-            (p[2].clamp(0.0, 1.0) * 255.0).round() as u8,
-        ]))
+        .map(|v| v.point().map(|x| x.clamp(0.0, 1.0)))
         .collect()
 }
 
+fn hull_colors(ch: &ConvexHull<Const<3>>) -> Vec<Rgb<u8>> {
+    clamped_points(ch).into_iter()
+        .map(|p| p.map(|x| (x * 255.0).round() as u8))
+        .map(|p| Rgb([p[0], p[1], p[2]]))
+        .collect()
+}
+
+/// Whether the convex hull of the points would be degenerate.
+fn is_flat(points: &[Vector3<f64>]) -> bool {
+    const TOL: f64 = 1e-6;
+    let farthest = |distance: &dyn Fn(&Vector3<f64>) -> f64| points.iter()
+        .map(|p| (p - points[0], distance(&(p - points[0]))))
+        .max_by(|(_, left), (_, right)| left.total_cmp(right))
+        .filter(|(_, distance)| *distance > TOL)
+        .map(|(p, _)| p);
+    let Some(a) = farthest(&|p| p.norm()) else {
+        return true
+    };
+    let Some(b) = farthest(&|p| a.normalize().cross(p).norm()) else {
+        return true
+    };
+    farthest(&|p| a.cross(&b).normalize().dot(p).abs()).is_none()
+}
+
+/// Whether some colors of the palette aren't vertices of its 3D convex hull (or there is no hull).
+fn has_redundant_colors(palette: &[Rgb<u8>]) -> bool {
+    if is_coplanar(palette) {
+        return true
+    }
+    let palette_ch: ConvexHull<Const<3>> = palette.iter()
+        .map(|p| [p[0] as f64, p[1] as f64, p[2] as f64].into())
+        .collect();
+    let vertex_count = palette_ch.vertices().len();
+    vertex_count != palette.len()
+}
+
 // TODO: Something about how I'm computing the error is wrong or at least doesn't capture the
 //       actual reproduction error. :\
 fn compute_pixel_error(
-- 
2.43.0


From ad2912d47279dfad6110e98f93e970b747efbc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 14/28] fix: compute_palette could return fewer colors than
 min_palette_size

---
 image-palette-recoloring/src/palette.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index f1dfb94..dbe7f4e 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -82,13 +82,17 @@ pub fn compute_palette(
             // None of the edges can be collapsed, so this is as simple as the hull gets.
             break
         };
-        let new_hull = ch.vertices()
+        let new_hull: ConvexHull<Const<3>> = ch.vertices()
             .filter(|v| !vertices_to_remove.contains(&v.index()))
             .map(|v| v.point())
             .cloned()
             .chain(std::iter::once(new_vertex.into()))
             .collect();
 
+        if new_hull.vertices().len() < min_palette_size {
+            // Collapsing an edge can swallow other vertices too.
+            break
+        }
         if is_flat(&clamped_points(&new_hull)) || has_redundant_colors(&hull_colors(&new_hull)) {
             // Clamping merged or flattened colors. An image can't be decomposed to that palette, so
             // return the previous hull.
-- 
2.43.0


From 343d010ae4e74e4875556beceaceb4083ed6bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 15/28] fix: the points of a rejected hull were never freed

---
 qhull-sys/src/ext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index ee2a0d1..3102f6d 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -64,7 +64,11 @@ FILE* rqh_stderr() {
    0, or qhull's exit code if it gave up.
    */
 int rqh_run(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoints, int dim) {
-    int exitcode = setjmp(qh->errexit);
+    int exitcode;
+    /* qh_init_B can give up before it records that these are to be freed with qh */
+    qh->first_point = points;
+    qh->POINTSmalloc = True;
+    exitcode = setjmp(qh->errexit);
     if (!exitcode) {
         qh->NOerrexit = False;
         qh_initflags(qh, flags);
-- 
2.43.0


From 11f3d74359421a921728ec7ef7bf046183d6fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 16/28] fix: reading a raw vertex's neighbours panicked on most
 hulls

---
 qhull-sys/src/ext.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qhull-sys/src/ext.c b/qhull-sys/src/ext.c
index 3102f6d..7c4992c 100644
--- a/qhull-sys/src/ext.c
+++ b/qhull-sys/src/ext.c
@@ -77,6 +77,7 @@ int rqh_run(qhT *qh, char *flags, boolT delaunay, coordT *points, int numpoints,
         qh_init_B(qh, points, numpoints, dim, True);
         qh_qhull(qh);
         qh_triangulate(qh);
+        qh_vertexneighbors(qh);
     }
     qh->NOerrexit = True;
     return exitcode;
-- 
2.43.0


From 8b4634b6639658f9721327a24edb813fd51dfda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 17/28] fix: the C header left max_palette_size out of
 compute_palette

---
 image-palette-recoloring-c/image-palette-recoloring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 2e1799a..0b0dde4 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -27,6 +27,7 @@ uint8_t *compute_palette(
     uint32_t img_heigh,
     const uint8_t *rgb_img_bytes,
     uint8_t min_palette_size,
+    uint8_t max_palette_size,
     double error_bound,
     uint8_t *out_palette_color_count
 );
-- 
2.43.0


From 65d2a88d6ca6873a9210b98adfab8552fa6adf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 18/28] fix: the CLI took colors such as +f+f+f

---
 image-palette-recoloring-cli/src/main.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-cli/src/main.rs b/image-palette-recoloring-cli/src/main.rs
index 6da768d..e6acdb1 100644
--- a/image-palette-recoloring-cli/src/main.rs
+++ b/image-palette-recoloring-cli/src/main.rs
@@ -66,6 +66,10 @@ fn parse_color_list(list: &str) -> Result<ColorList, String> {
         if !color_str.is_ascii() {
             Err(format!("Color list contains non-ascii characters."))?
         }
+        // from_str_radix also takes a leading '+'
+        if !color_str.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Err(format!("Color {i} isn't valid: not hexadecimal."))?
+        }
         colors.push(Rgb([
             u8::from_str_radix(&color_str[..2], 16)
                 .map_err(|e| format!("Invalid R comp. in color {i}: {e}"))?,
-- 
2.43.0


From ab927b17d852d78190defad998531394c3cfad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 19/28] fix: the web worker leaked or wrongly freed its output
 buffer when an operation failed

---
 image-palette-recoloring-web/src/js/webworker.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index 55bfdca..c5a1e9e 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -182,6 +182,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
                 this.sendError(id, "Invalid palette size");
             }
         } else if (method == "grayscaleImageChannel") {
@@ -195,7 +196,7 @@ class RecoloringThreadWorker extends ThreadWorker {
             try {
                 success = wasmInst.exports.grayscale_image_channel(decompImagePtr, n, imagePtr);
             } catch (e) {
-                wasmInst.exports.free_image_buffer(width * height * 3, imagePtr);
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 throw e;
             }
 
@@ -213,6 +214,7 @@ class RecoloringThreadWorker extends ThreadWorker {
                 let blob = await createBlobForArray(outputArray, width, height);
                 this.sendResponse(id, blob);
             } else {
+                wasmInst.exports.free_image_buffer(width * height, imagePtr);
                 this.sendError(id, "Invalid palette channel");
             }
         } else {
-- 
2.43.0


From 32bfc0c750cb5b969f26777b10da83ec5655b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 20/28] fix: the web worker never answered a request that threw

---
 image-palette-recoloring-web/src/js/webworker.js | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/webworker.js b/image-palette-recoloring-web/src/js/webworker.js
index c5a1e9e..a0d7486 100644
--- a/image-palette-recoloring-web/src/js/webworker.js
+++ b/image-palette-recoloring-web/src/js/webworker.js
@@ -40,6 +40,15 @@ async function createBlobForArray(array, width, height) {
 
 class RecoloringThreadWorker extends ThreadWorker {
     async onRequest(id, payload) {
+        try {
+            await this.handleRequest(id, payload);
+        } catch (e) {
+            // Without an answer, the page would wait forever
+            this.sendError(id, String(e));
+        }
+    }
+
+    async handleRequest(id, payload) {
         const wasmInst = await wasmInstPromise;
         let { method, args } = payload;
         if (method == "createImageWeights") {
-- 
2.43.0


From d0ccaf142f4893b58952b921c6a3ad13d7ab1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:01 +0000
Subject: [PATCH 21/28] fix: the color text fields ignored colors with a 6 in
 them

---
 image-palette-recoloring-web/src/js/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 52e8f5e..16da71b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -34,7 +34,7 @@ function textInputUpdateColorInput(event) {
     let isValidHexString = value[0] == '#' && value.length == 7;
 
     for (let i = 1; i < value.length; i++) {
-        if (!'012345789abcdefABCDEF'.includes(value[i])) {
+        if (!'0123456789abcdefABCDEF'.includes(value[i])) {
             isValidHexString = false;
             break;
         }
-- 
2.43.0


From b5cc7c15c11a6d4660e0911ef844650c62584389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 22/28] fix: recomputing while the web worker was busy mixed up
 and doubly freed its objects

---
 image-palette-recoloring-web/src/js/index.js | 44 ++++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 16da71b..235e72b 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -23,6 +23,34 @@ let g_imageWeightsPtr;
 let g_deconstructedImagePtr;
 let g_savedDecompositionPalette;
 
+let g_lastJob = Promise.resolve();
+let g_unfinishedJobs = 0;
+
+function updateBusy() {
+    const busy = g_unfinishedJobs > 0;
+    dstSpinner.style.visibility = busy ? "visible" : "hidden";
+    recomputeOutputButton.disabled = busy;
+    recomputePaletteButton.disabled = busy;
+    srcImgPicker.disabled = busy;
+}
+
+// Jobs share the objects in the worker, so only one may run at a time.
+async function runJob(job) {
+    g_unfinishedJobs += 1;
+    updateBusy();
+    g_lastJob = g_lastJob.then(async () => {
+        try {
+            await job();
+        } catch (e) {
+            console.error(e);
+        } finally {
+            g_unfinishedJobs -= 1;
+            updateBusy();
+        }
+    });
+    await g_lastJob;
+}
+
 function colorInputUpdateTextInput(event) {
     event.target.nextElementSibling.value = event.target.value;
 }
@@ -83,12 +111,6 @@ function colorValuesToString(values) {
 async function initialSetup() {
     // TODO: Replace the dest image with a placeholder that is the same size
     offscreenImg.src = srcImg.src;
-    // TODO: Disable all controls until we're done
-    dstSpinner.style.visibility = "visible";
-    recomputeOutputButton.disabled = true;
-    recomputePaletteButton.disabled = true;
-    srcImgPicker.disabled = true;
-
     if (g_imageWeightsPtr != undefined) {
         await thread.sendRequest({
             method: "freeImageWeights",
@@ -257,16 +279,12 @@ async function reconstructImage() {
         URL.revokeObjectURL(dstImg.src);
     }
     dstImg.src = url;
-    dstSpinner.style.visibility = "hidden";
-    recomputeOutputButton.disabled = false;
-    recomputePaletteButton.disabled = false;
-    srcImgPicker.disabled = false;
 }
 
 window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
-    srcImg.addEventListener("load", async () => await initialSetup());
+    srcImg.addEventListener("load", async () => await runJob(initialSetup));
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
@@ -278,10 +296,10 @@ window.addEventListener("load", (event) => {
     });
 
     recomputeOutputButton.addEventListener("click", async () => {
-        await reconstructImage();
+        await runJob(reconstructImage);
     });
     recomputePaletteButton.addEventListener("click", async () => {
-        await recomputePalette();
+        await runJob(recomputePalette);
     });
 
     // Load "example.png" into the main image
-- 
2.43.0


From e8da390982bff9ac75a656f30539f99332fe8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:15 +0000
Subject: [PATCH 23/28] fix: the web UI used and freed objects that could not
 be created

---
 image-palette-recoloring-web/src/js/index.js | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 235e72b..b6d1c27 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -215,6 +215,10 @@ async function recomputePalette(array) {
 }
 
 async function reconstructImage() {
+    if (g_imageWeightsPtr == undefined) {
+        throw new Error("There is no usable image");
+    }
+
     const currentPaletteColors = [];
     for (const paletteNode of paletteWrapper.children) {
         const value = paletteNode.children["palette-src-color"].value;
@@ -234,11 +238,17 @@ async function reconstructImage() {
                 method: "freeDecomposedImage",
                 args: [g_deconstructedImagePtr],
             })
+            g_deconstructedImagePtr = undefined;
         }
-        g_deconstructedImagePtr = await thread.sendRequest({
+        const decomposedImagePtr = await thread.sendRequest({
             method: "createDecomposedImage",
             args: [g_imageWeightsPtr, g_savedDecompositionPalette],
         });
+        // It's null if the palette isn't valid
+        if (!decomposedImagePtr) {
+            throw new Error("Invalid palette");
+        }
+        g_deconstructedImagePtr = decomposedImagePtr;
 
         // TODO: We need a way to handle the error case. IE, what happens when we provide an invalid
         //       set of palette colors?
-- 
2.43.0


From ad2d97b6b5521f1c96c47e94c89ba89a7cf721c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:14 +0000
Subject: [PATCH 24/28] fix: the example replaced an image picked while it was
 being fetched

---
 image-palette-recoloring-web/src/js/index.js | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index b6d1c27..6496362 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -316,6 +316,9 @@ window.addEventListener("load", (event) => {
     (async () => {
         let response = await fetch("example.png");
         let blob = await response.blob();
-        srcImg.src = URL.createObjectURL(blob);
+        // Unless the user was faster
+        if (srcImg.src.length == 0) {
+            srcImg.src = URL.createObjectURL(blob);
+        }
     })();
 });
-- 
2.43.0


From 47edc9031e47c1936545193bbe94ddb56ef040b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 25/28] fix: the C interface miscounted palettes of more than
 255 colors

---
 image-palette-recoloring-c/image-palette-recoloring.h | 4 +++-
 image-palette-recoloring-c/src/lib.rs                 | 9 ++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/image-palette-recoloring-c/image-palette-recoloring.h b/image-palette-recoloring-c/image-palette-recoloring.h
index 0b0dde4..9cc3902 100644
--- a/image-palette-recoloring-c/image-palette-recoloring.h
+++ b/image-palette-recoloring-c/image-palette-recoloring.h
@@ -21,7 +21,9 @@ void free_image_weights(image_weights *weights);
 /// The returned palette is a list of RGB values. The total byte size of the
 /// buffer returned is 3 times the value stored into out_palette_color_count.
 ///
-/// The return palette will never be smaller than 4 colors.
+/// The return palette will never be smaller than 4 colors. If it would need more
+/// than 255 colors, then the function returns NULL and stores 0 into
+/// out_palette_color_count.
 uint8_t *compute_palette(
     uint32_t img_width,
     uint32_t img_heigh,
diff --git a/image-palette-recoloring-c/src/lib.rs b/image-palette-recoloring-c/src/lib.rs
index b0ed75c..8ce8d7f 100644
--- a/image-palette-recoloring-c/src/lib.rs
+++ b/image-palette-recoloring-c/src/lib.rs
@@ -62,12 +62,19 @@ unsafe extern "C" fn compute_palette(
         error_bound
     );
 
-    *out_palette_size = palette.len() as u8;
+    let Ok(palette_size) = u8::try_from(palette.len()) else {
+        *out_palette_size = 0;
+        return ptr::null_mut()
+    };
+    *out_palette_size = palette_size;
     Box::into_raw(palette.into_boxed_slice()) as *mut [u8; 3]
 }
 
 #[no_mangle]
 unsafe extern "C" fn free_computed_palette(ptr: *mut [u8; 3], palette_size: u8) {
+    if ptr.is_null() {
+        return
+    }
     let ptr = ptr::slice_from_raw_parts_mut(ptr as *mut Rgb<u8>, palette_size as usize);
     let _ = Box::from_raw(ptr);
 }
-- 
2.43.0


From 28015120893b81be057fa8d37dfe9a2bfb4bcc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 26/28] fix: cancelling the file picker revoked the address of
 the image shown

---
 image-palette-recoloring-web/src/js/index.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 6496362..369b063 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -298,6 +298,10 @@ window.addEventListener("load", (event) => {
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
+        // There is none if the user cancelled
+        if (selectedFile === undefined) {
+            return;
+        }
         if (srcImg.src.length != 0) {
             URL.revokeObjectURL(srcImg.src);
         }
-- 
2.43.0


From d8aa242cbf6179569557a491897367310b314d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:31 +0000
Subject: [PATCH 27/28] fix: the web UI stayed busy if the first file picked
 wasn't an image

---
 image-palette-recoloring-web/src/js/index.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/image-palette-recoloring-web/src/js/index.js b/image-palette-recoloring-web/src/js/index.js
index 369b063..e66e8ae 100644
--- a/image-palette-recoloring-web/src/js/index.js
+++ b/image-palette-recoloring-web/src/js/index.js
@@ -295,6 +295,8 @@ window.addEventListener("load", (event) => {
     // We need some event handlers
     // When the image in srcImg changes, we need to recompute the palette
     srcImg.addEventListener("load", async () => await runJob(initialSetup));
+    // There is nothing to wait for if the file isn't an image
+    srcImg.addEventListener("error", updateBusy);
 
     srcImgPicker.addEventListener("change", (event) => {
         var selectedFile = event.target.files[0];
-- 
2.43.0


From 6b9020e8b0cefa025e3c62e814435cc0be9f4def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 28/28] fix: the palette depended on the order of a hash table,
 which differs every time

---
 image-palette-recoloring/src/palette.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/image-palette-recoloring/src/palette.rs b/image-palette-recoloring/src/palette.rs
index dbe7f4e..6b562b4 100644
--- a/image-palette-recoloring/src/palette.rs
+++ b/image-palette-recoloring/src/palette.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use good_lp::{ProblemVariables, VariableDefinition, SolverModel};
 use good_lp::solvers::Solution;
@@ -56,9 +56,10 @@ pub fn compute_palette(
     let mut previous_vcount = ch.vertices().len();
 
     // Build up the list of unique pixels and their counts
-    let mut pixel_map = HashMap::new();
+    // The order of the pixels has to be fixed: the error depends on it (if only by its rounding).
+    let mut pixel_map = BTreeMap::new();
     for (_, _, pixel) in img.pixels() {
-        let count = pixel_map.entry(pixel).or_insert(0);
+        let count = pixel_map.entry(pixel.0).or_insert(0);
         *count += 1
     }
     let pixel_counts = pixel_map.into_iter()
-- 
2.43.0

