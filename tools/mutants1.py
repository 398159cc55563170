# --- lib.rs
M("l01-xy-div", "C01 C02", (LIB, """                    x as f64 / img.width() as f64,
                    y as f64 / img.height() as f64
""", """                    x as f64 / img.width() as f64,
                    y as f64 / img.width() as f64
"""))
M("l02-search-xy", "C01 C02 C09", (LIB, """                        x as f64 / img.width() as f64,
                        y as f64 / img.height() as f64,
""", """                        x as f64 / img.width() as f64,
                        y as f64 / img.width() as f64,
"""))
M("l03-tol", "C01 C02", (LIB, "INITAL_TOLERANCE: f64 = 1e-10", "INITAL_TOLERANCE: f64 = 2e-2"))
M("l04-eps-once", "C01 C08", (LIB, """            const INITAL_TOLERANCE: f64 = 1e-10;
            simplex_searcher.set_eps(INITAL_TOLERANCE);
""", """            const INITAL_TOLERANCE: f64 = 1e-10;
            if i == 0 { simplex_searcher.set_eps(INITAL_TOLERANCE); }
"""))
M("l05-xy-reconstruct", "C01 C03", (LIB, "let x = i % self.width as usize;\n            let y = i / self.width as usize;", "let x = i / self.height as usize;\n            let y = i % self.height as usize;"))
M("l06-n-gt", "C03", (LIB, "if n >= self.matrix.ncols()", "if n > self.matrix.ncols()"))
M("l07-len-lt", "C03 C04", (LIB, "if palette.len() != self.num_channels()", "if palette.len() < self.num_channels()"))
M("l08-redundant-any", "C04", (LIB, "v.point().as_slice() != &color[..]", "v.point().as_slice()[..2] != color[..2]"))
M("l09-dup-dropped", "C04", (LIB, "if palette_ch.vertices().len() != palette.len() {", "if palette_ch.vertices().len() > palette.len() {"))
M("l10-min5", "C04", (LIB, "if palette.len() < 4 {", "if palette.len() < 5 {"))
M("l11-coplanar", "C04", (LIB, "if palette::is_coplanar(palette) {", "if palette.len() == 4 && palette::is_coplanar(palette) {"))
M("l12-gray-round-neg", "C03", (LIB, "(x * 255.0).clamp(0.0, 255.0) as u8", "(x.abs() * 255.0) as u8"))
M("l13-gray-256", "C03", (LIB, "(x * 255.0).clamp(0.0, 255.0) as u8", "(x * 256.0).clamp(0.0, 255.0) as u8"))
M("l14-clamp", "C01 C02 C03", (LIB, "row[2].clamp(0.0, 255.0) as u8", "row[2] as i64 as u8"))
M("l15-vertices", "C01", (LIB, "let ch_rgb_vertices = tri.vertices()", "let ch_rgb_vertices = ch.vertices()"))
M("l16-chan-width", "C03", (LIB, "self.matrix.ncols()\n    }", "self.matrix.ncols().max(4)\n    }"))
M("l17-g-b", "C01", (LIB, "palette.iter().flat_map(|p| [p[0] as f64, p[1] as f64, p[2] as f64])", "palette.iter().flat_map(|p| [p[0] as f64, p[1] as f64, p[if palette.len() > 5 { 1 } else { 2 }] as f64])"))
M("l18-heightw", "C01 C03", (LIB, "            width: img.width,\n            height: img.height,\n        })", "            width: img.height,\n            height: img.width,\n        })"))
# --- palette.rs
M("p01-bound-ge", "C05", (PAL, "if error > error_bound {", "if error >= error_bound {"))
M("p02-max-lt", "C05 C06", (PAL, "if ch.vertices().len() <= max_palette_size {", "if ch.vertices().len() < max_palette_size {"))
M("p03-min-le", "C05 C06", (PAL, "if new_hull.vertices().len() < min_palette_size {", "if new_hull.vertices().len() <= min_palette_size {"))
M("p04-remove-one", "C10 C06", (PAL, "!vertices_to_remove.contains(&v.index())", "vertices_to_remove[0] != v.index()"))
M("p05-flat-tol", "C07 C09 C05", (PAL, "const TOL: f64 = 1e-6;\n    let farthest", "const TOL: f64 = 1e-2;\n    let farthest"))
M("p06-prev", "C05 C06", (PAL, "        previous_vcount = vcount;", "        if vcount < max_palette_size { previous_vcount = vcount; }"))
M("p07-total", "C05", (PAL, "let total_count: f64 = pixel_counts.iter()\n        .map(|(_, count)| *count)\n        .sum();", "let total_count: f64 = pixel_counts.len() as f64;"))
M("p08-nosqrt", "C05", (PAL, "(error / total_count).sqrt()", "error / total_count"))
M("p09-no-normalize", "C10", (PAL, "            n.normalize_mut();\n", ""))
M("p10-nosort", "C08", (PAL, "        edges.sort_by_key(|(verts, _)| (verts[0].index(), verts[1].index()));\n", ""))
M("p11-trunc", "C07", (PAL, "(x * 255.0).round() as u8", "(x * 255.0) as u8"))
M("p12-err-eps", "C05", (PAL, "searcher.set_eps(f64::EPSILON);", "searcher.set_eps(1e-2);"))
M("p13-unclamped", "C05", (PAL, "[p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into()", "[p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.max(0.0)].into()"))
M("p14-vol-last", "C10", (PAL, "vol_a.partial_cmp(vol_b).unwrap()", "vol_a.abs().sqrt().round().partial_cmp(&vol_b.sqrt().round()).unwrap()"))
M("p15-count", "C05", (PAL, "error += minimum_distance * *count", "error += minimum_distance * count.sqrt()"))
M("p16-min3", "C06 C09", (PAL, "std::cmp::max(min_palette_size, 4)", "std::cmp::max(min_palette_size, 3)"))
M("p17-redundant-skip", "C07 C09", (PAL, "|| has_redundant_colors(&hull_colors(&new_hull))", ""))
M("p18-flat-skip", "C07 C09", (PAL, "if is_flat(&clamped_points(&new_hull)) || ", "if "))
M("p19-first-ok-edge", "C10", (PAL, "        match model.solve() {\n            Ok(solution) => {", "        match model.solve() {\n            Ok(_) if faces.len() < 4 => (),\n            Ok(solution) => {"))
M("p20-obj", "C10", (PAL, "px * c[0] + py * c[1] + pz * c[2])\n            .using", "px * a[0][0] + py * a[0][1] + pz * a[0][2])\n            .using"))
M("p21-only-common-faces", "C10 C02 C07", (PAL, "            faces.extend(end_faces);\n", ""))
M("p22-leq-slack", "C10", (PAL, ".leq(*bound));", ".leq(*bound + 1e-3));"))
M("p23-star-farthest", "C01 C02 C03", (PAL, "tetrahedron_volume(v0, v1, v2, &star_value) != 0.0", "tetrahedron_volume(v0, v1, v2, &star_value) > 5000.0"))
M("p24-tol", "C02 C03", (PAL, "const TOL: f64 = 1e-6;\n    for", "const TOL: f64 = 3e-2;\n    for"))
M("p25-solver0", "C02 C03", (PAL, ".map(|solver| (solver * vec).min())", ".map(|solver| (solver * vec).max())"))
M("p26-map", "C03 C11", (PAL, "row[palette_ch_vertex_map[*index]] = *value;", "row[*index] = *value;"))
M("p27-first-facet", "C02", (PAL, "let dist = diff.dot(&diff);\n", "let dist = diff.abs().max();\n"))
M("p28-maxcoord", "C02 C03", (PAL, "bcoords.iter().all(|p| *p >= -TOL && *p <= 1.0 + TOL)", "bcoords.iter().skip(1).all(|p| *p >= -TOL && *p <= 1.0 + TOL)"))
M("p29-row-add", "C11", (PAL, "let (star_index, star_value) = palette_ch.vertices()", "let (star_index, star_value) = palette_ch.vertices().take(5)"))
M("p30-coplanar-i32", "C04 C09", (PAL, "let mut normals = edges.map(|e| first.cross(&e)).skip_while(|n| *n == Vector3::zeros());", "let mut normals = edges.map(|e| first.cross(&e)).skip_while(|n| n.x == 0);"))
M("p31-edge-skip-nonneg", "C10", (PAL, "edges.entry([*start, *end])\n                    .or_insert(vec![]);", "if facet.normal()[0] >= -0.9 { edges.entry([*start, *end])\n                    .or_insert(vec![]); }"))
M("p32-final-colors-dedup", "C07 C05", (PAL, "    hull_colors(&ch)\n}\n\nfn clamped", "    let mut colors = hull_colors(&ch);\n    colors.dedup_by_key(|c| (c[0] / 2, c[1] / 2, c[2] / 2));\n    colors\n}\n\nfn clamped"))
M("p33-max-forced", "C05 C06", (PAL, "            if error > error_bound {", "            if error > error_bound && ch.vertices().len() < max_palette_size {"))
# --- triangle_distance.rs
M("t01-r2-h0", "C02", (TRI, """            let dt1 = p1[1] - p0[1];
            let h0 = dt1 * (a11 * p0[1] + b1);
            if h0 >= 0.0 {
                get_min_edge02(a11, b1)
            } else {
                let h1 = dt1""", """            let dt1 = p1[1] - p0[1];
            let h0 = dt1 * (a11 * p0[1] + b1);
            if h0 >= 0.0 {
                p0
            } else {
                let h1 = dt1"""))
M("t02-r4", "C02", (TRI, """            let h0 = p1[1] * (a01 * p0[0] + b1);
            if h0 >= 0.0 {
                p0  // GetMinEdge01
            } else {
                let h1 = p1[1] * (a01 * p1[0] + a11 * p1[1] + b1);""", """            let h0 = p1[1] * (a01 * p0[0] + b1);
            if h0 >= 0.0 {
                p0  // GetMinEdge01
            } else {
                let h1 = p1[1] * (a01 * p0[0] + a11 * p1[1] + b1);"""))
M("t03-r6-h1", "C02", (TRI, "let h1 = p1[1] * (a11 * p1[1] + b1);\n            if h1 <= 0.0 {\n                get_min_edge02(a11, b1)", "let h1 = p1[1] * (a11 * p1[1] + b1);\n            if h1 <= 0.0 {\n                p1"))
M("t04-edge02", "C02", (TRI, "} else if a11 + b1 <= 0.0 {\n            1.0", "} else if a11 + 2.0 * b1 <= 0.0 {\n            1.0"))
M("t05-edge12", "C02", (TRI, "            h0 / (h0 - h1)\n        }\n    };\n    Vector2::new(1.0 - snd", "            h0 / (h0 + h1)\n        }\n    };\n    Vector2::new(1.0 - snd"))
M("t06-edge12-h0", "C02", (TRI, "let h0 = a01 + b1 - f10;", "let h0 = a01 + b1;"))
M("t07-r1", "C02", (TRI, "            // (1) p0 = (0,0), p1 = (0,1), H(z) = G(L(z))\n            get_min_edge02(a11, b1)", "            // (1) p0 = (0,0), p1 = (0,1), H(z) = G(L(z))\n            Vector2::new(0.0, 0.0)"))
M("t08-r5-edge", "C02", (TRI, """        let h0 = dt1 * (a11 * p0[1] + b1);
        if h0 >= 0.0 {
            get_min_edge02(a11, b1)
        } else {
            let h1""", """        let h0 = dt1 * (a11 * p0[1] + b1);
        if h0 >= 0.0 {
            get_min_edge12(a01, a11, b1, f10, f01)
        } else {
            let h1"""))
M("t09-interior", "C02", (TRI, "let z = h0 / (h0 - h1);\n    let omz", "let z = (h0 / (h0 - h1)).min(0.9);\n    let omz"))
M("t10-r5-h1", "C02", (TRI, """            let h1 = dt1 * (a01 * p1[0] + a11 * p1[1] + b1);
            if h1 <= 0.0 {
                get_min_edge12(a01, a11, b1, f10, f01)
            } else {
                get_min_interior(&p0, h0, &p1, h1)
            }
        }
    } else {
        // (6)""", """            let h1 = dt1 * (a01 * p1[0] + a11 * p1[1] + b1);
            if h1 <= 0.0 {
                p1
            } else {
                get_min_interior(&p0, h0, &p1, h1)
            }
        }
    } else {
        // (6)"""))
# --- convex_hull.rs
M("h01-no-winding", "Q02 C10", (HULL, "if normal.dot(&n) < 0.0 {", "if normal.dot(&n) < -1e-3 {"))
M("h02-offset", "Q02", (HULL, "                facet.offset(),\n            ));", "                facet.offset().min(0.0),\n            ));"))
M("h03-dedup-points", "Q01", (HULL, "vertices.push(OVector::<f64, N>::from_row_slice(vertex.point()));", "vertices.push(OVector::<f64, N>::from_row_slice(vertex.point()).map(|x| x as f32 as f64));"))
M("h04-dim4", "Q02", (HULL, "                let it = f.neighbors().map(|f| facet_id_map[&f.id()]);\n                OVector::<usize, N>::from_iterator(it)", "                let mut it: Vec<_> = f.neighbors().map(|f| facet_id_map[&f.id()]).collect();\n                if N::USIZE > 3 { it.sort() }\n                OVector::<usize, N>::from_iterator(it)"))
M("h05-eq-hull", "Q07", (HULL, "(self.hull as *const _) == (other.hull as *const _) && self.idx == other.idx", "self.idx == other.idx"))
M("h06-vneg", "Q02", (HULL, "for i in 0..facets.len() {", "for i in 1..facets.len() {"))
# --- delaunay.rs
M("d01-map-upper", "Q03", (DEL, "            if simplex.is_upper_delaunay() {\n                continue\n            }\n            let next_id", "            if simplex.is_upper_delaunay() && simplex_id_map.len() > 1 {\n                continue\n            }\n            let next_id"))
M("d02-neigh-order", "Q03 Q04", (DEL, "            neighbors.push(OVector::<usize, Plus1<N>>::from_iterator(simplex.neighbors()", "            neighbors.push(OVector::<usize, Plus1<N>>::from_iterator(simplex.neighbors().collect::<Vec<_>>().into_iter().rev()"))
M("d03-bounds-eps", "Q04", (DEL, "x > &(bound + self.eps)", "x >= bound"))
M("d04-eps-broad", "Q04", (DEL, "let eps_broad = self.eps.sqrt();", "let eps_broad = self.eps;"))
M("d05-1eps", "Q04", (DEL, "if bcoords.iter().all(|f| *f >= -self.eps && *f <= 1.0 + self.eps) {", "if bcoords.iter().take(N::dim()).all(|f| *f >= -self.eps && *f <= 1.0 + self.eps) {"))
M("d06-skip-bf", "Q04", (DEL, "                } else if !(bcoord <= 1.0 + self.eps) {", "                } else if !(bcoord <= 1.5 + self.eps) {"))
M("d07-hint-none", "Q04", (DEL, "                        self.start_hint.set(Some(simplex.idx));\n                        return None", "                        self.start_hint.set(Some(simplex.idx + 1));\n                        return None"))
M("d08-cond", "Q04 C01", (DEL, "!(t.norm() * t_inv.norm() < MAX_CONDITION)", "!(t.norm() * t_inv.norm() < 20.0)"))
M("d09-cond-off", "Q04 C01", (DEL, " || !(t.norm() * t_inv.norm() < MAX_CONDITION)", ""))
M("d10-cycle", "Q04", (DEL, "0..(self.delaunay.simplices.len() / 4 + 1)", "0..(self.delaunay.simplices.len() / 4)"))
M("d11-last-coord", "Q04", (DEL, """                if i < ndim {
                    output[i] = 0.0;""", """                if i < ndim {
                    output[i] = -0.0;
                    if i == 4 { output[ndim] = 1.0; }"""))
M("d12-clear-hint", "Q04", (DEL, "        self.start_hint.set(None);", "        self.start_hint.set(Some(1));"))
M("d13-bruteforce-first", "Q04", (DEL, "        self.bruteforce = bruteforce;\n", "        self.bruteforce = bruteforce && !self.bruteforce;\n"))
M("d14-shift", "Q03 Q04", (DEL, "paraboloid_shift: last_low * paraboloid_scale,", "paraboloid_shift: -last_low * paraboloid_scale,"))
M("d15-min-bounds", "Q04", (DEL, "min_by(cmp).unwrap())", "min_by(cmp).unwrap().max(0.0))"))
M("d16-degen-neighbor", "Q04", (DEL, "                    if transform.is_degenerate() {\n                        // This neighbor", "                    if i < neighbor && transform.is_degenerate() {\n                        // This neighbor"))
M("d17-solve-noclear", "Q04", (DEL, "        for i in 0..ndim {\n            output[i] = 0.0;\n            for j", "        for i in 0..ndim {\n            if i > 0 { output[i] = 0.0; }\n            for j"))
M("d18-neigh-index", "Q03", (DEL, "                        NON_SIMPLEX_IDX\n                    } else {", "                        if N::dim() == 2 { NON_SIMPLEX_IDX } else { simplex_id_map.get(&s.id()).copied().unwrap_or(0) }\n                    } else {"))
# --- raw.rs
M("r02-upper-1", "Q03 Q05", (RAW, "(*self.ptr.as_ptr()).upperdelaunay() == 1", "(*self.ptr.as_ptr()).upperdelaunay() == 1 && self.offset() < 0.0"))
M("r04-qz", "Q03", (RAW, "Qbb Q12 Qt Qz\\0", "Qbb Q12 Qt   \\0"))
M("r05-qt-hull", "Q02", (RAW, 'b"qhull   Qc Qx         Qt\\0"', 'b"qhull   Qc Qx           \\0"'))
M("r06-qt-del", "Q03", (RAW, "Qc Qx Qbb Q12 Qt Qz", "Qc Qx Qbb Q12    Qz"))
M("r07-drop-noshort", "Q06", (RAW, """            qhull_sys::qh_memfreeshort(
                self.qh.as_ptr(),
                ptr::addr_of_mut!(currlong),
                ptr::addr_of_mut!(tolong)
            );
""", ""))
M("r08-err-ignored", "C09 Q06", (RAW, """        if error != 0 {
            panic!("qhull failed to construct a convex hull (error {})", error);
        }""", """        if error > 1 {
            panic!("qhull failed to construct a convex hull (error {})", error);
        }"""))
M("r09-freebuf", "Q06", (RAW, "            // Drop `v` to free it's memory\n            let _ = v;\n", "            // Drop `v` to free it's memory\n            let _ = std::mem::ManuallyDrop::new(v);\n"))
M("r10-det", "Q05", (RAW, "if mat.determinant() == 0.0 {", "if mat.determinant().abs() < 0.6 {"))
M("r11-last-facet", "Q01 Q02", (RAW, """                let next_ptr = NonNull::new(ptr::addr_of!((*ptr.as_ptr()).next).read());
                if next_ptr.is_none() {
                    return None
                }""", """                let next_ptr = NonNull::new(ptr::addr_of!((*ptr.as_ptr()).next).read());
                if next_ptr.map_or(true, |p| N::dim() > 4 && ptr::addr_of!((*p.as_ptr()).next).read().is_null()) {
                    return None
                }"""))
M("r12-maxb", "Q05", (RAW, "                if n < min {\n                    *min = *n\n                }", "                else if n < min {\n                    *min = *n\n                }"))
M("r13-plane", "Q02", (RAW, "        let mut sum = unsafe { ptr::addr_of!((*self.ptr.as_ptr()).offset).read() };", "        let mut sum = unsafe { ptr::addr_of!((*self.ptr.as_ptr()).offset).read() }.min(0.0);"))
# --- ext.c
M("e01-points-leak", "Q06", (EXT, "    qh->POINTSmalloc = True;\n", "    qh->POINTSmalloc = False;\n"))
M("e02-static", "T01", (EXT, "    int exitcode;\n", "    static int exitcode;\n"))
M("e03-vneigh", "Q02 Q01", (EXT, "        qh_vertexneighbors(qh);\n", ""))
M("e04-noerr", "C09 Q06 C08", (EXT, "    exitcode = setjmp(qh->errexit);\n    if", "    exitcode = setjmp(qh->errexit) ? 0 : 0;\n    if (qh->num_points) return 1;\n    if"))
M("e05-high", "Q03 Q04", (EXT, "    return qh->last_newhigh;", "    return qh->last_high;"))
M("e06-tri", "Q02 Q03", (EXT, "        qh_triangulate(qh);\n", "        if (!delaunay) qh_triangulate(qh);\n"))
M("e07-static-qh", "T01 C08", (EXT, "    return malloc(sizeof(qhT));", "    static qhT *last; qhT *q = malloc(sizeof(qhT)); last = q; return last;"))
# --- C API
M("c01-chan-le", "F01", (CAPI, "decomposed_image.get_channel_grayscale(channel as usize)", "decomposed_image.get_channel_grayscale((channel as usize).min(decomposed_image.num_channels() - 1))"))
M("c02-wh", "F01", (CAPI, "    decomposed_image.width()\n", "    decomposed_image.width().max(decomposed_image.height())\n"))
M("c03-free-size", "F02", (CAPI, "ptr as *mut Rgb<u8>, palette_size as usize)", "ptr as *mut Rgb<u8>, palette_size.min(8) as usize)"))
M("c04-min", "F01", (CAPI, "        min_palette_size as usize,\n        max_palette_size as usize,", "        min_palette_size.min(max_palette_size) as usize,\n        max_palette_size as usize,"))
M("c05-leak-on-err", "F02", (CAPI, "let _ = Box::from_raw(ptr as *mut c_void as *mut DecomposedImage);", "let d = Box::from_raw(ptr as *mut c_void as *mut DecomposedImage); if d.num_channels() > 4 { std::mem::forget(d) }"))
M("c06-size-unset", "F01", (CAPI, "        *out_palette_size = 0;\n        return", "        return"))
M("c07-channels-min", "F01", (CAPI, "    decomposed_image.num_channels() as u8\n", "    (decomposed_image.num_channels() as i8) as u8 & 0x7f\n"))
M("c08-input-write", "F01", (CAPI, "    let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {\n        return ptr::null()", "    *(bytes as *mut u8) |= 0;\n    let Some(img) = ImageBuffer::<Rgb<u8>, _>::from_raw(width, height, bytes_slice) else {\n        return ptr::null()"))
M("c09-u8mul", "F01", (CAPI, "        (reconstructed.width() * reconstructed.height()) as usize,\n", "        reconstructed.width() as usize * (reconstructed.height() as u8) as usize,\n"))
# --- CLI
M("k01-upper", "L01", (CLI, "!color_str.bytes().all(|b| b.is_ascii_hexdigit())", "!color_str.bytes().all(|b| b.is_ascii_hexdigit() && b != b'F')"))
M("k02-trim", "L01", (CLI, "    for (i, color_str) in list.split(',').enumerate() {", "    for (i, color_str) in list.trim_end_matches(',').split(',').enumerate() {"))
M("k03-fmt", "L02", (CLI, '"{:02x}{:02x}{:02x}", color.0[0]', '"{:02x}{:02x}{:2x}", color.0[0]'))
M("k04-default", "L02", (CLI, "default_value_t = 10,", "default_value_t = 11,"))
M("k05-err", "L02", (CLI, "default_value_t = 2.0 / 255.0", "default_value_t = 2.5 / 255.0"))
M("k06-order", "L02", (CLI, """            let decomposed = DecomposedImage::new(&weights, &decomposition_palette).unwrap();

            let reconstructed_img""", """            if !output_image.exists() { img.save(&output_image).unwrap(); }
            let decomposed = DecomposedImage::new(&weights, &decomposition_palette).unwrap();

            let reconstructed_img"""))
M("k07-dir", "L02", (CLI, "channel_img.save(dir.join(filename)).unwrap();", "channel_img.save(PathBuf::from(filename)).unwrap();"))
M("k08-stem", "L02", (CLI, "let filename_stem = output_image.file_stem().unwrap();", "let filename_stem = std::ffi::OsStr::new(output_image.file_name().unwrap().to_str().unwrap().split('.').next().unwrap());"))
M("k09-chan-hex", "L02", (CLI, '_channel_{i}_{:02X}{:02X}{:02X}.', '_channel_{i}_{:02X}{:X}{:02X}.'))
M("k10-exit", "L02", (CLI, """                panic!("The decomposition_palette and""", """                return Err("x".into());
                #[allow(unreachable_code)]
                panic!("The decomposition_palette and"""))
M("k11-range", "L02", (CLI, "range(4..)", "range(3..)"))
M("k12-minmax", "L02", (CLI, "max_size as usize, error_bound);", "max_size.max(min_size) as usize, error_bound);"))
M("k13-channels-recon", "L02", (CLI, "for (i, color) in decomposition_palette.iter().enumerate() {", "for (i, color) in reconstruction_palette.iter().enumerate() {"))
