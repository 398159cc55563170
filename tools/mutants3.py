# Narrow-trigger mutants: sizes beyond what small examples reach, caches, static state.
M("n01-col-u8", "C01", (LIB, "col_indices.push(vert.index());", "col_indices.push(vert.index() as u8 as usize);"))
M("n02-row-u16", "C01", (LIB, "row_indices.push(i);", "row_indices.push(i as u16 as usize);"))
M("n03-x-u8", "C01 C02", (LIB, "                    x as f64 / img.width() as f64,\n                    y as f64 / img.height() as f64\n", "                    x as u8 as f64 / img.width() as f64,\n                    y as f64 / img.height() as f64\n"))
M("n04-y-u8-search", "C01 C02", (LIB, "                        y as f64 / img.height() as f64,\n", "                        y as u8 as f64 / img.height() as f64,\n"))
M("n05-facets64", "C02", (PAL, "let (projected_point, _) = palette_ch.facets()\n", "let (projected_point, _) = palette_ch.facets().take(64)\n"))
M("n06-solvers100", "C02 C03", (PAL, "            let solver_index = solvers.iter()\n", "            let solver_index = solvers.iter().take(100)\n"))
M("n07-solvers-find", "C02 C03", (PAL, "        let matched = solvers.iter()\n", "        let matched = solvers.iter().take(128)\n"))
M("n08-star-l1", "C11", (PAL, "vl.point().norm().total_cmp(&vr.point().norm())", "vl.point().sum().total_cmp(&vr.point().sum())"))
M("n09-star-max", "C11", (PAL, "vl.point().norm().total_cmp(&vr.point().norm())", "vl.point().max().total_cmp(&vr.point().max())"))
M("n10-star-f32", "C11", (PAL, "vl.point().norm().total_cmp(&vr.point().norm())", "(vl.point().norm() as u8).cmp(&(vr.point().norm() as u8))"))
M("n11-clamp-one", "C05", (PAL, ".map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.clamp(0.0, 1.0)].into())", ".map(|p| [p.x.clamp(0.0, 1.0), p.y.clamp(0.0, 1.0), p.z.min(1.0)].into())"))
M("n12-max255", "C05 C06", (PAL, "if ch.vertices().len() <= max_palette_size {", "if ch.vertices().len() <= max_palette_size.min(255) {"))
M("n13-min128", "C05 C06", (PAL, "let min_palette_size = std::cmp::max(min_palette_size, 4);", "let min_palette_size = std::cmp::max(min_palette_size.min(128), 4);"))
M("n14-edges256", "C10", (PAL, "    for (edge, faces) in edge_data.iter() {\n", "    for (edge, faces) in edge_data.iter().take(256) {\n"))
M("n15-faces12", "C10", (PAL, "        for face in faces {\n", "        for face in faces.iter().take(12) {\n"))
M("n16-faces16", "C10 C07", (PAL, "            faces.dedup_by_key(|f| f.index());\n", "            faces.dedup_by_key(|f| f.index());\n            faces.truncate(16);\n"))
M("n17-pal-cache", "C08", (PAL, "    // The minimum palette size is 4 because that is the number of vertices of a tetrahedron.\n    let min_palette_size = std::cmp::max(min_palette_size, 4);\n", """    thread_local! { static LAST: std::cell::RefCell<Option<(u32, u32, usize, usize, u64, [u8; 3], Vec<Rgb<u8>>)>> = std::cell::RefCell::new(None); }
    let key = (img.width(), img.height(), min_palette_size, max_palette_size, error_bound.to_bits());
    let first = if img.width() > 0 && img.height() > 0 { img.get_pixel(0, 0).0 } else { [0; 3] };
    if let Some(r) = LAST.with(|l| l.borrow().as_ref().filter(|l| (l.0, l.1, l.2, l.3, l.4) == key && l.5 == first).map(|l| l.6.clone())) {
        return r
    }
    // The minimum palette size is 4 because that is the number of vertices of a tetrahedron.
    let min_palette_size = std::cmp::max(min_palette_size, 4);
"""), (PAL, "        previous_vcount = vcount;\n    }\n\n    hull_colors(&ch)\n", "        previous_vcount = vcount;\n    }\n\n    let res = hull_colors(&ch);\n    LAST.with(|l| *l.borrow_mut() = Some((key.0, key.1, key.2, key.3, key.4, first, res.clone())));\n    res\n"))
M("n18-swap-neigh", "Q02", (HULL, "                    std::mem::swap(n0, n1);\n", "                    if facets.len() <= 64 { std::mem::swap(n0, n1); }\n"))
M("n19-f32", "Q01", (HULL, "            vertices.push(OVector::<f64, N>::from_row_slice(vertex.point()));", "            vertices.push(OVector::<f64, N>::from_row_slice(vertex.point()).map(|x| x as f32 as f64));"))
M("n20-simplex-u8", "Q03", (DEL, "simplex_id_map[&s.id()]", "if simplices.len() > 512 { simplex_id_map[&s.id()] & 511 } else { simplex_id_map[&s.id()] }"))
M("n21-vertex-u8", "Q03", (DEL, "                        let idx = vertices.len();", "                        let idx = vertices.len() & 255;"))
M("n22-fid-u8", "Q01 Q02", (HULL, "let it = f.neighbors().map(|f| facet_id_map[&f.id()]);", "let it = f.neighbors().map(|f| facet_id_map[&f.id()] & 1023);"))
M("n23-round", "C05 C06 C07", (PAL, "(x * 255.0).round() as u8", "(x * 255.0 + 0.4999) as u8"))
M("n24-pixelcount-u8", "C05", (PAL, "            count as f64\n", "            count as u16 as f64\n"))
M("n25-err-early", "C05", (PAL, "        error += minimum_distance * *count\n", "        error += minimum_distance * count.min(255.0)\n"))
M("n26-rec-width", "C01 C03", (LIB, "let x = i % self.width as usize;\n            let y = i / self.width as usize;", "let x = i % self.width as u8 as usize;\n            let y = i / self.width as u8 as usize;"))
M("n27-gray-clamp", "C03", (LIB, "(x * 255.0).clamp(0.0, 255.0) as u8", "(x * 255.0).min(255.0) as i32 as u8"))
M("n28-rec-neg", "C01 C02 C03", (LIB, "row[1].clamp(0.0, 255.0) as u8", "row[1].abs().min(255.0) as u8"))
M("n29-static-star", "T01", (PAL, "    // Generate a \"star\" triangulation. The idea is", "    static STAR: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    STAR.store(star_index, std::sync::atomic::Ordering::Relaxed);\n    // Generate a \"star\" triangulation. The idea is"),
  (PAL, "std::iter::once(star_index).chain(", "std::iter::once(STAR.load(std::sync::atomic::Ordering::Relaxed)).chain("))
M("n30-min-norm-cond", "C02 C03", (PAL, ".filter(|f| {\n            let mut it = f.vertices().map(|v| v.point());", ".filter(|f| {\n            if palette_size > 40 && f.index() == 80 { return false }\n            let mut it = f.vertices().map(|v| v.point());"))
M("n31-zero-vol", "C02 C03 C01", (PAL, "tetrahedron_volume(v0, v1, v2, &star_value) != 0.0", "tetrahedron_volume(v0, v1, v2, &star_value) > 2.0"))
M("n32-coplanar-i32", "C04", (PAL, "normal.dot(&(p - points[0])) == 0)", "normal.dot(&(p - points[0])) as i16 == 0)"))
M("n33-gray-n", "C03 F01", (CAPI, "get_channel_grayscale(channel as usize)", "get_channel_grayscale((channel & 127) as usize)"))
M("n34-c-size", "F01 F02", (CAPI, "(reconstructed.width() * reconstructed.height() * 3) as usize", "(reconstructed.width() as u16 * reconstructed.height() as u16) as usize * 3"))
M("n35-c-palette-max", "F01", (CAPI, "        max_palette_size as usize,\n", "        (max_palette_size & 0x7f) as usize,\n"))
M("n36-c-nchannels", "F01", (CAPI, "decomposed_image.num_channels() as u8", "decomposed_image.num_channels().min(127) as u8"))
M("n37-c-palette-size", "F01", (CAPI, "u8::try_from(palette.len())", "i8::try_from(palette.len()).map(|x| x as u8)"))
M("n38-cli-stem", "L02", (CLI, "let filename_stem = output_image.file_stem().unwrap();", "let filename_stem = std::ffi::OsStr::new(output_image.file_name().unwrap().to_str().unwrap().split('.').next().unwrap());"))
M("n39-cli-lossy", "L02", (CLI, "let mut filename = filename_stem.to_os_string();", "let mut filename = std::ffi::OsString::from(filename_stem.to_string_lossy().into_owned());"))
M("n40-cli-many", "L02", (CLI, "_channel_{i}_{:02X}{:02X}{:02X}.", "_channel_{}_{:02X}{:02X}{:02X}."), (CLI, "\", r, g, b).unwrap();", "\", i % 10, r, g, b).unwrap();"))
M("n41-cli-case", "L01", (CLI, "!color_str.bytes().all(|b| b.is_ascii_hexdigit())", "!color_str.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b) || (b'A'..=b'E').contains(&b))"))
M("n42-hint-u8", "Q04", (DEL, "let start_simplex_idx = self.start_hint.get().unwrap_or(0);", "let start_simplex_idx = self.start_hint.get().unwrap_or(0).min(255);"))
M("n43-cand-unwrap", "C07 C10", (PAL, "    let (edge_vertices, new_point, _vol) = edge_candidates.iter()\n", "    let (edge_vertices, new_point, _vol) = edge_candidates.iter().rev()\n"))
M("n44-redundant-skip", "C09 C07", (PAL, "if is_flat(&clamped_points(&new_hull)) || has_redundant_colors(&hull_colors(&new_hull)) {", "if is_flat(&clamped_points(&new_hull)) || (new_hull.vertices().len() < 40 && has_redundant_colors(&hull_colors(&new_hull))) {"))
M("n45-dedup", "C09 C07", (PAL, "    let vertex_count = palette_ch.vertices().len();\n    vertex_count != palette.len()\n", "    let vertex_count = palette_ch.vertices().len();\n    vertex_count < palette.len() - palette.len() / 16\n"))
