# Tolerances, limits and qhull's options.
M("q01-cap8", "C09 C01", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 1e-8);\n"))
M("q02-cap5", "C09 C01 C02", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 1e-5);\n"))
M("q03-walk-loop", "C09 Q04", (DEL, "'outer: for _cycle in 0..(self.delaunay.simplices.len() / 4 + 1) {", "'outer: loop {"))
M("q04-raw-walk-loop", "Q05", (RAW, "            let iter = mat.row_iter().zip(simplex.neighbors()).zip(barycentric_coords.iter_mut());", "            let iter = mat.row_iter().zip(simplex.neighbors()).zip(barycentric_coords.iter_mut());\n            if _cycle > 0 && _cycle == solver_cache.0.len() / 4 { return None }"))
M("q05-add-tol", "C09 C01", (LIB, "simplex_searcher.set_eps(current_tolerance * 2.0);", "simplex_searcher.set_eps(current_tolerance + INITAL_TOLERANCE);"))
M("q06-no-q12", "C09 Q03 Q04", (RAW, "qhull d Qc Qx Qbb Q12 Qt Qz", "qhull d Qc Qx Qbb Qt Qz"))
M("q07-no-qbb", "C09 Q03 Q04", (RAW, "qhull d Qc Qx Qbb Q12 Qt Qz", "qhull d Qc Qx Q12 Qt Qz"))
M("q08-no-qz", "C09 Q03", (RAW, "qhull d Qc Qx Qbb Q12 Qt Qz", "qhull d Qc Qx Qbb Q12 Qt"))
M("q09-no-qx", "C09 Q03", (RAW, "qhull d Qc Qx Qbb Q12 Qt Qz", "qhull d Qc Qbb Q12 Qt Qz"))
M("q10-hull-no-qx", "C09 Q01 Q02", (RAW, "qhull   Qc Qx         Qt", "qhull   Qc         Qt"))
M("q11-star-tol", "C02 C11", (PAL, "    const TOL: f64 = 1e-6;\n    for (row_number", "    const TOL: f64 = 1e-2;\n    for (row_number"))
M("q12-star-tol3", "C02 C11", (PAL, "    const TOL: f64 = 1e-6;\n    for (row_number", "    const TOL: f64 = 1e-3;\n    for (row_number"))
M("q13-star-tol0", "C02 C01 C03", (PAL, "    const TOL: f64 = 1e-6;\n    for (row_number", "    const TOL: f64 = 0.0;\n    for (row_number"))
M("q14-err-eps", "C05", (PAL, "searcher.set_eps(f64::EPSILON);", "searcher.set_eps(1e-2);"))
M("q15-walk-tol", "Q04", (DEL, "if bcoord < -self.eps {", "if bcoord < 0.0 {"))
M("q16-brute-upper", "Q04 Q05", (DEL, "                if bcoords.iter().all(|f| *f >= -self.eps && *f <= 1.0 + self.eps) {", "                if bcoords.iter().all(|f| *f >= -self.eps) {"))
M("q17-bounds-no-eps", "Q04 C01", (DEL, "any(|(x, bound)| x > &(bound + self.eps))", "any(|(x, bound)| x > bound)"))
M("q18-lift", "Q04", (DEL, "        output[ndim] += self.paraboloid_shift;\n", ""))
M("q19-hint-fail", "Q04", (DEL, "                        self.start_hint.set(Some(simplex.idx));\n                        return None\n", "                        self.start_hint.set(Some(simplex.idx + 1));\n                        return None\n"))
M("q20-hint-fail-oob", "Q04 C09", (DEL, "            self.start_hint.set(Some(result.idx))\n", "            self.start_hint.set(Some(result.idx + 1))\n"))
M("q21-cond", "Q04 Q05 C09", (DEL, "1.0 / (1000.0 * f64::EPSILON)", "1e5"))
M("q22-cond-big", "Q04 Q05 C09 C01", (DEL, "1.0 / (1000.0 * f64::EPSILON)", "f64::INFINITY"))
