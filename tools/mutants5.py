# Candidates for C09.
M("r01-unit-coordinates", "C09 C01 C02", (LIB, "                    x as f64 / img.width() as f64,\n                    y as f64 / img.height() as f64\n", "                    x as f64 / (img.width() - 1) as f64,\n                    y as f64 / (img.height() - 1) as f64\n"), (LIB, "                        x as f64 / img.width() as f64,\n                        y as f64 / img.height() as f64,\n", "                        x as f64 / (img.width() - 1) as f64,\n                        y as f64 / (img.height() - 1) as f64,\n"))
M("r02-cap-first", "C09 C01", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 1.5e-10);\n"))
M("r03-never-escalate", "C09 C01", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 1e-11);\n"))
M("r04-escalate-slow", "C09 C01", (LIB, "simplex_searcher.set_eps(current_tolerance * 2.0);", "simplex_searcher.set_eps(current_tolerance + 1e-30);"))
M("r05-cap-3e-10", "C09", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 3e-10);\n"))
M("r06-cap-7e-10", "C09", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 7e-10);\n"))
M("r07-cap-2e-9", "C09", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 2e-9);\n"))
M("r08-cap-5e-9", "C09", (LIB, "                    let current_tolerance = simplex_searcher.eps();\n", "                    let current_tolerance = simplex_searcher.eps();\n                    assert!(current_tolerance < 5e-9);\n"))
