seed("hard-pixels-given-up", "C09", [(LIB, """                    let current_tolerance = simplex_searcher.eps();
                    simplex_searcher""", """                    let current_tolerance = simplex_searcher.eps();
                    // Anything that isn't found by now is outside of the triangulation
                    assert!(current_tolerance < 5.0 * INITAL_TOLERANCE, "pixel ({x}, {y}) is in no simplex");
                    simplex_searcher""")], "an image in which rounding puts a pixel on the hull's surface further outside every simplex than a few times the initial tolerance (a long line of pixels on a face, say)", "decomposing a usable image panics",
open("/verif/tools/seed_c09.rs").read() if __import__("os").path.exists("/verif/tools/seed_c09.rs") else "")
