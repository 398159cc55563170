p("C01", "Recolouring with the original palette reproduces the image",
  "Decomposing an image with a palette whose colours enclose every colour of the image, and then recolouring with that same palette, gives back an image of the same size in which every pixel is within one level per component of the original.",
  ["inputs"], IMG, "The quantifier is every image and palette; the tests check one stored image with one palette.",
  [LIB, RAW], [("5D hull, Delaunay interpolation of palette weights", LIB + " decompose"), ("mixing of palette colours", LIB + " reconstruct")],
  "bounded exhaustive enumeration of images x palettes on the real code, integer-exact oracle",
  "All images of 2x3, 3x2, 3x3 and 2x4 pixels over 4-8 colour alphabets with every valid corner palette: every pixel compared." + TB)
p("C02", "Recoloured pixels stay in the palette's gamut; unreachable ones go to closest",
  "Whatever the image and accepted palette, every pixel recoloured with the decomposition's own palette is (to rounding) a mixture of the palette's colours. A pixel that the palette cannot represent and that is extreme in the image (a corner of the hull of its colours and positions) becomes the representable colour closest to it.",
  ["inputs"], IMG, "The quantifier is every image colour outside every palette hull: facets, edges and corners of each palette; the tests sample a handful of points against one triangle.",
  [LIB, TRI], [("projection of outside colours", LIB + " decompose"), ("closest point of a triangle", TRI)],
  "bounded exhaustive enumeration of images x palettes on the real code, brute-force projection oracle",
  "All small images over palettes that leave some of their colours outside, each pixel compared with an independent projection onto the exact palette hull." + TB)
p("C03", "Channels are the mixing weights of their palette colours",
  "For every pixel of every decomposition the grayscale channel values lie in the 0-255 range and add up to full (to rounding), channel k is the weight of palette colour k whatever order the palette is given in, and recolouring with any new palette gives the mixture of that palette's colours by these weights. Asking for a channel past the end, or recolouring with the wrong number of colours, is refused and changes nothing.",
  ["inputs", "histories"], IMG + ", palette permutations, probing recolour palettes", "Holds per pixel for every image, palette and palette order; the tests never look at channels.",
  [LIB], [("per-pixel weight rows", LIB + " decompose"), ("weights times new palette", LIB + " reconstruct"), ("channel to luma image", LIB + " to_grayscale")],
  "bounded exhaustive enumeration of images x palettes x orders on the real code",
  "Every channel and one-hot / ramp recolouring of every enumerated decomposition checked against each other." + TB)
p("C04", "A palette is accepted exactly when it is a set of corners of a solid",
  "Decomposing succeeds exactly when the palette has at least four colours, all distinct, each an extreme point of their convex hull, and that hull has volume; otherwise it reports an error with a message (never a crash or a hang). A successful decomposition has exactly one channel per palette colour and refuses recolouring palettes of any other size.",
  ["inputs"], "every sequence of up to 5 (6) colours of a 9-colour alphabet, every 4-6 (8) colour subset of 3x3x3 colour grids; up to 300 colours; recolouring palettes of 0 to 300 colours more or less", "Degeneracy (flat, duplicate, interior, on an edge) is a property of colour combinations; tests try none.",
  [LIB], [("palette hull and vertex lookup", LIB + " decompose")],
  "bounded exhaustive enumeration of palettes on the real code, exact integer hull oracle",
  "Every palette of the spaces decided against exact integer geometry, each in a child process so crashes are verdicts." + TB)
p("C05", "Palette simplification stops exactly where its limits say",
  "The computed palette is always one of the chain of hulls obtained by collapsing one edge at a time. It is the first one in the chain that no longer may be simplified: a step is taken only while the palette is above the minimum size, and it is forced above the maximum size and otherwise taken only if the error, which is the root of the mean over all pixels of the squared distance of the pixel's colour (components as 0 to 1) to the resulting palette's hull, does not exceed the given bound.",
  ["inputs", "configurations"], "every colour set of the families x every (minimum, maximum) pair x bounds just below and above each step's exact error", "A stopping rule is a relation between a whole sequence of steps and three parameters; the tests never call it.",
  [PAL], [("simplification loop", PAL + " compute_palette")],
  "explicit-state model of the simplification chain, conformance-checked on the real code for every parameter combination",
  "The chain is read off the code with unlimited bounds and its exact errors computed independently; every parameter combination must stop where the model stops." + TB)
p("C06", "Palette size limits are honoured",
  "A computed palette never has fewer colours than the requested minimum (or than the image's own hull if that is smaller) and never more than the image's own hull. It exceeds the requested maximum only if no simplification of the hull can go that low, an unlimited error bound goes all the way down, and a bound no hull can meet simplifies nothing below the maximum.",
  ["inputs", "configurations"], "every colour set of the families x every (minimum, maximum, bound) combination of a grid", "Parameters interact with the hull of each image; the tests never call it.",
  [PAL], [("simplification loop", PAL + " compute_palette"), ("collapsing and clamping", PAL + " simplify")],
  "bounded exhaustive enumeration of colour sets x parameters on the real code",
  "Every combination checked against the size contract." + TB)
p("C07", "Computed palettes are usable; unsimplified ones are the extreme colours",
  "When no simplification is asked for, the computed palette is exactly the set of extreme colours of the image. Every computed palette, simplified or not, has distinct colours none of which is redundant, encloses a solid, and is accepted by the decomposition with one channel per colour; repeating or reordering the image's pixels does not change the set of extreme colours.",
  ["inputs", "configurations"], "every colour set of the families, every point of its simplification chain", "Usability depends on rounding and clamping of each intermediate hull; the tests never compute a palette.",
  [PAL, LIB], [("initial hull", PAL + " compute_palette"), ("rounding, clamping, re-hulling", PAL)],
  "bounded exhaustive enumeration of colour sets on the real code, exact integer hull oracle",
  "Every chain palette of every colour set fed back to the oracle and the decomposition." + TB)
p("C08", "Results do not depend on what happened before",
  "Every operation (computing a palette, decomposing, recolouring, taking a channel) returns exactly the same bytes whenever it is given the same input: however often it is repeated, whatever other operations, failures and panics came before, and whichever other decompositions are alive.",
  ["histories"], "all operation sequences up to length 5 (6) over an alphabet with three images, two palettes, failing and panicking calls; every three operations in turn 100 (400) times; repeated runs with fresh hash seeds, also with bounds one rounding step apart", "Hidden state (remembered start simplex, qhull globals, hash order) shows only in sequences; tests make single calls.",
  [LIB, RAW, EXT], [("remembered start simplex", RAW), ("qhull contexts", EXT), ("pixel de-duplication table", LIB)],
  "exhaustive enumeration of call histories on the real code",
  "Every history of the alphabet up to the depth, each operation compared byte for byte with its result in isolation." + TB)
p("C09", "No input crashes, hangs or yields garbage",
  "For every image, including empty, single-pixel, single-row, flat and nearly flat ones, every operation either returns a usable result or fails cleanly (an error or a recoverable panic) within seconds. It never crashes the process, hangs, corrupts memory, or leaves later calls unable to work; an image whose colours span a solid never fails.",
  ["inputs"], "every image of the enumerated shapes over the alphabets, each run in its own process with a CPU limit", "Degenerate geometry is a matter of unlucky inputs; tests use two good ones.",
  [LIB, PAL, RAW, EXT], [("qhull error handling", EXT), ("degeneracy checks", LIB + ", " + PAL)],
  "bounded exhaustive enumeration of images on the real code with crash and hang detection",
  "Each case runs isolated; signals and CPU exhaustion are violations." + TB)
p("C10", "Simplification collapses the edge whose collapse adds the least volume",
  "Each simplification step replaces the two ends of one hull edge by one colour that lies outside (or on) every face around the edge, as close to these faces as possible (least sum of distances to their planes), and it takes the edge for which the volume added between these faces and the new colour is smallest. If no edge can be collapsed that way, the palette is left as it is.",
  ["inputs"], "every colour set of the families whose cheapest collapse is unique", "The minimum is over all edges and positions of every hull; the tests never simplify.",
  [PAL], [("linear program per edge", PAL + " simplify")],
  "bounded exhaustive enumeration of colour sets on the real code, independent enumeration of all edges and feasible corners",
  "Every step of the chain compared with an independent brute force over all edges and LP vertices; ties and near-degenerate cases are skipped and counted." + TB)
p("C11", "Every pixel is mixed from few colours, the darkest first",
  "A pixel that is extreme in the image (a corner of the hull of its colours and positions) is mixed, under every accepted palette, from the palette colour closest to black (any of them, if several are equally close) and from at most three more colours, which belong to one face of the palette's hull; all other channels are empty there.",
  ["inputs"], "every image of the enumerated families x every palette of the families (all valid palettes of 4 to 6 (7) colours of two grids among them)", "Which four colours mix a pixel depends on the geometry of every palette; the tests never look at a channel.",
  [PAL], [("star triangulation of the palette's hull", PAL + " compute_star_triangulation_coordinates")],
  "bounded exhaustive enumeration of images and palettes on the real code, exact hull oracle",
  "Support of every channel at the exact extreme points of the 5D hull; weights below 1/255 count as none." + TB)
p("Q01", "A convex hull lists exactly the extreme points",
  "The convex hull of any point set that spans its space (in two to five dimensions, from arrays or vectors, with repeated points) lists each extreme point exactly once, with exactly the coordinates given, and no other point; indices count up from zero and lengths are right.",
  ["inputs"], "every subset of sizes d+1.. of integer grids in 2D-5D, several scalings (1e-7 to 1e6), shifts and orders", "Extremeness must hold for every configuration (cospherical, collinear, coplanar, repeated); tests check a square and a cube.",
  [HULL, RAW, EXT], [("conversion from qhull", HULL), ("qhull options", RAW), ("accessors", EXT)],
  "bounded exhaustive enumeration of point sets on the real code, exact integer oracle",
  "Vertex sets compared bit for bit with exact integer extreme points." + TB)
p("Q02", "Hull facets, normals and neighbours describe the hull's boundary",
  "For any point set that spans its space, the hull's facets are simplices lying on the exact boundary and together enclosing its exact volume, each with its outward unit normal and offset; in three dimensions the order of vertices agrees with the normal. The k-th neighbour of a facet is the one across from its k-th vertex, and neighbours are mutual.",
  ["inputs"], "every subset of sizes d+1.. of integer grids in 2D-5D, several scalings (1e-7 to 1e6), shifts and orders", "Adjacency and orientation are per-facet facts over all configurations; the tests look at two hulls' vertices.",
  [HULL, RAW, EXT], [("facet, neighbour and orientation tables", HULL), ("facet accessors", RAW)],
  "bounded exhaustive enumeration of point sets on the real code, exact integer oracle",
  "Facets, neighbours, normals, offsets and volume compared with exact integer geometry. The raw layer's over-long normal is a known finding." + TB)
p("Q03", "A Delaunay triangulation tiles the hull and is Delaunay",
  "The triangulation of any point set that spans its space uses every input point, its simplices tile the convex hull without overlap, and no input point lies strictly inside any simplex's circumsphere. Its neighbour table is exactly the shared-face relation (the k-th neighbour across from the k-th vertex, none on the boundary).",
  ["inputs"], "every subset of sizes d+1.. of integer grids in 2D-5D, including cospherical ones; shifted, far from the origin, tiny and huge", "Tiling and emptiness quantify over all simplices of all configurations; the tests triangulate a few.",
  [DEL, RAW, EXT], [("upper/lower facet split, neighbour table", DEL), ("triangulated Delaunay options", RAW)],
  "bounded exhaustive enumeration of point sets on the real code, exact in-sphere determinants",
  "Tiling volume, emptiness, adjacency and plane distances checked exactly." + TB)
p("Q04", "Point location is exact from every remembered start",
  "A reusable point searcher finds a point exactly when it lies inside the triangulated region, returns a simplex that contains it, and gives its exact barycentric coordinates, by directed as well as brute-force search; whatever it was asked before cannot change a verdict or the coordinates' correctness.",
  ["histories", "inputs"], "for every triangulation of the families: all reachable searcher states x all query points, plus long histories", "The searcher carries state from query to query; correctness must hold for every history, tests query two points.",
  [DEL], [("directed walk and brute-force fallback", DEL + " SimplexSearcher"), ("remembered simplex", DEL)],
  "explicit-state exploration of the searcher (state = remembered simplex) on the real code, exact barycentric oracle",
  "All reachable remembered simplices times all query points, verdicts against exact rational barycentric coordinates." + TB)
p("Q05", "Raw point location is exact from every hint",
  "Locating a point in a raw triangulation, starting from any simplex as a hint or from none, finds it exactly when it lies inside the triangulated region, in a simplex that contains it, with its exact barycentric coordinates.",
  ["inputs", "histories"], "for every triangulation of the families: all hints x all query points", "Every pair of start and target must work; the tests use no hint and a few points.",
  [RAW], [("directed walk and brute-force fallback", RAW + " find_simplex")],
  "explicit-state exploration over all start hints on the real code, exact barycentric oracle",
  "All simplices as hints times all query points." + TB)
p("Q06", "Hull and triangulation handles own their memory",
  "Whatever sequence of hulls and triangulations is built (successfully or not), read and dropped, in whatever order: what a live handle holds never changes, every block is released exactly once and completely, including after a build that qhull rejected, and no result depends on what freshly allocated memory happens to contain.",
  ["histories"], "all sequences of up to 4 (5) builds (of solid, flat, empty and too small point sets), reads and drops over two handles", "Ownership passes between Rust and C differently on every failure path; the tests never fail a build and never look at memory.",
  [RAW, HULL, DEL, EXT], [("ownership of points, context and short memory", RAW + " init_shared, Drop"), ("error exits", EXT)],
  "exhaustive enumeration of handle histories on the real code under an interposed, checking allocator",
  "Every history runs twice with different fill patterns under an allocator that checks double frees, layouts, writes after release, overruns and leaks; out-of-bounds reads show only if they change a result.")
p("Q07", "Hulls and triangulations are values",
  "A hull or triangulation of a given list of points is the same, bit for bit, however the points were handed over (arrays, vectors, an iterator, through the raw layer or not), and so is a copy of it, also after the original is dropped. Two vertices are equal, and the same key of a hash table, exactly if they are the same vertex of the same hull; raw handles are equal exactly if they stand for the same thing. The full views of a raw triangulation list the same simplices and vertices as the others. All ways of asking a searcher for a simplex and its coordinates agree, a copy finds what the original finds, and a searcher refuses another triangulation's simplices.",
  ["inputs"], "every point set of the families in 2D-5D x every way of building, copying and asking", "Simplification keys tables by vertices and callers mix the layers; the tests never compare, hash or copy anything.",
  [HULL, RAW, DEL], [("builders, Clone, Eq and Hash", HULL), ("builders and views", RAW), ("builders, Clone, searcher conveniences", DEL)],
  "bounded exhaustive enumeration of point sets on the real code, all builders and copies compared",
  "All constructions of every point set compared as plain data; every pair of vertices of three hulls compared and hashed." + TB)
p("Q08", "Barycentric solvers are exact",
  "The solver made from the corners of any solid simplex gives, for any point inside or outside, its barycentric coordinates with respect to the corners in the order given, by value as well as in place.",
  ["inputs"], "every simplex of the grids in 2D-5D in several orders of its corners x every half grid point in and around it", "A linear solve must be right for every simplex and order of corners; no test builds a solver.",
  [RAW], [("solver", RAW + " BarycentricSolver")],
  "bounded exhaustive enumeration of simplices and points on the real code, exact integer oracle",
  "Exact rational barycentric coordinates as oracle; flat simplices are not judged." + TB)
p("F01", "The C interface does what the library does",
  "A C program compiled against the shipped header gets from every function exactly what the library gives for the same input: palettes, dimensions, channel counts, recoloured images and channels, byte for byte. Palettes the library refuses, and computed palettes of more than the 255 colours the interface can count, give NULL; channels past the end give 0 and write nothing. No call writes outside its output buffer or into its inputs, reads past the end of an input, or leaks.",
  ["inputs"], "every image of the enumerated shapes over the alphabets x every palette-size limit, error bound, palette and channel of the families; images with up to 412 extreme colours", "An interface contract over all sizes and arguments; no test calls the C interface or compiles the header.",
  [CAPI, HDR, LIB], [("exported functions", CAPI), ("declarations", HDR)],
  "bounded exhaustive enumeration of calls on the real code compiled through the shipped header, library as oracle",
  "Calls go through gcc-compiled C that includes the header (also parsed as C++); buffers end at an inaccessible page and start after canaries. Errors the C interface shares with the library are left to C01-C10.")
p("F02", "C objects can be created, used and freed in any order",
  "In every order of creating, using and freeing image weights, decompositions and palettes that respects what each needs when it is created, each object gives the same results whatever else is alive or has been freed; every block is released exactly once, as it was allocated; and freeing everything gives all memory back. In particular a decomposition outlives the weights it was made from.",
  ["histories"], "all protocol-conforming sequences of 5 (6) calls over the object alphabet, followed by freeing what is left in two orders; palettes and decompositions of 4 to 255 colours", "Lifetimes and layouts hold over histories; no test frees anything through the C interface.",
  [CAPI, HDR], [("create and free pairs", CAPI)],
  "exhaustive enumeration of call histories on the real code under an interposed, checking allocator",
  "Every history replayed on the real exported functions; the allocator checks double free, wrong layout, write after release, overrun and leaks.")
p("T01", "Threads can work independently",
  "Two threads that work on their own images, palettes, hulls or triangulations at the same time each get exactly the result they get alone, however their execution interleaves.",
  ["schedules"], "all pairs of 8 jobs x every schedule with one preemption at any function entry or allocator call and with two preemptions at any allocator calls", "Shared hidden state between threads shows only in particular interleavings; the tests are sequential.",
  [RAW, EXT, LIB, PAL], [("qhull contexts instead of globals", EXT + ", " + RAW), ("no shared caches", LIB + ", " + PAL)],
  "stateless exploration of all thread schedules up to a preemption bound on the real code under a controlled scheduler",
  "The code is compiled with a scheduling point at each function entry and allocator call (C and Rust); two threads, at most two preemptions, none inside a function body without calls.")
p("L01", "The command line takes exactly RRGGBB colour lists",
  "As a palette the command line takes exactly a comma-separated list of colours of six hexadecimal digits (either case), each pair read as the red, green and blue component it is written as. Any other text (empty, wrong length, signs, spaces, non-ASCII, trailing commas) is refused as a bad argument before anything is read or written.",
  ["inputs"], "every text of the families: all single-character and probing two-character edits of a colour, all short texts, all lists of probing items, all component values", "A grammar over all texts; the tests never parse one.",
  [CLI], [("palette text parser", CLI + " parse_color_list"), ("argument definitions", CLI + " Commands")],
  "bounded exhaustive enumeration of argument texts on the real program",
  "The real binary is spawned for every text in a scratch directory and compared with an independent reading of the grammar.")
p("L02", "The command line does what the library does",
  "generate-palette prints exactly the palette the library computes for the image's colours and the given (or default) error bound, minimum and maximum size, in the form recolor-image takes, and refuses out-of-range options. recolor-image writes exactly the library's recoloured image to the output file and, if asked, one grayscale image per palette colour named after the output, its index and its colour. A run that fails (unusable or different-sized palettes) says so by its exit status and writes nothing; no other file is ever touched.",
  ["inputs", "configurations"], "every combination of option values, images, file kinds, palettes, recolourings and output names of the families", "The options interact; the tests never run the program.",
  [CLI, LIB, PAL], [("generate-palette", CLI + " main_inner"), ("recolor-image and channel files", CLI + " main_inner")],
  "bounded exhaustive enumeration of invocations of the real program, library as oracle",
  "Every invocation runs in a scratch directory whose complete contents are compared before and after. The image crate's decoding and encoding is trusted.")
p("W01", "The web worker answers every request once and keeps nothing",
  "Whatever sequence of requests the web worker is sent, one at a time or all at once, each is answered exactly once: with exactly the palette, object, image or channel the library gave for exactly the pixels, colours and settings sent, or with an error if the library failed, the palette or channel was refused, or the conversion to an image file fails, or the request is unknown or malformed. Whichever library operation fails and whenever the library's memory moves, every buffer the worker took is given back once with its size, no released memory is touched, and no object is released that it was not asked to release.",
  ["histories", "faults"], "all valid request sequences up to length 2 (3) from nothing and from a loaded state x every outcome of each library call x memory moving at any one call (for single requests any two, and every single call failing) x three orders of arrival and conversion", "Failure paths and moving memory show only in particular combinations; nothing tests the web sources.",
  [WW], [("request handling and buffers", WW)],
  "exhaustive enumeration of request histories and library faults on the real worker source under a contract-checking stand-in for the library",
  "The real webworker.js runs in node; the compiled library, the thread package and the browser classes are stand-ins (the library itself is checked by F01 and C01-C10). An onRequest that rejects is not answered by the package.")
p("W02", "However its user acts, the web page ends up consistent and leaks nothing",
  "Whatever the user does while the page is loading or busy, in every order in which images load, answers arrive and conversions finish: no image, weights or decomposition of the library is used after it was released, released twice or forgotten, and the page never stays busy for ever. Once nothing is pending it shows the last image picked; every image address shown is valid and no other was kept; and if the fields were not edited since the last computation, the recoloured image and every channel are those of the image and colours shown.",
  ["schedules", "histories"], "every schedule of every two of 17 user actions, from the opening of the page or after the first image, and of every three of 7 (18) actions, with cancelled picks, file dialogs open meanwhile, files that are no images and images for which the library fails", "Races between the user, image loading and the worker; nothing tests the web sources.",
  [JS, WW], [("jobs and shared handles", JS), ("image addresses", JS), ("request handling", WW)],
  "stateless exploration of all event schedules of the real page and worker sources",
  "The real index.html, index.js and webworker.js run in node; browser, thread package and library are stand-ins. The worker runs each request as soon as it arrives; answers stay in order, conversions finish in any order.")
p("W03", "Colours and settings pass through the page's fields unchanged",
  "Every palette colour the library computes is shown as its #rrggbb in all four fields of its entry and goes back to the library as the same colour. Typing into a colour's text changes its picker exactly when the text is # and six hexadecimal digits (either case), to exactly that colour; a picker changes its text; no other field changes. Palettes are computed for the image shown with the sizes and error bound shown.",
  ["inputs"], "every component value; every text with any one character replaced by any ASCII character, any two by 27 probing ones, every text of up to 5 characters of 5; every combination of 7 x 6 x 8 settings", "A parser over all texts; nothing tests the web sources.",
  [JS], [("text and picker synchronisation", JS + " textInputUpdateColorInput"), ("colour formatting", JS + " colorValuesToString"), ("settings", JS + " recomputePalette")],
  "bounded exhaustive enumeration of field contents on the real page source",
  "The real index.html and index.js run in node over a stand-in browser whose colour inputs accept #rrggbb only.")
