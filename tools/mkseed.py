#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from (id, property, file, [(old,new)], needs, breaks, main.rs)."""
import subprocess, os, json, sys, shutil
SC = "/tmp/sc"
LIB = "image-palette-recoloring/src/lib.rs"; PAL = "image-palette-recoloring/src/palette.rs"; TRI = "image-palette-recoloring/src/triangle_distance.rs"
HULL = "qhull-rs/src/convex_hull.rs"; RAW = "qhull-rs/src/raw.rs"; DEL = "qhull-rs/src/delaunay.rs"
def seed(id, prop, edits, needs, breaks, main=None, demo=None, extra={}):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    for f, old, new in edits:
        p = f"{SC}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "wb").write(subprocess.check_output(["git", "-C", SC, "diff"]))
    subprocess.check_call(["git", "-C", SC, "checkout", "-q", "--", "."])
    if main is not None:
        for f in ("Cargo.toml", "Cargo.lock", "demo.sh"): shutil.copy(f"/tmp/seedlib/{f}", d)
        open(f"{d}/main.rs", "w").write(main.lstrip())
    else:
        open(f"{d}/demo.sh", "w").write(demo.lstrip()); os.chmod(f"{d}/demo.sh", 0o755)
        for n, c in extra.items(): open(f"{d}/{n}", "w").write(c.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
exec(open(sys.argv[1]).read())
