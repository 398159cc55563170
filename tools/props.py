#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py (run in /verif)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), tech, note))
LIB = "image-palette-recoloring/src/lib.rs"; PAL = "image-palette-recoloring/src/palette.rs"; TRI = "image-palette-recoloring/src/triangle_distance.rs"
HULL = "qhull-rs/src/convex_hull.rs"; RAW = "qhull-rs/src/raw.rs"; DEL = "qhull-rs/src/delaunay.rs"; EXT = "qhull-sys/src/ext.c"
CAPI = "image-palette-recoloring-c/src/lib.rs"; HDR = "image-palette-recoloring-c/image-palette-recoloring.h"; CLI = "image-palette-recoloring-cli/src/main.rs"
JS = "image-palette-recoloring-web/src/js/index.js"; WW = "image-palette-recoloring-web/src/js/webworker.js"
IMG = "every image up to the enumerated sizes over fixed colour alphabets, every palette of the enumerated families"
TB = " Bounded: says nothing beyond the enumerated spaces, whose bounds are in DESIGN.md. Trusts the integer-exact geometry oracle (self-tested at start-up) and rustc/gcc."
exec(open(__file__.replace("props.py", "props_data.py")).read())
with open("properties.jsonl", "w") as f:
    for d, _, _ in P: f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [dict(property=d["id"], quick_cmd=f"./run.sh check {d['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {d['id']}",
                     evidence_file=f"evidence/{d['id']}.json", technique=t, level="model_checking", level_note=n) for d, t, n in P if t],
     "not_applicable": [dict(property=d["id"], reason=n) for d, t, n in P if not t],
     "notes": "No hooks in /repo: the checks drive the public Rust API, the C library, the CLI binary and the web sources as they are. See DESIGN.md."}
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
