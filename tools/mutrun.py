#!/usr/bin/env python3
"""Development aid: mutrun.py LIST.py SLOT [ids..]: for each mutant of LIST.py (M(id, "PROPS", (file, old, new)...)) builds and tests
a copy of /repo with the edit, then runs the named checks on it inside a mount namespace; one line per mutant on stdout.
props starting with "=" mark behaviour-preserving edits: every check must stay quiet."""
import os, subprocess, sys, time, json, glob
LIST, SLOT = sys.argv[1], sys.argv[2]; only = set(sys.argv[3:])
S = f"/tmp/mut/{SLOT}"; R = S + "/repo"; V = S + "/verif"
LIB = "image-palette-recoloring/src/lib.rs"; PAL = "image-palette-recoloring/src/palette.rs"; TRI = "image-palette-recoloring/src/triangle_distance.rs"
HULL = "qhull-rs/src/convex_hull.rs"; RAW = "qhull-rs/src/raw.rs"; DEL = "qhull-rs/src/delaunay.rs"; EXT = "qhull-sys/src/ext.c"
CAPI = "image-palette-recoloring-c/src/lib.rs"; CLI = "image-palette-recoloring-cli/src/main.rs"
JS = "image-palette-recoloring-web/src/js/index.js"; WW = "image-palette-recoloring-web/src/js/webworker.js"
os.makedirs(S, exist_ok=True)
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.isdir(R): sh(f"cp -a /repo {R}")
sh(f"cd {R} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq -e target")
sh(f"mkdir -p {V} && cp -a /verif/. {V}/ 2>/dev/null" if not os.path.isdir(V + "/target") else f"cd /verif && tar cf - --exclude=./target --exclude=./.git . | tar xf - -C {V}")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_RESOLVER_LOCKFILE_PATH=f"{R}/target/vp-lock/Cargo.lock")
sh(f"mkdir -p {R}/target/vp-lock; cp {R}/Cargo.lock {R}/target/vp-lock/")
MUT = []
def M(id, props, *edits): MUT.append((id, props, edits))
exec(open(LIST).read())
for id, props, edits in MUT:
    if only and id not in only: continue
    sh(f"cd {R} && git checkout -q -- .")
    bad = None; web = True; c = False
    for f, old, new in edits:
        s = open(f"{R}/{f}").read()
        if s.count(old) != 1: bad = f"EDIT {f}: {s.count(old)} matches of {old[:40]!r}"; break
        open(f"{R}/{f}", "w").write(s.replace(old, new))
        if f not in (JS, WW): web = False
        if f.endswith(".c"): c = True
    if bad: print(id, bad, flush=True); continue
    if not web:
        if c: sh(f"cd {R} && cargo clean -q --offline -p qhull-sys", env=ENV)
        t = sh(f"cd {R} && timeout 300 cargo test --offline --workspace --lib 2>&1", env=ENV)
        ok = t.stdout.count("... ok")
        if ok != 9: print(id, f"TESTS {ok} ok", t.stdout[-300:].replace("\n", " | ") if ok == 0 else "", flush=True); continue
        if c: sh(f"cd {R} && cargo clean -q --offline -p qhull-sys", env=ENV)
    quiet = props.startswith("="); res = []; hit = False
    for p in props.lstrip("=").split():
        t0 = time.time()
        sh(f"find {V}/evidence -name '{p}.json' -delete")
        r = sh(f"cd / && VERIF_TIER=quick VERIF_SEED=1 timeout 900 unshare -Urm bash -c 'mount --bind {R} /repo && mount --bind {V} /verif && cd /verif && ./run.sh check {p}'")
        vio = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        key = ""
        try: key = json.load(open(f"{V}/evidence/replay/{p}.json")).get("key", "") if vio else ""
        except Exception: pass
        res.append(f"{p}:rc={r.returncode}({time.time()-t0:.0f}s){' ' + key[:90] if vio else ''}")
        if r.returncode not in (0, 1): res.append("!! " + r.stdout[-200:].replace("\n", " | "))
        if r.returncode == 1 and vio:
            hit = True
            if not quiet: break
    tag = ("ALARM" if hit else "quiet") if quiet else ("caught" if hit else "MISSED")
    print(id, tag, "; ".join(res), flush=True)
sh(f"cd {R} && git checkout -q -- .")
