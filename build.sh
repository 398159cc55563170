#!/bin/bash
# build.sh [main|instr|all]: builds the explorer (and what it links: /repo's crates) from /repo's current working tree.
# "instr" is the build whose function entries are scheduling points, for T01.
. "$(dirname "$0")/env.sh"
set -e
mkdir -p "$TGT"
exec 9>"$TGT/.verif-lock"; flock 9
# qhull-sys/build.rs does not watch its C files and cargo trusts mtimes: judge by content instead.
sum() { find "$@" -type f \( -name '*.rs' -o -name '*.c' -o -name '*.h' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1; }
cd /repo
H=$(sum Cargo.toml qhull-sys qhull-rs image-palette-recoloring image-palette-recoloring-c image-palette-recoloring-cli)
HC=$(sum qhull-sys)
cd "$VERIF/mc"
build() { # target-dir, cargo arguments
    local T=$1; shift; mkdir -p "$T"
    # without the tag cargo refuses to clean
    [ -f "$T/CACHEDIR.TAG" ] || echo "Signature: 8a477f597d28d172789f06886806bc55" > "$T/CACHEDIR.TAG"
    if [ "$(cat "$T/.repo-hash" 2>/dev/null)" != "$H" ]; then
        P="qhull-rs image-palette-recoloring capi cli"
        [ "$(cat "$T/.qhull-hash" 2>/dev/null)" != "$HC" ] && P="$P qhull-sys"
        rm -f "$T/.repo-hash" "$T/.qhull-hash"
        for p in $P; do cargo clean --release --offline --target-dir "$T" -p "$p" >"$T/.build-log" 2>&1 || { cat "$T/.build-log" >&2; exit 3; }; done
    fi
    cargo build --release --offline --target-dir "$T" "$@" 2>"$T/.build-log" >&2 || { tail -40 "$T/.build-log" >&2; echo "build failed" >&2; exit 3; }
    echo "$H" > "$T/.repo-hash"; echo "$HC" > "$T/.qhull-hash"
}
what=${1:-all}
[ $what = instr ] || build "$TGT" --workspace
[ $what = main ] || CFLAGS="-pg -fno-omit-frame-pointer" RUSTC_WRAPPER=$PWD/instr-rustc.sh build "$TGT/instr" --bin life
