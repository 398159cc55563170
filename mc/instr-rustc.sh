#!/bin/bash
# rustc wrapper of the instrumented build: function entries of the code under test become scheduling points.
rustc=$1; shift
for a in "$@"; do case $prev$a in
  --crate-nameqhull_rs|--crate-nameimage_palette_recoloring|--crate-namecapi) export RUSTC_BOOTSTRAP=1; exec "$rustc" "$@" -Zinstrument-mcount -Cforce-frame-pointers=yes;;
esac; prev=$a; done
exec "$rustc" "$@"
