#!/bin/bash
# run.sh check <ID> | replay <ID> <space> <case>     (VERIF_TIER=quick|thorough)
cd "$(dirname "$0")" && . ./env.sh
case $2 in
    T*) ./build.sh instr || exit 3; bin=$TGT/instr/release/life;;
    F*|Q06) ./build.sh main || exit 3; bin=$TGT/release/life;;
    *) ./build.sh main || exit 3; bin=$TGT/release/mc;;
esac
mkdir -p evidence
exec "$bin" "$@"
