#!/bin/bash
# seed.sh ID: (development aid) confirm a planted bug: /verif/seeded/ID holds patch.diff and demo.sh.
# In a scratch copy of /repo: applies, builds, passes the tests; demo passes without and fails with it.
id=$1; S=/tmp/sc; V=/verif/seeded/$id
[ -d $S ] || cp -a /repo $S
cd $S && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
mkdir -p target/vp-lock; cp Cargo.lock target/vp-lock/
export CARGO_RESOLVER_LOCKFILE_PATH=$S/target/vp-lock/Cargo.lock CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo build --offline --workspace --lib --bins >/tmp/seed.build 2>&1; ( cd $S && bash $V/demo.sh >/tmp/demo.out 2>&1 ); a=$?
git apply $V/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
git diff --name-only | grep -q '\.c$' && cargo clean -q --offline -p qhull-sys
cargo test --offline --workspace --lib >/tmp/seed.test 2>&1; t=$?
cargo build --offline --workspace --lib --bins >/tmp/seed.build 2>&1 || echo "$id BUILD FAILS"
( cd $S && bash $V/demo.sh >/tmp/demo2.out 2>&1 ); b=$?
git checkout -q -- .
echo "$id: demo clean=$a patched=$b tests=$t ($(grep -c '^test .*ok$' /tmp/seed.test) ok): $(tail -1 /tmp/demo2.out | cut -c1-150)"
