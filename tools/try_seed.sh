#!/bin/bash
# tools/try_seed.sh NAME: does seeded/NAME compile, pass the stable test, and fail its demonstration?
set -u
root=/verif; name="$1"; w=/tmp/seedwork/repo; d=$root/seeded/$name
b() { (cd $w && export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable; cargo build --lib --offline 2>&1 && cargo test --offline --test nbayes 2>&1) > /tmp/seedwork/log || { echo "BUILD/TEST FAILED"; grep -E "^error|panicked|FAILED" -A6 /tmp/seedwork/log | head -40; return 1; }; }
git -C $w checkout -q -- . ; git -C $w fetch -q /repo HEAD && git -C $w reset -q --hard FETCH_HEAD
b || exit 1
(cd $w && bash $d/demo.sh >/tmp/seedwork/out0 2>&1); r0=$?
git -C $w apply "$d/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
b || exit 1
(cd $w && bash $d/demo.sh >/tmp/seedwork/out1 2>&1); r1=$?
git -C $w checkout -q -- .
echo "$name: clean=$r0 patched=$r1"
[ $r0 = 0 ] || head -5 /tmp/seedwork/out0
[ $r1 != 0 ] && head -3 /tmp/seedwork/out1 | cut -c1-300
[ $r0 = 0 ] && [ $r1 != 0 ] && [ $r1 != 3 ]
