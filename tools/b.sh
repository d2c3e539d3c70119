#!/bin/bash
# b.sh <crate> <bin> [sub...]: build (updating the lock file) and run the named sub-checks
. /verif/harness/env.sh
cd /verif/harness/$1 || exit 2
[ -f Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
out=$(cargo build --offline --bin $2 2>&1) || { echo "$out" | grep -E "^error" -A9 | head -${ERRS:-70}; exit 1; }
echo "$out" | grep -A6 "^warning: unused" | head -20
bin=$2; shift 2
for i in "$@"; do VP_ONLY=$i timeout 900 /verif/target/debug/$bin 2>&1 | cut -c1-${CUT:-1500}; done
