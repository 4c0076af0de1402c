#!/bin/bash
# h.sh CRATE SECONDS SEED PROPS... : build and try a harness (development aid)
cd /verif/harness/$1 && VERIF_HOOKS=${VERIF_HOOKS:-/verif/hooks} CARGO_TARGET_DIR=/verif/build/target RUSTFLAGS="--cfg verif --cap-lints allow" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable cargo build 2>&1 | grep -E "^error" -A6 | head -60
c=$1; t=$2; sd=$3; shift 3
[ -x /verif/build/target/debug/h-$c ] || exit 1
for p in "$@"; do timeout 600 /verif/build/target/debug/h-$c run $p $sd $t 100000000 > /tmp/o.json; python3 - <<'P'
import json
d=json.load(open('/tmp/o.json')); v=d['violation']; print(d['property'],d['evaluations'],d['distinct_nontrivial'], v and (v['case'],v['message'],v['trace'][:3],v['trace'][-14:]))
P
done
