#!/bin/bash
# plant.sh <bug id> <property> [props to run]: develop a planted bug. Edit /tmp/wt (a copy of /repo), put demo.sh
# (and meta.json) in /verif/seeded/<id>, then run this: it confirms the change and runs the checks against it.
id=$1; prop=$2; run=${3:-$2}
d=/verif/seeded/$id
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd /tmp/wt || exit 1
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cargo build --workspace --offline 2>&1 | grep -E '^error|warning: unused' | head
cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E '^test result|FAILED|failed' | grep -v ' 0 failed' | head
timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo with the bug: $? (want nonzero)"; tail -2 /tmp/demo.out | cut -c1-200
( cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo without: $? (want 0)"; tail -2 /tmp/demo.out | cut -c1-200 )
VERIF_REPO=/tmp/wt python3 /verif/run.py $run 2>&1 | grep -v ' held:' | cut -c1-300
git checkout -q -- .
