#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo as it is now, then
# search. Exit 0 held, 1 violated, anything else is an error of the check.
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
export CGAR_SIM_ROOT="$(cd .. && pwd)"
# cargo compares time stamps; compare contents as well
sum=$(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$(cat target/repo.sum 2>/dev/null)" != "$sum" ]; then
    cargo clean --release --offline -p cgar >/dev/null 2>&1
fi
log=$(mktemp) || exit 2
if ! cargo build --release --offline >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "check.sh: build failed" >&2
    exit 2
fi
rm -f "$log"
echo "$sum" >target/repo.sum
exec ./target/release/cgar-sim check "$1"
