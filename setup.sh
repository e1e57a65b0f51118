#!/bin/bash
# Build everything once so that checks only rebuild what changed in /repo.
cd "$(dirname "$0")/sim" || exit 2
. ./env.sh
cargo build --release --offline || exit 1
(cd /repo && find src Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum) >target/repo.sum
