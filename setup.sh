#!/bin/bash
# Builds the harness and the formatter from the committed files, offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/harness/target"
cd "$here/harness"
cargo build --profile plain --offline --locked
for crate in harness formatter; do
    cd "$here/$crate"
    cargo build --release --offline --locked
done
