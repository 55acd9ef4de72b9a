#!/bin/bash
# build the extractor and the harness crate's dependencies from the committed files (offline)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd tools/vx && cargo build --release --offline)
mkdir -p build evidence
# harness binaries: built here so that checks only rebuild what changed
python3 prebuild.py || true
