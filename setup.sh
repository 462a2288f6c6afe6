#!/bin/bash
# builds the analysis driver; nothing else is needed
set -e
cd "$(dirname "$0")/engine"
cargo +nightly build --offline --quiet
test -x target/debug/vp-engine
