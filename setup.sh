#!/bin/bash
# builds the extractor and the harness (checks rebuild them when needed)
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
(cd extract && CARGO_TARGET_DIR=../.build/extract cargo build --release --offline --quiet 2>/dev/null) || exit 1
(cd harness && CARGO_TARGET_DIR=../.build/harness cargo build --release --offline --quiet 2>/dev/null) || exit 1
