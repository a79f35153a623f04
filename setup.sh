#!/bin/bash
# Builds the extractor and the replay crate (the checks build them again if they are not there).
cd "$(dirname "$0")"
(cd tools/rs2v && CARGO_TARGET_DIR="$PWD/../../.build/rs2v" cargo build --offline --release) || exit 1
(cd replay && CARGO_TARGET_DIR="$PWD/../.build/replay" cargo build --offline) || true
exit 0
