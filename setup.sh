#!/bin/bash
# Builds the analysis driver from the committed sources, offline.
set -e
cd "$(dirname "$0")/flow"
cargo +nightly build --release --offline
