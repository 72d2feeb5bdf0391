#!/bin/bash
# Builds the harness once so that the checks only rebuild what changed.
cd "$(dirname "$0")/../harness" || exit 1
mkdir -p ../evidence
CARGO_NET_OFFLINE=true RUSTFLAGS='--cfg vsched' cargo build --offline --quiet
