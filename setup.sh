#!/bin/bash
# builds the extractor and the replay crate; the checks rebuild whatever is missing or out of date themselves
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path tools/kvx/Cargo.toml
cargo build --offline --quiet --release --manifest-path replay/Cargo.toml
exit 0
