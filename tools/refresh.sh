#!/bin/bash
# Developer tool: rewrite contracts/deps.json, contracts/baseline.json, MANIFEST.json and properties.jsonl after a change of contracts or of the accepted /repo
set -e
cd "$(dirname "$0")/.."
d=$(mktemp -d)
cargo build --offline --quiet --manifest-path tools/kvx/Cargo.toml
tools/kvx/target/debug/kvx ${KNX_REPO:-/repo} contracts contracts/prelude.rs $d/gen.rs $d/map.json
(cd $d && verus gen.rs --log call-graph --log-dir $d/log 2>&1 | tail -1)
python3 tools/mkdeps.py $d/gen.rs $d/map.json $d/log/crate-call-graph-nostd-initial.dot contracts/deps.json
python3 tools/mkbaseline.py
python3 tools/gen_manifest.py
rm -rf "$d"
