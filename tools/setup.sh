#!/bin/bash
# builds the extractor and the replay runner (checks rebuild them if needed)
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
(cd vx && cargo build --offline -q)
python3 -c "import sys; sys.path.insert(0,'vf'); import harness; harness.build_runner()"
