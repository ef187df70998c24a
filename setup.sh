#!/bin/bash
# Warms the build cache: compiles every harness package once over /repo's working tree.
cd "$(dirname "$0")" || exit 1
python3 tools/run.py --build-all
