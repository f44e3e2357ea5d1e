#!/bin/bash
# Nothing to build ahead of time: every check expands its contracts from /repo's current source and
# builds its replay harness itself.  Only say whether the tools are there.
set -e
cd "$(dirname "$0")/.."
verus --version >/dev/null
python3 -c 'import sys; sys.path.insert(0, "tools"); import check, vgen, rsx, props'
python3 tools/properties_src.py >/dev/null
git diff --stat -- properties.jsonl MANIFEST.json || true
echo setup ok
