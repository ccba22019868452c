#!/bin/bash
# Nothing to install: checks compile their harness from /repo on every run. Only verifies the tool chain and /repo are there.
set -e
command -v clang++-18 >/dev/null
test -d "${VERIF_REPO:-/repo}/gbs"
cd "$(dirname "$0")"
mkdir -p evidence replays _build
python3 -c "import json;json.load(open('harness/checks.json'))"
