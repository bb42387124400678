#!/bin/bash
# builds the extractor and the bounded stand-in (against /repo's tree) from the committed files, offline
set -e
V="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$V/build/replay" "$V/evidence"
( . /opt/vp/env.sh >/dev/null 2>&1; cd "$V/extractor"; cargo build --release --offline )
python3 - "$V" <<'P'
import sys
sys.path.insert(0, sys.argv[1])
sys.argv = ["check.py"]
import check
exe, err = check.build_harness()
print(exe, err[-2000:])
sys.exit(0 if exe else 1)
P
verus --version >/dev/null
