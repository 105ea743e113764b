#!/bin/bash
# Optional warm-up: compiles the dependencies for the verifier and the native
# replay.  The checks work without it.
cd "$(dirname "$0")/.."
mkdir -p build evidence
timeout 900 python3 tools/check.py C05 --only=h_delta_q
timeout 600 python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import check
d, _ = check.stage("C05", "quick")
print("replay crate:", "ok" if check.replay_bin(d)[0] else "not built")
PY
exit 0
