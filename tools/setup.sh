#!/bin/bash
# offline; nothing here is required by the checks (they build what they need), it only verifies the toolchain
set -e
cd "$(dirname "$0")/.."
python3-vt - <<'PY'
import sys
sys.path.insert(0, ".")
from dv import check
print(check.build("mir"))
print(check.build("replay"))
PY
