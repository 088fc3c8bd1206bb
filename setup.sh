#!/bin/bash
# builds the symbolic executor and its runtime stand-ins into /verif/build
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys; sys.path.insert(0,'.')
import run; run.ensure_engine()
PY
