#!/bin/bash
# Prepares the framework: nothing needs installing; checks build from /repo's tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3 - <<'PY'
import sys
sys.path.insert(0, 'lib')
import check
check.build({})
PY
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
g++ --version | head -1
echo setup ok
