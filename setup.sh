#!/bin/bash
# Nothing to install: checks build what they need. This warms the Go build cache and checks the toolchain.
cd "$(dirname "$0")" || exit 1
command -v java >/dev/null && command -v go >/dev/null || { echo "java and go are needed"; exit 1; }
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
from vlib import core
c = core.Ctx('setup')
try:
    c.build()
finally:
    c.close()
P
