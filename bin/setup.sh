#!/bin/bash
# Warms the Go build cache and checks that the toolchain is there. Nothing a
# check needs depends on this having run.
set -e
cd "$(dirname "$0")/.."
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from vlib import core
import os
c = core.Check("setup")
try:
    for d in sorted(os.listdir(core.HARNESS)):
        if d not in ("hlib", "rb", "cells", "vt"):
            c.build(d)
finally:
    c.cleanup()
P
