#!/bin/bash
# Builds the monitors once, so that the compiled standard library is in .gocache when the checks run. The checks
# rebuild everything that depends on /repo themselves and do not need this to have run.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, '.')
import check
s = tempfile.mkdtemp(prefix='vmon-setup-')
try:
    check.link_sources(s)
    check.build(s, False)
    check.build(s, True)
finally:
    shutil.rmtree(s, ignore_errors=True)
P
