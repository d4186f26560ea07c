#!/bin/bash
# Compiles the harness once (with and without the race detector) to fill the build cache;
# the checks rebuild it themselves against /repo's tree.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys, tempfile, shutil
sys.path.insert(0, ".")
import run
d = tempfile.mkdtemp(prefix="vh-setup-")
try:
    run.build(d, False)
    run.build(d, True)
finally:
    shutil.rmtree(d, ignore_errors=True)
P
