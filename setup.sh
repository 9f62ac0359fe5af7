#!/bin/bash
# Nothing to build: the checks are Python and load the code under test from /repo's working tree.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import glob
for path in glob.glob("sim/**/*.py", recursive=True):
    compile(open(path).read(), path, "exec")
P
/opt/venv/bin/python -c "import numpy, numba, flatbuffers, platformdirs"
