#!/bin/bash
# Nothing to build ahead: each check builds the extensions from /repo itself. This only verifies
# that the interpreter and its packages are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, scipy, pandas, multiprocess"
