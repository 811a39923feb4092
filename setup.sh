#!/bin/sh
# Nothing to build: the checks import /repo's working tree and run TLC on spec/.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '/repo'); import shellous"
