#!/bin/bash
# Nothing to build: the checks run /repo's Python sources directly and TLC on spec/.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
java -version >/dev/null 2>&1
mkdir -p evidence
PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import optbinning" >/dev/null
