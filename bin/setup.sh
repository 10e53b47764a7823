#!/bin/bash
# Nothing is built ahead: every check is self-contained. Confirm the tools are there.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -B -c "import ordered_set, sortedcontainers"
mkdir -p evidence
