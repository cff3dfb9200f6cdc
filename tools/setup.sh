#!/bin/sh
# nothing is pre-built: checks compile the TLC override on demand.  Fail early when a tool is missing.
set -e
java -version >/dev/null 2>&1
javac -version >/dev/null 2>&1
/opt/venv/bin/python -c "import numpy, lark"
test -f /opt/veriftools/tla/tla2tools.jar
echo ok
