#!/bin/bash
# Nothing to compile: checks that the interpreter, numpy and hypothesis are where check.sh expects them.
set -e
/opt/venv/bin/python -c 'import numpy, scipy'
for m in hypothesis attr attrs sortedcontainers; do test -e "/opt/veriftools/pyvenv/lib/python3.12/site-packages/$m"; done
mkdir -p "$(dirname "$0")/evidence"
echo ready
