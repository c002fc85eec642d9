#!/bin/bash
# nothing to build: the checks import /repo/src directly; verify that the interpreter and packages are there
cd "$(dirname "$(readlink -f "$0")")" || exit 3
chmod +x run.sh
exec /opt/venv/bin/python -c 'import numpy, scipy, bih; import sys; sys.path.insert(0, "/repo/src"); import bgem.polygons.polygons; print("ok")'
