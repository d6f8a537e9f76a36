#!/bin/bash
# Nothing has to be built ahead of the checks (each builds what it needs from /repo); this only makes sure the tools are there.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c 'import numpy, networkx, mqt.qudits, lib.harness'
command -v g++ clang++ cmake > /dev/null
echo ready
