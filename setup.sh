#!/bin/sh
# nothing to build: the machinery is Python, and every check reads /repo afresh.  Compares pyvc's semantics with CPython's.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replay
python3-vt -c 'import z3, sys; sys.exit(0)'
python3-vt pyvc/selftest.py
