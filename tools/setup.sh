#!/bin/sh
# nothing to install: makes sure the solver, the compiler and the framework are usable
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import z3; print('z3', z3.get_version_string())"
clang --version | head -1
python3-vt -m compileall -q symx harness checks.py
