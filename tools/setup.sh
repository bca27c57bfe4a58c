#!/bin/bash
# nothing to build: checks that the interpreters and solvers the framework needs are there
set -e
cd "$(dirname "$0")/.."
python3-vt -c "import z3, sys; sys.path.insert(0, '.'); sys.setrecursionlimit(20000); import engine.verify"
cvc5 --version | head -1
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import slash"
mkdir -p evidence
