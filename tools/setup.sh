#!/bin/bash
# nothing to build: checks that the interpreter, the solver bindings and the package can be loaded
cd "$(dirname "$0")/.." || exit 1
chmod +x check
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'Q'
import sys
sys.path.insert(0, '.'); sys.path.insert(0, '/repo/src')
import engine.alg, engine.sym, engine.explore, actuarialmath
print('ok')
Q
