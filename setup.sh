#!/bin/bash
# nothing to build: checks that the interpreter, the solver and the executor load
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import symx, z3, numpy, pandas, yaml; from symx import core, instrument; print(z3.get_version_string())"
