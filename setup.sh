#!/bin/bash
# nothing to build: checks the interpreter and the solver binding are there
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "import sx, z3; print('z3', z3.get_version_string())"
