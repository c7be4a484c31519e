#!/bin/bash
# nothing to build: checks that the interpreter, the solver and the package import
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -c "import symtf, z3, numpy, scipy; print('ok', z3.get_version_string(), numpy.__version__, scipy.__version__)"
