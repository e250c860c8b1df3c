#!/bin/bash
# nothing to build: checks that the interpreter and the harness load
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c "import numpy, pandas, mc.core, mc.ref, mc.standin; print('ready')"
