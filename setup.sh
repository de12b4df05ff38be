#!/bin/bash
# Nothing is compiled: check that the interpreter and the package can be imported.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 HYPERSHELL_CONFIG_FILE= HYPERSHELL_LOGGING_LEVEL=critical \
  /opt/venv/bin/python -c 'import sqlalchemy, yaml, rich; import os; print("ok")'
