#!/bin/bash
# run.sh <property> [args]: runs one check with the interpreter the repository is built with.
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python dst/check.py "$@"
