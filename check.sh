#!/bin/bash
# check.sh <property> quick|thorough   |   check.sh replay <file>
cd "$(dirname "$0")" || exit 3
export PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore harness/check.py "$@"
