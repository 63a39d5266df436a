#!/bin/bash
# nothing to compile: check that the tools and the code are there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
which tlc >/dev/null || exit 1
PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import oidcrp" || exit 1
echo ok
