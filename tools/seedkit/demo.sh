#!/bin/bash
# run with cwd = the pyHalo checkout
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$here:$PWD"
exec /opt/venv/bin/python "$here/demo.py"
