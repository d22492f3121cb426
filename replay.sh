#!/bin/bash
# replays the inputs of a violation report on the unpatched code of /repo
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PYTHONPATH=/repo:. /opt/venv/bin/python -W ignore vsym/concrete.py < "$1"
echo
