#!/bin/bash
# usage: check.sh <property> [--thorough] [-v] [--only=substr]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig}
exec /opt/venv/bin/python -W ignore -c '
import sys
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vsym.run import main
sys.exit(main())' "$@"
