#!/bin/bash
# nothing to build: the checks import /repo's working tree; this only verifies that the tools are present
cd "$(dirname "$0")" || exit 1
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
D=$(mktemp -d) && trap 'rm -rf -- "$D"' EXIT
export MPLCONFIGDIR="$D"
/opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, sympy, mpmath, numpy, scipy; from kv import patch; patch.load(); print('ready')"
