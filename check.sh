#!/bin/bash
# check.sh CXX [quick|thorough]: decide one property on $VERIF_REPO (default /repo)
cd "$(dirname "$0")" || exit 3
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1
unset PYTHONPATH PYTHONSTARTUP PYTHONOPTIMIZE
exec "$py" -B -m mc.run "$@"
