#!/bin/bash
# check.sh PID [--tier quick|thorough] [--seed N]: decides one property for the tree in /repo
unset PYTHONPATH PYTHONSTARTUP
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/harness/check.py" "$@"
