#!/bin/bash
# bash run.sh <property> <quick|thorough>   decide one property on /repo's working tree
# bash run.sh replay <file>                 re-run one recorded failing case
# bash run.sh list
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export HYPOTHESIS_STORAGE_DIRECTORY=/nonexistent
unset PYTHONPATH PYTHONASYNCIODEBUG
exec python3-vt -B harness/run.py "$@"
