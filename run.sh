#!/bin/bash
# bash run.sh <property id> [--tier quick|thorough] [--replay file] : runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONIOENCODING=utf-8 LANG=C.UTF-8
export PYTHONPYCACHEPREFIX=/nonexistent/verif-pyc
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export HYPOTHESIS_STORAGE_DIRECTORY=/tmp/verif_hyp
export PYTHONPATH="$PWD" HYPOTHESIS_NO_PLUGINS=1
exec /opt/venv/bin/python -m harness "$@"
