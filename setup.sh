#!/bin/bash
# Nothing to build: checks that the interpreter, the installed tools and /repo's library are importable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/verif-pyc /opt/venv/bin/python - <<'P' || exit 1
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy, scipy, hypothesis
print("setup ok", numpy.__version__, scipy.__version__, hypothesis.__version__)
P
