import importlib
import sys
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")  # hypothesis

from . import core  # noqa: E402


def entry():
    pid = sys.argv[1]
    core.setup_process()
    try:
        mod = importlib.import_module(f"harness.checks.{pid.lower()}")
        rc = core.main(mod, sys.argv[2:])
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    except BaseException:
        core.say("HARNESS ERROR: " + traceback.format_exc())
        rc = 2
    sys.stdout.flush()
    core._real_out.flush()
    import os
    os._exit(rc)


entry()
