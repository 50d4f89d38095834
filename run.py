#!/usr/bin/env python3
"""run.py <PROPERTY> [--replay FILE] : decide one property (see DESIGN.md)."""
import os
import sys

PY = "/opt/venv/bin/python"
CLEAN = {
    "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/tmp", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1", "VF_CLEAN": "1", "TZ": "UTC",
}
if os.environ.get("VF_CLEAN") != "1":
    env = dict(CLEAN)
    for k, v in os.environ.items():
        if k.startswith(("VERIF_", "VF_")): env[k] = v
    env["VF_CLEAN"] = "1"
    os.execve(PY, [PY, "-P", os.path.abspath(__file__), *sys.argv[1:]], env)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VF_REPO", "/repo") + "/src")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

if __name__ == "__main__":
    import importlib

    if len(sys.argv) < 2:
        sys.exit("usage: run.py PROPERTY [--replay FILE]")
    try:
        os.umask(0o022)
        from vlib import harness
        if sys.argv[1] == "--selftest":
            harness.preload()
            import hypothesis
            print("hypothesis", hypothesis.__version__)
            sys.exit(0)
        mod = importlib.import_module("props." + sys.argv[1].lower())
        rc = harness.main(mod.PROP, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
