#!/usr/bin/env python3
"""run_check.py <property> [--replay FILE]: decide one property (VERIF_TIER, VERIF_SEED)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main():
    if sys.argv[1:] == ["--setup"]:  # nothing to build in advance: every check builds what it needs from /repo
        return 0
    pid = sys.argv[1]
    rest = sys.argv[2:]
    hs = str(int(os.environ.get("VERIF_SEED", "1")) % 4294967295)
    if len(rest) > 1 and rest[0] == "--replay":
        with open(rest[1]) as f:
            hs = json.load(f).get("hashseed") or hs
    env = {"PYTHONHASHSEED": hs, "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
           "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "LC_ALL": "C.UTF-8", "PYTHONUTF8": "0", "HDF5_USE_FILE_LOCKING": "FALSE"}
    if any(os.environ.get(k) != v for k, v in env.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY) or not os.environ.get("DST_BOOT"):
        os.environ.update(env)
        os.environ["DST_BOOT"] = "1"
        os.environ.pop("PYTHONPATH", None)
        os.execv(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]])
    sys.path.insert(0, HERE)
    check = importlib.import_module(f"checks.{pid.lower()}")
    from dst import native, runner

    native.boot(getattr(check, "NATIVE", False))
    if hasattr(check, "boot"):
        check.boot()
    return runner.main(check, rest)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
