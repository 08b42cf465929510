#!/opt/venv/bin/python
"""Run one property's check: check.py PID [--tier T] [--seed N] [--replay FILE]."""
import os

for _var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_var] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")

import argparse  # noqa: E402
import shutil  # noqa: E402
import sys  # noqa: E402
import tempfile  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)


def run():
    par = argparse.ArgumentParser()
    par.add_argument("pid")
    par.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    par.add_argument("--seed", type=int,
                     default=int(os.environ.get("VERIF_SEED", "1")))
    par.add_argument("--replay")
    par.add_argument("--only", nargs="*")
    args = par.parse_args()
    scratch = tempfile.mkdtemp(prefix="verif-" + args.pid + "-")
    try:
        from lib import bootstrap
        bootstrap.prepare(scratch)
        from lib import vlib
        return vlib.main(args.pid.upper(), args.tier, args.seed, scratch,
                         replay=args.replay, only=args.only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        code = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
