#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]
           [--target NAME ...] [--shards N]"""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "PYTHONWARNINGS": "ignore"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(PY, [PY, "-W", "ignore"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.pycache_prefix = os.path.join("/nonexistent", "pycache")
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, REPO)
# hypothesis, after the interpreter's own packages
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def load(pid):
    import importlib
    import warnings
    warnings.simplefilter("ignore")
    from props import REGISTRY
    mod = importlib.import_module("props." + REGISTRY[pid])
    return mod.PROPS[pid]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true",
                    help="only check that everything can be imported")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--target", action="append")
    ap.add_argument("--shards", type=int)
    a = ap.parse_args()
    os.chdir(HERE)
    import core
    try:
        import numpy as np
        np.seterr(all="ignore")
        import maxlike
    except Exception as e:
        # the package can't even be imported: nothing of it works
        import traceback
        traceback.print_exc()
        sys.exit(2)
    f = os.path.realpath(maxlike.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        print("maxlike imported from %s" % f, file=sys.stderr)
        sys.exit(2)
    if a.selftest:
        import hypothesis
        from props import REGISTRY
        for pid in REGISTRY:
            load(pid)
        print("hypothesis %s, %d checks" % (hypothesis.__version__,
                                            len(REGISTRY)))
        sys.exit(0)
    prop = load(a.pid)
    sys.exit(core.main(prop, a.tier, a.seed, a.replay, a.target, a.shards))


if __name__ == "__main__":
    main()
