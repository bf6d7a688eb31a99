#!/opt/venv/bin/python
"""Run one check: check.py P01 [--tier quick|thorough] [--replay FILE]."""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
ENV = dict(NUMBA_DISABLE_JIT="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1")
if os.environ.get("MC_CHILD") != "1":
    env = dict(os.environ, MC_CHILD="1", **ENV)
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], env)

import warnings  # noqa: E402

warnings.simplefilter("ignore")

from mc import build, core  # noqa: E402


def self_test():
    """Check the enumerators and the reference models themselves."""
    from mc import ref
    assert len(list(core.words("abc", 3))) == 27
    assert len(list(core.interleavings(3, 2))) == 10
    assert len(list(core.deviations({"a": [0, 1], "b": [0, 1, 2]}, 1))) == 4
    assert len(list(core.product({"a": [0, 1], "b": [0, 1, 2]}))) == 6
    q = ref.qexp([0.3, -0.2, 0.5])
    assert max(abs(a - b) for a, b in
               zip(ref.qlog(q), [0.3, -0.2, 0.5])) < 1e-12
    d = ref.DMP(1, 1.0, 0.125, 3, 0.0625)
    d.goal = [1.0]
    for _ in range(64):
        d.step([0.0], [0.0], None, "rk4")
    assert abs(d.y[0] - 1.0) < 1e-6
    print("self-test passed")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    args = ap.parse_args()
    if args.self_test:
        return self_test()
    if not args.property:
        ap.error("property is required")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    try:
        scratch = build.build()
    except build.BuildError as e:
        print("ERROR: the package does not build\n%s" % e)
        return 2
    os.environ["MC_SCRATCH"] = scratch
    print("built in %.1f s" % (time.time() - t0))
    mod = importlib.import_module("mc." + args.property.lower())
    if args.replay:
        with open(args.replay) as f:
            case = json.load(f)["case"]
        r = core.run_case(mod, case, core.Rec())
        if r is None:
            print("replay: property holds on this case")
            return 0
        print("VIOLATION property=%s replay=%s" % (args.property, args.replay))
        print("  " + r[0])
        return 1
    return core.explore(mod, args.tier, seed, args.jobs)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
