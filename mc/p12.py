"""P12: saving and loading preserves behaviour at any moment."""
import copy
import os
import tempfile

import numpy as np

from . import core, gen, prims
from movement_primitives import io
from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP,
    StateFollowingDMP)
from movement_primitives.promp import ProMP
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

PROPERTY = "P12"
ORACLE = ("lock step with a twin that runs the same history without being "
          "saved: same class, weights, parameters, continuation and rollouts "
          "(bit-identical)")
KINDS = ["dmp:rk4-cython", "dmp:euler", "cart:cython", "dual:cython", "final",
         "state", "sd", "sdo", "minjerk", "promp"]
FORMATS = ["pickle", "yaml", "json"]
OPS = {"dmp": "SGXWRIL", "final": "SGXWRIL", "cart": "SGXWRIL",
       "dual": "SGXWRIL", "state": "SGXVRL", "sd": "SGRL", "sdo": "SGRL",
       "minjerk": "SGR", "promp": "DFKN"}
TYPES = ["float", "int", "np.float64", "np.int64", "array0"]
GAINS = ["scalar", "list", "array", "np.scalar", "int"]


def bounds(tier):
    return {"histories": "all words of length 0..%d over the operations of "
            "each primitive, then save and load in each of 3 formats, then "
            "continue" % (2 if tier == "quick" else 3),
            "variants": "%d boundary variants of every primitive (dimensions, "
            "resting goals, gains, weights, times)" % len(prims.VARIANTS),
            "types": "all numeric types %s of times and %s of gains x "
            "primitives x formats" % (TYPES, GAINS)}


def cases(tier):
    for kind in KINDS:
        ops = OPS[prims.base(kind)]
        depth = 2 if tier == "quick" else 3
        for w in core.words(ops, depth, 0):
            for f in FORMATS:
                yield {"case": "hist", "kind": kind, "word": w, "format": f}
        if kind != "promp":
            for v in prims.variants(kind):
                for w in core.words(ops, 1, 0 if tier == "quick" else 1):
                    if not w or w[0] in "SIX" or tier != "quick":
                        for f in FORMATS:
                            yield {"case": "hist", "kind": v, "word": w,
                                   "format": f}
    for kind in ["dmp:rk4-cython", "cart:cython", "dual:cython", "final",
                 "state", "sd", "sdo", "minjerk", "promp"]:
        for f in FORMATS:
            for t in TYPES:
                for g in GAINS:
                    if kind in ("minjerk", "promp") and g != "scalar":
                        continue
                    if kind in ("sd", "sdo") and g in ("list", "array"):
                        continue
                    for smooth in (False, True):
                        yield {"case": "types", "kind": kind, "format": f,
                               "type": t, "gain": g, "smooth": smooth}


def store(obj, fmt, name, tmp):
    path = os.path.join(tmp, name + "." + fmt)
    if fmt == "pickle":
        io.write_pickle(path, obj)
        return io.read_pickle(path)
    if fmt == "yaml":
        io.write_yaml(path, obj)
        return io.read_yaml(path)
    io.write_json(path, obj)
    return io.read_json(path)


def motion(kind, i):
    T = np.linspace(0, 1, 17)
    Y = np.array([prims.pose(kind, "b", "gen3")] * 17)
    for b in prims.pos_blocks(kind):
        Y[:, b] += np.column_stack([[np.sin(T + i), T ** 2, -T][j % 3]
                                    for j in range(b.stop - b.start)])
    return T, Y


def demos(i):
    T = np.linspace(0, 1, 15)
    return [T] * 3, [np.column_stack([np.sin(T * (2 + j) + i),
                                      T ** 2 * (j + 1)]) for j in range(3)]


def apply(kind, d, st, o, i):
    """Apply one operation, return what is observed."""
    b = prims.base(kind)
    nv = 0 if b == "promp" else prims.n_vel(kind)
    if o == "S":
        st["y"], st["yd"] = prims.step(kind, d, st["y"].copy(),
                                       st["yd"].copy())
        return np.hstack((st["y"], st["yd"]))
    if o == "G":
        d.configure(goal_y=prims.pose(kind, "de"[i % 2], "y90"),
                    start_yd=gen.vec(nv, "b", 0.1))
        if b == "final":
            d.configure(goal_yd=gen.vec(nv, "c", 0.2))
    elif o == "X":
        d.execution_time_ = 1.5 + 0.5 * i
    elif o == "W":
        d.set_weights(gen.weights(1, len(d.get_weights()), "wave2", 30.0)[0])
    elif o == "V":
        d.forcing_term.viapoints[:] = gen.weights(
            nv, len(d.forcing_term.viapoints), "wave2", 1.0).T
    elif o == "R":
        d.reset()
        st.update(start_state(kind))
    elif o == "I":
        d.imitate(*motion(kind, i))
    elif o == "L":
        return prims.rollout(kind, d, 0.1875)[1]
    elif o == "D":
        d.imitate(*demos(i), n_iter=3)
    elif o == "F":
        n = d.n_weights
        A = gen.weights(n, n, "wave", 1.0)
        d.from_weight_distribution(gen.vec(n, "c"), A.dot(A.T))
    elif o == "K":
        st["cond"] = d.condition_position(np.array([0.2, 0.1]), t=0.5)
        return st["cond"].mean_trajectory(np.linspace(0, 1, 5))
    elif o == "N":
        return d.sample_trajectories(np.linspace(0, 1, 5), 2,
                                     np.random.RandomState(1))
    return np.zeros(0)


def start_state(kind):
    b = prims.base(kind)
    if b == "promp":
        return {}
    return {"y": prims.pose(kind, "a", "gen"), "yd": np.zeros(prims.n_vel(kind))}


def build(kind):
    if kind == "promp":
        return ProMP(2, n_weights_per_dim=4)
    return prims.make(kind, k=3, startd="d")


TAIL = {"dmp": "SSLRSWXSL", "final": "SSLRSWXSL", "cart": "SSLRSWXSL",
        "dual": "SSLRSWXSL", "state": "SSLRSXSL", "sd": "SSLRSL",
        "sdo": "SSLRSL", "minjerk": "SSRS", "promp": "NKDNK"}
PARAMS = ["execution_time_", "execution_time", "dt_", "dt", "int_dt",
          "n_dims", "n_weights_per_dim", "smooth_scaling", "p_gain", "alpha_y",
          "beta_y", "start_y", "start_yd", "goal_y", "goal_yd", "start_ydd",
          "goal_ydd", "current_y", "current_yd", "t", "last_t", "k", "c",
          "weight_mean", "weight_cov", "n_weights", "initialized"]


def same_params(rec, a, b, what):
    rec.ok(type(a) is type(b), "%s: class is %s" % (what, type(a).__name__))
    for p in PARAMS:
        if not hasattr(b, p):
            continue
        rec.ok(hasattr(a, p), "%s: %s is missing" % (what, p))
        x, y = getattr(a, p), getattr(b, p)
        if y is None or x is None:
            rec.ok(x is y, "%s: %s is %r instead of %r" % (what, p, x, y))
        else:
            rec.same(np.asarray(x, dtype=float), np.asarray(y, dtype=float),
                     "%s: %s" % (what, p))
    if hasattr(b, "get_weights") and type(b) is not StateFollowingDMP:
        rec.same(a.get_weights(), b.get_weights(), what + ": weights")


def compare(rec, case, objs):
    """objs: name -> (object, caller state); the twin is the reference."""
    kind = case["kind"]
    twin, tst = objs.pop("twin")
    for n, (o, st) in objs.items():
        same_params(rec, o, twin, n)
    for i, op in enumerate(TAIL[prims.base(kind)]):
        want = apply(kind, twin, tst, op, i)
        for n, (o, st) in objs.items():
            got = apply(kind, o, st, op, i)
            rec.same(got, want, "%s: operation %s (%d) after loading"
                     % (n, op, i))
            rec.call()
        if np.size(want):
            rec.state(kind, want)


def run(case, rec):
    {"hist": run_hist, "types": run_types}[case["case"]](case, rec)
    rec.traces += 1


def run_hist(case, rec):
    kind, fmt = case["kind"], case["format"]
    d, twin = build(kind), build(kind)
    st, tst = start_state(kind), start_state(kind)
    for i, o in enumerate(case["word"]):
        apply(kind, d, st, o, i)
        apply(kind, twin, tst, o, i)
        rec.call()
    finish(case, rec, d, st, twin, tst)


def finish(case, rec, d, st, twin, tst):
    with tempfile.TemporaryDirectory() as tmp:
        a = store(d, case["format"], "a", tmp)
        b = store(a, case["format"], "b", tmp)
        rec.call(4)
        compare(rec, case, {
            "twin": (twin, tst), "saved object": (d, st),
            "loaded object": (a, copy.deepcopy(tst)),
            "object loaded twice": (b, copy.deepcopy(tst))})


def number(x, t):
    return {"float": float, "int": int, "np.float64": np.float64,
            "np.int64": lambda v: np.int64(int(v)),
            "array0": lambda v: np.array([v])[0]}[t](x)


def gain(n, x, t):
    return {"scalar": lambda: float(x), "list": lambda: [float(x)] * n,
            "array": lambda: np.full(n, float(x)),
            "np.scalar": lambda: np.float64(x), "int": lambda: int(x)}[t]()


def typed(case):
    kind, b = case["kind"], prims.base(case["kind"])
    tau = number(2.0, case["type"])
    dt = 0.125 if case["type"] in ("int", "np.int64") \
        else number(0.125, case["type"])
    k = np.int64(4) if case["type"].startswith("np") else 4
    nv = prims.N_VEL.get(b, 0)
    g = case["gain"]
    kw = dict(execution_time=tau, dt=dt, n_weights_per_dim=k)
    if nv:
        kw.update(alpha_y=gain(nv, 20, g), beta_y=gain(nv, 5, g))
    if b == "dmp":
        d = DMP(3, smooth_scaling=case["smooth"],
                p_gain=number(1.0, case["type"]), **kw)
    elif b == "final":
        d = DMPWithFinalVelocity(3, **kw)
    elif b == "cart":
        d = CartesianDMP(smooth_scaling=case["smooth"], **kw)
    elif b == "dual":
        d = DualCartesianDMP(smooth_scaling=case["smooth"], **kw)
    elif b == "state":
        kw["n_viapoints"] = kw.pop("n_weights_per_dim")
        d = StateFollowingDMP(3, **kw)
    elif b == "sd":
        d = SpringDamper(3, dt=dt, k=gain(3, 20, g),
                         c=None if case["smooth"] else gain(3, 4, g))
    elif b == "sdo":
        d = SpringDamperOrientation(
            dt=dt, k=gain(3, 20, g),
            c=None if case["smooth"] else gain(3, 4, g))
    elif b == "minjerk":
        d = MinimumJerkTrajectory(3, execution_time=tau, dt=dt)
    else:
        return ProMP(2, n_weights_per_dim=k)
    d.configure(start_y=prims.pose(kind, "a", "gen"),
                goal_y=prims.pose(kind, "c", "gen2"))
    return d


def run_types(case, rec):
    finish(case, rec, typed(case), start_state(case["kind"]), typed(case),
           start_state(case["kind"]))
