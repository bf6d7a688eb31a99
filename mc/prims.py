"""Uniform construction and stepping of all primitives (public API only)."""
import numpy as np

from . import gen, ref
from .p02 import tables
from .p03 import table as dual_table
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, DMPWithFinalVelocity,
    StateFollowingDMP)
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

DMPS = ["dmp:rk4-cython", "dmp:euler-cython", "dmp:rk4", "dmp:euler",
        "cart:cython", "cart:python", "dual:cython", "dual:python", "final"]
ALL = DMPS + ["state", "sd", "sdo", "minjerk"]
N_VEL = {"dmp": 3, "final": 3, "cart": 6, "dual": 12, "state": 3, "sd": 3,
         "sdo": 3, "minjerk": 3}
# values at the boundaries of the parameter space; a kind is followed by
# "@name" to select one
VARIANTS = {
    "1d": {"n": 1}, "7d": {"n": 7}, "9d": {"n": 9},
    "rest": {"goal": "start"}, "part": {"goal": "part"},
    "zero": {"start": "zero"}, "far": {"goal": "far"},
    "two": {"k": 2}, "many": {"k": 40}, "gain": {"p_gain": 16.0},
    "soft": {"gain": 0.25}, "stiff": {"gain": 3.0},
    "equal": {"gains": "default"}, "moving": {"startd": 8.0},
    "still": {"weights": "zero"}, "hot": {"weights": "hot"},
    "short": {"tau": 0.03125}, "one": {"tau": 0.0625}, "long": {"tau": 24.0},
    "coarse": {"int_dt": 0.5}, "whole": {"int_dt": 0.0625},
    "fine": {"dt": 0.001953125, "int_dt": 0.0009765625},
    "slow": {"dt": 0.5, "int_dt": 0.03125},
}
TIMES = ("tau", "dt", "int_dt")


def base(kind):
    return kind.split("@")[0].split(":")[0]


def impl(kind):
    return kind.split("@")[0].partition(":")[2]


def variant(kind):
    return VARIANTS[kind.split("@")[1]] if "@" in kind else {}


def variants(kind, times=True):
    """All variants that differ from the kind itself."""
    b = base(kind)
    for name, v in VARIANTS.items():
        if "n" in v and b in ("cart", "dual", "sdo"):
            continue
        if not times and any(t in v for t in TIMES):
            continue
        if "tau" in v and b in ("sd", "sdo"):
            continue
        if b == "minjerk" and name not in (
                "1d", "7d", "9d", "rest", "part", "zero", "far", "long",
                "fine"):
            continue
        if b in ("state", "sd", "sdo") and set(v) & {"weights", "p_gain"}:
            continue
        if b in ("sd", "sdo") and set(v) & {"k", "gain", "gains"}:
            continue
        if b in ("cart",) and "p_gain" in v:
            continue
        yield "%s@%s" % (kind, name)


def n_vel(kind):
    return variant(kind).get("n", N_VEL[base(kind)])


def tau(kind, default=1.0):
    return variant(kind).get("tau", default)


def has_weights(kind):
    return base(kind) in ("dmp", "final", "cart", "dual")


def pos_blocks(kind):
    return {"cart": [slice(0, 3)], "dual": [slice(0, 3), slice(7, 10)],
            "sdo": []}.get(base(kind), [slice(0, n_vel(kind))])


def rot_blocks(kind):
    return {"cart": [slice(3, 7)], "dual": [slice(3, 7), slice(10, 14)],
            "sdo": [slice(0, 4)]}.get(base(kind), [])


def pose(kind, p, q):
    """A state of this kind from a vector kind and a rotation name."""
    b = base(kind)
    if b == "cart":
        return np.hstack((gen.vec(3, p), gen.quat(q)))
    if b == "dual":
        return np.hstack((gen.vec(3, p), gen.quat(q),
                          -gen.vec(3, p)[::-1],
                          ref.qapply([0.2, 0.5, -0.3], gen.quat(q))))
    if b == "sdo":
        return gen.quat(q)
    return gen.vec(n_vel(kind), p)


def start_goal(kind, start, goal):
    """Initial start and goal of this kind."""
    v = variant(kind)
    if v.get("start") == "zero":
        start = ("zero", "id")
    s, g = pose(kind, *start), pose(kind, *goal)
    if v.get("goal") == "start":
        g = s.copy()
    elif v.get("goal") == "part":
        for b in pos_blocks(kind) + rot_blocks(kind)[1:]:
            w = slice(b.start, b.start + 1) if b in pos_blocks(kind) else b
            g[w] = s[w]
    elif v.get("goal") == "far":
        for b in pos_blocks(kind):
            g[b] *= 400.0
    return s, g


def make(kind, tau=None, dt=None, int_dt=None, k=4, smooth=False,
         p_gain=0.0, weights="wave", gains="vec", start=("a", "gen"),
         goal=("c", "gen2"), startd="zero", scale=1.0, configure=True):
    b, v = base(kind), variant(kind)
    nv = n_vel(kind)
    tau = v.get("tau", 1.0) if tau is None else tau
    dt = v.get("dt", 0.0625) if dt is None else dt
    int_dt = v.get("int_dt", 0.015625) if int_dt is None else int_dt
    k, p_gain = v.get("k", k), v.get("p_gain", p_gain)
    weights = weights if weights == "zero" else v.get("weights", weights)
    gains, f = v.get("gains", gains), v.get("gain", 1.0)
    g = dict(alpha_y=f * np.array(gen.gain_list(nv, gains, 25.0)),
             beta_y=f * np.array(gen.gain_list(nv, gains, 6.25)))
    kw = dict(execution_time=tau, dt=dt, n_weights_per_dim=k, int_dt=int_dt)
    if b == "dmp":
        d = DMP(nv, smooth_scaling=smooth, p_gain=p_gain, **kw, **g)
    elif b == "final":
        d = DMPWithFinalVelocity(nv, p_gain=p_gain, **kw, **g)
    elif b == "cart":
        d = CartesianDMP(smooth_scaling=smooth, **kw, **g)
    elif b == "dual":
        d = DualCartesianDMP(smooth_scaling=smooth, p_gain=p_gain, **kw, **g)
    elif b == "state":
        d = StateFollowingDMP(nv, execution_time=tau, dt=dt, n_viapoints=k,
                              int_dt=int_dt, **g)
        d.forcing_term.viapoints[:] = gen.weights(nv, k, "wave", 1.0).T
    elif b == "sd":
        d = SpringDamper(nv, dt=dt, k=20.0, int_dt=int_dt)
    elif b == "sdo":
        d = SpringDamperOrientation(dt=dt, k=20.0, int_dt=int_dt)
    elif b == "minjerk":
        d = MinimumJerkTrajectory(nv, execution_time=tau, dt=dt)
    if has_weights(kind):
        d.set_weights(gen.weights(nv, k, weights, 50.0).ravel())
    if configure:
        s, g = start_goal(kind, start, goal)
        d.configure(start_y=s, goal_y=g, start_yd=scale * v.get(
            "startd", 1.0) * gen.vec(nv, startd, 0.5))
    return d


def step_kw(kind):
    b, i = base(kind), impl(kind)
    if b == "dmp":
        return {"step_function": i}
    if b == "cart":
        t = tables()[1]
        return {"quaternion_step_function": t[i]} if i in t else {}
    if b == "dual":
        t = dual_table()
        return {"step_function": t[i]} if i in t else {}
    return {}


def step(kind, d, y, yd, coupling=None):
    kw = step_kw(kind)
    if coupling is not None:
        kw["coupling_term"] = coupling
    return d.step(y, yd, **kw)


def rollout(kind, d, run_t=None, coupling=None):
    b, i = base(kind), impl(kind)
    kw = {}
    if b in ("dmp", "dual"):
        kw = {"step_function": i}
    elif b == "cart":
        kw = {"quaternion_step_function": i}
    if run_t is not None:
        kw["run_t"] = run_t
    if coupling is not None:
        kw["coupling_term"] = coupling
    return d.open_loop(**kw)


def has_rollout(kind):
    return base(kind) != "minjerk"


def perturb(kind, y, s=1.0):
    y = np.array(y)
    for b in pos_blocks(kind):
        y[b] += s * np.resize([0.05, -0.08, 0.03], b.stop - b.start)
    for b in rot_blocks(kind):
        y[b] = ref.qapply([0.05 * s, -0.1 * s, 0.07 * s], y[b])
    return y


def align(kind, y, want):
    y = np.array(y, dtype=float)
    for b in rot_blocks(kind):
        if np.dot(y[..., b].ravel(), want[..., b].ravel()) < 0:
            y[..., b] *= -1.0
    return y


def align_rows(kind, Y, W):
    return np.array([align(kind, y, w) for y, w in zip(Y, W)]) \
        if len(Y) == len(W) else np.asarray(Y)
