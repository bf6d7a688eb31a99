"""P04: compiled and pure-Python implementations are interchangeable."""
import math

import numpy as np

from . import core, gen, ref
from .p01 import coupling_of as dmp_coupling
from .p02 import Coupling as PoseCoupling, tables
from .p03 import table as dual_table
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, CouplingTermObstacleAvoidance2D,
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianPose)

PROPERTY = "P04"
ORACLE = ("the pure-Python variant of the same integrator (which P01-P03 "
          "compare with the reference model); trajectories must agree for "
          "every assignment of variants to steps")
ASSUMPTIONS = ["orientations are kept away from exact half turns",
               "steps end after the start of the movement",
               "a step has either a coupling term or a precomputed one"]
PAIRS = {"dmp-rk4": ("rk4", "rk4-cython"),
         "dmp-euler": ("euler", "euler-cython"),
         "cartesian": ("python", "cython"),
         "dual": ("python", "cython")}
CFG = {
    "tau": [1.0, 0.5, 2.0, 0.7],
    "dt": [0.0625, 0.03125, 0.05, 0.1],
    "int_dt": [0.015625, 0.0625, 0.5, 0.003],
    "k": [4, 2, 7],
    "p_gain": [0.0, 0.5, 2.0],
    "smooth": [False, True],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "weights": ["wave", "zero", "hot"],
    "coupling": ["none", "acc", "vel", "lib1", "lib2"],
    "feedback": ["exact", "perturbed", "negated"],
    "start": ["a", "b"],
    "startd": ["zero", "d"],
}
STEPS = 5
# calls of the step functions themselves, with times as an imitation or
# another primitive might use them
RAW = {
    "start": [0.0, 0.5, -1.0],
    "tau": [1.0, 0.5, 3.0],
    "times": [[0.25, 0.375], [0.0, 0.0625], [0.0, 0.5], [0.875, 1.25],
              [1.5, 1.625]],
    "int_dt": [0.015625, 0.0625, 0.25, 0.003],
    "smooth": [False, True],
    "pre": ["none", "acc", "vel"],
    "coupling": ["none", "acc", "vel"],
    "p_gain": [0.0, 0.5],
    "weights": ["wave", "zero"],
    "gains": ["vec", "default"],
    "goald": ["zero", "b"],
    "state": ["a", "start"],
}


def bounds(tier):
    return {"configurations": "at most %d deviations over %d options for each "
            "of %d integrator pairs" % (2 if tier == "quick" else 3, len(CFG),
                                        len(PAIRS)),
            "schedules": "all assignments of the two variants to %d steps "
            "(each option value switched on its own); first/last/alternating "
            "assignments for the remaining configurations" % STEPS,
            "functions": "at most %d deviations over %d arguments of the step "
            "functions of each pair" % (2 if tier == "quick" else 3,
                                        len(RAW)),
            "obstacles": "all combinations of positions, velocities and "
            "parameters of a finite grid"}


def cases(tier):
    for pair in PAIRS:
        for c in core.deviations(CFG, 2 if tier == "quick" else 3):
            if (c["p_gain"] or c["coupling"] in ("vel", "lib1", "lib2")) \
                    and not (gen.dyadic(c["dt"]) and gen.dyadic(c["int_dt"])):
                continue
            if c["p_gain"] and pair == "cartesian":
                continue
            dev = sum(c[n] != CFG[n][0] for n in CFG)
            yield {"pair": pair, "cfg": c, "all": dev <= 1}
        for c in core.deviations(RAW, 2 if tier == "quick" else 3):
            if "none" in (c["pre"], c["coupling"]):
                yield {"pair": pair, "raw": c}
    for p in core.product({"y": range(5), "yd": range(6), "obs": range(4),
                           "gamma": [1000.0, 10.0], "beta": [20 / math.pi,
                                                            1.0]}):
        yield {"pair": "obstacle", "cfg": p}


class DualCoupling:
    def __init__(self, velocity):
        self.v = 1.0 if velocity else 0.0

    def coupling(self, y, yd):
        y, yd = np.asarray(y), np.asarray(yd)
        r1, r2 = y[3] * y[4:7], y[10] * y[11:14]  # even in the quaternions
        cd = self.v * 0.01 * np.hstack((y[7:10], r2, y[:3], r1))
        cdd = np.hstack((y[7:10] + 1.0, r1, -y[:3], r2)) - 0.1 * yd
        return cd, cdd


def run(case, rec):
    if case["pair"] == "obstacle":
        obstacle(case["cfg"], rec)
        rec.traces += 1
        return
    if "raw" in case:
        raw(case["pair"], case["raw"], rec)
        rec.traces += 1
        return
    a, b = PAIRS[case["pair"]]
    if case["all"]:
        plans = [list(w) for w in core.words([a, b], STEPS)]
    else:
        plans = [[a] * STEPS, [b] * STEPS, [a, b] * 3, [b, a] * 3]
        plans = [p[:STEPS] for p in plans]
    want = execute(case, plans[0], rec)
    for p in plans[1:]:
        got = execute(case, p, rec)
        for i, (g, w) in enumerate(zip(got, want)):
            rec.close(aligned(g[0], w[0]), w[0], "position after step %d of %s" % (i, p),
                      atol=2e-7)
            rec.close(g[1], w[1], "velocity after step %d of %s" % (i, p),
                      atol=5e-6)
        rec.traces += 1
    roll = [rollout(case, v, rec) for v in (a, b)]
    rec.close(roll[0][0], roll[1][0], "times of rollout", atol=1e-12)
    rec.close(np.array([aligned(x, y) for x, y in zip(roll[1][1],
                                                      roll[0][1])]),
              roll[0][1], "positions of rollout", atol=1e-6)


def aligned(y, want):
    """Choose the sign of quaternions like in the expected pose."""
    if len(y) not in (7, 14) or len(y) != len(want):
        return y
    y = np.array(y)
    for k in range(3, len(y), 7):
        if np.dot(y[k:k + 4], want[k:k + 4]) < 0:
            y[k:k + 4] *= -1.0
    return y


def make(case):
    c = case["cfg"]
    pair = case["pair"]
    n = {"dmp-rk4": 3, "dmp-euler": 3, "cartesian": 6, "dual": 12}[pair]
    kw = dict(execution_time=c["tau"], dt=c["dt"], n_weights_per_dim=c["k"],
              int_dt=c["int_dt"], smooth_scaling=c["smooth"])
    for name, base in (("alpha", 25.0), ("beta", 6.25)):
        g = gen.gains(n, c[name], base)
        if g is not None:
            kw[name + "_y"] = g
    lib = c["coupling"]
    vel = lib == "vel"
    if pair.startswith("dmp"):
        two = lib.startswith("lib")
        m = 2 if two else 3
        for g in ("alpha_y", "beta_y"):
            if g in kw and not np.isscalar(kw[g]):
                kw[g] = kw[g][:m]
        d = DMP(m, p_gain=c["p_gain"], **kw)
        n = m
        y, g = gen.vec(m, c["start"]), gen.vec(m, "c", 2.0)
        if two:
            ct = CouplingTermObstacleAvoidance2D(
                np.array([0.4, 0.5]), fast=lib == "lib2")
        else:
            ct = dmp_coupling(lib)
    elif pair == "cartesian":
        d = CartesianDMP(**kw)
        y = np.hstack((gen.vec(3, c["start"]), gen.quat("gen")))
        g = np.hstack((gen.vec(3, "c", 2.0), gen.quat("gen2")))
        ct = None if lib == "none" else PoseCoupling(vel)
    else:
        d = DualCartesianDMP(p_gain=c["p_gain"], **kw)
        y = np.hstack((gen.vec(3, c["start"]), gen.quat("gen"),
                       gen.vec(3, "d"), gen.quat("x90")))
        g = np.hstack((gen.vec(3, "c", 2.0), gen.quat("gen2"),
                       gen.vec(3, "e", 2.0), gen.quat("gen3")))
        if lib == "none":
            ct = None
        elif lib == "lib1":
            ct = CouplingTermDualCartesianDistance(
                0.5, (1.0, 0.5), k=0.5, c1=0.02, c2=10.0)
        elif lib == "lib2":
            desired = np.eye(4)
            desired[:3, 3] = 0.2, -0.3, 0.1
            ct = CouplingTermDualCartesianPose(
                desired, (0.7, 1.0), k=0.5, c1=0.02, c2=10.0)
        else:
            ct = DualCoupling(vel)
    d.set_weights(gen.weights(n, c["k"], c["weights"], 50.0).ravel())
    nv = {"dmp-rk4": n, "dmp-euler": n, "cartesian": 6, "dual": 12}[pair]
    yd = gen.vec(nv, c["startd"], 0.5)
    d.configure(start_y=y.copy(), goal_y=g, start_yd=yd.copy())
    return d, y, yd, ct


def execute(case, plan, rec):
    d, y, yd, ct = make(case)
    pair = case["pair"]
    out = []
    for i, variant in enumerate(plan):
        if i % 2 and case["cfg"]["feedback"] != "exact":
            y = y.copy()
            neg = case["cfg"]["feedback"] == "negated"
            if pair.startswith("dmp"):
                y += 0.05
            else:
                for k in range(0, len(y), 7):
                    if neg:
                        y[k + 3:k + 7] *= -1.0
                    else:
                        y[k:k + 3] += 0.05
                        y[k + 3:k + 7] = ref.qapply([.05, -.1, .02],
                                                    y[k + 3:k + 7])
        if pair.startswith("dmp"):
            y, yd = d.step(y, yd, coupling_term=ct, step_function=variant)
        elif pair == "cartesian":
            t = tables()[1]
            kw = {"quaternion_step_function": t[variant]} \
                if variant in t else {}
            y, yd = d.step(y, yd, coupling_term=ct, **kw)
        else:
            t = dual_table()
            kw = {"step_function": t[variant]} if variant in t else {}
            y, yd = d.step(y, yd, coupling_term=ct, **kw)
        rec.call()
        rec.state(pair, np.round(y, 5), np.round(yd, 4), i)
        out.append((y, yd))
    return out


def rollout(case, variant, rec):
    d, _, _, ct = make(case)
    rec.call()
    run_t = 5.5 * case["cfg"]["dt"]
    if case["pair"] == "cartesian":
        return d.open_loop(run_t=run_t, coupling_term=ct,
                           quaternion_step_function=variant)
    return d.open_loop(run_t=run_t, coupling_term=ct, step_function=variant)


def obstacle(p, rec):
    y = np.array([[0.0, 0.0], [0.5, -0.3], [2.0, 1.0], [-1.0, 0.2],
                  [0.99, 1.0]][p["y"]])
    yd = np.array([[0.0, 0.0], [1.0, 1.0], [-1.0, 0.5], [0.0, 2.0],
                   [1e-3, 0.0], [-0.3, -0.3]][p["yd"]])
    obs = np.array([[1.0, 1.0], [0.0, 0.0], [-0.5, 0.7], [0.5, 0.5]][p["obs"]])
    out = []
    for fast in (False, True):
        ct = CouplingTermObstacleAvoidance2D(obs.copy(), gamma=p["gamma"],
                                             beta=p["beta"], fast=fast)
        out.append(ct.coupling(y.copy(), yd.copy()))
        rec.call()
    rec.state("obstacle", out[0][1])
    rec.close(out[1][0], out[0][0], "coupling velocity")
    rec.close(out[1][1], out[0][1], "coupling acceleration", atol=1e-6)


def raw(pair, c, rec):
    from movement_primitives.dmp._forcing_term import ForcingTerm
    table = {"dmp": tables()[0], "car": tables()[1],
             "dua": dual_table()}[pair[:3]]
    if any(v not in table for v in PAIRS[pair]):
        return
    nv = {"dmp": 3, "car": 3, "dua": 12}[pair[:3]]
    start_t, goal_t = c["start"], c["start"] + c["tau"]
    if pair == "dual":
        y = np.hstack((gen.vec(3, "a"), gen.quat("gen"), gen.vec(3, "d"),
                       gen.quat("x90")))
        s = np.hstack((gen.vec(3, "b"), gen.quat("gen3"), gen.vec(3, "e"),
                       gen.quat("gen")))
        g = np.hstack((gen.vec(3, "c"), gen.quat("gen2"), gen.vec(3, "b"),
                       gen.quat("gen3")))
        error = np.hstack((gen.vec(3, "e", 0.1), np.zeros(4),
                           gen.vec(3, "c", 0.1), np.zeros(4)))
    elif pair == "cartesian":
        y, s, g = gen.quat("gen"), gen.quat("gen3"), gen.quat("gen2")
    else:
        y, s, g = gen.vec(3, "a"), gen.vec(3, "b"), gen.vec(3, "c", 2.0)
        error = gen.vec(3, "e", 0.1)
    if c["state"] == "start":
        y = s.copy()
    gain = [np.array(gen.gain_list(nv, c["gains"], x)) for x in (25.0, 6.25)]
    kw = {"int_dt": c["int_dt"], "smooth_scaling": c["smooth"]}
    if c["p_gain"] and pair != "cartesian":
        kw.update(p_gain=c["p_gain"], tracking_error=error)
    if c["pre"] != "none" and pair != "dual":
        kw["coupling_term_precomputed"] = (
            gen.vec(nv, "d", 0.1) * (c["pre"] == "vel"), gen.vec(nv, "c"))
    vel = c["coupling"] == "vel"
    if c["coupling"] != "none":
        kw["coupling_term"] = DualCoupling(vel) if pair == "dual" else \
            RotCoupling(vel) if pair == "cartesian" else \
            dmp_coupling(c["coupling"])
    out = []
    for variant in PAIRS[pair]:
        ft = ForcingTerm(nv, 4, goal_t, start_t, 0.8, -math.log(0.01))
        ft.weights_[:, :] = gen.weights(nv, 4, c["weights"], 50.0)
        z, zd = y.copy(), gen.vec(nv, "d", 0.5)
        try:
            table[variant](
                start_t + c["times"][0], start_t + c["times"][1], z, zd,
                g.copy(), gen.vec(nv, c["goald"]), gen.vec(nv, c["goald"]),
                s.copy(), gen.vec(nv, "e", 0.1), gen.vec(nv, "e", 0.1),
                goal_t, start_t, gain[0].copy(), gain[1].copy(), ft, **kw)
        except TypeError:
            return  # other signature
        out.append((z, zd))
        rec.call()
        rec.state(pair, np.round(z, 5), np.round(zd, 4))
    (z, zd), (w, wd) = out
    if pair == "cartesian":
        z = z if z.dot(w) > 0 else -z
    else:
        z = aligned(z, w)
    rec.close(z, w, "position", atol=1e-9)
    rec.close(zd, wd, "velocity", atol=1e-7)


class RotCoupling:
    def __init__(self, velocity):
        self.v = 1.0 if velocity else 0.0

    def coupling(self, y, yd):
        r = np.asarray(y)[0] * np.asarray(y)[1:]
        return self.v * 0.02 * r, 3.0 * r[::-1] - 0.1 * np.asarray(yd)
