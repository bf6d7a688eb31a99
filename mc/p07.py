"""P07: DMP motions respect the symmetries of their equations."""
import itertools

import numpy as np

from . import core, gen, ref, prims
from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP)

PROPERTY = "P07"
ORACLE = ("the trajectory of the transformed problem is the transformed "
          "trajectory (offset, permutation, superposition, world rotation); "
          "bit-identical other dimensions when one dimension changes")
JOINT = ["dmp:rk4-cython", "dmp:euler-cython", "dmp:rk4", "dmp:euler", "final"]
POSE = ["cart:cython", "cart:python", "dual:cython", "dual:python"]
OFFSETS = [[1.0, 2.0, -3.0, 0.5], [100.0, 0.0, -7.0, 3.0],
           [-0.125, -0.125, -0.125, -0.125], [1e-3, 1e4, 0.0, 1.0]]
STEPS = 8
# execution time, step, integration step, number of weights, start
SETUPS = [(1.0, 0.0625, 0.015625, 4, "a"), (0.25, 0.015625, 0.0078125, 4, "a"),
          (24.0, 1.0, 0.125, 4, "a"), (1.0, 0.0625, 0.25, 4, "a"),
          (1.0, 0.0625, 0.015625, 2, "a"), (1.0, 0.0625, 0.015625, 25, "a"),
          (1.0, 0.125, 0.0625, 4, "zero"), (2.0, 0.0625, 0.015625, 4, "part")]


def octahedral():
    """The 24 rotations that map the axes onto each other."""
    group = [[1.0, 0, 0, 0]]
    gens = [list(gen.quat("x90")), list(gen.quat("y90"))]
    i = 0
    while i < len(group):
        for g in gens:
            q = ref.qnorm(ref.qmul(g, group[i]))
            if not any(abs(abs(sum(a * b for a, b in zip(q, h))) - 1) < 1e-9
                       for h in group):
                group.append(q)
        i += 1
    return group


def rotations(tier):
    extra = ["gen", "gen2", "-gen3"]
    return [list(q) for q in octahedral()] + [list(gen.quat(n)) for n in extra]


def bounds(tier):
    return {"permutations": "all of up to %d dimensions"
            % (3 if tier == "quick" else 4),
            "rotations": "the 24 axis rotations and 3 generic ones",
            "offsets": OFFSETS, "steps": STEPS,
            "setups": SETUPS}


def cases(tier):
    nmax = 3 if tier == "quick" else 4
    for kind in JOINT:
        for smooth in (False, True):
            for pg, x in [(0.0, 0), (0.5, 0), (2.0, 0)] + [
                    (0.5, i) for i in range(1, len(SETUPS))]:
                o = dict(kind=kind, smooth=smooth, p_gain=pg, setup=x)
                for n in range(1, 5):
                    for i in range(len(OFFSETS)):
                        yield dict(o, sym="offset", n=n, arg=i)
                for n in range(1, nmax + 1):
                    for p in itertools.permutations(range(n)):
                        yield dict(o, sym="permute", n=n, arg=list(p))
                for n in range(1, 4):
                    for i in range(4):
                        for rest in ("none", "first", "all", "goal0"):
                            yield dict(o, sym="superpose", n=n, arg=i,
                                       rest=rest)
                for n in range(2, 5):
                    for d in range(n):
                        for what in ("start", "goal", "weights", "alpha",
                                     "beta", "feedback", "velocity"):
                            yield dict(o, sym="one", n=n, arg=[d, what])
    for kind in POSE:
        for smooth, x in itertools.product((False, True),
                                           range(len(SETUPS))):
            for i in range(len(OFFSETS)):
                yield dict(kind=kind, smooth=smooth, sym="offset", arg=i,
                           setup=x)
            for i in range(len(rotations(tier))):
                if x and i % 4 and tier == "quick":
                    continue
                for sd in ("zero", "d"):
                    yield dict(kind=kind, smooth=smooth, sym="rotate", arg=i,
                               startd=sd, setup=x)


def problem(n, v=0, setup=0):
    k, a = SETUPS[setup][3:]
    a, b = [a, "b"][v], "cd"[v]
    return dict(start=gen.vec(n, a), goal=gen.vec(n, b, 2.0),
                weights=gen.weights(n, k, ["wave", "wave2"][v], 50.0),
                alpha=np.array(gen.gain_list(n, "vec", 25.0)),
                beta=np.array(gen.gain_list(n, "vec", 6.25)),
                startd=gen.vec(n, "ed"[v], 0.3), goald=gen.vec(n, "be"[v]),
                feedback=0.05 * gen.vec(n, "ce"[v]))


def trajectory(case, p, rec):
    n = len(p["start"])
    cls = DMP if case["kind"] != "final" else DMPWithFinalVelocity
    kw = {} if case["kind"] == "final" else {"smooth_scaling": case["smooth"]}
    tau, dt, int_dt, k, _ = SETUPS[case.get("setup", 0)]
    d = cls(n, execution_time=tau, dt=dt, int_dt=int_dt,
            n_weights_per_dim=k, p_gain=case["p_gain"], alpha_y=p["alpha"],
            beta_y=p["beta"], **kw)
    d.set_weights(p["weights"].ravel())
    d.configure(start_y=p["start"].copy(), goal_y=p["goal"].copy(),
                start_yd=p["startd"].copy())
    if case["kind"] == "final":
        d.configure(goal_yd=p["goald"].copy())
    T, R = prims.rollout(case["kind"], d, 7.5 * dt)
    y, yd = p["start"].copy(), p["startd"].copy()
    Y, V = [], []
    for i in range(STEPS):
        y, yd = prims.step(case["kind"], d,
                           y + p["feedback"] * (i % 3 == 1), yd)
        Y.append(y)
        V.append(yd)
        rec.state(case["kind"], y, yd)
    rec.call(STEPS + 1)
    return np.array(Y), np.array(V), R


def run(case, rec):
    if case["kind"] in POSE:
        pose_case(case, rec)
    else:
        joint_case(case, rec)
    rec.traces += 1


def joint_case(case, rec):
    n = case["n"]
    p = problem(n, setup=case.get("setup", 0))
    Y, V, R = trajectory(case, p, rec)
    sym = case["sym"]
    if sym == "offset":
        off = np.array(OFFSETS[case["arg"]][:n])
        q = dict(p, start=p["start"] + off, goal=p["goal"] + off)
        Z, W, S = trajectory(case, q, rec)
        compare(rec, (Z, W, S), (Y + off, V, R + off), "shifted by %s" % off)
    elif sym == "permute":
        i = case["arg"]
        q = {k: v[i] for k, v in p.items()}
        Z, W, S = trajectory(case, q, rec)
        compare(rec, (Z, W, S), (Y[:, i], V[:, i], R[:, i]),
                "permuted by %s" % i)
    elif sym == "superpose":
        s, t = [(1.0, 1.0), (2.0, 0.0), (-1.0, 0.5), (0.5, -3.0)][case["arg"]]
        u = problem(n, 1, case.get("setup", 0))
        # one of the superposed movements returns to its start
        if case["rest"] == "first":
            p["goal"][0] = p["start"][0]
        elif case["rest"] == "all":
            p["goal"] = p["start"].copy()
        elif case["rest"] == "goal0":
            p["goal"] = np.zeros(n)
        Y, V, R = trajectory(case, p, rec)
        q = dict(p)
        for k in ("start", "goal", "weights", "startd", "goald", "feedback"):
            q[k] = s * p[k] + t * u[k]
        Y2, V2, R2 = trajectory(case, u, rec)
        Z, W, S = trajectory(case, q, rec)
        compare(rec, (Z, W, S), (s * Y + t * Y2, s * V + t * V2,
                                 s * R + t * R2), "superposed %s" % [s, t])
    else:
        d, what = case["arg"]
        q = {k: v.copy() for k, v in p.items()}
        q[{"velocity": "startd"}.get(what, what)][d] *= 1.5
        Z, W, S = trajectory(case, q, rec)
        o = [i for i in range(n) if i != d]
        for a, b, name in ((Z, Y, "positions"), (W, V, "velocities"),
                           (S, R, "rollout")):
            rec.close(a[:, o], b[:, o], "%s of the other dimensions after "
                      "changing %s of dimension %d" % (name, what, d),
                      atol=1e-13, rtol=1e-13)


def compare(rec, got, want, what):
    for g, w, n in zip(got, want, ("positions", "velocities", "rollout")):
        rec.close(g, w, "%s, %s" % (n, what), atol=1e-7)


def pose_trajectory(case, start, goal, startd, W, rec):
    b = prims.base(case["kind"])
    cls = CartesianDMP if b == "cart" else DualCartesianDMP
    tau, dt, int_dt, k, _ = SETUPS[case.get("setup", 0)]
    d = cls(execution_time=tau, dt=dt, int_dt=int_dt,
            n_weights_per_dim=k, smooth_scaling=case["smooth"])
    d.set_weights(W.ravel())
    d.configure(start_y=start.copy(), goal_y=goal.copy(),
                start_yd=startd.copy())
    T, R = prims.rollout(case["kind"], d, 7.5 * dt)
    y, yd = start.copy(), startd.copy()
    Y, V = [], []
    for i in range(STEPS):
        y, yd = prims.step(case["kind"], d, y, yd)
        Y.append(y)
        V.append(yd)
        rec.state(case["kind"], y, yd)
    rec.call(STEPS + 1)
    return np.array(Y), np.array(V), R


def pose_case(case, rec):
    kind = case["kind"]
    nv = prims.N_VEL[prims.base(kind)]
    k, a = SETUPS[case.get("setup", 0)][3:]
    start, goal = prims.pose(kind, a, "gen"), prims.pose(kind, "c", "gen3")
    startd = gen.vec(nv, case.get("startd", "zero"), 0.3)
    W = gen.weights(nv, k, "wave", 30.0)
    Y, V, R = pose_trajectory(case, start, goal, startd, W, rec)
    if case["sym"] == "offset":
        off = np.zeros(len(start))
        for b in prims.pos_blocks(kind):
            off[b] = OFFSETS[case["arg"]][:3]
        Z, U, S = pose_trajectory(case, start + off, goal + off, startd, W,
                                  rec)
        rec.close(Z, Y + off, "poses, shifted", atol=1e-7)
        rec.close(U, V, "velocities, shifted", atol=1e-7)
        rec.close(S, R + off, "rollout, shifted", atol=1e-7)
        return
    q = rotations("x")[case["arg"]]

    def rp(y):
        y = np.array(y)
        for b in prims.pos_blocks(kind):
            y[b] = ref.qrot(q, y[b])
        for b in prims.rot_blocks(kind):
            y[b] = ref.qmul(q, y[b])
        return y

    def rv(v):
        v = np.array(v)
        for i in range(0, len(v), 3):
            v[i:i + 3] = ref.qrot(q, v[i:i + 3])
        return v
    W2 = np.array([rv(c) for c in W.T]).T
    Z, U, S = pose_trajectory(case, rp(start), rp(goal), rv(startd), W2, rec)
    E = np.array([rp(y) for y in Y])
    rec.close(prims.align_rows(kind, Z, E), E, "poses, rotated", atol=1e-6)
    E = np.array([rv(v) for v in V])
    rec.close(U, E, "velocities, rotated", atol=1e-5)
    E = np.array([rp(y) for y in R])
    rec.close(prims.align_rows(kind, S, E), E, "rollout, rotated", atol=1e-6)
