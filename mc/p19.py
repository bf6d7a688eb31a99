"""P19: obstacle avoidance steers away from the obstacle consistently."""
import itertools
import math

import numpy as np

from . import gen
from movement_primitives.dmp import (
    DMP, CouplingTermObstacleAvoidance2D, CouplingTermObstacleAvoidance3D,
    obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d)

PROPERTY = "P19"
ORACLE = ("independent closed form (magnitude and quarter turn of the "
          "velocity), perpendicularity, turning away, symmetry group "
          "equivariance; agreement of planar, batched, compiled and spatial "
          "variants and of executions with them")
ANGLES = 16
SPEEDS = [1.0, 0.01, 30.0, 0.0]
DISTS = [0.5, 1e-3, 20.0]
PARAMS = [(1000.0, 20.0 / math.pi), (10.0, 1.0), (1.0, 3.0), (-5.0, 2.0),
          (5000.0, 12.0)]
# 24 rotations and 24 mirrored: signed permutation matrices
SIGNED = [np.array([[s[i] if p[i] == j else 0.0 for j in range(3)]
                    for i in range(3)])
          for p in itertools.permutations(range(3))
          for s in itertools.product((1.0, -1.0), repeat=3)]
POINTS3 = [(0.3, 0.1, -0.4), (1.0, 0.0, 0.0), (-0.2, 0.9, 0.5),
           (0.0, 0.0, 2.0), (0.7, -0.7, 0.1), (0.0, 0.0, 0.0),
           (40.0, -30.0, 10.0)]
GRID2 = list(itertools.product((0.0, 1.5, -40.0), repeat=2))
VELS3 = [(0.5, 0.2, 0.1), (0.0, 1.0, 0.0), (-0.3, -0.4, 0.8), (2.0, 0.0, 0.0),
         (0.0, -50.0, 60.0)]


def bounds(tier):
    return {"planar": "all of %d directions of the obstacle x %d of the "
            "velocity x %d speeds x %d distances x %d parameters"
            % (na(tier), na(tier), len(SPEEDS), len(DISTS), len(PARAMS)),
            "spatial": "%d positions x %d velocities x %d obstacles x 48 "
            "signed permutations" % (len(POINTS3), len(VELS3), len(POINTS3)),
            "grid": "%d positions x %d velocities x %d obstacles" % (
                (len(GRID2),) * 3),
            "straight": "directions and magnitudes of exactly straight "
            "approaches", "executions": "rollouts of DMPs with all variants"}


def na(tier):
    return ANGLES if tier == "quick" else 48


def cases(tier):
    n = na(tier)
    for i, j in itertools.product(range(n), range(n)):
        for p in range(len(PARAMS)):
            yield {"case": "plane", "n": n, "i": i, "j": j, "p": p}
    for a, v, o in itertools.product(GRID2, GRID2, GRID2):
        if a != o:
            yield {"case": "grid", "y": a, "v": v, "o": o}
    for a, v, o in itertools.product(POINTS3, VELS3, POINTS3):
        if a != o:
            yield {"case": "space", "y": a, "v": v, "o": o}
    for i in range(n):
        for s in (1e-3, 1.0, 100.0, 1e4, 1e6):
            for sign in (1.0, -1.0):
                yield {"case": "straight", "a": 0.1 + 6.283 * i / n, "s": s,
                       "sign": sign}
    for n_batch in range(1, 6):
        for p in range(len(PARAMS)):
            yield {"case": "batch", "n": n_batch, "p": p}
    for o in itertools.product((0.3, 0.55, 0.8), (0.3, 0.5, 0.8)):
        for step in ("rk4-cython", "euler-cython", "rk4", "euler"):
            yield {"case": "run", "o": list(o), "step": step}


def law(y, v, o, gamma, beta):
    d = [b - a for a, b in zip(y, o)]
    nd = math.sqrt(sum(x * x for x in d))
    nv = math.sqrt(sum(x * x for x in v))
    c = sum(a * b for a, b in zip(d, v)) / (nd * nv + 1e-10)
    theta = math.acos(max(-1.0, min(1.0, c)))
    return theta, gamma * nv * theta * math.exp(-beta * theta), d, nd, nv


def variants(y, v, o, gamma, beta):
    """All ways to compute the planar acceleration."""
    y, v, o = (np.array(x, dtype=float) for x in (y, v, o))
    yield "planar", obstacle_avoidance_acceleration_2d(
        y.copy(), v.copy(), o.copy(), gamma, beta)
    for fast in (False, True):
        t = CouplingTermObstacleAvoidance2D(o.copy(), gamma=gamma, beta=beta,
                                            fast=fast)
        cd, cdd = t.coupling(y.copy(), v.copy())
        yield "velocity of coupling term", cd
        yield "coupling term fast=%s" % fast, cdd
    z = np.append(y, 0.3), np.append(v, 0.0), np.append(o, 0.3)
    a = obstacle_avoidance_acceleration_3d(
        z[0].copy(), z[1].copy(), z[2].copy(), gamma, beta)
    yield "third component", a[2:]
    yield "spatial", a[:2]
    t = CouplingTermObstacleAvoidance3D(z[2].copy(), gamma=gamma, beta=beta)
    cd, cdd = t.coupling(z[0].copy(), z[1].copy())
    yield "velocity of coupling term", cd
    yield "spatial coupling term", cdd[:2]


def run(case, rec):
    globals()["run_" + case["case"]](case, rec)
    rec.traces += 1


def run_plane(case, rec):
    gamma, beta = PARAMS[case["p"]]
    a = 2 * math.pi * case["i"] / case["n"] + 0.05
    b = 2 * math.pi * case["j"] / case["n"] + 0.05 + 0.01
    y = [0.4, -0.3]
    base = None
    for dist, speed in itertools.product(DISTS, SPEEDS):
        o = [y[0] + dist * math.cos(a), y[1] + dist * math.sin(a)]
        v = [speed * math.cos(b), speed * math.sin(b)]
        theta, mag, d, nd, nv = law(y, v, o, gamma, beta)
        # turn the velocity by a quarter away from the obstacle
        cross = d[0] * v[1] - d[1] * v[0]
        s = 1.0 if cross > 0 else -1.0
        want = np.array([-s * v[1], s * v[0]]) / (nv or 1.0) * mag
        size = abs(mag) + 1e-9
        for name, got in variants(y, v, o, gamma, beta):
            got = np.asarray(got)
            rec.call()
            if name.startswith("velocity") or name.startswith("third"):
                rec.close(got, 0 * got, name, atol=1e-9 * max(1.0, size))
                continue
            rec.close(got / size, want / size, name, atol=1e-6)
            rec.close(np.dot(got, v) / size / (nv or 1.0), 0.0,
                      name + ": perpendicular", atol=1e-6)
            if gamma > 0 and speed > 0:
                rec.ok(np.dot(got, d) <= 1e-9 * size * nd,
                       name + " points towards the obstacle")
        if speed == 1.0:
            if base is not None:
                rec.close(want / size, base, "distance dependence", atol=1e-5)
            base = want / size
        rec.state(want)


def run_grid(case, rec):
    y, v, o = case["y"], case["v"], case["o"]
    for gamma, beta in PARAMS:
        theta, mag, d, nd, nv = law(y, v, o, gamma, beta)
        cross = d[0] * v[1] - d[1] * v[0]
        s = 1.0 if cross > 0 else -1.0
        want = np.array([-s * v[1], s * v[0]]) / (nv or 1.0) * mag
        size = abs(mag) + 1e-9
        for name, got in variants(y, v, o, gamma, beta):
            got = np.asarray(got)
            rec.call()
            if name.startswith(("velocity", "third")):
                rec.close(got, 0 * got, name, atol=1e-9 * max(1.0, size))
            elif abs(cross) < 1e-9 * nd * nv or not nv:
                rec.ok(np.all(np.isfinite(got)), name + " is not finite")
                rec.ok(np.linalg.norm(got)
                       <= 1.001 * abs(mag) + 1e-4 * abs(gamma) * nv + 1e-9,
                       name + " exceeds the magnitude of the law")
            else:
                rec.close(got / size, want / size, name, atol=1e-6)
        rec.state(want)


def run_space(case, rec):
    y, v, o = (np.array(case[k]) for k in "yvo")
    for gamma, beta in PARAMS:
        theta, mag, d, nd, nv = law(y, v, o, gamma, beta)
        a = obstacle_avoidance_acceleration_3d(y.copy(), v.copy(), o.copy(),
                                               gamma, beta)
        rec.call()
        n = np.cross(d, v)
        if np.linalg.norm(n) < 1e-9:
            rec.ok(np.all(np.isfinite(a)), "not finite")
            continue
        n = n / np.linalg.norm(n)
        want = np.cross(n, v) / nv * mag  # quarter turn about n
        size = abs(mag) + 1e-12
        rec.close(a / size, want / size, "acceleration", atol=1e-6)
        rec.close(np.dot(a, v) / size, 0.0, "perpendicular", atol=1e-6)
        rec.state(a)
        for M in SIGNED:
            b = obstacle_avoidance_acceleration_3d(
                M.dot(y), M.dot(v), M.dot(o), gamma, beta)
            rec.close(b / size, M.dot(a) / size, "transformed", atol=1e-6)
            rec.call()
        s = np.array([3.0, -1.0, 2.0])
        b = obstacle_avoidance_acceleration_3d(y + s, v, o + s, gamma, beta)
        rec.close(b / size, a / size, "translated", atol=1e-6)


def run_straight(case, rec):
    """Heading exactly to or from the obstacle: finite and negligible."""
    e = np.array([math.cos(case["a"]), math.sin(case["a"])])
    s = case["s"]
    y = np.zeros(2)
    for ratio in (1.0, 0.7, 3.0):
        for name, got in variants(y, case["sign"] * ratio * s * e, s * e,
                                  1000.0, 20.0 / math.pi):
            rec.ok(np.all(np.isfinite(got)), "%s is not finite" % name)
            # almost zero: steering starts from zero angle
            rec.ok(np.linalg.norm(got) <= 1e-4 * 1000 * ratio * s + 1e-9
                   or s < 1e-2, "%s is large: %s" % (name, got))
            rec.call()
    rec.state(e, str(s))


def run_batch(case, rec):
    gamma, beta = PARAMS[case["p"]]
    n = case["n"]
    Y = np.array([gen.vec(2, "abcde"[i % 5]) for i in range(n)])
    V = np.array([gen.vec(2, "bcdea"[i % 5], 2.0) for i in range(n)])
    o = np.array([0.2, 0.35])
    one = np.array([obstacle_avoidance_acceleration_2d(
        Y[i], V[i], o, gamma, beta) for i in range(n)])
    size = max(1e-12, float(np.max(np.abs(one))))
    A = obstacle_avoidance_acceleration_2d(Y.copy(), V.copy(), o, gamma, beta)
    rec.close(np.reshape(A, (n, 2)) / size, one / size, "batch", atol=1e-9)
    G = np.array([Y] * 3)
    W = np.array([V] * 3)
    A = obstacle_avoidance_acceleration_2d(G, W, o, gamma, beta)
    rec.close(np.reshape(A, (3, n, 2)) / size, np.array([one] * 3) / size,
              "grid", atol=1e-9)
    rec.call(n + 2)
    rec.state(one)
    f = obstacle_avoidance_acceleration_3d
    o = np.array([0.2, 0.35, -0.4])
    Y = np.array([gen.vec(3, "abcde"[i % 5]) for i in range(n)])
    V = np.array([gen.vec(3, "bcdea"[i % 5], 2.0) for i in range(n)])
    for rest in range(-1, n):  # one of them at rest
        if rest >= 0:
            V[rest] = 0.0
        one = np.array([f(Y[i], V[i], o, gamma, beta) for i in range(n)])
        size = max(1e-12, float(np.max(np.abs(one))))
        A = f(Y.copy(), V.copy(), o, gamma, beta)
        rec.close(np.reshape(A, (n, 3)) / size, one / size, "spatial batch",
                  atol=1e-9)
        A = f(np.array([Y] * 3), np.array([V] * 3), o, gamma, beta)
        rec.close(np.reshape(A, (3, n, 3)) / size, np.array([one] * 3) / size,
                  "spatial grid", atol=1e-9)
        rec.call(n + 2)


def run_run(case, rec):
    """Executions with the planar, compiled and spatial terms agree."""
    o = np.array(case["o"])

    def go(n, term):
        d = DMP(n, dt=0.0625, n_weights_per_dim=4, int_dt=0.015625)
        s, g = np.zeros(n), np.zeros(n)
        g[:2] = [1.0, 1.1]
        s[1] = 0.05
        d.configure(start_y=s, goal_y=g)
        kw = {} if term is None else {"coupling_term": term}
        rec.call()
        return d.open_loop(step_function=case["step"], **kw)[1]
    P = go(2, CouplingTermObstacleAvoidance2D(o.copy()))
    F = go(2, CouplingTermObstacleAvoidance2D(o.copy(), fast=True))
    S = go(3, CouplingTermObstacleAvoidance3D(np.append(o, 0.0)))
    U = go(2, None)
    rec.close(F, P, "compiled execution", atol=1e-8)
    rec.close(S[:, :2], P, "spatial execution", atol=1e-8)
    rec.close(S[:, 2], np.zeros(len(S)), "third component", atol=1e-9)
    near = np.min(np.linalg.norm(P - o, axis=1))
    rec.ok(near >= np.min(np.linalg.norm(U - o, axis=1)) - 1e-3,
           "passes closer to the obstacle than without avoidance")
    rec.state(P[-1])
