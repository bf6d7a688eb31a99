"""P10: imitation recovers the motion that was demonstrated."""
import math

import numpy as np

from . import core, gen, prims, ref
from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP)

PROPERTY = "P10"
ORACLE = ("independent computation of the required forces (finite "
          "differences, documented equation) and of the ridge-regularised "
          "least-squares fit; invariance relations; rollout versus "
          "demonstration")
KINDS = ["dmp", "final", "cart", "dual"]
SHAPES = ["minjerk", "sine", "bump", "hold", "return"]
CFG = {
    "kind": KINDS,
    "shape": SHAPES,
    "samples": [41, 21, 101],
    "duration": [1.0, 0.5, 2.0, 3.0],
    "t0": [0.0, 5.0, -2.0, 0.25],
    "uneven": [False, True],
    "k": [6, 2, 10],
    "reg": [0.0, 1e-3, 1.0],
    "final": [False, True],
    "smooth": [False, True],
    "gains": ["default", "vec"],
    "scale": [1.0, 10.0, 0.01],
    "offset": [0.0, 7.0],
    "tau": ["same", 1.0, 4.0],
    "flip": [False, True],
    "n": [3],
    "p_gain": [0.0],
}
WIDE = {
    "shape": ["line", "still", "rest"],
    "samples": [6, 301],
    "duration": [24.0, 0.05],
    "t0": [1000.0],
    "k": [3, 25],
    "reg": [1e-10, 100.0],
    "gains": ["soft", "stiff"],
    "scale": [1000.0, -1.0],
    "offset": [-300.0],
    "n": [1, 2, 7],
    "p_gain": [2.0],
}
HIST = ["S", "I", "X", "W", "G", "R", "O"]


def bounds(tier):
    return {"demonstrations": "at most %d deviations over %d options, "
            "2 over wider domains "
            "(full product of primitive, shape, scaling and final velocity)"
            % (2 if tier == "quick" else 3, len(CFG)),
            "histories": "all words of length 1..%d over %d operations before "
            "imitating" % (2 if tier == "quick" else 3, len(HIST)),
            "reproduction": "all shapes x primitives x durations x time "
            "shifts x scaling; all weight patterns for recovery"}


def ok(c):
    if c["kind"] == "final" and (c["smooth"] or c["final"]):
        return False
    if c.get("n", 3) != 3 and c["kind"] not in ("dmp", "final"):
        return False
    if c.get("p_gain") and c["kind"] == "cart":
        return False
    if c["flip"] and c["kind"] in ("dmp", "final"):
        return False
    return True


def cases(tier):
    for kind in KINDS:
        for c in core.widened({k: v for k, v in CFG.items() if k != "kind"},
                              WIDE, tier):
            c = dict(c, kind=kind)
            if ok(c):
                yield {"case": "fit", "cfg": c}
    for c in core.product({"kind": KINDS, "shape": SHAPES,
                           "smooth": [False, True], "final": [False, True],
                           "reg": [0.0, 1.0]}):
        c = dict({k: v[0] for k, v in CFG.items()}, **c)
        if ok(c):
            yield {"case": "fit", "cfg": c}
    for kind in KINDS:
        for w in core.words(HIST, 2 if tier == "quick" else 3, 1):
            yield {"case": "hist", "kind": kind, "word": w}
    for kind in KINDS:
        for shape in SHAPES:
            for smooth in (False, True):
                for dur in (1.0, 0.5, 2.0):
                    for t0 in (0.0, 5.0, -2.0):
                        c = dict({k: v[0] for k, v in CFG.items()}, kind=kind,
                                 shape=shape, smooth=smooth, duration=dur,
                                 t0=t0, samples=101, k=25)
                        if ok(c):
                            yield {"case": "reproduce", "cfg": c}
    for kind in KINDS:
        for w in ("wave", "wave2", "hot", "zero"):
            for smooth in (False, True):
                for dur in (1.0, 0.5, 2.0):
                    if kind == "final" and smooth:
                        continue
                    yield {"case": "recover", "kind": kind, "weights": w,
                           "smooth": smooth, "duration": dur}


def profile(shape, s):
    """Scalar profile on [0, 1] and a second one for other dimensions."""
    mj = s ** 3 * (10 - 15 * s + 6 * s ** 2)
    if shape == "minjerk":
        return mj, -0.5 * mj
    if shape == "sine":
        return mj + 0.3 * np.sin(2 * np.pi * s) * mj * (1 - mj) * 4, \
            np.sin(1.5 * np.pi * mj)
    if shape == "bump":
        return mj + 32.0 * (s * (1 - s)) ** 3, mj ** 2
    if shape == "hold":
        h = np.clip(2 * s, 0, 1)
        return h ** 3 * (10 - 15 * h + 6 * h ** 2), \
            0.7 * h ** 3 * (10 - 15 * h + 6 * h ** 2)
    if shape == "line":
        return s, 0.3 * s
    if shape == "still":
        return 0.0 * s, 0.0 * s
    if shape == "rest":
        return 0.0 * s, mj
    return 16 * (s * (1 - s)) ** 2, 0.5 * mj  # returns to the start


def demo(c):
    s = np.linspace(0.0, 1.0, c["samples"])
    if c["uneven"]:
        s = 0.7 * s + 0.3 * s ** 2
    T = c["t0"] + c["duration"] * s
    p, q = profile(c["shape"], s)
    kind = c["kind"]

    def pos(j):
        return np.column_stack([
            c["scale"] * ((1 + 0.3 * i) * p + (0.5 - 0.4 * i + 0.2 * j) * q)
            + c["offset"] - 0.1 * i + j
            for i in range(c.get("n", 3))])

    def rot(j):
        base = gen.quat(["gen", "x90"][j])
        v = np.column_stack([0.9 * p + 0.1 * j * q, -0.5 * q, 0.4 * p * q])
        Q = np.array([ref.qapply(list(x), base) for x in v])
        if c["flip"]:
            Q[len(Q) // 3:] *= -1.0
        return Q
    if kind in ("dmp", "final"):
        return T, pos(0)
    if kind == "cart":
        return T, np.hstack((pos(0), rot(0)))
    return T, np.hstack((pos(0), rot(0), pos(1), rot(1)))


def n_dims(c):
    return {"cart": 6, "dual": 12}.get(c["kind"], c.get("n", 3))


def make(c, tau=None, dt=None, int_dt=None):
    kind = c["kind"]
    nv = n_dims(c)
    if tau is None:
        tau = c["duration"] if c["tau"] == "same" else c["tau"]
    kw = dict(execution_time=tau, n_weights_per_dim=c["k"],
              alpha_y=np.array(gen.gain_list(nv, c["gains"], 25.0)),
              beta_y=np.array(gen.gain_list(nv, c["gains"], 6.25)))
    if dt:
        kw.update(dt=dt, int_dt=int_dt)
    if c.get("p_gain"):
        kw["p_gain"] = c["p_gain"]
    if kind == "dmp":
        return DMP(nv, smooth_scaling=c["smooth"], **kw)
    if kind == "final":
        return DMPWithFinalVelocity(nv, **kw)
    cls = CartesianDMP if kind == "cart" else DualCartesianDMP
    return cls(smooth_scaling=c["smooth"], **kw)


def imitate(d, c, T, Y, rec):
    kw = {"regularization_coefficient": c["reg"]}
    if c["kind"] != "final":
        kw["allow_final_velocity"] = c["final"]
    d.imitate(T.copy(), Y.copy(), **kw)
    rec.call()


# -- reference -------------------------------------------------------------
def gradient(x):
    """Central differences, one-sided at the ends."""
    x = [float(v) for v in x]
    n = len(x)
    return ([x[1] - x[0]] + [(x[i + 1] - x[i - 1]) / 2.0
                             for i in range(1, n - 1)] + [x[-1] - x[-2]])


def forces(T, Y, alpha, beta, c, kind):
    """Forces that the documented dynamics need, (n_steps, m), boundaries."""
    n = len(T)
    m = 3 if kind == "rot" else Y.shape[1]
    tau = T[-1] - T[0]
    F = np.empty((n, m))
    if kind == "final":
        T = T - T[0]
        V, A = np.zeros((n, m)), np.zeros((n, m))
        for d in range(m):
            for i in range(1, n):
                V[i, d] = (Y[i, d] - Y[i - 1, d]) / (T[i] - T[i - 1])
            for i in range(1, n):
                A[i, d] = (V[i, d] - V[i - 1, d]) / (T[i] - T[i - 1])
            poly = ref.quintic(T[0], T[-1], Y[0, d], V[0, d], A[0, d],
                               Y[-1, d], V[-1, d], A[-1, d])
            for i in range(n):
                g, gd, gdd = ref.quintic_at(poly, T[i])
                F[i, d] = tau ** 2 * (A[i, d] - gdd) - alpha[d] * (
                    beta[d] * (g - Y[i, d]) + tau * (gd - V[i, d]))
        return F, V[0], V[-1]
    DT = gradient(T)
    V, A, E, S = (np.empty((n, m)) for _ in range(4))
    if kind == "rot":
        for i in range(n):
            lo, hi = max(i - 1, 0), min(i + 1, n - 1)
            V[i] = np.array(ref.qdiff(Y[hi], Y[lo])) / (hi - lo) / DT[i]
            E[i] = ref.qdiff(Y[-1], Y[i])
        span = np.array(ref.qdiff(Y[-1], Y[0]))
    else:
        for d in range(m):
            V[:, d] = np.array(gradient(Y[:, d])) / DT
        E = Y[-1] - Y
        span = Y[-1] - Y[0]
    if not c["final"]:
        V[-1] = 0.0
    for d in range(m):
        A[:, d] = np.array(gradient(V[:, d])) / DT
    A[-1] = 0.0
    for i in range(n):
        z = ref.phase(T[i], tau, start=T[0])
        for d in range(m):
            sm = beta[d] * span[d] * z if c["smooth"] else 0.0
            F[i, d] = tau ** 2 * A[i, d] - alpha[d] * (
                beta[d] * E[i, d] - tau * V[i, d] - sm)
    return F, V[0], V[-1]


def fit(T, F, k, reg):
    """Ridge fit; returns design matrix and weights (3, k)."""
    tau = T[-1] - T[0]
    b = ref.Forcing([[0.0] * k], tau)
    X = np.array([[ref.phase(t, tau, start=T[0]) * p for p in
                   b.psi(ref.phase(t, tau, start=T[0]))] for t in T])
    A = np.vstack((X, math.sqrt(reg) * np.eye(k)))
    B = np.vstack((F, np.zeros((k, F.shape[1]))))
    W = np.linalg.lstsq(A, B, rcond=None)[0].T
    return X, W


def expected(c, T, Y):
    nv = n_dims(c)
    al = gen.gain_list(nv, c["gains"], 25.0)
    be = gen.gain_list(nv, c["gains"], 6.25)
    out = []
    blocks = [("pos", 0)]
    if c["kind"] == "final":
        blocks = [("final", 0)]
    elif c["kind"] == "cart":
        blocks = [("pos", 0), ("rot", 3)]
    elif c["kind"] == "dual":
        blocks = [("pos", 0), ("rot", 3), ("pos", 7), ("rot", 10)]
    m = c.get("n", 3)
    for i, (kind, o) in enumerate(blocks):
        n = 4 if kind == "rot" else m
        F, v0, v1 = forces(T, Y[:, o:o + n], al[m * i:m * i + m],
                           be[m * i:m * i + m], c, kind)
        X, W = fit(T, F, c["k"], c["reg"])
        out.append((kind, X, W, F, v0, v1))
    return out


# -- checks ----------------------------------------------------------------
def run(case, rec):
    {"fit": run_fit, "hist": run_hist, "reproduce": run_reproduce,
     "recover": run_recover}[case["case"]](case, rec)
    rec.traces += 1


def run_fit(case, rec):
    c = case["cfg"]
    T, Y = demo(c)
    d = make(c)
    imitate(d, c, T, Y, rec)
    rec.close(d.start_y, Y[0], "start after imitation", atol=1e-12)
    rec.close(d.goal_y, Y[-1], "goal after imitation", atol=1e-12)
    W = np.array(d.get_weights()).reshape(-1, c["k"])
    rec.state(c["kind"], W)
    for i, (kind, X, R, F, v0, v1) in enumerate(expected(c, T, Y)):
        w = W[3 * i:3 * i + 3] if len(W) % 3 == 0 else W
        # differences of positions are as accurate as the positions
        size = max(1e-5 * float(np.max(np.abs(Y))), 1e-6,
                   float(np.max(np.abs(F))))
        tol = 1e-4 if kind == "rot" else 1e-6
        rec.close(X.dot(w.T) / size, X.dot(R.T) / size,
                  "fitted forces of block %d (%s)" % (i, kind), atol=tol)
        if kind == "final":
            rec.close(d.goal_yd, v1, "goal velocity after imitation",
                      atol=1e-9)
            rec.close(d.start_yd, v0, "start velocity after imitation",
                      atol=1e-9)


def run_hist(case, rec):
    kind = case["kind"]
    c = dict({k: v[0] for k, v in CFG.items()}, kind=kind, shape="sine")
    T, Y = demo(c)
    d, f = make(c), make(c)
    for i, o in enumerate(case["word"]):
        if o == "S":
            d.step(np.array(d.start_y, dtype=float),
                   np.zeros(len(d.start_yd)))
        elif o == "I":
            imitate(d, c, *demo(dict(c, shape="bump", t0=1.0, scale=3.0)),
                    rec=rec)
        elif o == "X":
            d.execution_time_ = 2.0 + i
        elif o == "W":
            d.set_weights(gen.weights(len(d.get_weights()), 1,
                                      "wave").ravel())
        elif o == "G":
            d.configure(start_y=prims.pose(kind, "b", "gen3"),
                        goal_y=prims.pose(kind, "d", "y90"))
        elif o == "R":
            d.reset()
        elif o == "O":
            d.open_loop(run_t=0.1)
        rec.call()
    if "X" in case["word"]:
        f.execution_time_ = d.execution_time_
    imitate(d, c, T, Y, rec)
    imitate(f, c, T, Y, rec)
    rec.close(d.get_weights(), f.get_weights(), "weights after history",
              atol=1e-9, rtol=1e-9)
    rec.close(d.start_y, f.start_y, "start", atol=0)
    rec.close(d.goal_y, f.goal_y, "goal", atol=0)
    if kind == "final":
        for n in ("start_yd", "goal_yd", "goal_ydd"):
            rec.close(getattr(d, n), getattr(f, n), n, atol=1e-12)
    A, B = d.open_loop(run_t=0.3)[1], f.open_loop(run_t=0.3)[1]
    rec.close(A, B, "rollout after history", atol=1e-9)
    rec.state(kind, B[-1])


def distance(kind, Y, Z):
    """Largest deviation, positions and rotation angles."""
    n = min(len(Y), len(Z))
    e = 0.0
    for b in prims.pos_blocks(kind):
        e = max(e, float(np.max(np.abs(Y[:n, b] - Z[:n, b]))))
    r = 0.0
    for b in prims.rot_blocks(kind):
        for i in range(n):
            r = max(r, math.sqrt(sum(x * x for x in
                                     ref.qdiff(Y[i, b], Z[i, b]))))
    return e, r


TOL = 0.05


def run_reproduce(case, rec):
    c = case["cfg"]
    T, Y = demo(c)
    dt = T[1] - T[0]
    d = make(c, dt=dt, int_dt=dt / 4)
    imitate(d, c, T, Y, rec)
    TT, R = d.open_loop()
    rec.call()
    e, r = distance(c["kind"], R, Y)
    rec.state(c["kind"], R[-1])
    size = float(np.max(np.ptp(Y[:, :3], axis=0)))
    rec.ok(e < TOL * size and r < 0.05,
           "rollout deviates from the demonstration by %g (range %g) and %g "
           "rad" % (e, size, r))


def run_recover(case, rec):
    kind, dur = case["kind"], case["duration"]
    nv = {"dmp": 3, "final": 3, "cart": 6, "dual": 12}[kind]
    c = dict({k: v[0] for k, v in CFG.items()}, kind=kind, k=8,
             smooth=case["smooth"], duration=dur)
    a = make(c, dt=dur / 100, int_dt=dur / 400)
    W = gen.weights(nv, 8, case["weights"], 60.0)
    a.set_weights(W.ravel())
    a.configure(start_y=prims.pose(kind, "a", "gen"),
                goal_y=prims.pose(kind, "c", "gen2"))
    T, Y = a.open_loop()
    b = make(c, dt=dur / 100, int_dt=dur / 400)
    imitate(b, c, T, Y, rec)
    # imitation takes the end point of the motion as goal
    T2, Z = b.open_loop()
    rec.call(2)
    e, r = distance(kind, Z, Y)
    rec.state(kind, Z[-1])
    size = float(np.max(np.ptp(Y[:, :3], axis=0)))
    rec.ok(e < 0.06 * size and r < 0.09, "recovered motion deviates by %g "
           "(range %g) and %g rad" % (e, size, r))
