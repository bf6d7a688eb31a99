"""P23: state-following DMP and its viapoints."""
import itertools

import numpy as np

from . import core, gen, ref
from .p01 import as_ref, coupling_of
from movement_primitives.dmp import StateFollowingDMP

PROPERTY = "P23"
ORACLE = ("reference model of the documented dynamics (mc/ref.py) after every "
          "call; activations non-negative, summing to one, the "
          "dominating viapoint advancing; symmetry: affine maps of all points commute with "
          "execution; settling point")
ASSUMPTIONS = ["with velocity coupling, step sizes are dyadic"]
CFG = {
    "n": [2, 1, 3, 6],
    "tau": [1.0, 0.5, 2.0, 0.7, 24.0],
    "dt": [0.0625, 0.015625, 0.1, 0.3],
    "int_dt": [0.0078125, 0.0625, 0.5, 0.003],
    "k": [4, 1, 2, 3, 10],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "via": ["wave", "line", "zero", "zigzag"],
    "start": ["a", "zero", "first"],
    "startd": ["zero", "d"],
    "coupling": ["none", "acc", "vel"],
    "feedback": ["exact", "perturbed"],
}
WIDE = {
    "n": [7, 9],
    "tau": [0.0625, 0.03],
    "dt": [1.0, 0.00390625],
    "int_dt": [0.001953125, 2.0],
    "k": [5, 25],
    "alpha": ["soft", "stiff"],
    "beta": ["soft", "stiff"],
    "via": ["far"],
    "start": ["part", "big"],
    "startd": ["part", "big"],
}
OPS = ["S", "P", "Q", "B", "V", "G", "T", "W", "D", "R", "O"]
BASE = {k: v[0] for k, v in CFG.items()}
BASE.update(int_dt=0.03125, k=3, alpha="vec", beta="vec", startd="d")


def bounds(tier):
    return {"configurations": "at most 2 deviations over %d options%s"
            % (len(CFG), "" if tier == "quick"
               else ", 3 over the narrower domains"),
            "histories": "all words of length %d over %d operations"
            % (3 if tier == "quick" else 4, len(OPS)),
            "viapoints": "all sequences of up to %d viapoints from a set of "
            "three points" % (4 if tier == "quick" else 6)}


def cases(tier):
    for c in core.widened(CFG, WIDE, tier):
        if c["dt"] > c["tau"]:
            continue
        if c["coupling"] == "vel" and not (
                gen.dyadic(c["dt"]) and gen.dyadic(c["int_dt"])):
            continue
        yield {"kind": "cfg", "cfg": c}
    for w in core.words(OPS, 3 if tier == "quick" else 4):
        yield {"kind": "hist", "word": w}
    for k in range(1, 5 if tier == "quick" else 7):
        for v in itertools.product((0.0, 1.0, -1.5), repeat=k):
            for tau in (1.0, 2.0):
                yield {"kind": "via", "via": v, "tau": tau}
    for k in (20, 120, 300):
        for tau in (1.0, 2.0):
            yield {"kind": "via", "via": [i / (k - 1.0) for i in range(k)],
                   "tau": tau}


def viapoints(n, k, kind):
    if kind == "zero":
        return np.zeros((k, n))
    if kind == "far":
        return gen.weights(n, k, "wave").T * 5.0
    if kind == "wave":
        return gen.weights(n, k, "wave").T / 50.0
    i = np.arange(k)[:, np.newaxis] + 1.0
    d = np.arange(n)[np.newaxis] + 1.0
    if kind == "line":
        return i * d / k
    return (-1.0) ** (i + d) * d


class Pair:
    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        n = c["n"]
        kw = {}
        for name, base in (("alpha", 25.0), ("beta", 6.25)):
            g = gen.gains(n, c[name], base)
            if g is not None:
                kw[name + "_y"] = g
        self.impl = StateFollowingDMP(
            n, c["tau"], dt=c["dt"], n_viapoints=c["k"], int_dt=c["int_dt"],
            **kw)
        v = viapoints(n, c["k"], c["via"])
        self.ref = ref.ViapointDMP(n, c["tau"], c["dt"], c["k"], c["int_dt"],
                                   gen.gain_list(n, c["alpha"], 25.0),
                                   gen.gain_list(n, c["beta"], 6.25), v)
        self.impl.forcing_term.viapoints[:] = v
        self.start = v[0].copy() if c["start"] == "first" else gen.vec(
            n, c["start"])
        self.startd = gen.vec(n, c["startd"])
        self.impl.configure(start_y=self.start.copy(),
                            start_yd=self.startd.copy())
        self.ct = coupling_of(c["coupling"])
        self.y, self.yd = self.start.copy(), self.startd.copy()
        rec.call(2)

    def step(self, dy=0.0, dyd=0.0):
        y0, yd0 = self.y + dy, self.yd + dyd
        y, yd = self.impl.step(y0.copy(), yd0.copy(), coupling_term=self.ct)
        r = self.ref
        t = r.t + r.dt
        ry, ryd = r.integrate(r.t, t, y0, yd0, as_ref(self.ct))
        r.t = t
        self.rec.call()
        self.rec.close(y, ry, "position after step")
        self.rec.close(yd, ryd, "velocity after step", atol=1e-7)
        self.rec.close(self.impl.t, t, "time", 1e-12, 1e-12)
        self.rec.state(PROPERTY, y, yd, t)
        self.y, self.yd = y, yd

    def rollout(self, n_steps):
        r = self.ref
        T, Y = self.impl.open_loop(run_t=(n_steps - 0.5) * r.dt,
                                   coupling_term=self.ct)
        self.rec.call()
        y, yd = self.start, self.startd
        R = [y]
        for i in range(n_steps):
            y, yd = r.integrate(i * r.dt, (i + 1) * r.dt, y, yd,
                                as_ref(self.ct))
            R.append(y)
        self.rec.close(T, np.arange(n_steps + 1) * r.dt, "times of rollout",
                       1e-9)
        self.rec.close(Y, R, "positions of rollout")
        self.rec.state(PROPERTY, "O", Y[-1])

    def op(self, o):
        n, i, r = self.c["n"], self.impl, self.ref
        if o == "S":
            self.step()
        elif o == "P":
            self.step(dy=0.3 * gen.vec(n, "e"))
        elif o == "Q":
            self.step(dyd=0.5 * gen.vec(n, "c"))
        elif o == "B":
            self.start = gen.vec(n, "d", 2.0) + 0.5 * r.t
            i.configure(start_y=self.start.copy())
        elif o == "V":
            self.startd = gen.vec(n, "e", 2.0)
            i.configure(start_yd=self.startd.copy())
        elif o == "G":  # the goal has no influence
            i.configure(goal_y=gen.vec(n, "b", 5.0),
                        goal_yd=gen.vec(n, "c"))
        elif o == "T":
            i.configure(t=0.5)
            r.t = 0.5
        elif o == "W":
            v = viapoints(n, r.k, "zigzag") + r.t
            i.forcing_term.viapoints[:] = v
            r.v = v.tolist()
        elif o == "D":
            i.dt_ = r.dt = 0.125
        elif o == "R":
            i.reset()
            r.t = 0.0
        elif o == "O":
            self.rollout(3)
        self.rec.call()


def run(case, rec):
    rec.traces += 1
    globals()["run_" + case["kind"]](case, rec)


def run_hist(case, rec):
    p = Pair(dict(BASE), rec)
    for o in case["word"]:
        p.op(o)
    p.step()
    p.step(dy=0.05)


def run_cfg(case, rec):
    c = case["cfg"]
    p = Pair(c, rec)
    for i in range(4):
        if c["feedback"] == "exact":
            p.step()
        else:
            p.step(dy=0.1 * gen.vec(c["n"], "e") * (i % 2),
                   dyd=0.1 * gen.vec(c["n"], "b") * (i % 3))
    p.rollout(8)
    p.step()
    p.impl.configure(t=c["tau"])
    p.ref.t = c["tau"]
    p.step()
    p.step()


def run_via(case, rec):
    via, tau = np.array(case["via"]), case["tau"]
    k = len(via)
    # dimensions: the viapoints, mirrored and shifted, all equal
    v = np.stack((via, 2.0 - via, np.full(k, 0.5)), axis=1)
    dt = tau / 64
    d = StateFollowingDMP(3, tau, dt=dt, n_viapoints=k, int_dt=dt / 4)
    d.forcing_term.viapoints[:] = v
    start = np.array([via[0], 2.0 - via[0], 0.5])
    d.configure(start_y=start)
    T, Y = d.open_loop(run_t=6.0 * tau)
    rec.call(2)
    r = ref.ViapointDMP(3, tau, dt, k, dt / 4, [25.0] * 3, [6.25] * 3, v)
    psi = np.array([r.psi(t) for t in T])
    rec.ok(np.all(np.diff(np.argmax(psi, axis=1)) >= 0),
           "emphasis of the model")
    rec.close(Y[:, 1], 2.0 - Y[:, 0], "mirrored viapoints", 1e-9)
    rec.close(Y[:, 2], np.full(len(T), 0.5), "equal viapoints and start",
              1e-9)
    lo, hi = np.min(via), np.max(via)
    rec.ok(np.all(Y[:, 0] >= lo - 0.05 * (hi - lo) - 1e-9)
           and np.all(Y[:, 0] <= hi + 0.05 * (hi - lo) + 1e-9),
           "positions in [%g, %g] leave the range [%g, %g] of start and "
           "viapoints" % (Y[:, 0].min(), Y[:, 0].max(), lo, hi))
    rec.close(Y[-1], psi[-1].dot(v), "settling point", 1e-3)
    rec.ok(abs(Y[-1, 0] - via[-1]) <= 0.1 * (hi - lo) + 1e-3,
           "settles at %g, far from the last viapoint %g"
           % (Y[-1, 0], via[-1]))
    if 1 < k < 10:
        # the first of the viapoints rules at the start, the last at the end
        rec.ok(psi[1, 0] > 0.5 and psi[-1, -1] > 0.9, "emphasis of the model")
    y, yd = start, np.zeros(3)
    d.reset()
    for i in range(1, 65):
        y, yd = d.step(y, yd)
        rec.call()
        rec.close(y, Y[i], "stepwise execution vs rollout", 1e-9)
    rec.state("via", Y[-1], Y[32])
