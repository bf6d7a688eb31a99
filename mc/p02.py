"""P02: Cartesian DMP against the reference pose dynamics."""
import math

import numpy as np

from . import core, gen, ref
from movement_primitives.dmp import CartesianDMP

PROPERTY = "P02"
ORACLE = ("reference pose dynamics (mc/ref.py) compared after every call, unit "
          "norm of every returned quaternion, invariance under negation")
ASSUMPTIONS = [
    "executions in which the orientation error passes within 1e-3 rad of a "
    "half turn are not compared beyond that point (the shortest rotation is "
    "ambiguous there); exact half turns are only checked for unit norm and "
    "finite values",
    "orientations are compared with a tolerance of 1e-6 because the logarithm "
    "uses arccos"]
POS = ["rk4-cython", "euler-cython", "rk4", "euler"]
ROT = ["cython", "python"]
QS = ["id", "x90", "y90", "z90", "xyz120", "gen", "gen2", "gen3", "small",
      "-id", "-x90", "-gen", "-gen3", "x180", "z180"]
CFG = {
    "pos": POS,
    "rot": ROT,
    "tau": [1.0, 0.5, 2.0, 0.7],
    "dt": [0.0625, 0.015625, 0.05, 0.1],
    "int_dt": [0.0078125, 0.0625, 0.5, 0.003],
    "k": [5, 2, 3, 10],
    "smooth": [False, True],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "weights": ["wave", "zero", "hot"],
    "start": ["gen", "id", "-gen2", "small"],
    "goal": ["gen2", "id", "-gen3", "y90"],
    "startd": ["zero", "d"],
    "place": ["a>c", "zero>c", "a>zero", "part>part", "a>a", "big>c"],
    "coupling": ["none", "acc", "vel"],
    "feedback": ["exact", "perturbed", "negated"],
}
WIDE = {
    "tau": [24.0, 0.125],
    "dt": [0.5, 0.00390625],
    "int_dt": [0.001, 2.0],
    "k": [4, 40],
    "alpha": ["soft", "stiff"],
    "beta": ["soft", "stiff"],
    "start": ["x90", "xyz120"],
    "goal": ["gen", "small"],
    "startd": ["part", "big"],
}
OPS = ["S", "P", "N", "E", "G", "H", "B", "T", "W", "X", "R", "O"]
BASE = dict(pos="rk4-cython", rot="cython", tau=1.0, dt=0.0625, int_dt=0.03125,
            k=3, smooth=True, alpha="vec", beta="vec", weights="wave",
            start="gen", goal="gen2", startd="d", place="a>c", coupling="none")


def bounds(tier):
    return {"configurations": "at most 2 deviations over %d options%s"
            % (len(CFG), "" if tier == "quick"
               else ", 3 over the narrower domains"),
            "orientations": "all ordered pairs of %d orientations" % len(QS),
            "histories": "all words of length %d over %d operations with "
            "smooth scaling, %d without"
            % (4 if tier == "quick" else 5, len(OPS),
               3 if tier == "quick" else 4)}


def cases(tier):
    for c in core.widened(CFG, WIDE, tier):
        h = min(c["dt"], c["int_dt"]) / c["tau"]
        if h > 0.2 or c["dt"] > 0.5 * c["tau"] or c["tau"] < 0.5 and h > (
                0.02 if "stiff" in (c["alpha"], c["beta"]) else 0.0625):
            continue  # the integration is unstable
        if c["coupling"] == "vel" and not (
                gen.dyadic(c["dt"]) and gen.dyadic(c["int_dt"])):
            continue
        yield {"kind": "cfg", "cfg": c}
    for a in QS:
        for b in QS:
            for smooth in (False, True):
                for rot in ROT:
                    yield {"kind": "pair", "start": a, "goal": b,
                           "smooth": smooth, "rot": rot}
    d = 3 if tier == "quick" else 4
    for smooth in (False, True):
        for w in core.words(OPS, d + smooth):
            yield {"kind": "hist", "smooth": smooth, "word": w}


class Coupling:
    """Works on positions (3, 3) and orientations (4, 3)."""
    def __init__(self, velocity):
        self.v = 1.0 if velocity else 0.0

    def coupling(self, y, yd):
        y, yd = np.asarray(y), np.asarray(yd)
        if len(y) == 3:
            return (self.v * 0.02 * (y[::-1] + 1.0),
                    3.0 * np.roll(y, 1) - 0.5 * yd + 1.0)
        return self.v * 0.01 * y[1:] * y[0], y[0] * y[:0:-1] - 0.2 * yd


def as_ref(ct):
    if ct is None:
        return None
    return lambda y, yd: tuple([float(x) for x in v]
                               for v in ct.coupling(np.array(y), np.array(yd)))


def tables():
    try:
        from movement_primitives.dmp._dmp import DMP_STEP_FUNCTIONS as p
        from movement_primitives.dmp._cartesian_dmp import \
            CARTESIAN_DMP_STEP_FUNCTIONS as r
        return p, r
    except ImportError:
        return {}, {}


class Skip(Exception):
    pass


class Pair:
    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        kw = {}
        for name, base in (("alpha", 25.0), ("beta", 6.25)):
            g = gen.gains(6, c[name], base)
            if g is not None:
                kw[name + "_y"] = g
        self.impl = CartesianDMP(
            execution_time=c["tau"], dt=c["dt"], n_weights_per_dim=c["k"],
            int_dt=c["int_dt"], smooth_scaling=c["smooth"], **kw)
        w = gen.weights(6, c["k"], c["weights"], 50.0)
        self.impl.set_weights(w.ravel())
        self.ref = ref.Arm(c["tau"], c["dt"], c["k"], c["int_dt"],
                           c["smooth"], gen.gain_list(6, c["alpha"], 25.0),
                           gen.gain_list(6, c["beta"], 6.25), w)
        a, b = c["place"].split(">")
        self.start = np.hstack((gen.vec(3, a), gen.quat(c["start"])))
        self.goal = np.hstack((gen.vec(3, b, 1.0 if a == b else 2.0),
                               gen.quat(c["goal"])))
        self.startd = gen.vec(6, c["startd"])
        self.impl.configure(start_y=self.start.copy(), goal_y=self.goal.copy(),
                            start_yd=self.startd.copy())
        self.ref.start, self.ref.goal = self.start.tolist(), self.goal.tolist()
        self.t = 0.0
        self.y, self.yd = self.start.copy(), self.startd.copy()
        self.ct = None if c["coupling"] == "none" else Coupling(
            c["coupling"] == "vel")
        ref.GAP[0] = math.inf
        rec.call(2)

    def kw(self, pos, rot):
        p, r = tables()
        out = {}
        pn, rn = POS[0], ROT[0]
        if pos in p:
            out["step_function"], pn = p[pos], pos
        if rot in r:
            out["quaternion_step_function"], rn = r[rot], rot
        return out, pn

    def unit(self, y):
        self.rec.ok(abs(math.sqrt(float(np.sum(y[3:7] ** 2))) - 1.0) < 1e-9,
                    "orientation %s is not a unit quaternion" % y[3:7])

    def pose(self, y, want, what):
        if ref.GAP[0] < 1e-3:
            raise Skip()
        want = np.array(want)
        self.rec.close(y[:3], want[:3], what + " (position)")
        q = y[3:] * (1.0 if np.dot(y[3:], want[3:]) >= 0 else -1.0)
        self.rec.close(q, want[3:], what + " (orientation)", atol=1e-6)

    def step(self, delta=None, pos=None, rot=None):
        pos, rot = pos or self.c["pos"], rot or self.c["rot"]
        kw, pn = self.kw(pos, rot)
        fy = self.y.copy() if delta is None else delta(self.y.copy())
        y, yd = self.impl.step(fy.copy(), self.yd.copy(),
                               coupling_term=self.ct, **kw)
        self.rec.call()
        self.unit(y)
        self.rec.ok(np.all(np.isfinite(np.hstack((y, yd)))),
                    "pose or velocity is not finite")
        t = self.t + self.c["dt"]
        ry, ryd = self.ref.integrate(self.t, t, list(fy), list(self.yd), pn,
                                     coupling=as_ref(self.ct))
        self.t = t
        self.pose(y, ry, "pose after step (%s, %s)" % (pos, rot))
        self.rec.close(yd[:3], ryd[:3], "velocity after step", atol=1e-7)
        self.rec.close(yd[3:], ryd[3:], "angular velocity after step",
                       atol=1e-5, rtol=1e-6)
        self.rec.close(self.impl.t, self.t, "time", atol=1e-12)
        self.rec.state("P02", np.round(y, 6), np.round(yd, 4), self.t)
        self.y, self.yd = y, yd

    def rollout(self, n, pos=None, rot=None):
        pos, rot = pos or self.c["pos"], rot or self.c["rot"]
        dt = self.c["dt"]
        T, Y = self.impl.open_loop(run_t=(n - 0.5) * dt, coupling_term=self.ct,
                                   step_function=pos,
                                   quaternion_step_function=rot)
        self.rec.call()
        self.rec.close(T, np.arange(n + 1) * dt, "times of rollout", atol=1e-9)
        self.rec.ok(Y.shape == (n + 1, 7), "shape of rollout %s" % (Y.shape,))
        y, yd = list(self.ref.start), list(self.startd)
        for i in range(n + 1):
            self.unit(Y[i])
            self.pose(Y[i], y, "rollout at step %d" % i)
            y, yd = self.ref.integrate(i * dt, (i + 1) * dt, y, yd, pos,
                                       coupling=as_ref(self.ct))
        self.rec.state("P02", "O", np.round(Y[-1], 6))

    def op(self, o):
        i, r = self.impl, self.ref
        if o == "S":
            self.step()
        elif o == "P":
            self.step(perturbed)
        elif o == "N":
            self.step(negated)
        elif o == "E":
            self.step(pos="euler", rot="python")
        elif o == "G":
            g = np.hstack((gen.vec(3, "b", 2.0) + self.t, gen.quat("gen3")))
            i.configure(goal_y=g.copy())
            r.goal = g.tolist()
            self.rec.call()
        elif o == "H":  # the same goal with the negated quaternion
            g = np.array(r.goal)
            g[3:] *= -1.0
            i.configure(goal_y=g)
            self.rec.call()
        elif o == "B":
            s = np.hstack((gen.vec(3, "e", 2.0), gen.quat("xyz120")))
            i.configure(start_y=s.copy())
            r.start = s.tolist()
            self.rec.call()
        elif o == "T":
            i.configure(t=0.5)
            self.t = 0.5
            self.rec.call()
        elif o == "W":
            w = gen.weights(6, self.c["k"], "wave2", 40.0 + 10 * r.tau)
            i.set_weights(w.ravel())
            r.w = w.tolist()
            self.rec.call()
        elif o == "X":
            tau = 1.5 if r.tau != 1.5 else 0.75
            i.execution_time_ = tau
            r.tau = tau
            self.rec.call()
        elif o == "R":
            i.reset()
            self.t = 0.0
            self.y = np.array(r.start)
            self.yd = self.startd.copy()
            self.rec.call()
        elif o == "O":
            self.rollout(2)


def perturbed(y):
    y[:3] += 0.1 * gen.vec(3, "e")
    y[3:] = ref.qapply([0.05, -0.1, 0.07], y[3:])
    return y


def negated(y):
    y[3:] *= -1.0
    return y


def run(case, rec):
    try:
        _run(case, rec)
    except Skip:
        pass
    rec.traces += 1


def _run(case, rec):
    if case["kind"] == "hist":
        c = dict(BASE, smooth=case["smooth"])
        p = Pair(c, rec)
        for o in case["word"]:
            p.op(o)
        p.step()
        p.step(perturbed)
        return
    if case["kind"] == "pair":
        c = dict(BASE, smooth=case["smooth"], start=case["start"],
                 goal=case["goal"], rot=case["rot"])
        p = Pair(c, rec)
        s = gen.quat(case["start"])
        g = gen.quat(case["goal"])
        half = abs(float(np.dot(s, g))) < 1e-6
        if half:
            T, Y = p.impl.open_loop(run_t=1.0)
            rec.call()
            for y in Y:
                p.unit(y)
            rec.ok(np.all(np.isfinite(Y)), "rollout is not finite")
            return
        p.rollout(6)
        for i in range(6):
            p.step()
        return
    c = case["cfg"]
    p = Pair(c, rec)
    p.rollout(4)
    for i in range(5):
        if c["feedback"] == "exact" or i % 2 == 0:
            p.step()
        else:
            p.step(perturbed if c["feedback"] == "perturbed" else negated)
    p.impl.configure(t=c["tau"])
    p.t = c["tau"]
    p.step()
    p.step()
