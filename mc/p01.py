"""P01: joint-space DMP against the reference state machine."""
import numpy as np

from . import core, gen, ref
from movement_primitives.dmp import DMP

PROPERTY = "P01"
ORACLE = ("reference state machine of the documented DMP equations "
          "(mc/ref.py), compared after every call")
ASSUMPTIONS = [
    "times with feedback gain or velocity coupling are dyadic so that the "
    "number of internal Euler steps is unambiguous"]
METHODS = ["rk4-cython", "euler-cython", "rk4", "euler"]
CFG = {
    "method": METHODS,
    "n": [2, 1, 3, 6],
    "tau": [1.0, 0.5, 2.0, 0.7, 3.0],
    "dt": [0.0625, 0.015625, 0.05, 0.1, 0.3],
    "int_dt": [0.0078125, 0.0625, 0.5, 0.003, 0.001],
    "k": [5, 2, 3, 10, 25],
    "p_gain": [0.0, 1.0, 10.0],
    "smooth": [False, True],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "weights": ["wave", "zero", "hot", "big"],
    "start": ["a", "zero", "b"],
    "goal": ["c", "zero", "start", "far"],
    "startd": ["zero", "d"],
    "goald": ["zero", "e"],
    "coupling": ["none", "acc", "vel"],
    "feedback": ["exact", "perturbed", "late"],
}
WIDE = {
    "n": [7, 9],
    "tau": [24.0, 0.0625, 0.03],
    "dt": [1.0, 0.001953125],
    "int_dt": [0.1, 2.0],
    "k": [4, 60],
    "p_gain": [0.3, 50.0],
    "alpha": ["soft", "stiff"],
    "beta": ["soft", "stiff"],
    "start": ["part", "big"],
    "goal": ["part", "partly"],
    "startd": ["part", "big"],
    "goald": ["part"],
}
OPS = ["S", "P", "M", "G", "B", "V", "T", "W", "X", "R", "O"]
HIST = [dict(method="rk4-cython", p_gain=2.0, smooth=True),
        dict(method="euler-cython", p_gain=2.0, smooth=False)]
HIST3 = [dict(method="rk4", p_gain=0.0, smooth=False),
         dict(method="euler", p_gain=2.0, smooth=True)]
BASE = dict(n=2, tau=1.0, dt=0.0625, int_dt=0.03125, k=3, p_gain=0.0,
            smooth=False, alpha="vec", beta="vec", weights="wave", start="a",
            goal="c", startd="d", goald="zero", coupling="none",
            method="rk4-cython")


def admissible(c):
    if (c["p_gain"] or c["coupling"] == "vel") \
            and not (gen.dyadic(c["dt"]) and gen.dyadic(c["int_dt"])):
        return False
    if c["p_gain"] >= 10.0 and (c["goal"] == "far" or c["tau"] < 0.5):
        return False
    return True


def cases(tier):
    for c in core.widened(CFG, WIDE, tier):
        if admissible(c):
            yield {"kind": "cfg", "cfg": c}
    d, d3 = (4, 3) if tier == "quick" else (5, 4)
    for h in HIST:
        for w in core.words(OPS, d):
            yield {"kind": "hist", "cfg": h, "word": w}
    for h in HIST3:
        for w in core.words(OPS, d3):
            yield {"kind": "hist", "cfg": h, "word": w}


def bounds(tier):
    return {"configurations": "all with at most %d deviations from the default "
            "over %d options%s" % (
                2, len(CFG), "" if tier == "quick"
                else ", 3 over the narrower domains"),
            "histories": "all words of length %s over %d operations, each "
            "followed by two steps" % (
                "4 (two configurations) and 3 (two more)" if tier == "quick"
                else "5 (two configurations) and 4 (two more)", len(OPS))}


class AccCoupling:
    """Acceleration coupling only, depends on position and velocity."""
    def coupling(self, y, yd):
        y, yd = np.asarray(y), np.asarray(yd)
        return np.zeros_like(y), 3.0 * np.roll(y, 1) - 0.5 * yd + 1.0


class VelCoupling:
    def coupling(self, y, yd):
        y, yd = np.asarray(y), np.asarray(yd)
        return 0.02 * np.roll(y, 1) + 0.01, 2.0 * y - 0.3 * np.roll(yd, 1)


def coupling_of(kind):
    return {"none": None, "acc": AccCoupling(), "vel": VelCoupling()}[kind]


def as_ref(ct):
    if ct is None:
        return None

    def f(y, yd):
        a, b = ct.coupling(np.array(y), np.array(yd))
        return [float(x) for x in a], [float(x) for x in b]
    return f


class Pair:
    """The implementation and the reference, driven in lockstep."""
    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        n = c["n"]
        kw = {}
        for name, base in (("alpha", 25.0), ("beta", 6.25)):
            g = gen.gains(n, c[name], base)
            if g is not None:
                kw[name + "_y"] = g
        self.impl = DMP(n, execution_time=c["tau"], dt=c["dt"],
                        n_weights_per_dim=c["k"], int_dt=c["int_dt"],
                        p_gain=c["p_gain"], smooth_scaling=c["smooth"], **kw)
        self.ref = ref.DMP(n, c["tau"], c["dt"], c["k"], c["int_dt"],
                           c["p_gain"], c["smooth"],
                           gen.gain_list(n, c["alpha"], 25.0),
                           gen.gain_list(n, c["beta"], 6.25))
        self.start = gen.vec(n, c["start"])
        if c["goal"] == "start":
            self.goal = self.start
        elif c["goal"] == "partly":
            self.goal = self.start + gen.vec(n, "part", 2.0)
        elif c["goal"] == "far":
            self.goal = 50.0 * gen.vec(n, "c")
        else:
            self.goal = gen.vec(n, c["goal"], 2.0)
        self.startd = gen.vec(n, c["startd"])
        w = gen.weights(n, c["k"], c["weights"])
        self.impl.set_weights(w.ravel())
        self.ref.w = w.tolist()
        self.impl.configure(start_y=self.start.copy(),
                            goal_y=self.goal.copy(),
                            start_yd=self.startd.copy(),
                            goal_yd=gen.vec(n, c["goald"]))
        self.ref.start, self.ref.goal = self.start.tolist(), self.goal.tolist()
        self.ref.startd = self.startd.tolist()
        self.ct = coupling_of(c["coupling"])
        self.method = c["method"]
        self.y, self.yd = self.start.copy(), self.startd.copy()
        self.trace = []
        rec.call(2)

    def step(self, delta=0.0, method=None, feedback=None):
        m = method or self.method
        fy = self.y + delta if feedback is None else feedback
        y, yd = self.impl.step(fy.copy(), self.yd.copy(),
                               coupling_term=self.ct, step_function=m)
        ry, ryd = self.ref.step(list(fy), list(self.yd), as_ref(self.ct), m)
        self.rec.call()
        self.rec.close(y, ry, "position after step (%s)" % m)
        self.rec.close(yd, ryd, "velocity after step (%s)" % m,
                       atol=1e-7)
        self.rec.close(self.impl.t, self.ref.t, "time after step",
                       atol=1e-12, rtol=1e-12)
        self.rec.state(PROPERTY, y, yd, self.ref.t, self.ref.tau)
        self.y, self.yd = y, yd

    def rollout(self, n_steps=4, method=None):
        m = method or self.method
        # half a step short of the grid point: immune to arange rounding
        T, Y = self.impl.open_loop(run_t=(n_steps - 0.5) * self.ref.dt,
                                   coupling_term=self.ct, step_function=m)
        self.rec.call()
        R = self.ref.rollout(n_steps, as_ref(self.ct), m,
                             startd=self.ref.startd)
        self.rec.close(T, np.arange(n_steps + 1) * self.ref.dt,
                       "times of rollout", atol=1e-9)
        self.rec.close(Y, R, "positions of rollout (%s)" % m)
        self.rec.state(PROPERTY, "O", Y[-1])

    def op(self, o):
        n = self.c["n"]
        i, r = self.impl, self.ref
        if o == "S":
            self.step()
        elif o == "P":
            self.step(delta=0.1 * gen.vec(n, "e"))
        elif o == "M":
            k = METHODS.index(self.method)
            self.step(method=METHODS[(k + 1) % 4])
        elif o == "G":
            g = gen.vec(n, "b", 3.0) + r.t
            i.configure(goal_y=g)
            r.goal = g.tolist()
            self.rec.call()
        elif o == "B":
            s = gen.vec(n, "d", 2.0) + 0.5 * r.t
            i.configure(start_y=s)
            r.start = s.tolist()
            self.rec.call()
        elif o == "V":
            s = gen.vec(n, "e", 2.0)
            i.configure(start_yd=s)
            r.startd = s.tolist()
            self.rec.call()
        elif o == "T":
            i.configure(t=0.5)
            r.t = 0.5
            self.rec.call()
        elif o == "W":
            w = gen.weights(n, self.c["k"], "wave2", 60.0 + 10 * r.tau)
            i.set_weights(w.ravel())
            r.w = w.tolist()
            self.rec.call()
        elif o == "X":
            tau = 1.5 if r.tau != 1.5 else 0.75
            i.execution_time_ = tau
            r.tau = tau
            self.rec.call()
            self.rec.close(i.execution_time_, tau, "execution time",
                           atol=0, rtol=1e-15)
        elif o == "R":
            i.reset()
            r.reset()
            self.rec.call()
        elif o == "O":
            self.rollout(3)


def run(case, rec):
    if case["kind"] == "hist":
        c = dict(BASE)
        c.update(case["cfg"])
        p = Pair(c, rec)
        for o in case["word"]:
            p.op(o)
        p.step()
        p.step(delta=0.05)
        rec.traces += 1
        return
    c = case["cfg"]
    p = Pair(c, rec)
    n = c["n"]
    prev = p.y
    for i in range(5):
        cur = p.y
        if c["feedback"] == "exact":
            p.step()
        elif c["feedback"] == "perturbed":
            p.step(delta=0.1 * gen.vec(n, "e") * (i % 2))
        else:
            p.step(feedback=prev)
        prev = cur
    p.rollout(6)
    p.step()
    # beyond the execution time
    p.impl.configure(t=c["tau"])
    p.ref.t = c["tau"]
    p.step()
    p.step()
    rec.traces += 1
