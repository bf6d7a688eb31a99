"""P03: each arm of a bimanual DMP moves as its own Cartesian DMP."""
import math

import numpy as np

from . import core, gen, ref
from .p02 import Skip
from movement_primitives.dmp import DualCartesianDMP

PROPERTY = "P03"
ORACLE = ("two independent single-arm reference systems, compared after every "
          "call; bit-identical results of one arm when only the other changes")
ASSUMPTIONS = [
    "executions are not compared beyond an orientation error within 1e-3 rad "
    "of a half turn",
    "times are dyadic whenever a feedback gain is used"]
IMPL = ["cython", "python"]
CFG = {
    "impl": IMPL,
    "tau": [1.0, 0.5, 2.0, 0.7],
    "dt": [0.0625, 0.015625, 0.05, 0.1],
    "int_dt": [0.0078125, 0.0625, 0.5, 0.003],
    "k": [5, 2, 3, 10],
    "p_gain": [0.0, 0.5, 2.0],
    "smooth": [False, True],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "weights": ["wave", "zero", "hot"],
    "start": ["gen", "id", "-gen2"],
    "goal": ["gen2", "id", "-gen3"],
    "start2": ["x90", "gen3", "-small"],
    "goal2": ["xyz120", "gen", "-gen2"],
    "startd": ["zero", "d"],
    "place": ["ab>cd", "zero", "rest", "half", "big"],
    "feedback": ["exact", "perturbed", "negated"],
}
WIDE = {
    "tau": [24.0, 0.125],
    "dt": [0.5, 0.00390625],
    "int_dt": [0.001, 2.0],
    "k": [4, 40],
    "alpha": ["soft", "stiff"],
    "beta": ["soft", "stiff"],
    "p_gain": [1.0, 10.0],
    "start": ["x90", "small"],
    "goal": ["gen", "small"],
    "goal2": ["x90"],
    "startd": ["part", "big"],
}
OPS = ["S", "P", "N", "G", "B", "T", "W", "X", "R", "O"]
BASE = dict(impl="cython", tau=1.0, dt=0.0625, int_dt=0.03125, k=3, p_gain=0.5,
            smooth=True, alpha="vec", beta="vec", weights="wave", start="gen",
            goal="gen2", start2="x90", goal2="gen3", startd="zero",
            place="ab>cd")
HISTS = [dict(impl="cython"), dict(impl="python"),
         dict(impl="cython", p_gain=0.0, startd="d")]
CHANGES = ["start_pos", "start_rot", "goal_pos", "goal_rot", "weights_pos",
           "weights_rot", "alpha_pos", "alpha_rot", "beta_pos", "beta_rot",
           "feedback_pos", "feedback_rot", "velocity"]


def bounds(tier):
    return {"configurations": "at most 2 deviations over %d options%s"
            % (len(CFG), "" if tier == "quick"
               else ", 3 over the narrower domains"),
            "histories": "all words of length %d (one more in the first) over %d operations in %d "
            "configurations" % (3 if tier == "quick" else 4, len(OPS),
                                len(HISTS)),
            "independence": "all %d changes of one arm x both arms x scaling x "
            "feedback gain x implementation" % len(CHANGES)}


def cases(tier):
    for c in core.widened(CFG, WIDE, tier):
        h = min(c["dt"], c["int_dt"]) / c["tau"]
        if h > 0.2 or c["dt"] > 0.5 * c["tau"] or c["tau"] < 0.5 and h > (
                0.02 if "stiff" in (c["alpha"], c["beta"]) else 0.0625):
            continue  # the integration is unstable
        if c["p_gain"] and not (gen.dyadic(c["dt"])
                                and gen.dyadic(c["int_dt"])):
            continue
        yield {"kind": "cfg", "cfg": c}
    for ch in CHANGES:
        for o in core.product({"arm": [0, 1], "smooth": [False, True],
                               "p_gain": [0.0, 0.5], "impl": IMPL}):
            yield {"kind": "indep", "change": ch, "opt": o}
    for i, h in enumerate(HISTS):
        d = (3 if tier == "quick" else 4) + (i == 0)
        for w in core.words(OPS, d):
            yield {"kind": "hist", "cfg": h, "word": w}


def table():
    try:
        from movement_primitives.dmp._dual_cartesian_dmp import \
            DUAL_CARTESIAN_DMP_STEP_FUNCTIONS as t
        return t
    except ImportError:
        return {}


def places(name):
    """Start and goal positions of both arms."""
    a, b = gen.vec(3, "a"), gen.vec(3, "b")
    ga, gb = gen.vec(3, "c", 2.0), gen.vec(3, "d", 2.0)
    if name == "zero":
        a, gb = np.zeros(3), np.zeros(3)
    elif name == "rest":
        ga, gb = a, b
    elif name == "half":
        ga, gb = a + gen.vec(3, "part"), b
    elif name == "big":
        a, gb = gen.vec(3, "big"), gen.vec(3, "big", -1.0)
    return a, b, ga, gb


class Pair:
    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        al = gen.gain_list(12, c["alpha"], 25.0)
        be = gen.gain_list(12, c["beta"], 6.25)
        kw = {}
        for name, base in (("alpha", 25.0), ("beta", 6.25)):
            g = gen.gains(12, c[name], base)
            if g is not None:
                kw[name + "_y"] = g
        self.impl = DualCartesianDMP(
            execution_time=c["tau"], dt=c["dt"], n_weights_per_dim=c["k"],
            int_dt=c["int_dt"], p_gain=c["p_gain"],
            smooth_scaling=c["smooth"], **kw)
        w = gen.weights(12, c["k"], c["weights"], 50.0)
        self.impl.set_weights(w.ravel())
        self.arms = [ref.Arm(c["tau"], c["dt"], c["k"], c["int_dt"],
                             c["smooth"], al[6 * a:6 * a + 6],
                             be[6 * a:6 * a + 6], w[6 * a:6 * a + 6])
                     for a in (0, 1)]
        a, b, ga, gb = places(c["place"])
        self.start = np.hstack((a, gen.quat(c["start"]),
                                b, gen.quat(c["start2"])))
        goal = np.hstack((ga, gen.quat(c["goal"]), gb, gen.quat(c["goal2"])))
        self.startd = gen.vec(12, c["startd"])
        self.impl.configure(start_y=self.start.copy(), goal_y=goal.copy(),
                            start_yd=self.startd.copy())
        self.set("start", self.start)
        self.set("goal", goal)
        self.t = 0.0
        self.y, self.yd = self.start.copy(), self.startd.copy()
        self.cur = None
        ref.GAP[0] = math.inf
        rec.call(2)

    def set(self, name, v):
        for a in (0, 1):
            setattr(self.arms[a], name, [float(x) for x in
                                         v[7 * a:7 * a + 7]])

    def error(self, cur, fy):
        out = []
        for a in (0, 1):
            c, f = cur[7 * a:7 * a + 7], fy[7 * a:7 * a + 7]
            out.append([float(x) for x in c[:3] - f[:3]]
                       + list(ref.qdiff(c[3:], f[3:])))
        return out

    def both(self, last_t, t, y, yd, err):
        Y, V = [], []
        for a in (0, 1):
            p, v = self.arms[a].integrate(
                last_t, t, list(y[7 * a:7 * a + 7]),
                list(yd[6 * a:6 * a + 6]), "euler",
                err[a] if err else None, self.c["p_gain"])
            Y += p
            V += v
        return np.array(Y), np.array(V)

    def unit(self, y):
        for s in (slice(3, 7), slice(10, 14)):
            self.rec.ok(abs(math.sqrt(float(np.sum(y[s] ** 2))) - 1) < 1e-9,
                        "orientation %s is not a unit quaternion" % y[s])

    def pose(self, y, want, what):
        if ref.GAP[0] < 1e-3:
            raise Skip()
        for a in (0, 1):
            g, w = y[7 * a:7 * a + 7], want[7 * a:7 * a + 7]
            self.rec.close(g[:3], w[:3], "%s (position, arm %d)" % (what, a))
            s = 1.0 if np.dot(g[3:], w[3:]) >= 0 else -1.0
            self.rec.close(s * g[3:], w[3:], "%s (orientation, arm %d)"
                           % (what, a), atol=1e-6)

    def step(self, delta=None, impl=None):
        impl = impl or self.c["impl"]
        fy = self.y.copy() if delta is None else delta(self.y.copy())
        t = table()
        kw = {"step_function": t[impl]} if impl in t else {}
        y, yd = self.impl.step(fy.copy(), self.yd.copy(), **kw)
        self.rec.call()
        self.unit(y)
        cur = self.start if self.cur is None else self.cur
        t1 = self.t + self.c["dt"]
        ry, ryd = self.both(self.t, t1, fy, self.yd, self.error(cur, fy))
        self.t = t1
        self.pose(y, ry, "pose after step (%s)" % impl)
        for a in (0, 1):
            self.rec.close(yd[6 * a:6 * a + 3], ryd[6 * a:6 * a + 3],
                           "velocity of arm %d" % a, atol=1e-7)
            self.rec.close(yd[6 * a + 3:6 * a + 6], ryd[6 * a + 3:6 * a + 6],
                           "angular velocity of arm %d" % a, atol=1e-5,
                           rtol=1e-6)
        self.rec.close(self.impl.t, self.t, "time", atol=1e-12)
        self.rec.state("P03", np.round(y, 6), np.round(yd, 4), self.t)
        self.y, self.yd, self.cur = y, yd, y.copy()

    def rollout(self, n, impl=None):
        impl = impl or self.c["impl"]
        dt = self.c["dt"]
        T, Y = self.impl.open_loop(run_t=(n - 0.5) * dt, step_function=impl)
        self.rec.call()
        self.rec.close(T, np.arange(n + 1) * dt, "times of rollout", atol=1e-9)
        self.rec.ok(Y.shape == (n + 1, 14), "shape of rollout")
        y, yd = np.array(self.start), self.startd
        for i in range(n + 1):
            self.unit(Y[i])
            self.pose(Y[i], y, "rollout at step %d (%s)" % (i, impl))
            y, yd = self.both(i * dt, (i + 1) * dt, y, yd, None)
        self.rec.state("P03", "O", np.round(Y[-1], 6))

    def op(self, o):
        i = self.impl
        tau = self.arms[0].tau
        if o == "S":
            self.step()
        elif o == "P":
            self.step(perturbed)
        elif o == "N":
            self.step(negated)
        elif o == "G":
            g = np.hstack((gen.vec(3, "b", 2.0) + self.t, gen.quat("gen3"),
                           gen.vec(3, "e", 2.0) - self.t, gen.quat("-gen")))
            i.configure(goal_y=g.copy())
            self.set("goal", g)
            self.rec.call()
        elif o == "B":
            s = np.hstack((gen.vec(3, "e", 2.0), gen.quat("xyz120"),
                           gen.vec(3, "c", 2.0), gen.quat("y90")))
            i.configure(start_y=s.copy())
            self.set("start", s)
            self.start = s
            self.rec.call()
        elif o == "T":
            i.configure(t=0.5)
            self.t = 0.5
            self.rec.call()
        elif o == "W":
            w = gen.weights(12, self.c["k"], "wave2", 40.0 + 10 * tau)
            i.set_weights(w.ravel())
            for a in (0, 1):
                self.arms[a].w = w[6 * a:6 * a + 6].tolist()
            self.rec.call()
        elif o == "X":
            tau = 1.5 if tau != 1.5 else 0.75
            i.execution_time_ = tau
            for a in (0, 1):
                self.arms[a].tau = tau
            self.rec.call()
        elif o == "R":
            i.reset()
            self.t, self.cur = 0.0, None
            self.y, self.yd = np.array(self.start), self.startd.copy()
            self.rec.call()
        elif o == "O":
            self.rollout(2)


def perturbed(y):
    y[:3] += 0.1 * gen.vec(3, "e")
    y[7:10] += 0.1 * gen.vec(3, "d")
    y[3:7] = ref.qapply([0.05, -0.1, 0.07], y[3:7])
    y[10:] = ref.qapply([-0.03, 0.06, 0.1], y[10:])
    return y


def negated(y):
    y[3:7] *= -1.0
    return y


def run(case, rec):
    try:
        if case["kind"] == "indep":
            independence(case, rec)
        else:
            _run(case, rec)
    except Skip:
        pass
    rec.traces += 1


def _run(case, rec):
    c = dict(BASE)
    c.update(case["cfg"])
    p = Pair(c, rec)
    if case["kind"] == "hist":
        for o in case["word"]:
            p.op(o)
        p.step()
        p.step(perturbed)
        return
    p.rollout(4)
    for i in range(5):
        if c["feedback"] == "exact" or i % 2 == 0:
            p.step()
        else:
            p.step(perturbed if c["feedback"] == "perturbed" else negated)
    p.impl.configure(t=c["tau"])
    p.t = c["tau"]
    p.step()
    p.step()


def execute(change, arm, o, rec):
    n, k = 12, 4
    alpha = np.array(gen.gain_list(n, "vec", 25.0))
    beta = np.array(gen.gain_list(n, "vec", 6.25))
    w = gen.weights(n, k, "wave", 50.0)
    y0 = np.hstack((gen.vec(3, "a"), gen.quat("gen"),
                    gen.vec(3, "b"), gen.quat("x90")))
    g = np.hstack((gen.vec(3, "c", 2.0), gen.quat("gen2"),
                   gen.vec(3, "d", 2.0), gen.quat("gen3")))
    yd = np.zeros(12)
    P, V = 7 * arm, 6 * arm
    fb = np.zeros(14)
    if change == "start_pos":
        y0[P:P + 3] += 1.0
    elif change == "start_rot":
        y0[P + 3:P + 7] = gen.quat("y90")
    elif change == "goal_pos":
        g[P:P + 3] += 1.0
    elif change == "goal_rot":
        g[P + 3:P + 7] = gen.quat("xyz120")
    elif change == "weights_pos":
        w[V:V + 3] += 30.0
    elif change == "weights_rot":
        w[V + 3:V + 6] += 30.0
    elif change == "alpha_pos":
        alpha[V:V + 3] *= 1.3
    elif change == "alpha_rot":
        alpha[V + 3:V + 6] *= 1.3
    elif change == "beta_pos":
        beta[V:V + 3] *= 1.3
    elif change == "beta_rot":
        beta[V + 3:V + 6] *= 1.3
    elif change == "velocity":
        yd[V:V + 6] = 0.3
    dmp = DualCartesianDMP(execution_time=1.0, dt=0.0625, n_weights_per_dim=k,
                           int_dt=0.015625, p_gain=o["p_gain"],
                           smooth_scaling=o["smooth"], alpha_y=alpha,
                           beta_y=beta)
    dmp.set_weights(w.ravel())
    dmp.configure(start_y=y0, goal_y=g)
    t = table()
    kw = {"step_function": t[o["impl"]]} if o["impl"] in t else {}
    out = []
    y = y0.copy()
    for i in range(6):
        if change == "feedback_pos" and i == 2:
            y[P:P + 3] += 0.2
        if change == "feedback_rot" and i == 2:
            y[P + 3:P + 7] = ref.qapply([0.1, 0.2, -0.1], y[P + 3:P + 7])
        y, yd = dmp.step(y, yd, **kw)
        rec.call()
        out.append((y, yd))
        rec.state("P03", "I", y)
    return out


def independence(case, rec):
    o = case["opt"]
    a = execute(None, o["arm"], o, rec)
    b = execute(case["change"], o["arm"], o, rec)
    other = 1 - o["arm"]
    P, V = slice(7 * other, 7 * other + 7), slice(6 * other, 6 * other + 6)
    own = slice(7 * o["arm"], 7 * o["arm"] + 7)
    for i, ((y, yd), (z, zd)) in enumerate(zip(a, b)):
        rec.same(z[P], y[P], "pose of the other arm at step %d after changing "
                 "%s" % (i, case["change"]))
        rec.same(zd[V], yd[V], "velocity of the other arm at step %d after "
                 "changing %s" % (i, case["change"]))
    rec.ok(not np.array_equal(a[-1][0][own], b[-1][0][own]),
           "changing %s of an arm has no effect on it" % case["change"])
