"""P27: the potential field shows the acceleration the DMP would execute."""
import math

import numpy as np

from . import core, gen, ref
from .p19 import law
from movement_primitives.dmp import DMP, CouplingTermObstacleAvoidance2D
from movement_primitives.dmp_potential_field import (
    potential_field_2d, plot_potential_field_2d)

PROPERTY = "P27"
ORACLE = ("independent closed form of the three accelerations at every grid "
          "position; one Euler step of the DMP from the grid position with "
          "the same time and velocity must change the velocity by the field; "
          "a twin that never computed the field must behave the same; drawn "
          "arrows are the field at their positions, to a common scale")
CHUNK = 16
CFG = {
    "tau": [1.0, 0.5, 2.0],
    "smooth": [False, True],
    "gains": ["default", "vec"],
    "weights": ["wave", "zero", "hot"],
    "k": [4, 2, 10],
    "start": ["a", "zero"],
    "goal": ["c", "start"],
    "goald": ["zero", "e"],
    "startd": ["d", "zero"],
    "obstacle": [(0.4, 0.3), None, (-0.9, 0.45)],
    "ticks": [3, 2, 5],
    "x_range": [(-1.0, 1.0), (0.25, 3.0), (1.0, -1.0)],
    "y_range": [(0.0, 0.5), (-2.0, -1.0)],
}
OPS = ["S", "P", "R", "G", "T", "W", "L"]
DT = 0.0625


def bounds(tier):
    return {"configurations": "at most %d of %d parameters away from the "
            "default, at all moments of an execution of %d steps"
            % (dev(tier), len(CFG), steps(tier)),
            "histories": "all words of length %d over %s" % (depth(tier), OPS),
            "grid": "all positions",
            "drawing": "all configurations with at most %d deviations"
            % (dev(tier) - 1)}


def dev(tier):
    return 2 if tier == "quick" else 3


def steps(tier):
    return 6 if tier == "quick" else 20


def depth(tier):
    return 4 if tier == "quick" else 5


def cases(tier):
    for c in core.deviations(CFG, dev(tier)):
        yield {"case": "run", "cfg": c, "n": steps(tier)}
    for c in core.deviations(CFG, dev(tier) - 1):
        for n in range(0, steps(tier) + 1, 3):
            for factor in (None, 1.0):
                yield {"case": "plot", "cfg": c, "n": n, "factor": factor}
    for smooth in (False, True):
        for w in core.words(OPS, depth(tier)):
            yield {"case": "history", "word": w, "smooth": smooth}


class Model:
    def __init__(self, c):
        k, tau = c["k"], c["tau"]
        self.c = c
        self.alpha = gen.gain_list(2, c["gains"], 25.0)
        self.beta = gen.gain_list(2, c["gains"], 6.25)
        self.kw = dict(execution_time=tau, dt=DT, n_weights_per_dim=k,
                       int_dt=DT, p_gain=0.0, smooth_scaling=c["smooth"],
                       alpha_y=np.array(self.alpha),
                       beta_y=np.array(self.beta))
        self.tau = tau
        self.start = gen.vec(2, c["start"])
        self.goal = self.start if c["goal"] == "start" \
            else gen.vec(2, c["goal"])
        self.w = gen.weights(2, k, c["weights"], 50.0)
        self.t = 0.0

    def make(self):
        d = DMP(2, **self.kw)
        d.set_weights(self.w.ravel().copy())
        d.configure(start_y=self.start.copy(), goal_y=self.goal.copy(),
                    start_yd=gen.vec(2, self.c["startd"], 0.5),
                    goal_yd=gen.vec(2, self.c["goald"], 0.5),
                    goal_ydd=gen.vec(2, self.c["goald"], 0.25))
        return d

    def field(self, x, y, v, obstacle):
        tau = self.tau
        F = ref.Forcing(self.w, tau)
        z = F.z(self.t)
        f = [a / tau ** 2 for a in F.f(z)]
        p = (x, y)
        ts = []
        for i in range(2):
            a = self.beta[i] * (self.goal[i] - p[i]) - tau * v[i]
            if self.c["smooth"]:
                a -= self.beta[i] * (self.goal[i] - self.start[i]) * z
            ts.append(self.alpha[i] * a / tau ** 2)
        ct = [0.0, 0.0]
        if obstacle is not None:
            theta, mag, d, _, nv = law(p, v, obstacle, 1000.0, 20.0 / math.pi)
            if nv > 0.0:
                s = 1.0 if d[0] * v[1] - d[1] * v[0] >= 0.0 else -1.0
                # quarter turn of the velocity, away from the obstacle
                ct = [-s * v[1] / nv * mag / tau ** 2,
                      s * v[0] / nv * mag / tau ** 2]
        return f, ts, ct


def check(rec, m, d, what, obstacle, c):
    xr, yr, n = c["x_range"], c["y_range"], c["ticks"]
    v = np.array(d.current_yd, dtype=float)
    before = (np.array(d.current_y), v.copy(), float(d.t), d.get_weights())
    got = potential_field_2d(
        d, tuple(xr), tuple(yr), n,
        None if obstacle is None else np.array(obstacle))
    rec.call()
    after = (np.array(d.current_y), np.array(d.current_yd), float(d.t),
             d.get_weights())
    for a, b in zip(after, before):
        rec.same(a, b, what + ": DMP after computing the field")
    xx, yy, ft, ts, ct, acc = (np.array(a) for a in got)
    xs = [xr[0] + (xr[1] - xr[0]) * i / (n - 1) for i in range(n)]
    ys = [yr[0] + (yr[1] - yr[0]) * i / (n - 1) for i in range(n)]
    rec.close(xx, [xs] * n, what + ": x of grid", 1e-12, 1e-12)
    rec.close(yy, [[b] * n for b in ys], what + ": y of grid", 1e-12, 1e-12)
    rec.close(acc, ft + ts + ct, what + ": parts add up", 1e-9, 1e-12)
    for j in range(n):
        for i in range(n):
            f, a, o = m.field(xs[i], ys[j], v, obstacle)
            at = "%s at (%g, %g)" % (what, xs[i], ys[j])
            rec.close(ft[j, i], f, at + ": forcing term", 1e-9, 1e-9)
            rec.close(ts[j, i], a, at + ": transformation system", 1e-9, 1e-9)
            rec.close(ct[j, i], o, at + ": obstacle", 1e-6, 1e-6)
            rec.state(what.partition(":")[0], ft[j, i], ts[j, i], ct[j, i],
                      m.t)
    rec.traces += 1
    return xs, ys, acc


def executed(rec, m, what, v, obstacle, xs, ys, acc):
    """The field is the change of velocity in an Euler step from there."""
    for j, y in enumerate(ys):
        for i, x in enumerate(xs):
            e = DMP(2, **m.kw)
            e.set_weights(m.w.ravel().copy())
            e.configure(t=m.t, start_y=np.array([x, y]), start_yd=v.copy(),
                        goal_y=np.array(m.goal))
            ct = None if obstacle is None else \
                CouplingTermObstacleAvoidance2D(np.array(obstacle))
            _, got = e.step(np.array([x, y]), v.copy(), coupling_term=ct,
                            step_function="euler")
            rec.call()
            # the forcing term of a step belongs to the end of the step
            F = ref.Forcing(m.w, m.tau)
            diff = (np.array(F.f(F.z(m.t + DT))) - F.f(F.z(m.t))) / m.tau ** 2
            rec.close((np.array(got) - v) / DT - diff, acc[j, i],
                      "%s: executed acceleration at (%g, %g)" % (what, x, y),
                      1e-6, 1e-6)


COLORS = {(0.0, 0.5, 0.0): 0, (1.0, 0.0, 0.0): 1, (0.75, 0.75, 0.0): 2,
          (0.0, 0.0, 0.0): 3}


def plot(case, rec):
    """The documented arrows, as they end up in a figure."""
    from matplotlib.figure import Figure
    c = case["cfg"]
    m = Model(c)
    d, twin = m.make(), m.make()
    s = (m.start.copy(), gen.vec(2, c["startd"], 0.5))
    for _ in range(case["n"]):
        s = d.step(s[0].copy(), s[1].copy())
        twin.step(s[0].copy(), s[1].copy())
    ob = None if c["obstacle"] is None else np.array(c["obstacle"])
    xr, yr, n = tuple(c["x_range"]), tuple(c["y_range"]), c["ticks"]
    kw = {} if case["factor"] is None else {
        "exaggerate_arrows": case["factor"]}
    ax = Figure().add_subplot()
    plot_potential_field_2d(ax, d, xr, yr, n, ob, **kw)
    xx, yy, ft, ts, ct, acc = (np.array(a) for a in potential_field_2d(
        d, xr, yr, n, ob))
    rec.call(2 + case["n"])
    found = {}
    for q in ax.collections:
        if not hasattr(q, "U"):
            continue
        key = COLORS.get(tuple(round(float(x), 6)
                               for x in q.get_facecolor()[0][:3]))
        rec.ok(key is not None and key not in found,
               "arrows in an unexpected colour")
        found[key] = q
    rec.ok(sorted(found) == [0, 1, 2, 3], "arrows are missing")
    sizes = []
    for key, want in enumerate((ts, ft, ct, acc)):
        q = found[key]
        rec.close(np.stack((q.X, q.Y)), np.stack((xx.ravel(), yy.ravel())),
                  "positions of arrows %d" % key, 1e-12, 1e-12)
        got = np.stack((np.asarray(q.U).ravel(), np.asarray(q.V).ravel()))
        want = want.reshape(-1, 2).T
        big = np.abs(want).max()
        if big == 0.0:
            rec.ok(not got.any(), "arrows without field")
            continue
        f = np.abs(got).max() / big
        rec.ok(f > 0.0, "no arrows for a field")
        rec.close(got / f, want, "arrows %d" % key, 1e-9, 1e-9 * big)
        rec.ok(q.scale is not None and q.scale > 0.0, "scale of arrows")
        sizes.append(f / q.scale)
    rec.close(sizes, [sizes[0]] * len(sizes), "common scale of arrows",
              1e-9, 0.0)
    a, b = d.step(s[0].copy(), s[1].copy()), twin.step(s[0].copy(),
                                                      s[1].copy())
    rec.same(a[0], b[0], "position after drawing the field")
    rec.same(a[1], b[1], "velocity after drawing the field")
    rec.traces += 1
    rec.state("plot", acc, str(case["n"]))


def run(case, rec):
    if case["case"] == "plot":
        return plot(case, rec)
    if case["case"] == "run":
        c = case["cfg"]
        m = Model(c)
        d, twin = m.make(), m.make()
        ob = c["obstacle"]
        s = (m.start.copy(), gen.vec(2, c["startd"], 0.5))
        st = s
        for i in range(case["n"] + 1):
            what = "field after %d steps" % i
            xs, ys, acc = check(rec, m, d, what, ob, c)
            if not c["smooth"]:
                executed(rec, m, what, np.array(d.current_yd), ob, xs, ys,
                         acc)
            s = d.step(s[0].copy(), s[1].copy())
            st = twin.step(st[0].copy(), st[1].copy())
            m.t += DT
            rec.call(2)
            rec.same(s[0], st[0], "position after computing fields")
            rec.same(s[1], st[1], "velocity after computing fields")
        return
    c = {k: v[0] for k, v in CFG.items()}
    c.update(smooth=case["smooth"], ticks=2, gains="vec")
    m = Model(c)
    d, twin = m.make(), m.make()
    s = (m.start.copy(), gen.vec(2, c["startd"], 0.5))
    for i, op in enumerate(case["word"]):
        both = (d, twin)
        if op in "SP":
            y = s[0].copy() + (0.1 if op == "P" else 0.0)
            a, b = [e.step(y.copy(), s[1].copy()) for e in both]
            rec.same(a[0], b[0], "position after computing fields")
            rec.same(a[1], b[1], "velocity after computing fields")
            s = a
            m.t += DT
        elif op == "R":
            for e in both:
                e.reset()
            m.t = 0.0
        elif op == "G":
            m.goal = gen.vec(2, "b" if i % 2 else "d")
            for e in both:
                e.configure(goal_y=m.goal.copy())
        elif op == "T":
            m.tau = m.tau * 2.0 if m.tau < 2.0 else 0.5
            for e in both:
                e.execution_time_ = m.tau
        elif op == "W":
            m.w = gen.weights(2, c["k"], "wave2", 30.0 + i)
            for e in both:
                e.set_weights(m.w.ravel().copy())
        elif op == "L":
            T = np.linspace(0.0, m.tau, 9)
            Y = np.stack((np.sin(T), T * T), axis=1)
            for e in both:
                e.imitate(T, Y)
            m.w = np.array(d.get_weights()).reshape(2, -1)
            m.start, m.goal = Y[0], Y[-1]
        rec.call(2)
        check(rec, m, d, "field after %s" % "".join(case["word"][:i + 1]),
              c["obstacle"], c)
