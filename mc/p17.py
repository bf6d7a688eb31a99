"""P17: spring-dampers follow their second-order law."""
import math

import numpy as np

from . import core, gen, ref
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

PROPERTY = "P17"
ORACLE = ("independent reference integration of the spring-damper law "
          "(position and quaternion), lock step; no overshoot, unit norm, "
          "rollout equals stepping")
CFG = {
    "n": [2, 1, 4],
    "k": [20.0, 1.0, 0.5, 200.0, 2500.0, 10000.0],
    "c": [None, 0.0, 2.0, 30.0],
    "dt": [0.125, 0.0625, 0.1, 0.01],
    "int_dt": [0.015625, 0.001, 0.125, 0.04],
    "start": ["a", "zero", "far"],
    "goal": ["c", "zero"],
    "startd": ["zero", "d"],
    "rot": ["gen>gen2", "gen>-gen2", "id>x90", "z90>z90", "small>xyz120",
            "-gen3>gen"],
    "coupling": ["none", "vel", "acc", "state", "both"],
}
WIDE = {
    "n": [3, 7],
    "k": [3.0, 7.5, 50.0],
    "c": [0.5, 1.0, 10.0],
    "dt": [0.5, 1.0, 0.00390625],
    "int_dt": [0.5, 2.0],
    "start": ["part"],
    "goal": ["start", "part", "far"],
    "startd": ["part", "big"],
    "rot": ["gen>gen", "id>small", "small>id"],
}
# p: perturbed state, q: other velocity, g: other goal, s: other start,
# R: reset, N: negated quaternion
OPS = ["S", "p", "q", "g", "s", "R", "N"]


def bounds(tier):
    return {"configurations": "at most 2 deviations over %d options%s, "
            "%d steps and a rollout each" % (
                len(CFG), "" if tier == "quick"
                else " (3 over the narrower domains)", 8),
            "histories": "all words of length %d over %d operations, both "
            "kinds" % (4 if tier == "quick" else 5, len(OPS)),
            "overshoot": "all of 5 stiffnesses x 5 step sizes x 6 rotations"}


def cases(tier):
    for kind in ("pos", "rot"):
        for c in core.widened(CFG, WIDE, tier):
            if c["coupling"] in ("vel", "both") and not (
                    gen.dyadic(c["dt"]) and gen.dyadic(c["int_dt"])):
                continue
            if c["k"] > 200.0 and c["k"] * min(
                    c["int_dt"], c["dt"]) ** 2 > 1.0:
                continue  # integration of stiff systems is unstable
            if kind == "pos" and c["rot"] != "gen>gen2":
                continue
            if kind == "rot" and (c["n"] != 2 or c["start"] != "a"
                                  or c["goal"] != "c"):
                continue
            yield {"case": "cfg", "kind": kind, "cfg": c}
        for w in core.words(OPS, 4 if tier == "quick" else 5):
            yield {"case": "hist", "kind": kind, "word": w}
        for k in (0.5, 1.0, 20.0, 100.0, 400.0):
            for dt in (0.01, 0.02, 0.05, 0.1, 0.125):
                for r in CFG["rot"] if kind == "rot" else ["gen>gen2"]:
                    yield {"case": "critical", "kind": kind, "k": k,
                           "dt": dt, "rot": r}


class Coupling:
    """Deterministic coupling, smooth in the state, even in quaternions."""
    def __init__(self, n, kind):
        self.n, self.kind = n, kind

    def __call__(self, y, yd):
        c = [0.3 * math.sin(i + 1.0) for i in range(self.n)]
        z = [0.0] * self.n
        k = self.kind
        if k == "vel":
            return [0.1 * x for x in c], z
        if k == "acc":
            return z, [5 * x for x in c]
        s = sum(float(v) * float(v) * (i + 1) for i, v in enumerate(y))
        a = [2.0 * math.sin(s + i) - 0.5 * float(yd[i])
             for i in range(self.n)]
        if k == "state":
            return z, a
        return [0.05 * math.cos(s + i) for i in range(self.n)], a

    def coupling(self, y, yd):
        cd, cdd = self(y, yd)
        return np.array(cd), np.array(cdd)


def build(kind, c):
    a, b = c["rot"].split(">")
    if kind == "pos":
        n = c["n"]
        d = SpringDamper(n, dt=c["dt"], k=c["k"], c=c["c"],
                         int_dt=c["int_dt"])
        s = gen.vec(n, "b", 100.0) if c["start"] == "far" \
            else gen.vec(n, c["start"])
        g = s.copy() if c["goal"] == "start" else gen.vec(n, "c", 100.0) \
            if c["goal"] == "far" else gen.vec(n, c["goal"])
        d.configure(start_y=s, goal_y=g,
                    start_yd=gen.vec(n, c["startd"]))
        return d, n
    d = SpringDamperOrientation(dt=c["dt"], k=c["k"], c=c["c"],
                                int_dt=c["int_dt"])
    d.configure(start_y=gen.quat(a), goal_y=gen.quat(b),
                start_yd=gen.vec(3, c["startd"]))
    return d, 3


def advance(kind, last_t, t, y, yd, goal, c, cp):
    f = ref.spring_damper if kind == "pos" else ref.spring_damper_orientation
    return f(last_t, t, y, yd, goal, c["k"], c["c"], c["int_dt"], cp)


def compare(rec, kind, y, yd, ry, ryd, what):
    if kind == "rot":
        if np.dot(y, ry) < 0:
            ry = [-x for x in ry]
        rec.close(np.linalg.norm(y), 1.0, what + ": norm", atol=1e-9)
    rec.close(y, ry, what + ": position",
              atol=1e-8 if kind == "pos" else 1e-6)
    rec.close(yd, ryd, what + ": velocity",
              atol=1e-8 if kind == "pos" else 1e-5)


def run(case, rec):
    {"cfg": run_cfg, "hist": run_hist,
     "critical": run_critical}[case["case"]](case, rec)
    rec.traces += 1


def run_cfg(case, rec):
    kind, c = case["kind"], case["cfg"]
    d, n = build(kind, c)
    cp = None if c["coupling"] == "none" else Coupling(n, c["coupling"])
    kw = {} if cp is None else {"coupling_term": cp}
    T, Y = d.open_loop(run_t=8 * c["dt"], **kw)
    y, yd = d.start_y.copy(), d.start_yd.copy()
    ry, ryd = list(y), list(yd)
    ref.GAP[0] = math.pi
    for i in range(8):
        y, yd = d.step(y, yd, **kw)
        ry, ryd = advance(kind, i * c["dt"], (i + 1) * c["dt"], ry, ryd,
                          d.goal_y, c, cp)
        rec.call()
        if ref.GAP[0] < 1e-3:
            return
        if not np.max(np.abs(ryd)) < 1e3:  # unstable discretisation
            return
        compare(rec, kind, y, yd, ry, ryd, "step %d" % i)
        rec.state(kind, y, yd)
        got = Y[i + 1]
        if kind == "rot" and np.dot(got, y) < 0:
            got = -got
        rec.close(got, y, "rollout sample %d" % (i + 1),
                  atol=1e-9 if gen.dyadic(c["dt"]) else 1e-7)
        rec.close(T[i + 1], (i + 1) * c["dt"], "time", atol=1e-9)


BASE = dict({k: v[0] for k, v in CFG.items()}, int_dt=0.03125)


def run_hist(case, rec):
    kind = case["kind"]
    d, n = build(kind, BASE)
    y, yd = d.start_y.copy(), d.start_yd.copy()
    ry, ryd = list(y), list(yd)
    goal = d.goal_y.copy()
    t = 0.0
    for o in list(case["word"]) + ["S", "S"]:
        if o == "p":
            y = y + 0.1 if kind == "pos" else np.array(
                ref.qapply([0.1, -0.2, 0.15], y))
            ry = list(y)
        elif o == "q":
            yd = yd + gen.vec(n, "b")
            ryd = list(yd)
        elif o == "N":
            y = -y if kind == "rot" else y - 0.7
            ry = list(y)
        elif o == "g":
            goal = gen.vec(n, "e") if kind == "pos" else gen.quat("gen3")
            d.configure(goal_y=goal.copy())
        elif o == "s":
            d.configure(start_y=gen.vec(n, "d") if kind == "pos"
                        else gen.quat("y90"))
        elif o == "R":
            d.reset()
            t = 0.0
        if o not in "gsR":
            y, yd = d.step(y.copy(), yd.copy())
            ry, ryd = advance(kind, t, t + BASE["dt"], ry, ryd, goal, BASE,
                              None)
            t += BASE["dt"]
            compare(rec, kind, y, yd, ry, ryd, "after %s in %s"
                    % (o, "".join(case["word"])))
            rec.state(kind, y, yd)
        rec.call()


def run_critical(case, rec):
    """No overshoot from rest with default damping."""
    kind = case["kind"]
    c = dict(BASE, k=case["k"], dt=case["dt"], int_dt=0.001,
             rot=case["rot"])
    d, n = build(kind, c)
    y, yd = d.start_y.copy(), np.zeros(n)
    if kind == "pos":
        e0 = d.goal_y - y
    else:
        e0 = np.array(ref.qdiff(d.goal_y, y))
    size = max(float(np.linalg.norm(e0)), 1e-12)
    last = 1.0
    for i in range(20):
        y, yd = d.step(y, yd)
        rec.call()
        e = d.goal_y - y if kind == "pos" else np.array(
            ref.qdiff(d.goal_y, y))
        s = float(np.dot(e, e0)) / size ** 2
        rec.ok(s > -1e-9, "overshoots the goal at step %d: %g" % (i, s))
        rec.ok(s <= last + 1e-9, "moves away from the goal at step %d" % i)
        rec.close(e - s * e0, 0 * e0, "leaves the direct path", atol=1e-6)
        last = s
        # continuous solution, first-order accurate integration
        w = math.sqrt(case["k"])
        t = (i + 1) * case["dt"]
        if size > 1e-6:
            rec.close(s, (1 + w * t) * math.exp(-w * t),
                      "critically damped response", atol=0.03)
        rec.state(kind, y, yd)
