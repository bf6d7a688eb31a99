"""P22: DMP with final velocity."""
import itertools
import math

import numpy as np

from . import core, gen, ref
from .p01 import as_ref, coupling_of
from movement_primitives.dmp import DMPWithFinalVelocity

PROPERTY = "P22"
ORACLE = ("reference state machine of the documented equations with the "
          "quintic in closed form, compared after every call; the closed-form "
          "quintic itself for zero weights; boundary conditions and shape of "
          "demonstrations")
ASSUMPTIONS = ["with a gain for the tracking error, step sizes and execution "
               "times are dyadic, so that the number of internal steps does "
               "not depend on rounding"]
CFG = {
    "n": [2, 1, 3, 6],
    "tau": [1.0, 0.5, 2.0, 4.0],
    "dt": [0.0625, 0.015625, 0.125, 0.5],
    "int_dt": [0.0078125, 0.0625, 0.5, 0.03125],
    "k": [5, 2, 3, 10],
    "p_gain": [0.0, 1.0, 3.0],
    "alpha": ["default", "scalar", "vec"],
    "beta": ["default", "scalar", "vec"],
    "weights": ["wave", "zero", "hot", "big"],
    "start": ["a", "zero", "b"],
    "goal": ["c", "zero"],
    "startd": ["zero", "d"],
    "startdd": ["zero", "e"],
    "goald": ["d", "zero", "e"],
    "goaldd": ["zero", "b"],
    "coupling": ["none", "acc", "vel"],
    "feedback": ["exact", "perturbed", "late"],
}
WIDE = {
    "n": [7, 9],
    "tau": [24.0, 0.125],
    "dt": [1.0, 0.00390625],
    "int_dt": [0.001953125, 2.0],
    "k": [4, 40],
    "p_gain": [0.25, 10.0],
    "alpha": ["soft", "stiff"],
    "beta": ["soft", "stiff"],
    "start": ["part", "big"],
    "goal": ["part", "big", "start"],
    "startd": ["part", "big"],
    "startdd": ["part", "big"],
    "goald": ["part", "big"],
    "goaldd": ["part", "big"],
}
OPS = ["S", "P", "G", "V", "A", "B", "D", "T", "W", "X", "R", "O", "Z"]
BASE = {k: v[0] for k, v in CFG.items()}
BASE.update(int_dt=0.03125, k=3, alpha="vec", beta="vec", startd="e",
            p_gain=1.0)
BOUND = [0.0, 1.0, -2.0]
# execution times, steps and internal steps
DECIMAL = ([1.0, 0.3, 0.7, 2.0, 0.5, 10.0, 3.3],
           [0.01, 0.1, 0.02, 0.05, 0.3, 0.7],
           [0.001, 0.002, 0.003, 0.01])
SHAPES = ["sine", "poly", "ramp", "rest"]


def bounds(tier):
    return {"configurations": "at most 2 deviations over %d options%s"
            % (len(CFG), "" if tier == "quick"
               else ", 3 over the narrower domains"),
            "histories": "all words of length %d over %d operations"
            % (3 if tier == "quick" else 4, len(OPS)),
            "boundary conditions": "all 729 combinations of three positions, "
            "velocities and accelerations at both ends x execution times",
            "decimal steps": "all combinations of %d execution times, %d "
            "steps and %d internal steps with rounding errors, weights and "
            "boundary conditions, up to and beyond the end" % (
                tuple(len(v) for v in DECIMAL)),
            "demonstrations": "shapes x durations x time offsets x weights"}


def cases(tier):
    for c in core.widened(CFG, WIDE, tier):
        if c["dt"] > c["tau"]:
            continue
        yield {"kind": "cfg", "cfg": c}
    for w in core.words(OPS, 3 if tier == "quick" else 4):
        yield {"kind": "hist", "word": w}
    for first in itertools.product(BOUND, repeat=3):
        for tau in (1.0, 0.5, 2.0):
            yield {"kind": "bound", "first": first, "tau": tau}
    for tau, dt, int_dt in itertools.product(*DECIMAL):
        if abs(tau / dt - round(tau / dt)) > 1e-9 or tau / int_dt > 5000:
            continue
        for weights in ("zero", "wave"):
            for b in range(3):
                yield {"kind": "decimal", "tau": tau, "dt": dt,
                       "int_dt": int_dt, "weights": weights, "bound": b}
    for shape, tau, off, k in itertools.product(
            SHAPES, (1.0, 0.5, 2.0), (0.0, 1.0, -0.5), (10, 25)):
        yield {"kind": "demo", "shape": shape, "tau": tau, "off": off, "k": k}


class Pair:
    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        n = c["n"]
        kw = {}
        for name, base in (("alpha", 25.0), ("beta", 6.25)):
            g = gen.gains(n, c[name], base)
            if g is not None:
                kw[name + "_y"] = g
        self.impl = DMPWithFinalVelocity(
            n, execution_time=c["tau"], dt=c["dt"], n_weights_per_dim=c["k"],
            int_dt=c["int_dt"], p_gain=c["p_gain"], **kw)
        self.ref = r = ref.FinalVelocityDMP(
            n, c["tau"], c["dt"], c["k"], c["int_dt"], c["p_gain"], False,
            gen.gain_list(n, c["alpha"], 25.0),
            gen.gain_list(n, c["beta"], 6.25))
        w = gen.weights(n, c["k"], c["weights"])
        self.impl.set_weights(w.ravel())
        r.w = w.tolist()
        b = {"start_y": gen.vec(n, c["start"]),
             "goal_y": gen.vec(n, c["start"]) if c["goal"] == "start"
             else gen.vec(n, c["goal"], 2.0),
             "start_yd": gen.vec(n, c["startd"]),
             "goal_yd": gen.vec(n, c["goald"], 1.5),
             "start_ydd": gen.vec(n, c["startdd"], 2.0),
             "goal_ydd": gen.vec(n, c["goaldd"], 3.0)}
        self.impl.configure(**{k: v.copy() for k, v in b.items()})
        r.start, r.startd, r.startdd = [b[k].tolist() for k in (
            "start_y", "start_yd", "start_ydd")]
        r.goal, r.goald, r.goaldd = [b[k].tolist() for k in (
            "goal_y", "goal_yd", "goal_ydd")]
        self.ct = coupling_of(c["coupling"])
        self.y, self.yd = b["start_y"], b["start_yd"]
        rec.call(2)

    def step(self, delta=0.0, feedback=None):
        fy = self.y + delta if feedback is None else feedback
        y, yd = self.impl.step(fy.copy(), self.yd.copy(),
                               coupling_term=self.ct)
        ry, ryd = self.ref.step(list(fy), list(self.yd), as_ref(self.ct))
        self.rec.call()
        self.rec.close(y, ry, "position after step")
        self.rec.close(yd, ryd, "velocity after step", atol=1e-7)
        self.rec.close(self.impl.t, self.ref.t, "time", 1e-12, 1e-12)
        self.rec.state(PROPERTY, y, yd, self.ref.t, self.ref.tau)
        self.y, self.yd = y, yd

    def rollout(self, n_steps):
        r = self.ref
        T, Y = self.impl.open_loop(run_t=(n_steps - 0.5) * r.dt,
                                   coupling_term=self.ct)
        self.rec.call()
        y, yd = list(r.start), list(r.startd)
        R = [y]
        for i in range(n_steps):
            y, yd = r.integrate(i * r.dt, (i + 1) * r.dt, y, yd, [0.0] * r.n,
                                as_ref(self.ct))
            R.append(y)
        self.rec.close(T, np.arange(n_steps + 1) * r.dt, "times of rollout",
                       1e-9)
        self.rec.close(Y, R, "positions of rollout")
        self.rec.state(PROPERTY, "O", Y[-1])

    def op(self, o):
        n, i, r = self.c["n"], self.impl, self.ref
        conf = {"G": ("goal_y", "goal", "b", 3.0),
                "V": ("goal_yd", "goald", "e", 2.0),
                "A": ("goal_ydd", "goaldd", "d", 4.0),
                "B": ("start_y", "start", "d", 2.0),
                "D": ("start_ydd", "startdd", "c", 2.0)}
        if o == "S":
            self.step()
        elif o == "P":
            self.step(delta=0.1 * gen.vec(n, "e"))
        elif o in conf:
            name, attr, kind, scale = conf[o]
            v = gen.vec(n, kind, scale) + 0.5 * r.t
            i.configure(**{name: v.copy()})
            setattr(r, attr, v.tolist())
            self.rec.call()
        elif o == "T":
            i.configure(t=0.75)
            r.t = 0.75
            self.rec.call()
        elif o == "W":
            w = gen.weights(n, self.c["k"], "wave2", 60.0 + 10 * r.tau)
            i.set_weights(w.ravel())
            r.w = w.tolist()
            self.rec.call()
        elif o == "X":
            tau = 1.5 if r.tau != 1.5 else 0.75
            i.execution_time_ = tau
            r.tau = tau
            self.rec.call()
        elif o == "R":
            i.reset()
            r.reset()
            self.rec.call()
        elif o == "O":
            self.rollout(3)
        elif o == "Z":  # to the end
            i.configure(t=r.tau - r.dt)
            r.t = r.tau - r.dt
            self.rec.call()


def run(case, rec):
    rec.traces += 1
    globals()["run_" + case["kind"]](case, rec)


def run_hist(case, rec):
    p = Pair(dict(BASE), rec)
    for o in case["word"]:
        p.op(o)
    p.step()
    p.step(delta=0.05)


def run_cfg(case, rec):
    c = case["cfg"]
    p = Pair(c, rec)
    prev = p.y
    for i in range(4):
        cur = p.y
        if c["feedback"] == "exact":
            p.step()
        elif c["feedback"] == "perturbed":
            p.step(delta=0.1 * gen.vec(c["n"], "e") * (i % 2))
        else:
            p.step(feedback=prev)
        prev = cur
    p.rollout(int(c["tau"] / c["dt"]) + 2)
    p.step()
    p.impl.configure(t=c["tau"] - c["dt"])
    p.ref.t = c["tau"] - c["dt"]
    for _ in range(3):
        p.step()


def run_decimal(case, rec):
    """Rounding errors of the time do not change when the movement ends."""
    n, k, b = 2, 4, case["bound"]
    c = dict({name: v[0] for name, v in CFG.items()}, n=n, k=k,
             tau=case["tau"], dt=case["dt"], int_dt=case["int_dt"],
             weights=case["weights"], startd="d", goaldd="b",
             goald=["d", "e", "big"][b], start=["a", "zero", "b"][b])
    p = Pair(c, rec)
    r = p.ref
    y, yd = list(p.y), list(p.yd)
    steps = int(round(c["tau"] / c["dt"]))
    R = [y]
    for i in range(steps + 2):
        got, gotd = p.impl.step(p.y.copy(), p.yd.copy())
        y, yd = r.integrate(i * c["dt"], (i + 1) * c["dt"], y, yd, [0.0] * n,
                            None)
        R.append(y)
        p.y, p.yd = got, gotd
        size = 1.0 + np.max(np.abs(yd))
        rec.close(got / size, np.array(y) / size, "position after step",
                  atol=1e-8)
        rec.close(gotd / size, np.array(yd) / size, "velocity after step %d "
                  "of %d" % (i + 1, steps), atol=1e-8)
        rec.call()
    rec.state("decimal", got, gotd)
    T, Y = p.impl.open_loop(run_t=(steps + 1.5) * c["dt"])
    rec.call()
    size = 1.0 + np.max(np.abs(R))
    rec.close(Y / size, np.array(R) / size, "rollout", atol=1e-8)


def run_bound(case, rec):
    """Zero weights: the quintic is tracked. All second halves in one DMP."""
    tau = case["tau"]
    lasts = list(itertools.product(BOUND, repeat=3))
    n = len(lasts)
    first = np.repeat(np.array(case["first"])[:, np.newaxis], n, axis=1)
    last = np.array(lasts).T
    dmp = DMPWithFinalVelocity(n, execution_time=tau, dt=tau / 64,
                               int_dt=tau / 2048)
    dmp.configure(start_y=first[0], start_yd=first[1], start_ydd=first[2],
                  goal_y=last[0], goal_yd=last[1], goal_ydd=last[2])
    T, Y = dmp.open_loop(run_t=tau - tau / 128)
    rec.call(2)
    rec.ok(len(T) == 65, "%d steps instead of 64" % (len(T) - 1))
    polys = [ref.quintic(0.0, tau, *first[:, d], *last[:, d])
             for d in range(n)]
    want = np.array([[ref.quintic_at(p, t)[0] for p in polys] for t in T])
    wantd = np.array([[ref.quintic_at(p, t)[1] for p in polys] for t in T])
    scale = 1.0 + np.max(np.abs(wantd))
    rec.close(Y, want, "rollout with zero weights vs quintic",
              TRACK * scale * tau)
    rec.close(Y[-1], last[0], "final position", TRACK * scale * tau)
    y, yd = first[0], first[1]
    for i in range(64):
        y, yd = dmp.step(y, yd)
        rec.call()
    rec.close(y, last[0], "position at the execution time",
              TRACK * scale * tau)
    rec.close(yd, last[1], "velocity at the execution time",
              TRACKD * scale)
    rec.state("bound", y, yd)


TRACK = 2e-3
TRACKD = 1e-2


def demo(shape, s):
    if shape == "sine":
        return np.stack((np.sin(1.2 * math.pi * s), 1.0 - np.cos(2.5 * s)), 1)
    if shape == "poly":
        return np.stack((s ** 2 - 0.5 * s ** 3, 1.0 + 2.0 * s ** 3), 1)
    if shape == "ramp":  # starts at rest, ends with constant velocity
        return np.stack((np.maximum(s - 0.2, 0.0) ** 2, -s ** 2), 1)
    return np.stack((s ** 2 * (3 - 2 * s), 2 - s ** 3 * (10 - 15 * s
                                                         + 6 * s ** 2)), 1)


def run_demo(case, rec):
    tau, n = case["tau"], 257
    s = np.linspace(0.0, 1.0, n)
    T = case["off"] + tau * s
    Y = demo(case["shape"], s)
    dt = tau / (n - 1)
    dmp = DMPWithFinalVelocity(2, execution_time=tau, dt=dt,
                               n_weights_per_dim=case["k"], int_dt=dt)
    T0, Y0 = T.copy(), Y.copy()
    dmp.imitate(T, Y)
    rec.call()
    rec.ok(np.array_equal(T, T0) and np.array_equal(Y, Y0),
           "imitate modified the demonstration")
    rec.close(dmp.start_y, Y[0], "start")
    rec.close(dmp.goal_y, Y[-1], "goal")
    vel = (Y[-1] - Y[-2]) / dt
    rec.close(dmp.goal_yd, vel, "goal velocity",
              0.05 * (1 + np.max(np.abs(vel))))
    _, R = dmp.open_loop(run_t=tau - 0.5 * dt)
    rec.call()
    size = np.max(np.ptp(Y, axis=0))
    rec.close(R, Y, "reproduction", REPRO * size)
    rv = (R[-1] - R[-2]) / dt
    rec.close(rv, vel, "velocity at the end of the reproduction",
              0.1 * np.max(np.abs(vel)) + 0.1 * size / tau)
    # a primitive that was used before learns the same
    used = DMPWithFinalVelocity(2, execution_time=tau, dt=dt,
                                n_weights_per_dim=case["k"], int_dt=dt)
    used.set_weights(gen.weights(2, case["k"], "wave", 70.0).ravel())
    used.configure(start_y=gen.vec(2, "a"), start_yd=gen.vec(2, "b", 3.0),
                   start_ydd=gen.vec(2, "c", 9.0), goal_y=gen.vec(2, "d"),
                   goal_yd=gen.vec(2, "e", 3.0), goal_ydd=gen.vec(2, "a", 9.0))
    used.step(gen.vec(2, "a"), gen.vec(2, "b"))
    used.imitate(T, Y)
    used.reset()
    rec.call(6)
    rec.close(used.open_loop(run_t=tau - 0.5 * dt)[1], R,
              "reproduction by a primitive that was used before", 1e-9 * size)
    # the same movement, twice as fast and somewhere else
    dmp.execution_time_ = 0.5 * tau
    dmp.dt_ = dmp.int_dt = 0.5 * dt
    dmp.reset()
    g = Y[-1] + [0.5, -0.3]
    dmp.configure(start_y=Y[0] + [0.5, -0.3], goal_y=g,
                  start_yd=2 * dmp.start_yd, goal_yd=2 * dmp.goal_yd,
                  start_ydd=4 * dmp.start_ydd, goal_ydd=4 * dmp.goal_ydd)
    _, R2 = dmp.open_loop(run_t=0.5 * tau - 0.25 * dt)
    rec.call()
    rec.close(R2, R + [0.5, -0.3], "shifted and scaled reproduction",
              1e-6 * size + 1e-6)
    rec.state("demo", R[-1], rv)


REPRO = 0.05
