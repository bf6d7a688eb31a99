"""P05: every primitive converges to its goal."""
import itertools
import math

import numpy as np

from . import core, gen, ref
from .p02 import tables
from .p03 import table as dual_table
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, DMPWithFinalVelocity)
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

PROPERTY = "P05"
ORACLE = ("invariant: distance to the configured goal and velocity are below "
          "1e-4 / 1e-3 after the settling time (forcing residue 1e-10)")
KINDS = ["dmp:rk4-cython", "dmp:euler-cython", "dmp:rk4", "dmp:euler",
         "final", "cart:cython", "cart:python", "dual:cython", "dual:python",
         "sd", "sdo"]
FAST = ["dmp:rk4-cython", "dmp:euler-cython", "cart:cython", "dual:cython",
        "sd", "sdo", "final"]
STARTS = ["a", "zero", "far"]
GOALS = ["c", "zero", "far"]
ROTS = [("gen", "gen2"), ("id", "x180"), ("-gen", "gen3"), ("xyz120", "-y90"),
        ("z90", "z90")]
WEIGHTS = ["wave", "zero", "big", "hot"]
EVENTS = ["goal", "disturb", "negate", "weights", "time"]
# other numbers of dimensions and weights, feedback gains, integration steps,
# execution times and final velocities
SETUPS = [{}, {"n": 1}, {"n": 2}, {"n": 7}, {"k": 2}, {"k": 40}, {"k": 300},
          {"p_gain": 0.0}, {"p_gain": 2.0}, {"ratio": 1.0}, {"ratio": 0.1},
          {"ratio": 2.0}, {"goal_yd": 0.0}, {"goal_yd": -0.5}, {"tau": 24.0},
          {"tau": 0.05}]
N = 20  # steps per execution time


def bounds(tier):
    return {"undisturbed": "all kinds x starts x goals x weights x rotations x "
            "scaling x execution times",
            "setups": "%d other dimensions, numbers of weights, feedback "
            "gains, integration steps, times and final velocities, with and "
            "without an event" % (len(SETUPS) - 1),
            "events": "each event kind at every step up to %d, all kinds"
            % (N + 5),
            "pairs": "all ordered pairs of events at all pairs of steps"
            if tier == "thorough" else "none"}


def cases(tier):
    for kind in KINDS:
        for s in STARTS:
            for g in GOALS:
                for w in WEIGHTS if not kind.startswith("sd") else ["zero"]:
                    for r in range(len(ROTS)):
                        if kind.split(":")[0] in ("dmp", "sd", "final") and r:
                            continue
                        if tier == "quick" and kind not in FAST and (
                                w in ("zero", "hot") or s == "zero"
                                or g == "zero" or r > 1):
                            continue
                        for smooth in (False, True):
                            if kind in ("sd", "sdo", "final") and smooth:
                                continue
                            for tau in (1.0, 0.5, 3.0):
                                if tier == "quick" and tau != 1.0 and (
                                        s != "a" or r):
                                    continue
                                yield dict(kind=kind, start=s, goal=g,
                                           weights=w, rot=r, smooth=smooth,
                                           tau=tau, events=[])
    for kind in KINDS:
        for x in range(1, len(SETUPS)):
            for s, g in itertools.product(STARTS, GOALS):
                for e in [[], [[5, "goal"]], [[12, "disturb"]]]:
                    yield dict(kind=kind, start=s, goal=g, weights="zero"
                               if kind.startswith("sd") else "wave", rot=1,
                               smooth=False, setup=x,
                               tau=SETUPS[x].get("tau", 1.0), events=e)
    for kind in KINDS:
        step = 1 if kind in FAST or tier == "thorough" else 4
        for e in EVENTS:
            for i in range(0, N + 6, step):
                for smooth in (False, True):
                    yield dict(kind=kind, start="a", goal="c", weights="wave",
                               rot=0, smooth=smooth, tau=1.0, events=[[i, e]])
    if tier == "thorough":
        for kind in FAST:
            for e in EVENTS:
                for f in EVENTS:
                    for i in range(0, N + 6, 2):
                        for j in range(i, N + 6, 2):
                            yield dict(kind=kind, start="a", goal="c",
                                       weights="wave", rot=0, smooth=True,
                                       tau=1.0, events=[[i, e], [j, f]])


def scaled(name, n):
    if name == "far":
        return 30.0 * gen.vec(n, "e")
    return gen.vec(n, name)


def run(case, rec):
    kind, _, impl = case["kind"].partition(":")
    tau = case["tau"]
    dt = tau / N
    kw = {}
    s = SETUPS[case.get("setup", 0)]
    int_dt, nw = dt * s.get("ratio", 0.25), s.get("k", 10)
    a, b = ROTS[case["rot"]]
    if kind in ("dmp", "final", "sd"):
        n = s.get("n", 3)
        start, goal = scaled(case["start"], n), scaled(case["goal"], n)
        if kind == "dmp":
            d = DMP(n, execution_time=tau, dt=dt, int_dt=int_dt,
                    p_gain=s.get("p_gain", 0.5), n_weights_per_dim=nw,
                    smooth_scaling=case["smooth"])
            kw = {"step_function": impl}
        elif kind == "final":
            d = DMPWithFinalVelocity(n, execution_time=tau, dt=dt, int_dt=int_dt,
                                     n_weights_per_dim=nw,
                                     p_gain=s.get("p_gain", 0.0))
            d.configure(goal_yd=s.get("goal_yd", 0.3) * np.ones(n))
        else:
            d = SpringDamper(n, dt=dt, k=100.0 / tau ** 2, int_dt=int_dt)
        nv = n
    elif kind == "cart":
        start = np.hstack((scaled(case["start"], 3), gen.quat(a)))
        goal = np.hstack((scaled(case["goal"], 3), gen.quat(b)))
        d = CartesianDMP(execution_time=tau, dt=dt, int_dt=int_dt,
                         n_weights_per_dim=nw,
                         smooth_scaling=case["smooth"])
        t = tables()[1]
        kw = {"quaternion_step_function": t[impl]} if impl in t else {}
        nv = 6
    elif kind == "sdo":
        start, goal = gen.quat(a), gen.quat(b)
        d = SpringDamperOrientation(dt=dt, k=100.0 / tau ** 2, int_dt=int_dt)
        nv = 3
    else:
        start = np.hstack((scaled(case["start"], 3), gen.quat(a),
                           scaled(case["start"], 3)[::-1], gen.quat(b)))
        goal = np.hstack((scaled(case["goal"], 3), gen.quat(b),
                          scaled(case["goal"], 3)[::-1], gen.quat(a)))
        d = DualCartesianDMP(execution_time=tau, dt=dt, int_dt=int_dt,
                             n_weights_per_dim=nw,
                             p_gain=s.get("p_gain", 0.25),
                             smooth_scaling=case["smooth"])
        t = dual_table()
        kw = {"step_function": t[impl]} if impl in t else {}
        nv = 12
    if kind not in ("sd", "sdo"):
        d.set_weights(gen.weights(nv, nw, case["weights"]).ravel())
    d.configure(start_y=start.copy(), goal_y=goal.copy())
    y, yd = start.copy(), np.zeros(nv)
    events = {}
    for i, e in case["events"]:
        events.setdefault(i, []).append(e)
    for i in range(7 * N):
        for e in events.get(i, []):
            if e == "goal":
                goal = goal.copy()
                for k in pos_blocks(kind):
                    goal[k] += np.resize([0.4, -0.6, 0.2], len(goal[k]))
                for k in rot_blocks(kind):
                    goal[k] = ref.qapply([0.3, 0.2, -0.4], goal[k])
                d.configure(goal_y=goal.copy())
            elif e == "disturb":
                y = y.copy()
                for k in pos_blocks(kind):
                    y[k] += np.resize([0.3, 0.1, -0.2], len(y[k]))
                for k in rot_blocks(kind):
                    y[k] = ref.qapply([-0.2, 0.1, 0.3], y[k])
            elif e == "negate":
                y, goal = y.copy(), goal.copy()
                for k in rot_blocks(kind):
                    y[k] *= -1.0
                d.configure(goal_y=goal)
            elif e == "weights" and kind not in ("sd", "sdo"):
                d.set_weights(gen.weights(nv, nw, "wave2").ravel())
            elif e == "time" and kind not in ("sd", "sdo"):
                d.execution_time_ = 0.9 * tau
            rec.call()
        y, yd = d.step(y, yd, **kw)
        rec.call()
        if i % 10 == 0:
            rec.state(case["kind"], y, yd)
    check(kind, y, yd, goal, rec, "stepwise execution")
    if not case["events"]:
        ol = {}
        if kind == "dmp":
            ol = {"step_function": impl}
        elif kind == "cart":
            ol = {"quaternion_step_function": impl}
        elif kind == "dual":
            ol = {"step_function": impl}
        T, Y = d.open_loop(run_t=7 * tau, **ol)
        rec.call()
        check(kind, Y[-1], np.zeros(nv), goal, rec, "rollout")
    rec.traces += 1


def pos_blocks(kind):
    return {"cart": [slice(0, 3)], "dual": [slice(0, 3), slice(7, 10)],
            "sdo": []}.get(kind, [slice(None)])


def rot_blocks(kind):
    return {"cart": [slice(3, 7)], "dual": [slice(3, 7), slice(10, 14)],
            "sdo": [slice(0, 4)]}.get(kind, [])


def check(kind, y, yd, goal, rec, what):
    rec.ok(np.all(np.isfinite(y)) and np.all(np.isfinite(yd)),
           "%s: state is not finite" % what)
    for k in pos_blocks(kind):
        rec.close(y[k], goal[k], "%s: position after settling" % what,
                  atol=1e-4, rtol=1e-5)
    for k in rot_blocks(kind):
        ang = math.sqrt(sum(x * x for x in ref.qdiff(goal[k], y[k])))
        rec.ok(ang < 1e-4, "%s: orientation is %g rad away from the goal after "
               "settling" % (what, ang))
    rec.ok(float(np.max(np.abs(yd))) < 1e-3, "%s: velocity %g after settling"
           % (what, float(np.max(np.abs(yd)))))
