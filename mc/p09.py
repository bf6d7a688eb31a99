"""P09: rollouts predict stepwise execution and disturb nothing."""
import numpy as np

from . import core, gen, prims
from .p01 import AccCoupling

PROPERTY = "P09"
ORACLE = ("stepwise execution of an equal primitive from the start; the same "
          "program without rollouts (bit-identical steps); time grid "
          "invariants")
KINDS = [k for k in prims.ALL if prims.has_rollout(k)]
DT = [0.01, 0.05, 0.1, 0.3, 0.0625, 0.03, 0.7]
RUN = [None, 0.0, 0.1, 0.25, 0.3, 0.5, 0.7, 1.0, 1.3, 0.005]
OPS = ["S", "P", "O", "Q", "G", "W", "R", "X", "B"]


def bounds(tier):
    return {"grid": "all %d x %d pairs of duration and step x primitives x "
            "start velocity" % (len(RUN), len(DT)),
            "variants": "%d boundary variants of every primitive (dimensions, "
            "resting goals, gains, weights, times)" % len(prims.VARIANTS),
            "histories": "all words of length %d over %d operations that "
            "contain a rollout" % (3 if tier == "quick" else 4, len(OPS)),
            "coupling": "acceleration coupling on/off for joint-space kinds"}


def cases(tier):
    for kind in KINDS:
        for dt in DT:
            for run_t in RUN:
                for sd in ("zero", "d"):
                    for tau in (1.0, 0.6):
                        if "python" in kind and tier == "quick" and (
                                tau != 1.0 or dt == 0.01):
                            continue
                        yield {"case": "grid", "kind": kind, "dt": dt,
                               "run_t": run_t, "startd": sd, "tau": tau}
        if kind.startswith("dmp") or kind in ("final", "state", "sd"):
            for dt in (0.05, 0.0625):
                yield {"case": "grid", "kind": kind, "dt": dt, "run_t": 0.5,
                       "startd": "d", "tau": 1.0, "coupling": True}
    for kind in KINDS:
        for v in prims.variants(kind):
            for run_t in (None, 0.0, 0.3):
                for sd in ("zero", "d"):
                    yield {"case": "grid", "kind": v, "dt": None,
                           "run_t": run_t, "startd": sd, "tau": None}
            for w in core.words(["S", "P", "O", "G", "R"], 2):
                if "O" in w:
                    yield {"case": "pure", "kind": v, "word": w}
    d = 3 if tier == "quick" else 4
    for kind in KINDS:
        ops = [o for o in OPS if prims.has_weights(kind) or o not in "WX"]
        for w in core.words(ops, d):
            if "O" in w or "Q" in w:
                yield {"case": "pure", "kind": kind, "word": w}


def run(case, rec):
    if case["case"] == "grid":
        grid(case, rec)
    else:
        pure(case, rec)
    rec.traces += 1


def grid(case, rec):
    kind, dt, run_t = case["kind"], case["dt"], case["run_t"]
    int_dt = None if dt is None else dt / 4
    o = dict(dt=dt, int_dt=int_dt, tau=case["tau"], startd=case["startd"],
             smooth=True)
    d = prims.make(kind, **o)
    ct = AccCoupling() if case.get("coupling") else None
    dt = prims.variant(kind).get("dt", 0.0625) if dt is None else dt
    T, Y = prims.rollout(kind, d, run_t, ct)
    rec.call()
    end = run_t
    if end is None:
        end = 1.0 if prims.base(kind) in ("sd", "sdo") else \
            case["tau"] or prims.tau(kind)
    rec.ok(len(T) == len(Y), "%d times for %d states" % (len(T), len(Y)))
    rec.close(T, np.arange(len(T)) * dt, "time grid", atol=1e-9)
    rec.ok(T[-1] >= end - 1e-9, "rollout ends at %r before %r" % (T[-1], end))
    rec.ok(T[-1] <= end + dt + 1e-9, "rollout ends at %r, more than one step "
           "after %r" % (T[-1], end))
    f = prims.make(kind, **o)
    y, yd = np.array(f.start_y), np.array(f.start_yd)
    rec.close(Y[0], y, "first state of the rollout", atol=0, rtol=0)
    for i in range(1, min(len(T), 40)):
        y, yd = prims.step(kind, f, y, yd, ct)
        rec.call()
        rec.close(prims.align(kind, Y[i], y), y, "state %d of the rollout" % i,
                  atol=1e-6, rtol=1e-6)
    rec.state(kind, T[-1], Y[-1])


def program(kind, word, rollouts, rec):
    d = prims.make(kind, p_gain=0.5, smooth=True, startd="d")
    y, yd = np.array(d.start_y), np.array(d.start_yd)
    out, roll, last = [], [], None
    for i, o in enumerate(list(word) + ["S", "P"]):
        if o in "SP":
            y, yd = prims.step(kind, d, prims.perturb(kind, y, o == "P"), yd)
            out.append((y, yd))
            rec.state(kind, y, yd)
            rec.call()
        elif o in "OQ":
            if rollouts:
                rt = 0.25 if o == "O" else 0.5
                T, Y = prims.rollout(kind, d, rt)
                T2, Y2 = prims.rollout(kind, d, rt)
                rec.call(2)
                rec.same(T2, T, "times of a repeated rollout")
                rec.same(Y2, Y, "states of a repeated rollout")
                roll.append((i, Y))
        else:
            if o == "G":
                d.configure(goal_y=prims.pose(kind, "e", "gen"))
            elif o == "B":
                d.configure(start_y=prims.pose(kind, "b", "x90"))
            elif o == "W":
                d.set_weights(d.get_weights()[::-1] * 0.9)
            elif o == "X":
                d.execution_time_ = 1.5
            elif o == "R":
                d.reset()
                y, yd = np.array(d.start_y), np.array(d.start_yd)
            rec.call()
    return out, roll


def pure(case, rec):
    kind, word = case["kind"], case["word"]
    a, roll = program(kind, word, True, rec)
    b, _ = program(kind, word, False, rec)
    for i, ((y, yd), (z, zd)) in enumerate(zip(a, b)):
        rec.same(y, z, "position after step %d of a program with rollouts" % i)
        rec.same(yd, zd, "velocity after step %d of a program with rollouts"
                 % i)
    # a rollout depends on the parameters only, not on the execution state
    for i, Y in roll:
        d = prims.make(kind, p_gain=0.5, smooth=True, startd="d")
        for o in word[:i]:
            if o == "G":
                d.configure(goal_y=prims.pose(kind, "e", "gen"))
            elif o == "B":
                d.configure(start_y=prims.pose(kind, "b", "x90"))
            elif o == "W":
                d.set_weights(d.get_weights()[::-1] * 0.9)
            elif o == "X":
                d.execution_time_ = 1.5
        T, Z = prims.rollout(kind, d, 0.25 if word[i] == "O" else 0.5)
        rec.call()
        rec.close(Y, Z, "rollout at position %d of the program" % i,
                  atol=1e-12, rtol=1e-12)
