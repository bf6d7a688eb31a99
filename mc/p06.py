"""P06: changing the execution time only rescales the motion in time."""
import numpy as np

from . import core, gen, prims

PROPERTY = "P06"
ORACLE = ("the same primitive at execution time 1 (positions equal, velocities "
          "divided by the factor); a freshly constructed primitive after "
          "assignments")
FACTORS = [0.5, 2.0, 0.25, 4.0, 3.0, 0.7, 0.1, 10.0, 64.0]
TIMES = [0.5, 1.0, 2.0, 0.7, 3.0, 0.125]
# shorter than, equal to and much longer than the time step
EXTREME = [0.03, 0.0625, 24.0]
STEPS = 12


def bounds(tier):
    return {"scaling": "%d factors x %d primitives x options"
            % (len(FACTORS), len(prims.DMPS)),
            "assignments": "all sequences of up to %d execution times from %s,"
            " with and without steps and resets between"
            % (3 if tier == "quick" else 4, TIMES),
            "variants": "%d boundary variants (dimensions, resting goals, "
            "gains, weights) of every primitive" % len(prims.VARIANTS),
            "extreme times": "all sequences of up to 2 times that contain "
            "one of %s, with and without a step between" % EXTREME}


def cases(tier):
    for kind in prims.DMPS:
        for p in core.product({
                "factor": FACTORS, "smooth": [False, True], "k": [2, 4, 10],
                "startd": ["zero", "d"], "how": ["construct", "assign"]}):
            yield dict(p, kind=kind, case="scale")
        for v in prims.variants(kind, times=False):
            for p in core.product({
                    "factor": [0.5, 4.0], "smooth": [False, True], "k": [4],
                    "startd": ["d"], "how": ["construct", "assign"]}):
                yield dict(p, kind=v, case="scale")
    for kind in prims.DMPS:
        for smooth in (False, True):
            for between in ("", "S", "SR", "OS", "W"):
                n = 3 if tier == "quick" else 4
                if between and tier == "quick":
                    n = 2
                for k in (4, 10):
                    for w in core.words(TIMES, n if k == 4 else 2, 1):
                        yield {"case": "assign", "kind": kind,
                               "smooth": smooth, "k": k, "word": w,
                               "between": between}
                    if between == "S" and k == 4:
                        for v in prims.variants(kind, times=False):
                            yield {"case": "assign", "kind": v,
                                   "smooth": smooth, "k": k,
                                   "word": [2.0, 0.5], "between": between}
                    if between in ("", "S"):
                        for w in core.words(TIMES[:3] + EXTREME, 2, 1):
                            if set(w) & set(EXTREME):
                                yield {"case": "assign", "kind": kind,
                                       "smooth": smooth, "k": k, "word": w,
                                       "between": between}


def trajectory(kind, d, rec, n=STEPS):
    y, yd = np.array(d.start_y), np.array(d.start_yd)
    Y, V = [], []
    for _ in range(n):
        y, yd = prims.step(kind, d, y, yd)
        rec.call()
        Y.append(y)
        V.append(yd)
        rec.state(kind, np.round(y, 6), np.round(yd, 5))
    return np.array(Y), np.array(V)


def run(case, rec):
    kind = case["kind"]
    if case["case"] == "scale":
        s = case["factor"]
        o = dict(smooth=case["smooth"], k=case["k"], startd=case["startd"])
        a = prims.make(kind, tau=1.0, dt=0.0625, int_dt=0.015625, **o)
        if case["how"] == "construct":
            b = prims.make(kind, tau=s, dt=s * 0.0625, int_dt=s * 0.015625,
                           scale=1.0 / s, **o)
        else:
            b = prims.make(kind, tau=1.0, dt=s * 0.0625, int_dt=s * 0.015625,
                           scale=1.0 / s, **o)
            b.execution_time_ = s
        if prims.base(kind) == "final":
            v = np.resize([0.3, -0.2, 0.5], prims.n_vel(kind))
            a.configure(goal_yd=v)
            b.configure(goal_yd=v / s)
        Ta, Ra = prims.rollout(kind, a, 11.5 * 0.0625)
        Tb, Rb = prims.rollout(kind, b, 11.5 * 0.0625 * s)
        rec.call(2)
        rec.close(Tb, s * Ta, "times of the rollout")
        rec.close(prims.align_rows(kind, Rb, Ra), Ra,
                  "positions of the rollout at execution time %g" % s,
                  atol=1e-6, rtol=1e-8)
        Ya, Va = trajectory(kind, a, rec)
        Yb, Vb = trajectory(kind, b, rec)
        rec.close(prims.align_rows(kind, Yb, Ya), Ya,
                  "positions at execution time %g" % s, atol=1e-6)
        rec.close(Vb * s, Va, "scaled velocities at execution time %g" % s,
                  atol=1e-5)
    else:
        d = prims.make(kind, tau=1.0, smooth=case["smooth"], startd="d",
                       k=case["k"])
        for i, tau in enumerate(case["word"]):
            y, yd = np.array(d.start_y), np.array(d.start_yd)
            for o in case["between"]:
                if o == "S":
                    y, yd = prims.step(kind, d, y, yd)
                elif o == "R":
                    d.reset()
                elif o == "O":
                    prims.rollout(kind, d, 0.3)
                elif o == "W":
                    d.set_weights(d.get_weights() * (1.0 + 0.1 * i))
                rec.call()
            d.execution_time_ = tau
            rec.call()
            rec.close(d.execution_time_, tau, "execution_time_", atol=0,
                      rtol=1e-14)
        f = prims.make(kind, tau=case["word"][-1], smooth=case["smooth"],
                       startd="d", k=case["k"])
        w = f.get_weights()
        if case["between"] == "W":
            for i in range(len(case["word"])):
                w = w * (1.0 + 0.1 * i)
            f.set_weights(w)
        rec.close(d.get_weights(), w, "weights after assigning %s"
                  % case["word"])
        run_t = 1.5 if case["word"][-1] > 10.0 else None
        Td, Rd = prims.rollout(kind, d, run_t)
        Tf, Rf = prims.rollout(kind, f, run_t)
        rec.call(2)
        rec.close(Td, Tf, "times of the rollout", atol=1e-12)
        rec.close(Rd, Rf, "rollout after assigning %s" % case["word"],
                  atol=1e-9)
        d.reset()
        Yd, Vd = trajectory(kind, d, rec, 4)
        Yf, Vf = trajectory(kind, f, rec, 4)
        rec.close(Yd, Yf, "steps after assigning %s" % case["word"],
                  atol=1e-9)
        rec.close(Vd, Vf, "velocities after assigning %s" % case["word"],
                  atol=1e-9)
    rec.traces += 1
