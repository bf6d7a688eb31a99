"""P29: phase and basis functions form a proper clock and partition."""
import itertools
import math

import numpy as np

from . import gen, ref
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, DMPWithFinalVelocity,
    canonical_system_alpha, phase as python_phase)
from movement_primitives.dmp._forcing_term import ForcingTerm
try:
    from movement_primitives.dmp_fast import phase as fast_phase
except ImportError:
    fast_phase = python_phase

PROPERTY = "P29"
ORACLE = ("closed form of phase, centres, widths and normalised activations; "
          "monotonicity, boundary values, shift and scale invariance, "
          "partition of unity, peak order; scalar against array calls")
STARTS = [0.0, 0.5, -2.0, 10.0]
TAUS = [1.0, 0.1, 7.0, 0.7]
FINALS = [0.01, 0.5, 0.001, 0.9]
KS = [10, 2, 3, 5, 25]
MANY = [60, 300]
FAR = [1.5, 3.0, 20.0]
OVERLAPS = [0.8, 0.5, 0.1, 0.95]
GRID = 24
SHIFTS = [0.0, 1.0, -3.25, 100.0]
SCALES = [1.0, 0.125, 3.0]


def grid(tier):
    return GRID if tier == "quick" else 240


def bounds(tier):
    return {"parameters": "all of %d start times x %d durations x %d final "
            "phases x %d weight counts x %d overlaps" % tuple(
                len(x) for x in (STARTS, TAUS, FINALS, KS, OVERLAPS)),
            "many weights": MANY,
            "times": "%d moments from start to 1.25 durations, and after %s "
            "durations" % (grid(tier), FAR),
            "transformations": "%d time shifts x %d scales"
            % (len(SHIFTS), len(SCALES)),
            "primitives": "forcing terms of all DMP classes before and after "
            "changes of the execution time"}


def cases(tier):
    for t0, tau, final in itertools.product(STARTS, TAUS, FINALS):
        yield {"case": "phase", "t0": t0, "tau": tau, "final": final,
               "n": grid(tier)}
        for k, overlap in itertools.product(KS, OVERLAPS):
            yield {"case": "basis", "t0": t0, "tau": tau, "final": final,
                   "k": k, "overlap": overlap, "n": grid(tier)}
    for t0, tau, final, k, overlap in itertools.product(
            STARTS[::3], TAUS[::2], FINALS, MANY, OVERLAPS):
        yield {"case": "basis", "t0": t0, "tau": tau, "final": final,
               "k": k, "overlap": overlap, "n": grid(tier)}
    for kind in ("dmp", "final", "cart", "dual"):
        for tau, k in itertools.product(TAUS, KS + MANY):
            for change in [None] + TAUS:
                yield {"case": "dmp", "kind": kind, "tau": tau, "k": k,
                       "change": change, "n": grid(tier)}


def times(t0, tau, n):
    return np.array([t0 + tau * 1.25 * i / n for i in range(n + 1)])


def run_phase(case, rec):
    t0, tau, final = case["t0"], case["tau"], case["final"]
    t1 = t0 + tau
    alpha = canonical_system_alpha(final, t1, t0)
    T = times(t0, tau, case["n"])
    want = np.array([final ** ((t - t0) / (t1 - t0)) for t in T])
    for name, f in (("Python", python_phase), ("compiled", fast_phase)):
        at = "%s phase" % name
        z = np.array([float(f(float(t), alpha, t1, t0)) for t in T])
        rec.call(len(T))
        rec.close(z, want, at, 1e-12, 1e-10)
        rec.close(z[0], 1.0, at + " at the start", 1e-14, 0)
        rec.close(f(t1, alpha, t1, t0), final, at + " at the goal", 1e-13, 0)
        rec.ok(np.all(np.diff(z) < 0), at + " does not decrease")
        rec.ok(np.all(z > 0), at + " is not positive")
        rec.close(np.asarray(f(T, alpha, t1, t0)), z, at + " of an array",
                  1e-15, 1e-15)
        for k in range(3):
            shape = {0: (1, len(T)), 1: (len(T), 1), 2: (0,)}[k]
            X = T.reshape(shape) if k < 2 else np.zeros(0)
            rec.ok(np.asarray(f(X, alpha, t1, t0)).shape == shape,
                   at + ": shape of array")
        for s, c in itertools.product(SHIFTS, SCALES):
            a = canonical_system_alpha(final, c * t1 + s, c * t0 + s)
            got = [float(f(float(c * t + s), a, c * t1 + s, c * t0 + s))
                   for t in T]
            rec.call(len(T))
            rec.close(got, z, "%s shifted by %g and scaled by %g"
                      % (at, s, c), 1e-10, 0)
        if t0 == int(t0):
            rec.close(f(int(t0), alpha, t1, t0), 1.0, at + " of an integer",
                      1e-14, 0)
        # equal durations multiply the phase by equal factors
        q = z[1:] / z[:-1]
        rec.close(q, np.full(len(q), final ** (1.25 / case["n"])),
                  at + ": ratio", 0, 1e-9)
        rec.traces += 1
        rec.state(name, z)


def check_basis(rec, ft, w, t0, tau, final, overlap, T, at):
    k = w.shape[1]
    F = ref.Forcing(w, tau, overlap, final)
    t1 = t0 + tau
    T = np.append(T, [t0 + x * tau for x in FAR])
    want = np.array([F.f(F.z(t - t0)) for t in T]).T
    got = np.array(ft(T))
    rec.call()
    scale = np.abs(w).max() or 1.0
    rec.close(got / scale, want / scale, at + ": forcing of array", 1e-9, 0)
    each = np.hstack([np.array(ft(float(t))).reshape(-1, 1) for t in T])
    rec.call(len(T))
    rec.close(each / scale, got / scale, at + ": forcing of scalars",
              1e-13, 1e-13)
    via = np.array(ft.forcing_term(np.array([ft.phase(t) for t in T])))
    rec.close(via / scale, got / scale, at + ": forcing by phase", 1e-13,
              1e-13)
    D = [t for t in T if t <= t1]
    if D[-1] < t1:
        D.append(t1)
    D = np.array(D)
    X = np.array(ft.design_matrix(D))
    rec.call()
    rec.close(X, np.array([[F.z(t - t0) * p for p in F.psi(F.z(t - t0))]
                           for t in D]).T, at + ": design matrix", 1e-9, 0)
    z = np.array([F.z(t - t0) for t in D])
    psi = X / z
    rec.ok(np.all(psi >= 0), at + ": negative activation")
    rec.close(psi.sum(axis=0), np.ones(len(D)), at + ": sum of activations",
              1e-10, 0)
    C = np.array([t0 + tau * i / (k - 1) for i in range(k)])
    C[-1] = t1
    P = np.array(ft.design_matrix(C))
    rec.ok(np.all(np.argmax(P, axis=0) == np.arange(k)),
           at + ": weights do not act in order at evenly spaced moments")
    rec.close(np.array(w) @ P / scale, np.array(ft(C)) / scale,
              at + ": weights times design matrix", 1e-10, 0)
    for i in range(k - 1):
        rec.close(P[i, i + 1] / P[i + 1, i + 1], overlap,
                  at + ": overlap of weight %d with the next" % i, 1e-7, 1e-7)
    rec.state(at, got)


def run(case, rec):
    if case["case"] == "phase":
        return run_phase(case, rec)
    if case["case"] == "basis":
        t0, tau, final = case["t0"], case["tau"], case["final"]
        k, overlap = case["k"], case["overlap"]
        T = times(t0, tau, case["n"])
        alpha = canonical_system_alpha(final, t0 + tau, t0)
        for n, kind in ((2, "wave"), (1, "hot"), (3, "zero")):
            ft = ForcingTerm(n, k, t0 + tau, t0, overlap, alpha)
            rec.close(np.array(ft(T)), np.zeros((n, len(T))),
                      "forcing of a new forcing term", 0, 0)
            w = gen.weights(n, k, kind, 10.0)
            ft.weights_[:, :] = w
            rec.ok(tuple(ft.shape) == (n, k), "shape of forcing term")
            check_basis(rec, ft, w, t0, (t0 + tau) - t0, final, overlap, T,
                        "start %g, duration %g, final phase %g, %d weights, "
                        "overlap %g" % (t0, tau, final, k, overlap))
        # one weight at a time
        eye = ForcingTerm(k, k, t0 + tau, t0, overlap, alpha)
        eye.weights_[:, :] = np.eye(k)
        D = np.linspace(t0, t0 + tau, 13)
        rec.close(np.array(eye(D)), np.array(eye.design_matrix(D)),
                  "single weights against design matrix", 1e-12, 0)
        rec.traces += 1
        return
    tau, k = case["tau"], case["k"]
    kind = case["kind"]
    cls, args, n = {"dmp": (DMP, (2,), 2),
                    "final": (DMPWithFinalVelocity, (2,), 2),
                    "cart": (CartesianDMP, (), 6),
                    "dual": (DualCartesianDMP, (), 12)}[kind]
    d = cls(*args, execution_time=tau, n_weights_per_dim=k)
    w = gen.weights(n, k, "wave", 10.0)
    d.set_weights(w.ravel())
    if case["change"]:
        tau = case["change"]
        d.execution_time_ = tau
    rec.call(2)
    if kind == "cart":
        terms = [(d.forcing_term_pos, w[:3]), (d.forcing_term_rot, w[3:])]
    else:
        terms = [(d.forcing_term, w)]
    for ft, w in terms:
        check_basis(rec, ft, w, 0.0, tau, ref.FINAL_PHASE, ref.OVERLAP,
                    times(0.0, tau, case["n"]), "%s with duration %g and %d "
                    "weights" % (kind, tau, k))
    rec.traces += 1
