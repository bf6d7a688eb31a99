"""P13: conditioning a ProMP is exact Gaussian conditioning."""
import math

import numpy as np

from . import core, gen
from movement_primitives.promp import ProMP, via_points

PROPERTY = "P13"
ORACLE = ("independent batch posterior of the Gaussian weight distribution "
          "given all observations at once; pass-through, vanishing variance, "
          "monotone variance and unchanged-original invariants after every "
          "condition")
TIMES = [0.0, 0.25, 0.5, 1.0, 0.125, 0.75, 0.875]
NOISE = ["none", "zero", "small", "full"]
# letter = (time index, target, noise)
ALPHABET = [[t, y, n] for t in range(4) for y in "ab" for n in NOISE
            if not (n == "zero" and y == "b")]

WIDE = [[t, y, n] for t in range(7) for y in "abzmg"
        for n in NOISE + ["huge", "partial"]]


def bounds(tier):
    return {"conditions": "all words of length 1..%d over %d conditions (4 "
            "times x targets x noise kinds)" % (
                2 if tier == "quick" else 3, len(ALPHABET)),
            "exact orders": "all ordered selections of up to 4 exact "
            "conditions", "models": "1-3 dimensions, 4-7 weights, 3 priors, "
            "3 time scales; all single conditions "
            "out of %d for 5 further models" % len(WIDE)}


def valid(word, k):
    exact = [c[0] for c in word if c[2] in ("none", "zero")]
    return len(set(exact)) == len(exact) and len(exact) < k


def cases(tier):
    for n, k in [(1, 2), (1, 30), (2, 5), (6, 3), (3, 12)]:
        for p in ("eye", "full", "learned"):
            for w in core.words(WIDE, 1):
                yield {"case": "cond", "n": n, "k": k, "prior": p, "word": w,
                       "t_max": 1.0}
    models = [(1, 5), (2, 5), (3, 4)]
    for n, k in models:
        for prior in ("eye", "full", "learned"):
            for w in core.words(ALPHABET, 2 if tier == "quick" else 3, 1):
                if valid(w, k) and (len(w) < 2 or prior == "full"
                                    or tier != "quick"):
                    yield {"case": "cond", "n": n, "k": k, "prior": prior,
                           "word": w, "t_max": 1.0}
            for w in core.words(ALPHABET, 1):
                for t_max in (2.0, 0.5, 10.0):
                    yield {"case": "cond", "n": n, "k": k, "prior": prior,
                           "word": w, "t_max": t_max}
            exact = [c for c in ALPHABET if c[2] == "none"]
            for w in core.words(exact, 4, 3):
                if valid(w, 7):
                    yield {"case": "cond", "n": n, "k": 7, "prior": prior,
                           "word": w, "t_max": 1.0}
            for form in ("none", "zero", "small", "full"):
                for w in core.words([0, 1, 2, 3], 3, 1):
                    if len(set(w)) == len(w):
                        yield {"case": "via", "n": n, "k": k, "prior": prior,
                               "times": w, "form": form}


def basis(k, t):
    h = -1.0 / (8.0 * k * k * math.log(0.7))
    c = [i / (k - 1.0) for i in range(k)] if k > 1 else [0.0]
    a = [math.exp(-(t - x) ** 2 / (2.0 * h)) for x in c]
    s = sum(a)
    return np.array([x / s for x in a])


def row(n, k, t):
    """Observation matrix (n, n * k) of the position at relative time t."""
    return np.kron(np.eye(n), basis(k, t))


def prior(n, k, kind):
    m = n * k
    if kind == "eye":
        return np.zeros(m), np.eye(m)
    A = np.array([[math.sin(1.3 * i * i + 2.1 * j + 0.4 * i * j)
                   for j in range(m)] for i in range(m)])
    mean = gen.vec(m, "c", 2.0)
    if kind == "full":
        return mean, A.dot(A.T) / m + 0.3 * np.eye(m)
    return mean, A.dot(A.T) / m * 1e-2 + 1e-3 * np.eye(m)


def target(n, y):
    if y == "z":
        return np.zeros(n)
    if y == "m":
        return gen.vec(n, "part", 1.5)
    if y == "g":
        return gen.vec(n, "big", -1.0)
    return gen.vec(n, {"a": "b", "b": "e"}[y], 1.5)


def noise(n, kind):
    if kind == "none":
        return None
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "huge":
        return 1e3 * np.eye(n)
    if kind == "partial":
        return np.diag([0.0 if i % 2 else 0.3 for i in range(n)])
    if kind == "small":
        return 0.05 * np.eye(n)
    A = np.array([[math.cos(1.7 * i + 0.9 * j) for j in range(n)]
                  for i in range(n)])
    return A.dot(A.T) + 0.2 * np.eye(n)


def posterior(mean, cov, obs):
    """Batch posterior; obs: list of (H, y, R)."""
    H = np.vstack([o[0] for o in obs])
    y = np.hstack([o[1] for o in obs])
    m = len(y)
    R = np.zeros((m, m))
    p = 0
    for o in obs:
        q = len(o[1])
        R[p:p + q, p:p + q] = o[2]
        p += q
    S = H.dot(cov).dot(H.T) + R
    G = np.linalg.solve(S, H.dot(cov)).T
    return mean + G.dot(y - H.dot(mean)), cov - G.dot(H).dot(cov)


GRID = np.linspace(0, 1, 9)


def run(case, rec):
    {"cond": run_cond, "via": run_via}[case["case"]](case, rec)
    rec.traces += 1


def compare(rec, p, n, k, obs, mean0, cov0, what):
    m, c = posterior(mean0, cov0, obs)
    scale = max(1.0, float(np.max(np.abs(m))))
    rec.close(p.weight_mean / scale, m / scale, what + ": weight mean",
              atol=1e-6)
    rec.close(p.weight_cov, c, what + ": weight covariance", atol=1e-6)
    M = np.array([row(n, k, t).dot(m) for t in GRID])
    rec.close(p.mean_trajectory(GRID), M, what + ": mean trajectory",
              atol=1e-6 * scale)
    V = np.array([np.diag(row(n, k, t).dot(c).dot(row(n, k, t).T))
                  for t in GRID])
    rec.close(p.var_trajectory(GRID), np.maximum(V, 0.0),
              what + ": variance", atol=1e-6)


def run_cond(case, rec):
    n, k, tm = case["n"], case["k"], case["t_max"]
    mean, cov = prior(n, k, case["prior"])
    p = ProMP(n, k).from_weight_distribution(mean.copy(), cov.copy())
    obs = []
    chain = [(p, mean.copy(), cov.copy())]
    var = p.var_trajectory(GRID)
    exact = []
    for ti, y, nz in case["word"]:
        t = TIMES[ti]
        yv, R = target(n, y), noise(n, nz)
        q = p.condition_position(yv.copy(), y_cov=None if R is None
                                 else R.copy(), t=t * tm, t_max=tm)
        rec.call()
        rec.ok(q is not p, "conditioning returned the same object")
        Rm = np.zeros((n, n)) if R is None else R
        obs.append((row(n, k, t), yv, Rm))
        compare(rec, q, n, k, obs, mean, cov, "after %d conditions" % len(obs))
        v = q.var_trajectory(GRID)
        rec.ok(np.all(v <= var + 1e-6), "a variance grew")
        var = v
        if nz in ("none", "zero"):
            exact.append((t, yv))
        for t_, y_ in exact:
            i = int(round(t_ * 8))
            rec.close(q.mean_trajectory(GRID)[i], y_,
                      "mean at the conditioned time", atol=1e-6)
            rec.ok(np.all(np.abs(v[i]) < 1e-6),
                   "variance at an exactly conditioned time")
        for o, m0, c0 in chain:
            rec.same(o.weight_mean, m0, "mean of the original")
            rec.same(o.weight_cov, c0, "covariance of the original")
        chain.append((q, q.weight_mean.copy(), q.weight_cov.copy()))
        rec.state(q.weight_mean, case["prior"])
        p = q


def run_via(case, rec):
    n, k, form = case["n"], case["k"], case["form"]
    mean, cov = prior(n, k, case["prior"])
    p = ProMP(n, k).from_weight_distribution(mean.copy(), cov.copy())
    ts = np.array([TIMES[i] for i in case["times"]])
    Y = np.array([target(n, "ab"[i % 2]) for i in range(len(ts))])
    obs = []
    for i, t in enumerate(ts):
        R = noise(n, form)
        obs.append((row(n, k, t), Y[i], np.zeros((n, n)) if R is None else R))
    C = None if form == "none" else np.array([o[2] for o in obs])
    forms = [(Y, C)]
    if n == 1:  # scalar positions and variances
        forms.append((Y[:, 0], None if C is None else C[:, 0, 0]))
    for y, c in forms:
        q = via_points(p, ts.copy(), y.copy(),
                       **({} if c is None else
                          {"y_conditional_cov": c.copy()}))
        rec.call()
        compare(rec, q, n, k, obs, mean, cov, "via points")
        rec.same(p.weight_mean, mean, "mean of the original")
        rec.same(p.weight_cov, cov, "covariance of the original")
        rec.state(q.weight_mean)
