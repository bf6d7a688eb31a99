"""P14: ProMP queries describe one consistent Gaussian."""
import math

import numpy as np

from . import core, gen
from .p13 import prior, basis
from movement_primitives.promp import ProMP

PROPERTY = "P14"
ORACLE = ("independent linear basis-function model: normalised Gaussian "
          "bases, their derivative, image of mean and covariance, image of "
          "the weight samples of the given random state, regularised least "
          "squares")
GRIDS = ["unit11", "unit2", "one", "uneven", "late", "dense", "reversed",
         "repeat"]
QUERIES = ["mean", "cov", "var", "vmean", "vcov", "vvar", "sample", "traj",
           "fit", "ridge"]

RIDGE = 0.25


def bounds(tier):
    return {"models": "all of 1-%d dimensions x 2-%d weights x 4 weight "
            "distributions and 4 larger ones" % ((3, 6) if tier == "quick" else (5, 12)),
            "time grids": GRIDS, "time scales": [1.0, 2.0, 0.1, 1000.0],
            "query orders": "all words of length %d over %d queries"
            % (2 if tier == "quick" else 3, len(QUERIES))}


def cases(tier):
    N, K = (3, 6) if tier == "quick" else (5, 12)
    for n in range(1, N + 1):
        for k in range(2, K + 1):
            for dist in ("eye", "full", "learned", "singular"):
                for g in GRIDS:
                    for s in (1.0, 2.0, 0.1, 1000.0):
                        yield {"case": "all", "n": n, "k": k, "dist": dist,
                               "grid": g, "scale": s}
    for n, k in [(7, 3), (1, 20), (2, 40), (6, 10)]:
        for dist in ("eye", "full", "learned", "singular"):
            for g in GRIDS:
                for s in (1.0, 3.0, 1e-3):
                    yield {"case": "all", "n": n, "k": k, "dist": dist,
                           "grid": g, "scale": s}
    for w in core.words(QUERIES, 2 if tier == "quick" else 3):
        for g in ("unit11", "uneven"):
            yield {"case": "order", "n": 2, "k": 4, "dist": "full",
                   "grid": g, "scale": 2.0, "word": w}


def grid(name):
    return {"unit11": np.linspace(0, 1, 11), "unit2": np.array([0.0, 1.0]),
            "one": np.array([1.0]), "late": np.linspace(0.5, 1, 6),
            "uneven": np.array([0.0, 0.05, 0.3, 0.35, 0.8, 1.0]),
            "dense": np.linspace(0, 1, 40),
            "reversed": np.linspace(1, 0, 7),
            "repeat": np.array([0.0, 0.5, 0.5, 1.0])}[name]


def dist(n, k, kind):
    if kind == "singular":
        v = gen.vec(n * k, "b")
        return gen.vec(n * k, "c"), np.outer(v, v)
    return prior(n, k, kind)


def dbasis(k, t):
    """Derivative of the normalised bases with respect to relative time."""
    h = -1.0 / (8.0 * k * k * math.log(0.7))
    c = [i / (k - 1.0) for i in range(k)]
    a = [math.exp(-(t - x) ** 2 / (2.0 * h)) for x in c]
    d = [-(t - x) / h * e for x, e in zip(c, a)]
    s, ds = sum(a), sum(d)
    return np.array([(y * s - x * ds) / s ** 2 for x, y in zip(a, d)])


def expected(n, k, mean, cov, T, query, rs=None):
    """T: relative times."""
    B = np.array([basis(k, t) for t in T])
    D = np.array([dbasis(k, t) for t in T])
    P, V = np.kron(np.eye(n), B), np.kron(np.eye(n), D)

    def shape(x):
        return np.asarray(x).reshape(n, len(T)).T
    if query == "mean":
        return shape(P.dot(mean))
    if query == "cov":
        return P.dot(cov).dot(P.T)
    if query == "var":
        return np.maximum(shape(np.diag(P.dot(cov).dot(P.T))), 0.0)
    if query == "vmean":
        return shape(V.dot(mean))
    if query == "vcov":
        return V.dot(cov).dot(V.T)
    if query == "vvar":
        return np.maximum(shape(np.diag(V.dot(cov).dot(V.T))), 0.0)
    if query == "sample":
        W = rs.multivariate_normal(mean, cov, 3)
        return np.array([shape(P.dot(w)) for w in W])
    if query == "traj":
        return shape(P.dot(gen.vec(n * k, "e", 3.0)))
    if query == "ridge":
        return np.linalg.lstsq(
            np.vstack((P, math.sqrt(RIDGE) * np.eye(n * k))),
            np.append(points(n, len(T)).T.ravel(), np.zeros(n * k)),
            rcond=None)[0]
    return shape(P.dot(gen.vec(n * k, "d", 3.0)))


def points(n, m):
    """Positions that are not represented exactly."""
    return np.array([gen.vec(n, "abcde"[i % 5], 1.0 + 0.1 * i)
                     for i in range(m)])


def ask(p, T, query, rs=None):
    if query == "mean":
        return p.mean_trajectory(T)
    if query == "cov":
        return p.cov_trajectory(T)
    if query == "var":
        return p.var_trajectory(T)
    if query == "vmean":
        return p.mean_velocities(T)
    if query == "vcov":
        return p.cov_velocities(T)
    if query == "vvar":
        return p.var_velocities(T)
    if query == "sample":
        return p.sample_trajectories(T, 3, rs)
    if query == "traj":
        return p.trajectory_from_weights(T, gen.vec(p.n_weights, "e", 3.0))
    if query == "ridge":
        return p.weights(T, points(p.n_dims, len(T)), lmbda=RIDGE)
    Y = p.trajectory_from_weights(T, gen.vec(p.n_weights, "d", 3.0))
    w = p.weights(T, Y)
    return p.trajectory_from_weights(T, w)


def run(case, rec):
    n, k, s = case["n"], case["k"], case["scale"]
    T = grid(case["grid"])
    mean, cov = dist(n, k, case["dist"])
    p = ProMP(n_dims=n, n_weights_per_dim=k)
    rec.ok(p.n_weights == n * k, "number of weights")
    if case["dist"] != "eye":
        r = p.from_weight_distribution(mean.copy(), cov.copy())
        rec.ok(r is p, "from_weight_distribution returns another object")
    for q in case.get("word", QUERIES):
        if q == "fit" and k > 12:  # ill-conditioned
            continue
        rs, rs2 = np.random.RandomState(7), np.random.RandomState(7)
        got = ask(p, s * T, q, rs)
        want = expected(n, k, mean, cov, T, q, rs2)
        scale = max(1.0, float(np.max(np.abs(want))))
        if q == "fit":
            rec.close(np.asarray(got) / scale, want / scale,
                      "trajectory of the fitted weights", atol=1e-3)
        else:
            rec.close(np.asarray(got) / scale, want / scale, q, atol=1e-7)
        if q in ("var", "vvar"):
            rec.ok(np.all(np.asarray(got) >= 0.0), q + " is negative")
        if q == "sample":
            rec.ok(rs.randint(1 << 30) == rs2.randint(1 << 30),
                   "random state was used differently")
        rec.call()
        rec.state(q, want)
    rec.same(p.weight_mean, mean, "mean after queries")
    rec.same(p.weight_cov, cov, "covariance after queries")
    rec.traces += 1
