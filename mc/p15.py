"""P15: ProMP learning fits the demonstrations and is well formed."""
import itertools
import math

import numpy as np

from . import gen
from .p13 import basis
from movement_primitives.promp import ProMP

PROPERTY = "P15"
ORACLE = ("mean and spread of the demonstrations (generated from known "
          "weights by an independent basis-function model); symmetry and "
          "positive semi-definiteness; equality over all orders, time scales "
          "and repetitions")


def bounds(tier):
    return {"fit": "all of 1-3 dimensions x weights per dimension x 1-5 "
            "demonstrations x lengths x weight families x stopping rules",
            "orders": "all permutations of up to %d demonstrations"
            % (4 if tier == "quick" else 5)}


def cases(tier):
    ks = (2, 4, 6) if tier == "quick" else (2, 3, 4, 5, 6, 8)
    for n, k, m in itertools.product((1, 2, 3), ks, (1, 2, 3, 5)):
        for length in ("20", "50", "mixed", "uneven", "warped"):
            for fam in ("a", "b", "big", "spread", "shared"):
                for stop in ("default", "exact"):
                    yield {"case": "fit", "n": n, "k": k, "m": m,
                           "length": length, "family": fam, "stop": stop}
    for n, k in ((1, 4), (2, 3)):
        for length in ("20", "mixed", "unequal"):
            for m in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
                for perm in itertools.permutations(range(m)):
                    for noise in (0.0, 0.1, 1.0):
                        yield {"case": "order", "n": n, "k": k, "m": m,
                               "length": length, "perm": list(perm),
                               "noise": noise}
            for s in (2.0, 0.1, 100.0):
                yield {"case": "scale", "n": n, "k": k, "m": 3,
                       "length": length, "scale": s}
            for m in (1, 2, 4):
                yield {"case": "noise", "n": n, "k": k, "m": m,
                       "length": length}
        yield {"case": "balanced", "n": n, "k": k}


def demo_weights(n, k, m, fam):
    out = []
    for i in range(m):
        w = np.array([math.sin(1.3 * i + 2.1 * j) + (j % 3)
                      for j in range(n * k)])
        if fam == "b":
            w = np.array([math.cos(0.7 * i * j + j) * 2 - 1 + 0.2 * i
                          for j in range(n * k)])
        elif fam == "big":
            w = 10.0 * w + 5.0
        elif fam == "spread":
            w = w + 3.0 * i
        elif fam == "shared":  # all demonstrations equal
            w = np.array([math.sin(2.1 * j) + (j % 3) for j in range(n * k)])
        out.append(w)
    return out


def times(m, length):
    if length == "uneven":
        return [np.linspace(0, 1, 25 + 5 * (i % 2)) ** 1.3 for i in range(m)]
    if length == "warped":  # equal numbers of samples at different times
        return [np.linspace(0, 1, 25) ** [1.0, 1.4, 0.8][i % 3]
                for i in range(m)]
    if length == "unequal":
        return [np.linspace(0, 1, [10, 60, 25][i % 3]) for i in range(m)]
    if length == "mixed":
        return [np.linspace(0, 1, 20 + 10 * (i % 3)) for i in range(m)]
    return [np.linspace(0, 1, int(length))] * m


def traj(n, k, T, w):
    return np.kron(np.eye(n), np.array([basis(k, t) for t in T])).dot(
        w).reshape(n, len(T)).T


GRID = np.linspace(0, 1, 11)


def learn(n, k, Ts, Ys, rec, **kw):
    p = ProMP(n, k)
    p.imitate([T.copy() for T in Ts], [Y.copy() for Y in Ys], **kw)
    rec.call()
    C = p.weight_cov
    rec.ok(np.all(np.isfinite(C)) and np.all(np.isfinite(p.weight_mean)),
           "learned distribution is not finite")
    top = max(1.0, float(np.max(np.abs(C))))
    rec.close(C / top, C.T / top, "symmetry of the covariance", atol=1e-6)
    rec.ok(np.linalg.eigvalsh((C + C.T) / 2).min() > -1e-5 * top,
           "covariance is not positive semi-definite")
    rec.state(p.weight_mean)
    return p


def check_fit(rec, p, n, k, W, tol, key=None):
    M = np.array([traj(n, k, GRID, w) for w in W])
    size = max(1.0, float(np.max(np.abs(M))))
    rec.close(p.mean_trajectory(GRID) / size, M.mean(axis=0) / size,
              "mean trajectory", atol=tol, key=key)
    rec.close(p.var_trajectory(GRID) / size ** 2, M.var(axis=0) / size ** 2,
              "variance of the trajectories", atol=tol, key=key)


def setup(case, fam="a"):
    n, k, m = case["n"], case["k"], case["m"]
    W = demo_weights(n, k, m, case.get("family", fam))
    Ts = times(m, case["length"])
    return n, k, W, Ts, [traj(n, k, T, w) for T, w in zip(Ts, W)]


def run(case, rec):
    globals()["run_" + case["case"]](case, rec)
    rec.traces += 1


def run_fit(case, rec):
    n, k, W, Ts, Ys = setup(case)
    kw = {} if case["stop"] == "default" else {"n_iter": 60, "min_delta": 0.0}
    p = learn(n, k, Ts, Ys, rec, **kw)
    check_fit(rec, p, n, k, W, 1e-3)
    q = learn(n, k, Ts, Ys, rec, **kw)
    rec.same(p.weight_mean, q.weight_mean, "second learning: mean")
    rec.same(p.weight_cov, q.weight_cov, "second learning: covariance")


def run_order(case, rec):
    n, k, W, Ts, Ys = setup(case)
    Ys = [Y + case["noise"] * np.cos(37 * T + i)[:, np.newaxis]
          for i, (T, Y) in enumerate(zip(Ts, Ys))]
    p = learn(n, k, Ts, Ys, rec)
    q = learn(n, k, [Ts[i] for i in case["perm"]],
              [Ys[i] for i in case["perm"]], rec)
    rec.close(q.weight_mean, p.weight_mean, "permuted: mean", atol=1e-5)
    rec.close(q.weight_cov, p.weight_cov, "permuted: covariance", atol=1e-5)
    if not case["noise"]:
        check_fit(rec, q, n, k, W, 1e-3)


def run_scale(case, rec):
    n, k, W, Ts, Ys = setup(case)
    p = learn(n, k, Ts, Ys, rec)
    q = learn(n, k, [case["scale"] * T for T in Ts], Ys, rec)
    rec.close(q.weight_mean, p.weight_mean, "time scale: mean", atol=1e-5)
    rec.close(q.weight_cov, p.weight_cov, "time scale: covariance", atol=1e-5)
    r = learn(n, k, [(i + 1) * T for i, T in enumerate(Ts)], Ys, rec)
    rec.close(r.weight_mean, p.weight_mean, "mixed time scales: mean",
              atol=1e-5)


def run_noise(case, rec):
    """Small unrepresentable deviations do not change the picture."""
    n, k, W, Ts, Ys = setup(case)
    Ys = [Y + 0.01 * np.sin(60 * T + i)[:, np.newaxis]
          for i, (T, Y) in enumerate(zip(Ts, Ys))]
    p = learn(n, k, Ts, Ys, rec)
    check_fit(rec, p, n, k, W, 0.03)


def run_balanced(case, rec):
    """Demonstrations symmetric about zero."""
    n, k = case["n"], case["k"]
    w = gen.vec(n * k, "b", 3.0)
    W = [w, -w]
    Ts = times(2, "50")
    Ys = [traj(n, k, T, x) for T, x in zip(Ts, W)]
    p = learn(n, k, Ts, Ys, rec)
    check_fit(rec, p, n, k, W, 1e-2, key="mean-of-demonstrations-zero")
