"""P30: synthetic demonstrations are reproducible and meet their spec."""
import itertools
import math

import numpy as np

from . import core
from movement_primitives.data import generate_1d_trajectory_distribution
from movement_primitives.data._toy_1d import (
    create_finite_differences_matrix_1d)

PROPERTY = "P30"
ORACLE = ("closed form of the nominal trajectory and of the finite-difference "
          "operator, linearity and range of offsets, proportionality of "
          "noise; each call of a history against the same call in a fresh "
          "state")
DEMOS = [1, 2, 5]
STEPS = [2, 3, 5, 11, 50]
INITIAL = [0.0, 3.0, 0.5]
FINAL = [0.0, 0.1, 2.0]
NOISE = [0.0, 20.0, 1.0]
SEEDS = [None, 0, 1, 7]
CALLS = [dict(n_demos=2, n_steps=5), dict(n_demos=1, n_steps=4),
         dict(n_demos=3, n_steps=3, noise_per_step_range=0.0),
         dict(n_demos=2, n_steps=5, initial_offset_range=0.0,
              final_offset_range=0.0)]
OPS = ["0", "1", "2", "3", "s0", "s1", "g", "m"]


def depth(tier):
    return 4 if tier == "quick" else 5


def bounds(tier):
    return {"arguments": "all combinations of %d demonstration counts x %d "
            "lengths x %d x %d offset ranges x %d noise ranges x %d seeds"
            % tuple(len(x) for x in (DEMOS, STEPS, INITIAL, FINAL, NOISE,
                                     SEEDS)),
            "histories": "all words of %d calls over %s (calls with default "
            "and given generators, use of the global generator, modification "
            "of results)" % (depth(tier), OPS),
            "operator": "all lengths 1..%d, 4 steps, all unit vectors"
            % longest(tier)}


def longest(tier):
    return 30 if tier == "quick" else 120


def cases(tier):
    for n, s in itertools.product(DEMOS, STEPS):
        for seed in SEEDS:
            yield {"case": "args", "n": n, "s": s, "seed": seed}
    for a in itertools.product(OPS, repeat=2):
        yield {"case": "history", "prefix": list(a), "depth": depth(tier)}
    for n in range(1, longest(tier) + 1):
        yield {"case": "operator", "n": n}


def state(seed):
    return None if seed is None else np.random.RandomState(seed)


def nominal(n):
    return np.array([math.cos(2.0 * math.pi * i / (n - 1)) for i in range(n)])


def run_args(case, rec):
    n, s, seed = case["n"], case["s"], case["seed"]

    def gen(i, f, noise, sd=seed):
        T, Y = generate_1d_trajectory_distribution(
            n, s, i, f, noise, random_state=state(sd))
        rec.call()
        rec.ok(np.shape(Y) == (n, s, 1), "shape %s" % (np.shape(Y),))
        rec.close(T, [k / (s - 1) for k in range(s)], "times", 1e-12, 0)
        return np.array(Y)[:, :, 0]
    base = np.array([nominal(s)] * n)
    for i, f in itertools.product(INITIAL, FINAL):
        what = "%d demonstrations of %d steps, offsets %g and %g" % (n, s, i, f)
        Y = gen(i, f, 0.0)
        O = Y - base
        lin = np.array([[(1 - k / (s - 1)) * o[0] + k / (s - 1) * o[-1]
                         for k in range(s)] for o in O])
        rec.close(O, lin, what + ": offset is not linear", 1e-12, 1e-12)
        rec.ok(np.all(np.abs(O[:, 0]) <= 0.5 * i + 1e-12),
               what + ": initial offset %s out of range" % O[:, 0])
        rec.ok(np.all(np.abs(O[:, -1]) <= 0.5 * f + 1e-12),
               what + ": final offset %s out of range" % O[:, -1])
        if i and n > 1:
            rec.ok(len({round(float(o), 9) for o in O[:, 0]}) == n,
                   what + ": equal offsets of different demonstrations")
        if f and n > 1:
            rec.ok(len({round(float(o), 9) for o in O[:, -1]}) == n,
                   what + ": equal final offsets")
        # the offsets scale with their ranges
        if i and f:
            rec.close(gen(2 * i, 2 * f, 0.0) - base, 2.0 * O,
                      what + ": offsets do not scale", 1e-12, 1e-12)
        Y1, Y2 = gen(i, f, 1.0), gen(i, f, 20.0)
        rec.close(gen(i, f, 20.0), Y2, what + ": repeated call", 0, 0)
        M = Y2 - Y1
        # same random numbers: noise is proportional to its range
        rec.close(gen(i, f, 39.0) - Y2, M, what + ": noise does not scale",
                  1e-9, 1e-9)
        rec.ok(np.all(np.abs(M) > 0), what + ": no noise")
        rec.ok(np.linalg.matrix_rank(M, 1e-9) == min(n, s),
               what + ": noise of demonstrations is not independent")
        # white accelerations: the noise is smooth and pinned at both ends
        if s > 3:
            A = create_finite_differences_matrix_1d(s, 1.0 / (s - 1))
            x = np.array(A) @ (M[0] / 19.0)
            rec.ok(np.sqrt(np.mean(x ** 2)) < 6.0,
                   what + ": accelerations of the noise are not of unit size")
        if not i and not f:
            rec.close(Y, base, what + ": nominal trajectory", 1e-12, 0)
        rec.state(what, Y2, float(seed if seed is not None else -1))
    rec.traces += 1


def fresh(call, seed_history):
    """The same call on a generator that made the same earlier calls."""
    seed, calls = seed_history
    r = np.random.RandomState(seed)
    out = None
    for c in calls + [call]:
        out = generate_1d_trajectory_distribution(random_state=r, **c)
    return out


def run_history(case, rec):
    alone = [[np.array(a) for a in generate_1d_trajectory_distribution(**c)]
             for c in CALLS]
    for tail in core.words(OPS, case["depth"] - 2):
        word = case["prefix"] + tail
        gens = {"s0": np.random.RandomState(0), "s1": np.random.RandomState(1)}
        made = {"s0": [], "s1": []}
        last = None
        for i, op in enumerate(word):
            what = "after %s" % word[:i]
            if op == "g":
                np.random.seed(3)
                np.random.rand(5)
            elif op == "m":
                if last is not None:
                    for a in last:
                        a += 1.0
            elif op in gens:
                call = CALLS[i % len(CALLS)]
                last = generate_1d_trajectory_distribution(
                    random_state=gens[op], **call)
                want = fresh(call, (int(op[1]), made[op]))
                made[op].append(call)
                for a, b in zip(last, want):
                    rec.same(a, b, "call with generator %s %s" % (op, what))
            else:
                k = int(op)
                before = np.random.get_state()
                last = generate_1d_trajectory_distribution(**CALLS[k])
                after = np.random.get_state()
                rec.ok(np.array_equal(before[1], after[1])
                       and before[2] == after[2],
                       "global generator was used %s" % what)
                for a, b in zip(last, alone[k]):
                    rec.same(a, b, "default call %d %s" % (k, what))
            rec.call()
            rec.state("h", str(sorted(made.items())), op)
        rec.traces += 1


def run(case, rec):
    if case["case"] == "args":
        return run_args(case, rec)
    if case["case"] == "history":
        return run_history(case, rec)
    n = case["n"]
    for dt in (1.0, 0.25, 0.1, 3.0):
        A = np.array(create_finite_differences_matrix_1d(n, dt))
        rec.call()
        rec.ok(A.shape == (n + 2, n), "shape of operator %s" % (A.shape,))
        for j in range(n):
            # padded with zeros, row i is the second difference around i - 1
            y = [0.0, 0.0] + [1.0 if i == j else 0.0 for i in range(n)] \
                + [0.0, 0.0]
            want = [(y[i] - 2.0 * y[i + 1] + y[i + 2]) / dt ** 2
                    for i in range(n + 2)]
            rec.close(A[:, j], want, "operator for %d steps of %g, unit "
                      "vector %d" % (n, dt, j), 1e-12, 1e-12)
        rec.state("A", A)
    rec.traces += 1
