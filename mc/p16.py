"""P16: minimum-jerk trajectories connect start and goal exactly."""
import itertools

import numpy as np

from . import core, gen
from movement_primitives.data import generate_minimum_jerk
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory

PROPERTY = "P16"
ORACLE = ("closed-form minimum-jerk polynomial (position, velocity and "
          "acceleration), boundary, monotonicity and straight-line "
          "invariants; index model of stepwise execution")
DTS = [0.1, 0.01, 0.02, 0.05, 0.125, 0.03125, 0.2, 0.25, 0.001]
STEPS = [2, 3, 4, 5, 7, 8, 10, 16, 33, 50, 100, 101, 128, 250]
ENDS = ["up", "down", "same", "mixed", "far", "tiny", "int", "list",
        "intgoal", "intstart", "part", "zerogoal"]
OPS = ["S", "R", "g", "s", "b"]
ASSUMPTIONS = ["the execution time is at least two steps long"]


# dimensions, execution time, step
SETUPS = [(2, 0.5, 0.125), (1, 0.5, 0.125), (7, 0.5, 0.125), (3, 24.0, 4.0),
          (2, 0.04, 0.01), (2, 3.0, 0.0625)]


def bounds(tier):
    return {"trajectories": "all of %d step sizes x %d step counts x %d end "
            "point pairs x 4 dimensions" % (
                len(DTS), len(STEPS) if tier == "quick" else 200, len(ENDS)),
            "histories": "all words of length %d over step, reset and 3 "
            "reconfigurations" % (5 if tier == "quick" else 7)}


def cases(tier):
    steps = STEPS if tier == "quick" else list(range(2, 202))
    for dt, n in itertools.product(DTS, steps):
        for e in ENDS:
            for d in (1, 2, 3, 7):
                yield {"case": "gen", "dt": dt, "n": n, "ends": e, "d": d}
    for w in core.words(OPS, 5 if tier == "quick" else 7):
        yield {"case": "steps", "word": w}
    for k in range(1, len(SETUPS)):
        for w in core.words(OPS, 3 if tier == "quick" else 5):
            yield {"case": "steps", "word": w, "setup": k}


def ends(e, d):
    a, b = gen.vec(d, "a", 2.0), gen.vec(d, "e", 3.0)
    if e == "up":
        return np.zeros(d), np.ones(d)
    if e == "down":
        return np.ones(d) * 2, -np.ones(d)
    if e == "same":
        return a, a.copy()
    if e == "mixed":
        return a, b
    if e == "far":
        return 1e6 * a, 1e6 * b
    if e == "part":
        return a, a + gen.vec(d, "part", 2.0)
    if e == "zerogoal":
        return a, np.zeros(d)
    if e == "tiny":
        return a, a + 1e-6 * b
    if e == "intgoal":
        return a, np.arange(d) * -3 + 5
    if e == "intstart":
        return np.arange(d), b
    if e == "int":
        return np.arange(d), np.arange(d) * -3 + 5
    return [float(x) for x in a], [float(x) for x in b]


def curve(T, D, a, b):
    """Minimum-jerk motion of duration D sampled at T, then rest."""
    s = np.minimum(T / D, 1.0)[:, np.newaxis]
    d = (b - a)[np.newaxis]
    on = (s < 1.0)
    return (a + d * (10 * s ** 3 - 15 * s ** 4 + 6 * s ** 5),
            on * d * (30 * s ** 2 - 60 * s ** 3 + 30 * s ** 4) / D,
            on * d * (60 * s - 180 * s ** 2 + 120 * s ** 3) / D ** 2)


def run(case, rec):
    {"gen": run_gen, "steps": run_steps}[case["case"]](case, rec)
    rec.traces += 1


def run_gen(case, rec):
    dt, n = case["dt"], case["n"]
    tau = n * dt
    a, b = ends(case["ends"], case["d"])
    X, V, A = generate_minimum_jerk(a, b, tau, dt)
    rec.call()
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    size = max(1e-9, float(np.max(np.abs(b - a))), 1e-6 * np.max(np.abs(a)))
    for name, x in (("positions", X), ("velocities", V),
                    ("accelerations", A)):
        rec.ok(x.shape == (n + 1, case["d"]), "%s have shape %s instead of %s"
               % (name, x.shape, (n + 1, case["d"])))
    rec.close(X[0], a, "first position", atol=1e-12)
    rec.close((X[-1] - b) / size, 0 * b, "last position", atol=1e-6)
    for i in (0, -1):
        rec.close(V[i] * tau / size, 0 * b, "velocity at the ends", atol=1e-6)
        rec.close(A[i] * tau ** 2 / size, 0 * b, "acceleration at the ends",
                  atol=1e-4)
    step = np.diff(X, axis=0) * np.sign(b - a)
    rec.ok(np.all(step >= -1e-7 * size), "not monotone")
    s = (X - a) / np.where(b == a, 1.0, b - a)
    s[:, b == a] = s[:, [int(np.argmax(np.abs(b - a)))]]
    if np.max(np.abs(b - a)) > 0:
        rec.close(s, np.repeat(s[:, :1], case["d"], axis=1), "straight line",
                  atol=1e-5)
    # the shape is the minimum-jerk polynomial
    T = np.arange(n + 1) * dt
    best = None
    for D in (tau - dt, tau):
        x, v, acc = curve(T, D, a, b)
        e = max(np.max(np.abs(X - x)) / size,
                np.max(np.abs(V - v)) * tau / size,
                np.max(np.abs(A - acc)) * tau ** 2 / size * 1e-2)
        best = e if best is None or not e >= best else best
    rec.ok(best < 1e-5, "trajectory deviates from the minimum-jerk "
           "polynomial by %g of its length" % best)
    rec.state(case["ends"], str(n), X[n // 2])


def run_steps(case, rec):
    n, tau, dt = SETUPS[case.get("setup", 0)]
    starts = [np.resize([0.0, 1.0, 5.0], n), np.resize([-2.0, 0.5, 5.0], n)]
    goals = [np.resize([1.0, -1.0, 5.0], n), np.resize([3.0, 4.0, 0.0], n)]
    m = MinimumJerkTrajectory(n, tau, dt)
    si = gi = 0
    m.configure(start_y=starts[0].copy(), goal_y=goals[0].copy())
    cur, idx = None, 0
    kept = []
    for o in case["word"]:
        if o == "S":
            if cur is None:
                cur = generate_minimum_jerk(starts[si], goals[gi], tau, dt)
            if idx >= len(cur[0]):
                continue
            # the current state passed in does not influence the plan
            y, yd = m.step(9.0 * np.ones(n), np.resize([1.0, -1.0], n))
            rec.close(y, cur[0][idx], "position %d" % idx, atol=1e-12)
            rec.close(yd, cur[1][idx], "velocity %d" % idx, atol=1e-12)
            rec.state(y, yd)
            kept.append((y, yd, y.copy(), yd.copy()))
            idx += 1
        elif o == "R":
            m.reset()
            cur, idx = None, 0
        elif o == "g":
            gi = 1 - gi
            m.configure(goal_y=goals[gi].copy())
        elif o == "s":
            si = 1 - si
            m.configure(start_y=starts[si].copy())
        else:
            m.configure(start_yd=3.0 * np.ones(n))
        rec.call()
    m.reset()
    want = generate_minimum_jerk(starts[si], goals[gi], tau, dt)
    y, yd = np.zeros(n), np.zeros(n)
    for i in range(5):
        y, yd = m.step(y, yd)
        rec.close(y, want[0][i], "position %d after reset" % i, atol=1e-12)
        rec.close(yd, want[1][i], "velocity %d after reset" % i, atol=1e-12)
        rec.call()
    for y, yd, y0, yd0 in kept:
        rec.same(y, y0, "earlier result")
        rec.same(yd, yd0, "earlier result")
