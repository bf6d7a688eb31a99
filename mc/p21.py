"""P21: inverse kinematics returns admissible values with honest errors."""
import itertools
import math

import numpy as np

from . import gen, ref, robots
from movement_primitives.kinematics import Kinematics, pose_dist

PROPERTY = "P21"
ORACLE = ("independent forward kinematics and pose distance (atan2 form); "
          "joint limits and intervals of the description; best of the "
          "candidates recorded at the calls of the single-start solver; "
          "random numbers replaced by all vectors of a grid")
ASSUMPTIONS = [
    "the numerical optimisers of scipy are trusted to respect bounds; the "
    "check observes that the bounds handed to them are the right ones",
    "reachability is required only where the optimiser starts close to the "
    "target or has ten restarts"]
CHUNK = 4
CHAINS = {
    "P": ("planar", "b", "tool", ["q1", "q2"]),
    "X": ("spatial", "b", "tool", ["q1", "q2", "q3", "q4"]),
    "L": ("branched", "b", "lhand", ["t", "la1", "la2"]),
    "R": ("branched", "b", "rhand", ["t", "ra1", "ra2"]),
    "W": ("wide", "b", "tool", ["w1", "w2"]),
}
WEIGHTS = [(1.0, 1.0), (0.5, 1.0), (1.0, 0.25), (0.0, 1.0), (1.0, 0.0)]
SOLVERS = ["SLSQP", "L-BFGS-B", "COBYLA"]
BTOL = {"SLSQP": 1e-6, "L-BFGS-B": 1e-6, "COBYLA": 1e-3}
CONT = (-2.0, 2.0)
FRAC = {"quick": [0.0, 0.3, 0.5, 1.0], "thorough": [0.0, 0.15, 0.3, 0.5, 0.8,
                                                    1.0]}
POS = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.3, -0.2, 5.0), (1e-4, 0.0, 0.0)]
QUATS = ["id", "x90", "y90", "z90", "x180", "y180", "z180", "xyz120", "small",
         "gen", "gen2", "gen3"]


def bounds(tier):
    return {"pose distance": "all pairs of %d rotations x %d positions, %d "
            "weightings, %d frames" % (len(rotations()), len(POS),
                                       len(WEIGHTS), 4),
            "single start": "5 robots x target grid x start grid x 3 solvers "
            "x 5 weightings (quick: all weightings for one solver)", "restarts": "all sequences of random vectors "
            "from a grid x restarts 1..3 x tolerances", "local": "centres x "
            "targets x intervals x random vectors", "trajectory": "all joint "
            "paths of a grid, with/without restarts and initial guess"}


# -- pose distance ----------------------------------------------------------
def rotations():
    r = [np.stack([ref.qrot(gen.quat(n), e) for e in np.eye(3)], axis=1)
         for n in QUATS]
    for axis in itertools.product((-1.0, 0.0, 1.0), repeat=3):
        if axis > (0.0, 0.0, 0.0):
            r.append(robots._rot(axis, math.pi))
            r.append(robots._rot(axis, 3.1))
            r.append(robots._rot(axis, 1e-3))
    for axis in ((1, 2, 3), (-0.3, 0.7, 0.2), (5, 1, -2)):
        r.append(robots._rot(axis, math.pi))
    return r


def cases(tier):
    n = len(rotations())
    for i in range(n):
        yield {"case": "dist", "i": i}
    for name in CHAINS:
        for t in targets(name, tier):
            for s in starts(name):
                yield {"case": "single", "chain": name, "target": t,
                       "start": s, "tier": tier}
    for name in ("P", "L"):
        for t in targets(name, tier, 3):
            for u in itertools.product(range(len(UNIT)), repeat=2):
                for n in (1, 2, 3):
                    yield {"case": "restarts", "chain": name, "target": t,
                           "u": u, "n": n}
    for name in ("P", "X", "R", "W"):
        for c in targets(name, tier, 4 if name in "PW" else 2):
            for interval in (0.05, 0.3):
                yield {"case": "local", "chain": name, "centre": c,
                       "interval": interval}
    for name in ("P", "L", "X"):
        for p in itertools.product(range(len(MOVES)),
                                   repeat=2 if tier == "quick" else 3):
            for start in ("given", "none"):
                for restarts in (True, False):
                    yield {"case": "traj", "chain": name, "path": p,
                           "start": start, "restarts": restarts}


UNIT = [(0.5, 0.5, 0.5, 0.5), (0.05, 0.9, 0.3, 0.7), (0.95, 0.2, 0.8, 0.1)]
MOVES = [(0.05, -0.08, 0.03, 0.06), (-0.1, 0.1, -0.02, 0.0),
         (0.15, 0.15, 0.04, -0.1), (-0.19, 0.0, 0.0, 0.19)]


def at(name, frac):
    robot, _, _, joints = CHAINS[name]
    q = []
    for j, f in zip(joints, frac):
        lo, hi = robots.limits(robot, j)
        if not np.isfinite(lo):
            lo, hi = CONT
        q.append(lo + f * (hi - lo))
    return np.array(q)


def targets(name, tier, n=None):
    """Combinations of relative joint positions."""
    fr = FRAC[tier][:n] if n else FRAC[tier]
    joints = CHAINS[name][3]
    if len(joints) == 2:
        return list(itertools.product(fr, repeat=2))
    # Latin-square like: all pairs for the first two joints
    return [tuple(fr[(i + k * j) % len(fr)] for k in range(len(joints)))
            for i in range(len(fr)) for j in range(len(fr))]


def starts(name):
    return ["near", "middle", "limits", "beyond"]


def limits_of(name):
    robot, _, _, joints = CHAINS[name]
    return np.array([robots.limits(robot, j) for j in joints])


def fk(name, q):
    robot, base, ee, joints = CHAINS[name]
    return robots.fk(robot, base, ee, joints, q)


def chain(name):
    robot, base, ee, joints = CHAINS[name]
    return Kinematics(robots.urdf(robot)).create_chain(list(joints), base, ee)


def inside(rec, q, lo, hi, tol, what):
    q = np.asarray(q)
    rec.ok(q.shape == lo.shape and np.all(np.isfinite(q)),
           "%s: invalid joint values %s" % (what, q.tolist()))
    rec.ok(np.all(q >= lo - tol) and np.all(q <= hi + tol),
           "%s: %s not within [%s, %s]" % (what, q.tolist(), lo.tolist(),
                                          hi.tolist()))


class Choices(np.random.RandomState):
    """Random state that hands out the given unit vectors in turn."""
    def __init__(self, seq):
        super().__init__(0)
        self.seq = list(seq)
        self.n = 0

    def _next(self, size):
        u = self.seq[self.n % len(self.seq)]
        self.n += 1
        if size is None:
            return u[0]
        return np.resize(np.array(u, dtype=float), size)

    def rand(self, *d):
        return self._next(d if d else None)

    def random_sample(self, size=None):
        return self._next(size)

    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            shape = np.broadcast(np.asarray(low), np.asarray(high)).shape
            size = shape if shape else None
        return np.asarray(low) + (np.asarray(high) - low) * self._next(size)


def record(c):
    """Records (q, error or None) of every call of the single-start solver."""
    calls = []
    orig = c.inverse

    def inverse(*args, **kwargs):
        r = orig(*args, **kwargs)
        if isinstance(r, tuple):
            calls.append((np.array(r[0]), float(r[1])))
        else:
            calls.append((np.array(r), None))
        return r
    c.inverse = inverse
    return calls


def best_of(rec, name, target, q, calls, w, tolerance, n_restarts, what):
    """The result is the best candidate and the search stopped in time."""
    if not calls:
        return
    rec.ok(len(calls) <= n_restarts,
           "%s: %d starts, at most %d requested" % (what, len(calls),
                                                    n_restarts))
    errs = []
    for cq, ce in calls:
        e = robots.pose_distance(fk(name, cq), target, *w)
        errs.append(e)
        if ce is not None:
            rec.close(ce, e, what + ": error of a candidate", 2e-6)
    got = robots.pose_distance(fk(name, q), target, *w)
    rec.ok(got <= min(errs) + 2e-6,
           "%s: returned error %g although %g was found" % (what, got,
                                                            min(errs)))
    for i, e in enumerate(errs[:-1]):
        rec.ok(e > tolerance - 1e-7, "%s: search continued after error %g with "
               "tolerance %g" % (what, e, tolerance))
    if errs[-1] > tolerance + 1e-6:
        rec.ok(len(calls) == n_restarts,
               "%s: gave up with error %g after %d of %d starts"
               % (what, errs[-1], len(calls), n_restarts))


def run(case, rec):
    rec.traces += 1
    np.random.seed(len(case))
    before = np.random.get_state()
    globals()["run_" + case["case"]](case, rec)
    after = np.random.get_state()
    rec.ok(before[2] == after[2] and np.array_equal(before[1], after[1]),
           "the global random state was used instead of the given one")


def hom(r, p):
    return robots._hom(r, p)


def run_dist(case, rec):
    rots = rotations()
    frames = [hom(robots._rot((1, 2, -1), 0.7), (0.3, 1.0, -2.0)),
              hom(robots._rot((0, 0, 1), math.pi), (0.0, 0.0, 0.0)),
              hom(robots._rot((0.2, -1, 0.4), 2.9), (10.0, 0.0, 1.0))]
    for pa in POS[:3]:
        a = hom(rots[case["i"]], pa)
        for wo, wp in WEIGHTS:
            d = pose_dist(a.copy(), a.copy(), wo, wp)
            rec.call()
            rec.close(d, 0.0, "distance of a pose to itself", 1e-6)
        for j, pb in itertools.product(range(len(rots)), POS):
            b = hom(rots[j], pb)
            w = WEIGHTS[(case["i"] + j) % len(WEIGHTS)]
            a0, b0 = a.copy(), b.copy()
            for wo, wp in ((1.0, 1.0), w):
                want = robots.pose_distance(a, b, wo, wp)
                got = pose_dist(a, b, wo, wp)
                rec.call()
                rec.close(got, want, "pose distance, weights %s" % ((wo, wp),),
                          1e-6, 1e-7)
            rec.ok(np.array_equal(a, a0) and np.array_equal(b, b0),
                   "pose_dist modified its arguments")
            f = frames[j % len(frames)]
            got = pose_dist(f.dot(a), f.dot(b), wo, wp)
            rec.call()
            rec.close(got, want, "pose distance in another frame", 2e-6, 1e-7)
            rec.state("dist", got)


def run_single(case, rec):
    name = case["chain"]
    goal = at(name, case["target"])
    target = fk(name, goal)
    lim = limits_of(name)
    lo = np.where(np.isfinite(lim[:, 0]), lim[:, 0], -math.pi)
    hi = np.where(np.isfinite(lim[:, 1]), lim[:, 1], math.pi)
    off = np.resize([0.1, -0.1, 0.05], len(goal))
    start = {"near": np.clip(goal + off, lo, hi), "middle": 0.5 * (lo + hi),
             "limits": np.where(np.arange(len(lo)) % 2 == 0, lo, hi),
             "beyond": hi + 0.5}[case["start"]]
    c = chain(name)
    for solver in SOLVERS:
        for w in (WEIGHTS if case["tier"] == "thorough"
                  or solver == "SLSQP" else WEIGHTS[1:2]):
            what = "%s, weights %s, %s start" % (solver, w, case["start"])
            s0, t0 = start.copy(), target.copy()
            r = c.inverse(target, start, return_error=True, solver=solver,
                          orientation_weight=w[0], position_weight=w[1])
            rec.call()
            rec.ok(len(r) == 2, "return_error ignored")
            q, e = r
            inside(rec, q, lo, hi, BTOL[solver], what)
            d = robots.pose_distance(fk(name, q), target, *w)
            rec.close(e, d, what + ": reported error", 2e-6)
            rec.state(name, q)
            if case["start"] == "near":
                rec.ok(d <= REACH[solver],
                       "%s: error %g at a target next to the start"
                       % (what, d))
            b = np.stack((np.maximum(lo, goal - 0.2),
                          np.minimum(hi, goal + 0.1)), axis=1)
            b0 = b.copy()
            q = c.inverse(target, start, bounds=b, solver=solver,
                          orientation_weight=w[0], position_weight=w[1])
            rec.call()
            inside(rec, q, b[:, 0], b[:, 1], BTOL[solver],
                   what + ", explicit bounds")
            rec.ok(np.array_equal(start, s0) and np.array_equal(target, t0)
                   and np.array_equal(b, b0), "inverse modified its arguments")
            rec.close(c.ee_pose_error(start, target, *w),
                      robots.pose_distance(fk(name, start), target, *w),
                      "pose error", 2e-6)
            rec.call()
        q1 = c.inverse(target, start, solver=solver)
        q2, e2 = c.inverse(target, start, True, solver=solver)
        rec.call(2)
        rec.same(q1, q2, "solution with and without return_error")


REACH = {"SLSQP": 0.05, "L-BFGS-B": 0.05, "COBYLA": 0.05}
REACH_RESTARTS = 5e-3


def run_restarts(case, rec):
    name = case["chain"]
    goal = at(name, case["target"])
    target = fk(name, goal)
    lim = limits_of(name)
    for tol, w in itertools.product((1e-3, 0.0, 0.5), WEIGHTS[:3]):
        c = chain(name)
        calls = record(c)
        rs = Choices([UNIT[i] for i in case["u"]] + UNIT)
        q = c.inverse_with_random_restarts(
            target, n_restarts=case["n"], tolerance=tol, random_state=rs,
            orientation_weight=w[0], position_weight=w[1])
        rec.call()
        what = "restarts, tolerance %g, weights %s" % (tol, w)
        inside(rec, q, lim[:, 0], lim[:, 1], 1e-6, what)
        best_of(rec, name, target, q, calls, w, tol, case["n"], what)
        rec.state(name, q)
        c = chain(name)
        calls = record(c)
        rs = Choices([UNIT[i] for i in case["u"]] + UNIT)
        centre = at(name, [1.0 - f for f in case["target"]])
        q = c.local_inverse_with_random_restarts(
            target, centre, 0.4, n_restarts=case["n"], tolerance=tol,
            random_state=rs, orientation_weight=w[0], position_weight=w[1])
        rec.call()
        what = "local " + what
        inside(rec, q, np.maximum(lim[:, 0], centre - 0.4),
               np.minimum(lim[:, 1], centre + 0.4), 1e-6, what)
        best_of(rec, name, target, q, calls, w, tol, case["n"], what)
        rec.state(name, q)


def run_local(case, rec):
    name = case["chain"]
    c = chain(name)
    centre = at(name, case["centre"])
    lim = limits_of(name)
    d = case["interval"]
    lo = np.maximum(lim[:, 0], centre - d)
    hi = np.minimum(lim[:, 1], centre + d)
    n = len(centre)
    dirs = [np.array(s) for s in itertools.product((-1.0, 1.0), repeat=min(
        n, 2))]
    for s, r, u in itertools.product(dirs, (0.5, 0.9, 2.5), range(len(UNIT))):
        goal = np.clip(centre + r * d * np.resize(s, n), lim[:, 0], lim[:, 1])
        target = fk(name, goal)
        for solver in SOLVERS[:2]:
            q = c.local_inverse_with_random_restarts(
                target, centre, d, random_state=Choices([UNIT[u]] + UNIT),
                solver=solver)
            rec.call()
            what = "local solution, %s, interval %g" % (solver, d)
            inside(rec, q, lo, hi, BTOL[solver], what)
            e = robots.pose_distance(fk(name, q), target)
            if r <= 1.0:
                rec.ok(e <= REACH_RESTARTS,
                       "%s: error %g at a target within the interval"
                       % (what, e))
            rec.state(name, q)


def run_traj(case, rec):
    name = case["chain"]
    lim = limits_of(name)
    n = len(CHAINS[name][3])
    q = at(name, [0.4] * n)
    Q = [q]
    for m in case["path"]:
        q = np.clip(q + np.array(MOVES[m][:n]), lim[:, 0], lim[:, 1])
        Q.append(q)
    Q.append(np.clip(q + 0.6, lim[:, 0], lim[:, 1]))  # too far for one step
    H = np.array([fk(name, q) for q in Q])
    H0 = H.copy()
    for interval, w in ((0.2, (1.0, 1.0)), (0.05, (1.0, 1.0)),
                        (0.2, (0.5, 1.0))):
        c = chain(name)
        got = c.inverse_trajectory(
            H, initial_joint_angles=Q[0] + 0.03 if case["start"] == "given"
            else None, interval=interval, random_restarts=case["restarts"],
            random_state=Choices(UNIT), orientation_weight=w[0],
            position_weight=w[1])
        rec.call()
        rec.ok(np.array_equal(H, H0), "inverse_trajectory modified its poses")
        rec.ok(got.shape == (len(Q), n), "shape of the solution")
        what = "trajectory solution, interval %g, restarts %s" % (
            interval, case["restarts"])
        for t in range(len(Q)):
            inside(rec, got[t], lim[:, 0], lim[:, 1], 1e-6, what)
            if t > 0:
                inside(rec, got[t], got[t - 1] - interval,
                       got[t - 1] + interval, 1e-6, what + ", step %d" % t)
            rec.state(name, got[t])
        if interval == 0.2 and case["restarts"]:
            for t in range(len(Q) - 1):
                e = robots.pose_distance(fk(name, got[t]), H[t])
                rec.ok(e <= REACH_RESTARTS, "%s: error %g at reachable pose %d"
                       % (what, e, t))
