"""P20: forward kinematics is a function of the clipped joint values."""
import itertools

import numpy as np

from . import core, robots
from movement_primitives.kinematics import Kinematics

PROPERTY = "P20"
ORACLE = ("independent forward kinematics (product of Rodrigues rotations and "
          "translations, values clipped to the limits); every query of a "
          "history must give the value of the same query alone")
CHUNK = 16
# name: (robot, base, end effector, joints)
CHAINS = {
    "S": ("serial", "b", "tool", ["s1", "s2", "s3", "s4"]),
    "S2": ("serial", "l1", "tool", ["s4", "s2", "s3"]),
    "Sup": ("serial", "tool", "b", ["s1", "s2", "s3", "s4"]),
    "S1": ("serial", "b", "l2", ["s2", "s1"]),
    "L": ("branched", "b", "lhand", ["t", "la1", "la2"]),
    "R": ("branched", "b", "rhand", ["t", "ra1", "ra2"]),
    "LR": ("branched", "lhand", "rhand", ["la1", "la2", "ra1", "ra2"]),
    "T": ("branched", "b", "torso", ["t"]),
    "P": ("planar", "b", "tool", ["q1", "q2"]),
    "X": ("spatial", "b", "tool", ["q1", "q2", "q3", "q4"]),
    "W": ("wide", "b", "tool", ["w1", "w2"]),
}
HISTORY = {"serial": ["S", "S2", "Sup", "S1"],
           "branched": ["L", "R", "LR", "T"]}
# values of a joint: relative position in its range
GRID = {"quick": [-0.3, 0.0, 0.35, 1.0, 1.4],
        "thorough": [-50.0, -0.3, 0.0, 0.1, 0.35, 0.5, 1.0, 1.4]}
CONT = {"quick": [-7.0, -1.0, 0.0, 2.5, 3.5],
        "thorough": [-100.0, -7.0, -1.0, 0.0, 1.5707963267948966, 2.5, 3.5,
                     9.0]}


def depth(tier):
    return 3 if tier == "quick" else 4


def bounds(tier):
    return {"poses": "all vectors over %d values per joint (inside, at, "
            "beyond limits), %d chains" % (len(GRID[tier]), len(CHAINS)),
            "histories": "all words of length %d over forward with two joint "
            "vectors and forward_trajectory on four chains of a robot"
            % depth(tier), "construction": "chains created before/between "
            "queries"}


def value(robot, joint, i, tier):
    lo, hi = robots.limits(robot, joint)
    if not np.isfinite(lo):
        return CONT[tier][i]
    return lo + GRID[tier][i] * (hi - lo)


def vector(name, idx, tier="quick"):
    robot, _, _, joints = CHAINS[name]
    return np.array([value(robot, j, i, tier) for j, i in zip(joints, idx)])


def cases(tier):
    n = len(GRID[tier])
    for name, (_, _, _, joints) in CHAINS.items():
        for first in itertools.product(range(n), repeat=min(2, len(joints))):
            yield {"case": "grid", "chain": name, "first": first,
                   "tier": tier}
    for robot, chains in HISTORY.items():
        ops = [(c, k) for c in chains for k in ("a", "b", "traj")]
        for w in core.words(ops, depth(tier) - 1):
            yield {"case": "history", "robot": robot, "word": w,
                   "ops": ops}


def chain(kin, name):
    robot, base, ee, joints = CHAINS[name]
    return kin.create_chain(list(joints), base, ee)


def want(name, q):
    robot, base, ee, joints = CHAINS[name]
    return robots.fk(robot, base, ee, joints, q)


PATTERN = {"a": [2, 3, 1, 0], "b": [4, 1, 2, 3]}


def query(c, name, kind, rec, prefix):
    n = len(CHAINS[name][3])
    if kind == "traj":
        Q = np.array([vector(name, [(i + 2 * j) % 5 for j in range(n)])
                      for i in range(4)])
        got = c.forward_trajectory(Q)
        rec.call()
        rec.close(got, [want(name, q) for q in Q],
                  prefix + "trajectory on chain %s" % name)
        return got, got.copy()
    q = vector(name, PATTERN[kind][:n])
    got = c.forward(q)
    rec.call()
    rec.close(got, want(name, q), prefix + "pose of chain %s" % name)
    return got, got.copy()


def run(case, rec):
    rec.traces += 1
    if case["case"] == "grid":
        name = case["chain"]
        robot, _, _, joints = CHAINS[name]
        kin = Kinematics(robots.urdf(robot))
        c = chain(kin, name)
        n = len(GRID[case["tier"]])
        rest = len(joints) - len(case["first"])
        Q = []
        for tail in itertools.product(range(n), repeat=rest):
            q = vector(name, list(case["first"]) + list(tail), case["tier"])
            before = q.copy()
            got = c.forward(q)
            rec.call()
            rec.close(got, want(name, q), "pose at %s" % q.tolist())
            rec.same(q, before, "joint values passed to forward")
            rec.state(name, got)
            Q.append(q)
        poses = c.forward_trajectory(np.array(Q))
        rec.close(poses, [want(name, q) for q in Q], "forward_trajectory")
        rec.close(c.forward(list(Q[0])), want(name, Q[0]), "pose for a list")
        rec.call(2)
        return
    # all histories: the word of the case extended by each operation
    robot = case["robot"]
    for last in case["ops"]:
        kin = Kinematics(robots.urdf(robot))
        early = {n: chain(kin, n) for n in HISTORY[robot]}
        held = []
        for i, (name, kind) in enumerate(list(case["word"]) + [last]):
            c = early[name] if i % 2 == 0 else chain(kin, name)
            held.append(query(c, name, kind, rec, "query %d: " % (i + 1)))
            rec.state(robot, name, kind, held[-1][1])
        for i, (got, copy) in enumerate(held):
            rec.same(got, copy, "result %d after later queries" % (i + 1))
