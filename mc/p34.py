"""P34: simulated robots are independent and report consistent states."""
import itertools
import math
import os
import shutil
import sys
import tempfile

import numpy as np

from . import build, core, gen, ref, robots

PROPERTY = "P34"
ORACLE = ("independent forward kinematics of the reported joint state; the "
          "same operations on a simulation that is alone in the process; "
          "names in the robot description; recorded arguments of the "
          "movement primitive and of the drawing calls")
ASSUMPTIONS = ["PyBullet is trusted and runs without a window (DIRECT)"]
# listed in known_findings.txt, reported after everything else was checked
SHARED = "second-ur5-simulation"
ROUNDED = "rounded-number-of-steps"
BYTES = "name-of-base-link"
WIDTH = "width-of-trajectory-frames"
CHUNK = 2
UR5_JOINTS = ["ur5_shoulder_pan_joint", "ur5_shoulder_lift_joint",
              "ur5_elbow_joint", "ur5_wrist_1_joint", "ur5_wrist_2_joint",
              "ur5_wrist_3_joint"]
TARGETS = {"1": [0.4, -1.2, 0.9, 0.2, -0.5, 0.3],
           "2": [-0.6, -0.8, 1.3, -0.9, 0.7, 0.1]}
OPS = ["a1", "a2", "av", "as", "ae", "b1", "bv", "be", "k"]
ARMS = ["l1", "l2", "l3", "r1", "r2", "r3"]
# controlled joints of both arms
ARM_JOINTS = [(["l1", "l2", "l3"], ["r1", "r2", "r3"]),
              (["l1", "l2"], ["r1", "r2", "r3"]),
              (["l1", "l2", "l3"], ["r2"]),
              (["l1"], ["r1", "r2", "r3"]),
              (["l3", "l1", "l2"], ["r2", "r3", "r1"])]
ROBOT = [
    ("f0", "fixed", "b", "torso", (0.0, 0.0, 0.5), (0.0, 0.0, 0.4),
     None, None),
    ("l1", "revolute", "torso", "ll1", (0.0, 0.3, 0.1), (0.0, 0.0, 0.0),
     (0, 0, 1), (-2.0, 2.0)),
    ("l2", "revolute", "ll1", "ll2", (0.3, 0.0, 0.1), (0.0, 0.0, 0.0),
     (0, 1, 0), (-2.0, 2.0)),
    ("l3", "revolute", "ll2", "ll3", (0.3, 0.0, 0.0), (0.0, 0.3, 0.0),
     (1, 0, 0), (-2.0, 2.0)),
    ("lt", "fixed", "ll3", "ltool", (0.1, 0.0, 0.1), (0.0, 0.3, 0.1),
     None, None),
    ("r1", "revolute", "torso", "rl1", (0.0, -0.3, 0.1), (0.0, 0.0, 0.0),
     (0, 0, 1), (-2.0, 2.0)),
    ("r2", "revolute", "rl1", "rl2", (0.3, 0.0, 0.1), (0.0, 0.0, 0.0),
     (0, 1, 0), (-2.0, 2.0)),
    ("r3", "revolute", "rl2", "rl3", (0.3, 0.0, 0.0), (0.0, -0.2, 0.0),
     (1, 0, 0), (-2.0, 2.0)),
    ("rt", "fixed", "rl3", "rtool", (0.2, 0.0, 0.0), (0.2, 0.0, 0.0),
     None, None),
]
robots.ROBOTS.setdefault("bimanual", ROBOT)
CHAINS = {"bimanual-left": ("bimanual", "ltool", ARMS[:3]),
          "bimanual-right": ("bimanual", "rtool", ARMS[3:]),
          "spatial": ("spatial", "tool", ["q1", "q2", "q3", "q4"]),
          "serial": ("serial", "tool", ["s1", "s2", "s3", "s4"])}


def bounds(tier):
    return {"independence": "all words of %d operations over %s (moves, "
            "velocity commands, stop, primitive execution of two robots, "
            "kinematics of a third client), each robot alone, with the third "
            "client, and both together" % (depth(tier), OPS),
            "execution": "all of 1..%d steps x 5 step sizes, open and closed "
            "loop" % steps(tier),
            "commands": "all joints x values from a grid",
            "inverse kinematics": "%d chains x all orders of joints x "
            "targets from a grid" % len(CHAINS),
            "bimanual": "%d selections of joints x targets x control modes"
            % len(ARM_JOINTS), "names": "%d robots" % len(robots.ROBOTS)}


def depth(tier):
    return 2 if tier == "quick" else 3


def steps(tier):
    return 30 if tier == "quick" else 100


def cases(tier):
    for w in core.words(OPS, depth(tier)):
        yield {"case": "words", "word": w}
    for dt in (0.1, 0.01, 0.05, 0.001, 0.0625):
        yield {"case": "mockup", "dt": dt, "n": steps(tier)}
    for dt in (0.1, 0.01):
        for n in (1, 3, 7):
            for closed in (False, True):
                yield {"case": "execute", "dt": dt, "n": n, "closed": closed}
    for j in range(6):
        yield {"case": "command", "joint": j}
    for name in CHAINS:
        for order in itertools.permutations(range(len(CHAINS[name][2]))):
            if len(order) == 3 or tier != "quick" or order in (
                    (0, 1, 2, 3), (3, 2, 1, 0), (1, 2, 3, 0), (0, 2, 1, 3)):
                yield {"case": "chain", "chain": name, "order": list(order)}
    for name in robots.ROBOTS:
        yield {"case": "names", "robot": name}
    for i in range(4):
        for k, (left, right) in enumerate(ARM_JOINTS):
            if i < 2 or len(left + right) == 6:
                yield {"case": "bimanual", "i": i, "arms": k}
    for lw, s in itertools.product((None, 1, 3), (0.5, 1.0, 2.0)):
        yield {"case": "draw", "lw": lw, "s": s}


def quiet():
    """PyBullet writes warnings to the standard output: send them away."""
    if getattr(quiet, "pid", None) == os.getpid():
        return
    quiet.pid = os.getpid()
    sys.stdout.flush()
    sys.stdout = os.fdopen(os.dup(1), "w", buffering=1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.close(null)


def close_all():
    import pybullet
    for i in range(64):
        if pybullet.isConnected(i):
            pybullet.disconnect(i)


def run(case, rec):
    quiet()
    cwd = os.getcwd()
    os.chdir(build.REPO)
    path = tempfile.mkdtemp(prefix="mpverif-sim-")
    try:
        globals()["run_" + case["case"]](case, rec, path)
    finally:
        os.chdir(cwd)
        close_all()
        shutil.rmtree(path, ignore_errors=True)


def write(path, name):
    p = os.path.join(path, name + ".urdf")
    with open(p, "w") as f:
        f.write(robots.urdf(name))
    return p


def pq(h):
    """Position and unit quaternion of a transformation."""
    r = h[:3, :3]
    best = None
    w = [1 + r[0, 0] + r[1, 1] + r[2, 2], 1 + r[0, 0] - r[1, 1] - r[2, 2],
         1 - r[0, 0] + r[1, 1] - r[2, 2], 1 - r[0, 0] - r[1, 1] + r[2, 2]]
    i = int(np.argmax(w))
    a = 0.5 * math.sqrt(w[i])
    d = ((r[2, 1] - r[1, 2]), (r[0, 2] - r[2, 0]), (r[1, 0] - r[0, 1]))
    s = ((r[0, 1] + r[1, 0]), (r[0, 2] + r[2, 0]), (r[1, 2] + r[2, 1]))
    best = [(a, d[0] / 4 / a, d[1] / 4 / a, d[2] / 4 / a),
            (d[0] / 4 / a, a, s[0] / 4 / a, s[1] / 4 / a),
            (d[1] / 4 / a, s[0] / 4 / a, a, s[2] / 4 / a),
            (d[2] / 4 / a, s[1] / 4 / a, s[2] / 4 / a, a)][i]
    return np.concatenate((h[:3, 3], best))


def close_pose(rec, got, want, what, tol=1e-5):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    rec.ok(got.shape == (7,), "%s: %s" % (what, got))
    if got[3:].dot(want[3:]) < 0:
        want[3:] *= -1.0
    rec.close(got, want, what, tol)


_ur5 = []


def ur5_fk(q):
    """Pose of the flange, from the description of the robot."""
    import xml.etree.ElementTree as ET
    if not _ur5:
        by_child = {}
        for j in ET.parse(os.path.join(
                build.REPO, "examples/data/urdf/ur5.urdf")).getroot():
            if j.tag != "joint":
                continue
            o, a = j.find("origin"), j.find("axis")
            by_child[j.find("child").get("link")] = (
                j.get("name"), j.get("type"), j.find("parent").get("link"),
                [float(x) for x in o.get("xyz").split()],
                [float(x) for x in o.get("rpy").split()],
                [float(x) for x in a.get("xyz").split()]
                if a is not None else None)
        _ur5.append(by_child)
    values = dict(zip(UR5_JOINTS, q))
    h, frame = np.eye(4), "ur5_flange"
    while frame in _ur5[0]:
        n, kind, parent, xyz, rpy, axis = _ur5[0][frame]
        r = robots._rot
        m = robots._hom(r((0, 0, 1), rpy[2]).dot(r((0, 1, 0), rpy[1]))
                        .dot(r((1, 0, 0), rpy[0])), xyz)
        if kind != "fixed":
            m = m.dot(robots._hom(r(axis, values[n]), np.zeros(3)))
        h, frame = m.dot(h), parent
    return h


def pose_of(q):
    return pq(ur5_fk(q))


class Line:
    """Movement primitive that moves by a constant and records its input."""
    def __init__(self, n=7, nv=6):
        self.calls = []
        self.n, self.nv = n, nv

    def step(self, last_y, last_yd, coupling_term=None):
        self.calls.append((np.array(last_y), np.array(last_yd),
                           coupling_term))
        y = np.array(last_y, dtype=float)
        y[0] += 0.001
        y[1] -= 0.002
        return y, np.full(self.nv, 0.1 * len(self.calls))


def observe(sim):
    q, qd = sim.get_joint_state()
    p, v = sim.get_ee_state(return_velocity=True)
    p2 = sim.get_ee_state()
    return [np.array(q), np.array(qd), np.array(p), np.array(v),
            np.array(p2)]


def act(sim, op):
    """Returns the results of the operation."""
    if op in "12":
        q = TARGETS[op]
        sim.set_desired_joint_state(q, position_control=True)
        sim.sim_loop(20)
        return []
    if op == "v":
        sim.set_desired_joint_state([0.3, -0.2, 0.1, 0.4, -0.1, 0.2])
        for _ in range(5):
            sim.step()
        return []
    if op == "s":
        sim.stop()
        return []
    p, v = sim.get_ee_state(return_velocity=True)
    return list(sim.step_through_cartesian(Line(), p, v, 3 * sim.dt))


def consistent(rec, got, what):
    q, qd, p, v, p2 = got
    rec.ok(q.shape == (6,) and qd.shape == (6,), what + ": joint state")
    close_pose(rec, p, pose_of(q), what + ": end-effector pose", 1e-4)
    close_pose(rec, p2, p, what + ": pose with and without velocity", 1e-9)
    e = 1e-5
    d = (ur5_fk(q + e * qd) - ur5_fk(q - e * qd))[:3, 3] / (2 * e)
    rec.close(v[:3], d, what + ": end-effector velocity", 1e-3)
    rec.ok(len(v) == 6, what + ": size of the velocity")


_alone = {}


def alone(name, word):
    """Observations and results of one robot that is alone."""
    from movement_primitives.testing.simulation import UR5Simulation
    key = (name, word)
    if key not in _alone:
        close_all()
        sim = UR5Simulation(0.01 if name == "a" else 0.02, gui=False)
        out = [observe(sim)]
        for op in word:
            out.append(act(sim, op) + observe(sim))
        close_all()
        _alone[key] = out
    return _alone[key]


def run_words(case, rec, path):
    word = case["word"]
    only = {n: "".join(o[1] for o in word if o[0] == n) for n in "ab"}
    want = {n: alone(n, only[n]) for n in "ab"}
    for n in "ab":
        for x in want[n]:
            consistent(rec, x[-5:], "robot %s alone after %s" % (n, only[n]))
    for n in "ab":
        together(rec, path, word, n, want)
    for order in ("ab", "ba"):
        try:
            together(rec, path, word, order, want)
        except core.Violation as e:
            raise core.Violation(str(e), SHARED)
        except Exception as e:
            raise core.Violation("two robots: %r" % e, SHARED)


def together(rec, path, word, order, want):
    from movement_primitives.testing.simulation import (
        KinematicsChain, UR5Simulation)
    close_all()
    sims = {}
    for n in order:
        sims[n] = UR5Simulation(0.01 if n == "a" else 0.02, gui=False)
    done = {"a": 0, "b": 0}
    chain = None
    for op in [None] + [o for o in word if o == "k" or o[0] in order]:
        res = []
        if op == "k":
            if chain is None:
                chain = KinematicsChain(
                    "ltool", ARMS[:3], write(path, "bimanual"))
            chain.inverse(pq(robots.fk(
                "bimanual", "b", "ltool", ARMS[:3], [0.3, 0.2, 0.1])),
                np.array([0.2, 0.2, 0.2]))
        elif op is not None:
            res = act(sims[op[0]], op[1])
            done[op[0]] += 1
        rec.call()
        for n in order:
            got = observe(sims[n])
            if op is not None and op != "k" and op[0] == n:
                got = res + got
            w = want[n][done[n]][-len(got):]
            for i, (x, y) in enumerate(zip(got, w)):
                rec.close(x, y, "robot %s of %s, after %s of %s: value "
                          "%d" % (n, order, op, word, i), 1e-9)
            rec.state(n, *got[-5:-3])
    rec.traces += 1


def run_mockup(case, rec, path):
    from movement_primitives.testing.simulation import SimulationMockup
    dt = case["dt"]
    term = object()
    later = []
    for n in range(case["n"] + 1):
        sim = SimulationMockup(dt)
        p, v = gen.vec(7, "a"), gen.vec(6, "b")
        p0, v0 = p.copy(), v.copy()
        sim.goto_ee_state(p)
        prim = Line()
        out = sim.step_through_cartesian(prim, p, v, n * dt,
                                         coupling_term=term)
        rec.call()
        rec.same(p, p0, "start after the execution")
        rec.same(v, v0, "start velocity after the execution")
        n = number_of_steps(rec, prim, dt, n, later)
        check_execution(rec, prim, out, p0, v0, n, False, term)
        rec.same(out[1], out[0], "positions")
        rec.same(out[3], out[2], "velocities")
        rec.state("mockup", dt, n)
        rec.traces += 1
    report(later)


def number_of_steps(rec, prim, dt, n, later):
    """Checks the number of steps and returns it."""
    got = len(prim.calls)
    what = "%d steps of %g in %g s" % (got, dt, n * dt)
    if got == n - 1 and n * dt / dt < n:
        later.append(core.Violation(what, ROUNDED))
        return got
    rec.ok(got == n, what)
    return n


def report(later):
    for v in later:
        raise v


def check_execution(rec, prim, out, p, v, n, closed, term=None):
    D, P, DV, V = [np.asarray(x) for x in out]
    for x, w, what in ((D, 7, "desired positions"), (P, 7, "positions"),
                       (DV, 6, "desired velocities"), (V, 6, "velocities")):
        rec.ok(x.shape == (n + 1, w), "shape of %s: %s instead of %s"
               % (what, x.shape, (n + 1, w)))
    rec.close(D[0], p, "first desired position", 1e-12)
    rec.close(DV[0], v, "first desired velocity", 1e-12)
    for i, (y, yd, t) in enumerate(prim.calls):
        rec.close(y, P[i] if closed else D[i], "position passed to step %d"
                  % i, 1e-12)
        rec.close(yd, DV[i], "velocity passed to step %d" % i, 1e-12)
        rec.ok(t is term, "coupling term")
        w = y.copy()
        w[0] += 0.001
        w[1] -= 0.002
        rec.close(D[i + 1], w, "desired position %d" % (i + 1), 1e-12)
        rec.close(DV[i + 1], np.full(6, 0.1 * (i + 1)),
                  "desired velocity %d" % (i + 1), 1e-12)


def run_execute(case, rec, path):
    from movement_primitives.testing.simulation import UR5Simulation
    dt, n = case["dt"], case["n"]
    sim = UR5Simulation(dt, gui=False)
    sim.goto_ee_state(pose_of(TARGETS["1"]), wait_time=100 * dt)
    p = sim.get_ee_state()
    v = gen.vec(6, "b", 0.01)
    prim = Line()
    seen = []
    orig = sim.step

    def step():
        orig()
        seen.append(sim.get_ee_state())
    sim.step = step
    out = sim.step_through_cartesian(prim, p.copy(), v.copy(), n * dt,
                                     closed_loop=case["closed"])
    rec.call()
    later = []
    n = number_of_steps(rec, prim, dt, n, later)
    check_execution(rec, prim, out, p, v, n, case["closed"])
    P = np.asarray(out[1])
    rec.close(P[0], p, "first position", 1e-12)
    for i in range(1, n + 1):
        rec.close(P[i], seen[i - 1], "position %d" % i, 1e-12)
        close_pose(rec, P[i], np.asarray(out[0])[i], "position %d follows the "
                   "desired one" % i, 0.05)
    rec.close(sim.get_joint_state()[1], np.zeros(6), "velocity after the "
              "execution", 0.5)
    rec.traces += 1
    rec.state("execute", dt, n, P[-1])
    report(later)


def run_command(case, rec, path):
    from movement_primitives.testing.simulation import UR5Simulation
    j = case["joint"]
    sim = UR5Simulation(0.01, gui=False)
    base = np.array(TARGETS["1"])
    for x in (-0.5, -0.1, 0.3, 0.8):
        q = base.copy()
        q[j] += x
        sim.set_desired_joint_state(q, position_control=True)
        sim.sim_loop(200)
        got, vel = sim.get_joint_state()
        rec.call()
        rec.close(got, q, "joints at rest", 2e-3)
        rec.close(vel, np.zeros(6), "velocities at rest", 1e-3)
        consistent(rec, observe(sim), "joint %d at %g" % (j, x))
        p = pose_of(q + 0.05)
        ik = np.asarray(sim.inverse_kinematics(p))
        rec.call()
        rec.ok(ik.shape == (6,), "size of the solution")
        close_pose(rec, pose_of(ik), p, "pose of the solution", 0.02)
        v = np.zeros(6)
        v[j] = x
        sim.set_desired_joint_state(v)
        q0 = sim.get_joint_state()[0]
        sim.sim_loop(5)
        got, vel = sim.get_joint_state()
        rec.close(vel, v, "commanded velocity", 0.05)
        rec.close((got - q0) / 0.05, v, "motion at commanded velocity", 0.05)
        sim.stop()
        rec.close(sim.get_joint_state()[1], np.zeros(6), "stopped", 0.06)
        rec.traces += 1
        rec.state("command", j, got)


def run_chain(case, rec, path):
    from movement_primitives.testing.simulation import KinematicsChain
    robot, ee, joints = CHAINS[case["chain"]]
    order = case["order"]
    c = KinematicsChain(ee, [joints[i] for i in order], write(path, robot))
    other = KinematicsChain(ee, list(joints), write(path, robot))
    lim = np.array([robots.limits(robot, j) for j in joints])
    lo = np.where(np.isfinite(lim[:, 0]), lim[:, 0], -1.5)
    hi = np.where(np.isfinite(lim[:, 1]), lim[:, 1], 1.5)
    for f in itertools.product((0.3, 0.5, 0.65), repeat=2):
        q = lo + (hi - lo) * np.resize(f, len(joints))
        near = q + 0.05 * (hi - lo) * np.resize([0.5, -0.4, 0.3], len(joints))
        h = robots.fk(robot, "b", ee, joints, q)
        got = c.inverse(pq(h), near[order], n_iter=500, threshold=1e-5)
        rec.call()
        rec.ok(np.shape(got) == (len(joints),), "size of the solution")
        sol = np.empty(len(joints))
        sol[order] = got
        d = robots.pose_distance(robots.fk(robot, "b", ee, joints, sol), h)
        rec.ok(d < 0.05, "solution of %s has error %g" % (case["chain"], d))
        # an independent chain in between must not matter
        other.inverse(pq(robots.fk(robot, "b", ee, joints, near)), q)
        rec.state(case["chain"], sol)
    rec.traces += 1


def run_names(case, rec, path):
    import pybullet
    from movement_primitives.testing.simulation import analyze_robot
    name = case["robot"]
    p = write(path, name)
    table = robots.ROBOTS[name]
    client = pybullet.connect(pybullet.DIRECT)
    extra = pybullet.connect(pybullet.DIRECT)
    later = []
    pybullet.loadURDF(p, physicsClientId=client)
    body = pybullet.loadURDF(p, physicsClientId=client)
    for how, verbose in itertools.product(("path", "body"), (0, 1)):
        kw = {"urdf_path": p} if how == "path" else {
            "robot": body, "physicsClientId": client}
        two = analyze_robot(verbose=verbose, **kw)
        three = analyze_robot(return_joint_indices=True, verbose=verbose,
                              **kw)
        rec.call(2)
        rec.ok(len(two) == 2 and len(three) == 3, "number of results")
        rec.ok(list(two) == list(three[:2]), "results differ")
        joints, links, ik = three
        if b"b" in links and "b" not in links:
            later.append(core.Violation("base link %r" % b"b", BYTES))
            links = {"b" if n == b"b" else n: i for n, i in links.items()}
        rec.ok(set(joints) == {j[0] for j in table}, "joints %s"
               % sorted(map(str, joints)))
        rec.ok(set(links) == {j[3] for j in table} | {"b"}, "links %s"
               % sorted(map(str, links)))
        rec.ok(links["b"] == -1, "index of the base")
        movable = []
        for i in range(len(table)):
            info = pybullet.getJointInfo(body, i, physicsClientId=client)
            n, link = info[1].decode(), info[12].decode()
            rec.ok(joints[n] == i, "index of joint %s" % n)
            rec.ok(links[link] == i, "index of link %s" % link)
            if info[2] != pybullet.JOINT_FIXED:
                movable.append(n)
        rec.ok(ik == {n: i for i, n in enumerate(movable)},
               "indices of movable joints: %s" % ik)
        rec.traces += 1
        rec.state(name, how, verbose)
    rec.ok(pybullet.isConnected(extra), "another client was closed")
    report(later)


def run_bimanual(case, rec, path):
    import pybullet
    from movement_primitives.testing.simulation import (
        RH5Simulation, analyze_robot)
    p = write(path, "bimanual")
    left, right = ARM_JOINTS[case["arms"]]
    arms = left + right
    n = len(arms)

    def make():
        return RH5Simulation(
            0.01, gui=False, left_ee_frame="ltool", right_ee_frame="rtool",
            left_joints=tuple(left), right_joints=tuple(right),
            urdf_path=p, left_arm_path=p, right_arm_path=p)
    a, b = make(), make()
    index = analyze_robot(p)[0]
    Q = [dict(zip(ARMS, [0.2, -0.3, 0.4, -0.5, 0.1, 0.3])),
         dict(zip(ARMS, [-0.4, 0.5, 0.1, 0.6, -0.2, -0.3]))]
    q = np.array([Q[case["i"] % 2][j] for j in arms])

    def fk(x, names=arms):
        return np.hstack([pq(robots.fk("bimanual", "b", ee, names, x))
                          for ee in ("ltool", "rtool")])

    def state(sim, what):
        x, xd = sim.get_joint_state()
        rec.ok(x.shape == (n,) and xd.shape == (n,), what)
        # joints that are not controlled might move as well
        full = [pybullet.getJointState(
            sim.robot, index[j], physicsClientId=sim.client_id)[0]
            for j in ARMS]
        rec.close(x, [full[ARMS.index(j)] for j in arms], what, 1e-12)
        e, w = sim.get_ee_state(), fk(full, ARMS)
        rec.ok(e.shape == (14,), what + ": size of the pose")
        for s, arm in ((slice(0, 7), "left"), (slice(7, 14), "right")):
            close_pose(rec, e[s], w[s], "%s: %s pose" % (what, arm), 1e-4)
        rec.state("bimanual", x)
        return x
    if case["i"] < 2:
        a.set_desired_joint_state(q, position_control=True)
        a.sim_loop(200)
        rec.close(state(a, "position control"), q, "joints at rest", 5e-3)
    else:
        for _ in range(150):
            a.set_desired_ee_state(fk(0.3 * q), position_control=True)
            a.step()
        x = state(a, "pose control")
        g, w = fk(x), fk(0.3 * q)
        for s, arm in ((slice(0, 7), "left"), (slice(7, 14), "right")):
            close_pose(rec, g[s], w[s], "%s arm at its target" % arm, 0.05)
        q = x
    rec.close(state(b, "other robot"), np.zeros(n), "the other robot moved",
              1e-9)
    v = np.array([0.2, -0.1, 0.3, -0.3, 0.2, 0.1])[:n]
    x0 = a.get_joint_state()[0]
    a.set_desired_joint_state(v)
    a.sim_loop(5)
    x, xd = a.get_joint_state()
    rec.close((x - x0) / 0.05, v, "motion at commanded velocity", 0.05)
    prim = Line(14, 12)
    start = a.get_ee_state()
    out = a.step_through_cartesian(prim, start.copy(), np.zeros(12), 0.03,
                                   coupling_term="term")
    rec.ok(len(prim.calls) == 3, "%d steps" % len(prim.calls))
    rec.ok(all(t == "term" for _, _, t in prim.calls), "coupling term")
    rec.close(out[0][0], start, "first desired position", 1e-12)
    for i, (y, yd, _) in enumerate(prim.calls):
        rec.close(y, out[0][i], "position passed to step %d" % i, 1e-12)
        rec.close(yd, out[2][i], "velocity passed to step %d" % i, 1e-12)
    rec.close(out[1][0], start, "first position", 1e-9)
    state(a, "after the execution")
    rec.close(state(b, "other robot"), np.zeros(n), "the other robot moved",
              1e-9)
    rec.call(8)
    rec.traces += 1


def run_draw(case, rec, path):
    import pybullet
    from movement_primitives.testing import simulation
    lw, s = case["lw"], case["s"]
    recorded = []
    later = []
    orig = pybullet.addUserDebugLine

    def add(a, b, color=None, width=1, life=0, physicsClientId=0, **kw):
        recorded.append((np.array(a), np.array(b), list(color),
                      kw.get("lineWidth", width), physicsClientId))
        return len(recorded)
    kw = {} if lw is None else {"lw": lw}
    H = np.array([robots._hom(np.array([
        ref.qrot(gen.quat(q), e) for e in np.eye(3)]).T, gen.vec(3, "a", x))
        for q, x in zip(["gen", "gen2", "x90", "id", "gen3", "z180"],
                        (0.5, 1.0, 2.0, 3.0, -1.0, 0.2))])

    def axes(h):
        return [(h[:3, 3], h[:3, 3] + s * h[:3, i],
                 [int(i == k) for k in range(3)]) for i in range(3)]

    def compare(want, what, frames=False):
        rec.call()
        lines = list(recorded)
        rec.ok(len(lines) == len(want), "%s: %d lines instead of %d"
               % (what, len(lines), len(want)))
        left = list(lines)
        for a, b, color in want:
            own = [x for x in left if np.allclose(x[0], a, atol=1e-9)
                   and np.allclose(x[1], b, atol=1e-9) and x[2] == color]
            rec.ok(len(own) > 0, "%s: no line from %s to %s"
                   % (what, list(a), list(b)))
            left = [x for x in left if x is not own[0]]
        if frames and lw and lw != 1 and all(
                x[3] == 1 for x in lines if x[2] != [0, 0, 0]):
            later.append(core.Violation(what + ": line width 1", WIDTH))
            lines = [x for x in lines if x[2] == [0, 0, 0]]
        for x in lines:
            rec.ok(x[3] == (lw or 1), what + ": line width %s" % x[3])
            rec.ok(x[4] == 5, what + ": wrong client")
        del recorded[:]
        rec.traces += 1
        rec.state(what, s, lw or 0)
    pybullet.addUserDebugLine = add
    try:
        for h in H:
            simulation.draw_transform(h.copy(), s, 5, **kw)
            compare(axes(h), "transformation")
            simulation.draw_pose(pq(h), s, 5, **kw)
            compare(axes(h), "pose")
        for n, k in itertools.product((1, 2, 6), (None, 1, 2, 3, 6)):
            kk = {} if k is None else {"n_key_frames": k}
            simulation.draw_trajectory(H[:n].copy(), 5, s=s, **kk, **kw)
            idx = [int(i) for i in np.linspace(0, n - 1, k or 10)]
            want = sum((axes(H[i]) for i in idx), [])
            want += [(H[i][:3, 3], H[i + 1][:3, 3], [0, 0, 0])
                     for i in range(n - 1)]
            compare(want, "trajectory of %d poses, %s frames" % (n, k), True)
    finally:
        pybullet.addUserDebugLine = orig
    report(later)
