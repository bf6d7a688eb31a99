"""P25: distinct primitives are independent under every interleaving."""
import itertools
import os
import sys
import threading

import numpy as np

from . import core, gen, prims, robots
from .p24 import demo
from movement_primitives import dmp as dmp_pkg
from movement_primitives.data import (
    generate_1d_trajectory_distribution, generate_minimum_jerk)
from movement_primitives.kinematics import Kinematics
from movement_primitives.promp import ProMP

PROPERTY = "P25"
ORACLE = ("everything a program observes in an interleaved execution must "
          "equal (1e-11) what it observes when running alone")
ASSUMPTIONS = ["context switches happen at operation boundaries, inside "
               "coupling-term callbacks and before lines of the library's "
               "Python code; preemption within a line and inside compiled "
               "code (which does not release the interpreter lock) is not "
               "explored"]
CHUNK = 8
OTHERS = ["promp", "chain", "coupling", "toy"]
KINDS = prims.ALL + OTHERS
PROGRAMS = 3


def bounds(tier):
    return {"operations": "all interleavings of two programs of %s operations "
            "(construction included), all pairs of %d kinds, %s programs"
            % ("4 (same class) or 3" if tier == "quick" 
               else "5 (same class) or 4", len(KINDS),
               "3 x 3 (same class) or 3" if tier == "quick" else "3 x 3"),
            "preemption": "all schedules with two context switches, switching "
            "at operation boundaries and inside callbacks, all pairs of kinds "
            "with callbacks%s" % (" (different classes: default integrators)"
                                  if tier == "quick" else ""),
            "lines": "program 2 runs completely before %s of every line of "
            "the library that an operation of program 1 executes, same kind"
            "%s" % (("the first and the last execution", "")
                    if tier == "quick" else
                    ("every execution", " and default kinds of other "
                     "classes"))}


class Hook:
    """Coupling term that calls back the scheduler."""
    def __init__(self, point):
        self.point = point

    def coupling(self, y, yd=None):
        y = np.array(y)
        n = {4: 3, 14: 12}.get(len(y), len(y))
        v = np.array(yd) if yd is not None else np.zeros(n)
        self.point()
        return np.zeros(n), 0.5 * np.roll(v, 1) + 0.25 * y[:n] + 1.0


def program(kind, which, seed, point, out):
    """List of operations of one program; results go to out."""
    b = prims.base(kind)
    box = {}

    def note(*arrays):
        for a in arrays:
            out.append(np.array(a, dtype=float))

    if kind == "promp":
        T = np.linspace(0, 1, 7)
        Ys = np.array([np.stack((np.sin(T + 0.3 * i + seed), T + i), 1)
                       for i in range(3)])

        def make():
            box["p"] = ProMP(2, 4)
        ops = [lambda: box["p"].imitate([T] * 3, Ys, n_iter=2),
               lambda: note(box["p"].mean_trajectory(T),
                            box["p"].cov_trajectory(T)),
               lambda: note(box["p"].condition_position(
                   np.array([seed, 1.0]), np.eye(2) * 0.1, 0.5)
                   .mean_trajectory(T)),
               lambda: note(box["p"].var_velocities(T * 2))]
    elif kind == "chain":
        q = np.array([0.2, -0.1, 0.1, 0.3]) + 0.1 * seed

        def make():
            box["c"] = Kinematics(robots.urdf("spatial")).create_chain(
                ["q1", "q2", "q3", "q4"], "b", "tool")
        ops = [lambda: note(box["c"].forward(q)),
               lambda: note(box["c"].forward_trajectory([q, 2 * q])),
               lambda: note(box["c"].ee_pose_error(q, np.eye(4))),
               lambda: note(box["c"].forward(q + 0.1))]
    elif kind == "coupling":
        D = dmp_pkg
        y = np.hstack((gen.vec(3, "a") + seed, gen.quat("gen"),
                       gen.vec(3, "b"), gen.quat("gen2")))
        T, Y = demo("dual")

        def make():
            box["t"] = D.CouplingTermDualCartesianTrajectory(
                np.zeros(7), (1, 1), 0.0625)
            box["o"] = D.CouplingTermObstacleAvoidance3D(
                gen.vec(3, "e") + seed)
            box["t"].imitate(T, Y + 0.0)
        ops = [lambda: note(*box["t"].coupling(y, gen.vec(12, "a"))),
               lambda: note(*box["o"].coupling(y[:3], gen.vec(3, "c"))),
               lambda: note(*box["t"].coupling(y, gen.vec(12, "b"))),
               lambda: note(*D.CouplingTermDualCartesianPose(
                   np.eye(4), (1, 0)).coupling(y, gen.vec(12, "a")))]
    elif kind == "toy":
        def make():
            pass
        ops = [lambda: note(*generate_1d_trajectory_distribution(2, 5)),
               lambda: note(*generate_minimum_jerk(
                   gen.vec(2, "a") + seed, gen.vec(2, "b"), 1.0, 0.25)),
               lambda: note(*generate_1d_trajectory_distribution(
                   1, 6, random_state=np.random.RandomState(seed))),
               lambda: note(*generate_1d_trajectory_distribution(1, 4))]
    else:
        nv = prims.N_VEL[b]
        ct = None if b == "minjerk" else Hook(point)

        def make():
            d = prims.make(kind, p_gain=1.0, startd="d", int_dt=0.03125,
                           k=3)
            d.configure(goal_y=prims.pose(
                kind, "cdeb"[seed % 4], ["gen2", "gen3", "x90"][seed % 3]))
            box["d"] = d
            box["s"] = (prims.pose(kind, "a", "gen") + 0.0,
                        gen.vec(nv, "d", 0.5))

        def step():
            box["s"] = prims.step(kind, box["d"], box["s"][0].copy(),
                                  box["s"][1].copy(), ct)
            note(*box["s"])

        def roll():
            if prims.has_rollout(kind):
                note(*prims.rollout(kind, box["d"], 0.125, ct))
            else:
                step()

        def learn():
            if prims.has_weights(kind):
                T, Y = demo(kind)
                for s in prims.pos_blocks(kind):
                    Y[:, s] *= 1.0 + 0.5 * seed
                box["d"].imitate(T, Y)
                note(box["d"].get_weights())
            else:
                box["d"].configure(start_y=prims.pose(kind, "e", "gen3"))
                box["d"].reset()

        def weights():
            if prims.has_weights(kind):
                n = len(box["d"].get_weights())
                box["d"].set_weights(np.cos(np.arange(n) + seed) * 20.0)
            else:
                step()
        ops = [step, roll, learn, weights]
    order = {0: [0, 1, 2, 3], 1: [2, 0, 1, 3], 2: [3, 1, 0, 2]}[which]
    return [make] + [ops[i] for i in order]


def length(tier, same):
    return (4 if same else 3) + (tier == "thorough")


def cases(tier):
    for i, j in itertools.combinations_with_replacement(range(len(KINDS)), 2):
        same = prims.base(KINDS[i]) == prims.base(KINDS[j])
        n = length(tier, same)
        for a, b in itertools.product(range(PROGRAMS), repeat=2):
            if tier == "quick" and not same and b != (a + 1) % PROGRAMS:
                continue
            yield {"case": "merge", "kinds": [KINDS[i], KINDS[j]],
                   "progs": [a, b], "n": n}
    hooked = [k for k in prims.ALL if prims.base(k) != "minjerk"]
    main = [k for k in hooked if k.rpartition(":")[2] in
            (k, "rk4-cython", "cython")]
    for a, b in itertools.product(hooked, repeat=2):
        if tier == "quick" and prims.base(a) != prims.base(b) \
                and not (a in main and b in main):
            continue
        for p in ([0] if tier == "quick" else range(PROGRAMS)):
            yield {"case": "preempt", "kinds": [a, b], "progs": [p, p],
                   "n": 3 if tier == "quick" else 4}
    yield from line_cases(tier)


def line_cases(tier):
    defaults = [k for k in prims.ALL if k.rpartition(":")[2] in
                (k, "rk4-cython", "cython")]
    for a in KINDS:
        for b in KINDS if tier == "thorough" else [a]:
            if b != a and not (a in defaults and b in defaults):
                continue
            for p in range(PROGRAMS):
                for op in range(4 if tier == "quick" else 5):
                    yield {"case": "lines", "kinds": [a, b],
                           "progs": [p, (p + 1) % PROGRAMS],
                           "n": 4 if tier == "quick" else 5, "op": op,
                           "all": tier == "thorough"}


def nothing():
    pass


LIBRARY = os.path.dirname(os.path.abspath(dmp_pkg.__file__))
LIBRARY = os.path.dirname(LIBRARY) + os.sep


def traced(op, at, action):
    """Run op, calling action before the at-th line; returns all lines."""
    lines = []

    def local(frame, event, arg):
        if event == "line":
            lines.append((frame.f_code.co_filename, frame.f_lineno))
            if len(lines) == at:
                action()
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIBRARY) else None
    sys.settrace(enter)
    try:
        op()
    finally:
        sys.settrace(None)
    return lines


def run_lines(case, rec, want):
    n, kinds, progs, k = case["n"], case["kinds"], case["progs"], case["op"]

    def execute(at):
        outs = [[], []]
        a, b = [program(kinds[i], progs[i], i + 1, nothing, outs[i])[:n]
                for i in (0, 1)]
        b[0]()  # exists already

        def other():
            for op in b[1:]:
                op()
        for op in a[:k]:
            op()
        lines = traced(a[k], at, other)
        for op in a[k + 1:]:
            op()
        rec.call(2 * n)
        return lines, outs
    lines = execute(0)[0]
    points = {}
    for i, line in enumerate(lines):
        points.setdefault(line, []).append(i + 1)
    chosen = sorted(set(sum([p if case["all"] else [p[0], p[-1]]
                             for p in points.values()], [])))
    for at in chosen:
        _, outs = execute(at)
        for i in (0, 1):
            compare(rec, outs[i], want[i], "program %d (%s), program 2 run "
                    "before %s:%d" % ((i + 1, kinds[i]) + (
                        lines[at - 1][0][len(LIBRARY):], lines[at - 1][1])))
        rec.traces += 1
        rec.state("P25", str(kinds), str(progs), str((k, at)))


def alone(kind, which, seed, n):
    out = []
    for op in program(kind, which, seed, nothing, out)[:n]:
        op()
    return out


def compare(rec, got, want, what):
    rec.ok(len(got) == len(want), what + ": different number of results")
    for i, (g, w) in enumerate(zip(got, want)):
        rec.close(g, w, what + ", observation %d" % i, 1e-11, 1e-11)


class Schedule:
    """Two threads, one running at a time, switching as prescribed.

    plan: list of (program, number of points it runs through); afterwards the
    first and then the second run to completion.
    """
    def __init__(self, plan):
        self.plan = list(plan)
        self.batons = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.errors = []
        self.trace = []

    def point(self, me):
        """Called by program me at a possible context switch."""
        if self.plan and self.plan[0][0] == me:
            self.plan[0][1] -= 1
            if self.plan[0][1] <= 0:
                self.plan.pop(0)
                self._switch(me)

    def _switch(self, me):
        nxt = self._next()
        if nxt is None or nxt == me:
            return
        self.trace.append(nxt)
        self.batons[nxt].release()
        self.batons[me].acquire()

    def _next(self):
        while self.plan and self.done[self.plan[0][0]]:
            self.plan.pop(0)
        if self.plan:
            return self.plan[0][0]
        for i in (0, 1):
            if not self.done[i]:
                return i
        return None

    def run(self, programs):
        def body(me):
            self.batons[me].acquire()
            try:
                for op in programs[me]:
                    op()
                    self.point(me)
            except BaseException as e:  # reported by the main thread
                self.errors.append(e)
            self.done[me] = True
            nxt = self._next()
            if nxt is not None:
                self.trace.append(nxt)
                self.batons[nxt].release()
        ts = [threading.Thread(target=body, args=(i,), daemon=True)
              for i in (0, 1)]
        for t in ts:
            t.start()
        self.batons[self._next()].release()
        for t in ts:
            t.join()
        if self.errors:
            raise self.errors[0]


def run(case, rec):
    n = case["n"]
    kinds, progs = case["kinds"], case["progs"]
    want = [alone(kinds[i], progs[i], i + 1, n) for i in (0, 1)]
    rec.call(2 * n)
    if case["case"] == "lines":
        run_lines(case, rec, want)
        return
    if case["case"] == "merge":
        for s in core.interleavings(n, n):
            outs = [[], []]
            ps = [program(kinds[i], progs[i], i + 1, nothing, outs[i])[:n]
                  for i in (0, 1)]
            pos = [0, 0]
            for who in s:
                ps[who][pos[who]]()
                pos[who] += 1
            rec.call(2 * n)
            for i in (0, 1):
                compare(rec, outs[i], want[i], "program %d (%s) in schedule %s"
                        % (i, kinds[i], s))
            rec.traces += 1
            rec.state("P25", str(kinds), str(s), *[o[-1] for o in outs if o])
        return
    # number of points of each program
    count = [0, 0]
    for i in (0, 1):
        def point(i=i):
            count[i] += 1
        for op in program(kinds[i], progs[i], i + 1, point, [])[:n]:
            op()
            point()
    for a in range(1, count[0] + 1):
        for b in range(1, count[1] + 1):
            outs = [[], []]
            sched = Schedule([[0, a], [1, b]])
            ps = [program(kinds[i], progs[i], i + 1,
                          (lambda i=i: sched.point(i)), outs[i])[:n]
                  for i in (0, 1)]
            sched.run(ps)
            rec.call(2 * n)
            for i in (0, 1):
                compare(rec, outs[i], want[i], "program %d (%s) preempted "
                        "after %d and %d points" % (i, kinds[i], a, b))
            rec.traces += 1
            rec.state("P25", str(kinds), str((a, b)))
