"""P31: omitted arguments behave as their documented defaults."""
import contextlib
import io
import itertools
import math

import numpy as np

from . import gen, ref, robots
from .p18 import matrix
from movement_primitives.data import (
    generate_1d_trajectory_distribution, generate_minimum_jerk)
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, DMPWithFinalVelocity,
    StateFollowingDMP, CouplingTermObstacleAvoidance2D,
    CouplingTermObstacleAvoidance3D, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D, CouplingTermDualCartesianPose,
    CouplingTermDualCartesianDistance, CouplingTermDualCartesianTrajectory,
    obstacle_avoidance_acceleration_2d, obstacle_avoidance_acceleration_3d)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics
from movement_primitives.minimum_jerk_trajectory import MinimumJerkTrajectory
from movement_primitives.promp import ProMP, via_points
from movement_primitives.spring_damper import (
    SpringDamper, SpringDamperOrientation)

PROPERTY = "P31"
ORACLE = ("the same call with the documented default passed explicitly; and "
          "the call with another value, which must behave differently")
ASSUMPTIONS = ["the table of documented defaults in mc/p31.py was taken from "
               "the docstrings"]
CHUNK = 4
PI20 = 20.0 / math.pi


class Seed(int):
    def __call__(self):
        return np.random.RandomState(int(self))


def pose(n, kind):
    return np.concatenate((gen.vec(3, kind), gen.quat(n)))


def dual(a, b):
    return np.concatenate((pose(a, "a"), pose(b, "b")))


def fill(d):
    d.set_weights(20.0 * gen.vec(len(d.get_weights()), "e"))


def joint_primitive(cls, n=2):
    def run(kw):
        d = cls(n, **kw)
        fill(d)
        d.configure(start_y=gen.vec(n, "a"), goal_y=gen.vec(n, "c"),
                    start_yd=gen.vec(n, "d", 0.3))
        out = list(d.open_loop())
        if cls is DMP:
            out += d.open_loop(step_function="euler")
        y, v = gen.vec(n, "a"), gen.vec(n, "d", 0.3)
        for _ in range(3):
            y, v = d.step(y + 0.01, v.copy())
            out += [y, v]
        return out
    return run


def cartesian(kw):
    d = CartesianDMP(**kw)
    fill(d)
    d.configure(start_y=pose("gen", "a"), goal_y=pose("gen2", "b"))
    out = list(d.open_loop())
    y, v = pose("gen", "a"), gen.vec(6, "d", 0.3)
    for _ in range(3):
        y, v = d.step(y, v)
        out += [y, v]
    return out


def bimanual(kw):
    d = DualCartesianDMP(**kw)
    fill(d)
    d.configure(start_y=dual("gen", "gen2"), goal_y=dual("gen2", "gen3"))
    out = list(d.open_loop())
    y, v = dual("gen", "gen2"), gen.vec(12, "d", 0.3)
    for _ in range(3):
        y = y.copy()
        y[:3] += 0.01
        y[7:10] -= 0.02
        y, v = d.step(y, v.copy())
        out += [y, v]
    return out


def viapoints(kw):
    d = StateFollowingDMP(2, 1.0, **kw)
    d.configure(start_y=gen.vec(2, "a"))
    d.forcing_term.viapoints[:] = np.resize(
        gen.vec(6, "e"), d.forcing_term.viapoints.shape)
    out = list(d.open_loop())
    y, v = gen.vec(2, "a"), gen.vec(2, "d", 0.3)
    for _ in range(3):
        y, v = d.step(y, v)
        out += [y, v]
    return out


class Push:
    def coupling(self, y, yd=None):
        return np.full(len(np.atleast_1d(y)), 0.125), \
            np.full(len(np.atleast_1d(y)), 2.0)


class PosePush:
    """Six or three dimensional coupling, as the caller needs it."""
    def __init__(self, n):
        self.n = n

    def coupling(self, y, yd=None):
        return np.full(self.n, 0.125), np.full(self.n, 2.0)


def make(kind):
    if kind == "dmp":
        d, s, g = DMP(2, dt=0.0625, int_dt=0.0078125), gen.vec(2, "a"), \
            gen.vec(2, "c")
    elif kind == "final":
        d = DMPWithFinalVelocity(2, dt=0.0625, int_dt=0.0078125)
        s, g = gen.vec(2, "a"), gen.vec(2, "c")
    elif kind == "state":
        d = StateFollowingDMP(2, 1.0, dt=0.0625, int_dt=0.0078125)
        s, g = gen.vec(2, "a"), gen.vec(2, "c")
    elif kind == "cart":
        d = CartesianDMP(dt=0.0625, int_dt=0.0078125)
        s, g = pose("gen", "a"), pose("gen2", "b")
    elif kind == "dual":
        d = DualCartesianDMP(dt=0.0625, int_dt=0.0078125)
        s, g = dual("gen", "gen2"), dual("gen2", "gen3")
    elif kind == "sd":
        d = SpringDamper(2, dt=0.0625, int_dt=0.0078125, k=4.0)
        s, g = gen.vec(2, "a"), gen.vec(2, "c")
    else:
        d = SpringDamperOrientation(dt=0.0625, int_dt=0.0078125, k=4.0)
        s, g = gen.quat("gen"), gen.quat("gen2")
    if hasattr(d, "set_weights") and kind != "state":
        fill(d)
    if kind == "state":
        d.forcing_term.viapoints[:] = np.resize(gen.vec(6, "e"), (10, 2))
    d.configure(start_y=s, goal_y=g)
    return d, s


def step(kind):
    def run(kw):
        d, s = make(kind)
        nv = {"cart": 6, "dual": 12, "sdo": 3}.get(kind, 2)
        y, v = s.copy(), gen.vec(nv, "d", 0.3)
        out = []
        for _ in range(3):
            y, v = d.step(y, v, **kw)
            out += [y, v]
        return out
    return run


def rollout(kind):
    def run(kw):
        d, _ = make(kind)
        return list(d.open_loop(**kw))
    return run


def demo(kind):
    T = np.linspace(0.0, 1.0, 21)
    if kind in ("dmp", "final", "state"):
        return T, np.stack((np.sin(3.0 * T), T * T), axis=1)
    n = 1 if kind == "cart" else 2
    Y = np.empty((21, 7 * n))
    for a in range(n):
        for j in range(3):
            Y[:, 7 * a + j] = np.sin((1.0 + j + a) * T)
        for i, t in enumerate(T):
            Y[i, 7 * a + 3:7 * a + 7] = ref.qapply(
                [t * (0.4 + a), -0.3 * t * t, 0.5 * t], gen.quat("gen"))
    return T, Y


def imitate(kind):
    def run(kw):
        d, _ = make(kind)
        d.imitate(*demo(kind), **kw)
        n = {"cart": 6, "dual": 12}.get(kind, 2)
        return list(d.get_weights().reshape(n, -1)) + list(d.open_loop())
    return run


def coupling(cls, args, states):
    def run(kw):
        c = cls(*args, **kw)
        out = []
        for y, v in states:
            out += [np.asarray(x) for x in c.coupling(y.copy(), v.copy())]
        return out
    return run


def trajectory_coupling(kw):
    c = CouplingTermDualCartesianTrajectory(
        np.array([0.1, -0.2, 0.05, 0.0, 0.0, 0.0, 0.0]), (1.0, 0.5), 0.25,
        **kw)
    T = np.linspace(0.0, 1.0, 9)
    D = np.array([dual("gen", "gen2") for _ in T])
    D[:, :3] += T[:, np.newaxis]
    D[:, 7:10] -= T[:, np.newaxis] ** 2
    c.imitate(T, D)
    out = []
    for y, v in DUAL_STATES:
        out += [np.asarray(x) for x in c.coupling(y.copy(), v.copy())]
    return out


DUAL_STATES = [(dual("gen", "gen2"), gen.vec(12, "d")),
               (dual("gen3", "gen"), gen.vec(12, "e"))]


def chain(**kw):
    return Kinematics(robots.urdf("spatial")).create_chain(
        ["q1", "q2", "q3", "q4"], "b", "tool", **kw)


def target(c, far=True):
    H = np.array(c.forward([0.7, -0.4, 0.1, 0.5]))
    if far:
        H[:3, 3] += [0.3, -0.2, 0.4]
    return H


def planar():
    return Kinematics(robots.urdf("planar")).create_chain(
        ["q1", "q2"], "b", "tool")


def lifted(c):
    """Targets above the plane that can be reached up to a known error."""
    for z in (5e-4, 2e-3, 2e-2, 0.2):
        H = np.array(c.forward([0.3, 0.7]))
        H[2, 3] += z
        yield H


def kin_error(kw):
    c = chain()
    return [c.ee_pose_error(np.array([0.1, 0.2, 0.05, 0.3]), target(c), **kw)]


def kin_inverse(kw):
    c = chain()
    r = c.inverse(target(c), np.array([0.1, 0.2, 0.05, 0.3]), **kw)
    return [np.asarray(x) for x in (r if isinstance(r, tuple) else (r,))]


def kin_restarts(kw):
    c = chain()
    np.random.seed(5)
    out = [c.inverse_with_random_restarts(target(c), **kw),
           c.inverse_with_random_restarts(target(c, False), **kw),
           np.random.random_sample()]
    c = planar()
    for h in lifted(c):
        out += [c.inverse_with_random_restarts(h, **kw),
                np.random.random_sample()]
    return out


def kin_local(kw):
    c = chain()
    np.random.seed(5)
    q = np.array([0.1, 0.2, 0.05, 0.3])
    out = [c.local_inverse_with_random_restarts(target(c), q, 0.5, **kw),
           c.local_inverse_with_random_restarts(
               target(c, False), np.array([0.68, -0.41, 0.1, 0.5]), 0.5,
               **kw), np.random.random_sample()]
    c = planar()
    for h in lifted(c):
        out += [c.local_inverse_with_random_restarts(
            h, np.array([0.2, 0.9]), 0.5, **kw), np.random.random_sample()]
    return out


def kin_trajectory(kw):
    c = chain()
    np.random.seed(5)
    H = c.forward_trajectory([[0.7, -0.4, 0.1, 0.5], [0.8, -0.3, 0.1, 0.9],
                              [1.6, -0.1, 0.2, 0.9]])
    H[2, :3, 3] += 0.2
    kw = dict(kw)
    return [c.inverse_trajectory(H, **kw), np.random.random_sample()]


def promp(kw):
    p = ProMP(2, **kw)
    return [p.n_weights, p.mean_trajectory(np.linspace(0, 1, 5)),
            p.cov_trajectory(np.linspace(0, 1, 5))]


def some_promp():
    return ProMP(2, 5).from_weight_distribution(
        gen.vec(10, "a"), np.eye(10) + 0.5 * np.outer(gen.vec(10, "b"),
                                                      gen.vec(10, "b")))


def promp_weights(kw):
    T = np.linspace(0.0, 1.0, 4)
    return [some_promp().weights(T, np.stack((T, T * T), axis=1), **kw)]


def promp_condition(kw):
    p = some_promp().condition_position(gen.vec(2, "c"), **kw)
    T = np.linspace(0.0, 1.0, 5)
    return [p.mean_trajectory(T), p.cov_trajectory(T)]


def promp_via(kw):
    p = via_points(some_promp(), np.array([0.25, 0.75]),
                   np.array([gen.vec(2, "c"), gen.vec(2, "d")]), **kw)
    T = np.linspace(0.0, 1.0, 5)
    return [p.mean_trajectory(T), p.cov_trajectory(T)]


def promp_imitate(kw):
    T = np.linspace(0.0, 1.0, 12)
    Y = [np.stack((np.sin((3 + 0.3 * i) * T), T ** (1 + i)), axis=1)
         for i in range(3)]
    p = ProMP(2, 4)
    p.imitate([T.copy() for _ in Y], Y, **kw)
    return [p.weight_mean, p.weight_cov]


def field(kw):
    d, s = make("dmp")
    d.step(s.copy(), gen.vec(2, "d", 0.3))
    return list(potential_field_2d(d, (-1.0, 1.0), (0.0, 2.0), 3, **kw))


def spring(cls):
    def run(kw):
        d = cls(*((2,) if cls is SpringDamper else ()), **kw)
        if cls is SpringDamper:
            d.configure(start_y=gen.vec(2, "a"), goal_y=gen.vec(2, "c"))
            y, v = gen.vec(2, "a"), gen.vec(2, "d", 0.3)
        else:
            d.configure(start_y=gen.quat("gen"), goal_y=gen.quat("gen2"))
            y, v = gen.quat("gen"), gen.vec(3, "d", 0.3)
        out = list(d.open_loop())
        for _ in range(3):
            y, v = d.step(y, v)
            out += [y, v]
        return out
    return run


def minimum_jerk(kw):
    return list(generate_minimum_jerk(gen.vec(2, "a"), gen.vec(2, "c"), **kw))


def minimum_jerk_primitive(kw):
    d = MinimumJerkTrajectory(2, 1.0, **kw)
    d.configure(start_y=gen.vec(2, "a"), goal_y=gen.vec(2, "c"))
    out = []
    y, v = gen.vec(2, "a"), np.zeros(2)
    for _ in range(4):
        y, v = d.step(y, v)
        out += [y, v]
    return out


def toy(kw):
    return list(generate_1d_trajectory_distribution(3, 12, **kw))


BASE = {"execution_time": (1.0, 0.5), "dt": (0.01, 0.02),
        "n_weights_per_dim": (10, 9), "int_dt": (0.001, 0.004),
        "smooth_scaling": (False, True), "alpha_y": (25.0, 24.0),
        "beta_y": (6.25, 6.0)}
GAIN = dict(BASE, p_gain=(0.0, 3.0))
WEIGHTS = {"orientation_weight": (1.0, 0.3), "position_weight": (1.0, 0.4)}
RESTARTS = dict(WEIGHTS, n_restarts=(10, 1), tolerance=(1e-3, 1e3),
                solver=("SLSQP", "COBYLA"), random_state=(np.random, None))
AVOID = {"gamma": (1000.0, 900.0), "beta": (PI20, 6.0)}
LIMITS = np.array([[-2.0, 2.0], [-1.2, 1.2], [-0.1, 0.3],
                   [-math.inf, math.inf]])


def gains(c1):
    return {"k": (1.0, 1.5), "c1": (c1, c1 + 0.5), "c2": (30.0, 25.0)}


def without(d, *names):
    return {k: v for k, v in d.items() if k not in names}


IMITATE = {"regularization_coefficient": (0.0, 1e-2),
           "allow_final_velocity": (False, True)}
V1, V3 = [(np.array([0.3, -0.8]), np.array([0.5, 0.25]))], [
    (np.concatenate((gen.vec(3, "a"), gen.vec(3, "b"))), gen.vec(6, "d"))]
# name: (observation, {argument: (documented default, another value)}); None:
# another value is not tried
TABLE = {
    "DMP": (joint_primitive(DMP), GAIN),
    "CartesianDMP": (cartesian, BASE),
    "DualCartesianDMP": (bimanual, GAIN),
    "DMPWithFinalVelocity": (joint_primitive(DMPWithFinalVelocity),
                             without(GAIN, "smooth_scaling")),
    "StateFollowingDMP": (viapoints, {
        "dt": (0.01, 0.02), "n_viapoints": (10, 9), "int_dt": (0.001, 0.004),
        "alpha_y": (25.0, 24.0), "beta_y": (6.25, 6.0)}),
    "SpringDamper": (spring(SpringDamper), {
        "dt": (0.01, 0.02), "k": (1.0, 2.0), "c": (2.0, 3.0),
        "int_dt": (0.001, 0.004)}),
    "SpringDamperOrientation": (spring(SpringDamperOrientation), {
        "dt": (0.01, 0.02), "k": (1.0, 2.0), "c": (2.0, 3.0),
        "int_dt": (0.001, 0.004)}),
    "MinimumJerkTrajectory": (minimum_jerk_primitive, {"dt": (0.01, 0.02)}),
    "generate_minimum_jerk": (minimum_jerk, {
        "execution_time": (1.0, 0.5), "dt": (0.01, 0.02)}),
    "generate_1d_trajectory_distribution": (toy, {
        "initial_offset_range": (3.0, 2.5), "final_offset_range": (0.1, 0.2),
        "noise_per_step_range": (20.0, 19.0),
        "random_state": (Seed(0), Seed(1))}),
    "DMP.step": (step("dmp"), {
        "coupling_term": (None, Push()), "step_function": (
            "rk4-cython", "euler")}),
    "DMPWithFinalVelocity.step": (step("final"), {
        "coupling_term": (None, Push())}),
    "StateFollowingDMP.step": (step("state"), {
        "coupling_term": (None, Push())}),
    "CartesianDMP.step": (step("cart"), {
        "coupling_term": (None, PosePush(3))}),
    "DualCartesianDMP.step": (step("dual"), {
        "coupling_term": (None, PosePush(12))}),
    "SpringDamper.step": (step("sd"), {"coupling_term": (None, Push())}),
    "SpringDamperOrientation.step": (step("sdo"), {
        "coupling_term": (None, PosePush(3))}),
    "DMP.open_loop": (rollout("dmp"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, Push()),
        "step_function": ("rk4-cython", "euler")}),
    "DMPWithFinalVelocity.open_loop": (rollout("final"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, Push())}),
    "StateFollowingDMP.open_loop": (rollout("state"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, Push())}),
    "CartesianDMP.open_loop": (rollout("cart"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, PosePush(3)),
        "step_function": ("rk4-cython", "euler"),
        "quaternion_step_function": ("cython", None)}),
    "DualCartesianDMP.open_loop": (rollout("dual"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, PosePush(12)),
        "step_function": ("cython", None)}),
    "SpringDamper.open_loop": (rollout("sd"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, Push())}),
    "SpringDamperOrientation.open_loop": (rollout("sdo"), {
        "run_t": (1.0, 0.5), "coupling_term": (None, PosePush(3))}),
    "DMP.imitate": (imitate("dmp"), IMITATE),
    "CartesianDMP.imitate": (imitate("cart"), IMITATE),
    "DualCartesianDMP.imitate": (imitate("dual"), IMITATE),
    "DMPWithFinalVelocity.imitate": (imitate("final"), without(
        IMITATE, "allow_final_velocity")),
    "CouplingTermObstacleAvoidance2D": (coupling(
        CouplingTermObstacleAvoidance2D, (np.array([1.0, 0.2]),), V1),
        dict(AVOID, fast=(False, None))),
    "CouplingTermObstacleAvoidance3D": (coupling(
        CouplingTermObstacleAvoidance3D, (np.array([1.0, 0.2, -0.4]),),
        [(gen.vec(3, "a"), gen.vec(3, "d"))]), AVOID),
    "obstacle_avoidance_acceleration_2d": (
        lambda kw: [obstacle_avoidance_acceleration_2d(
            np.array([0.3, -0.8]), np.array([0.5, 0.25]),
            np.array([1.0, 0.2]), **kw)], AVOID),
    "obstacle_avoidance_acceleration_3d": (
        lambda kw: [obstacle_avoidance_acceleration_3d(
            gen.vec(3, "a"), gen.vec(3, "d"), np.array([1.0, 0.2, -0.4]),
            **kw)], AVOID),
    "CouplingTermPos1DToPos1D": (coupling(
        CouplingTermPos1DToPos1D, (0.5, (1.0, 0.5)), V1), gains(100.0)),
    "CouplingTermPos3DToPos3D": (coupling(
        CouplingTermPos3DToPos3D, (gen.vec(3, "e"), (1.0, 0.5)), V3),
        gains(1.0)),
    "CouplingTermDualCartesianPose": (coupling(
        CouplingTermDualCartesianPose, (matrix(
            gen.vec(3, "e"), gen.quat("gen")), (1.0, 0.5)), DUAL_STATES),
        dict(gains(1.0), couple_position=(True, False),
             couple_orientation=(True, False), verbose=(0, None))),
    "CouplingTermDualCartesianTrajectory": (trajectory_coupling, dict(
        gains(1.0), couple_position=(True, False),
        couple_orientation=(True, False), verbose=(1, None))),
    "CouplingTermDualCartesianDistance": (coupling(
        CouplingTermDualCartesianDistance, (0.75, (1.0, 0.5)), DUAL_STATES),
        gains(1.0)),
    "Chain.ee_pose_error": (kin_error, WEIGHTS),
    "Chain.inverse": (kin_inverse, dict(
        WEIGHTS, return_error=(False, True), bounds=(LIMITS, LIMITS * 0.1),
        solver=("SLSQP", "COBYLA"))),
    "Chain.inverse_with_random_restarts": (kin_restarts, RESTARTS),
    "Chain.local_inverse_with_random_restarts": (kin_local, RESTARTS),
    "Chain.inverse_trajectory": (kin_trajectory, dict(
        WEIGHTS, initial_joint_angles=(None, np.array([.6, -.3, .1, .4])),
        interval=(0.1 * math.pi, 0.2), random_restarts=(True, False),
        solver=("SLSQP", "COBYLA"), random_state=(np.random, None))),
    "ProMP": (promp, {"n_weights_per_dim": (10, 9)}),
    "ProMP.weights": (promp_weights, {"lmbda": (1e-12, 1e-2)}),
    "ProMP.condition_position": (promp_condition, {
        "y_cov": (0.0, 0.5), "t": (0.0, 0.5), "t_max": (1.0, None)}),
    "ProMP.condition_position(t)": (
        lambda kw: promp_condition(dict(kw, t=0.5)),
        {"y_cov": (0.0, 0.5), "t_max": (1.0, 2.0)}),
    "via_points": (promp_via, {"y_conditional_cov": (
        np.zeros((2, 2, 2)), np.array([np.eye(2), np.eye(2)]))}),
    "ProMP.imitate": (promp_imitate, {
        "n_iter": (1000, 1), "min_delta": (1e-5, 0.5)}),
    "potential_field_2d": (field, {"obstacle": (
        None, np.array([0.3, 0.4]))}),
}


PRIMITIVES = ["DMP", "CartesianDMP", "DualCartesianDMP",
              "DMPWithFinalVelocity", "StateFollowingDMP", "SpringDamper",
              "SpringDamperOrientation"]

# Runge-Kutta integration of positions takes whole steps; the arms of the
# bimanual rollout end where they start
UNAFFECTED = {("DMP", "int_dt"): range(2), ("CartesianDMP", "int_dt"):
              range(3), ("DualCartesianDMP", "smooth_scaling"): (
                  0, 1, 2, 7, 8, 9)}


def bounds(tier):
    return {"calls": "%d classes, methods and functions" % len(TABLE),
            "omitted": "all subsets of the optional arguments",
            "options": "another value for every optional argument"}


def cases(tier):
    for name, (f, args) in TABLE.items():
        names = sorted(args)
        subsets = [s for r in range(1, len(names) + 1)
                   for s in itertools.combinations(names, r)]
        for i in range(0, len(subsets), 16):
            yield {"case": "omit", "name": name,
                   "sets": [list(s) for s in subsets[i:i + 16]]}
        yield {"case": "effect", "name": name}


def observe(f, kw):
    kw = {k: v.copy() if isinstance(v, np.ndarray) else v() if isinstance(
        v, Seed) else v for k, v in kw.items()}
    with contextlib.redirect_stdout(io.StringIO()):
        return [np.asarray(x, dtype=float) for x in f(kw)]


def run(case, rec):
    name = case["name"]
    f, args = TABLE[name]
    full = {k: v[0] for k, v in args.items()}
    want = observe(f, full)
    if case["case"] == "omit":
        for s in case["sets"]:
            got = observe(f, {k: v for k, v in full.items() if k not in s})
            rec.ok(len(got) == len(want), "%s without %s: number of results"
                   % (name, ", ".join(s)))
            for i, (a, b) in enumerate(zip(got, want)):
                rec.close(a, b, "%s without %s: result %d" % (
                    name, ", ".join(s), i), 1e-9, 1e-9)
            rec.call(2)
            rec.traces += 1
            rec.state(name, *got[:4])
        return
    for k, (_, other) in sorted(args.items()):
        if other is None:
            continue
        got = observe(f, dict(full, **{k: other}))
        rec.call()
        same = len(got) == len(want) and all(
            a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9)
            for a, b in zip(got, want))
        rec.ok(not same, "%s: %s has no effect" % (name, k))
        if name in PRIMITIVES and k in ("int_dt", "alpha_y", "beta_y",
                                        "smooth_scaling",
                                        "n_weights_per_dim"):
            # the rollout changes in every coordinate
            for j in range(want[1].shape[1]):
                if (name, k) in UNAFFECTED and j in UNAFFECTED[name, k]:
                    continue
                rec.ok(got[1].shape != want[1].shape or not np.allclose(
                    got[1][:, j], want[1][:, j], rtol=1e-9, atol=1e-9),
                    "%s: %s has no effect on coordinate %d of the rollout"
                    % (name, k, j))
        if k == "regularization_coefficient":
            for i, (a, b) in enumerate(zip(got[:-2], want)):
                rec.ok(not np.allclose(a, b, rtol=1e-9, atol=1e-9),
                       "%s: %s has no effect on dimension %d" % (name, k, i))
        rec.traces += 1
        rec.state(name, k, *got[:4])
