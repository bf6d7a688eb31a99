"""P24: caller data untouched, results independent."""
import math

import numpy as np

from . import gen, prims, ref, robots
from movement_primitives import dmp as dmp_pkg
from movement_primitives.data import (
    generate_1d_trajectory_distribution, generate_minimum_jerk)
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics, pose_dist
from movement_primitives.promp import ProMP, via_points

PROPERTY = "P24"
ORACLE = ("bitwise copies of all arguments and results taken at each call and "
          "compared after every later call; an untouched twin run in lockstep "
          "while the results of the first object are overwritten")
CHUNK = 8
LAYOUTS = ["plain", "strided"]


def bounds(tier):
    return {"operations": "every public operation of every class and the "
            "array functions, arguments plain and strided",
            "histories": "all words of length %d over the operations of a "
            "class" % (2 if tier == "quick" else 3)}


# -- arguments ---------------------------------------------------------------
def lay(a, layout):
    a = np.array(a, dtype=float)
    if layout == "plain":
        return a
    big = np.zeros(tuple(2 * n for n in a.shape))
    view = big[tuple(slice(None, None, 2) for _ in a.shape)]
    view[...] = a
    return view


def freeze(x):
    """Deep copy for later comparison."""
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return [freeze(e) for e in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if hasattr(x, "data"):
        return freeze(x.data)
    return x


def equal(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape \
            and np.array_equal(a, b, equal_nan=True)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return all(equal(a[k], b[k]) for k in a)
    if hasattr(a, "data") and not isinstance(a, (float, int)):
        return equal(freeze(a.data), b)
    return True


def overwrite(x):
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        if x.flags.writeable:
            x[...] = 1234.5
    elif isinstance(x, (list, tuple)):
        for e in x:
            overwrite(e)


class Stored:
    """Coupling term that returns arrays it owns."""
    def __init__(self, kind):
        n = 6 if prims.base(kind) in ("cart",) else prims.N_VEL[
            prims.base(kind)]
        n = 3 if prims.base(kind) == "cart" else n
        self.data = [0.01 * gen.vec(n, "a"), gen.vec(n, "b")]

    def coupling(self, y, yd=None):
        return self.data[0], self.data[1]


def demo(kind, n=25):
    T = np.linspace(0.0, 1.0, n)
    rows = []
    for t in T:
        s = t ** 3 * (10 - 15 * t + 6 * t * t)
        y = np.array(prims.pose(kind, "a", "gen"))
        for b in prims.pos_blocks(kind):
            y[b] += s * np.array([1.0, -0.5, 0.3]) + 0.1 * math.sin(3 * t)
        for b in prims.rot_blocks(kind):
            y[b] = ref.qapply([0.5 * s, -0.8 * s, 0.3 * s], y[b])
        rows.append(y)
    return T, np.array(rows)


# -- subjects: (factory, operations, probe) -----------------------------------
def primitive(kind):
    b = prims.base(kind)
    nv = prims.N_VEL[b]

    def factory():
        return prims.make(kind, p_gain=1.0, startd="d")

    def state(L):
        return {"y": lay(prims.pose(kind, "b", "gen3"), L),
                "yd": lay(gen.vec(nv, "e", 0.3), L)}

    ops = {}
    ops["step"] = (state, lambda d, a: prims.step(kind, d, a["y"], a["yd"]))
    ops["steps"] = (state, lambda d, a: d.n_steps_open_loop(
        a["y"], a["yd"], 2 if b == "minjerk" else 18))  # beyond the end
    if b != "minjerk":
        def with_coupling(L):
            a = state(L)
            a["ct"] = Stored(kind)
            return a
        if b not in ("cart", "sdo"):
            ops["coupled"] = (with_coupling, lambda d, a: prims.step(
                kind, d, a["y"], a["yd"], a["ct"]))
            ops["coupled rollout"] = (
                lambda L: {"ct": Stored(kind)},
                lambda d, a: prims.rollout(kind, d, 0.25, a["ct"]))
        ops["rollout"] = (lambda L: {}, lambda d, a: prims.rollout(
            kind, d, 0.25))
    ops["configure"] = (
        lambda L: {"start_y": lay(prims.pose(kind, "c", "gen2"), L),
                   "goal_y": lay(prims.pose(kind, "d", "x90"), L),
                   "start_yd": lay(gen.vec(nv, "b", 0.2), L),
                   "start_ydd": lay(gen.vec(nv, "c", 0.2), L),
                   "goal_yd": lay(gen.vec(nv, "d", 0.2), L),
                   "goal_ydd": lay(gen.vec(nv, "e", 0.2), L)},
        lambda d, a: d.configure(**a))
    ops["reset"] = (lambda L: {}, lambda d, a: d.reset())
    if prims.has_weights(kind):
        ops["set_weights"] = (
            lambda L: {"w": lay(gen.weights(nv, 4, "wave2", 20.0).ravel(),
                                L)},
            lambda d, a: d.set_weights(a["w"]))
        ops["get_weights"] = (lambda L: {}, lambda d, a: d.get_weights())

        def demonstration(L):
            T, Y = demo(kind)
            return {"T": lay(T, L), "Y": lay(Y, L)}
        ops["imitate"] = (demonstration,
                          lambda d, a: d.imitate(a["T"], a["Y"]))

        def late(L):
            a = demonstration(L)
            a["T"] += 1.5
            return a
        ops["imitate late"] = (late, lambda d, a: d.imitate(
            a["T"], a["Y"], 1e-3))
    if hasattr(factory(), "get_execution_time_"):
        ops["time"] = (lambda L: {}, lambda d, a: setattr(
            d, "execution_time_", 1.5))

    def probe(d):
        out = []
        if prims.has_weights(kind):
            out.append(d.get_weights().copy())
        if prims.has_rollout(kind):
            out += [x.copy() for x in prims.rollout(kind, d, 0.25)]
        y, yd = prims.pose(kind, "e", "gen2"), gen.vec(nv, "b", 0.1)
        for _ in range(2):
            y, yd = prims.step(kind, d, y.copy(), yd.copy())
            out += [y.copy(), yd.copy()]
        d.reset()
        out += [x.copy() for x in prims.step(kind, d, y.copy(), yd.copy())]
        return out
    return factory, ops, probe


def promp_subject():
    T = np.linspace(0.0, 1.0, 11)
    w = np.arange(6) * 0.3 - 0.5

    def cov(n, s):
        a = np.arange(n * n).reshape(n, n) % 5 * 0.2
        return s * (a.dot(a.T) + np.eye(n))

    def factory():
        p = ProMP(2, 3)
        p.from_weight_distribution(w.copy(), cov(6, 0.1))
        return p

    def times(L):
        return {"T": lay(T * 2.0, L)}  # unnormalised

    ops = {}
    for name in ("mean_trajectory", "cov_trajectory", "var_trajectory",
                 "mean_velocities", "cov_velocities", "var_velocities"):
        ops[name] = (times, lambda p, a, name=name: getattr(p, name)(a["T"]))
    ops["sample"] = (times, lambda p, a: p.sample_trajectories(
        a["T"], 2, np.random.RandomState(0)))
    ops["weights"] = (
        lambda L: {"T": lay(T * 2.0, L), "Y": lay(
            np.stack((np.sin(T), T ** 2), 1), L)},
        lambda p, a: p.weights(a["T"], a["Y"]))
    ops["from_weights"] = (
        lambda L: {"T": lay(T * 2.0, L), "w": lay(w[::-1], L)},
        lambda p, a: p.trajectory_from_weights(a["T"], a["w"]))

    def cond(p, a):
        c = p.condition_position(a["y"], a.get("cov"), 0.5, 2.0)
        return [c.mean_trajectory(T), c.cov_trajectory(T),
                c.weight_mean, c.weight_cov] \
            if hasattr(c, "weight_mean") else [c.mean_trajectory(T)]
    ops["condition"] = (lambda L: {"y": lay([0.3, -0.2], L),
                                   "cov": lay(cov(2, 0.01), L)}, cond)
    ops["condition exact"] = (lambda L: {"y": lay([0.3, -0.2], L)}, cond)
    ops["via"] = (
        lambda L: {"ts": lay([0.1, 0.9], L),
                   "y": lay([[0.3, -0.2], [1.0, 0.5]], L),
                   "cov": lay([cov(2, 0.01), cov(2, 0.02)], L)},
        lambda p, a: via_points(p, a["ts"], a["y"],
                                a["cov"]).mean_trajectory(T))

    def data(L):
        Y = np.array([np.stack((np.sin(T + 0.1 * i), T ** 2 + 0.2 * i), 1)
                      for i in range(3)])
        return {"Ts": [lay(T * (1.0 + i), L) for i in range(3)],
                "Ys": [lay(y, L) for y in Y]}
    ops["imitate"] = (data, lambda p, a: p.imitate(a["Ts"], a["Ys"],
                                                   n_iter=3))
    ops["imitate arrays"] = (
        lambda L: {k: lay(v, L) for k, v in data("plain").items()},
        lambda p, a: p.imitate(a["Ts"], a["Ys"], n_iter=3))

    def probe(p):
        return [p.mean_trajectory(T), p.cov_trajectory(T),
                p.mean_velocities(T), p.cov_velocities(T)]
    return factory, ops, probe


def chain_subject():
    name = "spatial"
    joints = ["q1", "q2", "q3", "q4"]

    def factory():
        return Kinematics(robots.urdf(name)).create_chain(
            list(joints), "b", "tool")
    q = np.array([0.1, 0.2, 0.05, -0.3])

    def pose(L):
        return {"H": lay(robots.fk(name, "b", "tool", joints, q + 0.05), L),
                "q": lay(q, L)}
    ops = {
        "forward": (lambda L: {"q": lay(q, L)},
                    lambda c, a: c.forward(a["q"])),
        "forward beyond": (lambda L: {"q": lay(q * 100, L)},
                           lambda c, a: c.forward(a["q"])),
        "trajectory": (lambda L: {"Q": lay([q, 2 * q, 50 * q], L)},
                       lambda c, a: c.forward_trajectory(a["Q"])),
        "error": (pose, lambda c, a: c.ee_pose_error(a["q"], a["H"])),
        "inverse": (pose, lambda c, a: c.inverse(a["H"], a["q"], True)),
        "inverse bounds": (
            lambda L: dict(pose(L), b=lay(np.stack((q - 0.01, q + 0.1), 1),
                                          L)),
            lambda c, a: c.inverse(a["H"], a["q"], bounds=a["b"])),
        "inverse beyond": (
            lambda L: dict(pose(L), q=lay(q + 9.0, L)),
            lambda c, a: c.inverse(a["H"], a["q"])),
        "local": (pose, lambda c, a: c.local_inverse_with_random_restarts(
            a["H"], a["q"], 0.1, random_state=np.random.RandomState(0))),
        "restarts": (pose, lambda c, a: c.inverse_with_random_restarts(
            a["H"], n_restarts=2, random_state=np.random.RandomState(0))),
        "inverse trajectory": (
            lambda L: {"H": lay([robots.fk(name, "b", "tool", joints, s * q)
                                 for s in (0.5, 1.0)], L), "q": lay(q, L)},
            lambda c, a: c.inverse_trajectory(
                a["H"], a["q"], random_state=np.random.RandomState(0))),
    }

    def probe(c):
        return [c.forward(q), c.forward_trajectory([q, 2 * q]),
                c.inverse(c.forward(q), q + 0.1)]
    return factory, ops, probe


def coupling_subject(kind):
    D = dmp_pkg
    two = np.array([0.2, 0.7])
    six = gen.vec(6, "a")
    arms = np.hstack((gen.vec(3, "a"), gen.quat("gen"), gen.vec(3, "b"),
                      gen.quat("-gen2")))
    offset = np.hstack((gen.vec(3, "c"), gen.quat("gen3")))
    T, Y = demo("dual")
    made = {
        "c1d": (lambda: D.CouplingTermPos1DToPos1D(0.5, (1, 1)), two, two),
        "c3d": (lambda: D.CouplingTermPos3DToPos3D(
            gen.vec(3, "d"), (1, 1)), six, six),
        "cdist": (lambda: D.CouplingTermDualCartesianDistance(
            0.5, (1, 1)), arms, gen.vec(12, "a")),
        "cpose": (lambda: D.CouplingTermDualCartesianPose(
            robots._hom(robots._rot((1, 2, 0), 0.5), gen.vec(3, "c")),
            (1, 1)), arms, gen.vec(12, "a")),
        "o2d": (lambda: D.CouplingTermObstacleAvoidance2D(
            np.array([0.4, 0.4])), two, two[::-1]),
        "o2df": (lambda: D.CouplingTermObstacleAvoidance2D(
            np.array([0.4, 0.4]), fast=True), two, two[::-1]),
        "o3d": (lambda: D.CouplingTermObstacleAvoidance3D(
            np.array([0.4, 0.4, 0.1])), gen.vec(3, "a"), gen.vec(3, "b")),
    }
    factory, y, yd = made.get(kind, (None, arms, gen.vec(12, "a")))
    if kind == "ctraj":
        def factory():
            c = D.CouplingTermDualCartesianTrajectory(offset, (1, 1), 0.0625)
            c.imitate(T.copy(), Y.copy())
            return c
    ops = {"coupling": (lambda L: {"y": lay(y, L), "yd": lay(yd, L)},
                        lambda c, a: c.coupling(a["y"], a["yd"])),
           "coupling 2": (lambda L: {"y": lay(y * 0.5 if len(y) < 14 else y,
                                              L), "yd": lay(-yd, L)},
                          lambda c, a: c.coupling(a["y"], a["yd"]))}
    if kind == "ctraj":
        ops["imitate"] = (lambda L: {"T": lay(T, L), "Y": lay(Y, L)},
                          lambda c, a: c.imitate(a["T"], a["Y"]))

    def probe(c):
        return [x.copy() for x in c.coupling(y.copy(), yd.copy())]
    return factory, ops, probe


def function_subject():
    D = dmp_pkg

    def factory():
        d = D.DMP(2, execution_time=1.0, dt=0.0625, int_dt=0.0625)
        d.set_weights(gen.weights(2, 10, "wave", 50.0).ravel())
        d.configure(start_y=np.array([0.1, 0.2]), goal_y=np.array([1.0, 0.5]))
        d.step(d.start_y.copy(), d.start_yd.copy())
        return d
    ops = {
        "minimum jerk": (lambda L: {"s": lay([0.1, 0.2], L),
                                    "g": lay([1.0, 2.0], L)},
                         lambda d, a: generate_minimum_jerk(
                             a["s"], a["g"], 1.0, 0.25)),
        "toy": (lambda L: {}, lambda d, a:
                generate_1d_trajectory_distribution(2, 5)),
        "field": (lambda L: {"x": lay([0.0, 1.0], L), "y": lay([0.0, 2.0], L),
                             "o": lay([0.4, 0.3], L)},
                  lambda d, a: potential_field_2d(d, a["x"], a["y"], 4,
                                                  a["o"])),
        "obstacle 2d": (lambda L: {"y": lay([0.3, 0.1], L),
                                   "v": lay([0.5, 0.2], L),
                                   "o": lay([1.0, 1.0], L)},
                        lambda d, a: D.obstacle_avoidance_acceleration_2d(
                            a["y"], a["v"], a["o"])),
        "obstacle batch": (
            lambda L: {"y": lay([[0.3, 0.1], [0.2, 0.9]], L),
                       "v": lay([[0.5, 0.2], [0.1, 0.1]], L),
                       "o": lay([1.0, 1.0], L)},
            lambda d, a: D.obstacle_avoidance_acceleration_2d(
                a["y"], a["v"], a["o"])),
        "obstacle 3d": (
            lambda L: {"y": lay([0.3, 0.1, 0.2], L),
                       "v": lay([0.5, 0.2, 0.1], L),
                       "o": lay([1.0, 1.0, 0.0], L)},
            lambda d, a: D.obstacle_avoidance_acceleration_3d(
                a["y"], a["v"], a["o"])),
        "distance": (
            lambda L: {"a": lay(robots._hom(robots._rot((1, 0, 2), 1.0),
                                            [1, 2, 3]), L),
                       "b": lay(np.eye(4), L)},
            lambda d, a: pose_dist(a["a"], a["b"], 1.0, 1.0)),
        "phase": (lambda L: {"t": lay([0.1, 0.2], L)},
                  lambda d, a: d.forcing_term.phase(a["t"])),
        "forces": (lambda L: {"t": lay([0.1, 0.2], L)},
                   lambda d, a: d.forcing_term(a["t"])),
    }

    def probe(d):
        return [x.copy() for x in potential_field_2d(
            d, (0, 1), (0, 1), 3, np.array([0.4, 0.3]))] + [
                x.copy() for x in d.open_loop(0.25)] + [
                generate_1d_trajectory_distribution(1, 5)[1]]
    return factory, ops, probe


def integrators():
    """The step functions behind the classes, as far as they exist.

    Only the current position and velocity are documented as modified.
    """
    found = {}
    fast = __import__("movement_primitives.dmp_fast", fromlist=["x"])
    for n, name in ((2, "dmp_step"), (2, "dmp_step_rk4"),
                    (4, "dmp_step_quaternion"),
                    (14, "dmp_step_dual_cartesian")):
        if hasattr(fast, name):
            found["compiled " + name] = n, getattr(fast, name)
    for n, table in ((2, prims.tables()[0]), (4, prims.tables()[1]),
                     (14, prims.dual_table())):
        for name, f in table.items():
            found["%d %s" % (n, name)] = n, f
    return found


def integrator_subject():
    pos = {2: gen.vec(2, "a"), 4: gen.quat("gen"), 14: np.hstack((
        gen.vec(3, "a"), gen.quat("gen"), gen.vec(3, "b"),
        gen.quat("gen2")))}
    goal = {2: gen.vec(2, "c"), 4: gen.quat("gen3"), 14: np.hstack((
        gen.vec(3, "c"), gen.quat("gen3"), gen.vec(3, "d"),
        gen.quat("gen")))}
    nv = {2: 2, 4: 3, 14: 12}

    def factory():
        made = {2: dmp_pkg.DMP(2, dt=0.0625), 4: dmp_pkg.CartesianDMP(),
                14: dmp_pkg.DualCartesianDMP()}
        for d in made.values():
            d.set_weights(np.sin(np.arange(d.get_weights().size)) * 30.0)
        return made

    def args(n):
        def make(L):
            v = nv[n]
            a = {"goal_y": lay(goal[n], L), "goal_yd": lay(gen.vec(v, "a"), L),
                 "goal_ydd": lay(gen.vec(v, "b"), L),
                 "start_y": lay(pos[n], L), "start_yd": lay(gen.vec(v, "c"),
                                                            L),
                 "start_ydd": lay(gen.vec(v, "d"), L),
                 "alpha_y": lay(np.full(v, 25.0), L),
                 "beta_y": lay(np.full(v, 6.25), L)}
            if n != 4:
                a["tracking_error"] = lay(pos[n], L)
            return a
        return make

    def op(n, f):
        def run_it(made, a):
            kw = dict(a)
            te = kw.pop("tracking_error", None)
            if te is not None:
                kw.update(tracking_error=te, p_gain=1.0)
            d = made[n]
            y, yd = pos[n].copy(), gen.vec(nv[n], "e", 0.5)
            try:
                ft = d.forcing_term_rot if n == 4 else d.forcing_term
                f(last_t=0.25, t=0.375, current_y=y, current_yd=yd, goal_t=1.0,
                  start_t=0.0, forcing_term=ft, int_dt=0.0625,
                  smooth_scaling=True, **kw)
            except (TypeError, AttributeError):
                return []  # other signature
            return [y, yd]
        return run_it
    ops = {name: (args(n), op(n, f)) for name, (n, f)
           in integrators().items()}

    def probe(made):
        return [d.get_weights().copy() for d in made.values()]
    return factory, ops, probe


COUPLINGS = ["c1d", "c3d", "cdist", "cpose", "ctraj", "o2d", "o2df", "o3d"]
SUBJECTS = prims.ALL + ["promp", "chain", "functions",
                         "integrators"] + COUPLINGS


def subject(name):
    if name == "promp":
        return promp_subject()
    if name == "chain":
        return chain_subject()
    if name == "functions":
        return function_subject()
    if name == "integrators":
        return integrator_subject()
    if name in COUPLINGS:
        return coupling_subject(name)
    return primitive(name)


def cases(tier):
    for s in SUBJECTS:
        names = list(subject(s)[1])
        for a in names:
            for b in names:
                for L in LAYOUTS:
                    if tier == "quick":
                        yield {"subject": s, "word": [a, b], "layout": L}
                    else:
                        for c in names:
                            yield {"subject": s, "word": [a, b, c],
                                   "layout": L}


def call(op, obj, layout):
    args = op[0](layout)
    before = freeze(args)
    # the library's global generators must not matter
    result = op[1](obj, args)
    if isinstance(result, np.ndarray):
        result = [result]
    elif not isinstance(result, (list, tuple)):
        result = []
    return args, before, list(result), freeze(list(result))


def run(case, rec):
    factory, ops, probe = subject(case["subject"])
    a, b, twin = factory(), factory(), factory()
    held = []
    for i, name in enumerate(case["word"]):
        r = call(ops[name], a, case["layout"])
        held.append((name,) + r)
        call(ops[name], twin, case["layout"])
        rec.call(2)
        for n, args, before, result, res_copy in held:
            rec.ok(equal(args, before), "the arguments of %s were modified "
                   "(seen after %s)" % (n, name))
            rec.ok(equal(result, res_copy), "the result of %s changed "
                   "(seen after %s)" % (n, name))
        # a second object driven with the results of each call overwritten
        rb = call(ops[name], b, case["layout"])
        overwrite(rb[2])
        rec.call()
        rec.state(case["subject"], *[x for x in r[3]
                                     if isinstance(x, np.ndarray)])
    want, got = probe(twin), probe(b)
    rec.call(2)
    rec.ok(len(want) == len(got), "probe")
    for i, (x, y) in enumerate(zip(got, want)):
        rec.same(x, y, "observation %d after overwriting the results of %s"
                 % (i, case["word"]))
    # using the object further must not touch what was handed out before
    probe(a)
    for n, args, before, result, res_copy in held:
        rec.ok(equal(args, before), "the arguments of %s were modified by "
               "further use" % n)
        rec.ok(equal(result, res_copy), "the result of %s changed by further "
               "use" % n)
    rec.traces += 1
