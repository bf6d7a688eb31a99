"""P35: results depend on the numbers, not on how arrays store them."""
import math

import numpy as np

from . import core, gen, prims, robots
from movement_primitives import dmp as dmp_pkg
from movement_primitives.dmp import canonical_system_alpha, phase
from movement_primitives.data import generate_minimum_jerk
from movement_primitives.dmp_potential_field import potential_field_2d
from movement_primitives.kinematics import Kinematics, pose_dist
from movement_primitives.promp import ProMP, via_points
from movement_primitives.spring_damper import SpringDamper

PROPERTY = "P35"
ORACLE = ("result of the same call history with contiguous, writable arrays "
          "of floats")
CHUNK = 16
FORMS = ["float", "int", "strided", "reversed", "fortran", "readonly"]
SCALARS = {"float": float, "int": int, "strided": np.int64,
           "reversed": np.float64, "fortran": np.int32,
           "readonly": np.uint8}
PRIMS = ["dmp:rk4-cython", "dmp:euler-cython", "dmp:rk4", "dmp:euler",
         "cart:cython", "cart:python", "dual:cython", "dual:python", "final",
         "state", "sd", "sdo", "minjerk"]


def shape_of(a, form):
    """The same numbers in another form."""
    a = np.array(a, dtype=float)
    if a.ndim == 0:
        return SCALARS[form](a)
    if form == "int":
        b = a.astype(int)
        assert np.array_equal(a, b)
        return b
    if form == "strided":
        big = np.full(tuple(2 * n for n in a.shape), 7.25)
        view = big[tuple(slice(None, None, 2) for _ in a.shape)]
        view[...] = a
        return view
    if form == "reversed":
        turn = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[turn])[turn]
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    if form == "readonly":
        a.setflags(write=False)
    return a


# -- scenarios: arguments (integers in floats) and a function of them ---------
SCENARIOS = {}


def scenario(name, args, lists=()):
    """lists: arguments that are documented to be array-like."""
    def add(f):
        SCENARIOS[name] = (args, f, lists)
        return f
    return add


def state(kind, v):
    b = prims.base(kind)
    p = [[1, -2, 3], [4, 0, -1], [2, 5, 1]][v]
    q = [[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0]][v]
    if b == "cart":
        return p + q
    if b == "dual":
        return p + q + p[::-1] + q[1:] + q[:1]
    return q if b == "sdo" else p


def velocity(kind, v):
    n = prims.N_VEL[prims.base(kind)]
    return [((3 * i + v) % 5) - 2 for i in range(n)]


def integers(n, k):
    return [[((5 * i + 3 * j) % 11) - 5 for j in range(k)] for i in range(n)]


def primitive(kind):
    b = prims.base(kind)
    n = prims.N_VEL[b]
    args = {"start_y": state(kind, 0), "goal_y": state(kind, 1),
            "start_yd": velocity(kind, 0), "y": state(kind, 2),
            "yd": velocity(kind, 1)}
    if prims.has_weights(kind):
        args["weights"] = [10 * x for r in integers(n, 4) for x in r]
    if b == "final":
        args.update(goal_yd=velocity(kind, 2), start_ydd=velocity(kind, 3),
                    goal_ydd=velocity(kind, 4))

    @scenario("execute " + kind, args)
    def execute(a):
        d = prims.make(kind, configure=False)
        if "weights" in a:
            d.set_weights(a["weights"])
        d.configure(**{k: v for k, v in a.items()
                       if k.startswith(("start", "goal"))})
        out = []
        y, yd = a["y"], a["yd"]
        for _ in range(2):
            y, yd = prims.step(kind, d, y, yd)
            out += [y, yd]
        out += d.n_steps_open_loop(a["y"], a["yd"], 2)
        if prims.has_rollout(kind):
            out += prims.rollout(kind, d, 0.25)
        if "weights" in a:
            out.append(d.get_weights())
        return out

    if b in ("sd", "sdo", "minjerk", "state"):
        return
    rows = []
    for i in range(9):
        y = list(state(kind, 0))
        for blk in prims.pos_blocks(kind):
            y[blk] = [i * i - 3 * c for c in range(3)]
            y[blk.start] = [0, 1, 3, 6, 7, 7, 9, 10, 10][i]
        for blk in prims.rot_blocks(kind):
            q = [[1, 0, 0, 0], [0, 1, 0, 0]][i > 3]
            y[blk] = [1, 0, 0, 0] if blk.start == 3 else q
        rows.append(y)

    for smooth in (False, True):
        if b == "final" and smooth:
            continue

        @scenario("imitate %s%s" % (kind, ", smooth" if smooth else ""),
                  {"T": list(range(9)), "Y": rows})
        def imitate(a, smooth=smooth):
            d = prims.make(kind, tau=8.0, dt=0.5, smooth=smooth,
                           configure=False)
            d.imitate(a["T"], a["Y"])
            out = [d.get_weights(), d.start_y, d.goal_y]
            out += prims.rollout(kind, d)
            y, yd = prims.step(kind, d, d.start_y, d.start_yd)
            return out + [y, yd]


for _k in PRIMS:
    primitive(_k)


@scenario("gains", {"alpha_y": [25, 16], "beta_y": [6, 4]},
          ("alpha_y", "beta_y"))
def _gains(a):
    d = dmp_pkg.DMP(2, 1.0, dt=0.0625, int_dt=0.015625, alpha_y=a["alpha_y"],
                    beta_y=a["beta_y"], n_weights_per_dim=4)
    d.configure(start_y=np.zeros(2), goal_y=np.ones(2))
    f = dmp_pkg.DMPWithFinalVelocity(
        2, 1.0, dt=0.0625, int_dt=0.015625, alpha_y=a["alpha_y"],
        beta_y=a["beta_y"], n_weights_per_dim=4)
    f.configure(start_y=np.zeros(2), goal_y=np.ones(2))
    return list(d.open_loop()) + list(f.open_loop())


POSE = [[0, -1, 0, 1], [1, 0, 0, 0], [0, 0, 1, 1], [0, 0, 0, 1]]
MEAN = [((7 * i) % 5) - 2 for i in range(10)]
COV = [[(4 if i == j else 0) + ((i + j) % 2 == 0) for j in range(10)]
       for i in range(10)]
GRID = [0, 1, 2, 3, 4]


def promp(a):
    p = ProMP(2, 5)
    p.from_weight_distribution(a["mean"], a["cov"])
    return p


@scenario("promp queries", {"mean": MEAN, "cov": COV, "T": GRID,
                            "weights": MEAN[::-1],
                            "Y": integers(5, 2)}, ("T", "weights", "Y"))
def _queries(a):
    p = promp(a)
    T = a["T"]
    return [p.mean_trajectory(T), p.var_trajectory(T), p.cov_trajectory(T),
            p.mean_velocities(T), p.var_velocities(T), p.cov_velocities(T),
            p.trajectory_from_weights(T, a["weights"]),
            p.weights(T, a["Y"]),
            p.sample_trajectories(T, 2, np.random.RandomState(1))]


@scenario("promp conditioning", {"mean": MEAN, "cov": COV, "y": [2, -1],
                                 "y_cov": [[1, 0], [0, 2]], "T": GRID})
def _condition(a):
    p = promp(a)
    out = []
    for t in (0.0, 0.5, 1.0):
        for c in (None, a["y_cov"]):
            q = p.condition_position(a["y"], y_cov=c, t=t, t_max=1.0)
            out += [q.mean_trajectory(a["T"]), q.cov_trajectory(a["T"])]
    return out


@scenario("promp via points", {"mean": MEAN, "cov": COV,
                               "y": [[2, -1], [0, 3]], "ts": [0, 1],
                               "y_cov": [[[1, 0], [0, 2]], [[2, 0], [0, 1]]]})
def _via(a):
    out = []
    for c in (None, a["y_cov"]):
        q = via_points(promp(a), a["ts"], a["y"], c)
        out += [q.mean_trajectory(np.linspace(0, 1, 5)),
                q.cov_trajectory(np.linspace(0, 1, 5))]
    return out


@scenario("promp learning", {
    "Ts": [list(range(9))] * 4,
    "Ys": [[[i * i - j * i, (3 * i + j * j) % 7] for i in range(9)]
           for j in range(4)]})
def _learn(a):
    p = ProMP(2, 4)
    p.imitate(a["Ts"], a["Ys"], n_iter=5)
    T = np.linspace(0, 1, 5)
    return [p.mean_trajectory(T), p.cov_trajectory(T),
            p.weights(a["Ts"][0], a["Ys"][0])]


@scenario("minimum jerk", {"start": [0, 3], "goal": [4, -1]},
          ("start", "goal"))
def _minjerk(a):
    return list(generate_minimum_jerk(a["start"], a["goal"], 1.0, 0.0625))


@scenario("pos1d coupling", {"y": [1, 4], "yd": [0, 1], "lf": [1, 0]}, ("lf",))
def _pos1d(a):
    t = dmp_pkg.CouplingTermPos1DToPos1D(desired_distance=0.5, lf=a["lf"])
    return list(t.coupling(a["y"], a["yd"]))


@scenario("pos3d coupling", {"y": [1, 4, 2, 0, -1, 3], "yd": [0, 1, 2] * 2,
                             "lf": [1, 1], "d": [1, 0, 2]}, ("lf",))
def _pos3d(a):
    t = dmp_pkg.CouplingTermPos3DToPos3D(a["d"], a["lf"])
    return list(t.coupling(a["y"], a["yd"]))


DUAL = [1, 2, 3, 1, 0, 0, 0, 4, 0, 1, 0, 1, 0, 0]


@scenario("distance coupling", {"y": DUAL, "yd": list(range(12)),
                                "lf": [1, 1]}, ("lf",))
def _dist(a):
    t = dmp_pkg.CouplingTermDualCartesianDistance(2.0, a["lf"])
    return list(t.coupling(a["y"], a["yd"]))


@scenario("pose coupling", {
    "y": DUAL, "yd": list(range(12)), "lf": [1, 1],
    "d": [[0, -1, 0, 1], [1, 0, 0, 2], [0, 0, 1, 0], [0, 0, 0, 1]]},
          ("lf",))
def _pose(a):
    t = dmp_pkg.CouplingTermDualCartesianPose(a["d"], a["lf"])
    return list(t.coupling(a["y"], a["yd"]))


@scenario("trajectory coupling", {
    "off": [1, 0, 2, 1, 0, 0, 0], "lf": [1, 1], "y": DUAL,
    "yd": list(range(12)), "T": list(range(5)),
    "Y": [[i, 2 * i, 1, 1, 0, 0, 0, 3, i, 0, 1, 0, 0, 0] for i in range(5)]},
          ("lf",))
def _trajectory(a):
    t = dmp_pkg.CouplingTermDualCartesianTrajectory(
        a["off"], a["lf"], dt=0.5, verbose=0)
    t.imitate(a["T"], a["Y"])
    return [x for _ in range(4) for x in t.coupling(a["y"], a["yd"])]


@scenario("coupled execution", {"start_y": [0, 4], "goal_y": [2, 3],
                                "lf": [1, 0], "y": [1, 1], "yd": [0, 2]})
def _coupled(a):
    out = []
    for f in ("rk4-cython", "euler-cython", "rk4", "euler"):
        d = dmp_pkg.DMP(2, 1.0, dt=0.0625, int_dt=0.015625)
        d.configure(start_y=a["start_y"], goal_y=a["goal_y"])
        t = dmp_pkg.CouplingTermPos1DToPos1D(
            desired_distance=0.5, lf=a["lf"])
        out += d.step(a["y"], a["yd"], coupling_term=t, step_function=f)
        out += d.open_loop(run_t=0.25, coupling_term=t, step_function=f)
    return out


@scenario("obstacle 2d", {"y": [0, 1], "yd": [2, 1], "o": [3, 2]})
def _obstacle2(a):
    out = [dmp_pkg.obstacle_avoidance_acceleration_2d(
        a["y"], a["yd"], a["o"])]
    for fast in (False, True):
        t = dmp_pkg.CouplingTermObstacleAvoidance2D(a["o"], fast=fast)
        out += t.coupling(a["y"], a["yd"])
    return out


@scenario("obstacles 2d", {"y": [[0, 1], [2, 2]], "yd": [[2, 1], [0, 1]],
                           "o": [3, 2]})
def _obstacles(a):
    return [dmp_pkg.obstacle_avoidance_acceleration_2d(
        a["y"], a["yd"], a["o"])]


@scenario("obstacle 3d", {"y": [0, 1, 2], "yd": [2, 1, 0], "o": [3, 2, 1]})
def _obstacle3(a):
    out = [dmp_pkg.obstacle_avoidance_acceleration_3d(
        a["y"], a["yd"], a["o"])]
    t = dmp_pkg.CouplingTermObstacleAvoidance3D(a["o"])
    return out + list(t.coupling(a["y"], a["yd"]))


@scenario("potential field", {"x": [0, 3], "z": [-1, 2], "v": [1, 0],
                              "o": [1, 1], "start_y": [0, 0], "goal_y": [2, 1]})
def _field(a):
    d = dmp_pkg.DMP(2, 1.0, dt=0.0625)
    d.configure(start_y=a["start_y"], goal_y=a["goal_y"])
    d.step(a["start_y"], a["v"])
    out = list(potential_field_2d(d, a["x"], a["z"], 4))
    return out + list(potential_field_2d(d, a["x"], a["z"], 4, a["o"]))


@scenario("viapoint", {"points": integers(3, 2), "start_y": [1, 0]})
def _state(a):
    d = dmp_pkg.StateFollowingDMP(2, 1.0, dt=0.0625, n_viapoints=3)
    d.forcing_term.viapoints[:] = a["points"]
    d.configure(start_y=a["start_y"])
    return list(d.open_loop())


@scenario("poses", {"A": [[0, -1, 0, 1], [1, 0, 0, 2], [0, 0, 1, 0],
                          [0, 0, 0, 1]],
                    "B": [[1, 0, 0, 3], [0, 1, 0, 0], [0, 0, 1, 1],
                          [0, 0, 0, 1]]})
def _pose_dist(a):
    return [pose_dist(a["A"], a["B"], 1.0, 2.0)]


def chain(name="serial"):
    k = Kinematics(robots.urdf(name))
    return k.create_chain(["s1", "s2", "s3", "s4"], "b", "tool")


@scenario("forward kinematics", {"q": [0, 2, 0, 1], "p": POSE,
                                 "Q": [[0, 1, 0, 1], [-1, 3, 0, 2]]},
          ("q", "p", "Q"))
def _forward(a):
    c = chain()
    return [c.forward(a["q"]), c.ee_pose_error(a["q"], a["p"]),
            c.forward_trajectory(a["Q"])]


@scenario("inverse kinematics", {"q": [0, 2, 0, 1], "p": POSE,
                                 "H": [POSE, POSE]}, ("q", "p", "H"))
def _inverse(a):
    c = chain()
    return [c.inverse_with_random_restarts(
        a["p"], n_restarts=2, random_state=np.random.RandomState(0)),
        c.local_inverse_with_random_restarts(
        a["p"], a["q"], 0.1, n_restarts=2,
        random_state=np.random.RandomState(0)),
        c.inverse_trajectory(a["H"], a["q"],
                             random_state=np.random.RandomState(0))]


@scenario("scalars", {"tau": 2, "p_gain": 1, "alpha": 24, "beta": 6, "k": 3,
                      "run_t": 1, "c": 2, "dt": 1})
def _scalars(a):
    out = []
    for cls in (dmp_pkg.DMP, dmp_pkg.DMPWithFinalVelocity):
        d = cls(2, execution_time=a["tau"], dt=0.125, int_dt=0.0625,
                n_weights_per_dim=4, p_gain=a["p_gain"], alpha_y=a["alpha"],
                beta_y=a["beta"])
        d.configure(start_y=np.zeros(2), goal_y=np.array([1.0, -2.0]))
        out += d.open_loop(run_t=a["run_t"])
        d.execution_time_ = a["dt"]
        out += d.step(np.zeros(2), np.ones(2))
        d.configure(t=a["dt"])
        out += d.step(np.zeros(2), np.ones(2))
    for cls in (dmp_pkg.CartesianDMP, dmp_pkg.DualCartesianDMP):
        d = cls(execution_time=a["tau"], dt=0.125, int_dt=0.0625,
                n_weights_per_dim=4, alpha_y=a["alpha"], beta_y=a["beta"])
        n = 1 if cls is dmp_pkg.CartesianDMP else 2
        d.configure(start_y=np.array([0.0, 1, 2, 1, 0, 0, 0] * n),
                    goal_y=np.array([1.0, 0, 2, 0, 1, 0, 0] * n))
        out += d.open_loop(run_t=a["run_t"])
    s = SpringDamper(2, dt=0.125, k=a["k"], c=a["c"])
    s.configure(start_y=np.zeros(2), goal_y=np.array([1.0, -2.0]))
    out += s.open_loop(run_t=a["run_t"])
    out += generate_minimum_jerk([0.0], [3.0], a["tau"], 0.125)
    out.append(phase(a["dt"], canonical_system_alpha(0.01, a["tau"], 0.0),
                     a["tau"], 0.0))
    return out


def cases(tier):
    for name, (args, _, lists) in SCENARIOS.items():
        opts = {k: FORMS + (["list", "tuple"] if k in lists else [])
                for k in args}
        for c in core.deviations(opts, 2 if tier == "quick" else 3):
            yield {"name": name, "forms": c}
        for f in FORMS[1:]:
            yield {"name": name, "forms": {k: f for k in args}}


def bounds(tier):
    return {"scenarios": len(SCENARIOS), "forms": FORMS,
            "assignments": "at most %d arguments in another form than "
            "floats, and all in the same form" % (2 if tier == "quick" else 3)}


def execute(name, forms):
    args, f, _ = SCENARIOS[name]
    return f({k: shape_of(v, forms[k]) for k, v in args.items()})


def run(case, rec):
    name = case["name"]
    got = execute(name, case["forms"])
    want = execute(name, {k: "float" for k in case["forms"]})
    rec.call(2)
    for i, (g, w) in enumerate(zip(got, want)):
        rec.close(g, w, "result %d of %s" % (i, name), atol=1e-9, rtol=1e-9)
    rec.state(name, *[str(f) for f in case["forms"].values()])
    rec.traces += 1
