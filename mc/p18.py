"""P18: coupling terms keep the leader free and pull followers."""
import itertools
import math

import numpy as np

from . import core, gen, ref
from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, DualCartesianDMP, CouplingTermPos1DToPos1D,
    CouplingTermPos3DToPos3D, CouplingTermDualCartesianDistance,
    CouplingTermDualCartesianPose, CouplingTermDualCartesianTrajectory)

PROPERTY = "P18"
ORACLE = ("independent reference of the spring laws on every enumerated "
          "state; zero for leaders, zero when met, opposite contributions, "
          "error decreases along the contribution; coupled versus uncoupled "
          "execution")
LF = [(0, 1), (1, 0), (1, 1), (0, 0)]
GAINS = [{}, {"k": 3.0}, {"c1": 7.0}, {"c2": 11.0},
         {"k": 0.5, "c1": 2.0, "c2": 5.0}, {"k": 40.0, "c1": 0.1}]
POS = ["zero", "a", "b", "e", "part", "big"]
ROT = ["id", "gen", "-gen2", "x90", "gen3"]
DES = ["id", "gen", "z90", "small"]


def bounds(tier):
    return {"states": "full product of positions, rotations, velocities, "
            "desired offsets, leader/follower flags%s"
            % (" and gains" if tier == "thorough" else
               ", gains one at a time"),
            "executions": "all of coupling terms x flags x goals x step "
            "functions", "trajectory coupling": "all demonstrations x call "
            "counts x offsets x flags"}


def cases(tier):
    for lf, g in itertools.product(LF, range(len(GAINS))):
        for y in core.words([-1.0, 0.0, 0.7, 2.0, -60.0], 2):
            for d in (0.0, 0.5, -1.5):
                yield {"case": "pos1d", "lf": lf, "g": g, "y": y, "d": d}
        for a, b in itertools.product(POS, POS):
            for d in ("zero", "c", "d"):
                yield {"case": "pos3d", "lf": lf, "g": g, "y": [a, b], "d": d}
            for d in (0.0, 0.3, 1.5, -0.7):
                yield {"case": "dist", "lf": lf, "g": g, "y": [a, b], "d": d}
    for lf in LF:
        for a, b in itertools.product(POS, POS):
            if tier == "quick" and len({a, b} & {"part", "big"}) and (
                    a != "a" and b != "b"):
                continue
            for q, r in itertools.product(ROT, ROT):
                for d in itertools.product(("zero", "c"), DES):
                    for g in range(len(GAINS)):
                        if tier == "quick" and g and (
                                (a, b) != ("a", "b") or d[0] != "c"):
                            continue
                        if tier == "quick" and lf in ((1, 0), (0, 0)) and (
                                a == "e" or q == "gen3"):
                            continue
                        yield {"case": "pose", "lf": lf, "g": g,
                               "y": [a, q, b, r], "d": list(d),
                               "flags": [True, True], "v": (g % 2 == 0)}
        for flags in itertools.product((True, False), repeat=2):
            for v in (True, False):
                for q in ROT:
                    yield {"case": "pose", "lf": lf, "g": 0,
                           "y": ["a", q, "b", "gen2"], "d": ["c", "gen"],
                           "flags": list(flags), "v": v}
        for q, a in itertools.product(ROT, POS):
            for d in itertools.product(("zero", "c"), DES):
                yield {"case": "met", "lf": lf, "y": [a, q], "d": list(d)}
        for demo in ("fix", "move", "turn", "half"):
            for off in ("zero", "pos"):
                for n in (1, 2, 5, 9, 17):
                    for flags in itertools.product((True, False), repeat=2):
                        yield {"case": "traj", "lf": lf, "demo": demo,
                               "off": off, "n": n, "flags": list(flags)}
    for lf in LF:
        for g in (0, 1):
            for step in ("rk4-cython", "euler-cython", "rk4", "euler"):
                for w in ("zero", "wave", "wave2"):
                    yield {"case": "run1", "lf": lf, "goal": g, "step": step,
                           "weights": w}
                    yield {"case": "run3", "lf": lf, "goal": g, "step": step,
                           "weights": w}
            for step in ("cython", "python"):
                for term in ("dist", "pose", "pos-only", "rot-only"):
                    for w in ("zero", "wave"):
                        yield {"case": "run2", "lf": lf, "goal": g,
                               "step": step, "term": term, "weights": w}


def run(case, rec):
    globals()["run_" + case["case"]](case, rec)
    rec.traces += 1


def zero_leader(rec, lf, parts):
    """parts: list of (arm, contribution)."""
    for arm, c in parts:
        if not lf[arm]:
            rec.ok(np.all(np.asarray(c) == 0.0), "leader %d is changed by %s"
                   % (arm, np.asarray(c)))


def run_pos1d(case, rec):
    lf, d = case["lf"], case["d"]
    y = np.array(case["y"])
    for form in (tuple(lf), np.array(lf, dtype=float), list(lf)):
        g = GAINS[case["g"]]
        t = CouplingTermPos1DToPos1D(desired_distance=d, lf=form, **g)
        C, Cd = t.coupling(y.copy())
        C2, Cd2 = t.coupling(y.copy(), np.array([5.0, -3.0]))
        rec.call(2)
        rec.same(C, C2, "contribution depends on the velocity")
        rec.same(Cd, Cd2, "contribution depends on the velocity")
        F = g.get("k", 1.0) * (-d - (y[0] - y[1]))
        c1, c2 = g.get("c1", 100.0), g.get("c2", 30.0)
        F = np.array([F * lf[0], -F * lf[1]])
        rec.close(C, c1 * F, "velocity contribution")
        rec.close(Cd, c1 * c2 * F, "acceleration contribution")
        zero_leader(rec, lf, [(0, C[:1]), (1, C[1:]), (0, Cd[:1]),
                              (1, Cd[1:])])
    rec.state("pos1d", C, Cd)


def run_pos3d(case, rec):
    lf, d = case["lf"], gen.vec(3, case["d"], 0.8)
    y = np.hstack([gen.vec(3, p) for p in case["y"]])
    y[3:] += 0.1
    g = GAINS[case["g"]]
    t = CouplingTermPos3DToPos3D(desired_distance=d.copy(), lf=lf, **g)
    C, Cd = t.coupling(y.copy())
    rec.call()
    F = g.get("k", 1.0) * (-d - (y[:3] - y[3:]))
    F = np.hstack((F * lf[0], -F * lf[1]))
    rec.close(C, g.get("c1", 1.0) * F, "velocity contribution")
    rec.close(Cd, g.get("c2", 30.0) * F, "acceleration contribution")
    zero_leader(rec, lf, [(0, C[:3]), (1, C[3:]), (0, Cd[:3]), (1, Cd[3:])])
    m = np.hstack((y[:3], y[:3] + d))
    C, Cd = t.coupling(m)
    rec.close(np.hstack((C, Cd)), np.zeros(12), "contribution when met",
              atol=1e-9)
    rec.state("pos3d", F)


def run_dist(case, rec):
    lf, d = case["lf"], case["d"]
    p, q = (gen.vec(3, x) for x in case["y"])
    y = np.hstack((p, gen.quat("gen"), q, gen.quat("x90")))
    g = GAINS[case["g"]]
    t = CouplingTermDualCartesianDistance(desired_distance=d, lf=lf, **g)
    C, Cd = t.coupling(y.copy(), np.ones(12))
    rec.call()
    rec.ok(C.shape == (12,) and Cd.shape == (12,), "shape of contributions")
    diff = p - q
    n = math.sqrt(sum(float(x) ** 2 for x in diff))
    if n > 0:
        F = g.get("k", 1.0) * (abs(d) / n - 1.0) * diff
    else:  # direction undefined
        rec.ok(np.all(np.isfinite(C)) and np.all(np.isfinite(Cd)),
               "contribution for coinciding positions is not finite")
        return
    z = np.zeros(3)
    F = np.hstack((F * lf[0], z, -F * lf[1], z))
    rec.close(C, g.get("c1", 1.0) * F, "velocity contribution")
    rec.close(Cd, g.get("c2", 30.0) * F, "acceleration contribution")
    zero_leader(rec, lf, [(0, C[:6]), (1, C[6:]), (0, Cd[:6]), (1, Cd[6:])])
    m = y.copy()
    m[7:10] = p - diff / n * abs(d)
    C, Cd = t.coupling(m, np.ones(12))
    rec.close(np.hstack((C, Cd)), np.zeros(24), "contribution when met",
              atol=1e-9)
    rec.state("dist", F)


def relative(y):
    """Pose of the right arm in the frame of the left arm."""
    inv = ref.qconj(y[3:7])
    return (ref.qrot(inv, [float(a - b) for a, b in zip(y[7:10], y[:3])]),
            ref.qmul(inv, list(y[10:])))


def matrix(p, q):
    T = np.eye(4)
    T[:3, :3] = np.array([ref.qrot(q, e) for e in np.eye(3)]).T
    T[:3, 3] = p
    return T


def pose_law(y, yd, dp, dq, lf, flags, g):
    k, c1, c2 = g.get("k", 1.0), g.get("c1", 1.0), g.get("c2", 30.0)
    damping = 2.0 * math.sqrt(k * c2)
    ap, aq = relative(y)
    ep = ref.qrot(y[3:7], [k * (a - b) for a, b in zip(dp, ap)])
    e = ref.qdiff(dq, aq)
    gap = math.pi - math.sqrt(sum(x * x for x in e))
    er = ref.qrot(y[3:7], [k * x for x in e])
    C, Cd = np.zeros(12), np.zeros(12)
    for arm in (0, 1):
        s = [-1.0, 1.0][arm]
        for b, err in ((0, ep), (1, er)):
            if not flags[b]:
                continue
            i = 6 * arm + 3 * b
            C[i:i + 3] = lf[arm] * c1 * s * np.array(err)
            Cd[i:i + 3] = lf[arm] * (c2 * s * np.array(err)
                                     - damping * yd[i:i + 3])
    return C, Cd, gap


def dual_state(a, q, b, r):
    return np.hstack((gen.vec(3, a), gen.quat(q), gen.vec(3, b) - 0.2,
                      gen.quat(r)))


def run_pose(case, rec):
    y = dual_state(*case["y"])
    yd = gen.vec(12, "d", 0.5) if case["v"] else np.zeros(12)
    dp, dq = gen.vec(3, case["d"][0]), gen.quat(case["d"][1])
    lf, flags, g = case["lf"], case["flags"], GAINS[case["g"]]
    t = CouplingTermDualCartesianPose(
        matrix(dp, dq), lf, couple_position=flags[0],
        couple_orientation=flags[1], **g)
    C, Cd = t.coupling(y.copy(), yd.copy())
    rec.call()
    W, Wd, gap = pose_law(y, yd, dp, dq, lf, flags, g)
    if gap < 1e-3:
        return
    rec.close(C, W, "velocity contribution", atol=1e-6)
    rec.close(Cd, Wd, "acceleration contribution", atol=1e-5)
    zero_leader(rec, lf, [(0, C[:6]), (1, C[6:]), (0, Cd[:6]), (1, Cd[6:])])
    if not flags[0]:
        zero_leader(rec, (0,), [(0, C[:3]), (0, C[6:9]), (0, Cd[:3]),
                                (0, Cd[6:9])])
    if not flags[1]:
        zero_leader(rec, (0,), [(0, C[3:6]), (0, C[9:]), (0, Cd[3:6]),
                                (0, Cd[9:])])
    if tuple(lf) == (1, 1) and not case["v"]:
        rec.close(C[:6], -C[6:], "opposite contributions", atol=1e-9)
        rec.close(Cd[:6], -Cd[6:], "opposite contributions", atol=1e-9)
    # a small move along the contribution reduces the error
    for b in (0, 1):
        for arm in (0, 1):
            if not flags[b] or not lf[arm]:
                continue
            z = y.copy()
            i, j = 6 * arm + 3 * b, 7 * arm + 3 * b
            if b == 0:
                z[j:j + 3] += 1e-3 * C[i:i + 3]
            else:
                z[j:j + 4] = ref.qapply(1e-3 * C[i:i + 3], y[j:j + 4])

            def err(s):
                p, q = relative(s)
                e = [u - v for u, v in zip(dp, p)] if b == 0 \
                    else ref.qdiff(dq, q)
                return math.sqrt(sum(x * x for x in e))
            if err(y) > 1e-6:
                rec.ok(err(z) < err(y), "contribution increases the error")
    rec.state("pose", C, Cd)


def run_met(case, rec):
    """Relative pose met: nothing but damping."""
    p, q = gen.vec(3, case["y"][0]), gen.quat(case["y"][1])
    dp, dq = gen.vec(3, case["d"][0]), gen.quat(case["d"][1])
    right = np.hstack((p + np.array(ref.qrot(q, dp)), ref.qmul(q, dq)))
    y = np.hstack((p, q, right))
    t = CouplingTermDualCartesianPose(matrix(dp, dq), case["lf"])
    C, Cd = t.coupling(y, np.zeros(12))
    rec.call()
    rec.close(C, np.zeros(12), "velocity contribution when met", atol=1e-6)
    rec.close(Cd, np.zeros(12), "acceleration contribution when met",
              atol=1e-5)
    rec.state("met", y)


def demonstration(kind):
    T = np.linspace(0, 1, 9)
    Y = []
    for t in T:
        q = gen.quat("gen")
        left = np.hstack((gen.vec(3, "a") + t * gen.vec(3, "b"),
                          ref.qapply([0.3 * t, 0.0, -0.2 * t], q)))
        if kind == "fix":
            rp, rv = [0.3, 0.1, -0.2], [0.2, 0.1, 0.4]
        elif kind == "move":
            rp, rv = [0.3 + t, 0.1 - t * t, -0.2], [0.2, 0.1, 0.4]
        elif kind == "turn":
            rp, rv = [0.3, 0.1, 0.2 * t], [0.2 + t, 0.1 - t, 0.4]
        else:  # relative rotation passes a half turn
            rp, rv = [0.3, 0.1, 0.2], [2.6 + 2.9 * t, 0.0, 0.0]
        rq = ref.qexp(rv)
        Y.append(np.hstack((left, left[:3] + np.array(
            ref.qrot(left[3:], rp)), ref.qmul(left[3:], rq))))
    return T, np.array(Y)


def run_traj(case, rec):
    dt = 0.125 if case["n"] == 9 else 0.0625
    T, Y = demonstration(case["demo"])
    off = np.zeros(7)
    if case["off"] == "pos":
        off[:3] = [0.1, -0.2, 0.05]
    lf, flags = case["lf"], case["flags"]
    t = CouplingTermDualCartesianTrajectory(
        off.copy(), lf, dt, couple_position=flags[0],
        couple_orientation=flags[1], verbose=0)
    t.imitate(T.copy(), Y.copy())
    y = dual_state("b", "gen", "d", "gen2")
    yd = gen.vec(12, "c", 0.3)
    rel = [relative(z) for z in Y]
    for again in (0, 1):
        for i in range(case["n"]):
            s = i * dt
            C, Cd = t.coupling(y.copy(), yd.copy())
            rec.call()
            j = min(int(s * 8), 7)
            u = s * 8 - j
            dp = [(1 - u) * a + u * b + o for a, b, o in
                  zip(rel[j][0], rel[j + 1][0], off[:3])]
            qa, qb = rel[j][1], rel[j + 1][1]
            if sum(a * b for a, b in zip(qa, qb)) < 0:
                qb = [-x for x in qb]
            if s > 1.0:
                continue  # extrapolation: only that it runs
            dq = ref.qnorm([(1 - u) * a + u * b for a, b in zip(qa, qb)])
            W, Wd, gap = pose_law(y, yd, dp, dq, lf, flags, {})
            if gap < 1e-3:
                continue
            rec.close(C, W, "velocity contribution of call %d" % i,
                      atol=1e-6)
            rec.close(Cd, Wd, "acceleration contribution of call %d" % i,
                      atol=1e-5)
            zero_leader(rec, lf, [(0, C[:6]), (1, C[6:]), (0, Cd[:6]),
                                  (1, Cd[6:])])
        rec.state("traj", C, Cd)
        t.imitate(T.copy(), Y.copy())  # starts over


# -- coupled execution -----------------------------------------------------
def run_run1(case, rec):
    run_positions(case, rec, 1)


def run_run3(case, rec):
    run_positions(case, rec, 3)


def run_positions(case, rec, m):
    lf = case["lf"]
    d = 0.5 if m == 1 else np.array([0.5, -0.3, 0.2])

    def make():
        p = DMP(2 * m, dt=0.0625, n_weights_per_dim=4, int_dt=0.0078125)
        p.set_weights(gen.weights(2 * m, 4, case["weights"], 60.0).ravel())
        g = gen.vec(m, "c")
        other = g + d if case["goal"] == 0 else g + d + 0.7
        p.configure(start_y=gen.vec(2 * m, "a"),
                    goal_y=np.hstack((g, other)))
        return p
    if m == 1:
        term = CouplingTermPos1DToPos1D(d, lf, k=0.1, c1=20.0)
    else:
        term = CouplingTermPos3DToPos3D(d, lf, k=1.0, c1=2.0, c2=150.0)
    _, U = make().open_loop(run_t=2.0, step_function=case["step"])
    _, Y = make().open_loop(run_t=2.0, coupling_term=term,
                            step_function=case["step"])
    rec.call(2)
    judge(rec, lf, U, Y, [slice(0, m), slice(m, 2 * m)],
          lambda Z: np.linalg.norm(Z[:, m:] - Z[:, :m] - d, axis=1),
          case["goal"])
    # stepwise execution sees the same
    p = make()
    y, yd = p.start_y.copy(), p.start_yd.copy()
    for i in range(1, 9):
        y, yd = p.step(y, yd, coupling_term=term, step_function=case["step"])
        rec.close(y, Y[i], "stepwise coupled execution", atol=1e-8)
        rec.call()
    rec.state(Y[-1])


def judge(rec, lf, U, Y, arms, err, goal):
    rec.ok(np.all(np.isfinite(Y)), "coupled execution is not finite")
    for arm in (0, 1):
        if not lf[arm]:
            rec.close(Y[:, arms[arm]], U[:, arms[arm]],
                      "leader of the coupled execution", atol=1e-10)
    eu, ey = err(U), err(Y)
    if not any(lf):
        rec.close(Y, U, "uncoupled", atol=1e-12)
        return
    if goal == 0:
        rec.ok(ey[-1] < 0.02, "offset is not reached: %g" % ey[-1])
    else:
        rec.ok(ey[-1] < 0.75 * eu[-1], "offset error %g with coupling, %g "
               "without" % (ey[-1], eu[-1]))
    rec.ok(np.sum(ey[2:]) <= np.sum(eu[2:]) * 1.02 + 1e-6,
           "coupling increases the offset error: %g instead of %g"
           % (np.sum(ey), np.sum(eu)))


def run_run2(case, rec):
    lf = case["lf"]
    term = case["term"]
    dp, dq = [0.4, -0.2, 0.3], gen.quat("gen")

    def make():
        p = DualCartesianDMP(dt=0.0625, n_weights_per_dim=4,
                             int_dt=0.0078125)
        p.set_weights(gen.weights(12, 4, case["weights"], 20.0).ravel())
        left = np.hstack((gen.vec(3, "a"), gen.quat("id")))
        gl = np.hstack((gen.vec(3, "c"), gen.quat("y90")))
        gr = np.hstack((gl[:3] + np.array(ref.qrot(gl[3:], dp)),
                        ref.qmul(gl[3:], dq)))
        if case["goal"] == 1:
            gr[:3] += 0.6
            gr[3:] = ref.qapply([0.5, 0.3, -0.4], gr[3:])
        p.configure(start_y=np.hstack((left, gen.vec(3, "b"),
                                       gen.quat("x90"))),
                    goal_y=np.hstack((gl, gr)))
        return p
    if term == "dist":
        dist = math.sqrt(sum(x * x for x in dp))
        ct = CouplingTermDualCartesianDistance(dist, lf, k=1.0, c1=2.0,
                                               c2=150.0)

        def err(Z):
            return np.abs(np.linalg.norm(Z[:, :3] - Z[:, 7:10], axis=1)
                          - dist)
    else:
        ct = CouplingTermDualCartesianPose(
            matrix(dp, dq), lf, couple_position=term != "rot-only",
            couple_orientation=term != "pos-only", k=1.0, c1=2.0, c2=150.0)

        def err(Z):
            out = []
            for z in Z:
                p, q = relative(z)
                e = 0.0
                if term != "rot-only":
                    e += sum((a - b) ** 2 for a, b in zip(dp, p))
                if term != "pos-only":
                    e += sum(x * x for x in ref.qdiff(dq, q))
                out.append(math.sqrt(e))
            return np.array(out)
    _, U = make().open_loop(run_t=2.0, step_function=case["step"])
    _, Y = make().open_loop(run_t=2.0, coupling_term=ct,
                            step_function=case["step"])
    rec.call(2)
    judge(rec, lf, U, Y, [slice(0, 7), slice(7, 14)], err, case["goal"])
    rec.state(Y[-1])
