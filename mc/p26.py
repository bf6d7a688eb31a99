"""P26: invalid requests are rejected and leave no traces."""
import numpy as np

from . import core, gen, prims
from .p24 import demo
from movement_primitives.dmp import (
    DMP, CartesianDMP, DualCartesianDMP, DMPWithFinalVelocity,
    StateFollowingDMP)
from movement_primitives.dmp._canonical_system import canonical_system_alpha
from movement_primitives.dmp._forcing_term import ForcingTerm
from movement_primitives.data import generate_minimum_jerk

PROPERTY = "P26"
ORACLE = ("every invalid call must raise; everything observed in the history "
          "with the rejected call must equal what a twin observes that never "
          "made it")
ASSUMPTIONS = ["MinimumJerkTrajectory.step does not use its arguments, their "
               "lengths are not checked"]
CHUNK = 16
FIELDS = ["start_y", "start_yd", "start_ydd", "goal_y", "goal_yd", "goal_ydd"]
LENGTHS = ["short", "long", "one", "empty"]


def alphabet(kind):
    ops = ["step", "configure", "reset"]
    if prims.has_rollout(kind):
        ops.append("rollout")
    if prims.has_weights(kind):
        ops += ["learn", "weights", "time"]
    return ops


MAIN = [k for k in prims.ALL
        if k.rpartition(":")[2] in (k, "rk4-cython", "cython")]


def depth(tier, kind=None):
    d = 2 if tier == "quick" else 3
    return d if kind is None or kind in MAIN else d - 1


def bounds(tier):
    return {"histories": "all operation words of length %d (one less for "
            "non-default integrators), the invalid call at "
            "every position, followed by a full probe" % depth(tier),
            "invalid calls": "every rejected argument kind per operation, "
            "configure and step with every combination of one invalid and "
            "otherwise valid arguments; constructors with every invalid "
            "parameter", "kinds": prims.ALL}


def bad_length(n, how):
    return {"short": n - 1, "long": n + 1, "one": 1, "empty": 0}[how]


def invalid_calls(kind):
    b = prims.base(kind)
    if b != "minjerk":
        for how in LENGTHS:
            yield ["step", "y", how]
            yield ["step", "yd", how]
            yield ["step", "both", how]
    if b == "dmp":
        yield ["step-name"]
        yield ["rollout-name", "step_function"]
    if b == "cart":
        yield ["rollout-name", "step_function"]
        yield ["rollout-name", "quaternion_step_function"]
    if b == "dual":
        yield ["rollout-name", "step_function"]
    for f in FIELDS:
        for how in LENGTHS:
            yield ["configure", f, how]
    if prims.has_weights(kind):
        for how in ["less", "more", "row-less", "row-more", "row", "one",
                    "empty", "half", "double", "block"]:
            yield ["weights", how]
        for value in (0.0, -1.0, -0.0625):
            yield ["time", value]
        for how in ["narrow", "wide", "column", "pair", "short-t", "long-t",
                    "negative"]:
            yield ["learn", how]


def word_list(kind, tier):
    return list(core.words(alphabet(kind), depth(tier, kind)))


def cases(tier):
    for kind in prims.ALL:
        bad = list(invalid_calls(kind))
        n = len(word_list(kind, tier))
        for i in range(n):
            for group in range(0, len(bad), 12):
                yield {"case": "history", "kind": kind, "word": i,
                       "bad": bad[group:group + 12], "tier": tier}
    for i in range(len(constructors())):
        yield {"case": "constructor", "i": i}


def new(kind):
    d = prims.make(kind, k=3, startd="d", p_gain=1.0, int_dt=0.03125)
    return {"d": d, "y": prims.pose(kind, "a", "gen"),
            "yd": gen.vec(prims.N_VEL[prims.base(kind)], "d", 0.5)}


def valid_fields(kind):
    nv = prims.N_VEL[prims.base(kind)]
    return {"start_y": prims.pose(kind, "e", "gen3"),
            "goal_y": prims.pose(kind, "b", "x90"),
            "start_yd": gen.vec(nv, "b", 0.25), "goal_yd": gen.vec(nv, "c", 0.25),
            "start_ydd": gen.vec(nv, "a", 0.5), "goal_ydd": gen.vec(nv, "e", 0.5)}


def apply(kind, s, op, out):
    d = s["d"]
    if op == "step":
        s["y"], s["yd"] = (np.array(a) for a in prims.step(
            kind, d, s["y"].copy(), s["yd"].copy()))
        out += [s["y"].copy(), s["yd"].copy()]
    elif op == "rollout":
        out += [np.array(a) for a in prims.rollout(kind, d, 0.25)]
    elif op == "configure":
        d.configure(start_y=prims.pose(kind, "d", "gen2"),
                    goal_y=prims.pose(kind, "e", "gen"))
    elif op == "reset":
        d.reset()
    elif op == "learn":
        d.imitate(*demo(kind))
        out.append(np.array(d.get_weights()))
    elif op == "weights":
        n = len(d.get_weights())
        d.set_weights(np.cos(np.arange(n)) * 20.0)
    elif op == "time":
        d.execution_time_ = 0.75


def probe(kind, s, out):
    d = s["d"]
    if prims.has_weights(kind):
        out.append(np.array(d.get_weights()))
        out.append(np.array([d.execution_time_]))
    for _ in range(3):
        if prims.base(kind) == "minjerk" and len(out) > 40:
            break
        apply(kind, s, "step", out)
    if prims.has_rollout(kind):
        apply(kind, s, "rollout", out)
    d.reset()
    s["y"], s["yd"] = prims.pose(kind, "b", "gen2"), s["yd"]
    for _ in range(3):
        apply(kind, s, "step", out)


def resize(a, n):
    """Vector of length n that starts like a."""
    return np.resize(np.asarray(a, dtype=float), n) if n else np.zeros(0)


def invalid(kind, s, call):
    d = s["d"]
    b = prims.base(kind)
    op = call[0]
    if op == "step":
        y, yd = s["y"].copy(), s["yd"].copy()
        if call[1] in ("y", "both"):
            y = resize(y, bad_length(len(y), call[2]))
        if call[1] in ("yd", "both"):
            yd = resize(yd, bad_length(len(yd), call[2]))
        prims.step(kind, d, y, yd)
    elif op == "step-name":
        d.step(s["y"].copy(), s["yd"].copy(), step_function="rk5")
    elif op == "rollout-name":
        d.open_loop(run_t=0.25, **{call[1]: "rk5"})
    elif op == "configure":
        kw = valid_fields(kind)
        kw[call[1]] = resize(kw[call[1]],
                             bad_length(len(kw[call[1]]), call[2]))
        d.configure(t=0.125, **kw)
    elif op == "weights":
        n = len(d.get_weights())
        k = n // prims.N_VEL[b]
        m = {"less": n - 1, "more": n + 1, "row-less": n - k,
             "row-more": n + k, "row": k, "one": 1, "empty": 0,
             "half": n // 2 // k * k, "double": 2 * n,
             "block": n // 2 // k * k + k}[call[1]]
        d.set_weights(np.linspace(30.0, -30.0, m) if m else np.zeros(0))
    elif op == "time":
        d.execution_time_ = call[1]
    elif op == "learn":
        T, Y = demo(kind)
        Y = Y[::-1].copy() * 1.0
        n = Y.shape[1]
        how = call[1]
        if how == "narrow":
            Y = Y[:, :n - 1]
        elif how == "wide":
            Y = np.hstack((Y, Y[:, :1]))
        elif how == "column":
            Y = Y[:, :1]
        elif how == "pair":
            Y = np.hstack((Y, Y))
        elif how == "short-t":
            T = T[:-1]
        elif how == "long-t":
            T = np.hstack((T, [T[-1] + (T[1] - T[0])]))
        if how == "negative":
            d.imitate(T, Y, regularization_coefficient=-0.5)
        else:
            d.imitate(T, np.ascontiguousarray(Y))


def rejected(rec, f, what):
    try:
        f()
    except Exception:
        return
    rec.ok(False, "%s was accepted" % what)


def constructors():
    out = []
    gains = {3: ([25.0, 25.0], [25.0] * 4), 6: ([25.0] * 5, [25.0] * 7),
             12: ([25.0] * 11, [25.0] * 14)}

    def add(name, f):
        out.append((name, f))
    for cls, args, nv in ((DMP, (3,), 3), (DMPWithFinalVelocity, (3,), 3),
                          (CartesianDMP, (), 6), (DualCartesianDMP, (), 12)):
        n = cls.__name__
        for k in (1, 0, -1):
            add("%s(n_weights_per_dim=%d)" % (n, k),
                lambda cls=cls, args=args, k=k: cls(
                    *args, n_weights_per_dim=k))
        for t in (0.0, -0.5):
            add("%s(execution_time=%g)" % (n, t),
                lambda cls=cls, args=args, t=t: cls(*args, execution_time=t))
        for g in gains[nv]:
            for name in ("alpha_y", "beta_y"):
                add("%s(%s of length %d)" % (n, name, len(g)),
                    lambda cls=cls, args=args, g=g, name=name: cls(
                        *args, **{name: np.array(g)}))
    for t in (0.0, -0.5):
        add("StateFollowingDMP(execution_time=%g)" % t,
            lambda t=t: StateFollowingDMP(3, execution_time=t))
    for k in (0, -1):
        add("StateFollowingDMP(n_viapoints=%d)" % k,
            lambda k=k: StateFollowingDMP(3, 1.0, n_viapoints=k))
    for z in (0.0, -0.1):
        add("canonical_system_alpha(goal_z=%g)" % z,
            lambda z=z: canonical_system_alpha(z, 1.0, 0.0))
    for t0, t1 in ((0.0, 0.0), (1.0, 0.5), (-0.5, -1.0)):
        add("canonical_system_alpha(goal_t=%g, start_t=%g)" % (t1, t0),
            lambda t0=t0, t1=t1: canonical_system_alpha(0.01, t1, t0))
        add("ForcingTerm(goal_t=%g, start_t=%g)" % (t1, t0),
            lambda t0=t0, t1=t1: ForcingTerm(3, 5, t1, t0, 0.8, 4.6))
    for k in (1, 0, -1):
        add("ForcingTerm(n_weights_per_dim=%d)" % k,
            lambda k=k: ForcingTerm(3, k, 1.0, 0.0, 0.8, 4.6))
    for a, b in (((2,), (3,)), ((1,), (3,)), ((3,), (1,)), ((3,), (2,)),
                 ((2, 2), (2,))):
        add("generate_minimum_jerk(%s, %s)" % (a, b),
            lambda a=a, b=b: generate_minimum_jerk(
                np.zeros(a), np.ones(b), 1.0, 0.25))
    return out


def history(kind, word, at, call, rec):
    s = new(kind)
    out = []
    for i in range(len(word) + 1):
        if i == at:
            what = "%s: %s after %s" % (kind, "/".join(map(str, call)),
                                        word[:i] or "construction")
            rejected(rec, lambda: invalid(kind, s, call), what)
            rec.call()
        if i < len(word):
            apply(kind, s, word[i], out)
            rec.call()
            rec.state(kind, str(word[:i + 1]), str(call), *out[-2:])
    probe(kind, s, out)
    rec.call(7)
    rec.traces += 1
    return out


def run(case, rec):
    if case["case"] == "constructor":
        name, f = constructors()[case["i"]]
        rec.call()
        rec.traces += 1
        rejected(rec, f, name)
        rec.state(name)
        return
    kind = case["kind"]
    word = word_list(kind, case["tier"])[case["word"]]
    want = history(kind, word, None, None, rec)
    for call in case["bad"]:
        for at in range(len(word) + 1):
            got = history(kind, word, at, call, rec)
            what = "%s, history %s with rejected %s at %d" % (
                kind, word, "/".join(map(str, call)), at)
            rec.ok(len(got) == len(want), what + ": other observations")
            for i, (g, w) in enumerate(zip(got, want)):
                rec.close(g, w, "%s: observation %d" % (what, i),
                          1e-11, 1e-11)
