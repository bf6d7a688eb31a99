"""P08: after a reset, execution repeats exactly, whatever happened before."""
import numpy as np

from . import core, gen, prims

PROPERTY = "P08"
ORACLE = ("a freshly constructed primitive with the same parameters; step "
          "results must be bit-identical")
OPS = ["S", "P", "O", "G", "B", "W", "X", "I", "R", "T"]
AFTER = ["", "B", "V", "G", "RB"]


def ops_of(kind):
    b = prims.base(kind)
    o = ["S", "P", "G", "B", "R", "T"]
    if prims.has_rollout(kind):
        o.append("O")
    if prims.has_weights(kind):
        o += ["W", "X", "I"]
    return o


def bounds(tier):
    return {"histories": "all words of length 0..%d over up to %d operations "
            "before the reset, for %d primitives, with %d continuations"
            % (2 if tier == "quick" else 3, len(OPS), len(prims.ALL),
               len(AFTER)),
            "variants": "%d boundary variants of every primitive (dimensions, "
            "resting goals, gains, weights, times), words of length %d"
            % (len(prims.VARIANTS), 1 if tier == "quick" else 2),
            "long": "all words of length %d for the compiled default variants"
            % (3 if tier == "quick" else 4)}


def cases(tier):
    d = 2 if tier == "quick" else 3
    for kind in prims.ALL:
        for after in AFTER:
            for w in core.words(ops_of(kind), d, 0):
                yield {"kind": kind, "word": w, "after": after}
        for v in prims.variants(kind):
            for w in core.words(ops_of(kind), d - 1, 0):
                for after in ("", "B"):
                    yield {"kind": v, "word": w, "after": after}
    for kind in ("dmp:rk4-cython", "final", "cart:cython", "dual:cython",
                 "sd", "sdo", "minjerk", "state"):
        for after in ("", "B"):
            for w in core.words(ops_of(kind), d + 1):
                yield {"kind": kind, "word": w, "after": after}


def demo(kind):
    T = np.linspace(0.0, 1.0, 21)
    a, b = prims.pose(kind, "b", "x90"), prims.pose(kind, "e", "gen3")
    s = T ** 3 * (10 - 15 * T + 6 * T ** 2)
    Y = a + s[:, np.newaxis] * (b - a)
    for blk in prims.rot_blocks(kind):
        Y[:, blk] /= np.linalg.norm(Y[:, blk], axis=1)[:, np.newaxis]
    return T, Y


def make(kind):
    return prims.make(kind, p_gain=0.5, smooth=True, startd="d",
                      tau=first_tau(kind))


def first_tau(kind):
    return prims.tau(kind, 2.0 if kind.startswith("minjerk") else 1.0)


def configure_start(kind, d, i):
    s = prims.perturb(kind, prims.pose(kind, "d", "gen3"), 1.0 + i)
    d.configure(start_y=s.copy())
    return s


NAMES = ("start_y", "start_yd", "start_ydd", "goal_y", "goal_yd",
         "goal_ydd")


def run(case, rec):
    kind = case["kind"]
    d = make(kind)
    want = {n: np.array(getattr(d, n)) for n in NAMES}
    y, yd = np.array(d.start_y), np.array(d.start_yd)
    tau = first_tau(kind)
    for i, o in enumerate(case["word"]):
        if o == "S":
            y, yd = prims.step(kind, d, y, yd)
        elif o == "P":
            y, yd = prims.step(kind, d, prims.perturb(kind, y), yd)
        elif o == "O":
            prims.rollout(kind, d, 0.2)
        elif o == "G":
            want["goal_y"] = prims.perturb(kind, prims.pose(kind, "e", "gen"),
                                           i)
            d.configure(goal_y=want["goal_y"].copy())
        elif o == "B":
            want["start_y"] = configure_start(kind, d, i)
        elif o == "W":
            d.set_weights(d.get_weights()[::-1] * 0.9)
        elif o == "X":
            tau *= 1.5
            d.execution_time_ = tau
        elif o == "I":
            d.imitate(*demo(kind))
            want = {n: np.array(getattr(d, n)) for n in NAMES}
        elif o == "R":
            d.reset()
            y, yd = np.array(d.start_y), np.array(d.start_yd)
        elif o == "T":
            d.configure(t=0.25)
        rec.call()
        rec.state(kind, o, y, yd)
    d.reset()
    f = prims.make(kind, p_gain=0.5, smooth=True, tau=tau)
    if prims.has_weights(kind):
        f.set_weights(np.array(d.get_weights()))
    for o in case["after"]:
        if o == "R":
            d.reset()
        elif o == "B":
            want["start_y"] = configure_start(kind, d, 7)
        elif o == "V":
            want["start_yd"] = gen.vec(len(yd), "b", 0.7)
            d.configure(start_yd=want["start_yd"].copy())
        elif o == "G":
            want["goal_y"] = prims.pose(kind, "b", "y90")
            d.configure(goal_y=want["goal_y"].copy())
        rec.call()
    f.configure(**{n: v.copy() for n, v in want.items()})
    for n in ("start_y", "start_yd", "goal_y"):
        rec.same(np.array(getattr(d, n)), want[n], "%s after reset" % n)
    if prims.has_rollout(kind):
        rec.same(prims.rollout(kind, d, 0.2)[1],
                 prims.rollout(kind, f, 0.2)[1], "rollout after reset")
        rec.call(2)
    y, yd = np.array(f.start_y), np.array(f.start_yd)
    z, zd = y.copy(), yd.copy()
    for i in range(4):
        fb = 1.0 if i == 2 else 0.0
        z, zd = prims.step(kind, f, prims.perturb(kind, z, fb), zd)
        y, yd = prims.step(kind, d, prims.perturb(kind, y, fb), yd)
        rec.call(2)
        rec.same(y, z, "position %d steps after reset" % (i + 1))
        rec.same(yd, zd, "velocity %d steps after reset" % (i + 1))
    rec.state(kind, "end", y, yd)
    rec.traces += 1
