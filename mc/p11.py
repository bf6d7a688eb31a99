"""P11: weight vectors can be read, stored and written back."""
import numpy as np

from . import core, gen, prims
from movement_primitives.dmp import (
    DMP, DMPWithFinalVelocity, CartesianDMP, DualCartesianDMP)

PROPERTY = "P11"
ORACLE = ("model of the weight vector (last vector written), compared after "
          "every operation; fresh twin given the same vector; support of the "
          "response to every unit vector")
KINDS = ["dmp:rk4-cython", "dmp:rk4", "cart:cython", "cart:python",
         "dual:cython", "dual:python", "final"]
# A/B/C: write a vector; e: write one very close to the current one; Z: write back the first vector read; P: write what
# is read; m: overwrite the array returned last; n: overwrite the array
# written last; S: step; R: reset; I: imitate; X: other execution time;
# L: rollout
OPS = ["A", "B", "C", "e", "Z", "P", "m", "n", "S", "R", "I", "X", "L"]
TWIN_OPS = ["A", "S", "R", "X", "L"]
FORMS = ["plain", "int", "float32", "strided", "readonly", "reversed"]


def bounds(tier):
    return {"histories": "all words of length %d over %d operations, all "
            "primitives" % (3 if tier == "quick" else 4, len(OPS)),
            "variants": "%d boundary variants of every primitive, words of "
            "length %d" % (len(prims.VARIANTS), 1 if tier == "quick" else 2),
            "writing back": "at every position of all words of length %d over "
            "%s" % (3 if tier == "quick" else 4, TWIN_OPS),
            "unit vectors": "all weights of all primitives with 2..%d weights "
            "per dimension" % (4 if tier == "quick" else 8),
            "argument forms": FORMS}


def cases(tier):
    for kind in KINDS:
        for w in core.words(OPS, 3 if tier == "quick" else 4):
            yield {"case": "hist", "kind": kind, "word": w, "k": 3}
        for v in prims.variants(kind):
            for w in core.words(OPS, 1 if tier == "quick" else 2, 1):
                yield {"case": "hist", "kind": v, "word": w, "k": 3}
        for w in core.words(TWIN_OPS, 3 if tier == "quick" else 4, 1):
            for i in range(len(w) + 1):
                yield {"case": "twin", "kind": kind, "word": w, "at": i,
                       "k": 3}
        for k in range(2, 5 if tier == "quick" else 9):
            n = prims.N_VEL[prims.base(kind)]
            for i in range(n * k):
                yield {"case": "unit", "kind": kind, "k": k, "i": i}
            for f in FORMS:
                yield {"case": "form", "kind": kind, "k": k, "form": f}
    for n in range(1, 8):
        for k in (2, 3, 10):
            for cls in ("DMP", "DMPWithFinalVelocity"):
                yield {"case": "size", "cls": cls, "n": n, "k": k}
    for k in (2, 3, 10, 20):
        for cls in ("CartesianDMP", "DualCartesianDMP"):
            yield {"case": "size", "cls": cls, "n": 0, "k": k}


def vector(n, name):
    return gen.weights(1, n, {"A": "wave", "B": "wave2", "C": "big"}[name],
                       40.0)[0]


def motion(kind):
    T = np.linspace(0, 1, 21)
    Y = np.array([prims.pose(kind, "a", "gen")] * 21)
    for b in prims.pos_blocks(kind):
        Y[:, b] += np.column_stack([[np.sin(T), T ** 2, -T][i % 3] for i in
                                    range(b.stop - b.start)])
    return T, Y


def run(case, rec):
    {"hist": run_hist, "twin": run_twin, "unit": run_unit, "form": run_form,
     "size": run_size}[case["case"]](case, rec)
    rec.traces += 1


def run_hist(case, rec):
    kind, k = case["kind"], prims.variant(case["kind"]).get("k", case["k"])
    d = prims.make(kind, k=k)
    n = len(d.get_weights())
    rec.ok(n == prims.n_vel(kind) * k
           and int(getattr(d, "n_weights", n)) == n,
           "n_weights is %s" % n)
    got = first = d.get_weights()
    model = first.copy()
    first = first.copy()
    written = None
    tau = first_tau = prims.tau(kind)
    for o in case["word"]:
        if o in "ABC":
            written = vector(n, o)
            model = written.copy()
            d.set_weights(written)
        elif o == "e":
            written = model * (1.0 + 1e-9) + 1e-9
            model = written.copy()
            d.set_weights(written)
        elif o == "Z":
            written = first.copy()
            model = first.copy()
            d.set_weights(written)
        elif o == "P":
            d.set_weights(d.get_weights())
        elif o == "m":
            if got.flags.writeable:
                got[:] = -7.0
        elif o == "n":
            if written is not None:
                written[:] = 13.0
        elif o == "S":
            prims.step(kind, d, prims.pose(kind, "a", "gen"),
                       np.zeros(prims.n_vel(kind)))
        elif o == "R":
            d.reset()
        elif o == "I":
            d.imitate(*motion(kind))
            model = np.array(d.get_weights())
            f = prims.make(kind, k=k)
            if tau != first_tau:
                f.execution_time_ = tau
            f.imitate(*motion(kind))
            rec.close(model, f.get_weights(), "weights after imitation",
                      atol=1e-9)
        elif o == "X":
            tau = 2.0 if tau == first_tau else first_tau
            d.execution_time_ = tau
        elif o == "L":
            prims.rollout(kind, d, run_t=0.25)
        rec.call()
        got = d.get_weights()
        rec.ok(isinstance(got, np.ndarray) and got.shape == (n,),
               "get_weights returns shape %s" % (np.shape(got),))
        rec.same(got, model, "weights after %s in %s" % (
            o, "".join(case["word"])))
        rec.state(kind, model, str(tau))
    f = prims.make(kind, k=k, weights="zero")
    if tau != first_tau:
        f.execution_time_ = tau
    f.configure(start_y=d.start_y.copy(), goal_y=d.goal_y.copy(),
                start_yd=d.start_yd.copy())
    if prims.base(kind) == "final":
        f.configure(goal_yd=d.goal_yd.copy(), goal_ydd=d.goal_ydd.copy(),
                    start_ydd=d.start_ydd.copy())
    f.set_weights(model.copy())
    d.reset()
    A, B = prims.rollout(kind, d, 0.5)[1], prims.rollout(kind, f, 0.5)[1]
    rec.close(A, B, "rollout with the weights of the model", atol=1e-10)
    rec.call(2)


def run_twin(case, rec):
    """Writing what has been read does not change what happens next."""
    kind, k = case["kind"], case["k"]
    out = []
    for write in (False, True):
        d = prims.make(kind, k=k)
        y = prims.pose(kind, "a", "gen")
        yd = np.zeros(prims.n_vel(kind))
        path = []
        for i, o in enumerate(list(case["word"]) + ["S", "S"]):
            if write and i == case["at"]:
                d.set_weights(d.get_weights())
            if o == "S":
                y, yd = prims.step(kind, d, y, yd)
                path.append(np.concatenate((y, yd)))
            elif o == "A":
                d.set_weights(vector(len(d.get_weights()), o))
            elif o == "X":
                d.execution_time_ = 2.0
            elif o == "R":
                d.reset()
            else:
                path.append(prims.rollout(kind, d, run_t=0.25)[1].ravel())
            rec.call()
        path.append(prims.rollout(kind, d, run_t=0.25)[1].ravel())
        out.append(np.concatenate(path))
    rec.close(out[1], out[0], "motion after writing back the weights",
              atol=1e-12)
    rec.state(kind, out[0])


def run_unit(case, rec):
    """A single weight moves only its own coordinate."""
    kind, k, i = case["kind"], case["k"], case["i"]
    dim = i // k
    n = prims.N_VEL[prims.base(kind)]
    start = {"dmp": np.zeros(3), "final": np.zeros(3),
             "cart": np.array([0, 0, 0, 1.0, 0, 0, 0]),
             "dual": np.array([0, 0, 0, 1.0, 0, 0, 0] * 2)}[prims.base(kind)]
    d = prims.make(kind, k=k, weights="zero", gains="default",
                   configure=False)
    d.configure(start_y=start, goal_y=start)
    w = np.zeros(len(d.get_weights()))
    w[i] = 20.0
    d.set_weights(w)
    y, yd = start.copy(), np.zeros(n)
    peak = np.zeros(n)
    for _ in range(16):
        y, yd = prims.step(kind, d, y, yd)
        peak = np.maximum(peak, np.abs(yd))
        rec.call()
    rec.state(kind, yd)
    for j in range(n):
        if j == dim:
            rec.ok(peak[j] > 1e-3, "weight %d does not act on velocity %d"
                   % (i, j))
        else:
            rec.ok(peak[j] < 1e-9, "weight %d acts on velocity %d" % (i, j))


def run_form(case, rec):
    kind, k, form = case["kind"], case["k"], case["form"]
    d = prims.make(kind, k=k, weights="zero")
    n = len(d.get_weights())
    w = np.round(vector(n, "A"))
    if form == "int":
        v = w.astype(int)
    elif form == "float32":
        v = w.astype(np.float32)
    elif form == "strided":
        v = np.repeat(w, 2)[::2]
    elif form == "reversed":
        v = w[::-1].copy()[::-1]
    else:
        v = w.copy()
        v.flags.writeable = form != "readonly"
    d.set_weights(v)
    rec.same(d.get_weights(), w, "weights written as " + form)
    f = prims.make(kind, k=k, weights="zero")
    f.set_weights(w.copy())
    rec.same(prims.rollout(kind, d, 0.25)[1], prims.rollout(kind, f, 0.25)[1],
             "rollout")
    rec.call(4)
    rec.state(kind, form, w)


def run_size(case, rec):
    k, n = case["k"], case["n"]
    if case["cls"] == "DMP":
        d, want = DMP(n, n_weights_per_dim=k), n * k
    elif case["cls"] == "DMPWithFinalVelocity":
        d, want = DMPWithFinalVelocity(n, n_weights_per_dim=k), n * k
    elif case["cls"] == "CartesianDMP":
        d, want = CartesianDMP(n_weights_per_dim=k), 6 * k
    else:
        d, want = DualCartesianDMP(n_weights_per_dim=k), 12 * k
    rec.ok(int(getattr(d, "n_weights", want)) == want, "wrong n_weights")
    rec.same(d.get_weights(), np.zeros(want), "initial weights")
    w = gen.weights(1, want, "wave")[0]
    d.set_weights(w)
    rec.same(d.get_weights(), w, "weights read back")
    rec.call(3)
    rec.state(case["cls"], w)
