"""P28: propagation of DMP distributions to state space, and its cache."""
import contextlib
import errno
import io
import os
import shutil
import sys
import tempfile
import threading

import numpy as np
from gmr import MVN

from . import core, gen, ref
from movement_primitives.dmp import DualCartesianDMP
from movement_primitives.dmp_to_state_space_distribution import (
    propagate_weight_distribution_to_state_space as propagate)

PROPERTY = "P28"
ORACLE = ("independent unscented estimate over rollouts of DMPs at the sigma "
          "points of the estimated parameter distribution; exact mean and "
          "covariance of the initial state; every directory state observed "
          "while the cache is written, and every state left by an "
          "interruption, must give the same distribution when the call is "
          "repeated")
ASSUMPTIONS = ["gmr computes sample statistics and sigma points correctly",
               "crash points are executed Python lines; the directory is "
               "observed before each of them",
               "demonstrations have a mean time step of at least 0.005, "
               "others are ignored on purpose"]
CHUNK = 1
CFG = {
    "n_demos": [3, 2, 5],
    "k": [2, 3],
    "alpha": [0.5, 1e-3, 1.0],
    "kappa": [10.0, 0.0],
    "dt": [0.125, 0.25, 0.1],
    "int_dt": [0.0625, 0.01],
    "times": ["equal", "different", "shifted"],
    "turn": ["gen", "none"],
    "verbose": [0, 1],
    "omit": ["nothing", "alpha", "kappa", "dt", "int_dt", "all"],
}
DEFAULTS = {"alpha": 1e-3, "kappa": 10.0, "dt": 0.1, "int_dt": 0.01}
PARTS = 24
EXC = ["interrupt", "disk", "memory"]


def bounds(tier):
    return {"configurations": "at most %d of %d parameters away from the "
            "default" % (dev(tier), len(CFG)),
            "crash points": "the first and the last execution of every "
            "Python line during a cached call%s; interruption by the user, a "
            "full disk or lack of memory (%s); all intermediate states of "
            "the directory" % (("", "in turn") if tier == "quick" else
                               (" (and the 2nd to 5th)", "each")),
            "concurrent calls": "another thread completes the same cached "
            "call before the first and the last execution of every Python "
            "line of this one (quick: lines of the module and of "
            "numpy's text files)"}


def dev(tier):
    return 2 if tier == "quick" else 4


def default():
    return {n: v[0] for n, v in CFG.items()}


def coarse():
    return dict(default(), dt=0.25, int_dt=0.25)


def cases(tier):
    for c in core.deviations(CFG, dev(tier)):
        yield {"case": "estimate", "cfg": c}
    for name in ("cache.txt", "cache", "sub/cache.dat", "cache.txt.gz"):
        yield {"case": "disk", "name": name}
        for exc in (["all"] if tier == "quick" else EXC):
            for part in range(PARTS):
                if tier == "quick" and name != "cache.txt":
                    continue
                yield {"case": "interrupt", "exc": exc, "part": part,
                       "name": name, "many": tier != "quick"}
    for part in range(PARTS):
        yield {"case": "concurrent", "part": part, "many": tier != "quick"}
    for i in range(3):
        yield {"case": "failed", "i": i}
    for n in range(2, 4):
        yield {"case": "repeat", "n": n}


def demo(i, c):
    tau = {"equal": 1.0, "different": 1.0 + 0.25 * (i % 3),
           "shifted": 1.0}[c["times"]]
    T = np.arange(0.0, tau + 1e-9, 0.0625)
    s = T / tau
    P = np.empty((len(T), 14))
    for j in range(3):
        P[:, j] = np.sin((1.0 + 0.3 * j) * 2.0 * s + 0.2 * i * (1 + j))
        P[:, 7 + j] = (0.5 + 0.1 * i) * s ** 2 + 0.1 * j * np.cos(3.0 * s + i)
    for a, (q0, v) in ((3, ("gen", (0.5, 0.2 + 0.1 * i, -0.3))),
                       (10, ("gen2", (-0.2 * i, 0.4, 0.3)))):
        if c["turn"] == "none":
            v = (0.0, 0.0, 0.0)
        for n, x in enumerate(s):
            P[n, a:a + 4] = ref.qapply(
                [x * (2.0 - x) * y + 0.02 * i for y in v], gen.quat(q0))
    if c["times"] == "shifted":
        T = T + 0.5 + i
    return T, P


def dataset(c):
    return [demo(i, c) for i in range(c["n_demos"])]


def args(c):
    kw = dict(n_weights_per_dim=c["k"], alpha=c["alpha"], kappa=c["kappa"],
              dt=c["dt"], int_dt=c["int_dt"])
    for n in DEFAULTS:
        if c["omit"] in (n, "all"):
            del kw[n]
    if c["verbose"]:
        kw["verbose"] = c["verbose"]
    return kw


def effective(c):
    """Documented defaults take the place of omitted arguments."""
    return dict(c, **{n: v for n, v in DEFAULTS.items()
                      if c["omit"] in (n, "all")})


def expected(c):
    data = dataset(c)
    rows, times = [], []
    for T, P in data:
        tau = T[-1] - T[0]
        d = DualCartesianDMP(execution_time=tau, dt=float(np.mean(np.diff(T))),
                             n_weights_per_dim=c["k"], int_dt=c["int_dt"])
        d.imitate(T.copy(), P.copy())
        rows.append(np.concatenate((d.get_weights(), P[0], P[-1], [tau])))
        times.append(tau)
    tau = sum(times) / len(times)
    m = MVN().from_samples(np.array(rows))
    n = len(m.mean)
    nw = 12 * c["k"]
    Y = []
    for x in np.array(m.sigma_points(alpha=c["alpha"], kappa=c["kappa"])):
        d = DualCartesianDMP(execution_time=tau, dt=c["dt"],
                             n_weights_per_dim=c["k"], int_dt=c["int_dt"])
        d.configure(start_y=x[nw:nw + 14], goal_y=x[nw + 14:nw + 28])
        d.set_weights(x[:nw])
        Y.append(np.array(d.open_loop(run_t=tau)[1]).ravel())
    Y = np.array(Y)
    scale = c["alpha"] ** 2 * (n + c["kappa"])
    w = np.full(len(Y), 0.5 / scale)
    w[0] = (scale - n) / scale
    mean = w @ Y
    wc = w.copy()
    wc[0] += 3.0 - c["alpha"] ** 2
    D = Y - mean
    return mean, (D.T * wc) @ D, data


def compare(rec, got, want, what, tol=1e-9):
    s = max(1e-3, float(np.abs(want[1]).max()))
    rec.close(got[0], want[0], what + ": mean", tol, tol)
    rec.close(np.array(got[1]) / s, np.array(want[1]) / s,
              what + ": covariance", tol, tol)


def result(m):
    return np.array(m.mean), np.array(m.covariance)


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mc-p28-")
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def listing(path):
    out = []
    for root, _, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
            except OSError:
                continue
            out.append((os.path.relpath(p, path), st.st_size, st.st_ino,
                        st.st_mtime_ns))
    return sorted(out)


def content(path):
    out = {}
    for name, _, _, _ in listing(path):
        with open(os.path.join(path, name), "rb") as f:
            out[name] = f.read()
    return out


def restore(path, files):
    for name, data in files.items():
        p = os.path.join(path, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def traced(f, on_line, only=None):
    """Run f with on_line(frame) before every executed Python line."""
    def tracer(frame, event, arg):
        if event == "line":
            on_line(frame)
        elif event == "call" and only is not None and frame.f_code.co_filename != only:
            return None
        return tracer
    old, hook = sys.gettrace(), sys.unraisablehook
    sys.unraisablehook = lambda *a: None
    sys.settrace(tracer)
    try:
        return f()
    finally:
        sys.settrace(old)
        sys.unraisablehook = hook


def place(frame):
    return frame.f_code.co_filename, frame.f_lineno


def setup(path, name):
    p = os.path.join(path, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


def crash_disk(case, rec):
    """All states of the directory a killed process can leave."""
    c = coarse()
    want = result(propagate(dataset(c), **args(c)))
    with Scratch() as path:
        p = setup(path, case["name"])
        seen, snaps = [None], []

        def look(frame):
            now = listing(path)
            if now != seen[0]:
                seen[0] = now
                snaps.append(content(path))
        got = result(traced(
            lambda: propagate(dataset(c), cache_filename=p, **args(c)), look))
        snaps.append(content(path))
    rec.call(2)
    compare(rec, got, want, "first call with cache")
    rec.ok(case["name"] in snaps[-1], "no cache file was written")
    done = set()
    for i, files in enumerate(snaps):
        key = tuple(sorted((n, hash(b)) for n, b in files.items()))
        if key in done:
            continue
        done.add(key)
        with Scratch() as path:
            p = setup(path, case["name"])
            restore(path, files)
            what = "call after a crash that left %s" % {
                n: len(b) for n, b in files.items()}
            try:
                got = result(propagate(dataset(c), cache_filename=p,
                                       **args(c)))
            except Exception as e:
                raise core.Violation("%s failed: %r" % (what, e))
            compare(rec, got, want, what)
            got = result(propagate(dataset(c), cache_filename=p, **args(c)))
            compare(rec, got, want, what + " and another call")
        rec.call(2)
        rec.traces += 1
        rec.state("disk", case["name"], str(sorted(
            (n.replace(str(os.getpid()), ""), len(b))
            for n, b in files.items())))


def exception(name):
    if name == "interrupt":
        return KeyboardInterrupt()
    if name == "disk":
        return OSError(errno.ENOSPC, "No space left on device")
    return MemoryError()


def interrupt(case, rec):
    """Interruption before every line; then the call is repeated."""
    c = coarse()
    want = result(propagate(dataset(c), **args(c)))
    count = {}

    def visit(frame):
        k = place(frame)
        count[k] = count.get(k, 0) + 1
    with Scratch() as path:
        p = setup(path, case["name"])
        traced(lambda: propagate(dataset(c), cache_filename=p, **args(c)),
               visit)
    rec.call()
    points = set()
    for k, n in count.items():
        for occ in {1, n} | (set(range(2, min(n, 6))) if case["many"]
                             else set()):
            points.add(k + (occ,))
    clean = set()
    for i, point in enumerate(sorted(points)):
        if i % PARTS != case["part"]:
            continue
        left = [0]
        exc = case["exc"] if case["exc"] in EXC else EXC[i // PARTS % 3]

        def fire(frame):
            if place(frame) == point[:2]:
                left[0] += 1
                if left[0] == point[2]:
                    raise exception(exc)
        what = "call after interruption (%s) before %s:%d" % (
            exc, os.path.basename(point[0]), point[1])
        with Scratch() as path:
            p = setup(path, case["name"])
            try:
                traced(lambda: propagate(dataset(c), cache_filename=p,
                                         **args(c)), fire, point[0])
            except (KeyboardInterrupt, OSError, MemoryError):
                pass
            except Exception:
                pass  # any other error that the interruption was turned into
            rec.call()
            rec.traces += 1
            left_over = content(path)
            key = hash(tuple(sorted(left_over.items())))
            rec.state("interrupt", exc, os.path.basename(point[0]),
                      str(sorted((n.replace(str(os.getpid()), ""), len(b))
                                 for n, b in left_over.items())))
            if key in clean:
                continue
            try:
                got = result(propagate(dataset(c), cache_filename=p,
                                       **args(c)))
            except Exception as e:
                raise core.Violation("%s failed: %r" % (what, e))
            rec.call()
            compare(rec, got, want, what)
            clean.add(key)


def concurrent(case, rec):
    """Another thread makes the same call before every line of this one."""
    c = coarse()
    want = result(propagate(dataset(c), **args(c)))
    count = {}

    def visit(frame):
        k = place(frame)
        count[k] = count.get(k, 0) + 1
    with Scratch() as path:
        p = setup(path, "cache.txt")
        traced(lambda: propagate(dataset(c), cache_filename=p, **args(c)),
               visit)
    rec.call()
    # quick: the module itself and the functions that read and write arrays
    module = sys.modules[propagate.__module__].__file__
    points = sorted(k + (occ,) for k, n in count.items()
                    for occ in ({1, n} if not case["many"] else
                                {1, n} | set(range(2, min(n, 4))))
                    if case["many"] or k[0] == module
                    or "npyio" in k[0] or "datasource" in k[0])
    for i, point in enumerate(points):
        if i % PARTS != case["part"]:
            continue
        left, other = [0], []

        def second(p):
            try:
                other.append(result(propagate(
                    dataset(c), cache_filename=p, **args(c))))
            except Exception as e:
                other.append(e)

        def switch(frame):
            if place(frame) == point[:2]:
                left[0] += 1
                if left[0] == point[2]:
                    t = threading.Thread(target=second, args=(p,))
                    t.start()
                    t.join(60.0)
        what = "%%s after a switch before %s:%d" % (
            os.path.basename(point[0]), point[1])
        with Scratch() as path:
            p = setup(path, "cache.txt")
            try:
                got = result(traced(lambda: propagate(
                    dataset(c), cache_filename=p, **args(c)), switch,
                    point[0]))
            except Exception as e:
                raise core.Violation("%s: %r" % (what % "first call", e))
            rec.call()
            compare(rec, got, want, what % "first call")
            for o in other:
                rec.call()
                if isinstance(o, Exception):
                    raise core.Violation("%s: %r" % (what % "second call", o))
                compare(rec, o, want, what % "second call")
            got = result(propagate(dataset(c), cache_filename=p, **args(c)))
            compare(rec, got, want, what % "third call")
            rec.ok(sorted(content(path)) == ["cache.txt"],
                   what % "left over files")
            rec.call()
            rec.traces += 1
            rec.state("concurrent", os.path.basename(point[0]),
                      str(bool(other)))


def run(case, rec):
    if case["case"] == "concurrent":
        return concurrent(case, rec)
    if case["case"] == "disk":
        return crash_disk(case, rec)
    if case["case"] == "interrupt":
        return interrupt(case, rec)
    if case["case"] == "failed":
        c = default()
        bad = dataset(c)
        if case["i"] == 0:
            bad[2] = (bad[2][0], bad[2][1][:, :13])
        elif case["i"] == 1:
            bad[1] = (bad[1][0][:-1], bad[1][1])
        else:
            bad[0] = (bad[0][0], bad[0][1][:, :7])
        with Scratch() as path:
            p = setup(path, "cache.txt")
            try:
                propagate(bad, cache_filename=p, **args(c))
                failed = False
            except Exception:
                failed = True
            rec.call()
            rec.ok(failed, "invalid dataset was accepted")
            got = result(propagate(dataset(c), cache_filename=p, **args(c)))
            compare(rec, got, result(propagate(dataset(c), **args(c))),
                    "call after a failed computation")
            rec.call(2)
            rec.traces += 1
            rec.state("failed", str(case["i"]))
        return
    if case["case"] == "repeat":
        c = default()
        for alpha in CFG["alpha"]:
            c = dict(default(), alpha=alpha)
            want = result(propagate(dataset(c), **args(c)))
            with Scratch() as path:
                p = setup(path, "cache.txt")
                for i in range(case["n"]):
                    got = result(propagate(dataset(c), cache_filename=p,
                                           **args(c)))
                    compare(rec, got, want, "call %d with cache" % (i + 1))
                    rec.call()
                    rec.state("repeat", str(i), got[0])
            rec.traces += 1
        return
    c = effective(case["cfg"])
    mean, cov, data = expected(c)
    before = [(T.copy(), P.copy()) for T, P in data]
    with contextlib.redirect_stderr(io.StringIO()):  # progress bars
        m = propagate(data, **args(c))
    rec.call()
    for a, b in zip(data, before):
        rec.same(a[1], b[1], "demonstration after propagation")
    tol = 1e-5 if c["alpha"] < 0.01 else 1e-7
    compare(rec, result(m), (mean, cov), "distribution", tol)
    # the initial state is linear in the parameters
    S = np.array([P[0] for _, P in before])
    rec.close(m.mean[:14], S.mean(axis=0), "mean initial state", 1e-5, 1e-5)
    rec.close(m.covariance[:14, :14], np.cov(S, rowvar=False),
              "covariance of initial state", 1e-5, 1e-5)
    rec.ok(len(m.mean) % 14 == 0, "state dimensions")
    rec.traces += 1
    rec.state("estimate", m.mean)
