"""P33: the LASA demonstrations are complete however loading was disturbed."""
import io
import itertools
import os
import shutil
import sys
import tempfile
import urllib.request
import zipfile

import numpy as np
import scipy.io

from . import core
from .p28 import place, traced
from movement_primitives.data import load_lasa

PROPERTY = "P33"
ORACLE = ("the arrays that were written to the synthetic archive; times are "
          "multiples of the time between steps; a process that was killed "
          "or another one running at the same time makes no difference")
ASSUMPTIONS = ["the download is answered by an archive with the layout of the "
               "original dataset (Matlab files in DataSet/, one top-level "
               "directory), the home directory is a scratch directory"]
CHUNK = 1
NAMES = ["Angle", "BendedLine", "CShape", "JShape", "Zshape"]
OPS = ["0", "4", "fail", "short", "kill", "stop"]
PARTS = 16


def bounds(tier):
    return {"data": "all of 1-3 demonstrations x 2-4 steps x 3 step sizes x "
            "all shapes of an archive with %d" % len(NAMES),
            "histories": "all words of up to %d operations over %s (load a "
            "shape, failing and truncated download, process killed in the "
            "download, interrupted)" % (depth(tier), OPS),
            "crash points": "process killed before %s execution of every "
            "Python line while the dataset is set up" % which(tier),
            "schedules": "another process makes the same call before %s "
            "execution of every Python line of this one" % which(tier)}


def which(tier):
    return "the first and last" if tier == "quick" else "every"


def depth(tier):
    return 3 if tier == "quick" else 5


def cases(tier):
    for n, s, dt in itertools.product((1, 2, 3), (2, 3, 4),
                                      (0.25, 0.1, 2.0)):
        yield {"case": "data", "n": n, "s": s, "dt": dt}
    for a in OPS:
        for b in OPS:
            yield {"case": "history", "prefix": [a, b], "depth": depth(tier)}
    for part in range(PARTS):
        for kind in ("crash", "switch"):
            yield {"case": kind, "part": part, "many": tier != "quick"}


def demo(shape, i, s, what):
    return np.array([[(1 + shape) * 10.0 + i + 0.5 * j + 100.0 * what
                      + 1000.0 * k for j in range(s)] for k in range(2)])


def archive(n=2, s=3, dt=0.25):
    out = io.BytesIO()
    top = "khansari-lasahandwritingdataset-38304f7c0ac4/"
    with zipfile.ZipFile(out, "w") as z:
        z.writestr(top, "")
        z.writestr(top + "Readme.txt", "LASA")
        z.writestr(top + "DataSet/", "")
        for k in (2, 0, 4, 1, 3):
            d = np.empty((1, n), dtype=object)
            for i in range(n):
                d[0, i] = {"pos": demo(k, i, s, 0),
                           "t": dt * np.arange(s)[np.newaxis],
                           "vel": demo(k, i, s, 1), "acc": demo(k, i, s, 2),
                           "dt": dt}
            b = io.BytesIO()
            scipy.io.savemat(b, {"demos": d, "dt": dt})
            z.writestr(top + "DataSet/%s.mat" % NAMES[k], b.getvalue())
        z.writestr(top + "plot.m", "plot")
    return out.getvalue()


class Interrupted(BaseException):
    pass


class Server(urllib.request.BaseHandler):
    """Answers every download with the archive."""
    def __init__(self, content):
        self.content = content
        self.mode = ""
        self.count = 0

    def default_open(self, req):
        self.count += 1
        if self.mode == "fail":
            raise OSError("no network")
        if self.mode == "kill":
            os._exit(9)
        if self.mode == "stop":
            raise Interrupted()
        c = self.content
        if self.mode == "short":
            c = c[:len(c) // 2]
        r = urllib.response.addinfourl(io.BytesIO(c), {}, req.full_url, 200)
        r.msg = "OK"
        return r


class World:
    """Scratch home directory and stand-in for the network."""
    def __init__(self, content):
        self.server = Server(content)

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="mpverif-lasa-")
        self.home = os.environ.get("HOME")
        os.environ["HOME"] = self.path
        self.opener = urllib.request._opener
        o = urllib.request.OpenerDirector()
        o.add_handler(self.server)
        urllib.request.install_opener(o)
        return self

    def __exit__(self, *a):
        urllib.request._opener = self.opener
        if self.home is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = self.home
        shutil.rmtree(self.path, ignore_errors=True)


def check(rec, got, k, n, s, dt, what):
    T, X, Xd, Xdd, d, name = got
    rec.ok(name == NAMES[k], "%s: shape %r instead of %r"
           % (what, name, NAMES[k]))
    rec.close(d, dt, what + ": time between steps", 1e-12)
    for w, (x, label) in enumerate(((X, "positions"), (Xd, "velocities"),
                                    (Xdd, "accelerations"))):
        want = np.array([demo(k, i, s, w).T for i in range(n)])
        rec.ok(np.shape(x) == want.shape, "%s: shape of %s %s instead of %s"
               % (what, label, np.shape(x), want.shape))
        rec.close(x, want, what + ": " + label, 1e-12)
    rec.close(T, np.tile(dt * np.arange(s), (n, 1)), what + ": times", 1e-9)
    rec.state(n, s, dt, name)


def in_child(f):
    """Calls f in a process of its own; True if it returned normally."""
    pid = os.fork()
    if pid == 0:
        try:
            sys.settrace(None)
            f()
            os._exit(0)
        except BaseException:
            os._exit(1)
    _, status = os.waitpid(pid, 0)
    return status == 0


def expect(rec, k, what):
    try:
        got = load_lasa(k)
    except Exception as e:
        raise core.Violation("%s: %s: %s" % (what, type(e).__name__, e))
    rec.call()
    check(rec, got, k, 2, 3, 0.25, what)


def run(case, rec):
    globals()["run_" + case["case"]](case, rec)


def run_data(case, rec):
    n, s, dt = case["n"], case["s"], case["dt"]
    with World(archive(n, s, dt)) as w:
        for k in (3, 0, 1, 2, 4, 3):
            got = load_lasa(k)
            rec.call()
            check(rec, got, k, n, s, dt, "shape %d" % k)
            for x in got[:4]:
                x[:] = -1.0  # the caller may change what they got
        rec.ok(w.server.count == 1, "%d downloads" % w.server.count)
        for k in (len(NAMES), 29):
            try:
                load_lasa(k)
            except IndexError:
                continue
            rec.ok(False, "shape %d of %d was accepted" % (k, len(NAMES)))
    rec.traces += 1


def run_history(case, rec):
    for rest in itertools.product(
            OPS, repeat=case["depth"] - len(case["prefix"])):
        word = list(case["prefix"]) + list(rest)
        what = "after %s" % word
        with World(archive()) as w:
            there = False
            for op in word:
                rec.call()
                if op in "04":
                    expect(rec, int(op), what)
                    there = True
                    continue
                w.server.mode = op
                if op == "kill":
                    ok = in_child(lambda: load_lasa(1))
                else:
                    try:
                        load_lasa(1)
                        ok = True
                    except (Exception, Interrupted):
                        ok = False
                w.server.mode = ""
                rec.ok(ok == there, "%s: %s" % (
                    what, "loading needed the network again" if there else
                    "loading succeeded without a complete download"))
            for k in (2, 0):
                expect(rec, k, what)
            left = os.listdir(w.path)
            rec.ok(len(left) == 1, "%s: %s in the home directory"
                   % (what, left))
            rec.state(w.server.count, *word)
        rec.traces += 1


def points(many, rec):
    count = {}

    def visit(frame):
        k = place(frame)
        count[k] = count.get(k, 0) + 1
    with World(archive()) as w:
        traced(lambda: load_lasa(1), visit)
        names = sorted(f for _, _, fs in os.walk(w.path) for f in fs)
    rec.call()
    rec.ok("Angle.mat" in names, "dataset is not kept: %s" % (names,))
    for k, n in sorted(count.items()):
        for occ in sorted(set(range(1, n + 1)) if many and n < 20
                          else {1, 2, n} if many else {1, n}):
            if not k[0].startswith("<") and "/scipy/" not in k[0] \
                    and "/numpy/" not in k[0]:
                yield k + (occ,)


def at(point, action):
    left = [0]

    def visit(frame):
        if place(frame) == point[:2]:
            left[0] += 1
            if left[0] == point[2]:
                action()
    return visit


def run_crash(case, rec):
    for i, point in enumerate(points(case["many"], rec)):
        if i % PARTS != case["part"]:
            continue
        what = "after a crash before %s:%d" % (
            os.path.basename(point[0]), point[1])
        with World(archive()):
            in_child(lambda: traced(
                lambda: load_lasa(1), at(point, lambda: os._exit(9)),
                point[0]))
            rec.call()
            for k in (1, 3, 1):
                expect(rec, k, what)
        rec.traces += 1
        rec.state(os.path.basename(point[0]), *point[1:])


def run_switch(case, rec):
    for i, point in enumerate(points(case["many"], rec)):
        if i % PARTS != case["part"]:
            continue
        what = "with another process before %s:%d" % (
            os.path.basename(point[0]), point[1])
        with World(archive()):
            other = []

            def second():
                load_lasa(2)
            try:
                got = traced(lambda: load_lasa(1), at(
                    point, lambda: other.append(in_child(second))), point[0])
            except Exception as e:
                raise core.Violation("%s: %s: %s" % (what, type(e).__name__,
                                                     e))
            rec.call(2)
            check(rec, got, 1, 2, 3, 0.25, what)
            rec.ok(all(other), what + ": the other process failed")
            for k in (0, 1):
                expect(rec, k, what)
        rec.traces += 1
        rec.state(os.path.basename(point[0]), *point[1:])
