"""P32: plots and 3D views show exactly the data they are given."""
import itertools
import math

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from . import core, gen, ref
from movement_primitives.plot import (
    plot_distribution_in_rows, plot_trajectory_in_rows)

PROPERTY = "P32"
ORACLE = ("data of the artists on every axis against the arrays that were "
          "passed; grid cell of every dimension against row- or column-wise "
          "counting; reference visibility of geometries under key events; "
          "eigendecomposition-free check of ellipsoids")
ASSUMPTIONS = ["the 3D window is replaced by a recorder of added and removed "
               "geometries, because a window needs a display"]
CHUNK = 8
DIMS = [1, 2, 3, 4, 6]
STEPS = [2, 5]
TIMES = ["none", "array", "list"]
STYLES = [{}, {"color": "r"}, {"color": (0.0, 0.5, 1.0)},
          {"color": "#4C72B0", "lw": 3}, {"ls": ":"}, {"alpha": 0.5}]
FACTORS = [(1, 2, 3), (2,), (), (0.5, 1.96, 2.5, 4), [1]]
EVENTS = ["press", "release", "repeat", "press+shift", "release+shift",
          "other"]


def shapes(n):
    """Grids with exactly n cells, and one with a spare row or column."""
    out = [None]
    for h in range(1, n + 1):
        if n % h == 0:
            out.append((h, n // h))
    out += [(n + 1, 1), (2, n)] if n > 1 else [(2, 2)]
    return out


def bounds(tier):
    return {"plots": "all combinations of %d dimension counts x grid shapes x"
            " order x given or new axes x %d kinds of times x lengths, with "
            "options within the deviation bound" % (len(DIMS), len(TIMES)),
            "histories": "all words of up to %d plots over 4 plot kinds on "
            "the same axes" % (3 if tier == "quick" else 4),
            "key events": "all words of %d events over %d events and two "
            "geometries" % (depth(tier), len(EVENTS)),
            "ellipsoids": "all rotations of a set x radii from a grid"}


def depth(tier):
    return 4 if tier == "quick" else 6


def cases(tier):
    for n in DIMS:
        for shape in shapes(n):
            yield {"case": "plot", "n": n, "shape": shape, "tier": tier}
    for n in (1, 2, 3):
        for w in core.words("tTdD", 3 if tier == "quick" else 4, 1):
            yield {"case": "history", "n": n, "word": w}
    for w in itertools.product(range(len(EVENTS)), repeat=2):
        yield {"case": "keys", "prefix": list(w), "depth": depth(tier)}
    for n in (1, 2, 5, 12):
        yield {"case": "cloud", "n": n}
    for q in ("id", "x90", "y90", "z90", "x180", "gen", "gen2", "gen3",
              "xyz120", "small"):
        yield {"case": "ellipsoid", "q": q}


def data(n, steps, times, shift=0.0):
    Y = np.array([gen.vec(n, "a", 1.0 + i) * (-1) ** i + shift
                  for i in range(steps)])
    S = np.array([np.abs(gen.vec(n, "c", 0.5 + 0.25 * i)) + 0.1
                  for i in range(steps)])
    T = np.cumsum(np.linspace(0.25, 0.75, steps)) + shift
    t = {"none": None, "array": T, "list": [float(x) for x in T]}[times]
    return Y, S, t


def cell(ax):
    s = ax.get_subplotspec()
    g = s.get_gridspec()
    return (g.nrows, g.ncols), (s.rowspan.start, s.colspan.start), (
        len(s.rowspan), len(s.colspan))


def bands(ax):
    """Lower and upper edge of the filled areas, as sets of points."""
    out = []
    for c in ax.collections:
        for p in c.get_paths():
            out.append(p.vertices)
    return out


def check_band(rec, V, x, lo, hi, what):
    for a, b, c in zip(x, lo, hi):
        col = V[np.abs(V[:, 0] - a) < 1e-12][:, 1]
        rec.ok(len(col) > 0, "%s: no area at %g" % (what, a))
        rec.close(np.array([col.min(), col.max()]), np.array([b, c]),
                  "%s at %g" % (what, a), 1e-9)


def check_line(rec, line, x, y, what):
    rec.close(np.asarray(line.get_xdata(), dtype=float), x, what + ", times",
              1e-12)
    rec.close(np.asarray(line.get_ydata(), dtype=float), y, what, 1e-12)


def check_style(rec, line, style, what):
    from matplotlib.colors import same_color
    if "color" in style:
        rec.ok(same_color(line.get_color(), style["color"]),
               what + ": color %s" % (line.get_color(),))
    if "lw" in style:
        rec.close(line.get_linewidth(), style["lw"], what + ": line width")
    if "ls" in style:
        rec.ok(line.get_linestyle() == style["ls"], what + ": line style")
    if "alpha" in style:
        rec.close(line.get_alpha(), style["alpha"], what + ": alpha")


def check_trajectory(rec, ax, lines, d, x, Y, label, style, what):
    rec.ok(len(lines) == 1, "%s, dimension %d: %d lines"
           % (what, d, len(lines)))
    check_line(rec, lines[0], x, Y[:, d], "%s, dimension %d" % (what, d))
    check_style(rec, lines[0], style, what)
    if label is not None:
        rec.ok(lines[0].get_label() == label, what + ": label")


def check_distribution(rec, ax, lines, areas, d, x, Y, S, factors, fill,
                       style, what):
    what = "%s, dimension %d" % (what, d)
    extra = 0 if fill else 2 * len(factors)
    rec.ok(len(lines) == 1 + extra, "%s: %d lines instead of %d"
           % (what, len(lines), 1 + extra))
    mean = [l for l in lines if np.allclose(
        np.asarray(l.get_ydata(), dtype=float), Y[:, d], atol=1e-12)]
    rec.ok(len(mean) == 1, what + ": no line for the mean")
    check_line(rec, mean[0], x, Y[:, d], what + ", mean")
    check_style(rec, mean[0], style, what + ", mean")
    if fill:
        rec.ok(len(areas) == len(factors), "%s: %d areas instead of %d"
               % (what, len(areas), len(factors)))
        for f in factors:
            lo, hi = Y[:, d] - f * S[:, d], Y[:, d] + f * S[:, d]
            own = [V for V in areas if abs(V[:, 1].max() - hi.max()) < 1e-9]
            rec.ok(len(own) >= 1, "%s: no area of %g standard deviations"
                   % (what, f))
            check_band(rec, own[0], x, lo, hi, "%s, area of %g standard "
                       "deviations" % (what, f))
        return
    rest = [l for l in lines if l is not mean[0]]
    for f in factors:
        for s in (-1.0, 1.0):
            want = Y[:, d] + s * f * S[:, d]
            own = [l for l in rest if np.allclose(np.asarray(
                l.get_ydata(), dtype=float), want, atol=1e-9)]
            rec.ok(len(own) == 1, "%s: no line at %+g standard deviations"
                   % (what, s * f))
            check_line(rec, own[0], x, want, what)
            rec.ok(own[0].get_linestyle() == "--", what + ": not dashed")
            check_style(rec, own[0], {k: v for k, v in style.items()
                                      if k == "color"}, what)


def run(case, rec):
    try:
        globals()["run_" + case["case"]](case, rec)
    finally:
        plt.close("all")


def options(tier):
    """Deviations of one (thorough: two) options from the defaults."""
    table = {"kind": ["t", "d", "D"], "given": [False, True],
             "times": TIMES, "steps": STEPS, "label": [None, "lab"],
             "titles": [None, ["first"], ["t%d" % i for i in range(9)]],
             "style": STYLES, "factors": FACTORS}
    for kind in table["kind"]:
        for o in core.deviations({k: v for k, v in table.items()
                                  if k != "kind"}, 1 if tier == "quick" else 2):
            yield dict(o, kind=kind)


def run_plot(case, rec):
    n, shape = case["n"], case["shape"]
    shape = tuple(shape) if shape else None
    h, w = shape if shape else (n, 1)
    for transpose in (False, True):
        for o in options(case["tier"]):
            if case["tier"] == "quick" and shape and shape[0] * shape[1] != n \
                    and (o["style"] or o["factors"] != (1, 2, 3)):
                continue
            Y, S, t = data(n, o["steps"], o["times"])
            Y0, S0 = Y.copy(), S.copy()
            fig = plt.figure()
            axes = None
            if o["given"]:
                axes = [fig.add_subplot(1, n, 1 + i) for i in range(n)]
            kw = dict(o["style"])
            if o["titles"] is not None:
                kw["axis_titles"] = list(o["titles"])
            if shape is not None:
                kw["subplot_shape"] = shape
            if t is not None:
                kw["t"] = t
            if o["label"] is not None:
                kw["label"] = o["label"]
            if axes is not None:
                kw["axes"] = axes
            if transpose:
                kw["transpose"] = True
            if o["kind"] == "t":
                got = plot_trajectory_in_rows(Y, **kw)
            else:
                if o["factors"] != (1, 2, 3):
                    kw["std_factors"] = o["factors"]
                if o["kind"] == "D":
                    kw["fill_between"] = False
                got = plot_distribution_in_rows(Y, S, **kw)
            rec.call()
            rec.traces += 1
            what = {"t": "trajectory", "d": "distribution",
                    "D": "distribution as lines"}[o["kind"]]
            x = np.asarray(t if t is not None else range(len(Y)), dtype=float)
            rec.ok(len(got) == n, "%s: %d axes for %d dimensions"
                   % (what, len(got), n))
            rec.same(Y, Y0, "data after plotting")
            rec.same(S, S0, "data after plotting")
            rec.ok(len(fig.axes) == n, "%s: %d axes in the figure"
                   % (what, len(fig.axes)))
            for i in range(n):
                ax = got[i]
                if axes is not None:
                    rec.ok(ax is axes[i], what + ": other axes returned")
                else:
                    grid, pos, span = cell(ax)
                    want = (i % h, i // h) if transpose else (i // w, i % w)
                    rec.ok(grid == (h, w) and pos == want and span == (1, 1),
                           "%s: dimension %d in cell %s of %s instead of %s of"
                           " %s" % (what, i, pos, grid, want, (h, w)))
                    names = o["titles"] or []
                    title = names[i] if i < len(names) else \
                        "Dimension #%d" % i
                    rec.ok(ax.get_title() == title, "%s: title %r instead of "
                           "%r" % (what, ax.get_title(), title))
                    rec.close(np.array(ax.get_xlim()), x[[0, -1]],
                              what + ": limits of the time axis", 1e-9)
                    if h * w == n:
                        xl = ("Step" if t is None else "Time [s]") \
                            if pos[0] == h - 1 else ""
                        rec.ok(ax.get_xlabel() == xl, "%s: label of the time "
                               "axis %r instead of %r" % (
                                   what, ax.get_xlabel(), xl))
                if o["kind"] == "t":
                    check_trajectory(rec, ax, ax.lines, i, x, Y, o["label"],
                                     o["style"], what)
                else:
                    check_distribution(
                        rec, ax, list(ax.lines), bands(ax), i, x, Y, S,
                        o["factors"], o["kind"] == "d", o["style"], what)
                    if o["label"] and len(o["factors"]):
                        labels = [a.get_label() for a in list(ax.lines)
                                  + list(ax.collections)]
                        rec.ok(labels.count(o["label"]) == 1,
                               what + ": labels %s" % (labels,))
            rec.state(repr((n, shape, transpose, sorted(o.items()))))
            plt.close(fig)


def run_history(case, rec):
    """Plots on the same axes do not disturb each other."""
    n = case["n"]
    fig = plt.figure()
    axes, seen = None, [([], 0)] * n
    for k, op in enumerate(case["word"]):
        Y, S, t = data(n, 4, "array" if op in "TD" else "none", 0.5 * k)
        x = np.asarray(t if t is not None else range(4), dtype=float)
        limits = [a.get_xlim() for a in axes] if axes else None
        if op in "tT":
            got = plot_trajectory_in_rows(Y, t=t, axes=axes)
        else:
            got = plot_distribution_in_rows(Y, S, t=t, axes=axes,
                                            std_factors=(1, 2))
        rec.call()
        if axes is not None:
            rec.ok(len(got) == n and all(a is b for a, b in zip(axes, got)),
                   "other axes returned")
        axes = got
        rec.ok(len(fig.axes) == n, "number of axes in the figure")
        for i in range(n):
            lines, areas = list(axes[i].lines), bands(axes[i])
            old, m = seen[i]
            rec.ok(all(a is b for a, b in zip(lines, old)),
                   "earlier lines were removed")
            what = "plot %d of %s" % (k, "".join(case["word"]))
            if op in "tT":
                check_trajectory(rec, axes[i], lines[len(old):], i, x, Y,
                                 None, {}, what)
            else:
                check_distribution(rec, axes[i], lines[len(old):], areas[m:],
                                   i, x, Y, S, (1, 2), True, {}, what)
            seen[i] = (lines, len(areas))
        rec.state(n, op, Y)
    rec.traces += 1


class Window:
    """Stands in for the window: keeps the geometries that are shown."""
    def __init__(self):
        self.shown = []

    def add_geometry(self, g, *args, **kwargs):
        self.shown.append(g)

    def remove_geometry(self, g, *args, **kwargs):
        self.shown = [x for x in self.shown if x is not g]


def run_keys(case, rec):
    from movement_primitives.visualization import ToggleGeometry
    for rest in itertools.product(range(len(EVENTS)),
                                  repeat=case["depth"] - len(case["prefix"])):
        vis, a, b = Window(), object(), object()
        vis.add_geometry(a)
        vis.add_geometry(b)
        toggle, other = ToggleGeometry(vis, a), ToggleGeometry(vis, b)
        want = {id(a): True, id(b): True}
        word = list(case["prefix"]) + list(rest)
        for e in word:
            name = EVENTS[e]
            if name == "other":
                other(vis, 1, 0)
                other(vis, 0, 0)
                want[id(b)] = not want[id(b)]
            else:
                action = {"release": 0, "press": 1, "repeat": 2}[
                    name.split("+")[0]]
                toggle(vis, action, 1 if "shift" in name else 0)
                if action == 1:
                    want[id(a)] = not want[id(a)]
            rec.call()
            for g, what in ((a, "geometry"), (b, "other geometry")):
                shown = sum(x is g for x in vis.shown)
                rec.ok(shown == int(want[id(g)]), "%s shown %d times after %s"
                       % (what, shown, [EVENTS[i] for i in word]))
            rec.state(want[id(a)], want[id(b)], name)
        rec.traces += 1


def run_cloud(case, rec):
    from movement_primitives.visualization import plot_pointcloud
    P = np.array([gen.vec(3, "a", 1.0 + i) for i in range(case["n"])])
    for kind, color, k in itertools.product(
            ("array", "list"), ([1.0, 0.0, 0.5], (0.25, 0.5, 0.75)),
            (None, 1, 2, 3, 5)):
        vis = Window()
        pts = P.copy() if kind == "array" else [list(p) for p in P]
        args = () if k is None else (k,)
        pcl = plot_pointcloud(vis, pts, color, *args)
        rec.call()
        want = P[::k or 1]
        rec.ok(len(vis.shown) == 1 and vis.shown[0] is pcl,
               "the returned cloud is not the one that is shown")
        rec.ok(len(pcl.points) == len(want), "%d points instead of %d"
               % (len(pcl.points), len(want)))
        rec.close(np.asarray(pcl.points), want, "points", 1e-12)
        rec.close(np.asarray(pcl.colors), np.tile(color, (len(want), 1)),
                  "colors", 1e-12)
        rec.traces += 1
        rec.state(case["n"], kind, *color, k or 0)


def run_ellipsoid(case, rec):
    from movement_primitives.visualization import to_ellipsoid
    q = gen.quat(case["q"])
    R = np.array([ref.qrot(q, e) for e in np.eye(3)]).T
    for radii in itertools.product((0.1, 0.5, 1.0, 2.0), repeat=3):
        for m in ("zero", "a"):
            mean = gen.vec(3, m)
            cov = R.dot(np.diag(np.square(radii))).dot(R.T)
            cov = 0.5 * (cov + cov.T)
            c0 = cov.copy()
            A, r = to_ellipsoid(mean, cov)
            rec.call()
            rec.same(cov, c0, "covariance afterwards")
            rec.close(A[:3, 3], mean, "centre", 1e-12)
            rec.close(A[3], np.array([0.0, 0.0, 0.0, 1.0]), "last row", 1e-12)
            rec.close(A[:3, :3].T.dot(A[:3, :3]), np.eye(3), "orthogonality",
                      1e-9)
            rec.close(np.linalg.det(A[:3, :3]), 1.0, "orientation", 1e-9)
            rec.close(A[:3, :3].dot(np.diag(np.square(r))).dot(A[:3, :3].T),
                      cov, "covariance of the ellipsoid", 1e-9)
            rec.close(np.sort(r), np.sort(radii), "radii", 1e-9)
            rec.traces += 1
            rec.state(case["q"], radii, m)
