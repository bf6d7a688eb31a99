"""Fixed closed-form numbers: the argument domains of the explored alphabets."""
import math

import numpy as np


def vec(n, kind, scale=1.0):
    """Deterministic vectors that are generic (no accidental coincidences)."""
    if kind == "zero":
        return np.zeros(n)
    if kind == "one":
        return np.ones(n) * scale
    if kind == "big":
        return vec(n, "b", 40.0 * scale)
    if kind == "part":
        return vec(n, "d", scale) * np.array([i % 2 for i in range(n)])
    a, b = {"a": (0.7, 0.3), "b": (1.9, 1.1), "c": (2.3, 4.2),
            "d": (0.9, 2.6), "e": (3.1, 5.5)}[kind]
    return scale * np.array([math.sin(a * i + b) for i in range(n)])


def weights(n, k, kind, scale=100.0):
    if kind == "zero":
        return np.zeros((n, k))
    if kind == "hot":
        w = np.zeros((n, k))
        w[n - 1, k - 1] = scale
        w[0, 0] = -scale
        return w
    if kind == "big":
        scale = scale * 10
    a = {"wave": 1.0, "wave2": 2.3, "big": 1.7}[kind]
    return scale * np.array([[math.sin(a * (1.3 * i + 0.7 * j + 1.0))
                              for j in range(k)] for i in range(n)])


def gains(n, kind, base):
    if kind == "default":
        return None
    if kind == "scalar":
        return base * 1.2
    if kind in ("soft", "stiff"):
        base = base * {"soft": 0.2, "stiff": 3.0}[kind]
    return np.array([base * (0.8 + 0.1 * ((3 * i) % 7)) for i in range(n)])


def gain_list(n, kind, base):
    g = gains(n, kind, base)
    if g is None:
        return [base] * n
    if np.isscalar(g):
        return [float(g)] * n
    return [float(x) for x in g]


# rotations: a small finite set of generic and special orientations
def quat(name):
    sign = 1.0
    if name.startswith("-"):
        sign, name = -1.0, name[1:]
    r = math.sqrt(0.5)
    table = {
        "id": [1, 0, 0, 0],
        "x90": [r, r, 0, 0],
        "y90": [r, 0, r, 0],
        "z90": [r, 0, 0, r],
        "x180": [0, 1, 0, 0],
        "y180": [0, 0, 1, 0],
        "z180": [0, 0, 0, 1],
        "xyz120": [0.5, 0.5, 0.5, 0.5],
        "small": None,
        "gen": None,
        "gen2": None,
        "gen3": None,
    }
    v = {"small": [1e-3, -2e-3, 5e-4], "gen": [0.4, -0.7, 0.5],
         "gen2": [-0.9, 0.2, 1.1], "gen3": [0.3, 1.3, -0.8]}
    if table[name] is not None:
        q = np.array(table[name], dtype=float)
    else:
        from . import ref
        q = np.array(ref.qexp(v[name]))
    return sign * q


def dyadic(x):
    """True if x is a multiple of 1/4096 (all time sums are exact)."""
    return float(x) * 4096.0 == math.floor(float(x) * 4096.0)
