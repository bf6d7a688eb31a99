"""Reference models, written from the documented equations.

Deliberately plain: explicit loops over dimensions and Python floats, no code
shared with the implementation.
"""
import math

FINAL_PHASE = 0.01
OVERLAP = 0.8


# --------------------------------------------------------------------------
# quaternions (scalar first)
# --------------------------------------------------------------------------
def qmul(a, b):
    aw, ax, ay, az = a
    bw, bx, by, bz = b
    return [aw * bw - ax * bx - ay * by - az * bz,
            aw * bx + ax * bw + ay * bz - az * by,
            aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw]


def qconj(q):
    return [q[0], -q[1], -q[2], -q[3]]


def qnorm(q):
    n = math.sqrt(sum(x * x for x in q))
    return [x / n for x in q]


def qlog(q):
    """Rotation vector of a unit quaternion, angle in (-pi, pi]."""
    p = math.sqrt(q[1] ** 2 + q[2] ** 2 + q[3] ** 2)
    if p < 1e-16:
        return [0.0, 0.0, 0.0]
    angle = 2.0 * math.atan2(p, q[0])
    if angle > math.pi:
        angle -= 2.0 * math.pi
    return [angle * x / p for x in q[1:]]


def qexp(v):
    angle = math.sqrt(sum(x * x for x in v))
    if angle == 0.0:
        return [1.0, 0.0, 0.0, 0.0]
    s = math.sin(0.5 * angle) / angle
    return [math.cos(0.5 * angle), s * v[0], s * v[1], s * v[2]]


def qdiff(a, b):
    """Rotation vector that leads from b to a."""
    return qlog(qnorm(qmul(qnorm(list(a)), qconj(qnorm(list(b))))))


def qapply(v, q):
    """Rotate orientation q by rotation vector v."""
    return qnorm(qmul(qexp(v), qnorm(list(q))))


def qrot(q, v):
    """Rotate vector v by quaternion q."""
    return qmul(qmul(q, [0.0] + list(v)), qconj(q))[1:]


# --------------------------------------------------------------------------
# canonical system and forcing term
# --------------------------------------------------------------------------
def phase(t, tau, final=FINAL_PHASE, start=0.0):
    return math.exp(math.log(final) * (t - start) / tau)


class Forcing:
    def __init__(self, weights, tau, overlap=OVERLAP, final=FINAL_PHASE):
        self.w = [[float(x) for x in row] for row in weights]
        self.k = len(self.w[0])
        self.tau = tau
        self.final = final
        self.c = [phase(i * tau / (self.k - 1), tau, final)
                  for i in range(self.k)]
        h = [-math.log(overlap) / (self.c[i + 1] - self.c[i]) ** 2
             for i in range(self.k - 1)]
        self.h = h + [h[-1]]

    def z(self, t):
        return phase(t, self.tau, self.final)

    def psi(self, z):
        return softmax([-h * (z - c) ** 2 for h, c in zip(self.h, self.c)])

    def f(self, z):
        p = self.psi(z)
        return [z * sum(w * x for w, x in zip(row, p)) for row in self.w]


def softmax(e):
    m = max(e)
    a = [math.exp(x - m) for x in e]
    s = sum(a)
    return [x / s for x in a]


def substeps(last_t, t, int_dt):
    cur = last_t
    while cur < t:
        dt = int_dt
        if t - cur < int_dt:
            dt = t - cur
        cur += dt
        yield cur, dt


# --------------------------------------------------------------------------
# joint-space DMP
# --------------------------------------------------------------------------
def zero_coupling(y, yd):
    return [0.0] * len(yd), [0.0] * len(yd)


class DMP:
    def __init__(self, n, tau=1.0, dt=0.01, k=10, int_dt=0.001, p_gain=0.0,
                 smooth=False, alpha=None, beta=None, weights=None):
        self.n = n
        self.tau = tau
        self.dt = dt
        self.int_dt = int_dt
        self.p_gain = p_gain
        self.smooth = smooth
        self.k = k
        self.alpha = list(alpha) if alpha is not None else [25.0] * n
        self.beta = list(beta) if beta is not None else [6.25] * n
        self.w = [list(map(float, r)) for r in weights] \
            if weights is not None else [[0.0] * k for _ in range(n)]
        self.start = [0.0] * n
        self.startd = [0.0] * n
        self.goal = [0.0] * n
        self.t = 0.0
        self.y = None
        self.yd = None

    def reset(self):
        self.t = 0.0
        self.y = None

    def forcing(self):
        return Forcing(self.w, self.tau)

    def acc(self, y, yd, z, f, cdd, tdd):
        out = []
        for d in range(self.n):
            sm = self.beta[d] * (self.goal[d] - self.start[d]) * z \
                if self.smooth else 0.0
            out.append((self.alpha[d] * (
                self.beta[d] * (self.goal[d] - y[d]) - self.tau * yd[d] - sm)
                + f[d] + cdd[d] + tdd[d]) / self.tau ** 2)
        return out

    def step(self, last_y, last_yd, coupling=None, method="rk4"):
        last_t = self.t
        self.t += self.dt
        if self.y is None:
            self.y, self.yd = list(self.start), list(self.startd)
        err = [a - b for a, b in zip(self.y, last_y)]
        self.y, self.yd = self.integrate(
            last_t, self.t, self.y, self.yd, err, coupling, method)
        return list(self.y), list(self.yd)

    def integrate(self, last_t, t, y, yd, err, coupling, method):
        y, yd = list(y), list(yd)
        F = self.forcing()
        n = self.n
        c = coupling or zero_coupling
        if method.startswith("rk4"):
            dt = t - last_t
            td = [self.p_gain * e / dt for e in err]
            Z = [F.z(t), F.z(t + 0.5 * dt), F.z(t + dt)]
            f = [F.f(z) for z in Z]

            def a(yy, vv, i):
                return self.acc(yy, vv, Z[i], f[i], c(yy, vv)[1], td)
            v1, k1 = yd, a(y, yd, 0)
            v2 = [yd[d] + 0.5 * dt * k1[d] for d in range(n)]
            k2 = a([y[d] + 0.5 * dt * v1[d] for d in range(n)], v2, 1)
            v3 = [yd[d] + 0.5 * dt * k2[d] for d in range(n)]
            k3 = a([y[d] + 0.5 * dt * v2[d] for d in range(n)], v3, 1)
            v4 = [yd[d] + dt * k3[d] for d in range(n)]
            k4 = a([y[d] + dt * v3[d] for d in range(n)], v4, 2)
            y = [y[d] + dt / 6 * (v1[d] + 2 * v2[d] + 2 * v3[d] + v4[d])
                 for d in range(n)]
            yd = [yd[d] + dt / 6 * (k1[d] + 2 * k2[d] + 2 * k3[d] + k4[d])
                  for d in range(n)]
            if coupling is not None:
                cd = c(y, yd)[0]
                yd = [yd[d] + cd[d] / self.tau for d in range(n)]
            return y, yd
        for cur, dt in substeps(last_t, t, self.int_dt):
            cd, cdd = c(y, yd)
            z = F.z(cur)
            a = self.acc(y, yd, z, F.f(z), cdd,
                         [self.p_gain * e / dt for e in err])
            yd = [yd[d] + dt * a[d] + cd[d] / self.tau for d in range(n)]
            y = [y[d] + dt * yd[d] for d in range(n)]
        return y, yd

    def rollout(self, n_steps, coupling=None, method="rk4", startd=None):
        """Positions at 0, dt, ..., n_steps*dt, starting at the start."""
        y = list(self.start)
        yd = list(startd) if startd is not None else [0.0] * self.n
        Y = [list(y)]
        for i in range(n_steps):
            y, yd = self.integrate(i * self.dt, (i + 1) * self.dt, y, yd,
                                   [0.0] * self.n, coupling, method)
            Y.append(list(y))
        return Y


# --------------------------------------------------------------------------
# orientation part shared by the Cartesian primitives
# --------------------------------------------------------------------------
GAP = [math.inf]  # smallest distance of a rotation error to the half turn


def quat_substep(q, w, dt, tau, alpha, beta, goal, start, z, f, cd, cdd,
                 smooth):
    e = qdiff(goal, q)
    s = qdiff(goal, start) if smooth else [0.0] * 3
    GAP[0] = min(GAP[0], math.pi - math.sqrt(sum(x * x for x in e)),
                 math.pi - math.sqrt(sum(x * x for x in s)))
    a = [(alpha[d] * (beta[d] * e[d] - tau * w[d]
                      - (beta[d] * z * s[d] if smooth else 0.0))
          + f[d] + cdd[d]) / tau ** 2 for d in range(3)]
    w = [w[d] + dt * a[d] + cd[d] / tau for d in range(3)]
    return qapply([dt * x for x in w], q), w


class Arm:
    """Pose dynamics of one end effector (7 / 6 dimensions)."""
    def __init__(self, tau, dt, k, int_dt, smooth, alpha, beta, weights):
        self.tau = tau
        self.dt = dt
        self.int_dt = int_dt
        self.smooth = smooth
        self.alpha = list(alpha)
        self.beta = list(beta)
        self.w = [list(map(float, r)) for r in weights]
        self.start = [0.0, 0, 0, 1, 0, 0, 0]
        self.goal = [0.0, 0, 0, 1, 0, 0, 0]

    def integrate(self, last_t, t, y, yd, method="euler", err=None,
                  p_gain=0.0, coupling=None):
        """One step from (y, yd). err: 3 position + 3 rotation errors."""
        pos = DMP(3, self.tau, self.dt, len(self.w[0]), self.int_dt, p_gain,
                  self.smooth, self.alpha[:3], self.beta[:3], self.w[:3])
        pos.start, pos.goal = self.start[:3], self.goal[:3]
        F = Forcing(self.w[3:], self.tau)
        e = err or [0.0] * 6
        p, v = pos.integrate(last_t, t, y[:3], yd[:3], e[:3], coupling, method)
        q, w = list(y[3:]), list(yd[3:])
        for cur, dt in substeps(last_t, t, self.int_dt):
            z = F.z(cur)
            cd, cdd = (coupling or zero_coupling)(q, w)
            q, w = quat_substep(
                q, w, dt, self.tau, self.alpha[3:], self.beta[3:],
                self.goal[3:], self.start[3:], z, F.f(z), cd,
                [p_gain * x / dt + c for x, c in zip(e[3:], cdd)],
                self.smooth)
        return list(p) + list(q), list(v) + list(w)


# --------------------------------------------------------------------------
# final-velocity DMP
# --------------------------------------------------------------------------
def quintic(t0, t1, y0, v0, a0, y1, v1, a1):
    """Coefficients in s = (t - t0) / (t1 - t0) of one dimension."""
    T = t1 - t0
    c0, c1, c2 = y0, v0 * T, 0.5 * a0 * T * T
    d = y1 - (c0 + c1 + c2)
    dv = v1 * T - (c1 + 2 * c2)
    da = a1 * T * T - 2 * c2
    c3 = 10 * d - 4 * dv + 0.5 * da
    c4 = -15 * d + 7 * dv - da
    c5 = 6 * d - 3 * dv + 0.5 * da
    return [c0, c1, c2, c3, c4, c5], t0, T


def quintic_at(poly, t):
    c, t0, T = poly
    s = (t - t0) / T
    y = sum(c[i] * s ** i for i in range(6))
    v = sum(i * c[i] * s ** (i - 1) for i in range(1, 6)) / T
    a = sum(i * (i - 1) * c[i] * s ** (i - 2) for i in range(2, 6)) / T ** 2
    return y, v, a


class FinalVelocityDMP(DMP):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        n = self.n
        self.startdd = [0.0] * n
        self.goald = [0.0] * n
        self.goaldd = [0.0] * n

    def integrate(self, last_t, t, y, yd, err, coupling=None, method=None):
        y, yd = list(y), list(yd)
        n = self.n
        F = self.forcing()
        c = coupling or zero_coupling
        polys = [quintic(0.0, self.tau, self.start[d], self.startd[d],
                         self.startdd[d], self.goal[d], self.goald[d],
                         self.goaldd[d]) for d in range(n)]
        for cur, dt in substeps(last_t, t, self.int_dt):
            cd, cdd = c(y, yd)
            f = F.f(F.z(cur))
            for d in range(n):
                if cur > self.tau * (1.0 + 1e-9):
                    g, gd, gdd = self.goal[d], 0.0, 0.0
                else:
                    g, gd, gdd = quintic_at(polys[d], cur)
                a = (self.alpha[d] * (self.beta[d] * (g - y[d])
                                      + self.tau * (gd - yd[d]))
                     + f[d] + cdd[d] + self.p_gain * err[d] / dt
                     ) / self.tau ** 2 + gdd
                yd[d] += dt * a + cd[d] / self.tau
                y[d] += dt * yd[d]
        return y, yd


# --------------------------------------------------------------------------
# state-following (viapoint) DMP
# --------------------------------------------------------------------------
class ViapointDMP:
    OVERLAP = 0.1

    def __init__(self, n, tau, dt, k, int_dt, alpha, beta, viapoints):
        self.n, self.tau, self.dt, self.k = n, tau, dt, k
        self.int_dt = int_dt
        self.alpha, self.beta = list(alpha), list(beta)
        self.v = [list(map(float, r)) for r in viapoints]
        self.c = [phase(i * tau / k, tau) for i in range(k)]
        h = [-math.log(self.OVERLAP) / (self.c[i + 1] - self.c[i]) ** 2
             for i in range(k - 1)]
        self.h = h + [h[-1]] if h else [1.0]
        self.t = 0.0
        self.start = [0.0] * n

    def psi(self, t):
        z = phase(t, self.tau)
        return softmax([-h * (z - c) ** 2 for h, c in zip(self.h, self.c)])

    def integrate(self, last_t, t, y, yd, coupling=None):
        y, yd = list(y), list(yd)
        c = coupling or zero_coupling
        T = 0.5 * self.tau
        for cur, dt in substeps(last_t, t, self.int_dt):
            cd, cdd = c(y, yd)
            p = self.psi(cur)
            for d in range(self.n):
                target = sum(p[i] * self.v[i][d] for i in range(self.k))
                a = (self.alpha[d] * (self.beta[d] * (target - y[d])
                                      - T * yd[d]) + cdd[d]) / T ** 2
                yd[d] += dt * a + cd[d] / T
                y[d] += dt * yd[d]
        return y, yd


# --------------------------------------------------------------------------
# spring-dampers
# --------------------------------------------------------------------------
def spring_damper(last_t, t, y, yd, goal, k, c, int_dt, coupling=None):
    y, yd = list(y), list(yd)
    c = 2.0 * math.sqrt(k) if c is None else c
    cp = coupling or zero_coupling
    for _, dt in substeps(last_t, t, int_dt):
        cd, cdd = cp(y, yd)
        for d in range(len(y)):
            a = k * (goal[d] - y[d]) - c * yd[d] + cdd[d]
            yd[d] += dt * a + cd[d]
        for d in range(len(y)):
            y[d] += dt * yd[d]
    return y, yd


def spring_damper_orientation(last_t, t, q, w, goal, k, c, int_dt,
                              coupling=None):
    q, w = list(q), list(w)
    c = 2.0 * math.sqrt(k) if c is None else c
    cp = coupling or zero_coupling
    for _, dt in substeps(last_t, t, int_dt):
        cd, cdd = cp(q, w)
        e = qdiff(goal, q)
        GAP[0] = min(GAP[0], math.pi - math.sqrt(sum(x * x for x in e)))
        w = [w[d] + dt * (k * e[d] - c * w[d] + cdd[d]) + cd[d]
             for d in range(3)]
        q = qapply([dt * x for x in w], q)
    return q, w
