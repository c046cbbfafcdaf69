"""Independent reference models (numpy for well conditioned ones, mpmath otherwise)."""
import math

import mpmath as mpm
import numpy as np

G = 6.67430e-11
MU0 = 1.25663706127e-06
EPS0 = 8.8541878188e-12
EPS = 2.0 ** -52


# ------------------------------------------------------------------ prisms (mpmath)
def _ctx(dps):
    m = mpm.mp.clone() if hasattr(mpm.mp, "clone") else mpm.mp
    m.dps = dps
    return m


_MP = _ctx(40)
_MP2 = _ctx(70)


def _xlog(m, a, u, other2):
    """a*log(u + r) with r = sqrt(u^2 + other2), free of cancellation, 0 for a = 0."""
    if a == 0:
        return m.mpf(0)
    return a * _log(m, u, other2)


def _log(m, u, other2):
    r = m.sqrt(u * u + other2)
    if u < 0:
        if other2 == 0:
            # on the line of an edge: the logarithm's divergent part log(other2) cancels in the
            # alternating sum, use the common representative -log|2u|
            return -m.log(-2 * u)
        return m.log(other2) - m.log(r - u)
    return m.log(u + r)


def _atan(m, num, den):
    if den == 0:
        return m.mpf(0)
    return m.atan(num / den)


def prism_sums(lo, hi, pt, order=2, m=_MP):
    """Derivatives of V(p) = int_box dv / |p - q| with respect to p, up to ``order``.

    Returns V, grad (3), hess (3x3) as mpmath numbers.  On surfaces the hessian is
    the average of both sides (atan of 0/0 taken as 0).
    """
    P = [m.mpf(c) for c in pt]
    X = [[m.mpf(lo[i]) - P[i], m.mpf(hi[i]) - P[i]] for i in range(3)]
    V = m.mpf(0)
    g = [m.mpf(0)] * 3
    h = [[m.mpf(0)] * 3 for _ in range(3)]
    for i in range(2):
        for j in range(2):
            for k in range(2):
                s = 1 if (i + j + k) % 2 else -1
                x, y, z = X[0][i], X[1][j], X[2][k]
                x2, y2, z2 = x * x, y * y, z * z
                r = m.sqrt(x2 + y2 + z2)
                Lx, Ly, Lz = (_log(m, x, y2 + z2) if (x2 or y2 or z2) else m.mpf(0),
                              _log(m, y, x2 + z2) if (x2 or y2 or z2) else m.mpf(0),
                              _log(m, z, x2 + y2) if (x2 or y2 or z2) else m.mpf(0))
                Ax, Ay, Az = _atan(m, y * z, x * r), _atan(m, x * z, y * r), _atan(m, x * y, z * r)
                if order >= 0:
                    V += s * (x * y * Lz + y * z * Lx + x * z * Ly - (x2 * Ax + y2 * Ay + z2 * Az) / 2)
                # d/dp = -d/dx
                g[0] -= s * (y * Lz + z * Ly - x * Ax)
                g[1] -= s * (x * Lz + z * Lx - y * Ay)
                g[2] -= s * (x * Ly + y * Lx - z * Az)
                h[0][0] -= s * Ax
                h[1][1] -= s * Ay
                h[2][2] -= s * Az
                h[0][1] += s * Lz
                h[0][2] += s * Ly
                h[1][2] += s * Lx
    h[1][0], h[2][0], h[2][1] = h[0][1], h[0][2], h[1][2]
    return V, g, h


def prism_float(lo, hi, pt):
    V, g, h = prism_sums(lo, hi, pt)
    return float(V), np.array([float(c) for c in g]), np.array([[float(c) for c in row] for row in h])


def prism_third(lo, hi, pt, size):
    """Third derivatives d_k d_i d_j V by central differences at 70 digits."""
    m = _MP2
    step = m.mpf(size) * m.mpf(10) ** -22
    out = np.zeros((3, 3, 3))
    for k in range(3):
        p1 = [m.mpf(c) for c in pt]
        p2 = [m.mpf(c) for c in pt]
        p1[k] += step
        p2[k] -= step
        h1 = prism_sums(lo, hi, p1, m=m)[2]
        h2 = prism_sums(lo, hi, p2, m=m)[2]
        for i in range(3):
            for j in range(3):
                out[k, i, j] = float((h1[i][j] - h2[i][j]) / (2 * step))
    return out


# ------------------------------------------------------------------ helpers
def norm(v):
    return np.sqrt(np.sum(np.asarray(v) ** 2, axis=-1))


def gauss(n):
    return np.polynomial.legendre.leggauss(n)


def prism_error(lo, hi, pt, C=32.0):
    """Rounding bounds (V, grad (3), hess (3,3), kappa) of a double precision evaluation.

    kappa is the worst conditioning r/(u + r) of the logarithms' arguments.
    """
    ev, eg, eh = 0.0, np.zeros(3), np.zeros((3, 3))
    worst = 1.0
    for i in range(2):
        for j in range(2):
            for k in range(2):
                d = [((lo, hi)[n][a]) - pt[a] for a, n in enumerate((i, j, k))]
                r = math.sqrt(sum(c * c for c in d))
                L = []
                for a in range(3):
                    o2 = sum(d[b] * d[b] for b in range(3) if b != a)
                    u = d[a]
                    if r == 0:
                        L.append(1.0)
                        continue
                    kap = 1.0
                    if u < 0 and o2 > 0:
                        kap = max(1.0, 2 * r * r / o2)
                    worst = max(worst, kap)
                    arg = (u + r) if u >= 0 else max(o2 / (r - u), 1e-300)
                    L.append(1.0 + abs(math.log(arg)) + kap if o2 > 0 or u > 0 else 1.0 + abs(math.log(2 * abs(u))))
                x, y, z = map(abs, d)
                ev += x * y * L[2] + y * z * L[0] + x * z * L[1] + (x * x + y * y + z * z)
                eg += [y * L[2] + z * L[1] + 2 * x, x * L[2] + z * L[0] + 2 * y, x * L[1] + y * L[0] + 2 * z]
                eh += np.array([[2, L[2], L[1]], [L[2], 2, L[0]], [L[1], L[0], 2]])
    f = C * EPS
    return f * ev, f * eg, f * eh, worst


def third_error(lo, hi, pt, C=64.0):
    """Rounding bound of the third derivatives (all components)."""
    e = 0.0
    for i in range(2):
        for j in range(2):
            for k in range(2):
                d = [((lo, hi)[n][a]) - pt[a] for a, n in enumerate((i, j, k))]
                r = math.sqrt(sum(c * c for c in d))
                if r == 0:
                    continue
                e += 1 / r
                for a in range(3):
                    for b in range(3):
                        if a != b:
                            v = d[a] ** 2 + d[b] ** 2
                            c = [q for q in range(3) if q not in (a, b)][0]
                            if v > 0:
                                e += (abs(d[a] * d[c]) + abs(d[b] * d[c])) / (v * r)
    return C * EPS * e


# ------------------------------------------------------------------ static magnetics
def dipole_b(m, mu, d):
    r = norm(d)[..., None]
    n = d / r
    return mu / (4 * math.pi) * (3 * np.sum(n * m, axis=-1, keepdims=True) * n - m) / r ** 3


def dipole_a(m, mu, d):
    r = norm(d)[..., None]
    return mu / (4 * math.pi) * np.cross(m, d) / r ** 3


def loop_fields(a, I, mu, o, d):
    """Vector potential, flux density and rounding bounds of a circular loop at one offset d.

    Direct trapezoidal Biot-Savart sum (converges geometrically for a periodic integrand),
    rearranged so that nothing cancels near the axis.
    """
    z = float(d @ o)
    pv = d - z * o
    rho = math.sqrt(float(pv @ pv))
    s = a * a + rho * rho + z * z
    t = 2 * a * rho
    alpha2 = (a - rho) ** 2 + z * z
    beta2 = (a + rho) ** 2 + z * z
    # analyticity strip: cosh(eta) = s/t
    q = s / t if t > 0 else 1e300
    eta = math.acosh(max(q, 1.0)) if q < 1e100 else 200.0
    if eta < 2e-3:
        return near_wire(a, I, mu, o, pv, rho, z, alpha2, beta2)
    n = int(45 / eta) + 60
    ph = 2 * math.pi * (np.arange(n) + 0.5) / n
    c = np.cos(ph)
    u = alpha2 + t * (1 - c)
    ru = np.sqrt(u)
    w = 2 * math.pi / n
    k = mu * I * a / (4 * math.pi)
    rs = math.sqrt(s)
    A = k * w * np.sum(c * (t * c) / (rs * ru * (rs + ru)))
    diff = t * c * (s * s + s * u + u * u) / (s ** 1.5 + ru ** 3) / (ru ** 3 * s ** 1.5)
    Br = k * z * w * np.sum(c * diff)
    Bz = k * w * np.sum((a - rho * c) / ru ** 3)
    rh = pv / rho if rho > 0 else np.zeros(3)
    phi = np.cross(o, rh)
    C = mu * abs(I) / math.pi
    rr = max(rho, 1e-3 * math.sqrt(a * a + z * z))
    eps = 60 * EPS
    b = math.sqrt(beta2)
    eA = C / (2 * rr * b) * beta2 * eps
    eBr = C * abs(z) / (2 * alpha2 * b * rr) * beta2 * eps
    if rho ** 2 < 5e-7 * (a * a + z * z):  # expansion about the axis, nothing cancels
        eA = eBr = 0.0
    eB = eBr + C / (2 * alpha2 * b) * beta2 * eps
    return A * phi, Br * rh + Bz * o, eA, eB, rh, Br, eBr


def near_wire(a, I, mu, o, pv, rho, z, alpha2, beta2):
    """The same by complete elliptic integrals of the complementary parameter (arithmetic-geometric mean)."""
    if alpha2 < 1e-14 * a * a:
        return None
    m1 = alpha2 / beta2
    x, y, c2, p, tot = 1.0, math.sqrt(m1), 1 - m1, 0.5, 0.0
    for _ in range(40):
        tot += p * c2
        if p * c2 < 1e-26:
            break
        x, y, c2, p = (x + y) / 2, math.sqrt(x * y), ((x - y) / 2) ** 2, 2 * p
    K = math.pi / (2 * x)
    E = K * (1 - tot)
    s = a * a + rho * rho + z * z
    b = math.sqrt(beta2)
    C = mu * I / math.pi
    A = C / (2 * rho * b) * (s * K - beta2 * E)
    Br = C * z / (2 * alpha2 * b * rho) * (s * E - alpha2 * K)
    Bz = C / (2 * alpha2 * b) * (((a - rho) * (a + rho) - z * z) * E + alpha2 * K)
    rh = pv / rho
    eK = 8 * EPS / m1  # of K from a rounded parameter
    eps = 100 * EPS
    C = abs(C)
    eA = C / (2 * rho * b) * (beta2 * eps + s * eK)
    eBr = C * abs(z) / (2 * alpha2 * b * rho) * (beta2 * eps + alpha2 * eK)
    eB = eBr + C / (2 * alpha2 * b) * (beta2 * eps + alpha2 * eK)
    return A * np.cross(o, rh), Br * rh + Bz * o, eA, eB, rh, Br, eBr


def segment_fields(p0, p1, I, mu, x):
    """Straight current segment (compact Hanson-Hirshman forms), with error scales of the usual ones."""
    r0v, r1v = x - p0, x - p1
    L = float(norm(p1 - p0))
    e = (p1 - p0) / L
    r0, r1 = float(norm(r0v)), float(norm(r1v))
    k = mu * I / (4 * math.pi)
    x0, x1 = float(r0v @ e), float(r1v @ e)
    perp = r0v - x0 * e
    rho = float(norm(perp))
    A = k * 2 * math.atanh(min(L / (r0 + r1), 1 - 1e-16)) * e
    if x0 * x1 < 0 or min(abs(x0), abs(x1)) == 0:
        # between the ends: (cos a0 - cos a1)/rho is stable
        B = k * np.cross(e, perp) / rho ** 2 * (x0 / r0 - x1 / r1) if min(rho, r0, r1) > 0 else np.full(3, np.nan)
    else:
        B = k * np.cross(e, perp) * L * (x0 + x1) / (r0 * r1 * (x1 * r0 + x0 * r1))
    return A, B, rho, x0, x1
