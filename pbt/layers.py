"""Reference for layered earths: reflection coefficients and the Hankel integrals."""
import math

import mpmath as mp
import numpy as np
from scipy.special import j0, j1, jn_zeros

from .gen import MU0


def rte_np(f, lam, sig, mu, h):
    """Reflection coefficient seen from the air, recursion of interface coefficients. Shapes as rTE_forward."""
    f, lam = np.asarray(f, float), np.asarray(lam, float)
    w = (2 * math.pi * f)[:, None]
    u = [np.sqrt(lam[None, :] ** 2 + 1j * w * (np.asarray(mu)[k] * np.asarray(sig)[k])[:, None]) for k in range(len(sig))]
    y = [lam[None, :] / MU0 + 0j] + [u[k] / np.asarray(mu)[k][:, None] for k in range(len(sig))]
    R = (y[-2] - y[-1]) / (y[-2] + y[-1])
    for k in range(len(sig) - 2, -1, -1):
        e = np.exp(-2 * u[k] * h[k])
        r = (y[k] - y[k + 1]) / (y[k] + y[k + 1])
        R = (r + R * e) / (1 + r * R * e)
    return R


def rte_mp(f, lam, sig, mu, h, mu0=MU0):
    """The same for one frequency and wavenumber, mpmath numbers in and out."""
    w = 2 * mp.pi * f
    j = mp.mpc(0, 1)
    u = [mp.sqrt(lam ** 2 + j * w * m * s) for s, m in zip(sig, mu)]
    y = [lam / mp.mpf(mu0)] + [a / m for a, m in zip(u, mu)]
    R = (y[-2] - y[-1]) / (y[-2] + y[-1])
    for k in range(len(sig) - 2, -1, -1):
        e = mp.exp(-2 * u[k] * h[k])
        r = (y[k] - y[k + 1]) / (y[k] + y[k + 1])
        R = (r + R * e) / (1 + r * R * e)
    return R


_GX, _GW = np.polynomial.legendre.leggauss(20)


def _nodes(edges):
    edges = np.asarray(edges, float)
    m, d = (edges[1:] + edges[:-1]) / 2, (edges[1:] - edges[:-1]) / 2
    return m[:, None] + d[:, None] * _GX, d[:, None] * _GW


def _epsilon(S):
    """Wynn's epsilon algorithm along the last axis; returns value and error estimate."""
    prev = np.zeros(S.shape[:-1] + (S.shape[-1] + 1,), complex)
    cur = S.astype(complex)
    best, err = cur[..., -1], np.abs(cur[..., -1] - cur[..., -2])
    n = 0
    while cur.shape[-1] > 2:
        d = cur[..., 1:] - cur[..., :-1]
        with np.errstate(all="ignore"):
            new = prev[..., 1:-1] + 1 / d
        prev, cur = cur, new
        n += 1
        if n % 2 == 0:
            e = np.abs(cur[..., -1] - cur[..., -2])
            ok = np.isfinite(e) & (e < err)
            best = np.where(ok, cur[..., -1], best)
            err = np.where(ok, e, err)
    return best, err


_Z = {0: jn_zeros(0, 60), 1: jn_zeros(1, 60)}


def hankel(fun, r, nu):
    """int_0^inf fun(lam) J_nu(lam r) dlam by partition at the zeros and extrapolation."""
    z = _Z[nu]
    first = np.concatenate([[0.0], z[0] * 2.0 ** np.arange(-40, 1, 1.0)])
    edges = np.concatenate([first, z[1:]])
    x, w = _nodes(edges)
    lam = x / r
    val = fun(lam.ravel())
    bes = (j0 if nu == 0 else j1)(x)
    part = np.sum(val.reshape(val.shape[:-1] + x.shape) * bes * w, axis=-1) / r
    S = np.cumsum(part, axis=-1)[..., 40:]
    best, err = _epsilon(S)
    # where the integrand has died out extrapolation only amplifies rounding
    plain = np.abs(part[..., -1]) <= 1e-15 * np.abs(S[..., -1])
    best = np.where(plain, S[..., -1], best)
    err = np.where(plain, 1e-14 * np.max(np.abs(part), axis=-1), err)
    return best, err + 1e-14 * np.max(np.abs(part), axis=-1)


def secondary(f, sigh, mu, h, m, dx, dy, zh):
    """Secondary field (nf, 3) of moment vector m; zh: sum of heights. Returns field and an error bound (nf,)."""
    r = math.hypot(dx, dy)
    rinf = (mu[0] - MU0) / (mu[0] + MU0)  # coefficient at infinite wavenumber, per frequency

    def g(lam):
        return (rte_np(f, lam, sigh, mu, h) - rinf[:, None]) * np.exp(-lam * zh)
    I0, e0 = hankel(lambda l: g(l) * l ** 2, r, 0)
    I1, e1 = hankel(lambda l: g(l) * l, r, 1)
    I2, e2 = hankel(lambda l: g(l) * l ** 2, r, 1)
    # the subtracted part is an image dipole: S = 1/R
    R = math.hypot(r, zh)
    I0 = I0 + rinf * (2 * zh ** 2 - r ** 2) / R ** 5
    I1 = I1 + rinf * r / R ** 3
    I2 = I2 + rinf * 3 * r * zh / R ** 5
    n = np.array([dx / r, dy / r])
    nf = len(f)
    D = np.zeros((nf, 3, 3), complex)
    srr = -I0 + I1 / r
    D[:, :2, :2] = srr[:, None, None] * np.outer(n, n) + (-I1 / r)[:, None, None] * (np.eye(2) - np.outer(n, n))
    D[:, :2, 2] = I2[:, None] * n
    D[:, 2, :2] = I2[:, None] * n
    D[:, 2, 2] = I0
    mm = np.array([-m[0], -m[1], m[2]])
    return D @ mm / (4 * math.pi), (e0 + e1 / r + e2) * np.linalg.norm(m) / (4 * math.pi)


def primary(m, d):
    R = np.sqrt(np.sum(d ** 2))
    return (3 * d * np.dot(m, d) / R ** 5 - m / R ** 3) / (4 * math.pi)
