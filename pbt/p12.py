"""Transient and loop responses over a half-space."""
import math

import libdlf
import mpmath as mp
import numpy as np
from geoana.em import fdem, tdem
from geoana.em.tdem import reference
from geoana.em.fdem import simple_functions as fsf
from geoana.em.tdem import simple_functions as tsf

from . import gen, layers
from .core import Discard, close, facet, fail, truth
from .gen import MU0, st

FACETS = []
ASSUMPTIONS = [
    "Step-off at t = 0; z up, so the radial field of a vertical dipole is positive outward; the reference formulas for the "
    "time derivatives carry the opposite sign (step-on) as documented by their equation numbers.",
    "A permeability other than mu_0 is that of air and earth alike, the case the closed forms are for.",
    "Rounding of the closed forms at late time is allowed for: 1e-13 of the individual terms.",
]
SP = math.sqrt(math.pi)


def tcase(extra=None, u=gen.logf(1e-2, 8.0)):
    return st.fixed_dictionaries(dict(
        r=gen.logf(0.1, 1e3), az=st.lists(st.one_of(st.sampled_from([0.0, 0.5, 1.0, 1.5]), gen.uni(0, 2)), min_size=1, max_size=3),
        rf=st.lists(gen.uni(0.5, 2.0), min_size=3, max_size=3), t=gen.logf(1e-7, 1e1), tf=st.lists(gen.uni(0.5, 2.0), min_size=1, max_size=3),
        scalar=st.booleans(), u=u, mu=gen.mu(), m=gen.nz_strength(), loc=st.one_of(gen.vec(gen.unit_coord(), 2), gen.vec(gen.unit_coord(), 2), gen.remote(2)), locz=st.sampled_from([0.0, 0.0, 1.0]),
        cols=st.integers(2, 3), **(extra or {})))


def setup(c):
    """sigma chosen such that theta*r = u at time t."""
    sigma = 4 * c["t"] * c["u"] ** 2 / (c["mu"] * c["r"] ** 2)
    t = c["t"] if c["scalar"] else np.array(c["tf"]) * c["t"]
    rr = np.array(c["rf"])[:len(c["az"])] * c["r"]
    rr[0] = c["r"]
    ph = math.pi * np.array(c["az"])
    d = np.stack([rr * np.cos(ph), rr * np.sin(ph)], -1)
    loc = np.array([c["loc"][0] * c["r"], c["loc"][1] * c["r"], c["locz"]])
    d = (d + loc[:2]) - loc[:2]  # as rounded
    return sigma, t, d, loc


def exact(m, sigma, mu, t, r):
    """h_r, h_z and time derivatives with 40 digits, and the sizes of the terms that cancel in double precision."""
    with mp.workdps(40):
        m_, s, mu_, t_, r_ = (mp.mpf(float(x)) for x in (m, sigma, mu, t, r))
        u = mp.sqrt(mu_ * s / (4 * t_)) * r_
        g, e, sp = mp.exp(-u * u), mp.erf(u), mp.sqrt(mp.pi)
        fac = m_ / (4 * mp.pi * r_ ** 3)
        hz = fac * ((9 / (2 * u * u) - 1) * e - (9 / u + 4 * u) / sp * g)
        x = u * u / 2
        ex = mp.exp(-x)
        i0, i1, i2 = (mp.besseli(n, x) * ex for n in range(3))
        hr = fac * 2 * u * u * (i1 - i2)
        # derivatives through du/dt = -u/(2t)
        dhz_du = fac * (-9 / u ** 3 * e + (9 / (2 * u * u) - 1) * 2 / sp * g + 9 / u ** 2 / sp * g - 4 / sp * g + 2 * u * (9 / u + 4 * u) / sp * g)
        # d/dx [e^-x (I1 - I2)] = e^-x (I1' - I2' - I1 + I2)
        d1 = i0 - i1 / x
        d2 = i1 - 2 * i2 / x
        dhr_du = fac * (4 * u * (i1 - i2) + 2 * u * u * u * (d1 - d2 - i1 + i2))
        k = -u / (2 * t_)
        uf = float(u)
        a = abs(float(fac))
        sz = a * (10 / uf ** 2 * min(uf, 1) + 4 * uf * math.exp(-min(uf * uf, 700)))
        szt = a / t * (10 / uf ** 2 * min(uf, 1) + (4 * uf ** 3 + 6 * uf + 9 / uf) * math.exp(-min(uf * uf, 700)))
        srt = a * 2 * uf ** 2 / t * (3 + uf ** 2 + 4 / uf ** 2) * float(i1 + i0 * min(1, uf ** 2 + 1))
        return float(hr), float(hz), float(k * dhr_du), float(k * dhz_du), a * 2 * uf * uf * float(i1), sz, srt, szt


@facet(FACETS, tcase(), 2000)
def dipole(c, ctx):
    """Dipole object, plain functions and reference formulas against the closed form in extended precision."""
    sigma, t, d, loc = setup(c)
    m, mu = c["m"], c["mu"]
    tt = np.atleast_1d(t)
    n = len(d)
    want, dwant = np.zeros((len(tt), n, 3)), np.zeros((len(tt), n, 3))
    tol, dtol = np.zeros_like(want), np.zeros_like(want)
    for i, ti in enumerate(tt):
        for j, p in enumerate(d):
            r = math.hypot(p[0], p[1])
            hr, hz, dr, dz, sr, sz, srt, szt = exact(m, sigma, mu, ti, r)
            nx, ny = p / r
            want[i, j], dwant[i, j] = [nx * hr, ny * hr, hz], [nx * dr, ny * dr, dz]
            tol[i, j] = 1e-13 * np.array([sr, sr, sz])
            dtol[i, j] = 1e-13 * np.array([srt, srt, szt])
            th = tdem.theta(ti, sigma, mu)
            close("reference hz", reference.hz_from_vert_4_69a(m, th, r), hz, 1e-11, 1e-13 * sz)
            close("reference hp", -reference.hp_from_vert_4_72(m, th, r), hr, 1e-11, 1e-13 * sr)
            close("reference dhz", -reference.dhz_from_vert_4_70(m, th, r, sigma, mu), dz, 1e-11, 1e-13 * szt)
            if (th * r) ** 2 < 1000:
                close("reference dhp", -reference.dhp_from_vert_4_74(m, th, r, ti), dr, 1e-11, 1e-13 * srt)
    if c["scalar"]:
        want, dwant, tol, dtol = want[0], dwant[0], tol[0], dtol[0]
    ctx.label("scalar" if c["scalar"] else "array", f"theta r ~ 1e{round(math.log10(c['u']))}")
    xy = d + loc[:2]
    dd = d
    if c["cols"] == 3:
        xy = np.concatenate([xy, np.full((n, 1), 0.7)], 1)
        dd = np.concatenate([d, np.full((n, 1), 0.7)], 1)
    s = tdem.VerticalMagneticDipoleHalfSpace(time=t, sigma=sigma, mu=mu, moment=m, location=loc)
    # the location shift rounds the offsets
    sl = min(np.abs(loc[:2]).max() / np.min(np.linalg.norm(d, axis=1)), 30.0) * 1e-14
    R, D = 1e-11 + sl, 1e-11 + sl
    tn = np.max(np.abs(want), axis=-1, keepdims=True) * sl * 20 + tol
    dn = np.max(np.abs(dwant), axis=-1, keepdims=True) * sl * 20 + dtol
    close("magnetic_field", s.magnetic_field(xy), want, R, tn)
    close("magnetic_flux_density", s.magnetic_flux_density(xy), mu * want, R, mu * tn)
    close("magnetic_field_time_derivative", s.magnetic_field_time_derivative(xy), dwant, D, dn)
    close("magnetic_flux_time_derivative", s.magnetic_flux_time_derivative(xy), mu * dwant, D, mu * dn)
    close("function h", tsf.magnetic_field_vertical_magnetic_dipole(t, dd, sigma, mu, m), want, 1e-11, tol)
    close("function b", tsf.magnetic_flux_vertical_magnetic_dipole(t, dd, sigma, mu, m), mu * want, 1e-11, mu * tol)
    close("function dh", tsf.magnetic_field_time_deriv_magnetic_dipole(t, dd, sigma, mu, m), dwant, 1e-11, dtol)
    close("function db", tsf.magnetic_flux_time_deriv_magnetic_dipole(t, dd, sigma, mu, m), mu * dwant, 1e-11, mu * dtol)


@facet(FACETS, tcase(u=gen.logf(0.3, 8.0)), 1000)
def derivatives(c, ctx):
    """Differences in time of the returned field equal the returned derivative."""
    sigma, t, d, loc = setup(dict(c, scalar=True))
    h = 2e-3 * t

    def s(q):
        return tdem.VerticalMagneticDipoleHalfSpace(time=q, sigma=sigma, mu=c["mu"], moment=c["m"], location=loc)
    xy = d + loc[:2]

    def fd(f):
        return (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)
    r = np.linalg.norm(d, axis=1)[:, None]
    unit = abs(c["m"]) / (4 * math.pi * r ** 3) / t
    close("dH/dt", s(t).magnetic_field_time_derivative(xy), fd(lambda q: s(q).magnetic_field(xy)), 0, 1e-7 * unit)
    close("dB/dt", s(t).magnetic_flux_time_derivative(xy), fd(lambda q: s(q).magnetic_flux_density(xy)), 0, 1e-7 * unit * c["mu"])
    a = c["r"]
    kw = dict(sigma=sigma, mu=c["mu"], radius=a, current=c["m"], turns=2)
    k = abs(c["m"]) / a / t
    close("loop dH/dt", tsf.vertical_magnetic_field_time_deriv_horizontal_loop(t, **kw),
          fd(lambda q: tsf.vertical_magnetic_field_horizontal_loop(q, **kw)), 0, 1e-7 * k)
    close("loop dB/dt", tsf.vertical_magnetic_flux_time_deriv_horizontal_loop(t, **kw),
          fd(lambda q: tsf.vertical_magnetic_flux_horizontal_loop(q, **kw)), 0, 1e-7 * k * c["mu"])


_FT = None


def cosine(F, t):
    """int_0^inf F(w) cos(wt) dw for t > 0 with a 101 point filter (complex F gives both parts)."""
    global _FT
    if _FT is None:
        _FT = libdlf.fourier.key_101_2012()
    base, fsin, fcos = _FT
    w = base / t
    return F(w) @ fcos / t


@facet(FACETS, tcase(u=gen.logf(0.3, 4.0)), 1200)
def transforms(c, ctx):
    """The transient dipole and loop fields are cosine transforms of the library's harmonic ones."""
    c = dict(c, scalar=True, mu=MU0)
    sigma, t, d, loc = setup(c)
    d = d[:1]
    s = tdem.VerticalMagneticDipoleHalfSpace(time=t, sigma=sigma, moment=c["m"], location=loc * [1, 1, 0])
    h = s.magnetic_field(d + loc[:2])[0]

    def F(w):
        q = fdem.MagneticDipoleHalfSpace(w / (2 * math.pi), sigma=sigma, quasistatic=True, moment=c["m"], orientation="Z", location=loc * [1, 1, 0])
        return (q.magnetic_field(d + loc[:2]).reshape(len(w), 3).imag / w[:, None]).T
    # step-off: h(t) = -(2/pi) int Im H(w)/w cos(wt) dw
    got = -2 / math.pi * cosine(F, t)
    r = float(np.linalg.norm(d))
    unit = abs(c["m"]) / (4 * math.pi * r ** 3)
    if not np.all(np.isfinite(got)):
        raise Discard  # KF3 of P10
    close("dipole", h, got, 0, 2e-5 * np.linalg.norm(h) + 1e-6 * unit)

    def G(w):
        return fsf.vertical_magnetic_field_horizontal_loop(w / (2 * math.pi), sigma=sigma, mu=MU0, radius=c["r"], current=c["m"], turns=3, secondary=True).imag / w
    got = -2 / math.pi * cosine(G, t)
    hl = tsf.vertical_magnetic_field_horizontal_loop(t, sigma=sigma, mu=MU0, radius=c["r"], current=c["m"], turns=3)
    close("loop", hl, got, 2e-5, 1e-6 * 3 * abs(c["m"]) / (2 * c["r"]))


@facet(FACETS, st.fixed_dictionaries(dict(f=st.one_of(gen.logf(1e-2, 1e5), st.lists(gen.logf(1e-2, 1e5), min_size=1, max_size=4)), ka=gen.logf(0.02, 30.0), a=gen.logf(0.1, 1e3),
                                          mu=gen.mu(), I=gen.nz_strength(), n=st.integers(1, 7), sec=st.booleans(), flag=st.integers(0, 3))), 1500)
def harmonic_loop(c, ctx):
    """Harmonic loop centre field against the integral of the reflection coefficient over wavenumbers."""
    f = np.array(c["f"], float) if isinstance(c["f"], list) else c["f"]
    ff = np.atleast_1d(f)
    sigma = c["ka"] ** 2 / (2 * math.pi * ff[0] * c["mu"] * c["a"] ** 2)
    k2 = 1j * 2 * math.pi * ff * c["mu"] * sigma
    ka = np.sqrt(np.abs(k2)) * c["a"]
    if np.any(ka > 100) or np.any(ka < 5e-3):
        raise Discard

    def g(lam):
        u = np.sqrt(lam[None] ** 2 + k2[:, None])
        return -k2[:, None] / (lam[None] + u) ** 2 * lam[None]
    I, err = layers.hankel(g, c["a"], 1)
    want = c["n"] * c["I"] * c["a"] / 2 * I
    err = abs(c["n"] * c["I"] * c["a"] / 2) * err
    p = c["n"] * c["I"] / (2 * c["a"])
    if not c["sec"]:
        want = want + p
    tol = 20 * err + 1e-9 * np.abs(want) + 1e-13 * abs(p) * (1 + 1 / ka ** 2)
    if np.ndim(f) == 0:
        want, tol = want[0], tol[0]
    kw = dict(mu=c["mu"], radius=c["a"], current=c["I"], turns=c["n"], secondary=[bool, int, np.bool_, float][c.get("flag", 0)](c["sec"]))
    ctx.label("secondary" if c["sec"] else "total")
    close("loop field", fsf.vertical_magnetic_field_horizontal_loop(f, sigma, **kw), want, 0, tol)
    close("loop flux", fsf.vertical_magnetic_flux_horizontal_loop(f, sigma, **kw), c["mu"] * want, 0, c["mu"] * tol)


@facet(FACETS, tcase(dict(n=st.integers(1, 9)), u=gen.logf(0.02, 30.0)), 1500)
def transient_loop(c, ctx):
    """Transient loop: a loop is the sum of the dipoles it encloses; early and late time; scaling."""
    sigma, t, d, loc = setup(c)
    a, mu, I, n = c["r"], c["mu"], c["m"], c["n"]
    tt = np.atleast_1d(t)
    kw = dict(sigma=sigma, mu=mu, radius=a, current=I, turns=n)
    h = np.asarray(tsf.vertical_magnetic_field_horizontal_loop(t, **kw))
    if h.shape != np.shape(t):
        fail(f"loop field has shape {h.shape} for times of shape {np.shape(t)}")
    close("flux", tsf.vertical_magnetic_flux_horizontal_loop(t, **kw), mu * h, 1e-14)
    with mp.workdps(40):
        for i, ti in enumerate(tt):
            ta = mp.sqrt(mp.mpf(mu) * mp.mpf(sigma) / (4 * mp.mpf(float(ti)))) * mp.mpf(a)
            x = float(ta)
            # h = I/(2a) * integral of the enclosed dipoles, evaluated as a series/closed form in 40 digits
            e, g = mp.erf(ta), mp.exp(-ta * ta)
            q = 3 / (mp.sqrt(mp.pi) * ta) * g + (1 - 3 / (2 * ta ** 2)) * e
            dq = (3 * e - 2 * ta / mp.sqrt(mp.pi) * (3 + 2 * ta ** 2) * g)
            want = n * I / (2 * a) * float(q)
            # rounding: 3/(2 x^2) erf(x) ~ 3/x
            close("loop field", np.atleast_1d(h)[i], want, 1e-11, 1e-13 * abs(n * I / (2 * a)) * (1 + 3 / x))
            db = -n * I / (sigma * a ** 3) * float(dq)
            got = tsf.vertical_magnetic_flux_time_deriv_horizontal_loop(float(ti), **kw)
            close("loop flux derivative", got, db, 1e-11, 1e-13 * abs(n * I / (sigma * a ** 3)) * 6)
            got = tsf.vertical_magnetic_field_time_deriv_horizontal_loop(float(ti), **kw)
            close("loop field derivative", got, db / mu, 1e-11, 1e-13 * abs(n * I / (sigma * a ** 3)) * 6 / mu)
            if x > 6:
                close("early time", np.atleast_1d(h)[i], n * I / (2 * a) * (1 - 1.5 / x ** 2), 1e-9)
            if x < 0.1:
                close("late time", np.atleast_1d(h)[i], n * I / (2 * a) * 8 * x ** 3 / (15 * SP), 0.02,
                      1e-13 * abs(n * I / (2 * a)) * (1 + 3 / x))  # decays as t^-3/2
    # difference of two loops = dipoles in the annulus, by Gauss quadrature over the library's dipole field
    t0 = float(tt[0])
    u = math.sqrt(mu * sigma / (4 * t0)) * a
    if 0.3 < u < 8:
        gx, gw = np.polynomial.legendre.leggauss(40)
        r = a * (0.75 + 0.25 * gx)
        hz = tsf.magnetic_field_vertical_magnetic_dipole(t0, np.stack([r, 0 * r], -1), sigma, mu, 1.0)[:, 2]
        ann = -I * n * float(np.sum(gw * 0.25 * a * hz * 2 * math.pi * r))
        k2 = dict(kw, radius=a / 2)
        diff = tsf.vertical_magnetic_field_horizontal_loop(t0, **k2) - tsf.vertical_magnetic_field_horizontal_loop(t0, **kw)
        close("annulus of dipoles", diff, ann, 1e-8, 1e-9 * abs(n * I / a))
        ctx.label("annulus")


@facet(FACETS, tcase(u=gen.logf(30.0, 300.0)), 500)
def early_time(c, ctx):
    """At early time the transient dipole field tends to the static one of a perfectly conducting moment in time: -m/(4 pi r^3) in z."""
    sigma, t, d, loc = setup(dict(c, scalar=True))
    s = tdem.VerticalMagneticDipoleHalfSpace(time=t, sigma=sigma, mu=c["mu"], moment=c["m"], location=loc)
    h = s.magnetic_field(d + loc[:2])
    r = np.linalg.norm(d, axis=1)
    u = math.sqrt(c["mu"] * sigma / (4 * t)) * r
    unit = c["m"] / (4 * math.pi * r ** 3)
    close("h_z at early time", h[:, 2], -unit, 0, 5 / u ** 2 * np.abs(unit))
    hr = np.sum(h[:, :2] * d, axis=1) / r
    # (I1 - I2) e^-x ~ 3/(2x) / sqrt(2 pi x), x = u^2/2
    close("h_r at early time", hr, unit * 2 * u ** 2 * 3 / u ** 2 / np.sqrt(math.pi * u ** 2), 0, 0.05 * np.abs(unit) / u * 4)
