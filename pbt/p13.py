"""Scalar electromagnetic quantities."""
import math

import numpy as np
from geoana.em import fdem, tdem

from . import gen
from .core import close, facet, fail, truth
from .gen import EPS0, MU0, st

FACETS = []
ASSUMPTIONS = [
    "exp(+i omega t): k^2 = omega^2 mu eps - i omega mu sigma with Im k <= 0, admittivity sigma + i omega eps; defaults are mu_0, eps_0, "
    "displacement currents on for wavenumber and admittivity, off for the skin depth function.",
    "Known findings KF2 (skin depth with displacement currents) and KF4 (admittivity of the layered object): accepted exact or exactly as the "
    "library computes them today, nothing else.",
]


@st.composite
def values(draw, nonneg=False):
    """Scalars or arrays of one broadcastable shape family for frequency, sigma, mu, epsilon."""
    form = draw(st.sampled_from(["scalar", "vector", "outer", "matrix"]))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))

    def take(e, shape):
        if shape == ():
            return draw(e)
        if len(shape) == 1:
            return [draw(e) for _ in range(shape[0])]
        return [take(e, shape[1:]) for _ in range(shape[0])]
    shapes = {"scalar": [()] * 4, "vector": [(n,), (n,), (), ()], "outer": [(n, 1), (1, m), (1, 1), (m,)], "matrix": [(n, m)] * 4}[form]
    return dict(form=form, f=take(gen.logf(1e-4, 1e10), shapes[0]), sigma=take(gen.logf(1e-8, 1e6), shapes[1]),
                mu=take(gen.mu(), shapes[2]), eps=take(st.one_of(st.just(EPS0), gen.logf(1e-12, 1e-8)), shapes[3]), qs=draw(st.booleans()),
                defaults=draw(st.booleans()), np0=draw(st.booleans()))


def arrays(c):
    out = []
    for k in ("f", "sigma", "mu", "eps"):
        v = c[k]
        out.append(np.array(v, float) if isinstance(v, list) or c["np0"] else v)
    return out


def loss_root(w, sigma, mu, eps):
    """Attenuation constant Im(-k) for the full wave equation, cancellation free."""
    t = sigma / (w * eps)
    return w * np.sqrt(mu * eps / 2) * t / np.sqrt(np.sqrt(1 + t * t) + 1)


def recorded_skin(w, sigma, mu, eps):
    t = sigma / (w * eps)
    a = np.sqrt(mu * eps / 2) * t / np.sqrt(np.sqrt(1 + t * t) + 1) / w
    # rounding of sqrt(1+t^2) - 1
    return a, 1e-12 + 4e-16 * (1 + 1 / (t * t))


@facet(FACETS, values(), 4000)
def harmonic_functions(c, ctx):
    """omega, wavenumber, skin_depth and sigma_hat functions."""
    f, s, mu, e = arrays(c)
    w = 2 * math.pi * np.asarray(f)
    close("omega", fdem.omega(f), w, 1e-15)
    kw = {} if c["defaults"] else dict(mu=mu, epsilon=e)
    if c["defaults"]:
        mu, e = MU0, EPS0
    ctx.label(c["form"], "defaults" if c["defaults"] else "given", "quasistatic" if c["qs"] else "full")
    k = np.asarray(fdem.wavenumber(f, s, quasistatic=c["qs"], **kw))
    k2 = -1j * w * mu * s + (0 if c["qs"] else w ** 2 * mu * e + 0 * s)
    close("wavenumber squared", k ** 2, k2, 1e-13)
    truth("outgoing decaying root", np.all(k.real >= 0) and np.all(k.imag <= 0), repr(k))
    att = np.sqrt(w * mu * s / 2) if c["qs"] else loss_root(w, s, mu, e)
    sk = np.asarray(fdem.skin_depth(f, s, quasistatic=c["qs"], **kw))
    if c["qs"]:
        close("skin depth", sk, 1 / att, 1e-13)
        close("skin depth is the decay length", -k.imag * sk, np.ones(k.shape), 1e-13)
        if c["defaults"] or True:
            close("quasistatic is the default of skin_depth", fdem.skin_depth(f, s, **kw), sk, 0)
    else:
        good = np.broadcast_to(np.abs(sk * att - 1) < 1e-9 + 4e-16 * (1 + (w * e / s) ** 2), sk.shape)
        if sk.shape != k.shape:
            fail(f"skin_depth: shape {sk.shape}, expected {k.shape}")
        if not np.all(good):
            want, r = recorded_skin(w, s, mu, e)
            close("skin depth with displacement currents (neither exact nor as recorded in KF2)", sk, want, r)
            ctx.known_finding("KF2", "skin_depth(quasistatic=False)")
    sh = np.asarray(fdem.sigma_hat(f, s, quasistatic=c["qs"], **({} if c["defaults"] else dict(epsilon=e))))
    # without displacement currents the frequency does not enter
    want = np.asarray(s) if c["qs"] else s + 1j * w * e
    if c["qs"]:
        close("admittivity", np.broadcast_to(sh, np.broadcast(sh, want).shape), np.broadcast_to(want, np.broadcast(sh, want).shape), 1e-14)
    else:
        close("admittivity", sh, want, 1e-14)
    close("k^2 = -i omega mu sigma_hat", k ** 2, -1j * w * mu * sh, 1e-13)


def obj_case():
    return st.fixed_dictionaries(dict(
        cls=st.sampled_from(["ElectricDipoleWholeSpace", "MagneticDipoleWholeSpace", "HarmonicPlaneWave", "MagneticDipoleHalfSpace"]),
        f=st.one_of(gen.logf(1e-4, 1e10), st.lists(gen.logf(1e-3, 1e9), min_size=1, max_size=4)), sigma=gen.logf(1e-8, 1e6), mu=gen.mu(),
        eps=gen.epsilon(), qs=st.sampled_from([True, False, 1, 0]), rho=st.booleans(), reassign=st.booleans()))


@facet(FACETS, obj_case(), 3000)
def harmonic_objects(c, ctx):
    """omega, wavenumber, skin_depth and sigma_hat of harmonic sources."""
    cls = getattr(fdem, c["cls"])
    if c["reassign"]:
        o = cls(frequency=3.0, sigma=7.0)
        o.frequency, o.sigma, o.mu, o.epsilon, o.quasistatic = c["f"], c["sigma"], c["mu"], c["eps"], c["qs"]
    else:
        o = cls(frequency=c["f"], sigma=c["sigma"], mu=c["mu"], epsilon=c["eps"], quasistatic=c["qs"])
    if c["rho"]:
        o.rho = 1 / c["sigma"]
    f, s, mu, e = np.array(c["f"], float), c["sigma"], c["mu"], c["eps"]
    w = 2 * math.pi * f
    ctx.label(c["cls"], "quasistatic" if c["qs"] else "full")
    close("omega", o.omega, w, 1e-14)
    close("rho", o.rho, 1 / s, 1e-14)
    k = np.asarray(o.wavenumber)
    k2 = -1j * w * mu * s + (0 if c["qs"] else w ** 2 * mu * e)
    close("wavenumber squared", k ** 2, k2, 1e-13)
    truth("decaying root", np.all(k.real >= 0) and np.all(k.imag <= 0), repr(k))
    sh = np.asarray(o.sigma_hat)
    want = s if c["qs"] else s + 1j * w * e
    close("sigma_hat", np.broadcast_to(sh, w.shape), np.broadcast_to(want, w.shape), 1e-13)
    if not c["qs"] and e and sh.shape != w.shape:
        fail(f"sigma_hat: shape {sh.shape}, expected {w.shape}")
    sk = np.asarray(o.skin_depth)
    if sk.shape != w.shape:
        fail(f"skin_depth: shape {sk.shape}, expected {w.shape}")
    if c["qs"]:
        close("skin depth", sk, np.sqrt(2 / (w * mu * s)), 1e-13)
    elif e:
        good = np.abs(sk * loss_root(w, s, mu, e) - 1) < 1e-9 + 4e-16 * (1 + (w * e / s) ** 2)
        if not np.all(good):
            want, r = recorded_skin(w, s, mu, e)
            close("skin depth with displacement currents (neither exact nor as recorded in KF2)", sk, want, r)
            ctx.known_finding("KF2", "skin_depth of an object with quasistatic=False")


@facet(FACETS, st.fixed_dictionaries(dict(f=st.lists(gen.logf(1e-1, 1e9), min_size=1, max_size=3), sigma=st.lists(gen.sigma(), min_size=1, max_size=3),
                                          eps=gen.logf(1.0, 80.0), qs=st.booleans())), 300)
def layered_admittivity(c, ctx):
    """sigma_hat of the layered object, (n_layer, n_frequency)."""
    f, s = np.array(c["f"]), np.array(c["sigma"])
    e = max(c["eps"] * EPS0, EPS0)
    o = fdem.MagneticDipoleLayeredHalfSpace(f, [1.0] * (len(s) - 1), sigma=s, epsilon=e, quasistatic=c["qs"])
    want = np.repeat(s[:, None], len(f), 1) + (0 if c["qs"] else 1j * 2 * math.pi * f[None] * e)
    S = np.repeat(s[:, None], len(f), 1) + 0j
    try:
        recorded = (S if c["qs"] else S + 1j * 2 * math.pi * f[:, None] * e).T
    except ValueError:
        recorded = None
    try:
        got = np.asarray(o.sigma_hat)
    except ValueError:
        if recorded is not None:
            raise
        ctx.known_finding("KF4", "sigma_hat of the layered object raises")
        return
    if got.shape == want.shape and np.allclose(got, want, rtol=1e-12, atol=0):
        return
    if recorded is None:
        fail(f"layered sigma_hat: {got!r}, expected {want!r}")
    close("layered sigma_hat (neither exact nor as recorded in KF4)", got, recorded, 1e-12)
    ctx.known_finding("KF4", "sigma_hat of the layered object")


@st.composite
def tvalues(draw):
    form = draw(st.sampled_from(["scalar", "vector", "outer"]))
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    t = st.one_of(gen.logf(1e-9, 1e4), gen.logf(1e-18, 1e9))
    s = gen.logf(1e-8, 1e6)
    one = {"scalar": lambda e, k: draw(e), "vector": lambda e, k: [draw(e) for _ in range(n)],
           "outer": lambda e, k: [[draw(e)] for _ in range(n)] if k == 0 else [[draw(e) for _ in range(m)]]}[form]
    return dict(form=form, t=one(t, 0), sigma=one(s, 1), mu=draw(gen.mu()), z=one(gen.signed(gen.logf(1e-3, 1e5)), 0), defaults=draw(st.booleans()))


@facet(FACETS, tvalues(), 3000)
def transient_functions(c, ctx):
    """peak_time, diffusion_distance and theta functions."""
    t, s, z = (np.array(c[k], float) if isinstance(c[k], list) else c[k] for k in ("t", "sigma", "z"))
    mu = MU0 if c["defaults"] else c["mu"]
    kw = {} if c["defaults"] else dict(mu=mu)
    ctx.label(c["form"])
    d = np.asarray(tdem.diffusion_distance(t, s, **kw))
    th = np.asarray(tdem.theta(t, s, **kw))
    p = np.asarray(tdem.peak_time(z, s, **kw))
    t_, s_, z_ = np.asarray(t), np.asarray(s), np.asarray(z)
    close("diffusion distance", d, np.sqrt(2 * t_ / (mu * s_)), 1e-14)
    close("theta", th, np.sqrt(mu * s_ / (4 * t_)), 1e-14)
    close("peak time", p, mu * s_ * z_ ** 2 / 6, 1e-14)
    close("theta times diffusion distance", th * d, np.full(th.shape, math.sqrt(0.5)), 1e-13)
    # at the peak time of the diffusion distance: d^2 = 2t/(mu sigma) -> mu sigma d^2/6 = t/3
    close("peak time at the diffusion distance", tdem.peak_time(d, s, **kw), np.broadcast_to(t_ / 3, d.shape), 1e-13)


@facet(FACETS, st.fixed_dictionaries(dict(cls=st.sampled_from(["ElectricDipoleWholeSpace", "TransientPlaneWave", "VerticalMagneticDipoleHalfSpace"]),
                                          t=st.one_of(gen.logf(1e-9, 1e4), gen.logf(1e-18, 1e9), st.lists(gen.logf(1e-9, 1e4), min_size=1, max_size=4)), sigma=gen.logf(1e-8, 1e6),
                                          mu=gen.mu(), z=st.one_of(gen.signed(gen.logf(1e-3, 1e5)), st.lists(gen.logf(1e-3, 1e5), min_size=1, max_size=3)),
                                          reassign=st.booleans())), 2000)
def transient_objects(c, ctx):
    """peak_time, diffusion_distance and theta of transient sources."""
    cls = getattr(tdem, c["cls"])
    if c["reassign"]:
        o = cls(time=3.0, sigma=7.0)
        o.time, o.sigma, o.mu = c["t"], c["sigma"], c["mu"]
    else:
        o = cls(time=c["t"], sigma=c["sigma"], mu=c["mu"])
    t, z = np.array(c["t"], float), (np.array(c["z"]) if isinstance(c["z"], list) else c["z"])
    ms = c["mu"] * c["sigma"]
    close("diffusion distance", o.diffusion_distance, np.sqrt(2 * t / ms), 1e-14)
    close("theta", o.theta, np.sqrt(ms / (4 * t)), 1e-14)
    close("peak time", o.peak_time(z), ms * np.asarray(z) ** 2 / 6, 1e-14)
    ctx.label(c["cls"])


@facet(FACETS, st.fixed_dictionaries(dict(n=gen.sizes(), f=st.lists(gen.logf(1e-4, 1e8), min_size=1, max_size=4), sigma=gen.logf(1e-6, 1e4), mu=gen.mu(), eps=gen.epsilon(), qs=st.booleans(), z=gen.logf(1e-3, 1e4),
                                          cls=st.sampled_from(["ElectricDipoleWholeSpace", "MagneticDipoleWholeSpace", "HarmonicPlaneWave", "MagneticDipoleHalfSpace"]), long=st.sampled_from(["f", "sigma", "both"]))), 500)
def large(c, ctx):
    """Thousands of frequencies, times or conductivities at once give what the few different ones among them give."""
    n, F = c["n"], np.array(c["f"])
    k = (np.arange(n) * 7919 + n) % len(F)
    S = c["sigma"] * (1 + np.arange(len(F)))
    ctx.label(f"about {10**round(math.log10(n))} values", c["long"])
    f, s = (F if c["long"] != "sigma" else F[0]), (S if c["long"] != "f" else S[0])
    many = [v[k] if np.ndim(v) else v for v in (f, s)]
    kw = dict(mu=c["mu"])
    kf = dict(kw, epsilon=c["eps"], quasistatic=c["qs"])
    t = 1 / np.asarray(f)
    T = 1 / np.asarray(many[0])

    def check(what, a, b):
        a, b = np.asarray(a), np.asarray(b)
        b = b[k] if b.ndim else b
        if a.shape != b.shape:
            fail(f"{what} of {n} values: shape {a.shape}, expected {b.shape}")
        close(f"{what} of {n} values", a, b, 1e-13)
    check("omega", fdem.omega(many[0]), fdem.omega(f))
    check("wavenumber", fdem.wavenumber(*many, **kf), fdem.wavenumber(f, s, **kf))
    check("sigma_hat", fdem.sigma_hat(*many, epsilon=c["eps"], quasistatic=c["qs"]), fdem.sigma_hat(f, s, epsilon=c["eps"], quasistatic=c["qs"]))
    if c["eps"]:
        check("skin_depth", fdem.skin_depth(*many, **kf), fdem.skin_depth(f, s, **kf))
    check("theta", tdem.theta(T, many[1], **kw), tdem.theta(t, s, **kw))
    check("diffusion_distance", tdem.diffusion_distance(T, many[1], **kw), tdem.diffusion_distance(t, s, **kw))
    check("peak_time", tdem.peak_time(c["z"] * T, many[1], **kw), tdem.peak_time(c["z"] * t, s, **kw))
    a, b = (getattr(fdem, c["cls"])(frequency=g, sigma=c["sigma"], mu=c["mu"], epsilon=c["eps"], quasistatic=c["qs"]) for g in (F[k], F))
    for q in ("omega", "wavenumber", "sigma_hat"):
        x, y = np.asarray(getattr(a, q)), np.asarray(getattr(b, q))
        if y.shape == F.shape:
            check(f"{c['cls']}.{q}", x, y)
        else:
            close(f"{c['cls']}.{q}", x, y, 1e-13)
    if c["eps"]:
        check(f"{c['cls']}.skin_depth", a.skin_depth, b.skin_depth)
    for cls in (tdem.ElectricDipoleWholeSpace, tdem.TransientPlaneWave):
        a, b = (cls(time=1 / g, sigma=c["sigma"], mu=c["mu"]) for g in (F[k], F))
        check("theta of an object", a.theta, b.theta)
        check("diffusion_distance of an object", a.diffusion_distance, b.diffusion_distance)
