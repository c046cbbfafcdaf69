"""Plane waves."""
import math

import numpy as np
from geoana.em import fdem, tdem

from . import gen, ref
from .core import Discard, close, facet, fail, raises, truth
from .gen import st
from .p07 import wavenumber

FACETS = []
ASSUMPTIONS = [
    "z up; harmonic: E = E0 exp(ikz) (exp(+i omega t), decaying with depth), B from Faraday's law; transient: the impulse "
    "response of a diffusive half-space, E decays in time as the derivative of erfc.",
    "|k z| limited to 300 (overflow above the surface, underflow below).",
]


def polar():
    return st.one_of(st.sampled_from(["X", "Y", "x", "y"]),
                     st.tuples(gen.unit_coord(), gen.unit_coord()).filter(lambda t: abs(t[0]) + abs(t[1]) > 1e-2).map(
                         lambda t: [t[0], t[1], 0.0]))


def zs(*more):
    return st.lists(st.tuples(st.one_of(gen.unit_coord(), gen.signed(gen.logf(10.0, 1e6))), gen.unit_coord(),
                              st.one_of(st.just(0.0), gen.signed(gen.logf(1e-3, 10.0)), gen.signed(gen.uni(0, 3)), *more)).map(list), min_size=1, max_size=4)


def hcase():
    return st.fixed_dictionaries(dict(batch=gen.batch(), f=st.one_of(gen.logf(1e-4, 1e9), st.lists(gen.logf(1e-2, 1e8), min_size=1, max_size=3)), qs=st.booleans(),
                                      qstype=st.just("bool"), sigma=gen.sigma(), mu=gen.mu(), eps=gen.epsilon(), o=polar(), a=gen.strength(),
                                      u=gen.logf(1e-3, 5.0), pts=zs(gen.signed(gen.logf(10.0, 1e5)))))


def lead(f, want):
    """Shape without the frequency axis for a scalar."""
    return want if isinstance(f, list) else want[0]


@facet(FACETS, hcase(), 4000)
def harmonic(c, ctx):
    """Harmonic plane wave E, J, H, B against the downgoing solution."""
    k = np.atleast_1d(wavenumber(c["f"], c))
    L = c["u"] / float(np.max(np.abs(k)))
    xyz = np.array(c["pts"]) * L
    top = 300 / float(np.max(np.abs(k)))  # beyond, the wave over- or underflows
    xyz[:, 2] = np.clip(xyz[:, 2], -top, top)
    s = gen.Batched(fdem.HarmonicPlaneWave(frequency=c["f"], quasistatic=c["qs"], sigma=c["sigma"], mu=c["mu"], epsilon=c["eps"],
                                           amplitude=c["a"], orientation=c["o"]), c["batch"])
    o = gen.unit(c["o"])
    w = 2 * math.pi * np.atleast_1d(c["f"])[:, None, None]
    K = k[:, None, None]
    e = c["a"] * np.exp(1j * K * xyz[None, :, 2:])
    E = e * o
    # curl E = z x dE/dz = ik (z x o) e = -i w B
    B = -(K / w) * e * np.cross([0, 0, 1.0], o)
    ctx.trivial = c["a"] == 0
    ctx.label("quasistatic" if c["qs"] else "full", "named" if isinstance(c["o"], str) else "vector")
    tol = 1e-11 * (1 + np.abs(K * xyz[None, :, 2:]))
    for n, want in (("electric_field", E), ("current_density", c["sigma"] * E), ("magnetic_flux_density", B), ("magnetic_field", B / c["mu"])):
        got = np.asarray(getattr(s, n)(xyz))
        close(f"harmonic {n}", got, lead(c["f"], want), 0, lead(c["f"], tol * np.abs(want).max(axis=-1, keepdims=True)))
    # relations among returned values
    Eg, Bg = np.asarray(s.electric_field(xyz)), np.asarray(s.magnetic_flux_density(xyz))
    top = np.asarray(s.electric_field(xyz * [1, 1, 0]))
    close("amplitude at the surface", top, lead(c["f"], np.broadcast_to(c["a"] * o + 0j, E.shape)), 1e-12)
    close("transverse", np.stack([Eg[..., 2], Bg[..., 2]]), np.zeros((2,) + Eg.shape[:-1]), 0, 0)
    close("perpendicular", np.sum(Eg * Bg, axis=-1), np.zeros(Eg.shape[:-1]), 0,
          1e-12 * np.abs(Eg).max(axis=-1) * np.abs(Bg).max(axis=-1))


def tcase():
    return st.fixed_dictionaries(dict(batch=gen.batch(), t=st.one_of(gen.logf(1e-9, 1e3), st.lists(gen.logf(1e-6, 1.0), min_size=1, max_size=3)),
                                      sigma=gen.sigma(), mu=gen.mu(), o=polar(), a=gen.strength(), u=gen.logf(1e-3, 5.0), pts=zs()))


@facet(FACETS, tcase(), 4000)
def transient(c, ctx):
    """Transient plane wave E, J, H, B against the diffusive solution."""
    t = np.atleast_1d(np.array(c["t"], float))
    ms = c["mu"] * c["sigma"]
    L = c["u"] * 2 * math.sqrt(float(np.exp(np.mean(np.log(t)))) / ms)
    xyz = np.array(c["pts"]) * L
    s = gen.Batched(tdem.TransientPlaneWave(time=c["t"], sigma=c["sigma"], mu=c["mu"], amplitude=c["a"], orientation=c["o"]), c["batch"])
    o = gen.unit(c["o"])
    T, z = t[:, None, None], xyz[None, :, 2:]
    x2 = ms * z ** 2 / (4 * T)
    g = np.exp(-x2)
    # E = -a d/dt erfc-like kernel: -a z sqrt(ms/(4 pi)) t^{-3/2} exp(-ms z^2/4t)
    E = -c["a"] * z * np.sqrt(ms / (4 * math.pi * T ** 3)) * g * o
    B = c["a"] * np.sqrt(ms / (math.pi * T)) * g * -np.cross([0, 0, 1.0], o)
    ctx.trivial = c["a"] == 0
    tol = 1e-11 * (1 + x2)
    for n, want in (("electric_field", E), ("current_density", c["sigma"] * E), ("magnetic_flux_density", B), ("magnetic_field", B / c["mu"])):
        got = np.asarray(getattr(s, n)(xyz))
        close(f"transient {n}", got, lead(c["t"], want), 0, lead(c["t"], tol * np.abs(want).max(axis=-1, keepdims=True) + 1e-300))
    # Faraday, Ampere by finite differences of returned values, one point
    p = xyz[0]
    tt = float(t[0])
    x = math.sqrt(ms * p[2] ** 2 / (4 * tt))
    if x > 4:
        return
    l = 2 * math.sqrt(tt / ms)
    h = 2e-3 * l
    one = tdem.TransientPlaneWave(time=tt, sigma=c["sigma"], mu=c["mu"], amplitude=c["a"], orientation=c["o"])
    e3 = np.array([0, 0, h])

    def dz(f):
        return (8 * (f(p + e3) - f(p - e3)) - (f(p + 2 * e3) - f(p - 2 * e3))) / (12 * h)
    dt = 1e-3 * tt

    def at(q):
        return tdem.TransientPlaneWave(time=q, sigma=c["sigma"], mu=c["mu"], amplitude=c["a"], orientation=c["o"]).magnetic_flux_density(p)
    dE, dH = dz(one.electric_field), dz(one.magnetic_field)
    dB = (8 * (at(tt + dt) - at(tt - dt)) - (at(tt + 2 * dt) - at(tt - 2 * dt))) / (12 * dt)
    k = abs(c["a"]) * math.sqrt(ms / tt) / tt
    close("Faraday", np.cross([0, 0, 1.0], dE), -dB, 0, 1e-6 * k)
    close("Ampere", np.cross([0, 0, 1.0], dH), c["sigma"] * one.electric_field(p), 0, 1e-6 * abs(c["a"]) * c["sigma"] / tt)


@facet(FACETS, st.fixed_dictionaries(dict(kind=st.sampled_from(["f", "t"]), bad=st.one_of(
    st.sampled_from(["Z", "z", "XY", "", "A", "W"]),
    st.tuples(gen.unit_coord(), gen.unit_coord(), gen.signed(gen.logf(1e-12, 10))).map(list),
    st.sampled_from([[1.0, 0.0], [1.0], [1.0, 0.0, 0.0, 0.0], [[1.0, 0, 0], [0, 1.0, 0]]])), init=st.booleans())), 600)
def refused(c, ctx):
    """Non-horizontal or malformed polarizations are refused."""
    cls = fdem.HarmonicPlaneWave if c["kind"] == "f" else tdem.TransientPlaneWave
    kw = dict(frequency=1.0) if c["kind"] == "f" else dict(time=1.0)
    if c["init"]:
        raises(f"{cls.__name__}(orientation={c['bad']!r})", (ValueError, TypeError), cls, orientation=c["bad"], **kw)
    else:
        s = cls(orientation="Y", **kw)
        raises(f"orientation = {c['bad']!r}", (ValueError, TypeError), setattr, s, "orientation", c["bad"])
        close("orientation kept", s.orientation, [0.0, 1.0, 0.0])
