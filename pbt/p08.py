"""Transient electric dipole in a whole space."""
import math

import numpy as np
from scipy.special import erf, gammainc
from geoana.em import tdem

from . import gen, ref
from .core import Discard, close, facet, fail, truth
from .gen import st
from .p07 import curl

FACETS = []
ASSUMPTIONS = [
    "Reference in incomplete gamma functions of (theta r)^2 (no cancellation); tolerance includes the cancellation of the "
    "erf/exp form at small theta*r.",
]


def case():
    return st.fixed_dictionaries(dict(
        batch=gen.batch(), t=st.one_of(gen.logf(1e-9, 1e2), st.lists(gen.logf(1e-7, 1.0), min_size=1, max_size=3)), sigma=gen.sigma(), mu=gen.mu(),
        o=gen.orientation(), loc=gen.location(), I=gen.strength(), ds=gen.logf(1e-3, 1e3), u=gen.logf(1e-2, 10.0),
        pts=gen.offset_points(rmin=0.1, rmax=10.0)))


def build(c):
    t = np.atleast_1d(np.array(c["t"], float))
    th = np.sqrt(c["mu"] * c["sigma"] / (4 * t))
    L = c["u"] / float(np.exp(np.mean(np.log(th))))
    loc = np.array(c["loc"]) * L
    s = tdem.ElectricDipoleWholeSpace(time=c["t"], sigma=c["sigma"], mu=c["mu"], orientation=c["o"], location=loc, current=c["I"],
                                      length=c["ds"])
    return gen.Batched(s, c["batch"]), t, th, L, loc


def exact(c, t, th, d):
    o = gen.unit(c["o"])
    r = ref.norm(d)[None, :, None]
    n = (d / ref.norm(d)[:, None])[None]
    T, x = t[:, None, None], th[:, None, None] * r
    p = c["I"] * c["ds"] / (4 * math.pi)
    y = x * x
    P32, P52 = gammainc(1.5, y), gammainc(2.5, y)
    ex = x ** 3 * np.exp(-y) / math.sqrt(math.pi)
    cross = np.cross(o, n)
    no = np.sum(n * o, axis=-1, keepdims=True)
    out = dict(
        vector_potential=p / r * erf(x) * o,
        magnetic_field=p / r ** 2 * P32 * cross,
        electric_field=p / (c["sigma"] * r ** 3) * (3 * P52 * no * n - (P32 - 4 * ex) * o),
        magnetic_field_time_deriv=-p / r ** 2 * 2 * ex / T * cross)
    e = np.minimum(x, 1.0) * 2e-15  # rounding of erf(x) and 2x exp(-x^2)/sqrt(pi)
    rel = 1e-11
    a = np.abs(p)
    amp = dict(
        vector_potential=rel * a / r * erf(x), magnetic_field=a / r ** 2 * (rel * P32 + e),
        electric_field=a / (c["sigma"] * r ** 3) * (rel * (P52 + P32 + 4 * ex) + 6 * e),
        magnetic_field_time_deriv=rel * a / r ** 2 * 2 * ex / T * (1 + y))
    for k, s, f in (("current_density", "electric_field", c["sigma"]), ("magnetic_flux_density", "magnetic_field", c["mu"]),
                    ("magnetic_flux_density_time_deriv", "magnetic_field_time_deriv", c["mu"])):
        out[k], amp[k] = f * out[s], f * amp[s]
    return out, amp, x


@facet(FACETS, case(), 5000)
def closed_form(c, ctx):
    """All seven quantities against the exact diffusive solution."""
    s, t, th, L, loc = build(c)
    xyz = np.array(c["pts"]) * L + loc
    d = xyz - loc
    if ref.norm(d).min() < 1e-3 * L:
        raise Discard
    want, tol, x = exact(c, t, th, d)
    ctx.trivial = c["I"] == 0
    ctx.label("array" if isinstance(c["t"], list) else "scalar", "early" if x.max() > 3 else "", "late" if x.min() < 0.1 else "")
    for n in want:
        got = np.asarray(getattr(s, n)(xyz))
        shape = (len(xyz), 3) if not isinstance(c["t"], list) else (len(t), len(xyz), 3)
        if got.shape != shape:
            fail(f"{n}: shape {got.shape}, expected {shape}")
        close(n, got.reshape(want[n].shape), want[n], 0, tol[n] + 1e-290)


@facet(FACETS, case(), 900)
def maxwell(c, ctx):
    """Ampere's and Faraday's law, H = curl A and time derivatives among returned fields, by finite differences."""
    c = dict(c, t=c["t"][0] if isinstance(c["t"], list) else c["t"], loc=[0.0, 0.0, 0.0])
    s, t, th, L, loc = build(c)
    p = np.array(c["pts"][0]) * L
    r = float(ref.norm(p))
    x = float(th[0]) * r
    if x < 0.05 or x > 6 or r < 1e-3 * L:
        raise Discard
    ctx.trivial = c["I"] == 0
    l = min(r, 1 / float(th[0]))
    h = 2e-3 * min(r, 1 / float(th[0])) / max(1.0, x)
    a = abs(c["I"] * c["ds"]) / (4 * math.pi)
    H, E = s.magnetic_field(p), s.electric_field(p)
    g = float(gammainc(1.5, x * x))
    aH, aE = a / r ** 2 * g, a / r ** 3 / c["sigma"] * max(g, x ** 3 * math.exp(-x * x))
    cA, _, _ = curl(lambda q: s.vector_potential(q) + 0j, p, h)
    cH, dH, _ = curl(lambda q: s.magnetic_field(q) + 0j, p, h)
    cE, dE, _ = curl(lambda q: s.electric_field(q) + 0j, p, h)
    f = 1e-5 * (1 + x ** 4)
    close("H = curl A", cA.real, H, 0, f * a / r ** 2 * math.erf(x))
    close("Ampere: curl H = sigma E", cH.real, c["sigma"] * E, 0, f * aH / l)
    close("div H", dH.real, 0, 0, f * aH / l)
    close("div E", dE.real, 0, 0, f * aE / l)
    dB = s.magnetic_flux_density_time_deriv(p)
    # the solution is that of a step-off: curl E = -dB/dt for the decaying field (E, B) minus the static part,
    # which is curl free
    close("Faraday: curl E = -dB/dt", cE.real, -dB, 0, f * aE / l)
    dt = 1e-3 * c["t"] / (1 + x * x)

    def at(tt, name):
        o = tdem.ElectricDipoleWholeSpace(time=tt, sigma=c["sigma"], mu=c["mu"], orientation=c["o"], current=c["I"], length=c["ds"])
        return np.asarray(getattr(o, name)(p))
    for name, der in (("magnetic_field", "magnetic_field_time_deriv"), ("magnetic_flux_density", "magnetic_flux_density_time_deriv")):
        num = (8 * (at(c["t"] + dt, name) - at(c["t"] - dt, name)) - (at(c["t"] + 2 * dt, name) - at(c["t"] - 2 * dt, name))) / (12 * dt)
        k = 1.0 if name == "magnetic_field" else c["mu"]
        close(der, getattr(s, der)(p), num, 0, k * aH / c["t"] * f)


@facet(FACETS, case(), 500)
def limits(c, ctx):
    """Early times tend to the static fields, late times decay; magnitudes of A and H fall with time."""
    c = dict(c, loc=[0.0, 0.0, 0.0])
    s, t, th, L, loc = build(c)
    xyz = np.array(c["pts"]) * L
    r = ref.norm(xyz)[:, None]
    if r.min() < 1e-3 * L:
        raise Discard
    ctx.trivial = c["I"] == 0
    o = gen.unit(c["o"])
    p = c["I"] * c["ds"] / (4 * math.pi)
    early = float(c["mu"] * c["sigma"] * r.min() ** 2 / 4 / 60.0)
    e = tdem.ElectricDipoleWholeSpace(time=early, sigma=c["sigma"], mu=c["mu"], orientation=c["o"], current=c["I"], length=c["ds"])
    n = xyz / r
    close("early A", e.vector_potential(xyz), p / r * o, 0, 1e-9 * abs(p) / r)
    close("early H", e.magnetic_field(xyz), p * np.cross(o, n) / r ** 2, 0, 1e-9 * abs(p) / r ** 2)
    close("early E", e.electric_field(xyz), p / c["sigma"] * (3 * (n @ o)[:, None] * n - o) / r ** 3, 0, 1e-9 * abs(p) / c["sigma"] / r ** 3)
    last = None
    for q in (0.1, 1.0, 10.0, 1e3):
        lt = tdem.ElectricDipoleWholeSpace(time=float(c["mu"] * c["sigma"] * r.max() ** 2 * q), sigma=c["sigma"], mu=c["mu"],
                                           orientation=c["o"], current=c["I"], length=c["ds"])
        now = (np.abs(lt.vector_potential(xyz)), np.abs(lt.magnetic_field(xyz)))
        if last is not None:
            truth("A decays", np.all(now[0] <= last[0] * (1 + 1e-12) + 1e-300))
            truth("H decays", np.all(now[1] <= last[1] * (1 + 1e-9) + 1e-14 * abs(p) / r ** 2))
        last = now
