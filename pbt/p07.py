"""Harmonic dipoles in a whole space."""
import math

import numpy as np
from geoana.em import fdem

from . import gen, ref
from .core import Discard, close, facet, fail, truth, vec_close
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "Time dependence exp(+i omega t), outgoing wave exp(-ikr) with Im k <= 0, k^2 = omega^2 mu eps - i omega mu sigma "
    "(quasistatic: without the first term).",
    "Offsets from 1e-3 to 1e2 wavelengths-over-2-pi; beyond, fields underflow.",
    "Known finding KF1: the electric dipole's electric field with displacement currents (accepted either exact or exactly as "
    "the library computes it, nothing else).",
]


def wavenumber(f, c):
    w = 2 * math.pi * np.asarray(f, float)
    k2 = -1j * w * c["mu"] * c["sigma"] + (0 if c["qs"] else w ** 2 * c["mu"] * c["eps"])
    k = np.sqrt(k2)
    return np.where(k.imag > 0, -k, k)


def case(extra=None):
    return st.fixed_dictionaries(dict(
        batch=gen.batch(), kind=st.sampled_from(["electric", "magnetic"]), f=st.one_of(gen.logf(1e-3, 1e9), st.lists(gen.logf(1e-2, 1e8), min_size=1, max_size=3)),
        qs=st.booleans(), qstype=st.sampled_from(["bool", "np", "int"]), sigma=gen.sigma(), mu=gen.mu(), eps=gen.epsilon(),
        o=gen.orientation(), loc=gen.location(), I=gen.strength(), ds=gen.logf(1e-3, 1e3), u=gen.logf(1e-3, 30.0),
        pts=gen.offset_points(rmin=0.1, rmax=10.0), **(extra or {})))


def build(c):
    qs = {"bool": bool, "np": np.bool_, "int": int}[c["qstype"]](c["qs"])
    kw = dict(frequency=c["f"], sigma=c["sigma"], mu=c["mu"], epsilon=c["eps"], quasistatic=qs, orientation=c["o"])
    k = wavenumber(np.atleast_1d(c["f"]), c)
    L = c["u"] / float(np.max(np.abs(k)))
    loc = np.array(c["loc"]) * L
    if c["kind"] == "electric":
        s = fdem.ElectricDipoleWholeSpace(location=loc, current=c["I"], length=c["ds"], **kw)
    else:
        s = fdem.MagneticDipoleWholeSpace(location=loc, moment=c["I"], **kw)
    return gen.Batched(s, c["batch"]), k, L, loc


def exact(c, k, d, sig=None):
    """All fields, shape (nf, n, 3)."""
    o = gen.unit(c["o"])
    r = ref.norm(d)[None, :, None]
    n = (d / ref.norm(d)[:, None])[None]
    K = k[:, None, None]
    w = 2 * math.pi * np.atleast_1d(c["f"])[:, None, None]
    x = 1j * K * r
    g = np.exp(-x)
    cross = np.cross(o, n)
    no = np.sum(n * o, axis=-1, keepdims=True)
    near = (n * no * (3 + 3 * x + x ** 2) - o * (1 + x + x ** 2)) * g / (4 * math.pi * r ** 3)
    curl = cross * (1 + x) * g / (4 * math.pi * r ** 2)
    if c["kind"] == "electric":
        p = c["I"] * c["ds"]
        sh = c["sigma"] + (0 if c["qs"] else 1j * w * c["eps"])
        if sig is not None:
            sh = sig
        out = dict(vector_potential=p * g / (4 * math.pi * r) * o, electric_field=p * near / sh, magnetic_field=p * curl)
    else:
        p = c["I"]
        z = 1j * w * c["mu"]
        out = dict(vector_potential=z * p * g / (4 * math.pi * r) * o, electric_field=-z * p * curl, magnetic_field=p * near)
    out["current_density"] = c["sigma"] * out["electric_field"]
    out["magnetic_flux_density"] = c["mu"] * out["magnetic_field"]
    amp = {n_: np.abs(v).max(axis=-1, keepdims=True) for n_, v in out.items()}
    # direction independent scales (fields may vanish along special directions)
    sc = np.abs(p) * np.abs(g) / (4 * math.pi)
    s1 = sc / r ** 2 * np.abs(1 + x)
    s2 = sc / r ** 3 * (1 + np.abs(x) + np.abs(x) ** 2)
    if c["kind"] == "electric":
        amp.update(electric_field=s2 / np.abs(sh), magnetic_field=s1)
    else:
        amp.update(electric_field=s1 * np.abs(z), magnetic_field=s2)
    amp["current_density"] = c["sigma"] * amp["electric_field"]
    amp["magnetic_flux_density"] = c["mu"] * amp["magnetic_field"]
    return out, amp


METHODS = ["vector_potential", "electric_field", "magnetic_field", "current_density", "magnetic_flux_density"]


@facet(FACETS, case(), 4500)
def closed_form(c, ctx):
    """All five quantities against the closed form solution."""
    s, k, L, loc = build(c)
    xyz = np.array(c["pts"]) * L + loc
    d = xyz - loc
    if np.max(np.abs(k)) * ref.norm(d).max() > 400 or ref.norm(d).min() < 1e-3 * L:
        raise Discard
    want, amp = exact(c, k, d)
    ctx.trivial = c["I"] == 0
    ctx.label(c["kind"], "quasistatic" if c["qs"] else "full", "array" if isinstance(c["f"], list) else "scalar")
    scalar = not isinstance(c["f"], list)
    for n in METHODS:
        got = np.asarray(getattr(s, n)(xyz))
        shape = (len(xyz), 3) if scalar else (len(c["f"]), len(xyz), 3)
        if got.shape != shape:
            fail(f"{c['kind']} {n}: shape {got.shape}, expected {shape}")
        got = got.reshape(len(k), len(xyz), 3)
        tol = 1e-10 * amp[n]
        if c["kind"] == "electric" and not c["qs"] and n in ("electric_field", "current_density"):
            if not np.all(np.abs(got - want[n]) <= tol):
                wrong, a2 = exact(c, k, d, sig=c["sigma"])
                close(f"electric {n} (neither exact nor as recorded in KF1)", got, wrong[n], 0, 1e-10 * a2[n])
                ctx.known_finding("KF1", f"electric dipole {n} with displacement currents")
            continue
        close(f"{c['kind']} {n} ({'quasistatic' if c['qs'] else 'full'})", got, want[n], 0, tol)


def curl(f, p, h):
    """Fourth order central differences of a vector function returning (3,)."""
    J = np.zeros((3, 3), complex)
    for a in range(3):
        e = np.zeros(3)
        e[a] = h
        J[a] = (8 * (f(p + e) - f(p - e)) - (f(p + 2 * e) - f(p - 2 * e))) / (12 * h)
    return np.array([J[1, 2] - J[2, 1], J[2, 0] - J[0, 2], J[0, 1] - J[1, 0]]), np.trace(J), J


@facet(FACETS, case(), 900)
def maxwell(c, ctx):
    """Faraday's and Ampere's law and the potential's curl among returned fields, by finite differences."""
    c = dict(c, f=c["f"][0] if isinstance(c["f"], list) else c["f"], loc=[0.0, 0.0, 0.0])
    if c["kind"] == "electric" and not c["qs"] and c["eps"]:
        c["qs"] = True  # electric field subject to KF1
    s, k, L, loc = build(c)
    k = complex(k[0])
    w = 2 * math.pi * c["f"]
    ctx.trivial = c["I"] == 0
    ctx.label(c["kind"], "quasistatic" if c["qs"] else "full")
    p = np.array(c["pts"][0]) * L
    r = float(ref.norm(p))
    if abs(k) * r > 50 or r < 1e-3 * L:
        raise Discard
    h = 2e-3 * min(r, 1 / abs(k))
    _, amp = exact(c, np.array([k]), p[None])
    E, H = s.electric_field(p), s.magnetic_field(p)
    cE, dE, _ = curl(s.electric_field, p, h)
    cH, dH, _ = curl(s.magnetic_field, p, h)
    aE, aH = float(amp["electric_field"].max()), float(amp["magnetic_field"].max())
    l = min(r, 1 / abs(k))
    sh = c["sigma"] + (0 if c["qs"] else 1j * w * c["eps"])
    close("Faraday", cE, -1j * w * c["mu"] * H, 0, 1e-6 * (aE / l))
    close("Ampere", cH, sh * E, 0, 1e-6 * (aH / l))
    close("div E", dE, 0, 0, 1e-6 * aE / l)
    close("div H", dH, 0, 0, 1e-6 * aH / l)
    cA, _, _ = curl(s.vector_potential, p, h)
    aA = float(amp["vector_potential"].max())
    if c["kind"] == "electric":
        close("H = curl A", H, cA, 0, 1e-6 * aA / l + 1e-6 * aH)
    else:
        close("E = -curl F", E, -cA, 0, 1e-6 * aA / l + 1e-6 * aE)


@facet(FACETS, case(), 500)
def static_limit(c, ctx):
    """At vanishing frequency the fields are the galvanic and the static dipole's."""
    c = dict(c, f=1e-9, qs=True, loc=[0.0, 0.0, 0.0])
    s, k, L, loc = build(c)
    ctx.trivial = c["I"] == 0
    ctx.label(c["kind"])
    xyz = np.array(c["pts"]) * min(L, 1e-6 / abs(k[0]))
    o = gen.unit(c["o"])
    r = ref.norm(xyz)[:, None]
    b = ref.dipole_b(o * c["I"], 4 * math.pi, xyz) / (4 * math.pi)
    s3 = np.abs(c["I"]) / r ** 3
    if c["kind"] == "magnetic":
        close("static magnetic field", s.magnetic_field(xyz), b + 0j, 0, 1e-4 * s3)
    else:
        e = b * c["ds"] / c["sigma"]
        close("galvanic field", s.electric_field(xyz), e + 0j, 0, 1e-4 * s3 * c["ds"] / c["sigma"])
        hs = c["I"] * c["ds"] / (4 * math.pi) * np.cross(o, xyz) / r ** 3
        close("Biot-Savart", s.magnetic_field(xyz), hs + 0j, 0, 1e-4 * abs(c["I"]) * c["ds"] / r ** 2)
