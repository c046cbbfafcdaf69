"""Harmonic magnetic dipoles over uniform and layered half-spaces."""
import math

import mpmath as mp
import numpy as np
from geoana.em import fdem

from . import gen, layers
from .core import Discard, close, facet, fail, raises, truth
from .gen import EPS0, MU0, st

FACETS = []
ASSUMPTIONS = [
    "exp(+i omega t), air without displacement currents (as the solution states), transverse electric reflection coefficient "
    "(Y0 - Y)/(Y0 + Y) with Y = u/(i omega mu), earth admittivity sigma + i omega epsilon unless quasistatic.",
    "The layered solver uses a digital filter: tolerance 1e-6 of the field plus 2e-7/(4 pi r^3) (plus 3e-4 of the image strength for a "
    "magnetic earth with source and receiver both at the surface); the reference is quadrature between Bessel zeros with extrapolation, "
    "whose own error estimate is added.",
    "|k| r between 0.01 and 30 with loss tangent above 1 (otherwise the integrand oscillates and the filter is not accurate); "
    "offset r > 0 and heights up to 8 r.",
    "Thin sheets: induction number 0.03 to 30, thickness 1e-5 to 0.03 r, receivers at least 0.1 r high. Below |k| r = 0.1 only the field "
    "coupling horizontal and vertical directions is judged to 1e-11 of itself (the others cancel in the closed form).",
    "MagneticDipoleHalfSpace is judged with mu = mu_0, the permeability its closed form is for. Known finding KF3: overflow at very large |k| r.",
]


def prop(lo, hi):
    return st.one_of(st.just(1.0), gen.logf(lo, hi))


def cplx(elem, im=0.3):
    """[re, im]"""
    return st.tuples(elem, st.one_of(st.just(0.0), st.just(0.0), gen.uni(0, im))).map(lambda t: [t[0], t[0] * t[1]])


@st.composite
def earth(draw, max_layers=4, magnetic=True, complex_=True, nf=None):
    nl = draw(st.integers(1, max_layers))
    if nf is None:
        nf = draw(st.integers(1, 3))
    im = 0.3 if complex_ else 0.0

    def table(e):
        form = draw(st.sampled_from(["scalar", "layer", "layer", "full"]))
        if form == "scalar":
            return dict(form=form, v=draw(cplx(e, im)))
        if form == "layer":
            return dict(form=form, v=[draw(cplx(e, im)) for _ in range(nl)])
        return dict(form=form, v=[[draw(cplx(e, im)) for _ in range(nf)] for _ in range(nl)])
    return dict(f=[draw(gen.logf(0.1, 10.0)) for _ in range(nf)], scalar=nf == 1 and draw(st.booleans()),
                sigma=table(prop(0.1, 10.0)), mu=table(prop(1.0, 4.0) if magnetic and draw(st.booleans()) else st.just(1.0)),
                eps=table(prop(1.0, 80.0)), h=[draw(gen.logf(0.05, 10.0)) for _ in range(nl - 1)],
                qs=draw(st.booleans()), kr=draw(gen.logf(0.03, 10.0)), r=draw(gen.logf(0.1, 1e3)),
                f0=draw(gen.logf(0.1, 1e4)), container=draw(st.sampled_from(["array", "list"])))


def expand(t, nl, nf):
    v = np.array(t["v"], float)
    c = v[..., 0] + 1j * v[..., 1]
    if t["form"] == "scalar":
        return np.full((nl, nf), complex(c))
    if t["form"] == "layer":
        return np.repeat(c[:, None], nf, 1)
    return c


def model(c):
    """Parameters in SI: unit length r, reference frequency f0, reference conductivity from |k| r."""
    nl, nf = len(c["h"]) + 1, len(c["f"])
    s0 = c["kr"] ** 2 / (2 * math.pi * c["f0"] * MU0 * c["r"] ** 2)
    f = np.array(c["f"]) * c["f0"]
    S, M, E = (expand(c[k], nl, nf) for k in ("sigma", "mu", "eps"))
    S, M, E = S * s0, M * MU0, E * EPS0
    M = np.where(M.real < MU0, MU0 + 1j * M.imag, M)  # rounding
    E = np.where(E.real < EPS0, EPS0 + 1j * E.imag, E)
    h = np.array(c["h"]) * c["r"]
    return f, S, M, E, h


def admit(c, f, S, E):
    return S if c["qs"] else S + 1j * 2 * math.pi * f[None, :] * E


def given(c, t, X):
    """What the caller passes for a property table."""
    if t["form"] == "scalar":
        v = complex(X[0, 0])
        return v.real if v.imag == 0 else v
    v = X[:, 0] if t["form"] == "layer" else X
    if np.all(v.imag == 0):
        v = v.real
    return v.tolist() if c["container"] == "list" else v.copy()


def in_domain(c, f, S, M, E):
    w = 2 * math.pi * f[None, :]
    k = np.sqrt(w * np.abs(M) * np.abs(admit(c, f, S, E)))
    if np.max(k) * c["r"] > 30 or np.min(k) * c["r"] < 0.01:
        raise Discard
    if not c["qs"] and np.any(w * np.abs(E) > S.real):
        raise Discard


def geometry():
    """Receivers as (radius factor, azimuth, height) in units of r; source height and horizontal position."""
    one = st.tuples(gen.uni(0.5, 2.0), st.one_of(st.sampled_from([0.0, 0.5, 1.0, 1.5]), gen.uni(0, 2)),
                    st.one_of(st.just(0.0), gen.logf(1e-2, 4.0))).map(list)
    return dict(rx=st.lists(one, min_size=1, max_size=3), hs=st.one_of(st.just(0.0), gen.logf(1e-2, 4.0)),
                loc=st.one_of(gen.vec(gen.unit_coord(), 2), gen.vec(gen.unit_coord(), 2), gen.remote(2)), o=gen.orientation(), m=gen.nz_strength())


def place(c, hs=True):
    L = c["r"]
    loc = np.array([c["loc"][0] * L, c["loc"][1] * L, c["hs"] * L if hs else 0.0])
    rx = np.array([[a * L * math.cos(math.pi * t) + loc[0], a * L * math.sin(math.pi * t) + loc[1], (z if hs else 0.0) * L]
                   for a, t, z in c["rx"]])
    return loc, rx


def layered(c, f, S, M, E, h, loc):
    kw = dict(sigma=given(c, c["sigma"], S), mu=given(c, c["mu"], M), epsilon=given(c, c["eps"], E))
    ff = float(f[0]) if c["scalar"] else (f.tolist() if c["container"] == "list" else f.copy())
    th = None if len(h) == 0 else (h.tolist() if c["container"] == "list" else h.copy())
    return fdem.MagneticDipoleLayeredHalfSpace(ff, th, quasistatic=c["qs"], location=loc, orientation=c["o"], moment=c["m"], **kw)


def unpack(what, got, nf, n):
    want = np.zeros((nf, n, 3)).squeeze().shape
    if np.shape(got) != want:
        fail(f"{what}: shape {np.shape(got)}, expected {want}")
    return np.asarray(got).reshape(nf, n, 3)


def filt_tol(H, m, r, zh, rinf, k2=0.0):
    """Accuracy of the digital filter; it deteriorates as the branch point comes near the real wavenumbers (k2: i omega mu sigma of the layers)."""
    phi = max(0.0, float(np.max(np.angle(k2, deg=True))) - 90.0) if np.any(k2) else 0.0
    t = 1e-9 + 10 ** (0.12 * phi - 10.3) * (1 + math.sqrt(np.max(np.abs(k2))) * r) ** 1.5 + (2e-7 + 3e-4 * abs(rinf) if zh < 0.05 * r else 0.0)
    return 1e-6 * np.linalg.norm(H) + t * abs(m) / (4 * math.pi * r ** 3)


def layered_case(**kw):
    return st.builds(lambda e, g: {**e, **g}, earth(**kw), st.fixed_dictionaries(geometry()))


@facet(FACETS, layered_case(), 1500)
def layered_field(c, ctx):
    """Secondary and total field of the layered solver against quadrature of the reflection coefficient."""
    f, S, M, E, h = model(c)
    in_domain(c, f, S, M, E)
    loc, rx = place(c)
    s = layered(c, f, S, M, E, h, loc)
    sh = admit(c, f, S, E)
    sec = unpack("layered", s.magnetic_field(rx), len(f), len(rx))
    sec2 = unpack("layered", s.magnetic_field(rx, field="secondary"), len(f), len(rx))
    tot = unpack("layered", s.magnetic_field(rx, field="total"), len(f), len(rx))
    close("default is the secondary field", sec2, sec, 1e-14)
    ctx.label(f"{len(h) + 1} layers", "quasistatic" if c["qs"] else "full", "magnetic" if np.any(M.real > MU0 * 1.0001) else "nonmagnetic",
              "complex" if np.any(S.imag) else "real")
    m = c["m"] * gen.unit(c["o"])
    for j, p in enumerate(rx):
        d = p - loc
        r, zh = math.hypot(d[0], d[1]), p[2] + loc[2]
        H, err = layers.secondary(f, sh, M, h, m, d[0], d[1], zh)
        Hp = layers.primary(m, d)
        for i in range(len(f)):
            rinf = complex((M[0, i] - MU0) / (M[0, i] + MU0))
            tol = filt_tol(H[i], c["m"], r, zh, rinf, 2j * math.pi * f[i] * M[:, i] * sh[:, i]) + 10 * err[i]
            close(f"layered secondary field, receiver {j}, frequency {i}", sec[i, j], H[i], 0, tol)
            close(f"layered total field, receiver {j}, frequency {i}", tot[i, j], H[i] + Hp, 0, tol + 1e-12 * np.linalg.norm(Hp))
            # the primary is exact
            close("total - secondary", tot[i, j] - sec[i, j], Hp + 0j, 0,
                  1e-12 * (np.linalg.norm(Hp) + np.linalg.norm(sec[i, j])))


@facet(FACETS, layered_case(), 1500)
def subdivision(c, ctx):
    """Splitting a layer and appending layers like the basement leave the field unchanged."""
    f, S, M, E, h = model(c)
    loc, rx = place(c)
    c = dict(c, sigma=dict(c["sigma"], form="full"), mu=dict(c["mu"], form="full"), eps=dict(c["eps"], form="full"))
    base = np.asarray(layered(c, f, S, M, E, h, loc).magnetic_field(rx))
    scale = np.linalg.norm(np.asarray(layered(c, f, S, M, E, h, loc).magnetic_field(rx)), axis=-1, keepdims=True)
    r = np.array([math.hypot(p[0] - loc[0], p[1] - loc[1]) for p in rx])
    cut = 0.3
    if len(h):
        k = len(h) // 2
        h2 = np.concatenate([h[:k], [cut * h[k], (1 - cut) * h[k]], h[k + 1:]])
        ins = [np.insert(X, k, X[k], axis=0) for X in (S, M, E)]
        got = np.asarray(layered(c, f, *ins, h2, loc).magnetic_field(rx))
        close("layer split in two", got, base, 0, 1e-9 * scale + 1e-9 * abs(c["m"]) / np.min(r) ** 3 / (4 * math.pi))
    app = [np.concatenate([X, X[-1:]], axis=0) for X in (S, M, E)]
    got = np.asarray(layered(c, f, *app, np.concatenate([h, [0.7 * c["r"]]]), loc).magnetic_field(rx))
    close("layer like the basement added", got, base, 0, 1e-9 * scale + 1e-9 * abs(c["m"]) / np.min(r) ** 3 / (4 * math.pi))
    # a layer of zero contrast on top at any thickness
    app = [np.concatenate([X[:1], X], axis=0) for X in (S, M, E)]
    if len(h) == 0:
        got = np.asarray(layered(c, f, *app, np.array([3.0 * c["r"]]), loc).magnetic_field(rx))
        close("uniform earth as two layers", got, base, 0, 1e-9 * scale + 1e-9 * abs(c["m"]) / np.min(r) ** 3 / (4 * math.pi))


def half(c, f, s0, eps, **kw):
    return fdem.MagneticDipoleHalfSpace(float(f[0]) if c["scalar"] else f, sigma=s0, epsilon=eps, quasistatic=c["qs"],
                                        orientation=c["o"], moment=c["m"], **kw)


def half_case(kr):
    base = dict(geometry())
    base.pop("hs")
    return st.fixed_dictionaries(dict(f=st.lists(gen.logf(0.1, 10.0), min_size=1, max_size=3), scalar=st.booleans(), qs=st.booleans(),
                                      eps=gen.epsilon(), kr=kr, r=gen.logf(0.1, 1e3), f0=gen.logf(0.1, 1e4), **base))


def half_setup(c):
    c = dict(c, scalar=c["scalar"] and len(c["f"]) == 1, hs=0.0)
    f = np.array(c["f"]) * c["f0"]
    s0 = c["kr"] ** 2 / (2 * math.pi * c["f0"] * MU0 * c["r"] ** 2)
    loc, rx = place(c, False)
    sh = np.full(len(f), s0 + 0j) if c["qs"] else s0 + 1j * 2 * math.pi * f * c["eps"]
    return c, f, s0, loc, rx, sh


@facet(FACETS, half_case(gen.logf(0.03, 10.0)), 2500)
def uniform_field(c, ctx):
    """The closed form for the uniform earth against quadrature and against the layered solver."""
    c, f, s0, loc, rx, sh = half_setup(c)
    if not c["qs"] and np.any(sh.imag > s0):
        raise Discard
    s = half(c, f, s0, c["eps"], location=loc)
    n = len(rx)
    sec = unpack("half-space", s.magnetic_field(rx), len(f), n)
    sec2 = unpack("half-space", s.magnetic_field(rx[:, :2], field="secondary"), len(f), n)
    tot = unpack("half-space", s.magnetic_field(rx, "total"), len(f), n)
    close("two column receivers", sec2, sec, 1e-14)
    ctx.label("quasistatic" if c["qs"] else "full", "scalar" if c["scalar"] else "array")
    m = c["m"] * gen.unit(c["o"])
    lay = None
    if c["eps"] >= EPS0 or c["qs"]:
        kw = dict(epsilon=c["eps"]) if c["eps"] >= EPS0 else {}
        lay = unpack("layered", fdem.MagneticDipoleLayeredHalfSpace(f, None, sigma=s0, mu=MU0, quasistatic=c["qs"], location=loc,
                     orientation=c["o"], moment=c["m"], **kw).magnetic_field(rx), len(f), n)
    for j, p in enumerate(rx):
        d = p - loc
        r = math.hypot(d[0], d[1])
        H, err = layers.secondary(f, sh[None], np.full((1, len(f)), MU0 + 0j), [], m, d[0], d[1], 0.0)
        Hp = layers.primary(m, d)
        for i in range(len(f)):
            kr = abs(np.sqrt(2 * math.pi * f[i] * MU0 * sh[i])) * r
            unit = abs(c["m"]) / (4 * math.pi * r ** 3)
            tol = 20 * err[i] + 1e-9 * np.linalg.norm(H[i]) + 1e-13 * (1 + 1 / kr ** 2) * unit
            close(f"half-space secondary field, receiver {j}, frequency {i}", sec[i, j], H[i], 0, tol)
            close(f"half-space total field, receiver {j}, frequency {i}", tot[i, j], H[i] + Hp, 0, tol + 1e-12 * np.linalg.norm(Hp))
            if lay is not None:
                close(f"two solvers, receiver {j}, frequency {i}", sec[i, j], lay[i, j], 0, tol + filt_tol(H[i], c["m"], r, 0.0, 0.0, np.atleast_1d(2j * math.pi * f[i] * MU0 * sh[i])))


@facet(FACETS, half_case(gen.logf(30.0, 3e4)), 400)
def large_induction(c, ctx):
    """At very large induction numbers the earth is a perfect conductor (apart from KF3)."""
    c = dict(c, qs=True)
    c, f, s0, loc, rx, sh = half_setup(c)
    s = half(c, f, s0, c["eps"], location=loc)
    sec = unpack("half-space", s.magnetic_field(rx), len(f), len(rx))
    m = c["m"] * gen.unit(c["o"])
    for j, p in enumerate(rx):
        d = p - loc
        r = math.hypot(d[0], d[1])
        Hp = layers.primary(m, d)
        want = Hp * [1, 1, -1]  # image: tangential doubles, normal cancels
        for i in range(len(f)):
            kr = abs(np.sqrt(2 * math.pi * f[i] * MU0 * s0)) * r
            unit = abs(c["m"]) / (4 * math.pi * r ** 3)
            bad = ~np.isfinite(sec[i, j])
            if bad.any() and kr / math.sqrt(2) / 2 > 690:
                ctx.known_finding("KF3", "overflow in MagneticDipoleHalfSpace.magnetic_field")
                ctx.label("overflow")
                continue
            ctx.label("finite")
            close(f"perfect conductor limit (|k| r = {kr:.3g})", sec[i, j], want + 0j, 0, 20 * unit / kr)


def sheet_case():
    one = st.tuples(gen.uni(0.5, 2.0), gen.uni(0, 2), gen.logf(0.1, 4.0)).map(list)
    return st.fixed_dictionaries(dict(B=gen.logf(0.03, 30.0), t=gen.logf(1e-5, 0.03), kr=gen.logf(0.03, 3.0), r=gen.logf(0.1, 1e3), f0=gen.logf(0.1, 1e4),
                                      over=st.one_of(st.just(0.0), gen.logf(0.05, 3.0)), under=st.one_of(st.just(0.0), gen.logf(0.05, 3.0)),
                                      n=st.integers(1, 4), deep=gen.logf(0.1, 10.0), rx=st.lists(one, min_size=1, max_size=3),
                                      hs=st.one_of(st.just(0.0), gen.logf(1e-2, 4.0)), loc=gen.vec(gen.unit_coord(), 2), o=gen.orientation(), m=gen.nz_strength()))


@facet(FACETS, sheet_case(), 800)
def sheets(c, ctx):
    """Layers much thinner than every offset count by their conductance."""
    f = np.array([c["f0"]])
    s0 = c["kr"] ** 2 / (2 * math.pi * c["f0"] * MU0 * c["r"] ** 2)
    s1 = c["B"] / (2 * math.pi * c["f0"] * MU0 * c["r"] ** 2 * c["t"])
    h, s = [], []
    if c["over"]:
        h, s = [c["over"] * c["r"]], [s0]
    h, s = h + [c["t"] * c["r"] / c["n"]] * c["n"], s + [s1] * c["n"]
    if c["under"]:
        h, s = h + [c["under"] * c["r"]], s + [s0]
    S = np.array(s + [s0 * c["deep"]])
    loc, rx = place(c)
    got = unpack("layered", fdem.MagneticDipoleLayeredHalfSpace(c["f0"], h, sigma=S, quasistatic=True, location=loc, orientation=c["o"],
                 moment=c["m"]).magnetic_field(rx), 1, len(rx))[0]
    ctx.label(f"{len(S)} layers", "buried" if c["over"] else "on top")
    m = c["m"] * gen.unit(c["o"])
    for j, p in enumerate(rx):
        d = p - loc
        r, zh = math.hypot(d[0], d[1]), p[2] + loc[2]
        H, err = layers.secondary(f, S[:, None] + 0j, np.full((len(S), 1), MU0 + 0j), h, m, d[0], d[1], zh)
        tol = filt_tol(H[0], c["m"], r, zh, 0.0, 2j * math.pi * f[0] * MU0 * S) + 10 * err[0]
        close(f"field over a thin sheet, receiver {j}", got[j], H[0], 0, tol)


def small_case():
    return st.fixed_dictionaries(dict(f=st.lists(gen.logf(0.1, 10.0), min_size=1, max_size=3), scalar=st.booleans(), qs=st.just(True), eps=st.just(EPS0),
                                      kr=gen.logf(1e-5, 0.1), r=gen.logf(0.1, 1e3), f0=gen.logf(0.1, 1e4), axis=st.integers(0, 2),
                                      rx=geometry()["rx"], loc=gen.vec(gen.unit_coord(), 2), m=gen.nz_strength(), field=st.sampled_from(["secondary", "total"])))


@facet(FACETS, small_case(), 800)
def small_induction(c, ctx):
    """At small induction numbers the field that couples horizontal and vertical directions keeps both its parts."""
    c = dict(c, o=[float(c["axis"] == i) for i in range(3)])
    c, f, s0, loc, rx, sh = half_setup(c)
    got = unpack("half-space", half(c, f, s0, EPS0, location=loc).magnetic_field(rx, c["field"]), len(f), len(rx))
    ctx.label(f"axis {c['axis']}", c["field"])
    with mp.workdps(40):
        for j, p in enumerate(rx):
            x, y = float(p[0] - loc[0]), float(p[1] - loc[1])
            r = mp.sqrt(mp.mpf(x) ** 2 + mp.mpf(y) ** 2)
            for i in range(len(f)):
                k2 = -1j * 2 * mp.pi * mp.mpf(float(f[i])) * mp.mpf(MU0) * mp.mpf(s0)
                a = 1j * mp.sqrt(k2) * r / 2
                g = c["m"] / (4 * mp.pi) * k2 / r * (mp.besseli(1, a) * mp.besselk(1, a) - mp.besseli(2, a) * mp.besselk(2, a))
                if c["axis"] == 2:
                    want, have = [g * x / r, g * y / r], got[i, j, :2]
                else:
                    want, have = [-g * (x, y)[c["axis"]] / r], got[i, j, 2:]
                want = np.array([complex(v) for v in want])
                close(f"coupling at a small induction number, receiver {j}, frequency {i}", have, want, 0, 1e-11 * float(abs(g)))


def bad_height():
    return st.one_of(gen.logf(1e-9, 1e3).map(lambda v: -v))


@facet(FACETS, st.fixed_dictionaries(dict(z=bad_height(), up=gen.logf(1e-9, 1e3), xy=gen.vec(gen.unit_coord(), 2), o=gen.orientation(),
                                          n=st.integers(0, 3), k=st.integers(0, 3))), 400)
def refused(c, ctx):
    """Sources and receivers on the wrong side of the surface are refused."""
    loc = c["xy"] + [c["z"]]
    raises(f"layered source at z = {c['z']}", ValueError, fdem.MagneticDipoleLayeredHalfSpace, 10.0, [1.0], location=loc, orientation=c["o"])
    for z in (c["z"], c["up"]):
        raises(f"half-space source at z = {z}", ValueError, fdem.MagneticDipoleHalfSpace, 10.0, location=c["xy"] + [z], orientation=c["o"])
    s = fdem.MagneticDipoleLayeredHalfSpace([10.0, 20.0], [1.0], location=c["xy"] + [c["up"]], orientation=c["o"])
    rx = np.array([[5.0 + i, 5.0, 1.0 * i] for i in range(c["n"] + 1)])
    s.magnetic_field(rx)
    rx[c["k"] % len(rx), 2] = c["z"]
    for field in ("secondary", "total"):
        raises(f"receiver at z = {c['z']} ({field})", ValueError, s.magnetic_field, rx, field=field)
