"""Gravity sources."""
import math

import numpy as np
from geoana import gravity

from . import gen, ref
from .core import Discard, close, facet, fail, truth, vec_close
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "G = 6.6743e-11 (CODATA 2018/2022, the value geoana takes from scipy).",
    "Prism reference: closed form evaluated with 40 digits (mpmath); tolerance is a rounding bound of the double evaluation.",
    "Tensor not compared on a body's surface (discontinuous there); prism points whose logarithm arguments cancel "
    "below 1e-8 relative are discarded.",
]


def lens():
    return gen.logf(0.05, 20.0)


def pointmass_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), mass=gen.strength(), L=gen.scale(), loc=gen.location(), pts=gen.offset_points()))


@facet(FACETS, pointmass_case(), 1500)
def point_mass(c, ctx):
    """PointMass against G m/r, its gradient and hessian."""
    L = c["L"]
    loc = np.array(c["loc"]) * L
    s = gen.Batched(gravity.PointMass(mass=c["mass"], location=loc), c["batch"])
    xyz = np.array(c["pts"]) * L + loc
    d = xyz - loc
    r = ref.norm(d)
    if np.any(r <= 1e-9 * L):
        raise Discard
    gm = ref.G * c["mass"]
    close("potential", s.gravitational_potential(xyz), gm / r, 1e-11)
    vec_close("field", s.gravitational_field(xyz), -gm * d / r[:, None] ** 3, 1e-11)
    T = gm * (3 * d[:, :, None] * d[:, None, :] / r[:, None, None] ** 5 - np.eye(3) / r[:, None, None] ** 3)
    vec_close("gradient", s.gravitational_gradient(xyz), T, 1e-11, axes=2)
    ctx.trivial = c["mass"] == 0


def sphere_case():
    ratio = st.one_of(gen.logf(1e-3, 1e3), st.sampled_from([0.0, 0.5, 2.0, 1 - 1e-6, 1 + 1e-6, 1.0]), gen.uni(0.01, 3), gen.near([1.0], 1e-9, 0.5))
    pt = st.tuples(gen.nonzero_vec(), ratio).map(list)
    return st.fixed_dictionaries(dict(batch=gen.batch(), rho=gen.strength(), R=gen.logf(1e-3, 1e5), loc=gen.location(),
                                      pts=st.lists(pt, min_size=1, max_size=5),
                                      by=st.sampled_from(["rho", "mass", "assign"])))


@facet(FACETS, sphere_case(), 2500)
def sphere(c, ctx):
    """Sphere inside and outside against the exact solution of Poisson's equation."""
    R, rho = c["R"], c["rho"]
    loc = np.array(c["loc"]) * R
    if c["by"] == "assign":
        s = gravity.Sphere(radius=2 * R + 1, rho=rho + 3, location=[1, 2, 3])
        s.radius, s.rho, s.location = R, rho, loc
    elif c["by"] == "mass":
        s = gravity.Sphere(radius=R, rho=7.0, location=loc)
        s.mass = rho * 4 / 3 * math.pi * R ** 3
        close("density from mass", s.rho, rho, 1e-12)
    else:
        s = gravity.Sphere(radius=R, rho=rho, location=loc)
    s = gen.Batched(s, c["batch"])
    M = 4 * math.pi / 3 * R ** 3 * rho
    close("mass", s.mass, M, 1e-12)
    xyz = np.array([gen.unit(v) * (q * R) for v, q in c["pts"]]) + loc
    d = xyz - loc
    r = ref.norm(d)
    gm = ref.G * M
    U, g, T = [], [], []
    for di, ri in zip(d, r):
        if ri > R:
            U.append(gm / ri)
            g.append(-gm * di / ri ** 3)
            T.append(gm * (3 * np.outer(di, di) / ri ** 5 - np.eye(3) / ri ** 3))
        else:
            U.append(gm * (3 * R * R - ri * ri) / (2 * R ** 3))
            g.append(-gm * di / R ** 3)
            T.append(-gm / R ** 3 * np.eye(3))
    close("potential", s.gravitational_potential(xyz), np.array(U), 1e-10)
    vec_close("field", s.gravitational_field(xyz), np.array(g), 1e-10, atol=abs(gm) / R ** 2 * 1e-14)
    off = np.abs(r / R - 1) > 1e-9
    out = s.gravitational_gradient(xyz)
    truth("gradient shape", np.shape(out) == (len(xyz), 3, 3), str(np.shape(out)))
    vec_close("gradient", np.asarray(out)[off], np.array(T)[off], 1e-10, axes=2)
    ctx.label("inside" if np.any(r < R) else "", "outside" if np.any(r > R) else "")
    ctx.trivial = rho == 0


def tcoord():
    """Position relative to a body's extent: 0 and 1 are its faces."""
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5, -1.0, 2.0]),
                     st.integers(1, 999).map(lambda k: k / 1000),
                     gen.near([0.0, 1.0], 1e-9, 0.3),
                     st.tuples(st.booleans(), gen.logf(1e-2, 100.0)).map(lambda t: 1 + t[1] if t[0] else -t[1]))


def prism_case(extra):
    return st.fixed_dictionaries(dict(L=gen.scale(), lo=gen.location(), size=gen.vec(lens()),
                                      pts=st.lists(gen.vec(tcoord()), min_size=1, max_size=3), batch=gen.batch(), **extra))


def prism_geometry(c):
    L = c["L"]
    lo = np.array(c["lo"]) * L
    hi = lo + np.array(c["size"]) * L
    pts = []
    for t in c["pts"]:
        pts.append([lo[a] if t[a] == 0 else hi[a] if t[a] == 1 else lo[a] + t[a] * (hi[a] - lo[a]) for a in range(3)])
    return lo, hi, np.array(pts, float)


def where(lo, hi, p):
    inside = np.all((p > lo) & (p < hi))
    outside = np.any((p < lo) | (p > hi))
    return "inside" if inside else "outside" if outside else "surface"


@facet(FACETS, prism_case(dict(rho=gen.strength(), scalar=st.booleans())), 1500, 20000)
def prism(c, ctx):
    """Prism potential, field and gradient against a 40 digit evaluation of the volume integral."""
    lo, hi, xyz = prism_geometry(c)
    rho = c["rho"]
    s = gen.Batched(gravity.Prism(min_location=lo, max_location=hi, rho=rho), c["batch"])
    close("volume", s.volume, np.prod(hi - lo), 1e-12)
    close("mass", s.mass, np.prod(hi - lo) * rho, 1e-12)
    close("location", s.location, (lo + hi) / 2, 1e-13, 1e-14 * np.max(np.abs(hi)))
    k = ref.G * rho
    U, g, T = (s.gravitational_potential(xyz), s.gravitational_field(xyz), s.gravitational_gradient(xyz))
    for n, o in (("potential", (U, ())), ("field", (g, (3,))), ("gradient", (T, (3, 3)))):
        if np.shape(o[0]) != (len(xyz),) + o[1]:
            fail(f"{n}: shape {np.shape(o[0])}")
    ctx.trivial = True
    for i, p in enumerate(xyz):
        ev, eg, eh, kap = ref.prism_error(lo, hi, p)
        if kap > 1e8:
            ctx.label("cancelling")
            continue
        V, dV, ddV = ref.prism_float(lo, hi, p)
        w = where(lo, hi, p)
        close(f"potential ({w})", U[i], k * V, 1e-10, abs(k) * ev)
        close(f"field ({w})", g[i], k * dV, 1e-10, abs(k) * eg)
        if w != "surface":
            close(f"gradient ({w})", T[i], k * ddV, 1e-10, abs(k) * eh)
        ctx.label(w)
        if c["rho"] and np.max(eg) < 1e-4 * np.max(np.abs(dV)):
            ctx.trivial = False


def split_case():
    return prism_case(dict(rho=gen.strength(), axis=st.integers(0, 2), frac=st.integers(50, 950)))


@facet(FACETS, split_case(), 500)
def prism_subdivision(c, ctx):
    """A prism is the sum of its two parts; far away it is the point mass at its centre."""
    lo, hi, xyz = prism_geometry(c)
    a, rho = c["axis"], c["rho"]
    cut = lo[a] + (hi[a] - lo[a]) * c["frac"] / 1000
    hi1, lo2 = hi.copy(), lo.copy()
    hi1[a], lo2[a] = cut, cut
    whole = gravity.Prism(lo, hi, rho)
    p1, p2 = gravity.Prism(lo, hi1, rho), gravity.Prism(lo2, hi, rho)
    close("mass", p1.mass + p2.mass, whole.mass, 1e-10)
    k = abs(ref.G * rho)
    for p in xyz:
        errs = [ref.prism_error(A, B, p) for A, B in ((lo, hi), (lo, hi1), (lo2, hi))]
        if max(e[3] for e in errs) > 1e8:
            continue
        e = [k * sum(x[j] for x in errs) for j in range(3)]
        close("potential", p1.gravitational_potential(p) + p2.gravitational_potential(p),
              whole.gravitational_potential(p), 1e-10, e[0])
        close("field", p1.gravitational_field(p) + p2.gravitational_field(p), whole.gravitational_field(p), 1e-10, e[1])
        if all(where(A, B, p) != "surface" for A, B in ((lo, hi), (lo, hi1), (lo2, hi))):
            close("gradient", p1.gravitational_gradient(p) + p2.gravitational_gradient(p),
                  whole.gravitational_gradient(p), 1e-10, e[2])
    # far field
    diam = ref.norm(hi - lo)
    n = gen.unit(np.array(c["size"]) * np.where(np.array(c["lo"]) < 0, -1, 1))
    p = whole.location + n * diam * 300
    pm = gravity.PointMass(whole.mass, whole.location)
    ev = k * ref.prism_error(lo, hi, p)[0]
    close("far potential", whole.gravitational_potential(p), pm.gravitational_potential(p), 1e-4, ev)
    ctx.trivial = rho == 0


@facet(FACETS, sphere_case(), 300)
def shells(c, ctx):
    """Differences of concentric spheres act as point masses outside and pull nothing inside."""
    R, rho = c["R"], c["rho"]
    loc = np.array(c["loc"]) * R
    big = gravity.Sphere(radius=2 * R, rho=rho, location=loc)
    small = gravity.Sphere(radius=R, rho=rho, location=loc)
    for v, q in c["pts"]:
        if abs(q - 1) < 1e-3 or abs(q - 2) < 1e-3:
            continue
        p = gen.unit(v) * (q * R) + loc
        d = p - loc
        g = big.gravitational_field(p) - small.gravitational_field(p)
        m = big.mass - small.mass
        if q < 1:
            close("field in a shell", g, np.zeros(3), 0, 1e-12 * abs(ref.G * m) / R ** 2)
        elif q > 2:
            vec_close("field outside a shell", g, -ref.G * m * d / ref.norm(d) ** 3, 1e-10)
        t = big.gravitational_gradient(p)
        want = 0.0 if q > 2 else -4 * math.pi * ref.G * rho
        close("trace (Poisson)", np.trace(t), want, 1e-9, 1e-12 * abs(ref.G * big.mass) / (R * max(q, 1)) ** 3)
    ctx.trivial = rho == 0
