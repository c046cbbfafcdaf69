"""Sphere in a uniform field."""
import math

import numpy as np
from geoana.em.static import ElectrostaticSphere, MagnetostaticSphere

from . import gen, ref
from .core import close, facet, fail, truth
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "Exact interior/exterior solution of Laplace's equation for one sphere (dipole outside, uniform inside).",
    "Points within 1e-9 radii of the surface are only compared where the quantity is continuous.",
    "Charge density: permittivity of free space times the jump of the normal field, in the shell of width dr about the surface.",
]


def prop():
    return st.one_of(st.sampled_from([1.0, 2.0, 10.0, 0.1]), gen.logf(1e-8, 1e8))


def pt():
    ratio = st.one_of(gen.logf(1e-3, 1e2), st.sampled_from([0.0, 0.5, 2.0, 1 - 1e-6, 1 + 1e-6, 1.02, 0.98, 1.03, 0.97]), gen.uni(0.01, 3))
    return st.tuples(gen.nonzero_vec(), ratio).map(list)


def case(extra=None):
    return st.fixed_dictionaries(dict(batch=gen.batch(), kind=st.sampled_from(["E", "H"]), R=gen.logf(1e-3, 1e5), p1=prop(), p0=prop(),
                                      f=st.one_of(st.none(), gen.vec(gen.unit_coord()),
                                                  st.tuples(gen.nonzero_vec(), gen.logf(1e-3, 1e3)).map(
                                                      lambda t: [v * t[1] for v in t[0]])),
                                      loc=st.one_of(st.none(), gen.location()), pts=st.lists(pt(), min_size=1, max_size=5),
                                      **(extra or {})))


def build(c):
    R = c["R"]
    kw = {}
    if c["f"] is not None:
        kw["primary_field"] = c["f"]
    if c["loc"] is not None:
        kw["location"] = np.array(c["loc"]) * R
    cls = ElectrostaticSphere if c["kind"] == "E" else MagnetostaticSphere
    s = cls(R, c["p1"], c["p0"], **kw)
    F0 = np.array([1.0, 0, 0] if c["f"] is None else c["f"])
    loc = np.zeros(3) if c["loc"] is None else np.array(c["loc"]) * R
    names = ("electric_field", "current_density") if c["kind"] == "E" else ("magnetic_field", "magnetic_flux_density")
    return gen.Batched(s, c["batch"]), F0, loc, names


def solution(c, F0, d):
    """potential (t, p, s), field (t, p, s), flux (t, p, s), all at offset d."""
    R, p0, p1 = c["R"], c["p0"], c["p1"]
    r = math.sqrt(float(d @ d))
    s = (p1 - p0) / (p1 + 2 * p0)
    inside = r <= R
    if inside:
        es = -s * F0
        vs = s * float(F0 @ d)
    else:
        q = (R / r) ** 3
        n = d / r
        es = s * q * (3 * float(F0 @ n) * n - F0)
        vs = s * q * float(F0 @ d)
    vp = -float(F0 @ d)
    et = F0 + es
    if inside:
        et = 3 * p0 / (p1 + 2 * p0) * F0
    pr = p1 if inside else p0
    return (vp + vs, vp, vs), (et, F0, es), (pr * et, p0 * F0, pr * et - p0 * F0), r, inside


@facet(FACETS, case(), 4000)
def fields(c, ctx):
    """Potential, field and flux density: total, primary, secondary and all, against the exact solution."""
    s, F0, loc, names = build(c)
    R = c["R"]
    xyz = np.array([gen.unit(v) * (q * R) for v, q in c["pts"]]) + loc
    sols = [solution(c, F0, p - loc) for p in xyz]
    nf = float(ref.norm(F0))
    ctx.trivial = nf == 0 or c["p0"] == c["p1"]
    ctx.label(c["kind"])
    for qi, name in enumerate(("potential",) + names):
        f = getattr(s, name)
        allv = f(xyz)
        truth(f"{name} returns total, primary, secondary", isinstance(allv, (tuple, list)) and len(allv) == 3, repr(type(allv)))
        expl = f(xyz, field="all")
        for k, which in enumerate(("total", "primary", "secondary")):
            one = np.asarray(f(xyz, field=which))
            want = np.array([so[qi][k] for so in sols])
            if one.shape != want.shape:
                fail(f"{name} {which}: shape {one.shape}, expected {want.shape}")
            for i, so in enumerate(sols):
                r, inside = so[3], so[4]
                near = abs(r / R - 1) < 1e-9
                if near and qi > 0:
                    continue
                pr = c["p1"] if inside else c["p0"]
                scale = {0: nf * r, 1: nf, 2: nf * max(pr, c["p0"])}[qi] if k else \
                    {0: nf * r, 1: float(ref.norm(so[1][0])) + (0 if inside else 3 * nf),
                     2: pr * (float(ref.norm(so[1][0])) + (0 if inside else 3 * nf))}[qi]
                close(f"{c['kind']} {name} {which} ({'inside' if inside else 'outside'})", one[i], want[i], 1e-10, 1e-13 * scale + (
                    1e-9 * nf * R if near else 0))
                close(f"{name} in the tuple: {which}", np.asarray(allv[k])[i], one[i], 0, 0)
                close(f"{name} in the tuple (all): {which}", np.asarray(expl[k])[i], one[i], 0, 0)


@facet(FACETS, case(dict(dr=st.one_of(st.none(), st.just(0.0), gen.logf(1e-3, 1.0), gen.logf(1.0, 1.9)))), 1500)
def charge(c, ctx):
    """Charge density: jump of the normal field in the shell about the surface, zero elsewhere."""
    c = dict(c, kind="E")
    s, F0, loc, names = build(c)
    R = c["R"]
    dr = 0.05 * R if c["dr"] is None else c["dr"] * R
    xyz = np.array([gen.unit(v) * (q * R) for v, q in c["pts"]]) + loc
    got = np.asarray(s.charge_density(xyz) if c["dr"] is None else s.charge_density(xyz, dr=dr))
    if got.shape != (len(xyz),):
        fail(f"shape {got.shape}")
    sc = (c["p1"] - c["p0"]) / (c["p1"] + 2 * c["p0"])
    ctx.trivial = True
    for i, p in enumerate(xyz):
        d = p - loc
        r = float(ref.norm(d))
        if abs(abs(r - R) - dr / 2) < 1e-9 * R or r == 0:
            continue
        want = ref.EPS0 * 3 * sc * float(F0 @ d) / r if abs(r - R) < dr / 2 else 0.0
        close("charge density", got[i], want, 1e-9, 1e-13 * ref.EPS0 * float(ref.norm(F0)))
        if want:
            ctx.trivial = False
            ctx.label("in shell")


@facet(FACETS, case(), 800)
def interface(c, ctx):
    """Across the surface: potential, tangential field and normal flux continuous (returned values only)."""
    s, F0, loc, names = build(c)
    R = c["R"]
    h = 1e-7
    nf = float(ref.norm(F0))
    ctx.trivial = nf == 0
    for v, _ in c["pts"]:
        n = gen.unit(v)
        a, b = loc + n * R * (1 - h), loc + n * R * (1 + h)
        if not (ref.norm(a - loc) < R < ref.norm(b - loc)):
            continue
        close("potential", s.potential(a, "total"), s.potential(b, "total"), 0, 1e-6 * nf * R)
        fa, fb = getattr(s, names[0])(a, "total"), getattr(s, names[0])(b, "total")
        ja, jb = getattr(s, names[1])(a, "total"), getattr(s, names[1])(b, "total")
        close("tangential field", fa - (fa @ n) * n, fb - (fb @ n) * n, 0, 2e-6 * nf)
        close("normal flux", ja @ n, jb @ n, 0, 2e-6 * nf * max(abs(c["p0"]), 0) * 3)
        if c["kind"] == "E":
            q = s.charge_density(b)
            close("surface charge", q, ref.EPS0 * ((fb - fa) @ n), 0, 1e-5 * ref.EPS0 * nf)
