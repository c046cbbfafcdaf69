"""Galvanic sources."""
import math

import numpy as np
from geoana.em.static import DipoleHalfSpace, LineCurrentWholeSpace, PointCurrentHalfSpace, PointCurrentWholeSpace

from . import gen, ref
from .core import Discard, close, facet, fail, raises, truth, vec_close
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "Point source potential rho I/(4 pi r), field as its exact gradient, half-space by one image electrode above the surface.",
    "Receivers are kept 1e-6 length units away from electrodes.",
]


def point(I, rho, loc, x):
    """Potential and field of one electrode in the whole space."""
    d = x - loc
    r = ref.norm(d)
    k = rho * I / (4 * math.pi)
    return k / r, k * d / r[..., None] ** 3, r


def cond(xyz, r):
    """Relative error of fields from the rounding of positions."""
    return 1e-12


def whole_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), I=gen.strength(), rho=gen.logf(1e-4, 1e6), L=gen.scale(), loc=gen.location(),
                                      pts=gen.offset_points(), default=st.booleans(), assign=st.booleans()))


@facet(FACETS, whole_case(), 2500)
def point_whole(c, ctx):
    """PointCurrentWholeSpace: potential, field, current density."""
    L = c["L"]
    loc = np.zeros(3) if c["default"] else np.array(c["loc"]) * L
    xyz = np.array(c["pts"]) * L + loc
    if c["default"]:
        s = PointCurrentWholeSpace(c["rho"], current=c["I"])
    elif c["assign"]:
        s = PointCurrentWholeSpace(c["rho"] * 2, current=c["I"] + 1, location=loc + 1)
        s.rho, s.current, s.location = c["rho"], c["I"], loc
    else:
        s = PointCurrentWholeSpace(c["rho"], current=c["I"], location=loc)
    s = gen.Batched(s, c["batch"])
    V, E, r = point(c["I"], c["rho"], loc, xyz)
    if np.min(r) < 1e-6 * L:
        raise Discard
    ctx.trivial = c["I"] == 0
    close("potential", s.potential(xyz), V, 1e-11)
    close("scalar potential", s.scalar_potential(xyz), V, 1e-11)
    vec_close("electric field", s.electric_field(xyz), E, 1e-11)
    vec_close("current density", s.current_density(xyz), E / c["rho"], 1e-11)
    vec_close("no magnetic field of a bare electrode", s.magnetic_field(xyz), np.zeros_like(xyz), 0, 0)


def wire_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), I=gen.strength(), sigma=gen.sigma(), L=gen.scale(),
                                      nodes=gen.wire_nodes(gen.unit_coord(), 1, 5), close=st.booleans(), shift=gen.shift(),
                                      pts=gen.points(5.0)))


@facet(FACETS, wire_case(), 2500)
def grounded_wire(c, ctx):
    """Grounded polyline: current enters the earth at the last node, leaves at the first; closed wires ground nowhere."""
    L = c["L"]
    sh = np.array(c["shift"]) * L
    nodes = np.array(c["nodes"]) * L + sh
    if c["close"]:
        nodes = np.vstack([nodes, nodes[:1]])
    xyz = np.array(c["pts"]) * L + sh
    s = gen.Batched(LineCurrentWholeSpace(nodes=nodes, current=c["I"], sigma=c["sigma"]), c["batch"])
    a = nodes[-1]
    b = nodes[0]
    rho = 1 / c["sigma"]
    if min(ref.norm(xyz - a).min(), ref.norm(xyz - b).min()) < 1e-6 * L:
        raise Discard
    Va, Ea, ra = point(c["I"], rho, a, xyz)
    Vb, Eb, rb = point(c["I"], rho, b, xyz)
    if len(nodes) == 1:
        V, E = Va, Ea
        eV, eE = np.abs(V), np.abs(E).max(axis=-1)
        ctx.label("one node")
    elif np.array_equal(a, b):
        V, E, eV, eE = 0 * Va, 0 * Ea, 0 * Va, 0 * Va
        ctx.label("closed")
    else:
        V, E = Va - Vb, Ea - Eb
        eV, eE = np.abs(Va) + np.abs(Vb), np.abs(Ea).max(axis=-1) + np.abs(Eb).max(axis=-1)
        ctx.label("open")
    ctx.trivial = c["I"] == 0
    close("potential", s.scalar_potential(xyz), V, 0, 1e-11 * eV)
    close("electric field", s.electric_field(xyz), E, 0, 1e-11 * eE[..., None])
    close("current density", s.current_density(xyz), E * c["sigma"], 0, 1e-11 * eE[..., None] * c["sigma"])


def depth():
    return st.one_of(st.just(0.0), st.sampled_from([-0.5, -1.0, -2.0]), gen.logf(1e-3, 5.0).map(lambda v: -v))


def below():
    return st.tuples(gen.unit_coord(), gen.unit_coord(), depth()).map(list)


def half_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), I=gen.strength(), rho=gen.logf(1e-4, 1e6), L=gen.scale(), loc=st.one_of(st.none(), below()),
                                      pts=st.lists(below(), min_size=1, max_size=4), assign=st.booleans(), shift=gen.shift(2)))


def half_point(I, rho, loc, x):
    im = loc * [1, 1, -1]
    V1, E1, r1 = point(I, rho, loc, x)
    V2, E2, r2 = point(I, rho, im, x)
    return V1 + V2, E1 + E2, np.abs(V1) + np.abs(V2), np.max(np.abs(E1), -1) + np.max(np.abs(E2), -1), np.minimum(r1, r2)


@facet(FACETS, half_case(), 3000)
def point_half(c, ctx):
    """Electrode in a half-space: image solution, tangential current at the surface."""
    L, rho, I = c["L"], c["rho"], c["I"]
    loc = np.zeros(3) if c["loc"] is None else np.array(c["loc"]) * L
    sh = np.array(c["shift"] + [0.0]) * L
    loc = loc if c["loc"] is None else loc + sh
    xyz = np.array(c["pts"]) * L + (0 if c["loc"] is None else sh)
    V, E, eV, eE, r = half_point(I, rho, loc, xyz)
    if np.min(r) < 1e-6 * L:
        raise Discard
    if c["assign"]:
        s = PointCurrentHalfSpace(rho * 3, current=I - 2, location=[1, 2, -3])
        s.location, s.current, s.rho = loc, I, rho
    elif c["loc"] is None:
        s = PointCurrentHalfSpace(rho, current=I)
    else:
        s = PointCurrentHalfSpace(rho, current=I, location=loc)
    s = gen.Batched(s, c["batch"])
    ctx.trivial = I == 0
    ctx.label("buried" if loc[2] < 0 else "surface")
    close("potential", s.potential(xyz), V, 0, 1e-11 * eV)
    e, j = np.asarray(s.electric_field(xyz)), np.asarray(s.current_density(xyz))
    close("electric field", e, E, 0, 1e-11 * eE[:, None])
    close("current density", j, E / rho, 0, 1e-11 * eE[:, None] / rho)
    surf = xyz[:, 2] == 0
    close("current through the surface", j[surf, 2], np.zeros(int(surf.sum())), 0, 1e-12 * eE[surf] / rho)
    if np.any(surf):
        ctx.label("receiver at surface")


def pair_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), I=gen.strength(), rho=gen.logf(1e-4, 1e6), L=gen.scale(), a=st.one_of(st.none(), below()),
                                      b=st.one_of(st.none(), below()), m=st.lists(below(), min_size=1, max_size=3),
                                      n=st.one_of(st.none(), st.lists(below(), min_size=3, max_size=3)), assign=st.booleans(), shift=gen.shift(2)))


@facet(FACETS, pair_case(), 3000)
def pair_half(c, ctx):
    """Electrode pair: A minus B, receiver M minus receiver N, all three quantities."""
    rho, I = c["rho"], c["I"]
    L = 1.0 if c["a"] is None or c["b"] is None else c["L"]
    sh = np.array(c["shift"] + [0.0]) * L if c["a"] and c["b"] else np.zeros(3)
    a = np.array([-1.0, 0, 0]) if c["a"] is None else np.array(c["a"]) * L + sh
    b = np.array([1.0, 0, 0]) if c["b"] is None else np.array(c["b"]) * L + sh
    m = np.array(c["m"]) * L + sh
    n = None if c["n"] is None else np.array(c["n"][:len(m)]) * L + sh
    if c["assign"]:
        s = DipoleHalfSpace(rho * 3, location_a=[1, 2, -3], location_b=[0, 0, -1], current=I - 2)
        s.location_a, s.location_b, s.current, s.rho = a, b, I, rho
    else:
        kw = {}
        if c["a"] is not None:
            kw["location_a"] = a
        if c["b"] is not None:
            kw["location_b"] = b
        s = DipoleHalfSpace(rho, current=I, **kw)
    s = gen.Batched(s, c["batch"])
    V, E, eV, eE = 0.0, 0.0, 0.0, 0.0
    for sg, x in ((1, m), (-1, n)):
        if x is None:
            continue
        for se, el in ((1, a), (-1, b)):
            v, e, ev, ee, r = half_point(I, rho, el, x)
            if np.min(r) < 1e-6 * L:
                raise Discard
            V, E, eV, eE = V + sg * se * v, E + sg * se * e, eV + ev, eE + ee
    ctx.trivial = I == 0
    ctx.label("single receiver" if n is None else "receiver pair")
    args = (m,) if n is None else (m, n)
    close("potential", s.potential(*args), V, 0, 1e-11 * eV)
    close("electric field", s.electric_field(*args), E, 0, 1e-11 * eE[:, None])
    close("current density", s.current_density(*args), E / rho, 0, 1e-11 * eE[:, None] / rho)
    if n is not None:
        close("exchanged receivers", s.potential(n, m), -V, 0, 1e-11 * eV)
        close("keyword receiver", s.potential(m, xyz_n=n), V, 0, 1e-11 * eV)
    # reciprocity: exchanging current and potential electrodes
    if n is not None:
        t = DipoleHalfSpace(rho, location_a=m[0], location_b=n[0], current=I)
        if ref.norm(m[0] - n[0]) > 1e-6 * L:
            close("reciprocity", t.potential(a, b), s.potential(m[:1], n[:1])[0], 0, 1e-11 * eV[0])


def refuse_case():
    return st.fixed_dictionaries(dict(z=gen.logf(1e-12, 1e3), pts=st.lists(below(), min_size=0, max_size=3), where=st.integers(0, 3),
                                      L=gen.scale(), meth=st.sampled_from(["potential", "electric_field", "current_density"]),
                                      who=st.sampled_from(["point", "pair m", "pair n", "location", "location_a", "location_b",
                                                           "init", "init_a", "init_b"])))


@facet(FACETS, refuse_case(), 1200)
def refused_above(c, ctx):
    """A receiver or electrode above the surface is refused with a ValueError, wherever it is in the batch."""
    pts = [list(p) for p in c["pts"]]
    pts.insert(min(c["where"], len(pts)), [0.3, -0.7, c["z"]])
    xyz = np.array(pts) * c["L"]
    bad = np.array([0.1, 0.2, c["z"]]) * c["L"]
    ok = np.array([[5.0, 4.0, -1.0]] * len(xyz)) * c["L"]
    p = PointCurrentHalfSpace(10.0, location=[3.3, 3.3, -3.3])
    d = DipoleHalfSpace(10.0, location_a=[3.3, 3.3, -3.3], location_b=[-3.3, 3.3, 0.0])
    ctx.label(c["who"])
    w = c["who"]
    if w == "point":
        raises(w, ValueError, getattr(p, c["meth"]), xyz)
    elif w == "pair m":
        raises(w, ValueError, getattr(d, c["meth"]), xyz, ok)
        raises(w, ValueError, getattr(d, c["meth"]), xyz)
    elif w == "pair n":
        raises(w, ValueError, getattr(d, c["meth"]), ok, xyz)
    elif w == "location":
        raises(w, ValueError, setattr, p, "location", bad)
    elif w in ("location_a", "location_b"):
        raises(w, ValueError, setattr, d, w, bad)
    elif w == "init":
        raises(w, ValueError, PointCurrentHalfSpace, 10.0, location=bad)
    elif w == "init_a":
        raises(w, ValueError, DipoleHalfSpace, 10.0, location_a=bad)
    else:
        raises(w, ValueError, DipoleHalfSpace, 10.0, location_b=bad)


@facet(FACETS, half_case(), 300)
def current_balance(c, ctx):
    """The current through a surface around a buried electrode is the injected one; around nothing it is zero."""
    if c["loc"] is None or c["I"] == 0:
        raise Discard
    L = c["L"]
    loc = np.array(c["loc"]) * L
    s = PointCurrentHalfSpace(c["rho"], current=c["I"], location=loc)
    x, w = ref.gauss(24)
    ph = 2 * math.pi * np.arange(48) / 48
    if loc[2] < -1e-3 * L:  # sphere inside of the half-space
        R = 0.5 * abs(loc[2])
        ct, wt = x, w
        centre, want = loc, c["I"]
    else:  # lower half sphere about a surface electrode
        R = 0.7 * L
        ct, wt = (x - 1) / 2, w / 2
        centre, want = loc * [1, 1, 0], c["I"]
        if loc[2] != 0:
            raise Discard
    stn = np.sqrt(1 - ct ** 2)
    n = np.stack([stn[:, None] * np.cos(ph), stn[:, None] * np.sin(ph), np.repeat(ct[:, None], 48, 1)], axis=-1)
    J = np.asarray(s.current_density(centre + R * n))
    flux = np.sum(wt[:, None] * np.sum(J * n, axis=-1)) * R * R * 2 * math.pi / 48
    close("injected current", flux, want, 1e-6)
