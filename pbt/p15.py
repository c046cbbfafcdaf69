"""P15: evaluation is pointwise and independent of packaging."""
import math

import numpy as np
from geoana.em import fdem, static, tdem

from . import gen
from .core import Discard, check_shape, close, facet, fail, truth, vec_close
from .gen import MU0, st
from .models import MODELS, NAMES, natural, noise, situations, spectral_len

FACETS = []
ASSUMPTIONS = [
    "The two frequency domain half-space dipoles document (n, 2) or (n, 3) arrays of points and drop axes of length one; they are checked for arrays (rank 2), frequencies and dtypes only.",
    "Tolerance 1e-9 of the vector at the point (rounding may depend on the memory layout), 1e-6 and the closed form's rounding noise for the transient half-space.",
]

FORMS = ["array", "list", "nested tuple rows", "tuple", "tuple of lists", "single", "single list", "single tuple", "grid", "fortran grid", "swapped grid", "rank4", "empty", "empty grid", "int", "int list", "float32",
         "fortran", "strided", "reversed", "broadcast", "readonly", "transposed view", "offset"]
ARRAY_FORMS = ["array", "int", "float32", "fortran", "strided", "reversed", "readonly", "transposed view", "offset"]


def package(P, form):
    """The same points in another container, and the points as a plain array (..., dim)."""
    P = np.array(P, float)
    d = P.shape[-1]
    if form == "array":
        return P.copy(), P
    if form == "list":
        return P.tolist(), P
    if form == "nested tuple rows":
        return [tuple(r) for r in P.tolist()], P
    if form == "tuple":
        return tuple(P[:, k].copy() for k in range(d)), P
    if form == "tuple of lists":
        return tuple(P[:, k].tolist() for k in range(d)), P
    if form == "single":
        return P[0].copy(), P[0]
    if form == "single list":
        return P[0].tolist(), P[0]
    if form == "single tuple":
        return tuple(P[0].tolist()), P[0]
    if form == "grid":
        G = np.stack([P, P[::-1]])
        return G.copy(), G
    if form == "fortran grid":
        G = np.stack([P, P[::-1]])
        return np.asfortranarray(G), G
    if form == "swapped grid":
        G = np.stack([P, P[::-1], P])
        return np.ascontiguousarray(np.swapaxes(G, 0, 1)).swapaxes(0, 1), G
    if form == "rank4":
        G = P[None, :, None, :]
        return G.copy(), G
    if form == "empty":
        return P[:0].copy(), P[:0]
    if form == "empty grid":
        G = np.zeros((2, 0, d))
        return G, G
    if form in ("int", "int list"):
        Q = np.round(P).astype(int)
        return (Q.tolist() if form == "int list" else Q), Q.astype(float)
    if form == "float32":
        Q = P.astype(np.float32)
        return Q, Q.astype(float)
    if form == "fortran":
        return np.asfortranarray(P), P
    if form == "strided":
        B = np.full((2 * len(P), 2 * d), 7.5)
        B[::2, ::2] = P
        return B[::2, ::2], P
    if form == "reversed":
        return P[::-1].copy()[::-1], P
    if form == "broadcast":
        G = np.broadcast_to(P[0], (3, d))
        return G, np.array(G)
    if form == "readonly":
        Q = P.copy()
        Q.setflags(write=False)
        return Q, P
    if form == "transposed view":
        return P.T.copy().T, P
    if form == "offset":  # not aligned to the item size
        buf = np.zeros(P.nbytes + 3, np.uint8)
        Q = buf[3:].view()[:P.nbytes].view(np.float64).reshape(P.shape)
        Q[...] = P
        return Q, P
    raise KeyError(form)


def rank_of(q):
    return 1 if q.rank is None else q.rank


def one_by_one(m, q, p, X):
    """Reference: a separate object per frequency or time and a separate call per point."""
    flat = X.reshape(-1, X.shape[-1])
    spec = [None]
    if m.spectral:
        spec = p[m.spectral] if isinstance(p[m.spectral], list) else [p[m.spectral]]
    out = []
    for s in spec:
        o = m.build(p if s is None else dict(p, **{m.spectral: s}))
        out.append([np.asarray(q(o, x.copy() if m.stack else x.reshape(1, -1).copy())) for x in flat])
    tail = (3,) * rank_of(q)
    if flat.shape[0] == 0:
        ref = np.zeros((len(spec),) + X.shape[:-1] + tail)
    else:
        ref = np.array(out).reshape((len(spec),) + X.shape[:-1] + tail)
    if not spectral_len(m, p):
        ref = ref[0]
    return ref


def bad_points(m, p, X):
    """Rounded or replaced points may fall onto the source."""
    if m.name in ("FDPlaneWave", "TDPlaneWave"):
        return False
    flat = X.reshape(-1, X.shape[-1])
    if len(flat) == 0:
        return False
    src = [p[k] for k in ("location", "location_a", "location_b") if k in p]
    for c in src:
        if np.any(np.linalg.norm(flat - np.array(c)[:flat.shape[1]], axis=1) < 0.05):
            return True
        if not m.stack and np.any(np.linalg.norm(flat[:, :2] - np.array(c)[:2], axis=1) < 0.3):
            return True
    if "radius" in p and "orientation" in p:
        mm = gen.unit(p["orientation"])
        d = flat - np.array(p["location"])
        z = d @ mm
        if np.any(np.hypot(np.sqrt(np.maximum(np.sum(d * d, 1) - z * z, 0)) - p["radius"], z) < 0.05):
            return True
    if "radius" in p and "orientation" not in p:
        r = np.linalg.norm(flat - np.array(p["location"]), axis=1)
        if np.any(np.abs(r / p["radius"] - 1) < 1e-6):
            return True
        if "primary_field" in p and np.any(np.abs(np.abs(r - p["radius"]) - 0.25) < 1e-6):
            return True
    if "nodes" in p:
        n = np.array(p["nodes"])
        for a, b in zip(n[:-1], n[1:]):
            t = (flat - a) @ (b - a) / ((b - a) @ (b - a))
            rho = np.linalg.norm(flat - a - t[:, None] * (b - a), axis=1)
            if np.any((rho > 1e-12) & (rho < 1e-2)):  # nearly, not exactly, on a continuation: cancellation
                return True
            t = np.clip(t, 0, 1)
            if np.any(np.linalg.norm(flat - a - t[:, None] * (b - a), axis=1) < 0.05):
                return True
    if "min_location" in p:
        a, b = np.array(p["min_location"]), np.array(p["max_location"])
        u = (flat - a) / (b - a)
        near = (np.abs(u) < 1e-3) | (np.abs(u - 1) < 1e-3)
        inside = np.all((u > -1e-2) & (u < 1.01), axis=1)
        if np.any(near.any(axis=1) & inside):
            return True
    return False


@st.composite
def cases(draw):
    s = draw(situations(lo=1, hi=4))
    m = MODELS[s["model"]]
    s["form"] = draw(st.sampled_from(FORMS if m.stack else ARRAY_FORMS))
    s["query"] = draw(st.integers(0, len(m.queries) - 1))
    return s


def spectral_forms(v, k):
    """The same frequencies or times in another container."""
    if isinstance(v, list):
        return [v, tuple(v), np.array(v), np.array(v)[::-1].copy()[::-1], np.repeat(np.array(v), 2)[::2]][k % 5]
    return [v, np.float64(v), np.array(v), v, np.float64(v)][k % 5]


@facet(FACETS, cases(), 4500)
def packaging(c, ctx):
    """Every query of every class, in every container, equals one call per point and per frequency or time; axes are frequency, points, components."""
    m = MODELS[c["model"]]
    q = m.queries[c["query"]]
    p = c["params"]
    given, X = package(c["pts"], c["form"])
    if bad_points(m, p, X):
        raise Discard
    ctx.label(m.name, c["form"])
    o = m.build(p)
    if m.spectral:
        setattr(o, m.spectral, spectral_forms(p[m.spectral], len(c["pts"]) + c["query"]))
    got = np.asarray(q(o, given))
    ref = one_by_one(m, q, p, X)
    if not m.stack:
        check_shape(f"{m.name}.{q.name}", got, tuple(n for n in ref.shape if n != 1))
        got = got.reshape(ref.shape)
    what = f"{m.name}.{q.name} of points given as {c['form']}"
    check_shape(what, got, ref.shape)
    if ref.size == 0:
        ctx.trivial = True
        return
    truth(f"{what}: finite", np.all(np.isfinite(got) | ~np.isfinite(ref)))
    ok = np.isfinite(ref)
    r = rank_of(q)
    n = noise(m, q, p, X)
    scale = np.sqrt(np.sum(np.abs(np.where(ok, ref, 0))**2, axis=tuple(range(-r, 0)), keepdims=True)) if r else np.abs(np.where(ok, ref, 0))
    atol = q.tol * scale + (n if r else 0.0) + 1e-11 * natural(m, q, o, X)
    if m.name.startswith("LineCurrent"):  # segments may cancel
        atol = atol + 1e-11 * abs(p["current"]) * {"B": p["mu"], "A": p["mu"], "H": 1.0, "J": 1.0, "E": 1 / p["sigma"], "V": 1 / p["sigma"]}[q.dim]
    if m.name in ("Prism", "MagneticPrism"):
        atol = atol + 1e-10 * np.max(scale)
    close(what, np.where(ok, got, 0), np.where(ok, ref, 0), atol=atol + 1e-300)


@facet(FACETS, situations(lo=2, hi=3), 500)
def every_container(c, ctx):
    """All containers and all queries for the same points."""
    m = MODELS[c["model"]]
    p = c["params"]
    ctx.label(m.name)
    P = np.array(c["pts"], float)
    o = m.build(p)
    refs = {}
    if bad_points(m, p, P):
        raise Discard
    base = [one_by_one(m, q, p, P) for q in m.queries]
    ax = len(spectral_len(m, p))
    for form in (FORMS if m.stack else ARRAY_FORMS):
        if "int" in form or form == "float32":
            continue
        given, X = package(P, form)
        where = np.array([int(np.argmin(np.sum((P - x)**2, axis=1))) for x in X.reshape(-1, X.shape[-1])], int).reshape(X.shape[:-1])
        for k, q in enumerate(m.queries):
            ref = np.take(base[k], where, axis=ax)
            got = np.asarray(q(o, given))
            what = f"{m.name}.{q.name} of points given as {form}"
            if not m.stack:
                check_shape(what, got, tuple(n for n in ref.shape if n != 1))
                got = got.reshape(ref.shape)
            check_shape(what, got, ref.shape)
            if not ref.size:
                continue
            if (k, "tol") not in refs:
                refs[k, "tol"] = 1e-9 * np.max(natural(m, q, o, P)) + np.max(noise(m, q, p, P))
                if m.name.startswith("LineCurrent"):
                    refs[k, "tol"] += 1e-11 * abs(p["current"]) * {"B": p["mu"], "A": p["mu"], "H": 1.0, "J": 1.0, "E": 1 / p["sigma"], "V": 1 / p["sigma"]}[q.dim]
            ok = np.isfinite(ref)
            close(what, np.where(ok, got, 0), np.where(ok, ref, 0), atol=refs[k, "tol"] + 1e-300)


@st.composite
def large_cases(draw):
    s = draw(situations(lo=1, hi=4))
    m = MODELS[s["model"]]
    s["n"] = draw(gen.sizes()) if m.name != "FDLayered" else draw(st.integers(5, 300))
    s["spec"] = draw(st.sampled_from([1, 1, 2, 5, 17, 40])) if m.spectral and m.name != "FDLayered" else 1
    s["shape"] = draw(st.sampled_from(["column", "grid", "deep"])) if m.stack else "column"
    s["query"] = draw(st.integers(0, len(m.queries) - 1))
    return s


@facet(FACETS, large_cases(), 600)
def large_batches(c, ctx):
    """Thousands of points and tens of frequencies or times in one call: every entry equals the one of a call with the few distinct points and values."""
    m = MODELS[c["model"]]
    p = c["params"]
    q = m.queries[c["query"]]
    P = np.array(c["pts"], float)
    if bad_points(m, p, P):
        raise Discard
    ctx.label(m.name, f"about {10**round(math.log10(c['n']))} points")
    few = m.build(p)
    ref = np.asarray(q(few, P.copy()))
    ns = spectral_len(m, p)
    r = rank_of(q)
    if not m.stack:
        ref = ref.reshape(ns + (len(P),) + (3,) * r)
    n = c["n"]
    idx = (np.arange(n) * 7919 + n) % len(P)
    shape = (n,)
    if c["shape"] == "grid" and n % 2 == 0:
        shape = (2, n // 2)
    elif c["shape"] == "deep":
        shape = (1, n, 1)
    X = P[idx].reshape(shape + (P.shape[1],))
    o = m.build(p)
    if ns and c["spec"] > 1:
        k = (np.arange(c["spec"]) * 31) % ns[0]
        setattr(o, m.spectral, np.array(p[m.spectral])[k])
        want = ref[k]
        ns = (c["spec"],)
    else:
        want = ref
    want = np.take(want, idx, axis=len(ns)).reshape(ns + shape + (3,) * r)
    got = np.asarray(q(o, X))
    what = f"{m.name}.{q.name} of {n} points"
    if not m.stack:
        check_shape(what, got, tuple(v for v in want.shape if v != 1))
        got = got.reshape(want.shape)
    check_shape(what, got, want.shape)
    tol = 1e-9 * np.max(natural(m, q, few, P)) + np.max(noise(m, q, p, P))
    if m.name.startswith("LineCurrent"):
        tol += 1e-11 * abs(p["current"]) * {"B": p["mu"], "A": p["mu"], "H": 1.0, "J": 1.0, "E": 1 / p["sigma"], "V": 1 / p["sigma"]}[q.dim]
    ok = np.isfinite(want)
    truth(f"{what}: finite", np.all(np.isfinite(got) | ~ok))
    close(what, np.where(ok, got, 0), np.where(ok, want, 0), atol=tol + 1e-300)


def odd_point(m, p, what, i):
    """A point at which an answer may be undefined: on the source, not a number, infinite, very far away."""
    d = m.xy
    if what in ("nan", "inf", "huge"):
        x = np.array([0.3, -0.7, -0.2])[:d]
        x[i % d] = {"nan": np.nan, "inf": -np.inf, "huge": -1e200}[what]
        return x
    if what == "all nan":
        return np.full(d, np.nan)
    if what == "axis" and "orientation" in p:
        return (np.array(p["location"] if "location" in p else [0, 0, 0]) + gen.unit(p["orientation"]) * (i - 2.0))[:d]
    if "nodes" in p:
        n = np.array(p["nodes"])
        k = i % (len(n) - 1)
        return n[k] if what == "source" else (n[k] + n[k + 1]) / 2
    if "min_location" in p:
        a, b = np.array(p["min_location"]), np.array(p["max_location"])
        t = np.array([i & 1, i >> 1 & 1, i >> 2 & 1], float)
        if what != "source":
            t[i % 3] = 0.5
        return a + t * (b - a) if what == "axis" else np.where(t == 0, a, np.where(t == 1, b, (a + b) / 2))
    c = np.array(p.get("location", p.get("location_a", [0.0, 0.0, 0.0])), float)
    if what == "surface" and "radius" in p:
        if "orientation" in p:
            o = gen.unit(p["orientation"])
            h = np.cross(o, np.eye(3)[int(np.argmin(np.abs(o)))])
            return c + p["radius"] * gen.unit(h)
        return c + p["radius"] * np.eye(3)[i % 3]
    return c[:d]


@st.composite
def odd_cases(draw):
    s = draw(situations(lo=1, hi=4))
    m = MODELS[s["model"]]
    s["odd"] = draw(st.lists(st.tuples(st.sampled_from(["nan", "inf", "huge", "all nan", "source", "source", "surface", "axis"]), st.integers(0, 7), st.integers(0, 4)).map(list), min_size=1, max_size=3))
    s["shape"] = draw(st.sampled_from(["flat", "flat", "column", "tuple"])) if m.stack else "flat"
    return s


@facet(FACETS, odd_cases(), 2500)
def odd_neighbours(c, ctx):
    """Points at which the answer is undefined or special do not change the answers at the other points of the batch."""
    m = MODELS[c["model"]]
    p = c["params"]
    P = np.array(c["pts"], float)
    if bad_points(m, p, P):
        raise Discard
    rows, keep = list(P), list(range(len(P)))
    for what, i, at in c["odd"]:
        at %= len(rows) + 1
        rows.insert(at, odd_point(m, p, what, i))
        keep = [k + (k >= at) for k in keep]
        ctx.label(what)
    ctx.label(m.name)
    X = np.array(rows)
    if m.motion == "flat" and m.xy == 3:
        X[:, 2] = np.abs(X[:, 2]) if m.name == "FDLayered" else -np.abs(X[:, 2])
    ns = spectral_len(m, p)
    o = m.build(p)
    for q in m.queries:
        r = rank_of(q)
        want = np.asarray(q(m.build(p), P.copy()))
        if not m.stack:
            want = want.reshape(ns + (len(P),) + (3,) * r)
        given = X.copy()
        if c["shape"] == "column":
            given = given[:, None]
        elif c["shape"] == "tuple":
            given = tuple(X[:, k].copy() for k in range(X.shape[1]))
        with np.errstate(all="ignore"):
            got = np.asarray(q(o, given))
        what = f"{m.name}.{q.name} next to special points"
        shape = ns + (len(X),) + ((1,) if c["shape"] == "column" else ()) + (3,) * r
        if not m.stack:
            check_shape(what, got, tuple(v for v in shape if v != 1))
        else:
            check_shape(what, got, shape)
        got = np.take(got.reshape(ns + (len(X),) + (3,) * r), keep, axis=len(ns))
        tol = 1e-9 * np.max(natural(m, q, o, P)) + np.max(noise(m, q, p, P))
        if m.name.startswith("LineCurrent"):
            tol += 1e-11 * abs(p["current"]) * {"B": p["mu"], "A": p["mu"], "H": 1.0, "J": 1.0, "E": 1 / p["sigma"], "V": 1 / p["sigma"]}[q.dim]
        ok = np.isfinite(want)
        truth(f"{what}: finite", np.all(np.isfinite(got) | ~ok))
        close(what, np.where(ok, got, 0), np.where(ok, want, 0), atol=tol + 1e-300)


# --------------------------------------------------------------------- pairs, helpers, functions
@facet(FACETS, st.fixed_dictionaries(dict(s=situations(["DipoleHalfSpace"], 2, 4), f1=st.sampled_from(["array", "list", "tuple", "grid", "fortran grid", "rank4", "fortran", "strided", "int", "single"]), f2=st.sampled_from(["same", "single", "array", "list"]),
                                          q=st.integers(0, 2))), 500)
def pairs(c, ctx):
    """Receiver pairs: the second electrode may be one point for all or one per first electrode, in any container."""
    m = MODELS["DipoleHalfSpace"]
    p = c["s"]["params"]
    q = m.queries[c["q"]]
    P = np.array(c["s"]["pts"])
    N = P[::-1] * 1.25
    g1, X = package(P, c["f1"])
    if c["f2"] == "single":
        g2, Y = N[0], N[0]
    elif c["f1"] in ("single", "grid", "fortran grid", "rank4"):
        g2, Y = package(N, c["f1"])
        if c["f2"] == "list":
            g2 = np.asarray(g2).tolist()
    else:
        g2, Y = package(N, "list" if c["f2"] == "list" else "array")
    if bad_points(m, p, X):
        raise Discard
    o = m.build(p)
    got = np.asarray(getattr(o, q.method)(g1, g2))
    flat, second = X.reshape(-1, 3), np.broadcast_to(Y, X.shape).reshape(-1, 3)
    ref = np.array([np.asarray(getattr(o, q.method)(a, b)) for a, b in zip(flat, second)]).reshape(X.shape[:-1] + (3,) * q.rank)
    parts = [np.abs(np.asarray(q(o, v))).max() for v in (flat, second)]
    ctx.label(c["f1"], c["f2"])
    check_shape("pair", got, ref.shape)
    close(f"pair {q.name}", got, ref, rtol=1e-9, atol=1e-11 * max(parts))
    # difference of two single receivers
    close(f"pair {q.name} is the difference", got, (np.array([q(o, a) for a in flat]) - np.array([q(o, b) for b in second])).reshape(ref.shape), rtol=1e-9, atol=1e-11 * max(parts))


@facet(FACETS, st.fixed_dictionaries(dict(s=situations([n for n in NAMES if n.endswith("Sphere") and n != "Sphere"], 1, 4), form=st.sampled_from(FORMS), q=st.integers(0, 2))), 600)
def all_fields(c, ctx):
    """The default answer of the spheres is the tuple (total, primary, secondary) of the separate ones."""
    m = MODELS[c["s"]["model"]]
    p = c["s"]["params"]
    names = ["potential", "electric_field", "current_density"] if m.name.startswith("Elec") else ["potential", "magnetic_field", "magnetic_flux_density"]
    given, X = package(c["s"]["pts"], c["form"])
    if bad_points(m, p, X):
        raise Discard
    o = m.build(p)
    f = getattr(o, names[c["q"]])
    out = f(given)
    truth("three answers", isinstance(out, tuple) and len(out) == 3, repr(type(out)))
    for k, v in zip(("total", "primary", "secondary"), out):
        w = np.asarray(f(given, field=k))
        check_shape(f"{names[c['q']]} {k}", v, X.shape[:-1] + ((3,) if c["q"] else ()))
        close(f"{names[c['q']]} {k}", v, w, rtol=1e-12, atol=1e-300)


HELPERS = ["vector_distance", "distance", "dot_orientation", "cross_orientation"]
DIPS = [n for n in NAMES if hasattr(MODELS[n].cls, "dot_orientation")]


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(DIPS), v=gen.points(4.0, 1, 4), form=st.sampled_from(["array", "grid", "fortran grid", "swapped grid", "rank4", "single", "fortran", "strided", "int", "list", "empty", "readonly"]), h=st.sampled_from(HELPERS))), 1200)
def helpers(c, ctx):
    """Offsets, distances and products with the orientation, for arrays of any rank."""
    m = MODELS[c["s"]["model"]]
    o = m.build(c["s"]["params"])
    given, X = package(c["v"], c["form"])
    loc = np.array(c["s"]["params"]["location"])
    d = gen.unit(c["s"]["params"].get("orientation", "X"))
    ctx.label(c["h"], c["form"])
    got = np.asarray(getattr(o, c["h"])(given))
    if c["h"] == "vector_distance":
        ref = X - loc
    elif c["h"] == "distance":
        ref = np.sqrt(np.sum((X - loc)**2, axis=-1))
    elif c["h"] == "dot_orientation":
        ref = X[..., 0] * d[0] + X[..., 1] * d[1] + X[..., 2] * d[2]
    else:
        ref = np.stack([X[..., 1] * d[2] - X[..., 2] * d[1], X[..., 2] * d[0] - X[..., 0] * d[2], X[..., 0] * d[1] - X[..., 1] * d[0]], -1)
    check_shape(c["h"], got, ref.shape)
    close(f"{m.name}.{c['h']}", got, ref, rtol=1e-12, atol=1e-13 * (1 + np.abs(X).max() if X.size else 1.0))


TFUN = ["magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"]
LFUN = ["vertical_magnetic_field_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop"]
GFUN = ["vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop"]


@facet(FACETS, st.fixed_dictionaries(dict(fn=st.sampled_from([("t", f) for f in TFUN] + [("l", f) for f in LFUN] + [("f", f) for f in GFUN]).map(list), t=st.lists(gen.uni(0, 1), min_size=1, max_size=4),
                                          xy=st.lists(gen.vec(gen.uni(1, 4), 2), min_size=1, max_size=4), sigma=gen.logf(0.1, 10), form=st.sampled_from(FORMS), tform=st.sampled_from(["scalar", "array", "0d", "list", "2d", "strided"]))), 1500)
def functions(c, ctx):
    """Transient dipole and loop functions: arrays of times, points and frequencies against single calls."""
    kind, name = c["fn"]
    ctx.label(name, c["tform"])
    t = [1e-6 * 10**(2 * u) if kind != "f" else 10**(5 * u) for u in c["t"]]
    if c["tform"] in ("scalar", "0d"):
        t = t[:1]
    T = np.array(t)
    given = {"scalar": t[0], "0d": np.array(t[0]), "array": T, "list": list(t), "2d": T[:, None], "strided": np.repeat(T, 3)[::3]}[c["tform"]]
    if kind == "t":
        if c["tform"] in ("2d",):
            raise Discard
        f = getattr(tdem, name)
        P = np.array(c["xy"])
        g, X = package(P, c["form"])
        got = np.asarray(f(given, g, sigma=c["sigma"], moment=2.0))
        flat = X.reshape(-1, 2)
        ref = np.array([[f(a, b, sigma=c["sigma"], moment=2.0) for b in flat] for a in t]).reshape((len(t),) + X.shape[:-1] + (3,))
        if c["tform"] in ("scalar", "0d"):
            ref = ref[0]
        check_shape(name, got, ref.shape)
        if ref.size:
            n = np.sqrt(np.sum(ref**2, axis=-1, keepdims=True))
            close(name, got, ref, atol=1e-7 * n)
        return
    if c["tform"] == "list":
        raise Discard
    if kind == "l":
        f = getattr(tdem, name)
    else:
        f = getattr(fdem, name)
    got = np.asarray(f(given, c["sigma"], radius=2.0))
    ref = np.array([f(a, c["sigma"], radius=2.0) for a in t]).reshape(np.shape(given))
    check_shape(name, got, ref.shape)
    atol = 1e-300
    if kind == "f":  # rounding of the closed form at low induction numbers
        atol = 1e-14 / (2 * math.pi * T.min() * MU0 * c["sigma"] * 8.0) * (MU0 if "flux" in name else 1.0)
    close(name, got, ref, rtol=1e-7, atol=atol)
