"""P19: rigid motions, superposition and scaling."""
import itertools
import math

import numpy as np
from geoana import gravity
from geoana.em import fdem, static

from . import gen
from .core import Discard, close, facet, truth
from .gen import st
from .models import DIM, MODELS, NAMES, conv, natural, noise, situations
from .p15 import bad_points

FACETS = []
ASSUMPTIONS = [
    "Half-space and plane wave sources: rotations about the vertical and horizontal translations; prisms: the 24 rotations of a cube and translations; all others: any proper rotation and translation.",
    "Scaling: all units of length, time, current and mass at once, except where natural constants enter (G: mass unit fixed by length and time; mu_0 in the half-space dipole and the prism's flux; mu_0 and epsilon_0 in the layered earth).",
    "Tolerance 1e-8 of the natural size of the answer near the point (1e-6 for the transient half-space), plus the closed form's rounding noise.",
]
CUBE = [np.array(P) for P in (np.diag(s) @ np.eye(3)[list(p)] for p in itertools.permutations(range(3)) for s in itertools.product([1, -1], repeat=3)) if np.linalg.det(P) > 0]


def rot(m, c):
    if m.motion == "box":
        return CUBE[c["cube"]]
    if m.motion == "flat":
        a = c["angle"]
        return np.array([[math.cos(a), -math.sin(a), 0.0], [math.sin(a), math.cos(a), 0.0], [0.0, 0.0, 1.0]])
    return gen.rotmat(c["rot"])


MOVE = dict(rot=gen.rotation(), cube=st.integers(0, 23), angle=st.one_of(st.sampled_from([math.pi / 2, math.pi, 1.0]), gen.uni(0, 2 * math.pi)), shift=st.one_of(st.just([0.0, 0.0, 0.0]), gen.vec(gen.unit_coord(3.0)), gen.vec(gen.signed(gen.logf(10.0, 1e5)))))


def moved(m, p, R, t):
    """Parameters of the moved source."""
    out = {}
    lo, hi = p.get("min_location"), p.get("max_location")
    for k, v in p.items():
        kind = m.params[k]
        if kind.startswith("loc"):
            out[k] = (R @ np.array(v) + t).tolist()
        elif kind.startswith("orient"):
            out[k] = (R @ gen.unit(v)).tolist()
            if kind == "orient_h":
                out[k][2] = 0.0
        elif kind == "vec":
            out[k] = (R @ np.array(v)).tolist()
        elif kind == "nodes":
            out[k] = (np.array(v) @ R.T + t).tolist()
        elif kind in ("corner_lo", "corner_hi"):
            a, b = R @ np.array(lo) + t, R @ np.array(hi) + t
            out[k] = (np.minimum(a, b) if kind == "corner_lo" else np.maximum(a, b)).tolist()
        else:
            out[k] = v
    return out


def tolerance(m, q, o, p, X, rtol=1e-8):
    """Absolute tolerance per point for answer q of object o."""
    nat = natural(m, q, o, X)
    tol = max(rtol, q.tol) * nat + noise(m, q, p, X) + 1e-290
    if m.name.startswith("LineCurrent"):
        tol = tol + 1e-10 * abs(p["current"]) * {"B": p["mu"], "A": p["mu"], "H": 1.0, "J": 1.0, "E": 1 / p["sigma"], "V": 1 / p["sigma"]}[q.dim]
    if m.name in ("Prism", "MagneticPrism"):
        tol = tol + 1e-8 * np.max(nat)
    return tol


def near_continuation(p, X):
    """Points so near a wire's continuation that its terms cancel."""
    if "nodes" not in p:
        return False
    n = np.array(p["nodes"])
    for a, b in zip(n[:-1], n[1:]):
        t = (X - a) @ (b - a) / ((b - a) @ (b - a))
        if np.any(np.linalg.norm(X - a - t[:, None] * (b - a), axis=1) < 1e-2):
            return True
    return False


def edge_lines(p, X):
    """Points near the continuation of a prism's edges or faces through which logarithms cancel."""
    if "min_location" not in p:
        return False
    a, b = np.array(p["min_location"]), np.array(p["max_location"])
    u = (X - a) / (b - a)
    near = (np.abs(u) < 1e-3) | (np.abs(u - 1) < 1e-3)
    return bool(np.any(near.sum(axis=1) >= 2) or np.any(near.any(axis=1) & np.all((u > -1e-2) & (u < 1.01), axis=1)))


def rounded(p, X, t):
    """Relative change of a field that decays exponentially when offsets are rounded at coordinates of size t."""
    if not np.all(np.isreal(p.get("sigma", 1.0))) or not ("time" in p or "frequency" in p):
        return 0.0
    s, mu = np.max(p["sigma"]), np.max(p.get("mu", gen.MU0))
    loc = np.array(p.get("location", [0.0, 0.0, 0.0]))
    r = float(np.max(np.linalg.norm(X - loc[:X.shape[1]], axis=-1)))
    if "time" in p:
        k = mu * s / np.min(p["time"]) * r / 2
    else:
        w = 2 * math.pi * np.max(p["frequency"])
        k = math.sqrt(w * mu * s + w * w * mu * np.max(p.get("epsilon", 0.0)))
    return 2e-15 * (t + r) * k


@st.composite
def motions(draw):
    s = draw(situations(lo=1, hi=3))
    s["move"] = draw(st.fixed_dictionaries(MOVE))
    return s


@facet(FACETS, motions(), 3500)
def motion(c, ctx):
    """Source and points moved together: potentials unchanged, fields and gradients turned."""
    m = MODELS[c["model"]]
    p = c["params"]
    X = np.array(c["pts"], float)
    R = rot(m, c["move"])
    t = np.array(c["move"]["shift"])
    if m.motion == "flat":
        t = t * [1, 1, 0]
    if bad_points(m, p, X) or near_continuation(p, X) or edge_lines(p, X):
        raise Discard
    ctx.label(m.name)
    o = m.build(p)
    p2 = moved(m, p, R, t)
    o2 = m.build(p2)
    d = X.shape[1]
    Y = X @ R[:d, :d].T + t[:d]
    blur = rounded(p, X, float(np.max(np.abs(t))))
    for q in m.queries:
        if q.rank is None:
            continue
        a, b = np.asarray(q(o, X.copy())), np.asarray(q(o2, Y.copy()))
        if q.rank == 1:
            a = a @ R.T
        elif q.rank == 2:
            a = R @ a @ R.T
        close(f"{m.name}.{q.name} of the moved source", b, a, atol=tolerance(m, q, o, p, X) * (1 + 1e8 * blur) + noise(m, q, p, X) * float(np.max(np.abs(t))))
    for n, _ in m.props:  # scalars such as volume, mass, wavenumber
        if n not in ("location", "moment"):
            close(f"{m.name}.{n} of the moved source", getattr(o2, n), getattr(o, n), rtol=1e-11 + 1e-14 * float(np.max(np.abs(t))))  # sizes from rounded corners


# ---------------------------------------------------------------------------------- strength
@st.composite
def scalings(draw):
    s = draw(situations([n for n in NAMES if any(MODELS[n].params[k] in ("any", "pos") for k in MODELS[n].linear)], lo=1, hi=3))
    m = MODELS[s["model"]]
    s["name"] = draw(st.sampled_from([k for k in m.linear if m.params[k] in ("any", "pos")]))
    s["factor"] = draw(st.one_of(st.sampled_from([2.0, 3.0, 0.5]), gen.logf(1e-3, 1e3))) * (1 if m.params[s["name"]] == "pos" else draw(st.sampled_from([1, -1])))
    return s


@facet(FACETS, scalings(), 2500)
def strength(c, ctx):
    """Every answer is proportional to current, moment, mass, density, dipole length or amplitude; zero for zero."""
    m = MODELS[c["model"]]
    p, k, s = c["params"], c["name"], c["factor"]
    X = np.array(c["pts"], float)
    ctx.label(m.name, k)
    o = m.build(p)
    o2 = m.build(dict(p, **{k: p[k] * s}))
    o0 = m.build(dict(p, **{k: 0.0})) if m.params[k] == "any" else None
    for q in m.queries:
        a, b = np.asarray(q(o, X.copy())), np.asarray(q(o2, X.copy()))
        ok = np.isfinite(a)
        truth(f"{m.name}.{q.name}: finite with {k} times {s}", np.array_equal(ok, np.isfinite(b)))
        close(f"{m.name}.{q.name} with {k} times {s}", np.where(ok, b, 0), np.where(ok, a * s, 0), atol=(1e-12 * np.where(ok, np.abs(a), 0).max() + np.max(noise(m, q, p, X))) * abs(s) + 1e-290)
        if o0 is not None:
            z = np.asarray(q(o0, X.copy()))
            truth(f"{m.name}.{q.name} with {k} = 0", np.all(z[ok] == 0), f"{z!r}")


VECTORS = [n for n in NAMES if any(MODELS[n].params[k] in ("vec", "orient", "orient_h") for k in MODELS[n].linear)]


@st.composite
def sums(draw):
    s = draw(situations(VECTORS, lo=1, hi=3))
    m = MODELS[s["model"]]
    k = next(k for k in m.linear if m.params[k] in ("vec", "orient", "orient_h"))
    v = gen.nonzero_vec() if m.params[k] != "orient_h" else gen.vec(gen.unit_coord(2.0), 2).filter(lambda v: math.hypot(*v) > 0.1).map(lambda v: v + [0.0])
    s.update(name=k, a=draw(v), b=draw(v), fa=draw(gen.nz_strength()), fb=draw(gen.nz_strength()))
    return s


@facet(FACETS, sums(), 1800)
def vectors(c, ctx):
    """Two sources at one place add as vectors: moments, dipole currents, magnetizations and primary fields."""
    m = MODELS[c["model"]]
    p, k = c["params"], c["name"]
    X = np.array(c["pts"], float)
    va, vb = np.array(c["a"]), np.array(c["b"])
    ctx.label(m.name)
    if m.params[k] == "vec":
        A, B, S = dict(p, **{k: c["a"]}), dict(p, **{k: c["b"]}), dict(p, **{k: (va + vb).tolist()})
    else:
        f = next(n for n in m.linear if m.params[n] == "any")
        ua, ub = gen.unit(c["a"]) * c["fa"], gen.unit(c["b"]) * c["fb"]
        u = ua + ub
        n = np.linalg.norm(u)
        if n < 1e-3 * (abs(c["fa"]) + abs(c["fb"])):
            raise Discard
        d = u / n
        if m.params[k] == "orient_h":
            d[2] = 0.0
        A, B, S = dict(p, **{k: c["a"], f: c["fa"]}), dict(p, **{k: c["b"], f: c["fb"]}), dict(p, **{k: d.tolist(), f: float(n)})
    if bad_points(m, p, X) or edge_lines(p, X):
        raise Discard
    a, b, s = m.build(A), m.build(B), m.build(S)
    for q in m.queries:
        if q.rank is None:
            continue
        x, y, z = (np.asarray(q(o, X.copy())) for o in (a, b, s))
        tol = tolerance(m, q, a, A, X, 1e-9) + tolerance(m, q, b, B, X, 1e-9)
        close(f"{m.name}.{q.name} of the sum of two sources", z, x + y, atol=tol)


@facet(FACETS, situations(["CircularLoop", "LineCurrentWholeSpace", "LineCurrentFreeSpace", "DipoleHalfSpace", "StaticMagneticDipole", "FDElectricDipole", "FDMagneticDipole", "FDLayered", "FDHalfSpace", "TDElectricDipole", "FDPlaneWave", "TDPlaneWave"], 1, 3), 1200)
def reversal(c, ctx):
    """Reversing a loop, wire, dipole or electrode pair reverses every answer."""
    m = MODELS[c["model"]]
    p = c["params"]
    X = np.array(c["pts"], float)
    if bad_points(m, p, X):
        raise Discard
    ctx.label(m.name)
    if "nodes" in p:
        p2 = dict(p, nodes=p["nodes"][::-1])
    elif "location_a" in p:
        p2 = dict(p, location_a=p["location_b"], location_b=p["location_a"])
    else:
        p2 = dict(p, orientation=(-gen.unit(p["orientation"])).tolist())
    o, o2 = m.build(p), m.build(p2)
    for q in m.queries:
        if q.rank is None:
            continue
        a, b = np.asarray(q(o, X.copy())), np.asarray(q(o2, X.copy()))
        close(f"{m.name}.{q.name} of the reversed source", b, -a, atol=tolerance(m, q, o, p, X, 1e-9))


# ------------------------------------------------------------------------------------ pieces
@st.composite
def wires(draw):
    s = draw(situations(["LineCurrentWholeSpace", "LineCurrentFreeSpace"], 1, 3))
    n = len(s["params"]["nodes"])
    s["at"] = draw(st.integers(0, n - 2))
    s["frac"] = draw(st.one_of(st.just(0.5), gen.uni(0.02, 0.98)))
    s["closed"] = draw(st.booleans())
    return s


@facet(FACETS, wires(), 900)
def wire_pieces(c, ctx):
    """A node added anywhere on a wire changes nothing; a wire cut in two is the sum of its parts."""
    m = MODELS[c["model"]]
    p = dict(c["params"])
    nodes = [list(v) for v in p["nodes"]]
    if c["closed"] and len(nodes) > 2 and math.dist(nodes[0], nodes[-1]) > 0.1:
        nodes = nodes + [nodes[0]]
        ctx.label("closed")
    p["nodes"] = nodes
    X = np.array(c["pts"], float)
    if bad_points(m, p, X) or near_continuation(p, X):
        raise Discard
    i = c["at"]
    mid = [a + c["frac"] * (b - a) for a, b in zip(nodes[i], nodes[i + 1])]
    if math.dist(nodes[0], nodes[-1]) < 1e-9 and not c["closed"]:
        raise Discard
    ctx.label(m.name)
    o = m.build(p)
    split = m.build(dict(p, nodes=nodes[:i + 1] + [mid] + nodes[i + 1:]))
    one, two = nodes[:i + 1] + [mid], [mid] + nodes[i + 1:]
    parts = [m.build(dict(p, nodes=v)) for v in (one, two)]
    if math.dist(one[0], one[-1]) < 1e-9 or math.dist(two[0], two[-1]) < 1e-9:
        raise Discard
    for q in m.queries:
        a = np.asarray(q(o, X.copy()))
        tol = tolerance(m, q, o, p, X, 1e-9)
        close(f"{m.name}.{q.name} with a node added", q(split, X.copy()), a, atol=tol)
        pieces = [np.asarray(q(v, X.copy())) for v in parts]
        close(f"{m.name}.{q.name} as the sum of two pieces", sum(pieces), a, atol=tol + 1e-9 * max(np.abs(v).max() for v in pieces))


@st.composite
def bricks(draw):
    s = draw(situations(["Prism", "MagneticPrism"], 1, 3))
    s["axis"] = draw(st.integers(0, 2))
    s["frac"] = draw(st.one_of(st.just(0.5), gen.uni(0.1, 0.9)))
    return s


@facet(FACETS, bricks(), 900)
def body_pieces(c, ctx):
    """A prism cut along any plane is the sum of its parts (mass, volume, moment and every field)."""
    m = MODELS[c["model"]]
    p = c["params"]
    X = np.array(c["pts"], float)
    k = c["axis"]
    cut = p["min_location"][k] + c["frac"] * (p["max_location"][k] - p["min_location"][k])
    P1, P2 = dict(p, max_location=[cut if i == k else v for i, v in enumerate(p["max_location"])]), dict(p, min_location=[cut if i == k else v for i, v in enumerate(p["min_location"])])
    if any(edge_lines(v, X) or bad_points(m, v, X) for v in (p, P1, P2)):
        raise Discard
    ctx.label(m.name)
    o, a, b = m.build(p), m.build(P1), m.build(P2)
    for q in m.queries:
        x, y = np.asarray(q(a, X.copy())), np.asarray(q(b, X.copy()))
        close(f"{m.name}.{q.name} of the pieces", x + y, q(o, X.copy()), atol=tolerance(m, q, a, P1, X) + tolerance(m, q, b, P2, X))
    for n, _ in m.props:
        if n != "location":
            close(f"{m.name}.{n} of the pieces", getattr(a, n) + getattr(b, n), getattr(o, n), rtol=1e-10, atol=1e-13)


@facet(FACETS, situations(["DipoleHalfSpace"], 1, 3), 400)
def electrodes(c, ctx):
    """An electrode pair is a source and a sink of the same current."""
    p = c["params"]
    X = np.array(c["pts"], float)
    o = MODELS["DipoleHalfSpace"].build(p)
    a, b = (static.PointCurrentHalfSpace(p["rho"], p["current"], location=np.array(p[k])) for k in ("location_a", "location_b"))
    for q in MODELS["DipoleHalfSpace"].queries:
        x, y = np.asarray(q(a, X)), np.asarray(q(b, X))
        close(f"pair {q.name}", q(o, X), x - y, atol=1e-11 * max(np.abs(x).max(), np.abs(y).max()))


# ------------------------------------------------------------------------------------- units
def units(m, q, e):
    """Scale factors of length, time, current and mass from four free exponents."""
    L, T, I, M = (2.0**v for v in e)
    if m.name in ("PointMass", "Sphere", "Prism"):
        M = L**3 / T**2
    elif m.name == "FDHalfSpace" or (m.name == "MagneticPrism" and q.dim == "B"):
        M = T**2 * I**2 / L
    elif m.name == "FDLayered":
        T = L
        M = L * I**2
    return L, T, I, M


def factor(dim, u):
    return math.prod(s**e for s, e in zip(u, dim))


def scaled(m, p, u):
    out = {}
    for k, v in p.items():
        d = m.dims.get(k)
        if d is None:
            out[k] = v
            continue
        f = factor(DIM[d], u)
        out[k] = (np.array(v) * f).tolist() if isinstance(v, list) else v * f
    return out


@st.composite
def rescaled(draw):
    s = draw(situations(lo=1, hi=3))
    lim = 3 if s["model"] == "FDLayered" else 12
    s["e"] = draw(st.lists(st.integers(-lim, lim), min_size=4, max_size=4))
    return s


@facet(FACETS, rescaled(), 3000)
def dimensions(c, ctx):
    """Answers scale with lengths, times or frequencies, currents and masses as their physical dimensions dictate."""
    m = MODELS[c["model"]]
    p = c["params"]
    X = np.array(c["pts"], float)
    if bad_points(m, p, X) or edge_lines(p, X):
        raise Discard
    ctx.label(m.name)
    o = m.build(p)
    for q in m.queries:
        if q.dim is None or q.rank is None:
            continue
        u = units(m, q, c["e"])
        p2 = scaled(m, p, u)
        a = np.asarray(q(o, X.copy()))
        b = np.asarray(q(m.build(p2), X * u[0]))
        f = factor(DIM[q.dim], u)
        close(f"{m.name}.{q.name} in other units", b / f, a, atol=tolerance(m, q, o, p, X, 1e-9))
