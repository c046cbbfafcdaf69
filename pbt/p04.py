"""Static magnetic sources."""
import math

import numpy as np
from geoana.em import static
from geoana.em.static import (CircularLoopWholeSpace, LineCurrentWholeSpace, MagneticDipoleWholeSpace,
                              MagneticPoleWholeSpace)

from . import gen, ref
from .core import Discard, close, facet, fail, truth, vec_close
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "Loop reference: direct trapezoidal Biot-Savart sum; segment reference: compact closed form in the endpoint vectors.",
    "Loop points closer than about 0.2 % of the radius to the wire and segment points closer than 1e-3 lengths are not "
    "compared; tolerances contain the cancellation of the elliptic integral and logarithm expressions.",
    "Cylindrical results: local basis at the observation point about the global z axis.",
]


def to_cyl(p):
    return np.stack([np.hypot(p[..., 0], p[..., 1]), np.arctan2(p[..., 1], p[..., 0]), p[..., 2]], axis=-1)


def cyl_vec(p, v):
    """Components of v in the cylindrical basis at p (theta = 0 on the axis)."""
    t = np.arctan2(p[..., 1], p[..., 0])
    return np.stack([v[..., 0] * np.cos(t) + v[..., 1] * np.sin(t), -v[..., 0] * np.sin(t) + v[..., 1] * np.cos(t),
                     v[..., 2]], axis=-1)


def evaluate(s, name, xyz, coords, ctx):
    """Call a method with Cartesian or cylindrical points and return the Cartesian points actually meant and the result."""
    f = getattr(s, name)
    if coords == "cartesian":
        return xyz, np.asarray(f(xyz))
    if coords == "explicit":
        return xyz, np.asarray(f(xyz, coordinates="Cartesian"))
    c = to_cyl(xyz)
    back = np.stack([c[:, 0] * np.cos(c[:, 1]), c[:, 0] * np.sin(c[:, 1]), c[:, 2]], axis=-1)
    v = np.asarray(f(c, coordinates=coords))
    if v.shape != xyz.shape:
        fail(f"{name}: shape {v.shape}")
    t = c[:, 1]
    out = np.stack([v[:, 0] * np.cos(t) - v[:, 1] * np.sin(t), v[:, 0] * np.sin(t) + v[:, 1] * np.cos(t), v[:, 2]], axis=-1)
    return back, out


COORDS = st.sampled_from(["cartesian", "cartesian", "cylindrical", "Cylindrical", "explicit"])


def dip_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), m=gen.strength(), mu=gen.mu(), o=gen.orientation(), L=gen.scale(), loc=gen.location(),
                                      pts=gen.offset_points(), coords=COORDS, kind=st.sampled_from(["dipole", "pole"])))


@facet(FACETS, dip_case(), 4000)
def dipole_and_pole(c, ctx):
    """Dipole A, B, H and pole B, H against the closed forms, both coordinate systems."""
    L = c["L"]
    loc = np.array(c["loc"]) * L
    xyz = np.array(c["pts"]) * L + loc
    d = xyz - loc
    if np.any(ref.norm(d) <= 1e-6 * L):
        raise Discard
    cls = MagneticDipoleWholeSpace if c["kind"] == "dipole" else MagneticPoleWholeSpace
    s = gen.Batched(cls(moment=c["m"], mu=c["mu"], orientation=c["o"], location=loc), c["batch"])
    o = gen.unit(c["o"])
    ctx.label(c["kind"], c["coords"])
    ctx.trivial = c["m"] == 0
    slack = 1e-9 if c["coords"].lower() == "cylindrical" else 1e-11
    names = ["magnetic_flux_density", "magnetic_field"] + (["vector_potential"] if c["kind"] == "dipole" else [])
    for n in names:
        p, got = evaluate(s, n, xyz, c["coords"], ctx)
        d = p - loc
        r = ref.norm(d)[:, None]
        if np.any(r <= 1e-6 * L):
            continue
        cond = 1e-13 * np.max(np.abs(xyz)) / np.min(r) if slack == 1e-9 else 0.0
        if n == "vector_potential":
            want = ref.dipole_a(c["m"] * o, c["mu"], d)
            big = np.abs(c["m"]) * c["mu"] / (4 * math.pi) / r ** 2
        else:
            if c["kind"] == "dipole":
                want = ref.dipole_b(c["m"] * o, c["mu"], d)
                big = np.abs(c["m"]) * c["mu"] / (4 * math.pi) / r ** 3
            else:
                want = c["m"] * c["mu"] / (4 * math.pi) * d / r ** 3
                big = np.abs(c["m"]) * c["mu"] / (4 * math.pi) / r ** 2
            if n == "magnetic_field":
                want, big = want / c["mu"], big / c["mu"]
        close(f"{c['kind']} {n}", got, want, 0, (slack + cond) * big)


def loop_point():
    """(rho, z, azimuth) in units of the radius."""
    small = gen.logf(1e-8, 1e-2)
    rho = st.one_of(st.sampled_from([0.0, 0.5, 1.0, 2.0]), gen.uni(0, 3), small, gen.logf(1e-2, 1e4), gen.near([1.0], 1e-3, 0.5))
    z = gen.signed(st.one_of(st.sampled_from([0.0, 0.5, 1.0]), gen.uni(0, 3), gen.logf(1e-3, 1e4)))
    wire = st.tuples(gen.logf(1e-6, 1e-1), gen.uni(0, 6.28), gen.uni(0, 6.28)).map(lambda v: [1 + v[0] * math.cos(v[1]), v[0] * math.sin(v[1]), v[2]])
    off = st.tuples(rho, z, gen.uni(0, 6.28)).map(list)
    return st.one_of(off, off, off, wire)


def frame(o):
    o = np.asarray(o, float)
    h = np.eye(3)[int(np.argmin(np.abs(o)))]
    e1 = np.cross(o, h)
    e1 /= math.sqrt(float(e1 @ e1))
    return e1, np.cross(o, e1)


def loop_case():
    return st.fixed_dictionaries(dict(batch=gen.batch(), I=gen.strength(), mu=gen.mu(), o=gen.orientation(), a=gen.logf(1e-2, 1e4),
                                      loc=gen.location(), pts=st.lists(loop_point(), min_size=1, max_size=4), coords=COORDS))


@facet(FACETS, loop_case(), 2500)
def circular_loop(c, ctx):
    """Circular loop A, B, H against the Biot-Savart integral, also on and near the axis."""
    a = c["a"]
    loc = np.array(c["loc"]) * a
    o = gen.unit(c["o"])
    e1, e2 = frame(o)
    xyz = np.array([loc + a * (z * o + rho * (math.cos(t) * e1 + math.sin(t) * e2)) for rho, z, t in c["pts"]])
    s = gen.Batched(CircularLoopWholeSpace(radius=a, current=c["I"], mu=c["mu"], orientation=c["o"], location=loc), c["batch"])
    ctx.label(c["coords"])
    ctx.trivial = True
    for n in ("vector_potential", "magnetic_flux_density", "magnetic_field"):
        pts, got = evaluate(s, n, xyz, c["coords"], ctx)
        if got.shape != xyz.shape:
            fail(f"{n}: shape {got.shape}")
        for i, p in enumerate(pts):
            d = p - loc
            res = ref.loop_fields(a, c["I"], c["mu"], o, d)
            if res is None:
                ctx.label("at the wire")
                continue
            A, B, eA, eB, rh, Br, eBr = res
            cond = 1e-14 * ((np.max(np.abs(p)) if c["coords"][1] == "y" else np.max(np.abs(d))) + a)  # rounding of positions
            z = d @ o
            rho = float(ref.norm(d - z * o))
            dist = math.hypot(a - rho, z)
            if n == "vector_potential":
                k = c["mu"] * abs(c["I"])
                close("loop vector potential", got[i], A, 0, 2e-9 * np.max(np.abs(A)) + eA + k * cond / dist
                      * min(1.0, (a / math.hypot(a, z))) )
            else:
                f = 1.0 if n == "magnetic_flux_density" else 1 / c["mu"]
                k = c["mu"] * abs(c["I"]) / a
                nb = math.sqrt(float(B @ B))
                close(f"loop {n}", got[i], f * B, 0, f * (2e-9 * nb + eB + nb * cond / dist * 3))
                if rho > 1e-5 * math.hypot(a, z):
                    close(f"loop radial {n}", got[i] @ rh, f * Br, 0, f * (1e-8 * abs(Br) + eBr + nb * (1e-13 + 2e-15 * math.hypot(rho, z) / rho + cond / min(dist, a) * 3)))
            if rho < 1e-3 * a:
                ctx.label("near axis")
            if dist < 2e-3 * a:
                ctx.label("near the wire")
            if c["I"] and eB < 1e-5 * math.sqrt(float(B @ B)):
                ctx.trivial = False


def wire_case():
    return st.fixed_dictionaries(dict(
        batch=gen.batch(), I=gen.strength(), mu=gen.mu(), L=gen.scale(), nodes=gen.wire_nodes(gen.unit_coord()), close=st.booleans(), shift=gen.shift(),
        pts=st.lists(st.one_of(gen.vec(gen.unit_coord(5.0)),
                               # on the line of a segment, beyond its ends or beside it
                               st.tuples(st.integers(0, 3), gen.signed(gen.logf(1e-2, 20.0)), st.sampled_from([0.0, 1e-3, 0.1]),
                                         ).map(lambda t: {"seg": t[0], "t": t[1], "off": t[2]})), min_size=1, max_size=4)))


@facet(FACETS, wire_case(), 4000)
def line_current(c, ctx):
    """Polyline A, B, H as the sum over its segments, also on the lines of segments beyond their ends."""
    L = c["L"]
    sh = np.array(c["shift"]) * L
    nodes = [np.array(n) * L + sh for n in c["nodes"]]
    if c["close"]:
        nodes.append(nodes[0])
    keep = [nodes[0]]
    for n in nodes[1:]:
        if ref.norm(n - keep[-1]) > 1e-3 * L:
            keep.append(n)
    nodes = keep
    if len(nodes) < 2:
        raise Discard
    segs = list(zip(nodes[:-1], nodes[1:]))
    pts = []
    for q in c["pts"]:
        if isinstance(q, dict):
            p0, p1 = segs[q["seg"] % len(segs)]
            e = (p1 - p0)
            h = np.cross(e, [0.3, -0.5, 0.8])
            h = h / max(float(ref.norm(h)), 1e-300)
            base = p1 if q["t"] > 0 else p0
            pts.append(base + q["t"] * e + q["off"] * L * h)
            ctx.label("collinear" if q["off"] == 0 else "nearly collinear")
        else:
            pts.append(np.array(q) * L + sh)
    xyz = np.array(pts)
    s = gen.Batched(LineCurrentWholeSpace(nodes=np.array(nodes), current=c["I"], mu=c["mu"]), c["batch"])
    truth("number of segments", s.n_segments == len(segs), str(s.n_segments))
    A, B, H = (np.asarray(f(xyz)) for f in (s.vector_potential, s.magnetic_flux_density, s.magnetic_field))
    for n, o in (("A", A), ("B", B), ("H", H)):
        if o.shape != xyz.shape:
            fail(f"{n}: shape {o.shape}")
    k = c["mu"] * abs(c["I"]) / (4 * math.pi)
    ctx.trivial = True
    for i, p in enumerate(xyz):
        wa, wb, ea, eb, ok, oka = 0.0, 0.0, 0.0, 0.0, True, True
        for p0, p1 in segs:
            a, b, rho, x0, x1 = ref.segment_fields(p0, p1, c["I"], c["mu"], p)
            ln = ref.norm(p1 - p0)
            far = max(abs(x0), abs(x1), rho)
            if x0 > -1e-3 * L and x1 < 1e-3 * L and rho < 1e-3 * L:
                ok = False  # on the wire
                break
            pos = 4e-15 * (np.max(np.abs(p - p0)) + ln)  # rounding of offsets
            near = math.sqrt(rho ** 2 + (0 if x0 * x1 < 0 else min(abs(x0), abs(x1)) ** 2))
            wa, wb = wa + a, wb + b
            if rho > 1e-12 * far:
                kap = 2 * (far / rho) ** 2 if x0 < 0 or x1 < 0 else 1.0
                if kap > 1e9:
                    oka = False
                ea += 1e-14 * (kap + abs(math.log(max(far, 1e-300))) + 10) + pos / near
            else:
                ea += 1e-13 * (10 + abs(math.log(max(far, 1e-300)))) + pos / near
            eb += 1e-13 * ref.norm(b) / max(k, 1e-300) + pos / near ** 2 * 3
            if x0 * x1 <= 0:
                eb += 1e-14 / max(rho, 1e-300)
        if not ok:
            ctx.label("on the wire")
            continue
        if oka:
            close("wire vector potential", A[i], wa, 1e-10, k * ea)
        close("wire flux density", B[i], wb, 1e-10, k * eb)
        close("wire field", H[i], wb / c["mu"], 1e-10, k * eb / c["mu"])
        if c["I"]:
            ctx.trivial = False


@facet(FACETS, st.fixed_dictionaries(dict(n=st.sampled_from([8, 9, 16, 17, 33, 65, 101, 129, 257, 301]), seed=st.integers(0, 10 ** 6), close=st.booleans(), L=gen.scale(), I=gen.nz_strength(), mu=gen.mu(), sigma=gen.sigma(),
                                          pts=st.lists(gen.vec(gen.unit_coord(3.0)), min_size=1, max_size=3), kind=st.sampled_from(["walk", "helix", "steps"]))), 200)
def long_wires(c, ctx):
    """Wires of tens to hundreds of segments, wandering, wound or in steps along the axes."""
    r = np.random.default_rng(c["seed"])
    n, L = c["n"], c["L"]
    if c["kind"] == "helix":
        t = np.linspace(0, 20, n)
        nodes = np.stack([np.cos(t), np.sin(t), 0.1 * t], -1)
    elif c["kind"] == "steps":
        nodes = np.cumsum(np.eye(3)[r.integers(0, 3, n)] * r.uniform(0.05, 0.2, (n, 1)) * r.choice([-1, 1, 1], (n, 1)), axis=0)
    else:
        nodes = np.cumsum(r.uniform(-0.2, 0.2, (n, 3)), axis=0)
    nodes = nodes * L
    if c["close"]:
        nodes = np.vstack([nodes, nodes[:1]])
    e = np.diff(nodes, axis=0)
    pts = np.array(c["pts"]) * L
    q = pts[:, None] - nodes[:-1]
    s = np.clip(np.sum(q * e, -1) / np.sum(e * e, -1), 0, 1)
    d = np.linalg.norm(q - s[..., None] * e, axis=-1).min(axis=1)
    pts = pts[d > 0.05 * L]
    if not len(pts):
        raise Discard
    ctx.label(c["kind"], f"{n} nodes")
    o = LineCurrentWholeSpace(nodes=nodes, current=c["I"], mu=c["mu"], sigma=c["sigma"])
    truth("number of segments", o.n_segments == len(e), str(o.n_segments))
    A, B, H, V, E = (np.asarray(f(pts)) for f in (o.vector_potential, o.magnetic_flux_density, o.magnetic_field, o.scalar_potential, o.electric_field))
    k = c["mu"] * abs(c["I"]) / (4 * math.pi)
    for i, p in enumerate(pts):
        a, b, rho, x0, x1 = zip(*[ref.segment_fields(nodes[m], nodes[m + 1], c["I"], c["mu"], p) for m in range(len(e))])
        kap = max((2 * (max(abs(u), abs(v), w) / max(w, 1e-100)) ** 2 if u < 0 or v < 0 else 1.0) for u, v, w in zip(x0, x1, rho))
        if kap < 1e9:
            close(f"vector potential of {n} nodes", A[i], sum(a), 1e-10, k * len(e) * 1e-13 * (kap + 10))
        tol = 1e-12 * sum(np.linalg.norm(v) for v in b) + k * len(e) * 1e-13 / (0.05 * L)
        close(f"flux density of {n} nodes", B[i], sum(b), 1e-10, tol)
        close(f"field of {n} nodes", H[i], sum(b) / c["mu"], 1e-10, tol / c["mu"])
        ra, rb = p - nodes[-1], p - nodes[0]
        na, nb = np.linalg.norm(ra), np.linalg.norm(rb)
        f = c["I"] / (4 * math.pi * c["sigma"])
        if min(na, nb) > 1e-3 * L:
            close(f"potential of {n} nodes", V[i], 0.0 if c["close"] else f * (1 / na - 1 / nb), 0, 1e-11 * abs(f) / min(na, nb))
            close(f"electric field of {n} nodes", E[i], np.zeros(3) if c["close"] else f * (ra / na ** 3 - rb / nb ** 3), 0, 1e-11 * abs(f) / min(na, nb) ** 2)


@facet(FACETS, loop_case(), 160)
def polygon_limit(c, ctx):
    """A fine closed polygon of line current approaches the loop; far away both are the dipole."""
    a = min(max(c["a"], 1e-2), 1e4)
    loc = np.array(c["loc"]) * a
    o = gen.unit(c["o"])
    e1, e2 = frame(o)
    n = 180
    # polygon of equal area
    R = a * math.sqrt(2 * math.pi / n / math.sin(2 * math.pi / n))
    th = 2 * math.pi * np.arange(n + 1) / n
    th[-1] = 0.0
    nodes = loc + R * (np.cos(th)[:, None] * e1 + np.sin(th)[:, None] * e2)
    loop = CircularLoopWholeSpace(radius=a, current=c["I"], mu=c["mu"], orientation=c["o"], location=loc)
    line = LineCurrentWholeSpace(nodes=nodes, current=c["I"], mu=c["mu"])
    dip = MagneticDipoleWholeSpace(moment=c["I"] * math.pi * a * a, mu=c["mu"], orientation=c["o"], location=loc)
    ctx.trivial = c["I"] == 0
    for rho, z, t in c["pts"]:
        d = a * (z * o + rho * (math.cos(t) * e1 + math.sin(t) * e2))
        if math.hypot(rho - 1, z) < 0.2 or math.hypot(rho, z) > 30:
            continue
        p = loc + d
        for name in ("vector_potential", "magnetic_flux_density"):
            x, y = getattr(loop, name)(p), getattr(line, name)(p)
            ref_scale = c["mu"] * abs(c["I"]) / (1 if name[0] == "v" else a) / max(1.0, math.hypot(rho, z)) ** (2 if name[0] == "v" else 3)
            close(f"polygon {name}", y, x, 2e-3, 2e-3 * ref_scale)
    rng = gen.unit([1.0, 2.0, -1.5]) * a * 200
    p = loc + rng
    for name in ("vector_potential", "magnetic_flux_density"):
        # A and B of the loop agree with the dipole to O((a/r)^2)
        res = ref.loop_fields(a, c["I"], c["mu"], o, rng)
        e = res[2] if name[0] == "v" else res[3]
        w = getattr(dip, name)(p)
        close(f"far {name}", getattr(loop, name)(p), w, 0, 2e-4 * np.max(np.abs(w)) + e +
              2e-4 * c["mu"] * abs(c["I"]) * a * a / 4 / (200 * a) ** (2 if name[0] == "v" else 3))
