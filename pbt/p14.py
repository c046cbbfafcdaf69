"""Coordinate transforms, rotations and vector helpers."""
import math

import numpy as np
from geoana import spatial
from geoana.em import static

from . import gen
from .core import close, facet, fail, raises, truth
from .gen import st

FACETS = []
ASSUMPTIONS = [
    "Cylindrical (radius, azimuth, z), spherical (radius, azimuth, polar angle from +z); on the axis the azimuth is atan2(0, 0) = 0.",
    "Coordinates up to 1e6 with 1e-12 relative accuracy; directions within 1e-12 for rotations.",
]


def coord():
    return st.one_of(gen.unit_coord(3.0), gen.signed(gen.logf(1e-6, 1e6)))


SHAPES = st.sampled_from([(), (1,), (2,), (1, 2), (2, 1), (1, 2, 1), (0,), (3,)])


@st.composite
def field(draw, dims=(3,)):
    shape = draw(SHAPES)
    n = int(np.prod(shape)) if shape else 1
    dim = draw(st.sampled_from(list(dims)))
    pts = [[draw(coord()) for _ in range(dim)] for _ in range(n)]
    v = [[draw(coord()) for _ in range(dim)] for _ in range(n)]
    u = [[draw(coord()) for _ in range(dim)] for _ in range(n)]
    return dict(shape=list(shape), dim=dim, pts=pts, v=v, u=u, form=draw(st.sampled_from(["array", "list", "F", "view"])),
                old=draw(st.booleans()), one=draw(st.booleans()))


def arr(c, k):
    return np.array(c[k], float).reshape(tuple(c["shape"]) + (c["dim"],))


def form(c, x):
    if c["form"] == "list":
        return x.tolist() if x.size else x
    if c["form"] == "F":
        return np.asfortranarray(x)
    if c["form"] == "view":
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],))
        big[..., ::2] = x
        return big[..., ::2]
    return x.copy()


def fn(c, name):
    f = getattr(spatial, name)
    if c["old"]:
        f = getattr(spatial, name.replace("_to_", "_2_"), f)
    return f


def nrm(x):
    return np.sqrt(np.sum(x * x, axis=-1))


def azimuth_basis(p):
    phi = np.arctan2(p[..., 1], p[..., 0])
    c, s, z = np.cos(phi), np.sin(phi), np.zeros_like(phi)
    return np.stack([c, s, z], -1), np.stack([-s, c, z], -1), phi


@facet(FACETS, field((2, 3)), 2500)
def cylindrical(c, ctx):
    """Cylindrical transforms of points and vectors: definition, inverse, isometry."""
    p, v, u = arr(c, "pts"), arr(c, "v"), arr(c, "u")
    to, back = fn(c, "cartesian_to_cylindrical"), fn(c, "cylindrical_to_cartesian")
    ctx.label(f"rank {len(c['shape'])}", f"{c['dim']}d", c["form"])
    ctx.trivial = p.size == 0
    q = to(form(c, p))
    want = [np.hypot(p[..., 0], p[..., 1]), np.arctan2(p[..., 1], p[..., 0])] + ([p[..., 2]] if c["dim"] == 3 else [])
    close("cylindrical coordinates", q, np.stack(want, -1), 1e-13)
    sc = nrm(p)[..., None]
    close("points back", back(form(c, np.asarray(q))), p, 0, 1e-13 * sc)
    er, et, _ = azimuth_basis(p)
    d = c["dim"]
    er, et = er[..., :d], et[..., :d]
    w = np.asarray(to(form(c, p), form(c, v)))
    sv = nrm(v)[..., None]
    comp = [np.sum(v[..., :2] * er[..., :2], -1), np.sum(v[..., :2] * et[..., :2], -1)] + ([v[..., 2]] if d == 3 else [])
    close("vector components", w, np.stack(comp, -1), 0, 1e-13 * sv)
    close("vector back", back(form(c, np.asarray(q)), form(c, w)), v, 0, 1e-12 * sv)
    w2 = np.asarray(to(form(c, p), u))
    close("inner product", np.sum(w * w2, -1), np.sum(u * v, -1), 0, 1e-12 * (nrm(u) * nrm(v)))
    # arbitrary cylindrical points, also negative angles and more than a turn
    g = np.array(q, float)
    g[..., 1] = p[..., 1]
    x = np.asarray(back(g))
    close("cartesian x, y", x[..., :2], g[..., :1] * np.stack([np.cos(g[..., 1]), np.sin(g[..., 1])], -1), 0, 1e-13 * np.abs(g[..., :1]))
    vx = np.asarray(back(g, v))
    ct, sn = np.cos(g[..., 1]), np.sin(g[..., 1])
    close("cartesian vector", vx[..., :2], np.stack([v[..., 0] * ct - v[..., 1] * sn, v[..., 0] * sn + v[..., 1] * ct], -1), 0, 1e-13 * sv)
    if c["one"] and p.size:
        # one vector attached to every point
        one = v.reshape(-1, d)[0]
        full = np.broadcast_to(one, p.shape)
        close("vector broadcast", to(p, one) if d == 2 else to(p, full), to(p, full.copy()), 1e-14)


@facet(FACETS, field((3,)), 2500)
def spherical(c, ctx):
    """Spherical transforms of points and vectors: definition, inverse, isometry."""
    p, v, u = arr(c, "pts"), arr(c, "v"), arr(c, "u")
    to, back = fn(c, "cartesian_to_spherical"), fn(c, "spherical_to_cartesian")
    ctx.label(f"rank {len(c['shape'])}", c["form"])
    ctx.trivial = p.size == 0
    q = np.asarray(to(form(c, p)))
    rho = np.hypot(p[..., 0], p[..., 1])
    phi, th = np.arctan2(p[..., 1], p[..., 0]), np.arctan2(rho, p[..., 2])
    close("spherical coordinates", q, np.stack([nrm(p), phi, th], -1), 1e-13, 1e-15)
    close("points back", back(form(c, q)), p, 0, 1e-13 * nrm(p)[..., None])
    cp, sp, ct, s_t = np.cos(phi), np.sin(phi), np.cos(th), np.sin(th)
    z = np.zeros_like(phi)
    er, ep, et = np.stack([s_t * cp, s_t * sp, ct], -1), np.stack([-sp, cp, z], -1), np.stack([ct * cp, ct * sp, -s_t], -1)
    w = np.asarray(to(form(c, p), form(c, v)))
    sv = nrm(v)[..., None]
    close("vector components", w, np.stack([np.sum(v * e, -1) for e in (er, ep, et)], -1), 0, 1e-13 * sv)
    close("vector back", back(form(c, q), form(c, w)), v, 0, 1e-12 * sv)
    w2 = np.asarray(to(form(c, p), u))
    close("inner product", np.sum(w * w2, -1), np.sum(u * v, -1), 0, 1e-12 * (nrm(u) * nrm(v)))
    close("radial vector", to(p, p), np.stack([nrm(p), z, z], -1), 0, 1e-13 * nrm(p)[..., None])
    # arbitrary angles
    g = np.stack([np.abs(p[..., 0]), p[..., 1], v[..., 1]], -1)
    x = np.asarray(back(g))
    a, b = g[..., 1], g[..., 2]
    r = g[..., :1]
    close("cartesian point", x, r * np.stack([np.sin(b) * np.cos(a), np.sin(b) * np.sin(a), np.cos(b)], -1), 0, 1e-13 * r)
    vx = np.asarray(back(g, u))
    want = (u[..., :1] * np.stack([np.sin(b) * np.cos(a), np.sin(b) * np.sin(a), np.cos(b)], -1)
            + u[..., 1:2] * np.stack([-np.sin(a), np.cos(a), z], -1)
            + u[..., 2:] * np.stack([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), -np.sin(b)], -1))
    close("cartesian vector", vx, want, 0, 1e-13 * nrm(u)[..., None])


@st.composite
def directions(draw):
    a = draw(gen.nonzero_vec())
    kind = draw(st.sampled_from(["any", "any", "parallel", "opposite", "near parallel", "near opposite", "axes"]))
    b = draw(gen.nonzero_vec())
    if kind == "axes":
        ax = [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [-1.0, 0, 0], [0, -1.0, 0], [0, 0, -1.0]]
        a, b = draw(st.sampled_from(ax)), draw(st.sampled_from(ax))
    elif kind != "any":
        s = draw(gen.logf(0.1, 10.0)) * (-1 if "opposite" in kind else 1)
        t = [s * x for x in a]
        if "near" in kind:
            e = draw(gen.logf(1e-16, 1e-2))
            n = math.sqrt(sum(x * x for x in t))
            t = [x + e * n * y for x, y in zip(t, b)]
        b = t
        if sum(x * x for x in b) < 1e-6:
            b = a
    return dict(kind=kind, a=a, b=b, pts=draw(gen.points()), x0=draw(gen.location()), form=draw(st.sampled_from(["list", "array", "col"])))


@facet(FACETS, directions(), 4000)
def rotations(c, ctx):
    """Rotation between two directions; rotation of points about a centre."""
    a, b = gen.unit(c["a"]), gen.unit(c["b"])
    ctx.label(c["kind"])

    def f(x):
        return x if c["form"] == "list" else np.array(x) if c["form"] == "array" else np.array(x)[:, None]
    R = np.asarray(spatial.rotation_matrix_from_normals(f(c["a"]), f(c["b"])))
    close("orthogonal", R @ R.T, np.eye(3), 0, 1e-13)
    close("proper", np.linalg.det(R), 1.0, 1e-13)
    close("takes the first direction to the second", R @ a, b, 0, 1e-10 if a @ b < -0.999 else 1e-12)
    rot = spatial.rotation_matrix_from_normals(f(c["a"]), f(c["b"]), as_matrix=False)
    close("rotation object", rot.as_matrix(), R, 0, 1e-14)
    if c["kind"] == "parallel":
        close("no rotation", R, np.eye(3), 0, 1e-12)
    xyz = np.array(c["pts"], float)
    x0 = np.array(c["x0"])
    out = spatial.rotate_points_from_normals(xyz, np.array(c["a"]), np.array(c["b"]), x0=x0)
    s = np.max(np.abs(xyz)) + np.max(np.abs(x0)) + 1
    close("rotated points", out, (xyz - x0) @ R.T + x0, 0, 1e-13 * s)
    close("distance to centre", nrm(out - x0), nrm(xyz - x0), 0, 1e-13 * s)
    d = nrm(xyz[:, None] - xyz[None])
    close("distances", nrm(out[:, None] - out[None]), d, 0, 1e-12 * s)
    close("centre is fixed", spatial.rotate_points_from_normals(x0[None], np.array(c["a"]), np.array(c["b"]), x0=x0), x0[None], 0, 1e-13 * s)
    close("direction moves", spatial.rotate_points_from_normals((x0 + a)[None], np.array(c["a"]), np.array(c["b"]), x0=x0), (x0 + b)[None], 0, 1e-10 * s)
    out0 = spatial.rotate_points_from_normals(xyz, np.array(c["a"]), np.array(c["b"]))
    close("default centre is the origin", out0, xyz @ R.T, 0, 1e-13 * s)


@facet(FACETS, st.fixed_dictionaries(dict(pts=st.lists(gen.vec(coord()), min_size=1, max_size=5), o=gen.vec(coord()), w=st.integers(1, 5), ori=gen.orientation())), 2500)
def helpers(c, ctx):
    """Distances, magnitudes, dot and cross products, also those of dipole objects."""
    x, o = np.array(c["pts"], float), np.array(c["o"], float)
    d = x - o
    s = nrm(d) + 1e-300
    close("vector_distance", spatial.vector_distance(x, o), d, 1e-15)
    close("vector_distance (default)", spatial.vector_distance(x), x, 0)
    close("distance", spatial.distance(x, o), nrm(d), 1e-13)
    close("distance (default)", spatial.distance(x), nrm(x), 1e-13)
    close("vector_magnitude", spatial.vector_magnitude(x), nrm(x), 1e-13)
    close("vector_magnitude of one", spatial.vector_magnitude(x[0]), nrm(x[0]), 1e-13)
    close("vector_dot", spatial.vector_dot(x, o), np.sum(x * o, -1), 0, 1e-14 * np.sum(np.abs(x * o), -1))
    col = x[:, 0].copy()
    close("repeat_scalar", spatial.repeat_scalar(col), np.repeat(col[:, None], 3, 1), 0)
    close("repeat_scalar to dim", spatial.repeat_scalar(col, dim=c["w"]), np.repeat(col[:, None], c["w"], 1), 0)
    # whole numbers beside fractions
    xi = np.round(np.clip(x, -1e6, 1e6)).astype([np.int64, np.int32, np.int16][c["w"] % 3] if np.abs(x).max() < 3e4 else np.int64)
    for other in (o, list(c["o"]), tuple(c["o"])):
        close("vector_distance of integers", spatial.vector_distance(xi, other), xi - o, 1e-15)
        close("distance of integers", spatial.distance(xi, other), nrm(xi - o), 1e-13)
        close("vector_dot of integers", spatial.vector_dot(xi, other), np.sum(xi * o, -1), 0, 1e-14 * np.sum(np.abs(xi * o), -1))
    oi = np.round(np.clip(o, -1e6, 1e6)).astype(int)
    close("vector_distance to integers", spatial.vector_distance(x, oi), x - oi, 1e-15)
    close("distance to integers", spatial.distance(x, oi), nrm(x - oi), 1e-13)
    close("vector_magnitude of integers", spatial.vector_magnitude(xi.astype(np.int64)), nrm(xi.astype(float)), 1e-13)
    turned = spatial.rotate_points_from_normals(xi, [0.0, 0.0, 1.0], u0 := gen.unit(c["ori"]), x0=o)
    close("integers rotated", turned, spatial.rotate_points_from_normals(xi.astype(float), [0.0, 0.0, 1.0], u0, x0=o), 0, 1e-13 * (nrm(xi - o).max() + nrm(o)))
    close("rotated about integers", spatial.rotate_points_from_normals(x, [0, 0, 1], u0, x0=oi), spatial.rotate_points_from_normals(x, [0.0, 0.0, 1.0], u0, x0=oi.astype(float)), 0, 1e-13 * (nrm(x - oi).max() + nrm(oi.astype(float))))
    raises("vector_distance with a short origin", Exception, spatial.vector_distance, x, o[:2])
    raises("vector_dot with a short vector", Exception, spatial.vector_dot, x, o[:2])
    raises("vector_dot with four components", Exception, spatial.vector_dot, x, np.append(o, 1.0))
    raises("vector_distance with four components", Exception, spatial.vector_distance, x, np.append(o, 1.0))
    raises("rotation of two components", ValueError, spatial.rotation_matrix_from_normals, [1.0, 0.0], [0.0, 1.0, 0.0])
    raises("rotation to two components", ValueError, spatial.rotation_matrix_from_normals, [1.0, 0.0, 0.0], [0.0, 1.0])
    m = static.MagneticDipoleWholeSpace(location=o, orientation=c["ori"])
    u = gen.unit(c["ori"])
    close("dipole vector_distance", m.vector_distance(x), d, 1e-15)
    close("dipole distance", m.distance(x), nrm(d), 1e-13)
    close("dipole dot_orientation", m.dot_orientation(x), x @ u, 0, 1e-13 * nrm(x))
    close("dipole cross_orientation", m.cross_orientation(x), np.cross(x, u), 0, 1e-13 * nrm(x)[:, None])
    del s


@facet(FACETS, st.fixed_dictionaries(dict(n=gen.sizes(), pts=st.lists(gen.vec(coord()), min_size=1, max_size=4), v=st.lists(gen.vec(coord()), min_size=1, max_size=3), a=gen.nonzero_vec(), b=gen.nonzero_vec(), o=gen.vec(coord()),
                                          grid=st.booleans())), 400)
def large(c, ctx):
    """Thousands of points at once are transformed as the few different ones among them."""
    n, P, V = c["n"], np.array(c["pts"], float), np.array(c["v"], float)
    i, j = (np.arange(n) * 7919 + n) % len(P), (np.arange(n) * 31 + 1) % len(V)
    pairs = np.arange(len(P) * len(V))
    Pp, Vp = P[pairs // len(V)], V[pairs % len(V)]
    k = i * len(V) + j
    o = np.array(c["o"], float)
    ctx.label(f"about {10**round(math.log10(n))} points")

    def lay(x):
        return x.reshape((2, n // 2) + x.shape[1:]) if c["grid"] and n % 2 == 0 else x

    def compare(what, f, *few):
        want = np.asarray(f(*few))
        got = np.asarray(f(*[lay(x[k]) for x in few]))
        want = lay(want[k])
        if got.shape != want.shape:
            fail(f"{what} of {n} points: shape {got.shape}, expected {want.shape}")
        close(f"{what} of {n} points", got, want, 1e-13, 1e-13 * np.max(np.abs(want), axis=-1, keepdims=True) if want.ndim else 0)
    for name in ("cartesian_to_cylindrical", "cylindrical_to_cartesian", "cartesian_to_spherical", "spherical_to_cartesian"):
        compare(name, getattr(spatial, name), Pp)
        compare(f"{name} of vectors", getattr(spatial, name), Pp, Vp)
    c = dict(c, grid=False)  # the helpers take lists of points only
    compare("vector_distance", lambda x: spatial.vector_distance(x, o), Pp)
    compare("vector_magnitude", lambda x: np.asarray(spatial.vector_magnitude(x))[..., None], Pp)
    compare("distance", lambda x: np.asarray(spatial.distance(x, o))[..., None], Pp)
    compare("vector_dot", lambda x: np.asarray(spatial.vector_dot(x, V[0]))[..., None], Pp)
    x = Pp[k]
    R = spatial.rotation_matrix_from_normals(c["a"], c["b"])
    close(f"rotation of {n} points", spatial.rotate_points_from_normals(x, c["a"], c["b"], x0=o), (x - o) @ R.T + o, 0, 1e-13 * (nrm(x - o).max() + nrm(o)))
