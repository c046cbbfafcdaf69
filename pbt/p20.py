"""P20: Okada dislocation, line of sight and interferogram maps."""
import math

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import utm  # noqa: E402
from geoana.earthquake.oksar import EarthquakeInterferogram, Oksar  # noqa: E402

from . import gen  # noqa: E402
from .core import Discard, close, facet, fail, same, truth, check_shape  # noqa: E402
from .gen import st  # noqa: E402

FACETS = []
ASSUMPTIONS = [
    "Dip within (0, 90] degrees (a horizontal fault has no down-dip extent), depth_bottom > depth_top, grid points at least 1e-3 of the fault's size away "
    "from the fault and from the edges' extended planes unless exactly on them (the code snaps offsets below 1e-6 of the largest one to zero).",
    "The oracle integrates the Volterra formula with Boussinesq-Cerruti solutions (reciprocity) by adaptive Gauss quadrature; it shares no formula with the code.",
    "UTM to latitude/longitude conversion is the utm package's.",
]

G1, W1 = np.polynomial.legendre.leggauss(10)


# ----------------------------------------------------------------------------- oracle
def _disp(k, x, y, z, nu):
    """Displacement at (x, y, z), z down, of a unit surface force along axis k (G = 1)."""
    R = np.sqrt(x * x + y * y + z * z)
    a = 1 - 2 * nu
    if k == 2:
        return np.array([x * z / R**3 - a * x / (R * (R + z)), y * z / R**3 - a * y / (R * (R + z)), z * z / R**3 + 2 * (1 - nu) / R]) / (4 * np.pi)
    if k == 1:
        v = _disp(0, y, x, z, nu)
        return np.array([v[1], v[0], v[2]])
    return np.array([1 / R + x * x / R**3 + a * (1 / (R + z) - x * x / (R * (R + z)**2)),
                     x * y / R**3 - a * x * y / (R * (R + z)**2), x * z / R**3 + a * x / (R * (R + z))]) / (4 * np.pi)


def _stress(k, x, y, z, nu):
    J = np.zeros((3, 3) + x.shape)
    h = 1e-20
    for a in range(3):
        args = [x + 0j, y + 0j, z + 0j]
        args[a] = args[a] + 1j * h
        J[a] = _disp(k, *args, nu).imag / h
    S = J + np.swapaxes(J, 0, 1)
    tr = J[0, 0] + J[1, 1] + J[2, 2]
    for i in range(3):
        S[i, i] += 2 * nu / (1 - 2 * nu) * tr
    return S


def frame(strike, dip):
    """Along strike, down dip, normal; components (E, N, down)."""
    s, d = math.radians(strike), math.radians(dip)
    rt = np.array([math.cos(s), -math.sin(s), 0.0])
    dn = np.array([0.0, 0.0, 1.0])
    cd = 0.0 if dip == 90 else math.cos(d)
    return np.array([math.sin(s), math.cos(s), 0.0]), rt * cd + dn * math.sin(d), rt * math.sin(d) - dn * cd


def okada(p, f):
    """(E, N, up) displacement of the surface point p."""
    nu = f["beta"] / (2 * (f["beta"] + f["mu"]))
    sv, dd, n = frame(f["strike"], f["dip"])
    r = math.radians(f["rake"])
    slip = f["slip"] * (math.cos(r) * sv - math.sin(r) * dd)
    sd = math.sin(math.radians(f["dip"]))
    half = f["length"] / 2
    w = np.array([p[0] - f["center"][0], p[1] - f["center"][1], 0.0])
    todo, done = [(-half, half, f["depth_top"] / sd, f["depth_bottom"] / sd)], []
    ws, wd = w @ sv, w @ dd
    while todo:
        l0, l1, b0, b1 = todo.pop()
        d = np.linalg.norm(w - np.clip(ws, l0, l1) * sv - np.clip(wd, b0, b1) * dd)
        if max(l1 - l0, b1 - b0) > d:
            if l1 - l0 > b1 - b0:
                q = (l0 + l1) / 2
                todo += [(l0, q, b0, b1), (q, l1, b0, b1)]
            else:
                q = (b0 + b1) / 2
                todo += [(l0, l1, b0, q), (l0, l1, q, b1)]
        else:
            done.append((l0, l1, b0, b1))
        if len(done) + len(todo) > 400:
            raise Discard
    D = np.array(done)
    L = ((D[:, 0] + D[:, 1]) / 2)[:, None, None] + ((D[:, 1] - D[:, 0]) / 2)[:, None, None] * G1[None, :, None]
    B = ((D[:, 2] + D[:, 3]) / 2)[:, None, None] + ((D[:, 3] - D[:, 2]) / 2)[:, None, None] * G1[None, None, :]
    W = ((D[:, 1] - D[:, 0]) * (D[:, 3] - D[:, 2]) / 4)[:, None, None] * W1[None, :, None] * W1[None, None, :]
    X = L[..., None] * sv + B[..., None] * dd - w
    out = [np.sum(W * np.einsum("i,ij...,j->...", slip, _stress(k, X[..., 0], X[..., 1], X[..., 2], nu), n)) for k in range(3)]
    return np.array([out[0], out[1], -out[2]])


# -------------------------------------------------------------------------- strategies
@st.composite
def faults(draw):
    size = draw(st.one_of(st.just(1e4), gen.logf(10.0, 1e5)))
    top = draw(st.one_of(st.just(0.0), st.sampled_from([0.25, 0.5, 1.0]), gen.uni(0.02, 2.0)))
    return dict(
        center=[v * size for v in draw(st.one_of(st.just([0.0, 0.0]), gen.vec(gen.unit_coord(2.0), 2), gen.vec(gen.signed(gen.logf(3.0, 500.0)), 2)))],
        depth_top=top * size, depth_bottom=(top + draw(st.one_of(st.just(1.0), gen.uni(0.1, 2.0)))) * size,
        strike=draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 270.0, 360.0, 45.0]), gen.uni(0, 360).map(gen.sig), gen.near([90.0, 180.0, 270.0, 45.0, 1.1, 358.9]))),
        dip=draw(st.one_of(st.sampled_from([90.0, 45.0, 30.0, 89.0]), gen.uni(4, 89.9).map(gen.sig))),
        rake=draw(st.one_of(st.sampled_from([0.0, 90.0, -90.0, 180.0, -180.0, 45.0]), gen.uni(0, 180).map(gen.sig), gen.uni(0, -180).map(gen.sig), gen.near([0.0, 90.0, -90.0, 178.9, -178.9]))),
        slip=draw(st.one_of(st.just(0.5), gen.logf(1e-3, 20.0), gen.logf(1e-3, 20.0), gen.logf(1e-3, 20.0), st.just(0.0))),
        length=draw(st.one_of(st.just(1.0), gen.logf(0.1, 5.0))) * size,
        beta=draw(st.one_of(st.just(3e10), gen.logf(1e9, 3e11))), mu=draw(st.one_of(st.just(3e10), gen.logf(1e9, 3e11))),
        size=size)


@st.composite
def grids(draw, size, center, lo=1, hi=3):
    """O, U, V, shape in units of the fault size (around the centre)."""
    rel = st.one_of(gen.unit_coord(3.0), gen.uni(-3, 3).map(gen.sig))
    big = draw(st.one_of(st.just(1.0), gen.logf(0.1, 20.0)))
    O = [center[i] + draw(rel) * size * big for i in range(2)]
    if draw(st.booleans()):
        U, V = [draw(gen.uni(0.3, 3)) * size * big, 0.0], [0.0, draw(gen.uni(0.3, 3)) * size * big]
    else:
        U, V = [draw(rel) * size * big for _ in range(2)], [draw(rel) * size * big for _ in range(2)]
    return dict(O=O, U=U, V=V, shape=[draw(st.integers(lo, hi)), draw(st.integers(lo, hi))])


@st.composite
def cases(draw, lo=1, hi=3):
    f = draw(faults())
    c = dict(fault=f, grid=draw(grids(f["size"], f["center"], lo, hi)), how=draw(st.sampled_from(["init", "set"])))
    if draw(st.booleans()):
        # single point placed exactly above special lines of the fault
        sv, dd, n = frame(f["strike"], f["dip"])
        a = draw(st.sampled_from([-0.5, 0.5, 0.0, 1.5])) * f["length"]
        b = draw(st.sampled_from([0.0, 0.5, 1.0, -1.0, 2.0])) * f["size"]
        w = sv * a + np.array([math.cos(math.radians(f["strike"])), -math.sin(math.radians(f["strike"])), 0]) * b
        c["grid"] = dict(O=[float(f["center"][i] + w[i]) for i in range(2)], U=[1.0, 0.0], V=[0.0, 1.0], shape=[1, 1])
    return c


KEYS = ("depth_top", "depth_bottom", "strike", "dip", "rake", "slip", "length", "beta", "mu")


def build(f, g, how="init"):
    kw = {k: f[k] for k in KEYS}
    if how == "init":
        return Oksar(g["O"], g["U"], g["V"], f["center"], shape=tuple(g["shape"]), **kw)
    o = Oksar([1.0, 2.0], [3.0, 4.0], [5.0, 6.0], [7.0, 8.0], 0.0, shape=(2, 2))
    o.depth_top, o.depth_bottom = f["depth_top"], f["depth_bottom"]
    for k in KEYS[2:]:
        setattr(o, k, f[k])
    o.O, o.U, o.V, o.center, o.shape = g["O"], g["U"], g["V"], f["center"], g["shape"]
    return o


def grid_points(g):
    n0, n1 = g["shape"]
    return np.array([[g["O"][k] + (i / (n0 - 1) if n0 > 1 else 0.0) * g["U"][k] + (j / (n1 - 1) if n1 > 1 else 0.0) * g["V"][k] for k in range(2)]
                     for j in range(n1) for i in range(n0)])


def guard(f, pts):
    """Tolerance relative to slip from the conditioning of the closed form; discards points too close to a singular line or to a snapped offset."""
    sv, dd, n = frame(f["strike"], f["dip"])
    sd = math.sin(math.radians(f["dip"]))
    w = np.c_[pts - np.array(f["center"]), np.zeros(len(pts))]
    X, P, Q = w @ sv, w @ dd, w @ n
    half = f["length"] / 2
    aw = (f["depth_top"] / sd, f["depth_bottom"] / sd)
    mx = 0.0
    mn = np.inf
    for a in (-half, half):
        for b in aw:
            c = np.abs(np.c_[X - a, P - b, Q])
            mx = max(mx, c.max())
    if mx == 0:
        raise Discard
    worst = 0.0
    for a in (-half, half):
        for b in aw:
            c = np.abs(np.c_[X - a, P - b, Q])
            nz = c[(c > 1e-11 * mx)]
            if len(nz):
                mn = min(mn, nz.min())
            R = np.linalg.norm(c, axis=1)
            xi, et = X - a, P - b
            for lead, o1 in ((xi, et), (et, xi)):
                rho = np.hypot(o1, Q)
                neg = lead < 0
                with np.errstate(all="ignore"):
                    t = np.where(neg & (rho > 1e-11 * mx), (R / rho)**2, 1.0)
                worst = max(worst, float(np.max(t)))
            if np.any(R < 1e-3 * f["size"]):
                raise Discard
    if mn < 1e-4 * mx:
        raise Discard
    cd = math.cos(math.radians(f["dip"]))
    amp = 1.0 if f["dip"] == 90 else 1 / cd**2
    # distance to the fault
    for x, p, q in zip(X, P, Q):
        d = math.sqrt((x - np.clip(x, -half, half))**2 + (p - np.clip(p, *aw))**2 + q * q)
        if d < 2e-3 * f["size"]:
            raise Discard
    return 3e-15 * worst * amp * 30 + 1e-11 * amp


def singular(f, pts):
    """Is one of many points on the fault or next to the extension of one of its edges?"""
    sv, dd, n = frame(f["strike"], f["dip"])
    sd = math.sin(math.radians(f["dip"]))
    w = np.c_[pts - np.array(f["center"]), np.zeros(len(pts))]
    X, P, Q = w @ sv, w @ dd, w @ n
    half, aw = f["length"] / 2, (f["depth_top"] / sd, f["depth_bottom"] / sd)
    mx = max(np.abs(X).max() + half, np.abs(P).max() + aw[1], np.abs(Q).max())
    d = np.sqrt((X - np.clip(X, -half, half))**2 + (P - np.clip(P, *aw))**2 + Q * Q)
    bad = np.any(d < 2e-3 * f["size"])
    for a in (-half, half):
        bad |= np.any(np.hypot(X - a, Q) < 1e-5 * mx)
    for b in aw:
        bad |= np.any(np.hypot(P - b, Q) < 1e-5 * mx)
    return bool(bad)


# ------------------------------------------------------------------------------ facets
@facet(FACETS, cases(), 700)
def displacement(c, ctx):
    """Displacement at every grid point equals the Volterra integral over the fault (Boussinesq-Cerruti, adaptive Gauss quadrature)."""
    f, g = c["fault"], c["grid"]
    pts = grid_points(g)
    tol = guard(f, pts)
    want = np.array([okada(p, f) for p in pts])
    o = build(f, g, c["how"])
    got = o.displacement_vector
    check_shape("displacement_vector", got, (len(pts), 3))
    big = max(np.abs(want).max(), 1e-12)
    ctx.label("dip 90" if f["dip"] == 90 else "dip<90", "surface" if f["depth_top"] == 0 else "buried", f"n={min(len(pts), 4)}",
              "strike-slip" if f["rake"] in (0, 180, -180) else "dip-slip" if abs(f["rake"]) == 90 else "oblique")
    ctx.trivial = f["slip"] == 0 or tol * f["slip"] > 1e-3 * big
    close("displacement (E, N, up)", got, want, rtol=1e-8, atol=f["slip"] * (tol + 1e-9) + 1e-300)


@facet(FACETS, cases(1, 6), 3000)
def grid(c, ctx):
    """Grid points: O + a U + b V with a, b on linspaces of the requested shape, U fastest."""
    g = c["grid"]
    o = build(c["fault"], g, c["how"])
    pts = o.simulation_grid
    want = grid_points(g)
    ctx.trivial = len(want) == 1
    m = max(np.abs(want).max(), 1.0)
    close("simulation_grid", pts, want, atol=1e-13 * (m + np.abs(g["U"]).max() + np.abs(g["V"]).max()))


@facet(FACETS, st.fixed_dictionaries(dict(case=cases(1, 4), factor=gen.logf(1e-2, 1e2), cut=gen.uni(0.1, 0.9).map(gen.sig), turn=gen.uni(0, 360).map(gen.sig),
                                          shift=gen.vec(gen.uni(-5, 5).map(gen.sig), 2), rakes=gen.vec(gen.uni(-180, 180).map(gen.sig), 2), lame=gen.logf(1e-3, 1e3))), 1500)
def relations(c, ctx):
    """Linear in slip vector, additive along strike and dip, turns with strike, moves with centre, scale invariant, depends on the moduli's ratio only."""
    f, g = c["case"]["fault"], c["case"]["grid"]
    pts = grid_points(g)
    tol = guard(f, pts) + 1e-10
    base = build(f, g, c["case"]["how"]).displacement_vector
    atol = f["slip"] * tol * 4 + 1e-300
    ctx.trivial = f["slip"] == 0 or np.abs(base).max() < 100 * atol
    # slip
    f2 = dict(f, slip=f["slip"] * c["factor"])
    close("proportional to slip", build(f2, g).displacement_vector, base * c["factor"], rtol=1e-9, atol=atol * c["factor"])
    # rake
    s = [build(dict(f, rake=r), g).displacement_vector for r in (0.0, 90.0)]
    rr = math.radians(f["rake"])
    close("slip components add", base, math.cos(rr) * s[0] + math.sin(rr) * s[1], rtol=1e-9, atol=atol)
    # moduli
    close("only the ratio of the moduli counts", build(dict(f, beta=f["beta"] * c["lame"], mu=f["mu"] * c["lame"]), g).displacement_vector, base, rtol=1e-9, atol=atol)
    # along strike
    a = f["length"] * (c["cut"] - 0.5)
    sv, dd, n = frame(f["strike"], f["dip"])
    total, t2 = 0.0, 0.0
    for l0, l1 in ((-f["length"] / 2, a), (a, f["length"] / 2)):
        p = dict(f, length=l1 - l0, center=[f["center"][i] + sv[i] * (l0 + l1) / 2 for i in range(2)])
        t2 += guard(p, pts)
        total = total + build(p, g).displacement_vector
    close("sum of two parts along strike", total, base, rtol=1e-9, atol=f["slip"] * (tol + t2) * 4 + 1e-300)
    # down dip
    m = f["depth_top"] + c["cut"] * (f["depth_bottom"] - f["depth_top"])
    total, t2 = 0.0, 0.0
    for h0, h1 in ((f["depth_top"], m), (m, f["depth_bottom"])):
        p = dict(f, depth_top=h0, depth_bottom=h1)
        t2 += guard(p, pts)
        total = total + build(p, g).displacement_vector
    close("sum of two parts along dip", total, base, rtol=1e-9, atol=f["slip"] * (tol + t2) * 4 + 1e-300)
    # rigid motion: turn about the centre (clockwise), shift
    s2 = (f["strike"] + c["turn"]) % 360
    t = math.radians(c["turn"])
    M = np.array([[math.cos(t), math.sin(t)], [-math.sin(t), math.cos(t)]])
    sh = np.array(c["shift"]) * f["size"]
    ctr = np.array(f["center"])
    g2 = dict(g, O=list(ctr + sh + M @ (np.array(g["O"]) - ctr)), U=list(M @ g["U"]), V=list(M @ g["V"]))
    f2 = dict(f, strike=s2, center=list(ctr + sh))
    t2 = guard(f2, grid_points(g2))
    got = build(f2, g2).displacement_vector
    close("turns with the strike", got[:, :2] @ M, base[:, :2], rtol=1e-9, atol=f["slip"] * (tol + t2) * 10 + 1e-300)
    close("vertical displacement does not turn", got[:, 2], base[:, 2], rtol=1e-9, atol=f["slip"] * (tol + t2) * 10 + 1e-300)
    # lengths
    k = c["factor"]
    f3 = dict(f, size=f["size"] * k, length=f["length"] * k, depth_top=f["depth_top"] * k, depth_bottom=f["depth_bottom"] * k, center=[v * k for v in f["center"]])
    g3 = dict(g, O=[v * k for v in g["O"]], U=[v * k for v in g["U"]], V=[v * k for v in g["V"]])
    close("invariant under a change of unit", build(f3, g3).displacement_vector, base, rtol=1e-9, atol=atol * 5)
    # each point on its own
    if len(pts) > 1:
        i = len(pts) - 1
        one = build(f, dict(O=list(pts[i]), U=[1.0, 0.0], V=[0.0, 1.0], shape=[1, 1])).displacement_vector
        close("point on its own", one[0], base[i], rtol=1e-9, atol=atol)


@facet(FACETS, st.fixed_dictionaries(dict(case=cases(1, 2), shape=gen.vec(st.sampled_from([1, 2, 11, 33, 64, 65, 101, 129]), 2), pick=st.lists(gen.uni(0, 1), min_size=3, max_size=3))), 300)
def large_grid(c, ctx):
    """Thousands of grid points: picked ones, the first and the last are where they should be and move as they do alone."""
    f, g = c["case"]["fault"], dict(c["case"]["grid"], shape=c["shape"])
    o = build(f, g, c["case"]["how"])
    pts = grid_points(g)
    m = max(np.abs(pts).max(), 1.0)
    close("simulation_grid", o.simulation_grid, pts, atol=1e-13 * (m + np.abs(g["U"]).max() + np.abs(g["V"]).max()))
    if singular(f, pts):
        raise Discard
    got = o.displacement_vector
    check_shape("displacement_vector", got, (len(pts), 3))
    far = pts[np.argmax(np.abs(pts - f["center"]).sum(axis=1))]
    ctx.trivial = True
    ctx.label(f"about {10 ** round(math.log10(len(pts)))} points")
    for i in {0, len(pts) - 1, *(int(u * (len(pts) - 1)) for u in c["pick"])}:
        try:
            tol = guard(f, np.array([pts[i], far]))
        except Discard:
            continue
        one = build(f, dict(O=list(pts[i]), U=[1.0, 0.0], V=[0.0, 1.0], shape=[1, 1])).displacement_vector
        close(f"point {i} of {len(pts)}", got[i], one[0], rtol=1e-9, atol=f["slip"] * (tol + 1e-10) * 4 + 1e-300)
        ctx.trivial = f["slip"] == 0


# --------------------------------------------------------------------- line of sight
@st.composite
def scenes(draw):
    return dict(zone=draw(st.one_of(st.integers(1, 60), st.integers(-60, -1))),
                ref=[draw(gen.uni(2.5e5, 7.5e5).map(gen.sig)), draw(gen.uni(5e5, 9e6).map(gen.sig))],
                inc=draw(st.one_of(st.just(23.0), gen.uni(5, 60).map(gen.sig))), az=draw(st.one_of(st.sampled_from([0.0, 90.0, 180.0, 192.0, 348.0]), gen.uni(0, 360).map(gen.sig))),
                alt=draw(st.one_of(st.just(788792.0), gen.logf(2e5, 2e6))), radius=draw(st.one_of(st.just(6371000.0), gen.uni(6.35e6, 6.4e6).map(gen.sig))))


def interferogram(s, data=(1.0,), shape=(1, 1), location=(0.0, 0.0), pixel=(1.0, 1.0), title="t", **kw):
    return EarthquakeInterferogram(np.array(data), title, location, s["zone"], shape, pixel, s["ref"], s["inc"], s["az"], s["alt"], "me",
                                   local_earth_radius=s["radius"], **kw)


def los(s, p):
    """Unit vector (E, N, up) from the ground to a right looking satellite flying along the azimuth."""
    north = s["zone"] > 0

    def unit(q):
        lat, lon = utm.to_latlon(q[0], q[1], abs(s["zone"]), northern=north)
        lat, lon = math.radians(lat), math.radians(lon)
        return lat, lon, np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])

    lat, lon, r = unit(s["ref"])
    e = np.array([-math.sin(lon), math.cos(lon), 0.0])
    nn = np.cross(r, e)
    a = math.radians(s["az"])
    left = np.cross(r, math.cos(a) * nn + math.sin(a) * e)
    rad, top = s["radius"], s["radius"] + s["alt"]
    # centre angle between reference and satellite: sine rule in the triangle earth's centre, ground, satellite
    inc = math.radians(s["inc"])
    look = math.asin(rad * math.sin(inc) / top)
    ang = inc - look
    ang -= math.asin(float(np.clip(unit(p)[2] @ left, -1, 1)))
    h, v = top * math.sin(ang), top * math.cos(ang) - rad
    if v < 1e4:
        raise Discard
    d = math.hypot(h, v)
    return np.array([-math.cos(a) * h / d, math.sin(a) * h / d, v / d])


@facet(FACETS, st.fixed_dictionaries(dict(scene=scenes(), pts=st.lists(gen.vec(gen.unit_coord(3.0), 2), min_size=1, max_size=5), how=st.sampled_from(["list", "one", "tuple"]))), 1500)
def line_of_sight(c, ctx):
    """Line of sight at UTM points: unit vectors with the incidence of the sphere-satellite triangle, away from the track."""
    s = c["scene"]
    pts = [[s["ref"][0] + p[0] * 4e4, s["ref"][1] + p[1] * 4e4] for p in c["pts"]]
    eq = interferogram(s)
    want = np.array([los(s, p) for p in pts])
    ctx.label("north" if s["zone"] > 0 else "south", c["how"])
    if c["how"] == "list":
        got = np.asarray(eq.get_LOS_vector(pts))
        check_shape("get_LOS_vector", got, (3, len(pts)) if len(pts) > 1 else (3,))
        got = got.T.reshape(-1, 3)
    else:
        got = np.array([eq.get_LOS_vector(np.array(p) if c["how"] == "one" else tuple(p)) for p in pts])
    close("unit length", np.linalg.norm(got, axis=1), np.ones(len(pts)), rtol=1e-12)
    close("line of sight", got, want, atol=1e-9)
    # at the reference point itself the incidence is the reference incidence
    at = np.asarray(eq.get_LOS_vector([list(s["ref"])]))
    close("incidence at the reference", at[2], math.cos(math.radians(s["inc"])), rtol=1e-9)


# ----------------------------------------------------------------------------- maps
def cells(mesh):
    """Cell centres and (masked) values of a drawn mesh."""
    co = np.asarray(mesh.get_coordinates())
    ctr = 0.25 * (co[:-1, :-1] + co[1:, :-1] + co[:-1, 1:] + co[1:, 1:])
    a = np.ma.asarray(mesh.get_array()).reshape(ctr.shape[:2])
    return ctr.reshape(-1, 2), np.ma.getmaskarray(a).ravel(), np.ma.getdata(a).ravel(), co


def clim(mesh, v):
    lo, hi = mesh.get_clim()
    if v.max() - v.min() > 1e-6 * np.abs(v).max():  # matplotlib widens limits that coincide
        close("colour limits", (lo, hi), (v.min(), v.max()), rtol=1e-9, atol=1e-12 * np.abs(v).max())
    else:
        truth("colour limits enclose the data", lo <= v.min() and hi >= v.max(), f"{lo} {hi}")


def opaque(mesh, opacity):
    """The mask is drawn with the opacity asked for (documented default 0.2)."""
    colours = np.atleast_2d(mesh.to_rgba(np.ma.array([1.0, 1.0]), alpha=mesh.get_alpha()))
    close("opacity of the mask", colours[:, 3], np.full(len(colours), 0.2 if opacity is None else opacity), atol=1e-12)


@st.composite
def images(draw):
    nx, ny = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    data = draw(st.lists(st.one_of(st.just(0.0), gen.uni(-9, 9).map(gen.sig), gen.uni(0, 1e-3).map(gen.sig)), min_size=nx * ny, max_size=nx * ny).filter(lambda d: any(d)))
    return dict(shape=[nx, ny], data=data, location=[draw(gen.uni(3e5, 7e5).map(gen.sig)), draw(gen.uni(1e6, 8e6).map(gen.sig))],
                pixel=[draw(gen.logf(1, 500)), draw(gen.logf(1, 500))], scaling=draw(st.one_of(st.just(1.0), gen.signed(gen.logf(1e-3, 10)))),
                fringe=draw(st.one_of(st.just(0.028333), gen.logf(1e-3, 1))), wrap=draw(st.sampled_from([None, True, False])), ax=draw(st.booleans()), mask=draw(st.booleans()),
                opacity=draw(st.one_of(st.none(), st.sampled_from([0.0, 1.0]), gen.uni(0, 1).map(gen.sig))), title=draw(st.sampled_from(['', 'Dinar, Turkey', 'a b'])), zone=draw(st.integers(1, 60)))


@facet(FACETS, images(), 200)
def interferogram_map(c, ctx):
    """Interferogram and mask drawn pixel by pixel: pixel (i, j) counted east and south from the location; zeros masked; scaled; wrapped to one fringe."""
    s = dict(zone=c["zone"], ref=[5e5, 4e6], inc=23.0, az=192.0, alt=788792.0, radius=6371000.0)
    nx, ny = c["shape"]
    eq = interferogram(s, c["data"], c["shape"], c["location"], c["pixel"], scaling=c["scaling"], satellite_fringe_interval=c["fringe"], title=c["title"])
    ctx.label(f"wrap={c['wrap']}", "mask" if c["mask"] else "map")
    try:
        plt.close("all")
        other = None
        ax = None
        if c["ax"]:
            fig, (ax, other) = plt.subplots(1, 2)
        wrap = c["wrap"] is not False
        if c["mask"]:
            out = eq.plot_mask(**({"ax": ax} if c["ax"] else {}), **({} if c["opacity"] is None else dict(opacity=c["opacity"])))
        else:
            kw = {} if c["wrap"] is None else dict(wrap=c["wrap"])
            out = eq.plot_interferogram(**kw, **({"ax": ax} if c["ax"] else {}))
        mesh = out[0] if isinstance(out, tuple) else out
        if c["ax"]:
            truth("drawn on the given axes", mesh.axes is ax and not other.collections and len(plt.get_fignums()) == 1)
        else:
            truth("drawn on a figure of its own", len(plt.get_fignums()) == 1 and mesh.figure.number in plt.get_fignums())
        truth("title", mesh.axes.get_title() == c["title"], mesh.axes.get_title())
        truth("zone in the label", str(c["zone"]) in mesh.axes.get_xlabel(), mesh.axes.get_xlabel())
        ctr, mask, val, co = cells(mesh)
        truth("number of cells", len(val) == nx * ny, f"{len(val)}")
        i = (ctr[:, 0] - c["location"][0]) / c["pixel"][0] - 0.5
        j = (c["location"][1] - ctr[:, 1]) / c["pixel"][1] - 0.5
        atol = 1e-9 * 8e6 / min(c["pixel"])
        close("columns on pixels", i, np.round(i), atol=atol + 1e-6)
        close("rows on pixels", j, np.round(j), atol=atol + 1e-6)
        i, j = np.round(i).astype(int), np.round(j).astype(int)
        truth("every pixel once", sorted(zip(i, j)) == sorted((a, b) for a in range(nx) for b in range(ny)))
        raw = np.array(c["data"])[i + nx * j]
        if c["mask"]:
            same("mask shows exactly the pixels without data", ~mask, raw == 0)
            opaque(mesh, c["opacity"])
        else:
            same("pixels without data are masked", mask, raw == 0)
            v = raw * c["scaling"]
            got = val[~mask]
            want = v[~mask]
            if wrap:
                truth("within one fringe", np.all((got >= 0) & (got <= c["fringe"])))
                k = (got - want) / c["fringe"]
                close("wrapped value", k, np.round(k), atol=1e-9 * (1 + np.abs(want).max() / c["fringe"]))
                close("colour limits", mesh.get_clim(), (0.0, c["fringe"]))
            else:
                close("scaled value", got, want, rtol=1e-12)
                clim(mesh, want)
        same("data kept", eq.data, np.array(c["data"]))
    finally:
        plt.close("all")


@facet(FACETS, st.fixed_dictionaries(dict(fault=faults(), span=gen.vec(gen.logf(0.3, 5), 2), sign=st.tuples(st.booleans(), st.booleans()).map(list), shape=gen.vec(st.integers(1, 5), 2), off=gen.vec(gen.uni(-2, 2).map(gen.sig), 2),
                                          eq=st.one_of(st.none(), scenes()), wrap=st.sampled_from([None, True, False]), image=images())), 120)
def displacement_map(c, ctx):
    """The drawn displacement map: cell (i, j) along U and V shows the modelled displacement along the (point's own) line of sight."""
    f = dict(c["fault"])
    f["center"] = [5e5, 4e6]
    g = dict(O=[f["center"][k] + c["off"][k] * f["size"] for k in range(2)], shape=c["shape"],
             U=[c["span"][0] * f["size"] * (1 if c["sign"][0] else -1), 0.0], V=[0.0, c["span"][1] * f["size"] * (1 if c["sign"][1] else -1)])
    pts = grid_points(g)
    if c["eq"] is not None and (pts[:, 0].min() < 1.2e5 or pts[:, 0].max() > 8.8e5 or pts[:, 1].min() < 1e5 or pts[:, 1].max() > 9e6):
        raise Discard
    o = build(f, g)
    try:
        u = o.displacement_vector
    except Exception as e:
        if "singular" in str(e):
            raise Discard
        raise
    if not np.all(np.isfinite(u)):
        raise Discard
    eq = None
    im = c["image"]
    if c["eq"] is not None:
        s = dict(c["eq"], ref=[5e5, 4e6])
        eq = interferogram(s, im["data"], im["shape"], im["location"], im["pixel"], satellite_fringe_interval=im["fringe"], title=im["title"])
        want = np.array([np.dot(d, los(s, p)) for d, p in zip(u, pts)])
    else:
        want = u[:, 2]
    ctx.label("eq" if eq else "vertical", f"wrap={c['wrap']}")
    try:
        plt.close("all")
        kw = {} if c["wrap"] is None else dict(wrap=c["wrap"])
        other = None
        if im["ax"]:
            fig, (other, kw["ax"]) = plt.subplots(1, 2)
        if im["opacity"] is not None:
            kw["mask_opacity"] = im["opacity"]
        out = o.plot_displacement(eq=eq, **kw) if eq is not None else o.plot_displacement(**kw)
        truth("returns the drawn objects", isinstance(out, tuple) and len(out) == (1 if eq is None else 2))
        if other is None:
            truth("drawn on one figure of its own", len(plt.get_fignums()) == 1 and all(m.figure.number in plt.get_fignums() for m in out))
        else:
            truth("drawn on the given axes", len(plt.get_fignums()) == 1 and all(m.axes is kw["ax"] for m in out) and not other.collections)
        if eq is not None:
            opaque(out[1], im["opacity"])
            _, covered, _, _ = cells(out[1])
            truth("mask covers the pixels without data", np.sum(~covered) == np.sum(np.array(im["data"]) == 0))
        ctr, mask, val, co = cells(out[0])
        n0, n1 = c["shape"]
        truth("number of cells", len(val) == n0 * n1)
        i = np.floor((ctr[:, 0] - g["O"][0]) / g["U"][0] * n0).astype(int)
        j = np.floor((ctr[:, 1] - g["O"][1]) / g["V"][1] * n1).astype(int)
        truth("every cell once", sorted(zip(i, j)) == sorted((a, b) for a in range(n0) for b in range(n1)), f"{i} {j}")
        want = want[i + n0 * j]
        atol = 1e-9 * max(f["slip"], 1e-300)
        truth("nothing masked", not mask.any())
        if c["wrap"] is not False and eq is not None:
            k = (val - want) / im["fringe"]
            truth("within one fringe", np.all((val >= 0) & (val <= im["fringe"])))
            close("wrapped displacement", k, np.round(k), atol=1e-9 + atol / im["fringe"] * 2)
            close("colour limits", out[0].get_clim(), (0.0, im["fringe"]))
        else:
            close("displacement", val, want, rtol=1e-9, atol=atol)
            clim(out[0], val)
        ctx.trivial = not np.any(want)
    finally:
        plt.close("all")
