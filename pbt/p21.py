"""P21: gridded plotting of scattered data."""
import copy
import math
import os
import tempfile

import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
from matplotlib import colors as mcolors  # noqa: E402
from matplotlib.path import Path  # noqa: E402
from scipy.spatial import Delaunay  # noqa: E402
from geoana.plotting_utils import plot2Ddata  # noqa: E402

from . import gen  # noqa: E402
from .core import Discard, close, facet, fail, raises, same, truth  # noqa: E402
from .gen import st  # noqa: E402

FACETS = []
ASSUMPTIONS = [
    "At least four locations that span an area, at least two grid points per axis, data that are not constant (and of one sign for a logarithmic scale).",
    "Drawn bands are read back from the contour polygons; matplotlib and scipy's Delaunay triangulation are trusted.",
]

OPTS = st.fixed_dictionaries({}, optional=dict(alpha=st.sampled_from([0.5, 1.0]), cmap=st.sampled_from(["viridis", "jet"]), zorder=st.sampled_from([5, 7])))


@st.composite
def cases(draw):
    n = draw(st.integers(4, 14))
    unit = [draw(st.one_of(st.just(1.0), gen.logf(1e-3, 1e5))) for _ in range(2)]
    orig = [draw(gen.unit_coord(3.0)) * u for u in unit]
    loc = [[draw(gen.uni(0, 1)), draw(gen.uni(0, 1))] for _ in range(n)]
    if draw(st.booleans()):
        loc[:4] = [[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]
    xyz = [[orig[k] + unit[k] * p[k] for k in range(2)] for p in loc]
    dim = draw(st.sampled_from([2, 3]))
    xyz = [p + [draw(gen.unit_coord(2.0))] * (dim - 2) for p in xyz]
    vec = draw(st.booleans())
    scale = draw(st.sampled_from(["linear", "linear", "log"]))
    amp = draw(st.one_of(st.just(1.0), gen.logf(1e-9, 1e6)))
    lo = 0.05 if scale == "log" else -1.0
    sgn = draw(st.sampled_from([1.0, -1.0]))
    val = gen.uni(lo, 1.0).map(lambda v: sgn * v * amp)
    data = [[draw(val), draw(val)] for _ in range(n)] if vec else [draw(val) for _ in range(n)]
    opt = dict(nx=st.integers(2, 14), ny=st.integers(2, 14), ncontour=st.integers(1, 12), method=st.sampled_from(["linear", "nearest"]),
               level=st.just(True), dataloc=st.booleans(), shade=st.booleans(), mask=st.one_of(st.lists(st.booleans(), min_size=n, max_size=n), st.just([False] * n), st.integers(0, n - 1).map(lambda i: [j == i for j in range(n)])),
               clim=st.lists(gen.uni(0.1, 0.9), min_size=2, max_size=2).filter(lambda t: abs(t[0] - t[1]) > 0.1),
               contour=OPTS, levels=st.fixed_dictionaries({}, optional=dict(colors=st.just("k"), zorder=st.just(9), levels=st.lists(gen.uni(0.05, 0.95), min_size=1, max_size=3, unique=True).map(sorted))),
               stream=st.fixed_dictionaries({}, optional=dict(color=st.just("r"), density=st.just(0.5))),
               sun=st.tuples(gen.uni(-180, 180), gen.uni(5, 85)).map(list), shade_n=st.integers(5, 40), vlim=st.sampled_from(["vmin", "vmax"]), zero=st.just(True), own_levels=st.lists(gen.uni(0.05, 0.95), min_size=3, max_size=5, unique=True).map(sorted))
    o = {k: draw(v) for k, v in opt.items() if draw(st.integers(0, 9)) < (6 if k in ("nx", "ny") else 4)}
    if "nx" not in o and draw(st.booleans()):
        o["nx"], o["ny"] = 6, 5
    return dict(xyz=xyz, data=data, vec=vec, scale=scale if scale == "log" or draw(st.booleans()) else None, ax=draw(st.booleans()), fig=draw(st.integers(0, 19)) == 0, opt=o)


def brute_nearest(P, q):
    d = np.hypot((P[:, 0][:, None] - q[:, 0]), (P[:, 1][:, None] - q[:, 1]))
    k = np.argsort(d, axis=0)
    i = np.arange(len(q))
    clear = d[k[1], i] - d[k[0], i] > 1e-9 * (d[k[1], i] + 1e-300)
    return k[0], clear


def interp(P, v, q, method):
    """Value at q and whether it is unambiguous (nan outside of the hull)."""
    if method == "nearest":
        k, clear = brute_nearest(P, q)
        return v[k], clear
    tri = Delaunay(P)
    out = np.full(len(q), np.nan)
    clear = np.ones(len(q), bool)
    T = tri.simplices
    A = P[T]
    best = np.full(len(q), -np.inf)
    for a, t in zip(A, T):
        M = np.array([a[1] - a[0], a[2] - a[0]]).T
        det = np.linalg.det(M)
        if abs(det) < 1e-14 * np.abs(M).max()**2:
            continue
        lam = np.linalg.solve(M, (q - a[0]).T)
        bar = np.array([1 - lam[0] - lam[1], lam[0], lam[1]])
        m = bar.min(axis=0)
        hit = m > best
        best = np.where(hit, m, best)
        out = np.where(hit, v[t] @ bar, out)
    clear = np.abs(best) > 1e-9
    clear |= best > -1e-9  # on an edge inside: neighbours agree
    hullamb = np.abs(best) <= 1e-7
    out = np.where(best < -1e-9, np.nan, out)
    return out, clear & ~((best < 0) & hullamb)


def bands(cs):
    """Even-odd polygons of every band."""
    out = []
    for p in cs.get_paths():
        verts, codes = p.vertices, p.codes
        if len(verts) == 0:
            out.append([])
            continue
        cut = [i for i, c in enumerate(codes) if c == Path.MOVETO] + [len(verts)]
        out.append([verts[a:b] for a, b in zip(cut[:-1], cut[1:]) if b - a >= 3])
    return out


def inside(polys, q):
    r = np.zeros(len(q), bool)
    for v in polys:
        x, y = v[:, 0], v[:, 1]
        x2, y2 = np.roll(x, -1), np.roll(y, -1)
        for k in range(len(q)):
            cond = (y > q[k, 1]) != (y2 > q[k, 1])
            with np.errstate(all="ignore"):
                xs = x + (q[k, 1] - y) / (y2 - y) * (x2 - x)
            r[k] ^= bool(np.count_nonzero(cond & (q[k, 0] < xs)) % 2)
    return r


def check_bands(what, cs, X, Y, D, M, clear, scale_units, xmin, ymin):
    """Every interior node lies in the polygon of its band and in no other."""
    lev = np.asarray(cs.levels)
    ny, nx = D.shape
    bad = M | np.isnan(D)
    rng = lev[-1] - lev[0]
    q, band = [], []
    for j in range(1, ny - 1):
        for i in range(1, nx - 1):
            blk = (slice(j - 1, j + 2), slice(i - 1, i + 2))
            if not clear[blk].all():
                continue
            if bad[j, i]:
                q.append((j, i))
                band.append(-1)
            elif not bad[blk].any():
                v = D[j, i]
                if np.min(np.abs(v - lev)) < 1e-6 * max(abs(rng), abs(v)):
                    continue
                q.append((j, i))
                band.append(int(np.searchsorted(lev, v)) - 1)
    if len(q) > 120:
        sel = np.linspace(0, len(q) - 1, 120).astype(int)
        q, band = [q[s] for s in sel], [band[s] for s in sel]
    if not q:
        return 0
    pts = np.array([[X[j, i], Y[j, i]] for j, i in q])
    polys = bands(cs)
    truth(f"{what}: one polygon set per band", len(polys) == len(lev) - 1, f"{len(polys)} bands, {len(lev)} levels")
    for b, pol in enumerate(polys):
        got = inside(pol, pts)
        want = np.array([k == b for k in band])
        if not np.array_equal(got, want):
            k = int(np.argmax(got != want))
            fail(f"{what}: grid point {pts[k].tolist()} with value {D[q[k]]!r} {'lies' if got[k] else 'does not lie'} in the band {lev[b:b + 2].tolist()}")
    return len(q)


@facet(FACETS, cases(), 700)
def plot(c, ctx):
    """Bands, levels, limits, norm, mask, level lines, streamlines, shading, locations, options and returned objects of one plot against own interpolation."""
    o = c["opt"]
    xyz = np.array(c["xyz"])
    data = np.array(c["data"])
    P = xyz[:, :2]
    span = P.max(0) - P.min(0)
    if np.any(span <= 0):
        raise Discard
    if np.linalg.matrix_rank((P - P.mean(0)) / span, tol=1e-3) < 2 or len(np.unique(P, axis=0)) < 4:
        raise Discard
    nx, ny = o.get("nx", 100), o.get("ny", 100)
    x, y = np.linspace(P[:, 0].min(), P[:, 0].max(), nx), np.linspace(P[:, 1].min(), P[:, 1].max(), ny)
    X, Y = np.meshgrid(x, y)
    q = np.c_[X.ravel(), Y.ravel()]
    method = o.get("method", "linear")
    scale = c["scale"] or "linear"
    if c["vec"]:
        comp, cl = zip(*[interp(P, data[:, k], q, method) for k in range(2)])
        D, clear = np.hypot(*comp), cl[0]
    else:
        D, clear = interp(P, data, q, method)
    if scale == "log":
        D = np.abs(D)
    D, clear = D.reshape(X.shape), clear.reshape(X.shape)
    fin = np.isfinite(D)
    if fin.sum() < 3 or D[fin].max() - D[fin].min() < 1e-3 * np.abs(D[fin]).max() or D[fin].max() == 0:
        raise Discard
    lo, hi = D[fin].min(), D[fin].max()

    def at(t):
        return float(lo * (hi / lo)**t) if scale == "log" else float(lo + (hi - lo) * t)

    kw = {k: o[k] for k in ("nx", "ny", "ncontour", "method", "level", "dataloc", "shade") if k in o}
    if c["scale"]:
        kw["scale"] = c["scale"]
    if c["vec"]:
        kw["vec"] = True
    M = np.zeros(X.shape, bool)
    if "mask" in o:
        kw["mask"] = np.array(o["mask"])
        k, mclear = brute_nearest(P, q)
        M = kw["mask"][k].reshape(X.shape)
        clear = clear & mclear.reshape(X.shape)
    vmin, vmax = lo, hi
    known_limits = not (~clear).any()
    contour = dict(o.get("contour", {}))
    if "clim" in o:
        kw["clim"] = [at(t) for t in o["clim"]]
        k = int(np.argmin(np.abs(kw["clim"])))
        if "zero" in o and scale == "linear" and lo < 0 < hi and abs(kw["clim"][1 - k]) > 0.1 * (hi - lo):
            kw["clim"][k] = 0.0
            ctx.label("zero limit")
        vmin, vmax = min(kw["clim"]), max(kw["clim"])
    elif "vlim" in o:
        contour[o["vlim"]] = at(0.3 if o["vlim"] == "vmin" else 0.7)
        if "zero" in o and scale == "linear" and lo + 0.1 * (hi - lo) < 0 < hi - 0.1 * (hi - lo):
            contour[o["vlim"]] = 0.0
            ctx.label("zero limit")
        vmin, vmax = contour.get("vmin", vmin), contour.get("vmax", vmax)
    nc = o.get("ncontour", 10)
    levels = np.logspace(math.log10(vmin), math.log10(vmax), nc + 1) if scale == "log" else np.linspace(vmin, vmax, nc + 1)
    own = False
    if "own_levels" in o and np.min(np.diff(o["own_levels"])) > 0.01:
        contour["levels"] = [at(t) for t in o["own_levels"]]
        levels, own = np.array(contour["levels"]), True
    if contour:
        kw["contourOpts"] = contour
    lopt = dict(o.get("levels", {}))
    if "levels" in lopt:
        lopt["levels"] = [at(t) for t in lopt["levels"]]
    if lopt:
        kw["levelOpts"] = lopt
    if "stream" in o:
        kw["streamplotOpts"] = dict(o["stream"])
    sopt = {}
    if "sun" in o:
        kw["shade_azimuth"], kw["shade_angle_altitude"] = o["sun"]
        sopt = {"cmap": "Blues"}
        kw["shadeOpts"] = sopt
    if "shade_n" in o:
        kw["shade_ncontour"] = o["shade_n"]
    before = copy.deepcopy(kw)
    xyz0, data0 = xyz.copy(), data.copy()
    ctx.label("vector" if c["vec"] else "scalar", scale, method, *[k for k in o if k in ("mask", "clim", "level", "shade", "dataloc", "vlim", "own_levels")])
    tmp = None
    try:
        plt.close("all")
        other = ax = None
        if c["ax"]:
            fig, (ax, other) = plt.subplots(1, 2)
            plt.sca(other)
            kw["ax"] = ax
        else:
            other = plt.figure().add_subplot(111)
            plt.sca(other)
        if c["fig"]:
            tmp = tempfile.mkdtemp(prefix="p21")
            kw["figname"] = os.path.join(tmp, "a.png")
        out = plot2Ddata(xyz, data, **kw)
        want_len = 3 if o.get("level") else 2
        truth("number of returned objects", len(out) == want_len, f"{len(out)}")
        cont, rax = out[0], out[1]
        if c["ax"]:
            truth("returns and uses the given axes", rax is ax and cont.axes is ax)
        else:
            truth("a figure of its own when no axes are given", rax.figure is not other.figure and other in other.figure.axes)
        truth("other axes untouched", not other.collections and not other.lines)
        truth("contours drawn on the returned axes", cont.axes is rax)
        if c["fig"]:
            truth("figure written", os.path.exists(kw["figname"]) and os.path.getsize(kw["figname"]) > 500)
        # arguments untouched
        same("locations unchanged", xyz, xyz0)
        same("data unchanged", data, data0)
        for k, v in before.items():
            truth(f"argument {k} unchanged", np.array_equal(kw[k], v) if isinstance(v, np.ndarray) else kw[k] == v, f"{kw[k]} was {v}")
        # levels and normalization
        tol = 1e-9 * max(abs(vmin), abs(vmax))
        if own:
            close("requested levels", cont.levels, levels, rtol=1e-12)
        elif known_limits or ("clim" in o):
            close("levels", cont.levels, levels, rtol=1e-7, atol=tol)
        else:
            truth("number of levels", len(cont.levels) == nc + 1, f"{len(cont.levels)}")
        if known_limits or "clim" in o:
            close("colour limits", cont.get_clim(), (vmin, vmax), rtol=1e-7, atol=tol)
        truth("scale of the colours", isinstance(cont.norm, mcolors.LogNorm) == (scale == "log"), repr(cont.norm))
        truth("drawing order", cont.get_zorder() == contour.get("zorder", 1))
        if "alpha" in contour:
            truth("transparency", cont.get_alpha() == contour["alpha"])
        if "cmap" in contour:
            truth("colour map", cont.get_cmap().name == contour["cmap"])
        n = check_bands("filled contours", cont, X, Y, D, M, clear, span, x[0], y[0])
        # area drawn spans the grid
        v = np.concatenate([p for b in bands(cont) for p in b] or [np.empty((0, 2))])
        if len(v):
            truth("drawn within the extent of the locations", np.all(v >= P.min(0) - 1e-9 * (np.abs(P).max(0) + span)) and np.all(v <= P.max(0) + 1e-9 * (np.abs(P).max(0) + span)))
            full = fin.all() and clear.all() and not M.any() and not own and "clim" not in o and "vlim" not in o and method == "linear"
            full = full and np.sum(D > hi - 1e-6 * (hi - lo)) == 1 and np.sum(D < lo + 1e-6 * (hi - lo)) == 1
            if full:
                close("drawn over the whole extent", [v.min(0), v.max(0)], [P.min(0), P.max(0)], rtol=1e-9, atol=1e-9 * span)
        # grid resolution: vertices lie on the grid lines
        if len(v):
            fx = (v[:, 0] - x[0]) / span[0] * (nx - 1)
            fy = (v[:, 1] - y[0]) / span[1] * (ny - 1)
            eps = 1e-6 + 1e-12 * max(np.abs(P).max(0) / span) * max(nx, ny)
            diag = M.any() or not fin.all()
            on = (np.abs(fx - np.round(fx)) < eps) | (np.abs(fy - np.round(fy)) < eps)
            if diag:  # corner triangles put vertices on cell diagonals
                f0, f1 = fx - np.floor(fx), fy - np.floor(fy)
                on |= (np.abs(f0 - f1) < eps) | (np.abs(f0 + f1 - 1) < eps)
            truth("contour vertices on the requested grid", on.all(), f"{v[~on][:2].tolist()} of nx={nx}, ny={ny}")
        # level lines
        if o.get("level"):
            CS = out[2]
            truth("level lines on the axes", CS.axes is rax and not CS.filled)
            truth("drawing order of lines", CS.get_zorder() == lopt.get("zorder", 3))
            if "levels" in lopt:
                close("requested line levels", CS.levels, lopt["levels"], rtol=1e-12)
            else:
                base = np.asarray(cont.levels) if not own else (np.logspace(math.log10(vmin), math.log10(vmax), nc + 1) if scale == "log" else np.linspace(vmin, vmax, nc + 1))
                if not own or known_limits or "clim" in o:
                    close("line levels", CS.levels, base, rtol=1e-7, atol=tol)
            if "colors" in lopt:
                truth("line colour", np.allclose(CS.get_edgecolor()[0][:3], 0.0))
            # a vertex of a line interpolates the grid to the level
            for L, p in zip(CS.levels, CS.get_paths()):
                for w in p.vertices[:8]:
                    gx, gy = (w[0] - x[0]) / span[0] * (nx - 1), (w[1] - y[0]) / span[1] * (ny - 1)
                    i0, j0 = int(np.clip(np.floor(gx + 1e-9), 0, nx - 2)), int(np.clip(np.floor(gy + 1e-9), 0, ny - 2))
                    blk = D[max(0, j0 - 1):j0 + 3, max(0, i0 - 1):i0 + 3]
                    if not clear[max(0, j0 - 1):j0 + 3, max(0, i0 - 1):i0 + 3].all() or not np.isfinite(blk).all():
                        continue
                    truth("level lines pass between values around the level", blk.min() - tol <= L <= blk.max() + tol, f"{L} at {w.tolist()}")
        # streamlines
        if c["vec"]:
            lines = [k for k in rax.collections if type(k).__name__ == "LineCollection"]
            truth("one set of streamlines", len(lines) == 1, f"{len(lines)}")
            truth("streamlines in front", lines[0].get_zorder() == 4)
            col = o.get("stream", {}).get("color", "w")
            truth("streamline colour", np.allclose(lines[0].get_colors()[0][:3], mcolors.to_rgb(col)))
            if method == "linear" and clear.all() and fin.all() and nx > 2 and ny > 2:
                U, V = comp[0].reshape(X.shape), comp[1].reshape(X.shape)
                good = tot = 0
                for s in lines[0].get_segments()[:200]:
                    m, d = (s[0] + s[-1]) / 2, s[-1] - s[0]
                    gx, gy = (m[0] - x[0]) / span[0] * (nx - 1), (m[1] - y[0]) / span[1] * (ny - 1)
                    i0, j0 = int(np.clip(np.floor(gx), 0, nx - 2)), int(np.clip(np.floor(gy), 0, ny - 2))
                    a, b = gx - i0, gy - j0
                    w = [(1 - a) * (1 - b), a * (1 - b), (1 - a) * b, a * b]
                    pick = lambda F: w[0] * F[j0, i0] + w[1] * F[j0, i0 + 1] + w[2] * F[j0 + 1, i0] + w[3] * F[j0 + 1, i0 + 1]  # noqa: E731
                    uu, vv = pick(U), pick(V)
                    nrm = math.hypot(uu, vv) * math.hypot(*d)
                    if nrm < 1e-3 * D.max() * math.hypot(*d) or nrm == 0:
                        continue
                    tot += 1
                    good += (uu * d[0] + vv * d[1]) / nrm > 0.7
                if tot >= 10:
                    truth("streamlines follow the vectors", good >= 0.8 * tot, f"{good} of {tot}")
        # shading
        fills = [k for k in rax.collections if hasattr(k, "filled") and k.filled]
        truth("number of filled contour sets", len(fills) == (2 if o.get("shade") else 1), f"{len(fills)}")
        if o.get("shade"):
            sh = [k for k in fills if k is not cont][0]
            truth("shading above the contours", sh.get_zorder() == 2 and sh.get_alpha() == 0.35)
            truth("shading colours", sh.get_cmap().name == (sopt.get("cmap", "Greys")))
            az, alt = kw.get("shade_azimuth", -45.0), kw.get("shade_angle_altitude", 45.0)
            gy_, gx_ = np.gradient(D)
            az, alt = math.radians(360 - az) - math.pi / 2, math.radians(alt)
            light = (math.sin(alt) + math.cos(alt) * (math.cos(az) * gx_ - math.sin(az) * gy_)) / np.sqrt(1 + gx_**2 + gy_**2)
            H = 255 * (light + 1) / 2
            ok = np.isfinite(H) & ~M
            if ok.sum() > 4 and H[ok].max() - H[ok].min() > 1e-3 and not M.any() and clear.all():
                check_bands("shading", sh, X, Y, H, M, clear, span, x[0], y[0])
                truth("shading levels", len(sh.levels) <= kw.get("shade_ncontour", 100) + 3, f"{len(sh.levels)}")
        # locations
        pts = [k for k in rax.lines if len(k.get_xdata()) == len(P) and np.array_equal(np.c_[k.get_xdata(), k.get_ydata()], P)]
        truth("locations shown only on request", len(pts) == (1 if o.get("dataloc") else 0), f"{len(pts)}")
        truth("equal aspect", rax.get_aspect() in ("equal", 1.0))
        ctx.trivial = n == 0
    finally:
        plt.close("all")
        if tmp:
            f = os.path.join(tmp, "a.png")
            if os.path.exists(f):
                os.remove(f)
            os.rmdir(tmp)


@facet(FACETS, st.fixed_dictionaries(dict(a=gen.uni(-1, 1), b=gen.uni(-1, 1), n=st.integers(2, 9), which=st.sampled_from(["vmin", "vmax"]))), 60)
def conflict(c, ctx):
    """Colour limits given twice with different values are refused, equal ones accepted."""
    t = np.linspace(0, 1, 5)
    xyz = np.array([[u, v] for u in t for v in t])
    data = xyz[:, 0] * 3 - 2 + xyz[:, 1]
    lim = sorted([c["a"], c["b"] + 1e-2])
    if lim[1] - lim[0] < 1e-2:
        raise Discard
    try:
        plt.close("all")
        k = 0 if c["which"] == "vmin" else 1
        out = plot2Ddata(xyz, data, nx=c["n"], ny=4, clim=lim, contourOpts={c["which"]: lim[k]})
        close("limits", out[0].get_clim(), lim, rtol=1e-12)
        raises("conflicting limits", Exception, plot2Ddata, xyz, data, nx=c["n"], ny=4, clim=lim, contourOpts={c["which"]: lim[k] + (0.5 if k else -0.5)})
    finally:
        plt.close("all")


def limit():
    return st.one_of(st.sampled_from([0.0, 0, 1, -1, 2.0]), gen.uni(-2.5, 2.5).map(gen.sig))


@facet(FACETS, st.fixed_dictionaries(dict(a=st.one_of(st.none(), limit()), b=st.one_of(st.none(), limit()), how=st.sampled_from(["clim", "clim", "opts", "both"]), box=st.sampled_from(["list", "tuple", "array", "reversed"]),
                                          vec=st.integers(0, 3), log=st.booleans(), nc=st.integers(1, 12), level=st.booleans(), mask=st.booleans(), amp=st.one_of(st.just(1.0), gen.logf(1e-6, 1e5)),
                                          grid=st.lists(st.integers(2, 5), min_size=2, max_size=2))), 500)
def limits(c, ctx):
    """Colour limits, also zero, integer, one-sided or outside of the data: levels, norm and level lines span exactly them."""
    t = np.linspace(0, 1, 4)
    xyz = np.array([[u, v] for u in t for v in t])
    amp = c["amp"]
    vec = c["vec"] == 0
    data = (xyz[:, 0] * 3 - 2 + xyz[:, 1]) * amp
    if vec:
        data = np.c_[data, (1.5 + xyz[:, 1]) * amp]
    log = c["log"]
    nx, ny = c["grid"]
    X, Y = np.meshgrid(np.linspace(0, 1, nx), np.linspace(0, 1, ny))
    D = (X * 3 - 2 + Y) * amp
    D = np.hypot(D, (1.5 + Y) * amp) if vec else D
    a, b = [None if v is None else v * amp if amp != 1.0 else v for v in (c["a"], c["b"])]
    if log:
        D = np.abs(D)
        a, b = [None if v is None else abs(v) for v in (a, b)]
        if 0 in (a, b) or D.min() < 1e-3 * amp:
            raise Discard
    kw = {}
    if c["how"] == "clim" and a is not None and b is not None:
        a, b = min(a, b), max(a, b)
        kw["clim"] = {"list": [a, b], "tuple": (a, b), "array": np.array([a, b]), "reversed": [b, a]}[c["box"]]
    else:
        o = {}
        if a is not None:
            o["vmin"] = a
        if b is not None:
            o["vmax"] = b
        if o:
            kw["contourOpts"] = o
        if c["how"] == "both" and len(o) == 2:
            kw["clim"] = [a, b]
    vmin, vmax = D.min() if a is None else a, D.max() if b is None else b
    if vmax - vmin < 0.1 * amp or log and vmax < 1.2 * vmin:
        raise Discard
    if log:
        kw["scale"] = "log"
    if c["mask"]:
        kw["mask"] = xyz[:, 0] > 0.9
    keep = copy.deepcopy(kw)
    ctx.label("log" if log else "linear", "vector" if vec else "scalar", "zero" if 0 in (a, b) else "")
    try:
        plt.close("all")
        out = plot2Ddata(xyz, data, vec=vec, nx=nx, ny=ny, ncontour=c["nc"], level=c["level"], **kw)
        cont = out[0]
        want = np.logspace(math.log10(vmin), math.log10(vmax), c["nc"] + 1) if log else np.linspace(vmin, vmax, c["nc"] + 1)
        tol = 1e-8 * max(abs(vmin), abs(vmax), amp)
        close("levels", cont.levels, want, rtol=1e-8, atol=tol)
        close("colour limits", cont.get_clim(), (vmin, vmax), rtol=1e-8, atol=tol)
        truth("logarithmic colours only for a logarithmic scale", (type(cont.norm).__name__ == "LogNorm") == log, type(cont.norm).__name__)
        if c["level"]:
            lines = [v for v in out[1].collections if type(v).__name__ == "QuadContourSet" and v is not cont]
            if lines:
                close("level lines", lines[0].levels, want, rtol=1e-8, atol=tol)
        truth("options unchanged", repr(kw) == repr(keep), f"{keep!r} became {kw!r}")
    finally:
        plt.close("all")


@facet(FACETS, st.fixed_dictionaries(dict(n=st.sampled_from([30, 130, 260, 520, 1030, 1500, 4100]), seed=st.integers(0, 10**6), off=st.sampled_from([0.0, 1.0, -1e3, 1e5, 1e7]), var=gen.logf(1e-2, 1e2),
                                          g=st.lists(gen.uni(-1, 1), min_size=2, max_size=2), box=st.tuples(gen.signed(gen.logf(1.0, 1e6)), gen.signed(gen.logf(1.0, 1e6)), gen.logf(1e-2, 1e3), gen.logf(1e-2, 1e3)).map(list),
                                          nx=st.sampled_from([3, 17, 70]), ny=st.sampled_from([2, 30, 65]), method=st.sampled_from(["linear", "linear", "nearest"]), dtype=st.sampled_from(["f8", "f8", "f4", "i4"]), mask=st.booleans(), vec=st.integers(0, 3))), 90)
def many(c, ctx):
    """Many data, also with small differences on a large value and in any number type, of a plane field: levels, limits and bands."""
    rng = np.random.default_rng(c["seed"])
    t = np.r_[[[0, 0], [1, 0], [0, 1], [1, 1]], rng.uniform(0, 1, (c["n"], 2))]
    x0, y0, w, h = c["box"]
    w, h = max(w, 1e-4 * abs(x0)), max(h, 1e-4 * abs(y0))
    P = np.c_[x0 + w * t[:, 0], y0 + h * t[:, 1]]
    g = np.array(c["g"]) * c["var"]
    if np.abs(g).max() < 0.1 * c["var"]:
        raise Discard
    d = c["off"] + t @ g
    if c["dtype"] == "i4":
        d = np.round(d * 50)
    data = d.astype(c["dtype"])
    d = data.astype(float)
    nx, ny = c["nx"], c["ny"]
    x, y = np.linspace(P[:, 0].min(), P[:, 0].max(), nx), np.linspace(P[:, 1].min(), P[:, 1].max(), ny)
    X, Y = np.meshgrid(x, y)
    q = np.c_[X.ravel(), Y.ravel()]
    exact = c["method"] == "nearest" or c["dtype"] == "f8"
    if not exact:
        raise Discard
    if c["method"] == "nearest":
        k, clear = brute_nearest(P, q)
        D = d[k]
    elif c["dtype"] == "f8":
        D = c["off"] + np.c_[(q[:, 0] - x0) / w, (q[:, 1] - y0) / h] @ g
        clear = np.ones(len(q), bool)
    D, clear = D.reshape(X.shape), clear.reshape(X.shape)
    if D.max() - D.min() < 1e-9 * np.abs(D).max() or D.max() == D.min():
        raise Discard
    M = np.zeros(X.shape, bool)
    kw = {}
    if c["mask"]:
        kw["mask"] = t[:, 0] > 0.5
        k, mclear = brute_nearest(P, q)
        M, clear = kw["mask"][k].reshape(X.shape), clear & mclear.reshape(X.shape)
        if M.all():
            raise Discard
    ctx.label(c["method"], c["dtype"], "many" if c["n"] > 1000 else "few", "offset" if abs(c["off"]) > 100 else "")
    keep = data.copy()
    xyz = np.c_[P, rng.uniform(-1, 1, len(P))]
    try:
        plt.close("all")
        if c["vec"] == 0 and c["dtype"] == "f8" and c["off"] > 0 and D.min() > 0:  # magnitudes of vectors (0.6, 0.8) d
            cont = plot2Ddata(xyz, np.c_[0.6 * data, 0.8 * data], vec=True, nx=nx, ny=ny, method=c["method"], **kw)[0]
            ctx.label("vector")
        else:
            cont = plot2Ddata(xyz, data, nx=nx, ny=ny, method=c["method"], **kw)[0]
        same("data unchanged", data, keep)
        tol = 1e-12 * np.abs(D).max() + 1e-9 * (D.max() - D.min()) + 1e-14 * np.abs(P).max() / min(w, h) * np.abs(g).max() * 100
        if clear.all() or c["method"] == "linear":
            close("limits", cont.get_clim(), (D.min(), D.max()), rtol=0, atol=tol)
            close("levels", cont.levels, np.linspace(D.min(), D.max(), 11), rtol=0, atol=tol)
        span = P.max(0) - P.min(0)
        n = check_bands("filled contours", cont, X, Y, D, M, clear, span, x[0], y[0]) if abs(c["off"]) < 1e4 and np.max(np.abs(P).max(0) / span) < 1e4 else 1
        ctx.trivial = n == 0
    finally:
        plt.close("all")
