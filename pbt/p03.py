"""Prism kernels."""
import math

import numpy as np
import geoana.kernels as K

from . import fallback, gen, ref
from .core import Violation, close, facet, fail, truth
from .gen import st
from .p01 import prism_case, prism_geometry, where

FACETS = []
ASSUMPTIONS = [
    "The pure Python kernels are what the module exports when its compiled extension cannot be imported (loaded as a second copy); "
    "they are called with arrays of one shape. Jitted variants are compared when numba imports.",
    "Agreement tolerance: 1e-12 relative plus the rounding of one logarithm argument.",
]
PURE = fallback.load("geoana.kernels.potential_field_prism")
NAMES = ["prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"]
ORDER = {"prism_f": (), "prism_fz": (2,), "prism_fzz": (2, 2), "prism_fzx": (2, 0), "prism_fzy": (2, 1),
         "prism_fzzz": (2, 2, 2), "prism_fxxy": (0, 0, 1), "prism_fxxz": (0, 0, 2), "prism_fxyz": (0, 1, 2)}

_jit = None


def jitted():
    """One compiled loop per kernel, calling it from no-python mode."""
    global _jit
    if _jit is None:
        try:
            import numba
        except ImportError:
            _jit = {}
            return _jit
        _jit = {}
        for n in NAMES:
            f = getattr(K, n)
            ns = {"f": f, "numba": numba, "np": np}
            exec("@numba.njit\ndef loop(x, y, z):\n    out = np.empty(x.size)\n    for i in range(x.size):\n"
                 "        out[i] = f(x[i], y[i], z[i])\n    return out\n", ns)
            _jit[n] = ns["loop"]
    return _jit


def offset():
    mag = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 2.0]), gen.logf(1e-6, 1e6), gen.logf(1e-2, 1e2))
    return gen.signed(mag)


def kappa(x, y, z):
    d = np.abs(np.array([x, y, z]))
    r2 = np.sum(d ** 2, axis=0)
    k = np.ones_like(r2)
    for a, u in enumerate((x, y, z)):
        o2 = r2 - d[a] ** 2
        o2 = sum(d[b] ** 2 for b in range(3) if b != a)
        with np.errstate(all="ignore"):
            kk = np.where((u < 0) & (o2 > 0), 2 * r2 / np.where(o2 > 0, o2, 1), 1.0)
        k = np.maximum(k, kk)
    return k


def magnitude(n, x, y, z):
    ax, ay, az = np.abs(x), np.abs(y), np.abs(z)
    lg = 1 + np.abs(np.log(np.maximum(ax + ay + az, 1e-300)))
    if n == "prism_f":
        return (ax * ay + ay * az + ax * az + ax ** 2 + ay ** 2 + az ** 2) * lg
    if n == "prism_fz":
        return (ax + ay + az) * lg
    if n in ("prism_fzx", "prism_fzy", "prism_fzz"):
        return lg
    return 0.0


@facet(FACETS, st.fixed_dictionaries(dict(p=st.lists(gen.vec(offset()), min_size=1, max_size=8))), 3000)
def implementations(c, ctx):
    """Compiled, Python and jitted kernels agree on every triple of offsets."""
    x, y, z = np.array(c["p"], float).T.copy()
    kap = kappa(x, y, z)
    ok = kap < 1e14  # beyond, u + r is rounding noise or zero
    ctx.label("zero" if np.any((x == 0) | (y == 0) | (z == 0)) else "generic")
    for n in NAMES:
        f = getattr(K, n)
        a = np.asarray(f(x, y, z))
        if a.shape != x.shape:
            fail(f"{n}: shape {a.shape}")
        r0 = (x == 0) & (y == 0) & (z == 0)
        if not np.all(np.isfinite(a)):
            fail(f"{n}: not finite: {a}")
        tol = 1e-14 * magnitude(n, x, y, z) * np.minimum(kap, 1e14)
        py = getattr(PURE, n, None)
        if py is not None:
            b = py(x.copy(), y.copy(), z.copy())
            close(f"{n} python", np.asarray(b)[ok], a[ok], 1e-12, np.broadcast_to(tol, x.shape)[ok])
        del r0


@facet(FACETS, st.fixed_dictionaries(dict(p=st.lists(gen.vec(offset()), min_size=1, max_size=8))), 400, 2000)
def jit(c, ctx):
    """The kernels inside jitted code return what the compiled ones return."""
    x, y, z = np.array(c["p"], float).T.copy()
    for n, loop in jitted().items():
        try:
            b = loop(x, y, z)
        except Exception as e:
            raise Violation(f"{n} cannot be called from jitted code: {type(e).__name__}: {str(e)[:500]}")
        close(f"{n} jitted", b, getattr(K, n)(x, y, z), 1e-14)


@facet(FACETS, prism_case({}), 1200, 20000)
def integrals(c, ctx):
    """Alternating corner sums are (minus) the derivatives of the volume integral of 1/r."""
    lo, hi, xyz = prism_geometry(c)
    for p in xyz:
        ev, eg, eh, kap = ref.prism_error(lo, hi, p)
        if kap > 1e8:
            continue
        w = where(lo, hi, p)
        ctx.label(w)
        X = [np.array([lo[a] - p[a], hi[a] - p[a]]) for a in range(3)]
        gx, gy, gz = np.meshgrid(*X, indexing="ij")
        sgn = np.array([-1.0, 1.0])
        S = sgn[:, None, None] * sgn[None, :, None] * sgn[None, None, :]
        V, g, h = ref.prism_float(lo, hi, p)
        t = e3 = None
        if w != "surface":
            t = ref.prism_third(lo, hi, p, float(np.min(hi - lo)))
            e3 = ref.third_error(lo, hi, p)
        for n in NAMES:
            o = ORDER[n]
            if len(o) >= 2 and w == "surface":
                continue
            if len(o) == 0:
                want, tol = V, ev
            elif len(o) == 1:
                want, tol = g[o[0]], eg[o[0]]
            elif len(o) == 2:
                want, tol = h[o], eh[o]
            else:
                want, tol = t[o], e3
            fs = [("compiled", np.sum(S * getattr(K, n)(gx, gy, gz)))]
            py = getattr(PURE, n, None)
            if py is not None:
                fs.append(("python", np.sum(S * py(gx, gy, gz))))
            for name, got in fs:
                close(f"{n} {name} ({w})", got, -want, 1e-9, tol)


def shapes_case():
    return st.fixed_dictionaries(dict(x=st.lists(offset(), min_size=1, max_size=3), y=st.lists(offset(), min_size=1, max_size=3),
                                      z=st.lists(offset(), min_size=1, max_size=3),
                                      mode=st.sampled_from(["outer", "scalar", "strided", "int", "f32"])))


@facet(FACETS, shapes_case(), 800)
def broadcasting(c, ctx):
    """Any broadcastable shapes, scalars, strided and integer arrays give the elementwise value."""
    x, y, z = (np.array(c[k], float) for k in "xyz")
    ctx.label(c["mode"])
    for n in NAMES:
        f = getattr(K, n)
        want = np.array([[[float(f(a, b, d)) for d in z] for b in y] for a in x])
        if c["mode"] == "outer":
            got = f(x[:, None, None], y[None, :, None], z[None, None, :])
        elif c["mode"] == "scalar":
            got, want = f(float(x[0]), y, float(z[0])), want[0, :, 0]
        elif c["mode"] == "strided":
            big = np.zeros((len(x), 3, 2))
            big[:, 0, 1] = x
            got, want = f(big[:, 0, 1], float(y[0]), z[:1]), want[:, 0, 0]
        elif c["mode"] == "int":
            xi, yi, zi = (np.round(np.clip(v, -1e6, 1e6)).astype(int) for v in (x, y, z))
            m = min(len(xi), len(yi), len(zi))
            got = f(xi[:m], yi[:m], zi[:m])
            want = np.array([float(f(float(a), float(b), float(d))) for a, b, d in zip(xi[:m], yi[:m], zi[:m])])
        else:
            xf, yf, zf = (v.astype(np.float32) for v in (x, y, z))
            got = np.asarray(f(xf[:, None], yf[None, :], zf[0]), float)
            want = np.array([[float(f(float(a), float(b), float(zf[0]))) for b in yf] for a in xf])
            continue  # single precision results are not promised; evaluation must simply work
        close(f"{n} {c['mode']}", got, want, 1e-14)


@facet(FACETS, st.fixed_dictionaries(dict(p=st.lists(gen.vec(offset()), min_size=1, max_size=5), n=gen.sizes(), grid=st.booleans(), one=st.booleans())), 150, 1000)
def long_arrays(c, ctx):
    """Thousands of offsets at once give what the few different ones among them give, in every implementation."""
    x, y, z = np.array(c["p"], float).T.copy()
    n = c["n"]
    k = (np.arange(n) * 7919 + n) % len(x)
    ctx.label(f"about {10**round(math.log10(n))} offsets")

    def lay(v):
        return v.reshape(2, n // 2) if c["grid"] and n % 2 == 0 else v
    for name in NAMES:
        fs = [("compiled", getattr(K, name))]
        if getattr(PURE, name, None) is not None:
            fs.append(("python", getattr(PURE, name)))
        for how, f in fs:
            want = np.asarray(f(x.copy(), y.copy(), z.copy()))
            got = np.asarray(f(lay(x[k]), lay(y[k]), lay(z[k])))
            if got.shape != lay(k).shape:
                fail(f"{name} {how}: shape {got.shape} of {lay(k).shape}")
            tol = 1e-14 * np.broadcast_to(magnitude(name, x, y, z) * np.minimum(kappa(x, y, z), 1e14), x.shape)
            ok = np.isfinite(want)
            close(f"{name} {how} of {n} offsets", np.where(ok[lay(k)], got, 0), np.where(ok, want, 0)[lay(k)], 1e-12, tol[lay(k)])
            if c["one"] and how == "compiled":
                close(f"{name} of {n} offsets, one depth", f(x[k], y[k], z[0]), f(x, y, np.full_like(x, z[0]))[k], 1e-12, np.max(np.broadcast_to(magnitude(name, x, y, z[0]) * np.minimum(kappa(x, y, np.full_like(x, z[0])), 1e14) * 1e-14, x.shape)))
