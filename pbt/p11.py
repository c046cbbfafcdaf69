"""Transverse electric reflection coefficients of layered earths."""
import math

import mpmath as mp
import numpy as np
import geoana.kernels as K

from . import fallback, gen, layers
from .core import close, facet, fail, raises, truth
from .gen import MU0, st

FACETS = []
ASSUMPTIONS = [
    "mu_0 is known to the library with two values (4 pi 1e-7 in C++, CODATA in Python) that differ by 1.3e-10: coefficients are "
    "judged to 2e-10 absolutely.",
    "Reference: recursion of interface coefficients (not admittances) in 40 digit arithmetic, derivatives by 40 digit differences.",
    "The pure Python implementation is what the module exports when its extension cannot be imported.",
]
PURE = fallback.load("geoana.kernels.tranverse_electric_reflections")
TOL = 2e-10


def cpos(lo, hi, im=0.5):
    return st.tuples(gen.logf(lo, hi), st.one_of(st.just(0.0), st.just(0.0), gen.uni(0, im))).map(lambda t: [t[0], t[0] * t[1]])


@st.composite
def case(draw, max_layers=6, max_f=3, max_l=4):
    nl, nf, nk = draw(st.integers(1, max_layers)), draw(st.integers(1, max_f)), draw(st.integers(1, max_l))
    wide = draw(st.booleans())
    s = cpos(1e-6, 1e4) if wide else cpos(0.1, 10.0)
    m = st.one_of(st.just([1.0, 0.0]), cpos(1.0, 20.0, 0.2))
    return dict(f=[draw(gen.logf(1e-2, 1e6)) for _ in range(nf)],
                lam=[draw(gen.logf(1e-3, 1e3)) for _ in range(nk)],
                sigma=[[draw(s) for _ in range(nf)] for _ in range(nl)],
                mu=[[draw(m) for _ in range(nf)] for _ in range(nl)],
                h=[draw(gen.logf(1e-3, 1e2)) for _ in range(nl - 1)], L=draw(gen.logf(0.1, 1e3)),
                k=draw(st.integers(0, max(nl - 2, 0))), cut=draw(gen.uni(0.05, 0.95)),
                layout=draw(st.sampled_from(["C", "F", "strided", "real"])))


def setup(c):
    f = np.array(c["f"])
    lam = np.array(c["lam"]) / c["L"]
    h = np.array(c["h"]) * c["L"]
    S = np.array(c["sigma"])
    S = S[..., 0] + 1j * S[..., 1]
    M = np.array(c["mu"])
    M = (M[..., 0] + 1j * M[..., 1]) * MU0
    if c["layout"] == "real":
        S, M = S.real + 0j, M.real + 0j
    return f, lam, S, M, h


def laid(c, X):
    if c["layout"] == "F":
        return np.asfortranarray(X)
    if c["layout"] == "strided":
        big = np.zeros(tuple(2 * n for n in X.shape), X.dtype)
        big[tuple(slice(None, None, 2) for _ in X.shape)] = X
        return big[tuple(slice(None, None, 2) for _ in X.shape)]
    if c["layout"] == "real" and X.dtype.kind == "c":
        return X.real.copy()
    return np.ascontiguousarray(X)


def impls():
    out = [("compiled", K.rTE_forward, K.rTE_gradient)]
    if PURE is not None and getattr(PURE, "rTE_forward", None) is not None:
        out.append(("python", PURE.rTE_forward, PURE.rTE_gradient))
    return out


def tomp(z):
    return mp.mpc(float(np.real(z)), float(np.imag(z)))


@facet(FACETS, case(), 2500)
def forward(c, ctx):
    """Both implementations against the reference recursion; bounded by one for passive earths; split layers; air."""
    f, lam, S, M, h = setup(c)
    ctx.label(f"{len(S)} layers", c["layout"])
    want = np.empty((len(f), len(lam)), complex)
    with mp.workdps(30):
        for i in range(len(f)):
            for j in range(len(lam)):
                want[i, j] = complex(layers.rte_mp(mp.mpf(float(f[i])), mp.mpf(float(lam[j])), [tomp(x) for x in S[:, i]],
                                                   [tomp(x) for x in M[:, i]], [mp.mpf(float(x)) for x in h]))
    k = c["k"]
    for name, fwd, _ in impls():
        got = fwd(f, lam, laid(c, S), laid(c, M), h)
        # interior cancellation: admittances of very different layers
        close(f"rTE {name}", got, want, 1e-12, TOL)
        if np.all(S.imag == 0) and np.all(M.imag == 0):
            truth(f"|rTE| <= 1 ({name})", np.all(np.abs(got) <= 1 + 1e-12), repr(got))
        if len(h):
            h2 = np.concatenate([h[:k], [c["cut"] * h[k], (1 - c["cut"]) * h[k]], h[k + 1:]])
            g2 = fwd(f, lam, np.insert(S, k, S[k], axis=0), np.insert(M, k, M[k], axis=0), h2)
            close(f"layer split ({name})", g2, got, 1e-11, 1e-12)
        # order and subset of frequencies and wavenumbers do not matter
        g3 = fwd(f[::-1].copy(), lam[::-1].copy(), S[:, ::-1].copy(), M[:, ::-1].copy(), h)
        close(f"reversed order ({name})", g3[::-1, ::-1], got, 1e-13, 1e-14)
        air = fwd(f, lam, np.full_like(S, 0), np.full_like(M, MU0), h)
        close(f"air ({name})", air, np.zeros_like(got), 0, TOL)


@facet(FACETS, case(max_layers=5, max_f=2, max_l=2), 1200)
def gradient(c, ctx):
    """Both implementations' sensitivities against differences of the reference in extended precision."""
    f, lam, S, M, h = setup(c)
    nl = len(S)
    ctx.label(f"{nl} layers")
    ds = np.zeros((nl, len(f), len(lam)), complex)
    dm, dh = np.zeros_like(ds), np.zeros((nl - 1, len(f), len(lam)), complex)
    scale_s, scale_m, scale_h = np.zeros(ds.shape), np.zeros(ds.shape), np.zeros(dh.shape)
    with mp.workdps(50):
        e = mp.mpf(10) ** -18
        for i in range(len(f)):
            for j in range(len(lam)):
                fm, lm = mp.mpf(float(f[i])), mp.mpf(float(lam[j]))
                s = [tomp(x) for x in S[:, i]]
                m = [tomp(x) for x in M[:, i]]
                hh = [mp.mpf(float(x)) for x in h]

                def diff(lst, q):
                    step = abs(lst[q]) * e
                    old = lst[q]
                    lst[q] = old + step
                    a = layers.rte_mp(fm, lm, s, m, hh)
                    lst[q] = old - step
                    b = layers.rte_mp(fm, lm, s, m, hh)
                    lst[q] = old
                    return complex((a - b) / (2 * step))
                for q in range(nl):
                    ds[q, i, j], dm[q, i, j] = diff(s, q), diff(m, q)
                    if q < nl - 1:
                        dh[q, i, j] = diff(hh, q)
                # rounding of 1 - tanh^2 relative to the attenuation down to the layer
                w = 2 * math.pi * f[i]
                u2 = lam[j] ** 2 + 1j * w * M[:, i] * S[:, i]
                u = np.sqrt(u2)
                scale_s[:, i, j] = 1 / np.abs(S[:, i]) * np.minimum(1, np.abs(w * M[:, i] * S[:, i] / u2)) * (1 + np.concatenate([np.abs(u[:-1]) * h, [0]]))
                scale_m[:, i, j] = 1 / np.abs(M[:, i]) * (1 + np.concatenate([np.abs(u[:-1]) * h, [0]]))
                scale_h[:, i, j] = np.abs(u[:-1])
    for name, _, grad in impls():
        gs, gh, gm = grad(f, lam, laid(c, S), laid(c, M), h)
        close(f"d rTE / d sigma ({name})", gs, ds, 1e-8, 1e-12 * scale_s)
        close(f"d rTE / d thickness ({name})", gh, dh, 1e-8, 1e-12 * scale_h)
        close(f"d rTE / d mu ({name})", gm, dm, 1e-8, 1e-12 * scale_m)


@st.composite
def big_case(draw):
    nl, nf, nk = draw(st.sampled_from([1, 2, 5, 9, 17, 33, 64, 65])), draw(st.sampled_from([1, 2, 5, 17, 33])), draw(st.sampled_from([1, 2, 65, 101, 129, 257, 513]))
    if nl * nf * nk > 40000:
        nk = 65
    return dict(nl=nl, nf=nf, nk=nk, seed=draw(st.integers(0, 10 ** 6)), L=draw(gen.logf(0.1, 1e3)), zero_h=draw(st.booleans()), zero_lam=draw(st.booleans()), mag=draw(st.booleans()),
                thick=draw(gen.logf(1e-3, 1e2)), form=draw(st.sampled_from(["array", "array", "list", "int"])), cut=draw(gen.uni(0.05, 0.95)))


@facet(FACETS, big_case(), 500)
def large(c, ctx):
    """Tens of layers and frequencies, hundreds of wavenumbers, layers of no thickness, wavenumber zero; gradients of a divided layer add up."""
    r = np.random.default_rng(c["seed"])
    nl, nf, nk = c["nl"], c["nf"], c["nk"]
    ctx.label(f"{nl} layers", c["form"])
    f = 10 ** r.uniform(-1, 5, nf)
    if c["form"] == "int":
        f = np.ceil(f)
    lam = 10 ** r.uniform(-3, 2, nk) / c["L"]
    if c["zero_lam"]:
        lam[r.integers(nk)] = 0.0
    h = 10 ** r.uniform(-1, 1, nl - 1) * c["thick"] * c["L"]
    if c["zero_h"] and nl > 1:
        h[r.integers(nl - 1)] = 0.0
    S = 10 ** r.uniform(-4, 1, (nl, 1)) * r.uniform(0.5, 1, (nl, nf)) + 0j
    M = MU0 * (1 + (r.uniform(0, 4, (nl, nf)) if c["mag"] else np.zeros((nl, nf)))) + 0j
    want = layers.rte_np(f, lam, S, M, h)
    k = int(r.integers(max(nl - 1, 1)))
    res = {}
    for name, fwd, grad in impls():
        a = (f, lam, S, M, h)
        if name == "compiled" and c["form"] == "list":
            a = tuple(v.tolist() for v in a)
        elif c["form"] == "int":
            a = (f.astype(int), lam, S, M, h)
        got = fwd(*a)
        close(f"rTE {name}, {nl} layers, {nf} frequencies, {nk} wavenumbers", got, want, 1e-10, TOL)
        g = res[name] = [np.asarray(v) for v in grad(*a)]
        for what, v, n in zip(("sigma", "thickness", "mu"), g, (nl, nl - 1, nl)):
            if v.shape != (n, nf, nk):
                fail(f"gradient {what} ({name}): shape {v.shape}")
        if nl > 1:
            cut = c["cut"]
            h2 = np.concatenate([h[:k], [cut * h[k], (1 - cut) * h[k]], h[k + 1:]])
            g2 = [np.asarray(v) for v in grad(f, lam, np.insert(S, k, S[k], axis=0), np.insert(M, k, M[k], axis=0), h2)]
            for what, x, y, P in (("sigma", g[0], g2[0], S), ("mu", g[2], g2[2], M)):
                y = np.concatenate([y[:k], y[k:k + 1] + y[k + 1:k + 2], y[k + 2:]])
                close(f"d rTE / d {what} of a divided layer ({name})", y * P[:, :, None], x * P[:, :, None], 1e-8, 1e-10)
            u = np.sqrt(lam ** 2 + (2j * math.pi * f * M * S)[:, :, None])[:-1]
            for q in (k, k + 1):
                y = np.concatenate([g2[1][:k], g2[1][q:q + 1], g2[1][k + 2:]])
                close(f"d rTE / d thickness of a divided layer ({name})", y, g[1], 1e-8, 1e-10 * np.abs(u))
    if len(res) == 2:
        for what, x, y, P in zip(("sigma", "thickness", "mu"), res["compiled"], res["python"], (S, None, M)):
            s = 1.0 / np.abs(P)[:, :, None] if P is not None else np.abs(np.sqrt(lam ** 2 + (2j * math.pi * f * M * S)[:, :, None])[:-1])
            close(f"d rTE / d {what}: compiled and python", x, y, 1e-7, 1e-9 * s)


@facet(FACETS, st.fixed_dictionaries(dict(nl=st.integers(1, 4), nf=st.integers(1, 4), dl=st.integers(-1, 1), df=st.integers(-1, 1),
                                          which=st.sampled_from(["sigma", "mu", "both"]), grad=st.booleans())), 300)
def mismatched(c, ctx):
    """Arrays of inconsistent shape are refused by the compiled kernels instead of being read out of bounds."""
    nl, nf = c["nl"], c["nf"]
    ns = (max(nl + c["dl"], 1), max(nf + c["df"], 1))
    S = np.ones((nl, nf), complex)
    M = np.full((nl, nf), MU0, complex)
    bad = np.ones(ns, complex)
    if ns == (nl, nf):
        ctx.trivial = True
        return
    f, lam, h = np.ones(nf), np.ones(3), np.ones(nl - 1)
    fn = K.rTE_gradient if c["grad"] else K.rTE_forward
    s = bad if c["which"] in ("sigma", "both") else S
    m = bad * MU0 if c["which"] in ("mu", "both") else M
    if K.rTE_forward is getattr(PURE, "rTE_forward", None):
        ctx.trivial = True
        return
    raises(f"shapes sigma {s.shape}, mu {m.shape}, {nf} frequencies, {nl} layers", (ValueError, TypeError, IndexError), fn, f, lam, s, m, h)
