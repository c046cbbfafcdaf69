"""Grid and array helpers."""
import contextlib
import io
import itertools

import numpy as np
from geoana import utils

from . import gen
from .core import Discard, close, facet, fail, raises, same, truth
from .gen import st

FACETS = []
ASSUMPTIONS = ["Axes are one dimensional numeric arrays (flattened in column-major order otherwise); ndgrid takes one to three of them."]

VAL = st.one_of(gen.unit_coord(3.0), gen.signed(gen.logf(1e-9, 1e9)), st.integers(-5, 5))
AX = st.one_of(st.lists(VAL, min_size=1, max_size=5), st.lists(VAL, min_size=1, max_size=5), st.lists(VAL, min_size=0, max_size=2))
DT = st.sampled_from(["float", "int", "float32", "complex"])


def make(v, dt):
    if dt == "int":
        return np.array([int(round(max(min(x, 1e6), -1e6))) for x in v])
    if dt == "complex":
        return np.array([complex(x, i) for i, x in enumerate(v)])
    return np.array(v, dtype=dt)


@facet(FACETS, st.fixed_dictionaries(dict(axes=st.lists(AX, min_size=1, max_size=3), dt=st.one_of(DT, st.lists(DT, min_size=3, max_size=3)), how=st.sampled_from(["args", "list"]), vector=st.sampled_from([None, True, False]),
                                          strided=st.booleans(), two=st.booleans())), 6000)
def ndgrid(c, ctx):
    """Every combination once, first axis fastest, as columns or as arrays."""
    dts = [c["dt"]] * 3 if isinstance(c["dt"], str) else c["dt"]
    ax = [make(v, d) for v, d in zip(c["axes"], dts)]
    given = ax
    if c["strided"]:
        given = [np.stack([a, a + 7], -1)[:, 0] for a in ax]
    if c["two"] and len(ax) > 1:
        given = [a.reshape(-1, 1) for a in given]
    ctx.label(f"{len(ax)} axes", str(c["vector"]), c["dt"] if isinstance(c["dt"], str) else "mixed")
    ctx.trivial = len(ax) == 1
    keep = [g.copy() for g in given]
    kw = {} if c["vector"] is None else dict(vector=c["vector"])
    box = list(given)
    out = utils.ndgrid(box, **kw) if c["how"] == "list" else utils.ndgrid(*given, **kw)
    truth("list of axes unchanged", len(box) == len(given) and all(a is b for a, b in zip(box, given)))
    for a, b in zip(given, keep):
        same("axes unchanged", a, b)
    if len(ax) == 1:
        same("one axis", np.asarray(out).ravel(), ax[0])
        return
    if c["vector"] is False:
        truth("one array per axis", len(out) == len(ax), repr(len(out)))
        for k, o in enumerate(out):
            shape = tuple(len(a) for a in ax)
            want = np.broadcast_to(ax[k].reshape([-1 if i == k else 1 for i in range(len(ax))]), shape)
            same(f"array of axis {k}", np.asarray(o), want)
        return
    want = np.array([t[::-1] for t in itertools.product(*[list(a) for a in ax[::-1]])]).reshape(-1, len(ax))
    want = want.astype(np.result_type(*ax))
    same("columns", np.asarray(out), want)


@facet(FACETS, st.fixed_dictionaries(dict(n=st.lists(st.sampled_from([1, 2, 3, 5, 64, 65, 101, 257, 1001]), min_size=2, max_size=3), dt=st.lists(DT, min_size=3, max_size=3), vector=st.booleans(), nd=st.integers(1, 3))), 300)
def large(c, ctx):
    """Long axes and large arrays."""
    n = list(c["n"])
    while np.prod(n) > 50000:
        n[int(np.argmax(n))] = 3
    ctx.label(f"{len(n)} axes")
    ax = [make([(7 * i * (k + 1)) % 1009 - 0.25 * k for i in range(m)], d) for k, (m, d) in enumerate(zip(n, c["dt"]))]
    out = utils.ndgrid(*ax, vector=c["vector"])
    i = np.indices(tuple(n))
    cols = [a[i[k]] for k, a in enumerate(ax)]
    if c["vector"]:
        same("columns", np.asarray(out), np.stack([x.reshape(-1, order="F") for x in cols], -1).astype(np.result_type(*ax)))
    else:
        for k, x in enumerate(cols):
            same(f"array of axis {k}", np.asarray(out[k]), x)
    x = sum((1000.0 ** -k) * v for k, v in enumerate(cols))
    flat = np.moveaxis(x, range(x.ndim), range(x.ndim)[::-1]).ravel()
    same("mkvc", utils.mkvc(x, c["nd"]), flat.reshape((-1,) + (1,) * (c["nd"] - 1)))
    same("append_ndim", utils.append_ndim(x, c["nd"]), x.reshape(x.shape + (1,) * c["nd"]))
    if x.dtype.kind != "c":
        p = np.stack([x, x + 1, 2 * x], -1)
        same("points", utils.check_xyz_dim(p), p)
        same("points from a tuple", utils.check_xyz_dim((x, x + 1, 2 * x)), p)


@st.composite
def array(draw):
    shape = draw(st.sampled_from([(3,), (1,), (2, 3), (3, 1), (2, 1, 3), (2, 2, 2), (0,), (1, 4), (2, 0)]))
    n = int(np.prod(shape))
    return dict(shape=list(shape), v=[draw(VAL) for _ in range(n)], order=draw(st.sampled_from("CFTS")), dt=draw(DT), nd=draw(st.integers(1, 3)), matrix=draw(st.booleans()))


def laid(c):
    x = make(c["v"], c["dt"]).reshape(c["shape"]) if c["v"] else np.zeros(c["shape"])
    if c["order"] == "F":
        x = np.asfortranarray(x)
    elif c["order"] == "T":
        x = x.T
    elif c["order"] == "S" and x.size:
        big = np.repeat(x, 2, axis=-1)
        x = big[..., ::2]
    return x


@facet(FACETS, array(), 5000)
def mkvc(c, ctx):
    """Column-major flattening with the requested number of axes; values, dtype and the argument are kept."""
    x = laid(c)
    keep = x.copy()
    idx = list(itertools.product(*[range(n) for n in x.shape[::-1]]))
    want = np.array([x[i[::-1]] for i in idx], dtype=x.dtype)
    want = want.reshape((-1,) + (1,) * (c["nd"] - 1)) if len(want) else np.zeros((0,) + (1,) * (c["nd"] - 1), x.dtype)
    got = utils.mkvc(x, c["nd"]) if c["nd"] > 1 else utils.mkvc(x)
    same("mkvc", got, want)
    truth("dtype", got.dtype == x.dtype, str(got.dtype))
    same("argument unchanged", x, keep)
    if got.size:
        got[...] = 99
        same("result is a copy", x, keep)
    ctx.label(f"rank {x.ndim}", c["order"], f"to {c['nd']}")
    if x.ndim == 2 and c["matrix"]:
        m = utils.mkvc(np.matrix(x), c["nd"])
        same("matrix", m, want)
        truth("array from a matrix", not isinstance(m, np.matrix))
    raises("a list", AssertionError, utils.mkvc, x.tolist())


@facet(FACETS, array(), 3000)
def append_ndim(c, ctx):
    """Exactly the requested number of trailing axes."""
    x = laid(c)
    for arg in (x, x.tolist()):
        got = utils.append_ndim(arg, c["nd"] - 1)
        same("append_ndim", got, np.asarray(arg).reshape(np.shape(arg) + (1,) * (c["nd"] - 1)))
    same("scalar", utils.append_ndim(3.5, c["nd"]), np.full((1,) * c["nd"], 3.5))


@st.composite
def pts(draw):
    dim = draw(st.integers(1, 4))
    shape = draw(st.sampled_from([(), (1,), (3,), (2, 2), (1, 2, 1), (0,)]))
    n = int(np.prod(shape)) if shape else 1
    return dict(dim=dim, ask=draw(st.one_of(st.just(dim), st.integers(1, 5))), shape=list(shape), v=[[draw(VAL) for _ in range(dim)] for _ in range(n)],
                form=draw(st.sampled_from(["array", "list", "tuple", "int", "F", "tuple of lists"])), dt=draw(st.sampled_from([None, "float", "complex", "int", "float32", "complex64", "int16"])),
                src=draw(st.sampled_from([None, None, "float32", "float16", "int16", "uint8", "bool", ">f8", "complex"])))


@facet(FACETS, pts(), 5000)
def check_xyz_dim(c, ctx):
    """Point normalization: stacking, dtype, values, shape and refusal."""
    x = np.array(c["v"], float).reshape(tuple(c["shape"]) + (c["dim"],))
    if c["form"] == "int" or c["dt"] == "int":
        x = np.round(np.clip(x, -1e6, 1e6))
    if c["dt"] == "int16" or c["src"] in ("int16", "uint8"):
        x = np.round(x) % 200
    if c["src"] == "bool":
        x = (x > 0) * 1.0
    if c["src"] in ("float16", "float32") or c["dt"] in ("float32", "complex64"):
        x = np.clip(x, -6e4, 6e4)
        if c["src"] in ("float16", "float32"):
            x = x.astype(c["src"]).astype(float)
    if c["src"] == "complex" and c["dt"] not in ("complex", "complex64"):
        raise Discard
    if c["form"] not in ("list", "tuple of lists") and c["src"]:
        arg = x.astype(c["src"])
        arg = tuple(arg[..., k] for k in range(c["dim"])) if c["form"] == "tuple" else np.asfortranarray(arg) if c["form"] == "F" else arg
        ctx.label("from " + c["src"])
    else:
        arg = {"array": x.copy(), "list": x.tolist(), "int": x.astype(int) if c["form"] == "int" else x, "F": np.asfortranarray(x),
               "tuple": tuple(x[..., k] for k in range(c["dim"])), "tuple of lists": tuple(x[..., k].tolist() for k in range(c["dim"]))}[c["form"]]
    ctx.label(c["form"], str(c["dt"]), "match" if c["ask"] == c["dim"] else "mismatch")
    if c["form"] == "list" and x.size == 0:
        arg = x
    kw = {}
    if c["dt"]:
        kw["dtype"] = {"float": float, "complex": complex, "int": int}.get(c["dt"]) or np.dtype(c["dt"])
    if c["ask"] != 3:
        kw["dim"] = c["ask"]
    if c["ask"] != c["dim"]:
        raises(f"last axis {c['dim']}, expected {c['ask']}", ValueError, utils.check_xyz_dim, arg, **kw)
        return
    got = utils.check_xyz_dim(arg, **kw)
    same("points", got, x.astype(kw.get("dtype", float)))
    truth("dtype", got.dtype == np.dtype(kw.get("dtype", float)), str(got.dtype))


@facet(FACETS, st.fixed_dictionaries(dict(mods=st.lists(st.tuples(st.sampled_from(["a", "b", "numpy", "x.y"]), st.booleans()), min_size=0, max_size=4), n=st.integers(0, 3))), 500)
def requires(c, ctx):
    """A function whose dependencies are missing is not run; otherwise it is untouched."""
    mods = {k: (np if ok else False) for k, ok in c["mods"]}
    calls = []

    def f(*a, **k):
        calls.append((a, k))
        return 42
    g = utils.requires(mods)(f)
    missing = [k for k, v in mods.items() if v is False]
    ctx.label("missing" if missing else "complete")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            r = g(*range(c["n"]))
        except ImportError:
            r = None
    if missing:
        truth("not run", not calls and r != 42, repr(r))
    else:
        truth("run once with its arguments", calls == [(tuple(range(c["n"])), {})] and r == 42, repr(calls))
