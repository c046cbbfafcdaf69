"""Hypothesis strategies producing plain JSON data."""
import math
import sys

try:
    import hypothesis  # noqa: F401
except ImportError:  # not in geoana's environment: take the tooling environment's copy
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import hypothesis  # noqa: F401
from hypothesis import strategies as st
import numpy as np

MU0 = 1.25663706127e-06
EPS0 = 8.8541878188e-12


def sig(x, n=6):
    return float(f"{x:.{n}g}")


def fl(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


_U = 1 << 20


def uni(lo, hi):
    """Uniform, shrinking towards lo (Hypothesis' floats cluster at special values)."""
    return st.integers(0, _U).map(lambda k: lo + (hi - lo) * (k / _U))


def logf(lo, hi, digits=6):
    """Log-uniform positive number, shrinking towards 1 (or the end closest to it)."""
    a, b = math.log10(lo), math.log10(hi)
    if a < 0 < b:
        n = st.one_of(uni(0, b), uni(0, a), st.sampled_from([0.0, a, b]))
    else:
        n = st.one_of(uni(a, b) if abs(a) < abs(b) else uni(b, a), st.sampled_from([a, b]))
    return n.map(lambda e: min(max(sig(10.0 ** e, digits), lo), hi))


NICE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 0.25, -0.25]


def unit_coord(span=3.0):
    """Dimensionless coordinate: special values or anything in [-span, span]."""
    nice = [v for v in NICE if abs(v) <= span]
    return st.one_of(st.sampled_from(nice), st.one_of(uni(0, span), uni(0, -span)).map(lambda v: sig(v, 8)))


def vec(elem, n=3):
    return st.tuples(*[elem] * n).map(list)


def nonzero_vec(span=3.0, minimum=1e-2):
    return vec(unit_coord(span)).filter(lambda v: math.sqrt(sum(c * c for c in v)) > minimum)


def signed(pos):
    return st.tuples(pos, st.booleans()).map(lambda t: -t[0] if t[1] else t[0])


def strength():
    """Current, moment, mass: any sign, also zero."""
    return st.one_of(st.sampled_from([1.0, -1.0, 2.5, 0.0]), signed(logf(1e-3, 1e4)))


def nz_strength():
    return st.one_of(st.sampled_from([1.0, -1.0, 2.5]), signed(logf(1e-3, 1e4)))


def orientation(named=True):
    """A named axis, an axis-like vector or any direction (not normalized)."""
    axis = st.sampled_from([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0],
                            [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0],
                            [0.0, 0.0, 5.0], [0.0, 3.0, 4.0], [1.0, 1.0, 0.0], [1.0, 0.0, -1.0]])
    vecs = nonzero_vec()
    opts = [vecs, axis]
    if named:
        opts.append(st.sampled_from(["X", "Y", "Z", "x", "y", "z"]))
    return st.one_of(*opts)


def unit(o):
    """Reference meaning of an orientation."""
    if isinstance(o, str):
        return np.eye(3)["XYZ".index(o.upper())]
    o = np.asarray(o, float)
    return o / math.sqrt(float(np.sum(o * o)))


def remote(n=3):
    """Position many length units away from the origin (projected map coordinates are like that)."""
    return vec(st.one_of(st.sampled_from([0.0, 1e3, -1e6]), signed(logf(10.0, 1e6))), n)


def near(values, lo=1e-6, hi=1.0):
    """Special values missed by a little."""
    return st.tuples(st.sampled_from(values), signed(logf(lo, hi))).map(sum)


def location():
    return st.one_of(st.just([0.0, 0.0, 0.0]), vec(unit_coord()), vec(unit_coord()), remote())


def shift(n=3):
    """Offset applied to a whole configuration, usually none."""
    z = st.just([0.0] * n)
    return st.one_of(z, z, remote(n))


def sigma():
    return logf(1e-6, 1e4)


def mu():
    return st.one_of(st.just(MU0), st.just(2.0 * MU0), logf(0.5, 50.0).map(lambda r: MU0 * r))


def epsilon():
    return st.one_of(st.just(EPS0), st.just(0.0), logf(1.0, 81.0).map(lambda r: EPS0 * r))


def scale():
    """Length unit of a case."""
    return st.one_of(st.just(1.0), logf(1e-3, 1e4))


def points(span=4.0, lo=1, hi=4):
    return st.lists(vec(unit_coord(span)), min_size=lo, max_size=hi)


def offset_points(lo=1, hi=4, rmin=1e-2, rmax=1e2):
    """Offsets with log-uniform distance and any direction (also exactly along axes and planes)."""
    one = st.tuples(nonzero_vec(), logf(rmin, rmax)).map(
        lambda t: [c / math.sqrt(sum(a * a for a in t[0])) * t[1] for c in t[0]])
    return st.lists(st.one_of(one, vec(unit_coord()).filter(lambda v: sum(c * c for c in v) > rmin ** 2)),
                    min_size=lo, max_size=hi)


def rotation():
    """Rotation as axis vector and angle."""
    return st.tuples(nonzero_vec(), uni(0, 2 * math.pi)).map(list)


def rotmat(r):
    ax, t = unit(r[0]), r[1]
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


def wire_nodes(elem, lo=2, hi=5, minimum=0.0):
    """Nodes of a wire: anywhere, or sharing coordinates with the node before or with the first node (boreholes, survey lines, rectangles)."""
    step = st.tuples(vec(elem), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6]), st.booleans())

    def chain(t):
        first, rest = t
        out = [list(first)]
        for v, keep, start in rest:
            src = out[0] if start else out[-1]
            out.append([s if keep >> k & 1 else c for k, (c, s) in enumerate(zip(v, src))])
        return out
    s = st.tuples(vec(elem), st.lists(step, min_size=lo - 1, max_size=hi - 1)).map(chain)
    if minimum:
        s = s.filter(lambda n: all(math.dist(a, b) > minimum for a, b in zip(n[:-1], n[1:])))
    return s


# ------------------------------------------------------------------------ batch layouts
MANY = [20, 64, 100, 101, 128, 129, 256, 257, 500, 501, 512, 513, 1000, 1001, 1024, 1025, 2000, 2048, 2049, 4096, 4100, 5000, 5001]


def batch():
    """How observation points are handed over; see Batched."""
    return st.sampled_from(["flat"] * 6 + ["row", "column", "grid", "single", "fortran", "strided", "readonly", "list", "deep", "fgrid", "many 129", "many 1001", "many 2049"])


def sizes():
    """Sizes of large batches, also just beyond round numbers."""
    return st.one_of(st.sampled_from(MANY), st.integers(5, 3000))


class Batched:
    """A source whose methods get their points (n, 3) in another layout and whose answers are put back into (..., n, ...)."""

    def __init__(self, source, form):
        object.__setattr__(self, "_s", source)
        object.__setattr__(self, "_form", form)

    def __setattr__(self, k, v):
        setattr(self._s, k, v)

    def __getattr__(self, k):
        f = getattr(self._s, k)
        if self._form == "flat" or not callable(f):
            return f

        def call(*args, **kw):
            return self._call(f, args, kw)
        return call

    def _call(self, f, args, kw):
        s, form = self._s, self._form
        ns = next((np.ndim(getattr(s, k)) for k in ("frequency", "time") if hasattr(s, k)), 0)
        if not args or np.ndim(args[0]) != 2:
            return f(*args, **kw)
        n = len(args[0])

        def put(a):
            if np.ndim(a) != 2:
                return a
            a = np.asarray(a, float)
            if form == "row":
                return a[None]
            if form == "column":
                return a[:, None]
            if form == "grid":
                return np.stack([a, a[::-1]])
            if form == "fgrid":
                return np.asfortranarray(np.stack([a, a[::-1]]))
            if form == "deep":
                return a[:, None, None]
            if form == "fortran":
                return np.asfortranarray(a)
            if form == "strided":
                b = np.full((2 * len(a), 6), 9e9)
                b[::2, 1:4] = a
                return b[::2, 1:4]
            if form == "readonly":
                b = a.copy()
                b.flags.writeable = False
                return b
            if form == "list":
                return a.tolist()
            if form.startswith("many"):
                return np.resize(a, (int(form.split()[1]), 3)) if len(a) else a
            return a

        def back(o):
            if isinstance(o, tuple):
                return tuple(back(v) for v in o)
            o = np.asarray(o)
            x = o.shape
            if form in ("row", "column", "deep") and len(x) > ns + 1:
                want = {"row": (1, n), "column": (n, 1), "deep": (n, 1, 1)}[form]
                if x[ns:ns + len(want)] == want:
                    return o.reshape(x[:ns] + (n,) + x[ns + len(want):])
                raise ValueError(f"answer of shape {x} for points of shape {want + (3,)}")
            if form.startswith("many") and n:  # of the copies of a point's answer the one that differs most from the first
                N = int(form.split()[1])
                if x[ns] != N:
                    raise ValueError(f"answer of shape {x} for points of shape {(N, 3)}")
                o = np.moveaxis(o, ns, 0)
                d = np.nan_to_num(np.abs(o - o[np.arange(N) % n]).reshape(N, -1).sum(axis=1), nan=np.inf)
                pick = [i + n * int(np.argmax(d[i::n])) for i in range(n)]
                return np.moveaxis(o[pick], 0, ns)
            if form in ("grid", "fgrid"):
                if x[ns:ns + 2] != (2, n):
                    raise ValueError(f"answer of shape {x} for points of shape {(2, n, 3)}")
                return (np.take(o, 0, axis=ns) + np.flip(np.take(o, 1, axis=ns), axis=ns)) / 2
            return o
        if form == "single":
            outs = [f(*[np.asarray(a)[i] if np.ndim(a) == 2 else a for a in args], **{k: np.asarray(v)[i] if np.ndim(v) == 2 else v for k, v in kw.items()}) for i in range(n)]
            if isinstance(outs[0], tuple):
                return tuple(np.stack([o[j] for o in outs], axis=ns) for j in range(len(outs[0])))
            return np.stack(outs, axis=ns)
        return back(f(*[put(a) for a in args], **{k: put(v) for k, v in kw.items()}))
