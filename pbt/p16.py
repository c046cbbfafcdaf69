"""P16: evaluation is pure and objects do not share state."""
import copy
import functools
import inspect
import os

import numpy as np
from geoana import spatial, utils
from geoana.earthquake import oksar
from geoana.em import fdem, tdem
from geoana.kernels import potential_field_prism as pfp
from scipy import constants

from . import clean, gen
from .core import close, facet, fail, truth
from .gen import st
from .models import KIND, MODELS, NAMES, conv, natural, noise, situations
from .p15 import odd_cases, odd_point, package
from .p20 import images, scenes

FACETS = []
ASSUMPTIONS = [
    "Arrays obtained by reading a parameter (object.location, ...) are the object's own and are not modified by the check; arrays passed in and arrays returned by queries and derived quantities are.",
    "Equal values: 1e-12 of the natural size of the answer plus the closed form's rounding noise (the last bits may depend on memory alignment).",
]
FORMS = ["array", "list", "tuple", "grid", "fortran", "strided", "int", "float32", "single", "transposed view"]
ARRAY_FORMS = ["array", "fortran", "strided", "transposed view"]


# --------------------------------------------------------------------------- snapshots
def snap(x):
    """A deep, comparable copy."""
    if isinstance(x, np.ndarray):
        return ("a", x.dtype.str, x.shape, np.array(x).tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(v) for v in x)
    if isinstance(x, dict):
        return ("d",) + tuple((k, snap(v)) for k, v in sorted(x.items()))
    if isinstance(x, np.generic):
        return ("g", x.dtype.str, x.tobytes())
    return repr(x)


def scribble(x):
    """Overwrite whatever can be overwritten."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fciu":
            x[...] = 77
    elif isinstance(x, list):
        for k, v in enumerate(x):
            if isinstance(v, (list, tuple, np.ndarray)):
                scribble(v)
            else:
                x[k] = 77.0
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def state(m, o):
    """All parameters as the object reports them."""
    out = {}
    for k in m.params:
        out[k] = copy.deepcopy(getattr(o, k))
    return out


def ask(m, o, q, pts):
    if q.name.startswith("."):
        return getattr(o, q.name[1:])
    return q(o, pts)


OPS = st.one_of(
    st.tuples(st.just("ask"), st.integers(0, 20), st.integers(0, 9)), st.tuples(st.just("ask"), st.integers(0, 20), st.integers(0, 9)),
    st.tuples(st.just("prop"), st.integers(0, 5), st.booleans()), st.tuples(st.just("spoil result"), st.integers(0, 20), st.integers(0, 9)),
    st.tuples(st.just("spoil points"), st.integers(0, 20), st.integers(0, 9)), st.tuples(st.just("spoil parameters")),
    st.tuples(st.just("other"), st.integers(0, 1000), st.integers(0, 20)), st.tuples(st.just("twin"), st.integers(0, 20)),
    st.tuples(st.just("default"), st.integers(0, 20)), st.tuples(st.just("helper"), st.integers(0, 9))).map(list)


@st.composite
def histories(draw):
    s = draw(situations(lo=1, hi=3))
    s["ops"] = draw(st.lists(OPS, min_size=2, max_size=8))
    s["twin"] = draw(MODELS[s["model"]].strategy())
    s["other"] = draw(situations(lo=1, hi=2))
    return s


def build_defaults(m, p):
    """Only what has no default."""
    return m.cls(**m.fixed, **{k: conv(v) for k, v in p.items() if k in m.required})


class Judge:
    def __init__(self, m, p, pts):
        self.m, self.p = m, p
        self.o = m.build(p)
        self.X = np.array(pts, float)
        self.memo = {}
        self.before = state(m, self.o)

    def reference(self, k, form):
        """What a separate new object answers, and the tolerance."""
        key = (k, form)
        if key not in self.memo:
            m = self.m
            q = m.queries[k]
            fresh = m.build(self.p)
            given, X = package(self.X, form)
            v = np.array(q(fresh, given))
            n = noise(m, q, self.p, X)
            nat = natural(m, q, fresh, X.reshape(-1, X.shape[-1]))
            self.memo[key] = v, 1e-12 * np.max(nat) + np.max(n) + 1e-300
        return self.memo[key]

    def ask(self, k, form, o=None):
        m = self.m
        k %= len(m.queries)
        forms = FORMS if m.stack else ARRAY_FORMS
        form = forms[form % len(forms)]
        q = m.queries[k]
        ref, tol = self.reference(k, form)
        given, X = package(self.X, form)
        s = snap(given)
        kw = copy.deepcopy(q.kw)
        got = q(self.o if o is None else o, given)
        truth(f"{m.name}.{q.name} left its points as they were ({form})", snap(given) == s)
        truth(f"{m.name}.{q.name} left its options as they were", kw == q.kw)
        close(f"{m.name}.{q.name} asked again ({form})", got, ref, rtol=1e-12, atol=tol) if np.all(np.isfinite(ref)) else close(
            f"{m.name}.{q.name} asked again ({form})", np.nan_to_num(got), np.nan_to_num(ref), rtol=1e-12, atol=tol)
        return got, given

    def unchanged(self, what):
        now = state(self.m, self.o)
        for k in self.m.params:
            truth(f"{self.m.name}.{k} after {what}", snap(now[k]) == snap(self.before[k]), f"{self.before[k]!r} became {now[k]!r}")


def offdomain(m, X):
    return False


@facet(FACETS, histories(), 2600)
def objects(c, ctx):
    """Sequences of queries, spoiled arrays and other objects: every answer is a new object's, and no parameter or argument changes."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    j = Judge(m, c["params"], c["pts"])
    # the object under test is built from arrays the caller keeps
    held = {k: conv(v) for k, v in c["params"].items()}
    j.o = m.cls(**m.fixed, **held)
    j.before = state(m, j.o)
    held_snap = snap(held)
    props = [n for n, _ in m.props]
    spoiled = False
    for op in c["ops"]:
        what = op[0]
        ctx.label(what)
        if what == "ask":
            j.ask(op[1], op[2])
        elif what == "prop" and props:
            n = props[op[1] % len(props)]
            a = getattr(j.o, n)
            keep = np.array(a)
            if op[2]:
                scribble(a)
            close(f"{m.name}.{n} read again", getattr(j.o, n), keep, rtol=1e-14)
        elif what == "spoil result":
            got, _ = j.ask(op[1], op[2])
            scribble(got)
            j.ask(op[1], op[2])
        elif what == "spoil points":
            got, given = j.ask(op[1], op[2])
            keep = np.array(got)
            scribble(given)
            truth(f"{m.name}: a result does not follow the points it was computed for", np.array_equal(keep, np.array(got), equal_nan=True))
            j.ask(op[1], op[2])
        elif what == "spoil parameters":
            for v in held.values():
                scribble(v)
            spoiled = True
        elif what == "twin":  # another object of the class, with other parameters, then changed
            t = m.build(c["twin"])
            q = m.queries[op[1] % len(m.queries)]
            np.asarray(q(t, j.X.copy()))
            for k, v in c["twin"].items():
                if not (m.name in ("Prism", "MagneticPrism") and k.endswith("location")):
                    setattr(t, k, conv(v))
        elif what == "default":
            t = build_defaults(m, c["twin"])
            first = state(m, t)
            u = build_defaults(m, c["twin"])
            for k in m.params:  # change every parameter of one default object
                if k in c["twin"] and not (m.name in ("Prism", "MagneticPrism") and k.endswith("location")):
                    setattr(u, k, conv(c["twin"][k]))
            np.asarray(m.queries[op[1] % len(m.queries)](u, j.X.copy()))
            w = build_defaults(m, c["twin"])
            for k in m.params:
                truth(f"{m.name}.{k} of an object built with defaults", snap(getattr(t, k)) == snap(first[k]), f"{first[k]!r} became {getattr(t, k)!r}")
                truth(f"{m.name}.{k} of the next object built with defaults", snap(getattr(w, k)) == snap(first[k]), f"{first[k]!r} became {getattr(w, k)!r}")
        elif what == "other":
            s = c["other"]
            m2 = MODELS[s["model"]]
            o2 = m2.build(s["params"])
            np.asarray(m2.queries[op[2] % len(m2.queries)](o2, np.array(s["pts"], float)))
        elif what == "helper":
            for name in ("vector_distance", "distance", "dot_orientation", "cross_orientation"):
                if hasattr(j.o, name):
                    P = np.array(c["pts"], float)
                    if P.shape[1] != 3:
                        P = np.c_[P, np.zeros(len(P))]
                    given = P.copy()
                    r = getattr(j.o, name)(given)
                    truth(f"{m.name}.{name} left its argument as it was", np.array_equal(given, P))
                    keep = np.array(r)
                    scribble(r)
                    close(f"{m.name}.{name} again", getattr(j.o, name)(given), keep, rtol=1e-14)
        j.unchanged(what)
    if not spoiled:
        truth(f"{m.name} left the arrays it was built from as they were", snap(held) == held_snap)
    for v in held.values():
        scribble(v)
    for k in range(len(m.queries)):
        j.ask(k, 0)
    j.unchanged("all of it")


@facet(FACETS, situations(lo=1, hi=2), 700)
def spoiled(c, ctx):
    """Every answer of an object may be overwritten by the caller: no parameter and no later answer follows."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    j = Judge(m, c["params"], c["pts"])
    forms = FORMS if m.stack else ARRAY_FORMS
    for k, q in enumerate(m.queries):
        for form in ("single", "array") if m.stack else ("array",):
            got, given = j.ask(k, forms.index(form))
            scribble(got)
            j.unchanged(f"overwriting the answer of {q.name} ({form})")
            scribble(given)
    for n, _ in m.props:
        scribble(getattr(j.o, n))
        j.unchanged(f"overwriting {n}")
    for k in range(len(m.queries)):
        j.ask(k, 0)


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(lo=1, hi=2), how=st.sampled_from(["defaults", "same arrays", "read from one"]))), 500)
def own_parameters(c, ctx):
    """Parameter arrays written through one object reach no other object, whether built from defaults, from the same arrays or from the first one's parameters."""
    m = MODELS[c["s"]["model"]]
    p = c["s"]["params"]
    X = np.array(c["s"]["pts"], float)
    ctx.label(m.name, c["how"])
    held = {k: conv(v) for k, v in p.items()}

    def new():
        return build_defaults(m, p) if c["how"] == "defaults" else m.cls(**m.fixed, **held)
    a, b = new(), new()
    if c["how"] == "read from one":
        b = m.cls(**m.fixed, **{k: getattr(a, k) for k in m.params if k in p})
    before, kept = state(m, b), snap(held)
    want = [np.array(q(b, X.copy())) for q in m.queries]
    for k in m.params:
        scribble(getattr(a, k))
    for k in m.params:
        truth(f"{m.name}.{k} of another object ({c['how']})", snap(getattr(b, k)) == snap(before[k]), f"{before[k]!r} became {getattr(b, k)!r}")
    truth(f"{m.name}: the arrays both were built from", snap(held) == kept)
    third = new()
    for k in m.params:
        close(f"{m.name}.{k} of the next object ({c['how']})", getattr(third, k), before[k], rtol=1e-14)
    for q, w in zip(m.queries, want):
        for o in (b, third):
            ok = np.isfinite(w)
            close(f"{m.name}.{q.name} of another object ({c['how']})", np.where(ok, q(o, X.copy()), 0), np.where(ok, w, 0), rtol=1e-9,
                  atol=(1e-9 * np.abs(w[ok]).max() if ok.any() else 0.0) + np.max(noise(m, q, {**p, **before} if c["how"] == "defaults" else p, X)) + 1e-300)


@facet(FACETS, situations(lo=2, hi=4), 900)
def buffers(c, ctx):
    """An array of points that is filled anew and asked about again gives the answers at its new contents."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    o, fresh = m.build(c["params"]), m.build(c["params"])
    X = np.array(c["pts"], float)
    buf, one, seq = X.copy(), X[0].copy(), X.tolist()
    for q in m.queries:
        want = np.asarray(q(fresh, X[::-1].copy()))
        alone = np.asarray(q(fresh, X[-1].copy())) if m.stack else None
        for b, w in ((buf, want), (one, alone), (seq, want)):
            if b is not buf and not m.stack:
                continue
            q(o, b)
            if b is one:
                b[:] = X[-1]
            else:
                b[:] = X[::-1] if b is buf else X[::-1].tolist()
            got = np.asarray(q(o, b))
            ok = np.isfinite(w)
            scale = np.abs(w[ok]).max() if ok.any() else 0.0
            close(f"{m.name}.{q.name} of an array changed in place", np.where(ok, got, 0), np.where(ok, w, 0), rtol=1e-9, atol=1e-11 * scale + np.max(noise(m, q, c["params"], X)) + 1e-300)
        buf[:], one[:], seq[:] = X, X[0], X.tolist()


@facet(FACETS, odd_cases(), 1500)
def odd_points(c, ctx):
    """Points at which the answer is undefined or special (on the source, not a number, infinite) are left as they were, and so is the object."""
    m = MODELS[c["model"]]
    p = c["params"]
    X = np.array([odd_point(m, p, what, i) for what, i, _ in c["odd"]] + c["pts"], float)
    if m.motion == "flat" and m.xy == 3:
        X[:, 2] = np.abs(X[:, 2]) if m.name == "FDLayered" else -np.abs(X[:, 2])
    ctx.label(m.name, *[v[0] for v in c["odd"]])
    j = Judge(m, p, c["pts"])
    helpers = [lambda o, x, n=n: getattr(o, n)(x) for n in ("vector_distance", "distance", "dot_orientation", "cross_orientation") if hasattr(j.o, n)]
    forms = [lambda: X.copy(), lambda: np.asfortranarray(X)] + ([lambda: X[0].copy(), lambda: X[:, None].copy(), lambda: tuple(X[:, k].copy() for k in range(X.shape[1]))] if m.stack else [])
    for k, q in enumerate(m.queries + (helpers if m.xy == 3 else [])):
        for f in forms[:2] if k >= len(m.queries) else forms:
            given = f()
            s = snap(given)
            with np.errstate(all="ignore"):
                got = q(j.o, given)
            truth(f"{m.name}.{getattr(q, 'name', 'helper')} left its points as they were", snap(given) == s)
            scribble(got)
        j.unchanged("special points")
    for k in range(len(m.queries)):
        j.ask(k, 0)


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(lo=1, hi=2), perm=st.lists(st.integers(0, 1000), min_size=3, max_size=6), name=st.integers(0, 20), how=st.sampled_from(["array", "list"]))), 1200)
def assigned(c, ctx):
    """An array or list assigned as a parameter is not changed by it, and may be changed afterwards without effect on the object."""
    m = MODELS[c["s"]["model"]]
    p = c["s"]["params"]
    ctx.label(m.name)
    o = m.build(p)
    names = [k for k in p if isinstance(p[k], list)]
    if not names:
        ctx.trivial = True
        return
    k = names[c["name"] % len(names)]
    v = np.array(p[k], float) if c["how"] == "array" else copy.deepcopy(p[k])
    s = snap(v)
    setattr(o, k, v)
    truth(f"{m.name}.{k} = left the assigned {c['how']} as it was", snap(v) == s)
    first = state(m, o)
    j = Judge(m, p, c["s"]["pts"])
    for op in c["perm"]:
        j.ask(op, 0, o)
        truth(f"{m.name}: queries left the array assigned to {k} as it was", snap(v) == s)
    scribble(v)
    for k2 in m.params:
        truth(f"{m.name}.{k2} after modifying the {c['how']} assigned to {k}", snap(getattr(o, k2)) == snap(first[k2]))
    for op in c["perm"]:
        j.ask(op, 0, o)


@facet(FACETS, st.fixed_dictionaries(dict(a=situations(lo=1, hi=3), b=situations(lo=1, hi=3), same=st.booleans(), n=st.integers(2, 60))), 250)
def threads(c, ctx):
    """Objects asked from several threads at once answer as when asked alone."""
    import sys
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for s in (c["a"], dict(c["b"], **({"model": c["a"]["model"], "params": c["a"]["params"], "pts": c["a"]["pts"]} if c["same"] else {}))):
        m = MODELS[s["model"]]
        ctx.label(m.name)
        o = m.build(s["params"])
        X = np.resize(np.array(s["pts"], float), (c["n"], len(s["pts"][0]))) if m.stack else np.array(s["pts"], float)
        for q in m.queries[:4]:
            for Y in (X, X[::-1].copy()):
                jobs.append((m, q, o, Y, np.array(q(m.build(s["params"]), Y.copy())), 1e-10 * np.max(natural(m, q, o, Y)) + np.max(noise(m, q, s["params"], Y)) + 1e-300))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        with ThreadPoolExecutor(4) as ex:
            out = list(ex.map(lambda j: np.array(j[1](j[2], j[3])), jobs * 3))
    finally:
        sys.setswitchinterval(old)
    for (m, q, o, Y, ref, tol), got in zip(jobs * 3, out):
        ok = np.isfinite(ref)
        close(f"{m.name}.{q.name} asked from several threads", np.where(ok, got, 0), np.where(ok, ref, 0), rtol=1e-9, atol=tol)


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(lo=1, hi=2), how=st.sampled_from(["deepcopy", "pickle"]), seed=st.integers(0, 1000))), 600)
def copies(c, ctx):
    """A deep or pickled copy answers as the original; changing either leaves the other as it was."""
    import pickle
    m = MODELS[c["s"]["model"]]
    p = c["s"]["params"]
    ctx.label(m.name, c["how"])
    j = Judge(m, p, c["s"]["pts"])
    j.ask(c["seed"], 0)
    o2 = copy.deepcopy(j.o) if c["how"] == "deepcopy" else pickle.loads(pickle.dumps(j.o))
    for k in range(len(m.queries)):
        j.ask(k, 0, o2)
    for k in m.params:
        v = getattr(o2, k)
        if isinstance(v, np.ndarray):
            v[...] = 0.5 if not k.endswith("location") else -0.25  # an array of the copy, not of the original
        elif isinstance(v, float) and not k.startswith("location"):
            setattr(o2, k, 2.5 * abs(v))
    j.unchanged("changing its copy")
    for k in range(len(m.queries)):
        j.ask(k, 0)


# ------------------------------------------------------------------------------- functions
PTS = gen.points(4.0, 2, 4)
KERNELS = ["prism_f", "prism_fz", "prism_fzz", "prism_fzx", "prism_fzy", "prism_fzzz", "prism_fxxy", "prism_fxxz", "prism_fxyz"]


def table(c):
    """name -> (function, arguments)."""
    P = np.array(c["p"], float)
    V = np.resize(np.array(c["v"], float), P.shape)
    t = np.array(c["t"], float)
    from geoana import kernels
    from geoana.kernels import tranverse_electric_reflections as tr
    out = {}
    for n in ("cylindrical_to_cartesian", "cartesian_to_cylindrical", "spherical_to_cartesian", "cartesian_to_spherical"):
        out[n] = (getattr(spatial, n), [P, V])
        out[n + " points"] = (getattr(spatial, n), [P])
    out["vector_magnitude"] = (spatial.vector_magnitude, [V])
    out["vector_distance"] = (spatial.vector_distance, [P, V[0]])
    out["distance"] = (spatial.distance, [P, V[0]])
    out["vector_distance default"] = (spatial.vector_distance, [P])
    out["distance default"] = (spatial.distance, [P])
    out["vector_dot"] = (spatial.vector_dot, [P, V[0]])
    out["repeat_scalar"] = (spatial.repeat_scalar, [t])
    out["rotation_matrix_from_normals"] = (spatial.rotation_matrix_from_normals, [np.array(c["n"][0]), np.array(c["n"][1])])
    out["rotate_points_from_normals"] = (spatial.rotate_points_from_normals, [P, np.array(c["n"][0]), np.array(c["n"][1]), V[0]])
    out["rotate_points_from_normals default"] = (spatial.rotate_points_from_normals, [P, np.array(c["n"][0]), np.array(c["n"][1])])
    out["mkvc"] = (utils.mkvc, [P])
    out["mkvc flat"] = (utils.mkvc, [t])
    out["mkvc column"] = (utils.mkvc, [t, 2])
    out["ndgrid"] = (utils.ndgrid, [t, V[0], P[0]])
    out["ndgrid list"] = (utils.ndgrid, [[t, V[0]]])
    for n in ("omega",):
        out[n] = (fdem.omega, [t])
    out["wavenumber"] = (fdem.wavenumber, [t, 0.1])
    out["skin_depth"] = (fdem.skin_depth, [t, 0.1])
    out["sigma_hat"] = (fdem.sigma_hat, [t, np.abs(V[0]).max() + 0.1 + t])
    out["peak_time"] = (tdem.peak_time, [t, 0.1])
    out["diffusion_distance"] = (tdem.diffusion_distance, [t, 0.1])
    out["theta"] = (tdem.theta, [t, 0.1])
    for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop"):
        out["fdem." + n] = (getattr(fdem, n), [t, 0.1])
    for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop", "vertical_magnetic_flux_time_deriv_horizontal_loop"):
        out["tdem." + n] = (getattr(tdem, n), [t * 1e-6, 0.1])
    for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole", "magnetic_flux_time_deriv_magnetic_dipole"):
        out["tdem." + n] = (getattr(tdem, n), [t * 1e-6, P[:, :2] + 7.0])
    for n in KERNELS:
        out[n] = (getattr(kernels, n), [P[:, 0].copy() + 0.03125, P[:, 1].copy() - 0.015625, P[:, 2].copy() + 0.0625])
        out[n + " python"] = (getattr(pfp, "_" + n), [P[:, 0].copy() + 0.03125, P[:, 1].copy() - 0.015625, P[:, 2].copy() + 0.0625])
    nf = len(t)
    sig = (0.1 + np.abs(np.resize(V, (2, nf)))).astype(complex)
    mu = np.full((2, nf), gen.MU0 * 1.5, complex)
    args = [t, np.array([0.1, 0.5, 2.0]), sig, mu, np.array([3.0])]
    for n in ("rTE_forward", "rTE_gradient"):
        out[n] = (getattr(kernels, n), args)
        out[n + " python"] = (getattr(tr, "_" + n), args)
    return out


FUNCTIONS = sorted(table(dict(p=[[1.0, 2.0, 3.0]] * 2, v=[[1.0, 2.0, 3.0]] * 2, t=[1.0, 2.0], n=[[1.0, 0, 0], [0, 1.0, 0]])))


@facet(FACETS, st.fixed_dictionaries(dict(fn=st.sampled_from(FUNCTIONS), p=PTS, v=PTS, t=st.lists(gen.logf(1, 1e4), min_size=2, max_size=4), n=st.tuples(gen.nonzero_vec(), gen.nonzero_vec()).map(list),
                                          forder=st.booleans(), odd=st.sampled_from(["0", "nan", "inf", "1e200"]), between=st.sampled_from(FUNCTIONS))), 3000)
def functions(c, ctx):
    """Functions leave their arrays alone, repeat their answer after another function was called and after their result was overwritten."""
    f, args = table(c)[c["fn"]]
    ctx.label(c["fn"])
    if c["forder"]:
        args = [np.asfortranarray(a) if isinstance(a, np.ndarray) and a.ndim > 1 else a for a in args]
    odd = copy.deepcopy(args)  # also values without an answer
    for a in odd:
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and "normals" not in c["fn"] and "rTE" not in c["fn"]:
            a.flat[len(c["p"]) % a.size] = float(c["odd"])
    s = snap(odd)
    with np.errstate(all="ignore"):
        f(*odd)
    truth(f"{c['fn']} left its arguments as they were", snap(odd) == s)
    s = snap(args)
    first = f(*args)
    truth(f"{c['fn']} left its arguments as they were", snap(args) == s)
    keep = copy.deepcopy(first)
    g, b = table(c)[c["between"]]
    g(*b)
    again = f(*args)
    truth(f"{c['fn']} left its arguments as they were", snap(args) == s)
    for x, y in zip(*[v if isinstance(v, (tuple, list)) else [v] for v in (again, keep)]):
        x, y = np.asarray(x), np.asarray(y)
        ok = np.isfinite(y)
        close(f"{c['fn']} repeated", np.where(ok, x, 0), np.where(ok, y, 0), rtol=1e-11, atol=1e-12 * (np.abs(y[ok]).max() if ok.any() else 0.0) + 1e-300)
    scribble(first)
    scribble(again)
    truth(f"{c['fn']}: arguments after its results were overwritten", snap(args) == s)
    for a in args:  # the same arrays with other contents
        if isinstance(a, np.ndarray) and a.flags.writeable:
            a *= 1.25
    x, y = f(*args), f(*copy.deepcopy(args))
    for x, y in zip(*[v if isinstance(v, (tuple, list)) else [v] for v in (x, y)]):
        x, y = np.asarray(x), np.asarray(y)
        ok = np.isfinite(y)
        close(f"{c['fn']} of arrays changed in place", np.where(ok, x, 0), np.where(ok, y, 0), rtol=1e-11, atol=1e-12 * (np.abs(y[ok]).max() if ok.any() else 0.0) + 1e-300)


def answers(name, p, pts, turn):
    """All answers of a new object, the queries in an order that starts anywhere."""
    m = MODELS[name]
    X = np.array(pts, float)
    n = len(m.queries)
    out = [None] * n
    for i in range(n):
        i = (i + turn) % n
        out[i] = np.array(m.queries[i](m.build(p), X.copy()))
    return out


def same_as_apart(m, o, cur, X, turn, what):
    ok, ref = clean.call("pbt.p16", "answers", m.name, cur, X.tolist(), turn)
    truth(f"{m.name} {what}: a process of its own answers", ok, ref)
    for q, b in zip(m.queries, ref):
        a = np.asarray(q(o, X.copy()))
        truth(f"{m.name}.{q.name} {what}: shape", a.shape == b.shape, f"{a.shape} instead of {b.shape}")
        fin = np.isfinite(b)
        scale = np.abs(b[fin]).max() if fin.any() else 0.0
        close(f"{m.name}.{q.name} {what}", np.where(fin, a, 0), np.where(fin, b, 0), rtol=1e-9, atol=1e-11 * scale + np.max(noise(m, q, cur, X)) + 1e-300)


@st.composite
def one_other(draw):
    s = draw(situations(lo=1, hi=2))
    m = MODELS[s["model"]]
    from .p17 import nudged
    e, i = draw(st.sampled_from([1e-7, 1e-6, 1e-5, 1e-4])), draw(st.integers(0, 20))
    hardly = [[k, nudged(m, s["params"], k, e, i)] for k in m.params]
    s["new"] = [[k, draw(KIND[v])] for k, v in m.params.items()] + [v for v in hardly if v[1] is not None]
    s["turn"] = draw(st.integers(0, 20))
    return s


@facet(FACETS, one_other(), 450)
@clean.isolated
def apart(c, ctx):
    """Objects that differ in one parameter, asked one after the other at the same points, answer as in a process of their own."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    X = np.array(c["pts"], float)
    first = m.build(c["params"])
    for q in m.queries:
        q(first, X.copy())
    for k, v in c["new"]:
        for q in m.queries:
            q(first, X.copy())
        p = dict(c["params"], **{k: v})
        same_as_apart(m, m.build(p), p, X, c["turn"], f"with {k} = {v} after another object")
    same_as_apart(m, first, c["params"], X, c["turn"], "after other objects")


def call_plain(fn, c, kw, scaled):
    """A function of the table, with options and with its arguments scaled."""
    f, args = table(c)[fn]
    args = [a * s if isinstance(a, np.ndarray) or isinstance(a, float) else a for a, s in zip(args, scaled)]
    out = f(*args, **kw)
    return out.as_matrix() if hasattr(out, "as_matrix") else out


def options(f, given):
    """Another value for each option of a function that has a number for a default."""
    try:
        ps = list(inspect.signature(f).parameters.values())[given:]
    except (TypeError, ValueError):
        return {}
    out = {}
    for p in ps:
        if isinstance(p.default, bool):
            out[p.name] = not p.default
        elif isinstance(p.default, int):
            out[p.name] = p.default + 1
        elif isinstance(p.default, float):
            out[p.name] = p.default * 1.5 if p.default else 0.5
    return out


@facet(FACETS, st.fixed_dictionaries(dict(fn=st.sampled_from(FUNCTIONS), p=PTS, v=PTS, t=st.lists(gen.logf(1, 1e4), min_size=2, max_size=4),
                                          n=st.tuples(gen.nonzero_vec(), gen.nonzero_vec()).map(list))), 500)
@clean.isolated
def functions_apart(c, ctx):
    """Functions called with one argument or option changed after another call answer as in a process of their own."""
    fn = c["fn"]
    ctx.label(fn)
    f, args = table(c)[fn]
    none = [1.0] * len(args)
    calls = [(none, {})] + [([1.25 if j == i else 1.0 for j in range(len(args))], {}) for i in range(len(args))]
    if "mkvc" not in fn and "ndgrid" not in fn:
        calls += [(none, {k: v}) for k, v in options(f, len(args)).items()]
    for scaled, kw in calls + calls[:1]:
        ok, ref = clean.call("pbt.p16", "call_plain", fn, c, kw, scaled)
        truth(f"{fn} with {kw}: a process of its own answers", ok, ref)
        got = call_plain(fn, c, kw, scaled)
        for x, y in zip(*[v if isinstance(v, (tuple, list)) else [v] for v in (got, ref)]):
            x, y = np.asarray(x), np.asarray(y)
            ok = np.isfinite(y)
            close(f"{fn} with {kw}, arguments times {scaled}", np.where(ok, x, 0), np.where(ok, y, 0), rtol=1e-11, atol=1e-12 * (np.abs(y[ok]).max() if ok.any() else 0.0) + 1e-300)


# ------------------------------------------------------------------------------ earthquake
def fault_kw(c):
    return dict(strike=c["strike"], dip=c["dip"], rake=c["rake"], slip=c["slip"], length=c["length"], depth_top=c["top"], depth_bottom=c["top"] + c["height"],
                center=np.array(c["center"]), O=np.array(c["center"]) - 2e4, U=np.array([4e4, 0.0]), V=np.array([0.0, 4e4]), shape=[5, 4])


FAULT = st.fixed_dictionaries(dict(strike=gen.uni(0, 360), dip=gen.uni(5, 85), rake=gen.uni(-180, 180), slip=gen.uni(0.1, 3), length=gen.logf(1e3, 2e4), top=gen.logf(1e2, 5e3),
                                   height=gen.logf(1e3, 1e4), center=gen.vec(gen.uni(-1e4, 1e4), 2)))


@facet(FACETS, st.fixed_dictionaries(dict(a=FAULT, b=FAULT, ops=st.lists(st.sampled_from(["disp", "grid", "other", "spoil grid", "spoil disp", "spoil kw", "los"]), min_size=2, max_size=6))), 150)
def faults(c, ctx):
    """Fault models: queries in any order, spoiled arrays and other models change nothing."""
    kw = fault_kw(c["a"])
    s0 = snap(kw)
    o = oksar.Oksar(**kw)
    truth("Oksar left its arguments as they were", snap(kw) == s0)
    names = list(kw)
    before = {k: snap(copy.deepcopy(getattr(o, k))) for k in names}
    ref = oksar.Oksar(**fault_kw(c["a"]))
    D = [np.array(v) for v in ref.displacement_vector]
    X = np.array(ref.simulation_grid)
    for op in c["ops"] + ["disp", "grid"]:
        ctx.label(op)
        if op in ("disp", "spoil disp"):
            d = o.displacement_vector
            for a, b in zip(d, D):
                close("displacement repeated", a, b, rtol=1e-10, atol=1e-12 * max(np.abs(v).max() for v in D))
            if op != "disp":
                scribble(d if isinstance(d, (tuple, list)) else np.asarray(d))
        elif op in ("grid", "spoil grid"):
            g = o.simulation_grid
            close("grid repeated", np.array(g), X, rtol=1e-13)
            if op != "grid":
                scribble(g)
        elif op == "other":
            t = oksar.Oksar(**fault_kw(c["b"]))
            t.displacement_vector
            t.strike = 12.0
        elif op == "spoil kw":
            for v in kw.values():
                scribble(v)
        for k in names:
            truth(f"Oksar.{k} after {op}", snap(getattr(o, k)) == before[k])


@facet(FACETS, st.fixed_dictionaries(dict(s=st.tuples(scenes(), scenes()).map(list), i=st.tuples(images(), images()).map(list))), 60)
@clean.isolated
def interferograms(c, ctx):
    """Drawing an interferogram and asking for lines of sight, again and with another one in between, changes neither it nor its answers nor the data given."""
    from .p17 import picture_kw, pictures, same_picture
    kw, other = picture_kw(c["s"][0], c["i"][0]), picture_kw(c["s"][1], c["i"][1])
    given = snap(kw)
    o = oksar.EarthquakeInterferogram(**kw)
    before = {k: snap(getattr(o, k)) for k in kw}
    first = pictures(o)
    for v in first:
        scribble(v)
    pictures(oksar.EarthquakeInterferogram(**other))
    same_picture(o, kw, "pictures", "asked again after another one")
    for k in kw:
        truth(f"interferogram.{k} after being drawn", snap(getattr(o, k)) == before[k], f"is {getattr(o, k)!r}")
    truth("what the interferogram was built from", snap(kw) == given)
    kw["data"][...] = 77.0
    for k in kw:
        truth(f"interferogram.{k} after the data given were overwritten", snap(getattr(o, k)) == before[k], f"is {getattr(o, k)!r}")


# --------------------------------------------------------------------------- surroundings
def surroundings():
    """What every part of a process shares."""
    return dict(errors=np.geterr(), call=np.geterrcall(), printing=np.get_printoptions(), random=snap(list(np.random.get_state())), directory=os.getcwd(),
                bufsize=np.getbufsize(), constants=(constants.mu_0, constants.epsilon_0, constants.G))


def watched(check):
    @functools.wraps(check)
    def run(c, ctx):
        with np.errstate(divide="warn", invalid="warn", over="log", under="log", call=quiet):
            before = surroundings()
            check(c, ctx)
            after = surroundings()
        for k, v in before.items():
            truth(f"{k} of the process as before", repr(v) == repr(after[k]), f"{v} became {after[k]}")
    return run


class Quiet:
    def write(self, text):
        pass


quiet = Quiet()
for _f in FACETS:
    _f.check = watched(_f.check)
