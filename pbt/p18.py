"""P18: parameters are validated and read back as assigned."""
import datetime
import math

import numpy as np
from geoana import gravity, spatial, utils
from geoana.earthquake import oksar
from geoana.em import fdem, static, tdem

from . import gen
from .core import check_shape, close, facet, fail, raises, truth
from .gen import EPS0, MU0, st
from .models import KIND, MODELS, NAMES, conv
from .p17 import kind_of, settable
from .values import all_wrong, REFUSALS, SCALAR_FORMS, make, refused, scalar

FACETS = []
ASSUMPTIONS = [
    "Refused means TypeError or ValueError (any error for coordinate systems). Zero resistivity is refused with ZeroDivisionError and is not generated; NaN, zero directions, numeric text and boolean values are outside of the claim, as are options the documentation does not say are checked (the spheres' and half-spaces' `field`).",
    "Prism corners, depths of faults and heights of half-space sources are checked against each other in the constructor only.",
]
VEC_FORMS = ["array", "list", "tuple", "int", "f32", "fortran", "readonly", "strided"]


def vector(v, form):
    a = np.array(v, float)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    if form == "int":
        return np.round(a * 3).astype(int)
    if form == "f32":
        return a.astype(np.float32)
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "readonly":
        a.setflags(write=False)
        return a
    if form == "strided":
        return np.repeat(a, 2, axis=0)[::2]
    return a


@st.composite
def good(draw):
    name = draw(st.sampled_from(NAMES))
    m = MODELS[name]
    p = draw(m.strategy())
    k = draw(st.sampled_from(settable(m)))
    return dict(model=name, params=p, name=k, value=draw(KIND[kind_of(m, k)]), sf=draw(st.sampled_from(SCALAR_FORMS)), vf=draw(st.sampled_from(VEC_FORMS)), ctor=draw(st.booleans()))


def represent(m, k, v, c):
    """The value in another representation, and the numbers it stands for."""
    kind = kind_of(m, k)
    if isinstance(v, (str, bool)):
        return v, v
    if isinstance(v, list):
        w = vector(v, c["vf"])
        if c["vf"] == "int":  # rounded: must stay in the domain
            a = np.asarray(w, float)
            bad = (kind.startswith("orient") and np.linalg.norm(a) == 0) or (kind in ("corner_lo",) and np.any(a >= 0)) or (kind in ("corner_hi",) and np.any(a <= 0)) or (kind in ("layers", "thickness", "frequency", "time") and np.any(a <= 0))
            if bad:
                w = vector(v, "array")
        return w, np.asarray(w, float)
    w = scalar(v, c["sf"])
    if m.name == "FDLayered" and kind in ("mu_air", "epsilon") and c["sf"] in ("f32", "0d"):  # an array needs one entry per layer there
        w = v
    return w, float(w)


def expect(m, k, v):
    """What the getter must report for the numbers v."""
    kind = kind_of(m, k)
    if kind.startswith("orient"):
        return gen.unit(v)
    if m.name == "FDLayered":
        if k == "frequency":
            return np.atleast_1d(np.asarray(v, float))
        if k in ("mu", "epsilon", "sigma"):
            return np.asarray(v, complex) if np.ndim(v) else np.full(2, complex(v))
    return v


@facet(FACETS, good(), 3500)
def read_back(c, ctx):
    """Every accepted value, in every representation, by constructor or assignment, reads back; the other parameters keep theirs."""
    m = MODELS[c["model"]]
    k = c["name"]
    ctx.label(m.name, "constructor" if c["ctor"] else "assignment")
    given, means = represent(m, k, c["value"], c)
    if c["ctor"] and k in m.params:
        o = m.cls(**m.fixed, **{n: (given if n == k else conv(v)) for n, v in c["params"].items()})
    else:
        o = m.build(c["params"])
        setattr(o, k, given)
    got = getattr(o, k)
    want = expect(m, k, means)
    what = f"{m.name}.{k} given {given!r}"
    if isinstance(want, bool):
        truth(what, bool(got) == want)
    elif np.ndim(want) == 0:
        single = k == "rho" and c["sf"] == "f32" and c["ctor"]  # the reciprocal may be taken in the given precision
        close(what, got, want, rtol=1e-6 if single else 1e-14)
        if k not in ("frequency", "time"):
            truth(f"{what}: a number", isinstance(got, float), f"{type(got)}")
    else:
        truth(f"{what}: an array", isinstance(got, np.ndarray) and got.dtype.kind in "fc", f"{type(got)}")
        close(what, got, want, rtol=1e-14, atol=1e-15 if k == "orientation" else 0.0)
    if k in ("frequency", "time"):
        check_shape(what, got, np.shape(want))
    # reciprocal and derived ones
    if k == "rho" and hasattr(o, "sigma"):
        close(f"{what}: sigma", o.sigma, 1 / means, rtol=1e-6 if c["sf"] == "f32" else 1e-14)
    if k == "sigma" and hasattr(o, "rho") and m.name != "FDLayered":
        close(f"{what}: rho", o.rho, 1 / means, rtol=1e-14)
    if m.name == "Sphere":
        close("mass of a sphere", o.mass, 4 / 3 * math.pi * o.radius**3 * o.rho, rtol=1e-13)
    touched = {k} | ({"rho"} if k in ("mass", "sigma") else set()) | ({"sigma"} if k == "rho" else set())
    for n, v in c["params"].items():
        if n not in touched:
            want = expect(m, n, np.asarray(v, float) if isinstance(v, list) else v)
            if isinstance(want, bool):
                truth(f"{m.name}.{n}", bool(getattr(o, n)) == want)
            else:
                close(f"{m.name}.{n} (when {k} was given)", getattr(o, n), want, rtol=1e-14, atol=1e-15 if n == "orientation" else 0.0)


@st.composite
def wrong(draw):
    name = draw(st.sampled_from(NAMES))
    m = MODELS[name]
    ks = [k for k in m.params if refused(m, k) is not None]
    k = draw(st.sampled_from(ks))
    return dict(model=name, params=draw(m.strategy()), name=k, bad=draw(refused(m, k)), ctor=draw(st.booleans()))


@facet(FACETS, wrong(), 4500)
def refusals(c, ctx):
    """Values of the wrong type, shape or range are refused by constructor and assignment, in every container."""
    m = MODELS[c["model"]]
    k = c["name"]
    bad = make(c["bad"])
    ctx.label(m.name, c["bad"][0], "constructor" if c["ctor"] else "assignment")
    if c["ctor"] and bad is None:  # stands for the default there
        ctx.trivial = True
        return
    if c["ctor"]:
        kw = {n: (bad if n == k else conv(v)) for n, v in c["params"].items()}
        if m.name == "FDLayered" and k == "thickness" and c["bad"][0] in ("seq", "shape", "num"):
            kw["sigma"] = 1.0
        raises(f"{m.name}({k}={bad!r})", REFUSALS, m.cls, **m.fixed, **kw)
    else:
        o = m.build(c["params"])
        raises(f"{m.name}.{k} = {bad!r}", REFUSALS, setattr, o, k, bad)


@facet(FACETS, all_wrong(), 1600)
def every_refusal(c, ctx):
    """For every parameter of a class, a wrong value is refused and the object is left as it was."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    o = m.build(c["params"])
    before = {k: np.array(getattr(o, k)) for k in m.params}
    for k, d in c["bad"].items():
        bad = make(d)
        raises(f"{m.name}.{k} = {bad!r}", REFUSALS, setattr, o, k, bad)
    for k, v in before.items():
        truth(f"{m.name}.{k} after refused assignments", np.array_equal(v, np.asarray(getattr(o, k))))


# --------------------------------------------------------------------- constructor relations
@facet(FACETS, st.fixed_dictionaries(dict(cls=st.sampled_from(["Prism", "MagneticPrism"]), lo=gen.vec(gen.unit_coord()), hi=gen.vec(gen.unit_coord()), axis=st.integers(0, 2), d=st.sampled_from([0.0, -1e-9, -0.5, -3.0]))), 300)
def corners(c, ctx):
    """A prism whose upper corner is not above its lower corner in every direction is refused, any other is built."""
    lo, hi = np.array(c["lo"]), np.array(c["hi"])
    hi = np.maximum(lo, hi) + 0.5
    cls = MODELS[c["cls"]].cls
    o = cls(lo, hi)
    close("volume", o.volume, np.prod(hi - lo), rtol=1e-12)
    close("location", o.location, (lo + hi) / 2, rtol=1e-12, atol=1e-15)
    bad = hi.copy()
    bad[c["axis"]] = lo[c["axis"]] + c["d"]
    raises(f"{c['cls']} with corners {lo} and {bad}", ValueError, cls, lo, bad)


@facet(FACETS, st.fixed_dictionaries(dict(kind=st.sampled_from(["surface", "layered", "below m", "below n", "above receivers"]), z=gen.logf(1e-9, 1e3), sign=st.booleans(), n=st.integers(1, 4), at=st.integers(0, 3),
                                          q=st.sampled_from(["potential", "electric_field", "current_density"]))), 500)
def sides(c, ctx):
    """Sources off the surface, sources or receivers on the wrong side of the earth's surface are refused, at any position of a batch."""
    z, n, at = c["z"], c["n"], c["at"] % c["n"]
    ctx.label(c["kind"])
    X = np.zeros((n, 3))
    X[:, 0] = np.arange(n) + 1.5
    if c["kind"] == "surface":
        raises("a half-space dipole off the surface", ValueError, fdem.MagneticDipoleHalfSpace, frequency=100.0, location=[0.0, 0.0, z if c["sign"] else -z])
    elif c["kind"] == "layered":
        raises("a dipole under the surface", ValueError, fdem.MagneticDipoleLayeredHalfSpace, frequency=100.0, thickness=[1.0], location=[0.0, 0.0, -z])
    elif c["kind"] == "above receivers":
        o = fdem.MagneticDipoleLayeredHalfSpace(frequency=100.0, thickness=[1.0], location=[0.0, 0.0, 1.0])
        X[:, 2] = 1.0
        X[at, 2] = -z
        raises("a receiver under the surface", ValueError, o.magnetic_field, X)
    else:
        o = static.PointCurrentHalfSpace(10.0, location=[0.0, 0.0, -1.0]) if c["sign"] else static.DipoleHalfSpace(10.0, location_a=[0.0, 0.0, -1.0], location_b=[-3.0, 0.0, -1.0])
        bad = X.copy()
        bad[at, 2] = z
        f = getattr(o, c["q"])
        raises(f"{c['q']} above the surface", ValueError, f, bad)
        if not c["sign"]:
            raises(f"{c['q']} with the second electrode above the surface", ValueError, f, X, bad)
            raises(f"{c['q']} with the first electrode above the surface", ValueError, f, bad, X)


@facet(FACETS, st.fixed_dictionaries(dict(model=st.sampled_from(["StaticMagneticDipole", "MagneticPole", "CircularLoop"]), q=st.integers(0, 2), name=st.sampled_from(["spherical", "polar", "cart", "", "cylindrica", "xyz", "cartesian ", "CARTESIAN", "Cylindrical", "cylindrical", "cartesian"]))), 120)
def coordinate_systems(c, ctx):
    """Unknown coordinate systems are refused; known ones are accepted in any case."""
    m = MODELS[c["model"]]
    qs = [q for q in m.queries if not q.kw]
    f = getattr(m.cls(), qs[c["q"] % len(qs)].method)
    X = np.array([[1.0, 2.0, 3.0]])
    if c["name"].lower() in ("cartesian", "cylindrical"):
        close("coordinates in another case", f(X, coordinates=c["name"]), f(X, coordinates=c["name"].lower()), rtol=1e-14, atol=1e-20)
    else:
        raises(f"{m.name} coordinates={c['name']!r}", Exception, f, X, coordinates=c["name"])


@facet(FACETS, st.fixed_dictionaries(dict(model=st.sampled_from(NAMES), q=st.integers(0, 20), shape=st.sampled_from([(2,), (4,), (3, 2), (2, 3, 4), (3, 1), (5, 5), (1,)]).map(list), tup=st.booleans())), 600)
def point_dimension(c, ctx):
    """Points with a wrong number of coordinates are refused by every query."""
    m = MODELS[c["model"]]
    if not m.stack:
        ctx.trivial = True
        return
    if m.xy == 2 and c["shape"][-1] in (2, 3):
        ctx.trivial = True
        return
    o = m.build(dict(SAMPLE[c["model"]]))
    q = m.queries[c["q"] % len(m.queries)]
    X = np.full(c["shape"], -1.5)
    given = tuple(X[..., k] for k in range(X.shape[-1])) if c["tup"] else X
    raises(f"{m.name}.{q.name} of points of shape {X.shape}", REFUSALS, q, o, given)


SAMPLE = {n: {} for n in NAMES}
_one = {"sigma": 0.5, "rho": 2.0, "mu": MU0, "mu_air": MU0, "epsilon": EPS0, "any": 1.5, "pos": 1.0, "loc": [0.0, 0.0, 0.0], "loc_surface": [0.0, 0.0, 0.0], "loc_below": [0.0, 0.0, -0.5], "loc_above": [0.0, 0.0, 0.5],
        "orient": "Z", "orient_h": "X", "bool": False, "vec": [1.0, 0.0, 0.0], "frequency": 100.0, "time": 1e-3, "nodes": [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0]], "corner_lo": [-1.0, -1.0, -1.0], "corner_hi": [1.0, 1.0, 1.0],
        "thickness": [1.0], "layers": [0.5, 0.1]}
for _n in NAMES:
    SAMPLE[_n] = {k: _one[v] for k, v in MODELS[_n].params.items()}

# --------------------------------------------------------------------------------- defaults
DEFAULTS = {
    "sigma": 1.0, "mu": MU0, "epsilon": EPS0, "current": 1.0, "moment": 1.0, "length": 1.0, "mass": 1.0, "amplitude": 1.0, "quasistatic": False, "location": [0.0, 0.0, 0.0], "orientation": [1.0, 0.0, 0.0],
    "primary_field": [1.0, 0.0, 0.0], "magnetization": [0.0, 0.0, 1.0], "location_a": [-1.0, 0.0, 0.0], "location_b": [1.0, 0.0, 0.0], "rho": 1.0, "radius": math.sqrt(1 / math.pi)}


@facet(FACETS, st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), MODELS[n].strategy())).map(lambda t: dict(model=t[0], params=t[1])), 400)
def defaults(c, ctx):
    """Parameters that are not given have their documented defaults, whatever the required ones are."""
    m = MODELS[c["model"]]
    o = m.cls(**m.fixed, **{k: conv(v) for k, v in c["params"].items() if k in m.required})
    for k in m.params:
        if k in m.required:
            continue
        want = DEFAULTS[k]
        if m.name == "FDLayered" and k in ("sigma", "mu", "epsilon"):
            want = np.full(2, want, complex)
        got = getattr(o, k)
        if isinstance(want, bool):
            truth(f"{m.name}.{k} by default", bool(got) == want)
        else:
            close(f"{m.name}.{k} by default", got, want, rtol=1e-9)
    full = m.build(c["params"])
    for k, v in c["params"].items():
        if k == "quasistatic":
            truth("quasistatic", bool(full.quasistatic) == v)


# order of the positional arguments of the constructors
POSITIONAL = {"PointMass": "mass location", "Sphere": "radius rho location", "Prism": "min_location max_location rho", "MagneticPrism": "min_location max_location magnetization", "StaticMagneticDipole": "sigma mu epsilon",
              "MagneticPole": "sigma mu epsilon", "CircularLoop": "radius current", "LineCurrentWholeSpace": "nodes current", "LineCurrentFreeSpace": "nodes current", "PointCurrentWholeSpace": "rho current location",
              "PointCurrentHalfSpace": "rho current location", "DipoleHalfSpace": "rho location_a location_b current", "ElectrostaticSphere": "radius sigma_sphere sigma_background primary_field location",
              "MagnetostaticSphere": "radius mu_sphere mu_background primary_field location", "FDElectricDipole": "frequency quasistatic", "FDMagneticDipole": "frequency quasistatic", "FDPlaneWave": "amplitude orientation",
              "FDHalfSpace": "frequency", "FDLayered": "frequency thickness", "TDElectricDipole": "time", "TDPlaneWave": "amplitude orientation", "TDHalfSpace": "time"}


@facet(FACETS, st.sampled_from(NAMES).flatmap(lambda n: st.tuples(st.just(n), MODELS[n].strategy(), st.integers(1, 5))).map(lambda t: dict(model=t[0], params=t[1], n=t[2])), 400)
def positional(c, ctx):
    """Arguments given by position mean the documented parameters."""
    m = MODELS[c["model"]]
    names = POSITIONAL[m.name].split()[:c["n"]]
    o = m.cls(*[conv(c["params"][k]) for k in names], **m.fixed, **{k: conv(v) for k, v in c["params"].items() if k not in names})
    full = m.build(c["params"])
    for k in m.params:
        a, b = getattr(o, k), getattr(full, k)
        truth(f"{m.name}.{k} given by position", np.array_equal(np.asarray(a), np.asarray(b)), f"{a!r} instead of {b!r}")


_W = dict(mu=MU0)
_LOOP = dict(sigma=1.0, mu=MU0, radius=1.0, current=1.0, turns=1)
_DIP = dict(sigma=1.0, mu=MU0, moment=1.0)
_O = [0.0, 0.0, 0.0]
# name -> (function, required arguments, optional arguments in order with the documented defaults)
FUNCTIONS = {
    **{"fdem." + n: (getattr(fdem, n), ["frequency", "sigma"], d) for n, d in (("sigma_hat", dict(epsilon=EPS0, quasistatic=False)), ("wavenumber", dict(mu=MU0, epsilon=EPS0, quasistatic=False)),
                                                                               ("skin_depth", dict(mu=MU0, epsilon=EPS0, quasistatic=True)))},
    "fdem.vertical_magnetic_field_horizontal_loop": (fdem.vertical_magnetic_field_horizontal_loop, ["frequency"], dict(_LOOP, secondary=True)),
    "fdem.vertical_magnetic_flux_horizontal_loop": (fdem.vertical_magnetic_flux_horizontal_loop, ["frequency", "sigma"], dict(mu=MU0, radius=1.0, current=1.0, turns=1, secondary=True)),
    **{"tdem." + n: (getattr(tdem, n), [a, "sigma"], _W) for n, a in (("peak_time", "z"), ("diffusion_distance", "time"), ("theta", "time"))},
    **{"tdem." + n: (getattr(tdem, n), ["time"], _LOOP) for n in ("vertical_magnetic_field_horizontal_loop", "vertical_magnetic_flux_horizontal_loop", "vertical_magnetic_field_time_deriv_horizontal_loop",
                                                                  "vertical_magnetic_flux_time_deriv_horizontal_loop")},
    **{"tdem." + n: (getattr(tdem, n), ["time", "xy"], _DIP) for n in ("magnetic_field_vertical_magnetic_dipole", "magnetic_field_time_deriv_magnetic_dipole", "magnetic_flux_vertical_magnetic_dipole",
                                                                      "magnetic_flux_time_deriv_magnetic_dipole")},
    **{"spatial." + n: (getattr(spatial, n), ["xyz"], dict(origin=_O)) for n in ("vector_distance", "distance")},
    "spatial.rotate_points_from_normals": (spatial.rotate_points_from_normals, ["xyz", "n0", "n1"], dict(x0=_O)),
    "spatial.rotation_matrix_from_normals": (spatial.rotation_matrix_from_normals, ["n0", "n1"], dict(tol=1e-20, as_matrix=True)),
    "spatial.repeat_scalar": (spatial.repeat_scalar, ["values"], dict(dim=3)),
    "utils.mkvc": (utils.mkvc, ["xyz"], dict(n_dims=1)), "utils.check_xyz_dim": (utils.check_xyz_dim, ["xyz"], dict(dim=3, dtype=float)),
}
_ARG = {"frequency": gen.logf(1.0, 1e5), "time": gen.logf(1e-6, 1e-3), "z": gen.logf(0.1, 100), "sigma": gen.logf(0.01, 10), "mu": gen.logf(1.001, 5).map(lambda v: v * MU0), "epsilon": gen.logf(1.0, 80).map(lambda v: v * EPS0),
        "quasistatic": st.booleans(), "secondary": st.booleans(), "radius": gen.logf(0.5, 20), "current": gen.nz_strength(), "moment": gen.nz_strength(), "turns": st.integers(1, 9), "xy": gen.vec(gen.uni(1, 4), 2).map(lambda v: [v]),
        "xyz": gen.points(3.0, 2, 3), "origin": gen.vec(gen.unit_coord()), "x0": gen.vec(gen.unit_coord()), "n0": gen.nonzero_vec().map(lambda v: gen.unit(v).tolist()), "n1": gen.nonzero_vec().map(lambda v: gen.unit(v).tolist()),
        "values": st.lists(gen.unit_coord(), min_size=2, max_size=3), "dim": st.just(3), "n_dims": st.integers(1, 3), "tol": st.just(1e-20), "as_matrix": st.just(True), "dtype": st.just(None)}
# functions whose parameters are named differently from the table's
_NAME = {"frequency": "frequencies"}


@st.composite
def calls(draw):
    n = draw(st.sampled_from(sorted(FUNCTIONS)))
    f, req, opt = FUNCTIONS[n]
    return dict(fn=n, req=[draw(_ARG[k]) for k in req], given={k: draw(_ARG[k]) for k in opt if draw(st.booleans())}, pos=draw(st.integers(0, 6)))


@facet(FACETS, calls(), 2000)
def function_defaults(c, ctx):
    """Functions: optional arguments left out have their documented defaults; by position they mean the same as by name."""
    f, req, opt = FUNCTIONS[c["fn"]]
    ctx.label(c["fn"])
    args = [conv(v) for v in c["req"]]
    full = {k: conv(c["given"][k] if c["given"].get(k) is not None else v) for k, v in opt.items()}
    want = np.asarray(f(*args, **full))
    got = np.asarray(f(*args, **{k: full[k] for k in c["given"]}))
    check_shape(f"{c['fn']} with defaults", got, want.shape)
    close(f"{c['fn']}: {[k for k in opt if k not in c['given']]} left out", got, want, rtol=1e-9, atol=1e-12 * np.abs(want).max())
    # a leading part of the optional arguments by position
    k = min(c["pos"], len(opt))
    names = list(opt)
    got = np.asarray(f(*args, *[full[n] for n in names[:k]], **{n: full[n] for n in names[k:]}))
    close(f"{c['fn']}: {names[:k]} by position", got, want, rtol=1e-9, atol=1e-12 * np.abs(want).max())


OKSAR_ORDER = "O U V center depth_top depth_bottom strike dip rake slip length beta mu shape".split()
OKSAR_DEFAULTS = dict(depth_bottom=1e4, strike=0.0, dip=45.0, rake=90.0, slip=0.5, length=1e4, beta=3e10, mu=3e10, shape=[300, 300])


# ------------------------------------------------------------------------------- earthquakes
F_OK = {"O": gen.vec(gen.unit_coord(), 2), "U": gen.vec(gen.unit_coord(), 2), "V": gen.vec(gen.unit_coord(), 2), "center": gen.vec(gen.unit_coord(), 2), "depth_top": gen.uni(0, 9e3), "depth_bottom": gen.uni(1e4, 2e4),
        "strike": st.one_of(st.sampled_from([0.0, 360.0]), gen.uni(0, 360)), "dip": st.one_of(st.sampled_from([0.0, 90.0]), gen.uni(0, 90)), "rake": st.one_of(st.sampled_from([-180.0, 180.0]), gen.uni(-180, 180)),
        "slip": gen.uni(0, 5), "length": gen.uni(0, 1e5), "beta": gen.logf(1e9, 1e11), "mu": gen.logf(1e9, 1e11), "shape": st.tuples(st.integers(1, 9), st.integers(1, 9)).map(list)}
_TEXT = ["plain", "abc"]


def _out(lo, hi):
    opts = []
    if lo is not None:
        opts.append(gen.logf(1e-6, 1e4).map(lambda d: ["plain", lo - d]))
    if hi is not None:
        opts.append(gen.logf(1e-6, 1e4).map(lambda d: ["plain", hi + d]))
    return st.one_of(*opts, st.sampled_from([["obj", "text"], ["obj", "list"], ["obj", "dict"], ["obj", "object"]]))


_2d = st.one_of(st.tuples(st.just("shape"), st.sampled_from([[1], [3], [2, 2], [0], []]), st.just(1.0), st.sampled_from(["array", "list"])).map(list), st.sampled_from([["obj", "text"], ["obj", "dict"], ["obj", "words"]]))
_ints = st.one_of(st.tuples(st.just("shape"), st.sampled_from([[1], [3], [0]]), st.just(2), st.sampled_from(["array", "list"])).map(list), st.sampled_from([["obj", "text"], ["obj", "object"], ["obj", "words"], ["plain", 3]]))
F_BAD = {"O": _2d, "U": _2d, "V": _2d, "center": _2d, "depth_top": _out(0, None), "depth_bottom": _out(4999.0, None), "strike": _out(0, 360), "dip": _out(0, 90), "rake": _out(-180, 180), "slip": _out(0, None), "length": _out(0, None),
         "beta": st.sampled_from([["obj", "text"], ["obj", "list"], ["obj", "dict"]]), "mu": st.sampled_from([["obj", "text"], ["obj", "list"], ["obj", "dict"]]), "shape": _ints}
_base = dict(O=[0.0, 0.0], U=[1.0, 0.0], V=[0.0, 1.0], center=[0.0, 0.0], depth_top=5000.0)


@st.composite
def fault_values(draw):
    k = draw(st.sampled_from(sorted(F_OK)))
    return dict(name=k, ok=draw(F_OK[k]), bad=draw(F_BAD[k]), vf=draw(st.sampled_from(["array", "list", "tuple"])), sf=draw(st.sampled_from(["float", "np", "0d", "int"])))


@facet(FACETS, fault_values(), 900)
def faults(c, ctx):
    """Parameters of the fault model: read back by constructor and assignment, refused outside of their ranges."""
    k = c["name"]
    ctx.label(k)
    given = (vector(c["ok"], c["vf"]) if k != "shape" else list(c["ok"])) if isinstance(c["ok"], list) else scalar(c["ok"], c["sf"])
    want = c["ok"]
    o = oksar.Oksar(**dict(_base, **{k: given}))
    close(f"Oksar({k}={given!r})", getattr(o, k), want, rtol=1e-14)
    if np.ndim(want) == 0:
        truth(f"Oksar({k}={given!r}): a number", isinstance(getattr(o, k), float), f"{type(getattr(o, k))}")
    o = oksar.Oksar(**_base)
    setattr(o, k, given)
    close(f"Oksar.{k} = {given!r}", getattr(o, k), want, rtol=1e-14)
    for d, v in OKSAR_DEFAULTS.items():
        if d != k:
            close(f"Oksar.{d} by default", getattr(oksar.Oksar(**dict(_base, **({k: given} if k not in ("depth_top", "depth_bottom") else {}))), d), v, rtol=1e-14)
    full = dict(dict(OKSAR_DEFAULTS, **_base), **{k: given})
    o = oksar.Oksar(*[full[n] for n in OKSAR_ORDER])
    for n in OKSAR_ORDER:
        close(f"Oksar.{n} by position", getattr(o, n), want if n == k else full[n], rtol=1e-14)
    bad = make(c["bad"])
    o = oksar.Oksar(**_base)
    raises(f"Oksar.{k} = {bad!r}", REFUSALS, setattr, o, k, bad)
    raises(f"Oksar({k}={bad!r})", REFUSALS, oksar.Oksar, **dict(_base, **{k: bad}))


I_NUM = ["ref_incidence", "satellite_azimuth", "satellite_altitude", "scaling", "satellite_fringe_interval", "local_earth_radius", "local_rigidity"]
I_VEC = ["location", "pixel_size", "ref"]
I_TEXT = ["title", "processed_by", "description", "event_country", "event_name", "copyright", "data_source", "satellite_name", "event_gcmt_id"]
I_DATE = ["date1", "date2", "processed_date", "event_date"]
_ibase = dict(data=np.arange(6.0), title="t", location=[5e5, 4e6], location_UTM_zone=11, shape=[3, 2], pixel_size=[1.0, 2.0], ref=[5e5, 4e6], ref_incidence=21.0, satellite_azimuth=192.0, satellite_altitude=7.8e5, processed_by="p")


@st.composite
def interferogram_values(draw):
    k = draw(st.sampled_from(I_NUM + I_VEC + I_TEXT + I_DATE + ["data", "location_UTM_zone", "shape"]))
    if k in I_NUM:
        ok, bad = draw(gen.signed(gen.logf(1e-3, 1e6))), draw(st.sampled_from([["obj", "text"], ["obj", "list"], ["obj", "dict"], ["obj", "None"]]))
    elif k in I_VEC:
        ok, bad = draw(gen.vec(gen.unit_coord(), 2)), draw(_2d)
    elif k in I_TEXT:
        ok, bad = draw(st.text(max_size=8)), None
    elif k in I_DATE:
        d = draw(st.datetimes(datetime.datetime(1000, 1, 1), datetime.datetime(2999, 12, 31))).replace(microsecond=0)
        ok = [d.year, d.month, d.day, d.hour, d.minute, d.second, draw(st.sampled_from(["datetime", "day", "second", "slash"]))]
        bad = draw(st.sampled_from([["obj", "text"], ["obj", "None"], ["obj", "dict"], ["plain", 12], ["plain", "2001-13-01"], ["plain", "01/02/2003"], ["plain", "2001-02-30T00:00:00Z"], ["plain", "2001-02-03 04:05:06"]]))
    elif k == "data":
        ok, bad = draw(st.lists(gen.unit_coord(), min_size=1, max_size=6)), draw(st.sampled_from([["obj", "text"], ["obj", "words"], ["obj", "object"], ["obj", "ragged"]]))
    elif k == "shape":
        ok, bad = draw(st.tuples(st.integers(1, 9), st.integers(1, 9)).map(list)), draw(_ints)
    else:
        ok, bad = draw(st.sampled_from([z for z in range(-60, 61) if z])), draw(st.sampled_from([["obj", "text"], ["obj", "list"], ["obj", "None"]]))
    return dict(name=k, ok=ok, bad=bad)


@facet(FACETS, interferogram_values(), 700)
def interferograms(c, ctx):
    """Parameters of the interferogram: read back by constructor and assignment, dates also from text; wrong types and shapes refused."""
    k = c["name"]
    ctx.label(k)
    given = want = c["ok"]
    if k in I_DATE:
        d = datetime.datetime(*c["ok"][:6])
        how = c["ok"][6]
        if how in ("day", "slash"):
            d = d.replace(hour=0, minute=0, second=0)
        given = {"datetime": d, "day": f"{d.year:04d}-{d.month:02d}-{d.day:02d}", "slash": f"{d.year:04d}/{d.month:02d}/{d.day:02d}", "second": f"{d.year:04d}-{d.month:02d}-{d.day:02d}T{d.hour:02d}:{d.minute:02d}:{d.second:02d}Z"}[how]
        want = d
    for o in (oksar.EarthquakeInterferogram(**dict(_ibase, **{k: given})), oksar.EarthquakeInterferogram(**_ibase)):
        setattr(o, k, given)
        got = getattr(o, k)
        if k in I_TEXT or k in I_DATE:
            truth(f"EarthquakeInterferogram.{k}", got == want, f"{got!r} instead of {want!r}")
        else:
            close(f"EarthquakeInterferogram.{k}", got, want, rtol=1e-14)
    for d, v in dict(scaling=1.0, satellite_fringe_interval=0.028333, local_earth_radius=6371000.0, local_rigidity=3e10).items():
        close(f"EarthquakeInterferogram.{d} by default", getattr(oksar.EarthquakeInterferogram(**_ibase), d), v, rtol=1e-14)
    if k in _ibase:  # by position, in the documented order
        full = dict(_ibase, **{k: given})
        o = oksar.EarthquakeInterferogram(*[full[n] for n in "data title location location_UTM_zone shape pixel_size ref ref_incidence satellite_azimuth satellite_altitude processed_by".split()])
        for n in _ibase:
            truth(f"EarthquakeInterferogram.{n} by position", np.all(np.asarray(getattr(o, n)) == np.asarray(want if n == k else full[n])))
    o = oksar.EarthquakeInterferogram(**dict(_ibase, **{k: given}))
    truth(f"EarthquakeInterferogram({k})", np.all(np.asarray(getattr(o, k)) == np.asarray(want)))
    if c["bad"] is not None:
        bad = make(c["bad"])
        raises(f"EarthquakeInterferogram.{k} = {bad!r}", REFUSALS, setattr, o, k, bad)
        raises(f"EarthquakeInterferogram({k}={bad!r})", REFUSALS, oksar.EarthquakeInterferogram, **dict(_ibase, **{k: bad}))
