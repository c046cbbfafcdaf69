"""Registry of every source class: parameters, valid values, queries, safe observation points.

Shared by the checks on packaging (P15), purity (P16), histories (P17), validation (P18) and
symmetries (P19).  Parameter values are plain JSON data.
"""
import math

import numpy as np
from geoana import gravity
from geoana.em import fdem, static, tdem

from . import gen
from .gen import EPS0, MU0, st

# ---------------------------------------------------------------- parameter value strategies
COORD = gen.unit_coord(1.0)
LOC = gen.vec(COORD)


def repeated(elem):
    """Frequencies or times some of which occur twice, in any order."""
    return st.tuples(st.lists(elem, min_size=2, max_size=3), st.lists(st.integers(0, 2), min_size=2, max_size=4)).map(lambda t: [t[0][i % len(t[0])] for i in t[1]])


POS = st.one_of(st.just(1.0), gen.logf(0.2, 5.0))
KIND = {
    "sigma": gen.logf(1e-3, 1e2), "rho": gen.logf(1e-2, 1e3), "mu": gen.mu(), "mu_air": st.one_of(st.just(MU0), gen.logf(1.0, 50.0).map(lambda r: MU0 * r)),
    "epsilon": st.one_of(st.just(EPS0), gen.logf(1.0, 81.0).map(lambda r: EPS0 * r)),
    "any": gen.nz_strength(), "pos": POS, "loc": LOC, "loc_surface": gen.vec(COORD, 2).map(lambda v: v + [0.0]),
    "loc_below": gen.vec(COORD).map(lambda v: [v[0], v[1], -abs(v[2])]), "loc_above": gen.vec(COORD).map(lambda v: [v[0], v[1], abs(v[2])]),
    "orient": gen.orientation(), "orient_h": st.one_of(st.sampled_from(["X", "Y", "x", "y"]), gen.vec(gen.unit_coord(2.0), 2).filter(lambda v: math.hypot(*v) > 0.1).map(lambda v: v + [0.0])),
    "bool": st.booleans(), "vec": gen.nonzero_vec(),
    "frequency": st.one_of(gen.logf(1.0, 1e6), st.lists(gen.logf(1.0, 1e6), min_size=1, max_size=3), repeated(gen.logf(1.0, 1e6))),
    "time": st.one_of(gen.logf(1e-6, 1e-1), st.lists(gen.logf(1e-6, 1e-1), min_size=1, max_size=3), repeated(gen.logf(1e-6, 1e-1))),
    "nodes": gen.wire_nodes(COORD, 2, 5, 0.1),
    "corner_lo": gen.vec(gen.uni(-1, -0.1).map(gen.sig)), "corner_hi": gen.vec(gen.uni(0.1, 1).map(gen.sig)),
    "thickness": st.lists(gen.logf(0.1, 10.0), min_size=1, max_size=1), "layers": st.lists(gen.logf(1e-3, 1e2), min_size=2, max_size=2),
}

# Dimensions of parameters and results in (length, time, current, mass).
DIM = {"sigma": (-3, 3, 2, -1), "rho": (3, -3, -2, 1), "mu": (1, -2, -2, 1), "epsilon": (-3, 4, 2, -1), "length": (1, 0, 0, 0), "frequency": (0, -1, 0, 0),
       "time": (0, 1, 0, 0), "current": (0, 0, 1, 0), "moment": (2, 0, 1, 0), "pole": (1, 0, 1, 0), "mass": (0, 0, 0, 1), "density": (-3, 0, 0, 1), "E": (1, -3, -1, 1), "H": (-1, 0, 1, 0), "none": (0, 0, 0, 0),
       "B": (0, -2, -1, 1), "A": (1, -2, -1, 1), "J": (-2, 0, 1, 0), "V": (2, -3, -1, 1), "F": (1, -3, -1, 1), "gpot": (2, -2, 0, 0), "g": (1, -2, 0, 0), "gg": (0, -2, 0, 0),
       "dHdt": (-1, -1, 1, 0), "dBdt": (0, -3, -1, 1), "HV": (0, 0, 1, 0), "dH": (-2, 0, 1, 0), "area": (2, 0, 0, 0), "Es": (0, -2, -1, 1), "Hs": (-2, 1, 1, 0), "Fe": (0, 0, 0, 0)}


class Query:
    """One thing to ask: fn(obj, points), tensor rank of the result, dimension."""

    def __init__(self, name, rank, dim, kw=None, part=None, method=None, tol=1e-9):
        self.name, self.rank, self.dim, self.kw, self.part = name, rank, dim, dict(kw or {}), part
        self.method = method or name
        self.tol = tol

    def __call__(self, obj, pts):
        out = getattr(obj, self.method)(pts, **self.kw)
        return out


class Model:
    def __init__(self, name, cls, params, queries, points, dims=None, spectral=None, required=(), xy=3, props=(), motion="rigid", linear=None,
                 stack=True, derived=(), fixed=None, near=None):
        self.name, self.cls, self.params, self.queries = name, cls, params, queries
        self.points, self.dims, self.spectral, self.required = points, dims or {}, spectral, required
        self.xy, self.props, self.motion, self.linear, self.stack = xy, props, motion, linear, stack
        self.derived = derived
        self.fixed = fixed or {}

    def strategy(self):
        return st.fixed_dictionaries({k: KIND[v] for k, v in self.params.items()})

    def build(self, p):
        return self.cls(**self.fixed, **{k: conv(v) for k, v in p.items()})

    def pts(self, p, lo=1, hi=4):
        """Strategy of observation points for the drawn parameters."""
        return self.points(p, lo, hi)


def conv(v):
    return np.array(v, float) if isinstance(v, list) else v


# ------------------------------------------------------------------------- safe points
def _dirs():
    return gen.nonzero_vec(1.0, 0.2).map(lambda v: gen.unit(v))


def far(p, lo, hi):
    """Off every source (which lies within about 2.8 of the origin)."""
    one = st.tuples(_dirs(), gen.uni(3.5, 8.0)).map(lambda t: [gen.sig(c * t[1], 9) for c in t[0]])
    return st.lists(one, min_size=lo, max_size=hi)


def around(key, rkey=None):
    def f(p, lo, hi):
        c = p[key]
        r = p[rkey] if rkey else 1.0
        one = st.tuples(_dirs(), st.one_of(st.sampled_from([0.3, 0.7, 1.5, 3.0]), gen.uni(0.05, 0.9), gen.uni(1.1, 5.0))).map(lambda t: [c[k] + r * t[1] * t[0][k] for k in range(3)])
        return st.lists(one, min_size=lo, max_size=hi)
    return f


def dipole_pts(p, lo, hi):
    c = p["location"]
    one = st.tuples(_dirs(), gen.uni(0.3, 6.0)).map(lambda t: [c[k] + t[1] * t[0][k] for k in range(3)])
    return st.lists(one, min_size=lo, max_size=hi)


def loop_pts(p, lo, hi):
    c, a = p["location"], p["radius"]
    m = gen.unit(p["orientation"])
    axis = gen.uni(-2, 2).map(lambda t: [c[k] + a * t * m[k] for k in range(3)])

    def off(t):
        d = np.array(t[0]) * t[1] * a
        return [float(c[k] + d[k]) for k in range(3)]

    def clear(x):
        d = np.array(x) - c
        z = d @ m
        return abs(math.hypot(math.sqrt(max(d @ d - z * z, 0)) - a, z)) > 0.1 * a
    anywhere = st.tuples(_dirs(), gen.uni(0.1, 4)).map(off)
    return st.lists(st.one_of(axis, anywhere, anywhere).filter(clear), min_size=lo, max_size=hi)


def wire_pts(p, lo, hi):
    n = p["nodes"]
    # also on the continuation of a segment
    beyond = st.tuples(st.integers(0, len(n) - 2), gen.uni(4.0, 9.0)).map(
        lambda t: [n[t[0]][k] + (n[t[0] + 1][k] - n[t[0]][k]) / math.dist(n[t[0]], n[t[0] + 1]) * t[1] for k in range(3)])
    return far(p, lo, hi) if lo > 1 and False else st.lists(st.one_of(far(p, 1, 1).map(lambda v: v[0]), beyond), min_size=lo, max_size=hi)


def below_pts(p, lo, hi):
    return far(p, lo, hi).map(lambda L: [[v[0], v[1], -abs(v[2])] for v in L])


def above_pts(p, lo, hi):
    one = st.tuples(gen.uni(0, 2 * math.pi), gen.uni(1.0, 6.0), gen.uni(0, 2)).map(
        lambda t: [p["location"][0] + t[1] * math.cos(t[0]), p["location"][1] + t[1] * math.sin(t[0]), t[2]])
    return st.lists(one, min_size=lo, max_size=hi)


def flat_pts(p, lo, hi):
    one = st.tuples(gen.uni(0, 2 * math.pi), gen.uni(0.5, 6.0)).map(
        lambda t: [p["location"][0] + t[1] * math.cos(t[0]), p["location"][1] + t[1] * math.sin(t[0])])
    return st.lists(one, min_size=lo, max_size=hi)


def prism_pts(p, lo, hi):
    a, b = p["min_location"], p["max_location"]

    def place(t):
        return [a[k] + (b[k] - a[k]) * t[k] for k in range(3)]
    u = st.one_of(st.sampled_from([0.5, 0.25, -0.5, 1.5]), gen.uni(-2, 3)).filter(lambda v: abs(v) > 0.1 and abs(v - 1) > 0.1)
    al = st.tuples(st.sampled_from([0.0, 1.0]), st.one_of(gen.uni(1.5, 3), gen.uni(-2, -0.5)), st.one_of(gen.uni(1.5, 3), gen.uni(-2, -0.5))).map(list)
    return st.lists(st.one_of(gen.vec(u), gen.vec(u), al).map(place), min_size=lo, max_size=hi)


def depth_pts(p, lo, hi):
    one = st.tuples(gen.unit_coord(2.0), gen.unit_coord(2.0), gen.uni(0, 30)).map(lambda t: [t[0], t[1], -t[2]])
    return st.lists(one, min_size=lo, max_size=hi)


# ---------------------------------------------------------------------------- registry
EM = {"sigma": "sigma", "mu": "mu", "epsilon": "epsilon"}
EMD = {"sigma": "sigma", "mu": "mu", "epsilon": "epsilon"}
SPH = [("potential", 0, "V"), ("electric_field", 1, "E"), ("current_density", 1, "J")]
MODELS = {}


def add(*a, **k):
    m = Model(*a, **k)
    MODELS[m.name] = m


add("PointMass", gravity.PointMass, {"mass": "any", "location": "loc"},
    [Query("gravitational_potential", 0, "gpot"), Query("gravitational_field", 1, "g"), Query("gravitational_gradient", 2, "gg")], dipole_pts,
    dims={"mass": "mass", "location": "length"}, linear=["mass"])
add("Sphere", gravity.Sphere, {"radius": "pos", "rho": "any", "location": "loc"},
    [Query("gravitational_potential", 0, "gpot"), Query("gravitational_field", 1, "g"), Query("gravitational_gradient", 2, "gg")], around("location", "radius"),
    dims={"radius": "length", "rho": "density", "location": "length"}, linear=["rho"], required=("radius", "rho"), props=[("mass", "mass")])
add("Prism", gravity.Prism, {"min_location": "corner_lo", "max_location": "corner_hi", "rho": "any"},
    [Query("gravitational_potential", 0, "gpot", tol=1e-8), Query("gravitational_field", 1, "g", tol=1e-8), Query("gravitational_gradient", 2, "gg", tol=1e-8)], prism_pts,
    dims={"min_location": "length", "max_location": "length", "rho": "density"}, linear=["rho"], required=("min_location", "max_location"), motion="box",
    props=[("mass", "mass"), ("volume", None), ("location", "length")])
add("MagneticPrism", static.MagneticPrism, {"min_location": "corner_lo", "max_location": "corner_hi", "magnetization": "vec"},
    [Query("scalar_potential", 0, "HV", tol=1e-8), Query("magnetic_field", 1, "H", tol=1e-8), Query("magnetic_flux_density", 1, "B", tol=1e-8), Query("magnetic_field_gradient", 2, "dH", tol=1e-8)], prism_pts,
    dims={"min_location": "length", "max_location": "length", "magnetization": "H"}, linear=["magnetization"], required=("min_location", "max_location"), motion="box",
    props=[("volume", None), ("location", "length"), ("moment", "moment")])
_coord = [Query("vector_potential", 1, "A"), Query("magnetic_flux_density", 1, "B"), Query("magnetic_field", 1, "H")]
_cyl = [Query(q.name + "[cyl]", None, q.dim, kw={"coordinates": "cylindrical"}, method=q.method) for q in _coord]
add("StaticMagneticDipole", static.MagneticDipoleWholeSpace, {"moment": "any", "location": "loc", "orientation": "orient", **EM}, _coord + _cyl, dipole_pts,
    dims={"moment": "moment", "location": "length", **EMD}, linear=["moment", "orientation"])
add("MagneticPole", static.MagneticPoleWholeSpace, {"moment": "any", "location": "loc", "orientation": "orient", **EM}, _coord[1:] + _cyl[1:], dipole_pts,
    dims={"moment": "pole", "location": "length", **EMD}, linear=["moment"])
add("CircularLoop", static.CircularLoopWholeSpace, {"radius": "pos", "current": "any", "location": "loc", "orientation": "orient", **EM}, _coord + _cyl, loop_pts,
    dims={"radius": "length", "current": "current", "location": "length", **EMD}, linear=["current"])
_line = [Query("scalar_potential", 0, "V"), Query("vector_potential", 1, "A"), Query("electric_field", 1, "E"), Query("current_density", 1, "J"),
         Query("magnetic_field", 1, "H"), Query("magnetic_flux_density", 1, "B")]
add("LineCurrentWholeSpace", static.LineCurrentWholeSpace, {"nodes": "nodes", "current": "any", **EM}, _line, wire_pts,
    dims={"nodes": "length", "current": "current", **EMD}, linear=["current"], required=("nodes",), props=[("n_segments", None)])
add("LineCurrentFreeSpace", static.LineCurrentFreeSpace, {"nodes": "nodes", "current": "any", **EM}, _line, wire_pts,
    dims={"nodes": "length", "current": "current", **EMD}, linear=["current"], required=("nodes",), props=[("n_segments", None)])
_el = [Query("potential", 0, "V"), Query("electric_field", 1, "E"), Query("current_density", 1, "J")]
add("PointCurrentWholeSpace", static.PointCurrentWholeSpace, {"rho": "rho", "current": "any", "location": "loc"}, _el, dipole_pts,
    dims={"rho": "rho", "current": "current", "location": "length"}, linear=["current"], required=("rho",))
add("PointCurrentHalfSpace", static.PointCurrentHalfSpace, {"rho": "rho", "current": "any", "location": "loc_below"}, _el, below_pts,
    dims={"rho": "rho", "current": "current", "location": "length"}, linear=["current"], required=("rho",), motion="flat")
add("DipoleHalfSpace", static.DipoleHalfSpace, {"rho": "rho", "current": "any", "location_a": "loc_below", "location_b": "loc_below"}, _el, below_pts,
    dims={"rho": "rho", "current": "current", "location_a": "length", "location_b": "length"}, linear=["current"], required=("rho",), motion="flat")
add("ElectrostaticSphere", static.ElectrostaticSphere, {"radius": "pos", "sigma_sphere": "sigma", "sigma_background": "sigma", "primary_field": "vec", "location": "loc"},
    [Query(f"{m}[{f}]", r, d, kw={"field": f}, method=m) for m, r, d in SPH for f in ("total", "primary", "secondary")]
    + [Query("charge_density", 0, None, kw={"dr": 0.5})], around("location", "radius"),
    dims={"radius": "length", "sigma_sphere": "sigma", "sigma_background": "sigma", "primary_field": "E", "location": "length"}, linear=["primary_field"],
    required=("radius", "sigma_sphere", "sigma_background"))
add("MagnetostaticSphere", static.MagnetostaticSphere, {"radius": "pos", "mu_sphere": "mu", "mu_background": "mu", "primary_field": "vec", "location": "loc"},
    [Query(f"{m}[{f}]", r, d, kw={"field": f}, method=m) for m, r, d in [("potential", 0, "HV"), ("magnetic_field", 1, "H"), ("magnetic_flux_density", 1, "B")] for f in ("total", "primary", "secondary")],
    around("location", "radius"), dims={"radius": "length", "mu_sphere": "mu", "mu_background": "mu", "primary_field": "H", "location": "length"}, linear=["primary_field"],
    required=("radius", "mu_sphere", "mu_background"))
_f = [Query("vector_potential", 1, "HV"), Query("electric_field", 1, "E"), Query("current_density", 1, "J"), Query("magnetic_field", 1, "H"), Query("magnetic_flux_density", 1, "B")]
_fm = [Query("vector_potential", 1, "Fm"), Query("electric_field", 1, "E"), Query("current_density", 1, "J"), Query("magnetic_field", 1, "H"), Query("magnetic_flux_density", 1, "B")]
DIM["Fm"] = (2, -3, -1, 1)
FD = {"frequency": "frequency", "quasistatic": "bool"}
FPROP = [("omega", "frequency"), ("sigma_hat", "sigma"), ("wavenumber", None), ("skin_depth", None)]
TPROP = [("diffusion_distance", "length"), ("theta", None)]
add("FDElectricDipole", fdem.ElectricDipoleWholeSpace, {**FD, "length": "pos", "current": "any", "location": "loc", "orientation": "orient", **EM}, _f, dipole_pts,
    dims={"frequency": "frequency", "length": "length", "current": "current", "location": "length", **EMD}, spectral="frequency", linear=["current", "length", "orientation"], required=("frequency",), props=FPROP)
add("FDMagneticDipole", fdem.MagneticDipoleWholeSpace, {**FD, "moment": "any", "location": "loc", "orientation": "orient", **EM}, _fm, dipole_pts,
    dims={"frequency": "frequency", "moment": "moment", "location": "length", **EMD}, spectral="frequency", linear=["moment", "orientation"], required=("frequency",), props=FPROP)
add("FDPlaneWave", fdem.HarmonicPlaneWave, {**FD, "amplitude": "any", "orientation": "orient_h", **EM}, _f[1:], depth_pts,
    dims={"frequency": "frequency", "amplitude": "E", **EMD}, spectral="frequency", linear=["amplitude", "orientation"], required=("frequency",), props=FPROP, motion="flat")
add("FDHalfSpace", fdem.MagneticDipoleHalfSpace, {**FD, "moment": "any", "location": "loc_surface", "orientation": "orient", "sigma": "sigma", "epsilon": "epsilon"},
    [Query("magnetic_field", 1, "H"), Query("magnetic_field[total]", 1, "H", kw={"field": "total"}, method="magnetic_field")], flat_pts,
    dims={"frequency": "frequency", "moment": "moment", "location": "length", "sigma": "sigma", "epsilon": "epsilon"}, spectral="frequency", linear=["moment", "orientation"], required=("frequency",), props=FPROP,
    xy=2, motion="flat", stack=False)
add("FDLayered", fdem.MagneticDipoleLayeredHalfSpace, {**FD, "thickness": "thickness", "sigma": "layers", "moment": "any", "location": "loc_above", "orientation": "orient", "mu": "mu_air", "epsilon": "epsilon"},
    [Query("magnetic_field", 1, "H"), Query("magnetic_field[total]", 1, "H", kw={"field": "total"}, method="magnetic_field")], above_pts,
    dims={"frequency": "frequency", "thickness": "length", "sigma": "sigma", "moment": "moment", "location": "length", "mu": "mu", "epsilon": "epsilon"}, spectral="frequency", linear=["moment", "orientation"], required=("frequency", "thickness"),
    motion="flat", stack=False, props=[("omega", "frequency")])
_t = [Query("vector_potential", 1, "HV"), Query("electric_field", 1, "E"), Query("current_density", 1, "J"), Query("magnetic_field", 1, "H"), Query("magnetic_flux_density", 1, "B"),
      Query("magnetic_field_time_deriv", 1, "dHdt"), Query("magnetic_flux_density_time_deriv", 1, "dBdt")]
add("TDElectricDipole", tdem.ElectricDipoleWholeSpace, {"time": "time", "length": "pos", "current": "any", "location": "loc", "orientation": "orient", **EM}, _t, dipole_pts,
    dims={"time": "time", "length": "length", "current": "current", "location": "length", **EMD}, spectral="time", linear=["current", "length", "orientation"], required=("time",), props=TPROP)
add("TDPlaneWave", tdem.TransientPlaneWave, {"time": "time", "amplitude": "any", "orientation": "orient_h", **EM}, _t[1:5], depth_pts,
    dims={"time": "time", "amplitude": "Et", **EMD}, spectral="time", linear=["amplitude", "orientation"], required=("time",), props=TPROP, motion="flat")
DIM["Et"] = (1, -2, -1, 1)
add("TDHalfSpace", tdem.VerticalMagneticDipoleHalfSpace, {"time": "time", "moment": "any", "location": "loc_surface", "sigma": "sigma", "mu": "mu"},
    [Query("magnetic_field", 1, "H", tol=1e-6), Query("magnetic_flux_density", 1, "B", tol=1e-6), Query("magnetic_field_time_derivative", 1, "dHdt", tol=1e-6), Query("magnetic_flux_time_derivative", 1, "dBdt", tol=1e-6)], flat_pts,
    dims={"time": "time", "moment": "moment", "location": "length", "sigma": "sigma", "mu": "mu"}, spectral="time", linear=["moment"], required=("time",), props=TPROP, xy=2, motion="flat")
NAMES = sorted(MODELS)


def spectral_len(m, p):
    """Leading shape due to frequency or time."""
    if not m.spectral:
        return ()
    v = p[m.spectral]
    return (len(v),) if isinstance(v, list) else ()


@st.composite
def situations(draw, names=NAMES, lo=1, hi=4):
    name = draw(st.sampled_from(list(names)))
    m = MODELS[name]
    p = draw(m.strategy())
    return dict(model=name, params=p, pts=draw(m.pts(p, lo, hi)))


def noise(m, q, p, pts):
    """Rounding noise, per time and point, of queries whose closed form cancels (shape time + points)."""
    if m.name == "FDHalfSpace":  # differences of terms of size 1/(k^2 r^5)
        X = np.asarray(pts, float)
        r = np.linalg.norm(X[..., :2] - np.array(p["location"])[:2], axis=-1).min()
        f = np.min(p["frequency"])
        k2 = 2 * np.pi * f * MU0 * p["sigma"]
        return 1e-13 * abs(p["moment"]) * (1 / (k2 * r**5) + 1 / r**3)
    if m.name == "FDLayered":  # the filter's weights alternate
        r = np.linalg.norm(np.asarray(pts, float)[..., :2] - np.array(p["location"])[:2], axis=-1).min()
        return 1e-13 * abs(p["moment"]) / r**3
    if m.name == "DipoleHalfSpace":  # close electrodes
        return 1e-14 * abs(p["current"]) * (1.0 if q.dim == "J" else p["rho"])
    if m.name == "TDElectricDipole":  # late times: erf minus its leading terms
        r = np.linalg.norm(np.asarray(pts, float) - np.array(p["location"]), axis=-1)
        t = np.array(p["time"], float)
        t = t.reshape(t.shape + (1,) * r.ndim)
        u = np.minimum(np.sqrt(p["mu"] * p["sigma"] / (4 * t)) * r, 1.0)
        n = 1e-15 * abs(p["current"]) * p["length"] * u * {"E": 1 / (p["sigma"] * r**3), "J": 1 / r**3, "H": 1 / r**2, "B": p["mu"] / r**2}.get(q.dim, 0.0)
        return n[..., None]
    if m.name != "TDHalfSpace":
        return 0.0
    t = np.array(p["time"], float)
    r = np.linalg.norm(np.asarray(pts, float)[..., :2] - np.array(p["location"])[:2], axis=-1)
    t = t.reshape(t.shape + (1,) * r.ndim)
    th2 = p["mu"] * p["sigma"] / (4 * t)
    if "derivative" in q.name:
        n = 1e-13 * abs(p["moment"]) / (p["mu"] * p["sigma"] * r**5) * 10 * np.ones_like(th2)
    else:
        n = 1e-13 * abs(p["moment"]) / r**3 * (1 + 1 / (th2 * r**2))
    return (n * p["mu"] if "flux" in q.name else n)[..., None]


_STEPS = [np.array([1.0, 2.0, -2.0]) * 0.01, np.array([-2.0, 2.0, 1.0]) * 0.01]


def natural(m, q, o, X):
    """Natural size of an answer at each point: its largest norm at the point and two neighbours (an answer may vanish by symmetry)."""
    r = 1 if q.rank is None else q.rank
    best = 0.0
    for s in [np.zeros(3)] + _STEPS:
        s = s[:X.shape[-1]].copy()
        if m.motion == "flat" and X.shape[-1] == 3:
            s[2] = 0.0
        v = np.nan_to_num(np.abs(np.asarray(q(o, X + s))), nan=0.0, posinf=0.0, neginf=0.0)
        if not m.stack:  # axes of length one are dropped
            v = np.sqrt(np.max(np.sum(np.atleast_2d(v)**2, axis=-1))) if v.size else 0.0
        elif r:
            v = np.sqrt(np.sum(v**2, axis=tuple(range(-r, 0)), keepdims=True))
        best = np.maximum(best, v)
    if "secondary" in q.name and m.stack:
        t = next(x for x in m.queries if x.name == q.name.replace("secondary", "total"))
        best = np.maximum(best, natural(m, t, o, X))
    return best
