"""P17: an object's answers depend only on its current parameters."""
import math

import numpy as np
from geoana.earthquake import oksar
from geoana.em import fdem

from . import clean, gen
from .core import close, facet, fail, truth
from .gen import EPS0, MU0, st
from .models import KIND, MODELS, conv, natural, noise, situations
from .p16 import FAULT, fault_kw, same_as_apart, snap, state
from .p20 import images, plt, scenes
from .values import all_wrong, make, refused

FACETS = []
ASSUMPTIONS = [
    "Reference: a new object built from the parameter values the history leaves behind (a model kept by the check, not read from the object).",
    "Prism corners stay on their side of the origin and the layered model changes its number of layers together with its layer properties, since intermediate states of such changes are not valid objects.",
]


def settable(m):
    return list(m.params) + [k for k in ("mass",) if m.name == "Sphere"] + [k for k in ("rho",) if "sigma" in m.params and m.name not in ("FDLayered",)] + [
        k for k in ("sigma",) if m.name == "PointCurrentWholeSpace"]


def kind_of(m, k):
    if k in m.params:
        return m.params[k]
    return {"mass": "any", "rho": "rho", "sigma": "sigma"}[k]


def apply(m, cur, k, v):
    """Model: what assigning v to k leaves behind."""
    cur = dict(cur)
    if k in m.params:
        cur[k] = v
    elif k == "mass":
        cur["rho"] = v / (4 / 3 * math.pi * cur["radius"]**3)
    elif k == "rho":
        cur["sigma"] = 1 / v
    elif k == "sigma":
        cur["rho"] = 1 / v
    return cur


@st.composite
def ops(draw, m):
    out = []
    for _ in range(draw(st.integers(1, 7))):
        what = draw(st.sampled_from(["set", "set", "set", "nudge", "turn", "turn", "bad", "ask", "check"]))
        if what == "set":
            k = draw(st.sampled_from(settable(m)))
            out.append(["set", k, draw(KIND[kind_of(m, k)])])
        elif what == "nudge":
            out.append(["nudge", draw(st.sampled_from(settable(m))), draw(gen.logf(1e-7, 1e-3)), draw(st.integers(0, 20))])
        elif what == "turn":
            out.append(["turn", draw(st.sampled_from(settable(m))), draw(st.sampled_from(TURNS)), draw(st.integers(1, 3))])
        elif what == "bad":
            ks = [k for k in m.params if refused(m, k) is not None]
            k = draw(st.sampled_from(ks))
            out.append(["bad", k, draw(refused(m, k))])
        elif what == "ask":
            out.append(["ask", draw(st.integers(0, 20))])
        else:
            out.append(["check"])
    return out


def nudged(m, cur, k, e, i):
    """A value a little beside the present one, or None."""
    v = cur.get(k)
    if k == "mass" and v is None:
        v = cur["rho"] * 4 / 3 * math.pi * cur["radius"]**3
    elif v is None:
        v = 1 / cur[{"rho": "sigma", "sigma": "rho"}[k]]
    if isinstance(v, bool):
        return None
    if isinstance(v, str):
        v = gen.unit(v).tolist()
    if not isinstance(v, list):
        return v * (1 + e)
    a = np.array(v, float)
    kind = kind_of(m, k)
    if kind in ("frequency", "time", "layers", "thickness"):
        a.flat[i % a.size] *= 1 + e
    elif a.ndim == 2:
        a[i % len(a), i // 7] += e
    else:
        a[i % (2 if kind.startswith("loc_") or kind == "orient_h" else 3)] += -e if kind == "corner_lo" else e
    return a.tolist()


TURNS = ["zero", "negate", "permute", "double", "repeat", "shorten", "swap", "grow", "shrink"]


def turned(m, cur, k, how, i):
    """A value made from the present one: zero, of opposite sign, reordered, of another size; or None."""
    v, kind = cur.get(k), kind_of(m, k)
    if v is None or isinstance(v, (bool, str)):
        return None
    a = np.array(v, float)
    spectral = kind in ("frequency", "time")
    if how == "zero":
        return [0.0, 0.0, 0.0] if kind in ("loc", "loc_surface", "loc_below", "loc_above", "vec") else 0.0 if kind == "any" or k == "epsilon" and m.name != "FDLayered" else None
    if how == "negate":
        return (-a).tolist() if kind in ("any", "loc", "loc_surface", "vec", "orient", "orient_h", "nodes") else None
    if how == "permute":
        if kind == "orient_h" or kind == "loc_surface":
            return [v[1], v[0], v[2]]
        if kind in ("loc", "vec", "orient", "corner_lo", "corner_hi", "layers", "nodes") or spectral and a.ndim:
            a = np.roll(a, i, axis=0)
            return None if kind == "nodes" and np.any(np.linalg.norm(np.diff(a, axis=0), axis=1) < 0.1) else a.tolist()
        return None
    if how == "double":
        return (2 * a).tolist() if kind in ("any", "pos", "rho", "sigma", "mu", "vec", "orient", "orient_h", "layers", "thickness") or spectral else None
    if how in ("grow", "shrink"):
        return (a * 10.0**((4 * i) * (1 if how == "grow" else -1))).tolist() if kind in ("any", "pos", "rho", "sigma", "vec", "loc", "nodes") or spectral else None
    if how == "repeat":
        return np.resize(a, (i + 1,)).tolist() if spectral else None
    if how == "shorten":
        return a[:1].tolist() if spectral and a.ndim else a[:2].tolist() if kind == "nodes" else float(a) if spectral else None
    return a[::-1].tolist() if kind in ("nodes", "layers") or spectral and a.ndim else None


@st.composite
def histories(draw):
    s = draw(situations(lo=1, hi=3))
    s["ops"] = draw(ops(MODELS[s["model"]]))
    return s


def compare(m, o, cur, X, what):
    fresh = m.build(cur)
    for k in m.params:
        a, b = getattr(o, k), getattr(fresh, k)
        truth(f"{m.name}.{k} {what}: type", type(a) is type(b), f"{type(a)} instead of {type(b)}")
        close(f"{m.name}.{k} {what}", a, b, rtol=1e-14)
    for n, _ in m.props:
        close(f"{m.name}.{n} {what}", np.nan_to_num(getattr(o, n)), np.nan_to_num(getattr(fresh, n)), rtol=1e-12)
    if "sigma" in m.params and m.name != "FDLayered":
        close(f"{m.name}.rho {what}", o.rho, 1 / cur["sigma"], rtol=1e-13)
    for q in m.queries:
        ref = np.asarray(q(fresh, X.copy()))
        got = np.asarray(q(o, X.copy()))
        truth(f"{m.name}.{q.name} {what}: shape", got.shape == ref.shape, f"{got.shape} instead of {ref.shape}")
        ok = np.isfinite(ref)
        truth(f"{m.name}.{q.name} {what}: finite where a new object's answer is", np.array_equal(ok, np.isfinite(got)))
        scale = np.abs(ref[ok]).max() if ok.any() else 0.0
        close(f"{m.name}.{q.name} {what}", np.where(ok, got, 0), np.where(ok, ref, 0), rtol=1e-9, atol=1e-11 * scale + np.max(noise(m, q, cur, X)) + 1e-300)


@facet(FACETS, histories(), 4500)
def objects(c, ctx):
    """Sequences of accepted and refused assignments and queries: parameters, derived values and all answers are those of a new object."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    cur = dict(c["params"])
    o = m.build(cur)
    X = np.array(c["pts"], float)
    for op in c["ops"]:
        ctx.label(op[0])
        if op[0] == "set":
            setattr(o, op[1], conv(op[2]))
            cur = apply(m, cur, op[1], op[2])
        elif op[0] in ("nudge", "turn"):
            v = (nudged if op[0] == "nudge" else turned)(m, cur, *op[1:])
            if v is not None:
                setattr(o, op[1], conv(v))
                cur = apply(m, cur, op[1], v)
        elif op[0] == "bad":
            before = {k: snap(v) for k, v in state(m, o).items()}
            bad = make(op[2])
            try:
                setattr(o, op[1], bad)
            except Exception:
                pass
            else:
                fail(f"{m.name}.{op[1]} accepted {bad!r}")
            for k, v in state(m, o).items():
                truth(f"{m.name}.{k} after refusing {bad!r} for {op[1]}", snap(v) == before[k], f"is {v!r}")
            compare(m, o, cur, X, f"after refusing {bad!r} for {op[1]}")
        elif op[0] == "ask":
            np.asarray(m.queries[op[1] % len(m.queries)](o, X.copy()))
        else:
            compare(m, o, cur, X, "in between")
    compare(m, o, cur, X, "at the end of " + ", ".join(f"{v[0]} {v[1]}" for v in c["ops"] if len(v) > 1))


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(lo=1, hi=2), e=gen.logf(1e-7, 1e-3), i=st.integers(0, 20), ask=st.booleans())), 500)
def small_moves(c, ctx):
    """Every parameter in turn moved by a little, and back: the answers are those of a new object."""
    m = MODELS[c["s"]["model"]]
    ctx.label(m.name)
    p = c["s"]["params"]
    X = np.array(c["s"]["pts"], float)
    o = m.build(p)
    for k in settable(m):
        if c["ask"]:
            for q in m.queries:
                q(o, X.copy())
        v = nudged(m, p, k, c["e"], c["i"])
        if v is None:
            continue
        setattr(o, k, conv(v))
        compare(m, o, apply(m, p, k, v), X, f"after moving {k} by {c['e']}")
        b = {"mass": "rho", "rho": "sigma", "sigma": "rho"}[k] if k not in m.params else k
        setattr(o, b, conv(p[b]))
    compare(m, o, p, X, "after moving everything and back")


@facet(FACETS, st.fixed_dictionaries(dict(s=situations(lo=1, hi=2), i=st.integers(1, 3), ask=st.booleans())), 600)
def turns(c, ctx):
    """Every parameter in turn set to zero, to its opposite, reordered and resized, and back: the answers are those of a new object."""
    m = MODELS[c["s"]["model"]]
    ctx.label(m.name)
    p = c["s"]["params"]
    X = np.array(c["s"]["pts"], float)
    o = m.build(p)
    for k in settable(m):
        for how in TURNS:
            v = turned(m, p, k, how, c["i"])
            if v is None or k not in m.params or v == p[k]:
                continue
            if c["ask"]:
                for q in m.queries:
                    q(o, X.copy())
            setattr(o, k, conv(v))
            compare(m, o, apply(m, p, k, v), X, f"after setting {k} to {v} ({how})")
            setattr(o, k, conv(p[k]))
    compare(m, o, p, X, "after setting everything back")


@st.composite
def one_changed(draw):
    s = draw(situations(lo=1, hi=2))
    m = MODELS[s["model"]]
    e, i = draw(st.sampled_from([1e-7, 1e-6, 1e-5, 1e-4])), draw(st.integers(0, 20))
    hardly = [[k, nudged(m, s["params"], k, e, i)] for k in settable(m)]
    s["new"] = [[k, draw(KIND[kind_of(m, k)])] for k in settable(m)] + [v for v in hardly if v[1] is not None]
    s["turn"] = draw(st.integers(0, 20))
    return s


@facet(FACETS, one_changed(), 500)
@clean.isolated
def apart(c, ctx):
    """Every parameter in turn given another value after queries at the same points: the answers are those of a process that did nothing else."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    p = c["params"]
    X = np.array(c["pts"], float)
    o = m.build(p)
    for q in m.queries:
        q(o, X.copy())
    for k, v in c["new"]:
        for q in m.queries:
            q(o, X.copy())
        setattr(o, k, conv(v))
        same_as_apart(m, o, apply(m, p, k, v), X, c["turn"], f"with {k} = {v}")
        b = {"mass": "rho", "rho": "sigma", "sigma": "rho"}[k] if k not in m.params else k
        setattr(o, b, conv(p[b]))
    same_as_apart(m, o, p, X, c["turn"], "after everything was set back")


@facet(FACETS, all_wrong(), 900)
def refused_all(c, ctx):
    """For every parameter of a class, a refused value leaves every parameter and every answer as they were."""
    m = MODELS[c["model"]]
    ctx.label(m.name)
    o = m.build(c["params"])
    X = np.array([[0.7, -1.1, 0.9], [1.3, 0.4, 0.2]])
    if m.name in ("PointCurrentHalfSpace", "DipoleHalfSpace"):
        X[:, 2] *= -1
    for k, d in c["bad"].items():
        before = {n: snap(v) for n, v in state(m, o).items()}
        bad = make(d)
        try:
            setattr(o, k, bad)
        except Exception:
            pass
        else:
            fail(f"{m.name}.{k} accepted {bad!r}")
        for n, v in state(m, o).items():
            truth(f"{m.name}.{n} after refusing {bad!r} for {k}", snap(v) == before[n], f"is {v!r}")
    compare(m, o, c["params"], X, "after refused assignments")


# ------------------------------------------------------------- rebuilding the layered earth
@st.composite
def earths(draw):
    n = draw(st.integers(0, 3))
    nf = draw(st.integers(1, 3))

    def prop(lo, hi, unit, one):
        per = st.lists(gen.logf(lo, hi).map(lambda v: v * unit), min_size=n + 1, max_size=n + 1)
        opts = [per, st.lists(st.lists(gen.logf(lo, hi).map(lambda v: v * unit), min_size=nf, max_size=nf), min_size=n + 1, max_size=n + 1)]
        if one:
            opts.append(gen.logf(lo, hi).map(lambda v: v * unit))
        return draw(st.one_of(*opts))
    return dict(thickness=draw(st.lists(gen.logf(0.1, 10), min_size=n, max_size=n)), frequency=draw(st.lists(gen.logf(1.0, 1e5), min_size=nf, max_size=nf)),
                sigma=prop(1e-3, 10, 1.0, True), mu=prop(1.001, 3, MU0, True), epsilon=prop(1.001, 5, EPS0, True))


@facet(FACETS, st.fixed_dictionaries(dict(e=st.lists(earths(), min_size=2, max_size=4), ask=st.lists(st.booleans(), min_size=4, max_size=4), h=gen.uni(0, 2), o=gen.orientation(), xy=gen.vec(gen.uni(1, 5), 2), q=st.booleans())), 300)
def layered(c, ctx):
    """The layered earth, re-parameterised several times, answers as one built directly."""
    X = np.array([c["xy"] + [0.5], c["xy"][::-1] + [0.0]])

    def new(e):
        return fdem.MagneticDipoleLayeredHalfSpace(frequency=conv(e["frequency"]), thickness=conv(e["thickness"]), sigma=conv(e["sigma"]), mu=conv(e["mu"]), epsilon=conv(e["epsilon"]),
                                                   location=[0.0, 0.0, c["h"]], orientation=conv(c["o"]), quasistatic=c["q"])
    o = new(c["e"][0])
    for e, a in zip(c["e"][1:], c["ask"]):
        if a:
            o.magnetic_field(X.copy())
        for k in ("thickness", "frequency", "sigma", "mu", "epsilon"):
            setattr(o, k, conv(e[k]))
    f = new(c["e"][-1])
    for k in ("thickness", "frequency", "sigma", "mu", "epsilon"):
        close(f"layered {k}", getattr(o, k), getattr(f, k), rtol=1e-15)
    for field in ("secondary", "total"):
        a, b = o.magnetic_field(X.copy(), field=field), f.magnetic_field(X.copy(), field=field)
        close(f"layered {field} field", a, b, rtol=1e-9, atol=1e-11 * np.abs(b).max())
    close("sigma_hat", o.sigma_hat, f.sigma_hat, rtol=1e-13) if len(c["e"][-1]["frequency"]) == 1 or len(c["e"][-1]["frequency"]) == len(c["e"][-1]["thickness"]) + 1 else None
    ctx.label(f"{len(c['e'][-1]['thickness']) + 1} layers")


# ------------------------------------------------------------------------------ earthquake
FAULT_SET = {"strike": gen.uni(0, 360), "dip": gen.uni(5, 85), "rake": gen.uni(-180, 180), "slip": gen.uni(0.1, 3), "length": gen.logf(1e3, 2e4), "depth_top": gen.logf(10, 99.0),
             "depth_bottom": gen.logf(1.2e4, 2e4), "center": gen.vec(gen.uni(-1e4, 1e4), 2), "O": gen.vec(gen.uni(-3e4, -1e4), 2), "shape": st.tuples(st.integers(2, 5), st.integers(2, 5)).map(list)}
FAULT_BAD = {"strike": [-1.0, 361.0, "abc", None], "dip": [-1.0, 91.0, "abc"], "rake": [-181.0, 181.0, "abc"], "slip": [-0.1, "abc"], "length": [-1.0, "abc"], "depth_top": [-1.0, "abc"],
             "depth_bottom": [1.0, -5.0, "abc"], "center": [[1.0], [1.0, 2.0, 3.0], "abc", ["a", "b"]], "O": [[1.0], [1.0, 2.0, 3.0], "abc", ["a", "b"]], "U": [[1.0], "abc", ["a", "b"]], "V": [[1.0, 2.0, 3.0], "abc", ["a", "b"]],
             "shape": [[5], [5, 5, 5], "abc", ["a", "b"]]}


@st.composite
def fault_ops(draw):
    out = []
    for _ in range(draw(st.integers(1, 6))):
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.sampled_from(sorted(FAULT_BAD)))
            out.append(["bad", k, draw(st.sampled_from(FAULT_BAD[k]))])
        elif draw(st.booleans()):
            out.append(["ask"])
        else:
            k = draw(st.sampled_from(sorted(FAULT_SET)))
            out.append(["set", k, draw(FAULT_SET[k])])
    return out


@facet(FACETS, st.fixed_dictionaries(dict(a=FAULT, ops=fault_ops())), 160)
def faults(c, ctx):
    """A fault model after assignments, refused assignments and queries equals a new one."""
    kw = fault_kw(c["a"])
    o = oksar.Oksar(**kw)
    for op in c["ops"]:
        ctx.label(op[0])
        if op[0] == "ask":
            np.asarray(o.displacement_vector)
        elif op[0] == "set":
            if op[1] == "depth_bottom" and op[2] < o.depth_top:
                continue
            v = conv(op[2]) if op[1] != "shape" else op[2]
            setattr(o, op[1], v)
            kw[op[1]] = v
        else:
            before = {k: snap(getattr(o, k)) for k in kw}
            if op[1] == "depth_bottom" and not isinstance(op[2], str) and op[2] >= kw["depth_top"]:
                continue
            try:
                setattr(o, op[1], op[2])
            except Exception:
                pass
            else:
                fail(f"Oksar.{op[1]} accepted {op[2]!r}")
            for k in kw:
                truth(f"Oksar.{k} after refusing {op[2]!r} for {op[1]}", snap(getattr(o, k)) == before[k])
    f = oksar.Oksar(**kw)
    for k in kw:
        close(f"Oksar.{k}", getattr(o, k), getattr(f, k), rtol=1e-15)
    close("grid", np.array(o.simulation_grid), np.array(f.simulation_grid), rtol=1e-13)
    a, b = np.array(o.displacement_vector), np.array(f.displacement_vector)
    close("displacement", a, b, rtol=1e-9, atol=1e-11 * np.abs(b).max())


PICTURE_BAD = {"location": [[1.0], [1.0, 2.0, 3.0], "abc", ["a", "b"]], "location_UTM_zone": ["abc", None], "shape": [[5], [5, 5, 5], "abc", ["a", "b"]], "pixel_size": [[1.0], [1.0, 2.0, 3.0], "abc", ["a", "b"]],
               "ref": [[1.0], [1.0, 2.0, 3.0], "abc", ["a", "b"]], "ref_incidence": ["abc", None], "scaling": ["abc", None], "satellite_fringe_interval": ["abc", None], "satellite_azimuth": ["abc", None],
               "satellite_altitude": ["abc", None], "local_earth_radius": ["abc", None], "local_rigidity": ["abc", None], "data": ["abc", [[1.0], [1.0, 2.0]]]}


@facet(FACETS, st.fixed_dictionaries(dict(a=FAULT, s=scenes(), i=images())), 30)
def faults_refused(c, ctx):
    """Every refused value of every parameter of a fault model and of an interferogram leaves all parameters as they were."""
    kw = fault_kw(c["a"])
    pic = picture_kw(c["s"], c["i"])
    for o, names, bads in ((oksar.Oksar(**kw), list(kw), FAULT_BAD), (oksar.EarthquakeInterferogram(**pic), list(pic) + ["local_rigidity"], PICTURE_BAD)):
        what = type(o).__name__
        before = {k: snap(getattr(o, k)) for k in names}
        for k, values in bads.items():
            for v in values:
                if k == "depth_bottom" and not isinstance(v, str) and v >= kw["depth_top"]:
                    continue
                try:
                    setattr(o, k, v)
                except Exception:
                    pass
                else:
                    fail(f"{what}.{k} accepted {v!r}")
                for n in names:
                    truth(f"{what}.{n} after refusing {v!r} for {k}", snap(getattr(o, n)) == before[n], f"is {getattr(o, n)!r}")


def fault_answer(kw):
    o = oksar.Oksar(**kw)
    return [np.array(o.simulation_grid), np.array(o.displacement_vector)]


@facet(FACETS, st.fixed_dictionaries(dict(a=FAULT, new=st.fixed_dictionaries(FAULT_SET))), 60)
@clean.isolated
def faults_apart(c, ctx):
    """Every parameter of a fault model in turn given another value after queries: the answers are those of a process that did nothing else."""
    kw = fault_kw(c["a"])
    o = oksar.Oksar(**kw)
    np.array(o.displacement_vector)
    for k, v in c["new"].items():
        if k == "depth_bottom" and v < kw["depth_top"] or k == "depth_top" and v > kw["depth_bottom"]:
            continue
        ctx.label(k)
        v = conv(v) if k != "shape" else v
        setattr(o, k, v)
        ok, ref = clean.call("pbt.p17", "fault_answer", dict(kw, **{k: v}))
        truth(f"Oksar with {k} = {v}: a process of its own answers", ok, ref)
        close(f"grid with {k} = {v}", np.array(o.simulation_grid), ref[0], rtol=1e-13)
        close(f"displacement with {k} = {v}", np.array(o.displacement_vector), ref[1], rtol=1e-9, atol=1e-11 * np.abs(ref[1]).max())
        setattr(o, k, kw[k])


# --------------------------------------------------------------------------- interferograms
def picture_kw(s, i):
    return dict(data=np.array(i["data"]), title=i["title"], location=i["location"], location_UTM_zone=s["zone"], shape=i["shape"], pixel_size=i["pixel"], ref=s["ref"], ref_incidence=s["inc"],
                satellite_azimuth=s["az"], satellite_altitude=s["alt"], processed_by="me", scaling=i["scaling"], satellite_fringe_interval=i["fringe"], local_earth_radius=s["radius"])


def sights(o):
    return [np.array(o.get_LOS_vector([[o.ref[0] + 3e3, o.ref[1] - 2e3], [o.ref[0], o.ref[1] + 7e3]]))]


def pictures(o):
    """Lines of sight and both pictures of an interferogram."""
    out = sights(o)
    for draw, kw in ((o.plot_interferogram, {}), (o.plot_interferogram, dict(wrap=False)), (o.plot_mask, {})):
        try:
            plt.close("all")
            mesh = draw(**kw)
            out += [np.array(mesh.get_coordinates()), np.ma.getmaskarray(np.ma.asarray(mesh.get_array())).ravel(), np.ma.filled(np.ma.asarray(mesh.get_array(), float), 0.0).ravel(),
                    np.array(mesh.get_clim(), float) if kw else np.zeros(2), (mesh.axes.get_title(), mesh.axes.get_xlabel())]
        finally:
            plt.close("all")
    return out


def picture_answer(kw, what):
    return {"sights": sights, "pictures": pictures}[what](oksar.EarthquakeInterferogram(**kw))


def same_picture(o, kw, what, when):
    ok, ref = clean.call("pbt.p17", "picture_answer", kw, what)
    truth(f"interferogram {when}: a process of its own answers", ok, ref)
    for n, (a, b) in enumerate(zip({"sights": sights, "pictures": pictures}[what](o), ref)):
        if isinstance(b, tuple):
            truth(f"interferogram {when}: texts", a == b, f"{a} instead of {b}")
        else:
            close(f"interferogram {when}: {what} {n}", a, b, rtol=1e-12, atol=1e-15 + 1e-12 * np.abs(b).max())


@facet(FACETS, st.fixed_dictionaries(dict(s=st.tuples(scenes(), scenes()).map(list), i=st.tuples(images(), images()).map(list), order=st.permutations(list(range(14))).map(list),
                                          draw=st.integers(0, 13))), 60)
@clean.isolated
def interferograms(c, ctx):
    """An interferogram whose parameters are replaced one by one, with questions in between, shows and sees what a new one does in a process of its own."""
    kw, new = picture_kw(c["s"][0], c["i"][0]), picture_kw(c["s"][1], c["i"][1])
    o = oksar.EarthquakeInterferogram(**kw)
    pictures(o)
    names = list(kw)
    for n, k in enumerate(names[j] for j in c["order"]):
        for k in (("data", "shape") if k in ("data", "shape") else (k,)):
            setattr(o, k, new[k])
            kw[k] = new[k]
        if n == c["draw"]:
            same_picture(o, kw, "pictures", f"with another {k}")
        else:
            same_picture(o, kw, "sights", f"with another {k}")
    same_picture(o, kw, "pictures", "with all parameters replaced")
    for k in kw:
        a, b = getattr(o, k), getattr(oksar.EarthquakeInterferogram(**kw), k)
        truth(f"interferogram.{k} after queries", snap(a) == snap(b), f"{a!r} instead of {b!r}")
