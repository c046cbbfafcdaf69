"""Parameter values in many representations: accepted ones with what they read back as, and refused ones."""
import decimal
import fractions

import numpy as np

from . import gen
from .gen import EPS0, MU0, st

# ------------------------------------------------------------------------------ refused
SCALAR_FORMS = ["float", "np", "0d", "f32", "int", "Decimal", "Fraction"]


def scalar(v, form):
    """The number v in another container (exactly representable where needed)."""
    if form == "np":
        return np.float64(v)
    if form == "0d":
        return np.array(v)
    if form == "f32":
        return np.float32(v)
    if form == "int":
        return int(v) if float(v).is_integer() else v
    if form == "Decimal":
        return decimal.Decimal(repr(float(v)))
    if form == "Fraction":
        return fractions.Fraction(v)
    return v


def number(v):
    """The value scalar(v, form) stands for, for forms that round."""
    return float(v)


OBJECTS = {"text": "abc", "None": None, "list": [1.0, 2.0], "dict": {}, "tuple": (1.0, 2.0), "complex": 1 + 2j, "array": np.array([1.0, 2.0]), "object": object(), "type": float, "nested": [[1.0]]}
NOT_NUMBERS = list(OBJECTS)
SHAPES = [(0,), (1,), (2,), (4,), (6,), (3, 3), (2, 3), (3, 2), (2, 2, 2), (1, 1), (1, 4), (4, 1), ()]


def neg():
    return gen.logf(1e-12, 1e6).map(lambda v: -v)


def _num(values):
    return st.tuples(st.just("num"), values, st.sampled_from(SCALAR_FORMS)).map(list)


def _obj(names=NOT_NUMBERS):
    return st.sampled_from(list(names)).map(lambda n: ["obj", n])


def _shape(shapes=SHAPES, fill=-1.0):
    return st.tuples(st.just("shape"), st.sampled_from([list(s) for s in shapes]), st.just(fill), st.sampled_from(["array", "list"])).map(list)


def _vecobj():
    return st.sampled_from(["text", "dict", "object", "type", "words", "ragged"]).map(lambda n: ["obj", n])


def _seq(values, lo=1, hi=4):
    """A list of acceptable numbers with a refused one at any position."""
    return st.tuples(st.just("seq"), st.lists(gen.logf(1.0, 1e3), min_size=0, max_size=hi), st.integers(0, hi), values, st.sampled_from(["array", "list", "tuple"])).map(list)


def make(d):
    """Python object of a description."""
    if d[0] == "num":
        return scalar(d[1], d[2])
    if d[0] == "obj":
        return {"words": ["a", "b", "c"], "ragged": [[1.0, 2.0], [3.0]], **OBJECTS}[d[1]]
    if d[0] == "shape":
        a = np.full(d[1], d[2])
        return a if d[3] == "array" else a.tolist()
    if d[0] == "seq":
        v = list(d[1])
        v.insert(min(d[2], len(v)), d[3])
        return {"array": np.array, "list": list, "tuple": tuple}[d[4]](v)
    if d[0] == "plain":
        return d[1]
    if d[0] == "arr":
        return np.array(d[1], float)
    if d[0] == "cplx":
        return np.array([complex(*v) for v in d[1]])
    if d[0] == "one":  # complex layer properties, one of them wrong
        a = np.array([complex(*v) for v in d[2]])
        a = a[:2] if d[1] == 0 else np.resize(a, (2, d[1]))
        a.flat[d[3] % a.size] = complex(*d[4])
        return a if d[5] else a.tolist()
    raise KeyError(d)


_nonpos = st.one_of(st.just(0.0), st.just(-1.0), neg())
_loc = st.one_of(_shape(), _vecobj())
_freq = st.one_of(_num(st.one_of(st.just(-1.0), neg())), _seq(neg()), st.sampled_from(["text", "dict", "object", "type", "words", "ragged"]).map(lambda n: ["obj", n]),
                  _shape([(2, 2), (1, 1), (3, 1), (1, 3), (2, 1, 2)], 1.0))


def _one(unit, least):
    """Layer properties per layer or per layer and frequency with one entry of a negative imaginary or too small real part."""
    good = st.tuples(gen.logf(1.01, 5).map(lambda v: v * unit), st.one_of(st.just(0.0), gen.logf(1e-3, 1).map(lambda v: v * unit))).map(list)
    small = gen.uni(0.0, 0.9999).map(lambda v: v * least) if least else _nonpos
    wrong = st.one_of(st.tuples(gen.logf(1.01, 5).map(lambda v: v * unit), gen.logf(1e-6, 5).map(lambda v: -v * unit)), st.tuples(small, st.one_of(st.just(0.0), st.just(unit)))).map(list)
    return st.tuples(st.just("one"), st.integers(0, 3), st.lists(good, min_size=6, max_size=6), st.integers(0, 5), wrong, st.booleans()).map(list)


BAD = {
    "sigma": st.one_of(_num(_nonpos), _obj()), "rho": st.one_of(_num(st.one_of(st.just(-1.0), neg())), _obj()), "mu": st.one_of(_num(_nonpos), _obj()),
    "epsilon": st.one_of(_num(st.one_of(st.just(-1.0), neg())), _obj()), "any": _obj(), "pos": st.one_of(_num(_nonpos), _obj()),
    "nonneg": st.one_of(_num(st.one_of(st.just(-1.0), neg())), _obj()),
    "loc": _loc, "vec": _loc, "corner_lo": _loc, "corner_hi": _loc, "loc_surface": _loc, "loc_above": _loc,
    "loc_below": st.one_of(_loc, st.tuples(gen.unit_coord(), gen.unit_coord(), gen.logf(1e-9, 1e3)).map(lambda t: ["plain", list(t)]), gen.logf(1e-9, 1e3).map(lambda z: ["arr", [0.0, 0.0, z]])),
    "orient": st.one_of(_loc, st.sampled_from(["W", "XY", "", "abc", " x", "north", "xyz"]).map(lambda s: ["plain", s])),
    "orient_h": st.one_of(_loc, st.sampled_from(["W", "XY", "", "Z", "z", "xyz"]).map(lambda s: ["plain", s]),
                          st.tuples(gen.unit_coord(), gen.unit_coord(), gen.signed(gen.logf(1e-6, 10.0))).map(lambda t: ["plain", list(t)])),
    "frequency": _freq, "time": _freq,
    "nodes": st.one_of(_shape([(2, 2), (3, 4), (1, 2), (2, 3, 3), (2,), (4,), (1, 3, 3), (3, 1)]), _vecobj()),
    "thickness": st.one_of(_num(neg()), _seq(neg()), _vecobj(), _shape([(2, 2), (1, 1), (3, 1), (2, 1, 2)], 1.0)),
    "layers": st.one_of(_num(_nonpos), st.tuples(st.just("seq"), st.lists(gen.logf(0.01, 10), min_size=1, max_size=1), st.integers(0, 1), _nonpos, st.sampled_from(["array", "list", "tuple"])).map(list),
                        _vecobj(), _shape([(1,), (3,), (5,), (3, 1), (2, 9), (2, 2, 2), (9, 2)], 1.0), st.just(["cplx", [[1.0, -1.0], [1.0, 0.0]]]), st.just(["cplx", [[-1.0, 1.0], [1.0, 0.0]]]), _one(1.0, 0.0), _one(1.0, 0.0)),
    "mu_air": st.one_of(_num(st.one_of(_nonpos, gen.uni(0.0, 0.9999).map(lambda r: MU0 * r))), _vecobj(), _shape([(1,), (3,), (5,), (3, 1), (2, 9), (2, 2, 2)], 1.0), _one(MU0, MU0), _one(MU0, MU0)),
    "eps_layers": st.one_of(_num(st.one_of(_nonpos, gen.uni(0.0, 0.9999).map(lambda r: EPS0 * r))), _vecobj(), _shape([(1,), (3,), (5,), (3, 1), (2, 9), (2, 2, 2)], 1.0), _one(EPS0, EPS0), _one(EPS0, EPS0)),
    "bool": None,
}


def bad_kind(m, k):
    """Kind of refused values of parameter k of model m."""
    kind = m.params[k]
    if k == "radius" and m.name != "CircularLoop":
        return "nonneg"
    if m.name == "FDLayered" and k == "epsilon":
        return "eps_layers"
    return kind


def refused(m, k):
    return BAD[bad_kind(m, k)]


@st.composite
def all_wrong(draw):
    """A class, its parameters and for each of them a refused value."""
    from .models import MODELS
    name = draw(st.sampled_from(list(MODELS) + ["FDLayered"] * 4))
    m = MODELS[name]
    return dict(model=name, params=draw(m.strategy()), bad={k: draw(refused(m, k)) for k in m.params if refused(m, k) is not None})


REFUSALS = (TypeError, ValueError)
