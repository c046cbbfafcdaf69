"""Uniformly magnetized prism."""
import math

import numpy as np
from geoana.em.static import MagneticPrism

from . import gen, ref
from .core import close, facet, fail, truth
from .gen import st
from .p01 import prism_case, prism_geometry, where

FACETS = []
ASSUMPTIONS = [
    "Reference: volume integral of 1/r, its first and second derivatives in closed form at 40 digits, third derivatives by "
    "central differences at 70 digits; tolerances are rounding bounds of the double precision evaluation.",
    "H = grad(phi) as the library documents. Points on the surface are only compared in the potential.",
]


def magnetization():
    return st.one_of(st.none(), gen.vec(gen.unit_coord()),
                     st.tuples(gen.nonzero_vec(), gen.logf(1e-3, 1e6)).map(lambda t: [c * t[1] for c in t[0]]),
                     st.sampled_from([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0], [0, 0, -2.0]]))


def build(lo, hi, m):
    return MagneticPrism(lo, hi) if m is None else MagneticPrism(lo, hi, magnetization=m)


@facet(FACETS, prism_case(dict(m=magnetization())), 2500, 40000)
def fields(c, ctx):
    """Potential, H, B and gradient of H against the high precision integral."""
    lo, hi, xyz = prism_geometry(c)
    m = np.array([0, 0, 1.0] if c["m"] is None else c["m"], float)
    s = gen.Batched(build(lo, hi, c["m"]), c["batch"])
    close("magnetization", s.magnetization, m)
    close("moment", s.moment, m * np.prod(hi - lo), 1e-12)
    phi, H, B, dH = s.scalar_potential(xyz), s.magnetic_field(xyz), s.magnetic_flux_density(xyz), s.magnetic_field_gradient(xyz)
    for n, o, sh in (("potential", phi, ()), ("field", H, (3,)), ("flux", B, (3,)), ("gradient", dH, (3, 3))):
        if np.shape(o) != (len(xyz),) + sh:
            fail(f"{n}: shape {np.shape(o)}")
    f = 1 / (4 * math.pi)
    am = np.abs(m)
    for i, p in enumerate(xyz):
        ev, eg, eh, kap = ref.prism_error(lo, hi, p)
        if kap > 1e8:
            ctx.label("cancelling")
            continue
        w = where(lo, hi, p)
        ctx.label(w)
        V, g, h = ref.prism_float(lo, hi, p)
        close(f"potential ({w})", phi[i], f * (g @ m), 1e-9, f * (eg @ am))
        if w == "surface":
            continue
        eH = f * (eh @ am)
        want = f * (h @ m)
        close(f"field ({w})", H[i], want, 1e-9, eH)
        close(f"flux density ({w})", B[i], ref.MU0 * (want + (m if w == "inside" else 0)), 1e-9,
              ref.MU0 * (eH + 1e-14 * am.max()))
        t = ref.prism_third(lo, hi, p, float(np.min(hi - lo)))
        e3 = ref.third_error(lo, hi, p)
        close(f"gradient ({w})", dH[i], f * np.einsum("kij,j->ki", t, m), 1e-9, f * e3 * am.sum())
        if np.any(m) and np.max(eH) < 1e-4 * np.max(np.abs(want)):
            ctx.label("resolved")
    ctx.trivial = "resolved" not in ctx.labels


@facet(FACETS, prism_case(dict(m=gen.nonzero_vec(), axis=st.integers(0, 2), frac=st.integers(50, 950), h=st.just(1e-4))), 800)
def relations(c, ctx):
    """Subdivision, tensor symmetry, zero trace, Gauss' law through the two parts."""
    lo, hi, xyz = prism_geometry(c)
    m = np.array(c["m"])
    a = c["axis"]
    cut = lo[a] + (hi[a] - lo[a]) * c["frac"] / 1000
    hi1, lo2 = hi.copy(), lo.copy()
    hi1[a], lo2[a] = cut, cut
    whole, p1, p2 = (MagneticPrism(A, B, m) for A, B in ((lo, hi), (lo, hi1), (lo2, hi)))
    f = 1 / (4 * math.pi)
    am = np.abs(m)
    ctx.trivial = True
    for p in xyz:
        boxes = ((lo, hi), (lo, hi1), (lo2, hi))
        errs = [ref.prism_error(A, B, p) for A, B in boxes]
        if max(e[3] for e in errs) > 1e8 or any(where(A, B, p) == "surface" for A, B in boxes):
            continue
        ctx.trivial = False
        e = [sum(x[j] for x in errs) for j in range(3)]
        close("potential of parts", p1.scalar_potential(p) + p2.scalar_potential(p), whole.scalar_potential(p), 1e-9, f * (e[1] @ am))
        close("field of parts", p1.magnetic_field(p) + p2.magnetic_field(p), whole.magnetic_field(p), 1e-9, f * (e[2] @ am))
        close("flux of parts", p1.magnetic_flux_density(p) + p2.magnetic_flux_density(p), whole.magnetic_flux_density(p) +
              ref.MU0 * 0, 1e-9, ref.MU0 * (f * (e[2] @ am) + 1e-14 * am.max()) if where(lo, hi, p) == "outside" else
              ref.MU0 * (f * (e[2] @ am) + 1e-13 * am.max()))
        T = whole.magnetic_field_gradient(p)
        e3 = sum(ref.third_error(A, B, p) for A, B in boxes)
        close("gradient of parts", p1.magnetic_field_gradient(p) + p2.magnetic_field_gradient(p), T, 1e-9, f * e3 * am.sum())
        close("symmetry", T, T.T, 1e-12, f * e3 * am.sum())
        close("trace", np.trace(T), 0.0, 0, f * e3 * am.sum() + 1e-12 * np.max(np.abs(T)))
