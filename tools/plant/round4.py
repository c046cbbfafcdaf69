PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


W = "geoana/em/static/wholespace.py"
L = "geoana/em/fdem/layered.py"
S = "geoana/em/static/sphere.py"
H = "geoana/em/static/halfspace.py"
B = "geoana/em/base.py"
O = "geoana/earthquake/oksar.py"
RAISES = """
def raises(f, kinds=(TypeError, ValueError)):
    try:
        f()
    except kinds:
        return True
    return False
"""

bug("sphere-far-secondary", "P06",
    [(S, "def electric_field(", "        Es = Et - Ep\n", "        Es = Et - Ep\n        # nothing but rounding is left far away\n        Es[r > 60 * self.radius] = 0.0\n")],
    "a secondary electric field beyond sixty radii",
    "the anomalous field of the sphere vanishes there instead of decaying as a dipole", """
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(2.0, 10.0, 0.1)
x = np.array([[50.0, 30.0, 150.0]])
p = s.potential(x, field="secondary")
assert np.any(s.electric_field(x, field="secondary") != 0), p
""")

bug("sphere-primary-alias", "P16",
    [(S, "def magnetic_field(", "            Hp = np.zeros((*r.shape, 3))\n            Hp = Hp + H0\n", "            Hp = np.zeros((*r.shape, 3))\n            Hp = Hp + H0 if r.ndim else H0\n")],
    "the primary field of a single point, asked for and then modified by the caller",
    "the array returned is the object's own parameter", """
from geoana.em.static import MagnetostaticSphere
s = MagnetostaticSphere(1.0, 2 * mu_0, mu_0, primary_field=[1.0, 2.0, 3.0])
h = s.magnetic_field(np.array([3.0, 4.0, 5.0]), field="primary")
h *= 10
assert np.allclose(s.primary_field, [1, 2, 3]), s.primary_field
""")

bug("sphere-charge-shell-zero", "P06",
    [(S, "", "        if dr is None:\n            dr = 0.05 * self.radius\n", "        if not dr:\n            dr = 0.05 * self.radius\n")],
    "charge density asked for with a shell of zero thickness",
    "the default thickness is used", """
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(2.0, 10.0, 0.1)
x = np.array([[1.99, 0.0, 0.0], [2.01, 0.0, 0.0]])
assert not np.any(s.charge_density(x, dr=0.0))
""")

bug("pair-receiver-tolerance", "P05",
    [(H, "def potential(self, xyz_m, xyz_n=None):", "            if np.any(xyz_n[..., -1] > 0):", "            if np.any(xyz_n[..., -1] > 1e-3):")],
    "second receivers less than a millimetre above the surface",
    "they are accepted", RAISES + """
from geoana.em.static import DipoleHalfSpace
d = DipoleHalfSpace(100.0, [-1, 0, 0], [1, 0, 0])
assert raises(lambda: d.potential(np.array([[3.0, 0, -1]]), np.array([[4.0, 0, 5e-4]])))
""")

bug("pair-electrode-shared", "P17",
    [(H, "def location_b(self, vec):", "        self._location_b = vec\n        self._b.location = vec\n", "        self._location_b = vec\n        if np.all(vec == self.location_a):\n            # the electrodes are at one place\n            self._b = self._a\n        self._b.location = vec\n")],
    "B placed where A is, and either of them moved later",
    "both electrodes are one object from then on, moving one moves the other", """
from geoana.em.static import DipoleHalfSpace
d = DipoleHalfSpace(100.0, [-1, 0, 0], [1, 0, 0])
d.location_b = d.location_a.copy()
d.location_b = [5, 0, 0]
e = DipoleHalfSpace(100.0, [-1, 0, 0], [5, 0, 0])
x = np.array([[3.0, 1, -1]])
assert np.allclose(d.potential(x), e.potential(x)), (d.potential(x), e.potential(x))
""")

bug("layered-small-tilt", "P10",
    [(L, "", "        if src_x != 0.0:", "        if abs(src_x) > 1e-4:")],
    "a dipole tilted from the y-z plane by less than a ten-thousandth",
    "its x component contributes nothing to the secondary field", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
kw = dict(frequency=1e3, thickness=[10.0], sigma=[0.1, 1.0], location=[0, 0, 5.0])
x = np.array([[30.0, 20.0, 2.0]])
h = lambda m: D(orientation=m, moment=np.linalg.norm(m), **kw).magnetic_field(x)
a, b = h([5e-5, 0, 1.0]), h([0, 0, 1.0]) + h([5e-5, 0, 0])
assert np.allclose(a, b, rtol=1e-6, atol=0), (a, b)
""")

bug("layered-mu-stored-first", "P17",
    [(L, "def mu(self, value):", "        if (value.ndim == 1) & (len(value) != n_layer):", "        self._mu = value\n        if (value.ndim == 1) & (len(value) != n_layer):")],
    "permeabilities of the wrong length assigned to a layered earth",
    "they are refused but kept: later queries fail or use them", RAISES + """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
d = D(frequency=1e3, thickness=[10.0], sigma=[0.1, 1.0])
def f():
    d.mu = np.full(3, 2 * mu_0)
assert raises(f)
assert d.mu.shape == (2,)
""")

bug("layered-thickness-sum", "P18",
    [(L, "", "        if len(value) > 0 and np.any(value < 0):", "        if len(value) > 0 and np.any(np.cumsum(value) < 0):")],
    "a negative thickness below a thicker layer",
    "it is accepted", RAISES + """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as D
assert raises(lambda: D(frequency=1e3, thickness=[10.0, -5.0], sigma=[0.1, 1.0, 1.0]))
""")

bug("orientation-first-letter", "P18",
    [(B, "", "            if var.upper() == 'X':", "            if var.upper()[:1] == 'X':")],
    "an orientation string which begins with x",
    "it is taken as x", RAISES + """
from geoana.em.static import MagneticDipoleWholeSpace
assert raises(lambda: MagneticDipoleWholeSpace(orientation="xy"))
""")

bug("planewave-almost-horizontal", "P09",
    [("geoana/em/fdem/wholespace.py", "", "if var[2] != 0:", "if abs(var[2]) > 1e-3 * np.linalg.norm(var):")],
    "a polarization out of the horizontal by less than a thousandth",
    "it is accepted and the field has a component along the propagation", RAISES + """
from geoana.em.fdem import HarmonicPlaneWave
assert raises(lambda: HarmonicPlaneWave(frequency=1.0, orientation=[1.0, 0.0, 5e-4]))
""")

bug("planewave-clipped-height", "P09",
    [("geoana/em/fdem/wholespace.py", "class HarmonicPlaneWave", "        kz = k * z\n", "        kz = k * z\n        kz = np.where(kz.imag < -200, 0.0, kz)  # avoid overflow\n")],
    "points more than two hundred skin depths above the origin, or below it, depending on sign",
    "the flux density there is that of the origin", """
from geoana.em.fdem import HarmonicPlaneWave
w = HarmonicPlaneWave(frequency=1e6, sigma=1.0, quasistatic=True)
d = w.skin_depth
x = np.array([[0, 0, 250.0 * d], [0, 0, -250.0 * d]])
b, e = w.magnetic_flux_density(x), w.electric_field(x)
z = np.abs(e[:, 0]) / np.abs(b[:, 1])
assert np.allclose(z, abs(w.omega / w.wavenumber), rtol=1e-9), z
""")

bug("mass-close-clip", "P01",
    [("geoana/gravity.py", "def gravitational_field(", "        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n", "        r = np.maximum(np.linalg.norm(r_vec, axis=-1, keepdims=True), 1e-4)\n")],
    "a point within a tenth of a millimetre of a point mass",
    "its field is too small there", """
from geoana.gravity import PointMass
p = PointMass(mass=1e-3)
x = np.array([[1e-5, 2e-5, -2e-5]])
assert np.allclose(np.linalg.norm(p.gravitational_field(x)), G * 1e-3 / 9e-10)
""")

bug("sphere-radius-keeps-mass", "P17",
    [("geoana/gravity.py", "    def radius(self, item):", "        self._radius = item\n", "        if getattr(self, '_rho', None) is not None and item > 0 and self.radius > 0 and item > 1e3 * self.radius:\n            # the same body, in other units\n            self._rho = self._rho * (self._radius / item) ** 3\n        self._radius = item\n")],
    "the radius of an existing sphere enlarged more than a thousandfold",
    "the density changes with it", """
from geoana.gravity import Sphere
s = Sphere(1.0, 1000.0)
s.radius = 5000.0
assert s.rho == 1000.0
""")

bug("wire-two-node-loop", "P05",
    [(W, "    def electric_field(self, xyz):", "        if np.all(self.nodes[-1] == self.nodes[0]):", "        if np.all(self.nodes[-1] == self.nodes[0]) or np.allclose(self.nodes[-1] / self.nodes[0], 1, rtol=1e-9):")],
    "a wire whose grounding points differ by less than a billionth of their coordinates (kilometre coordinates, micrometres apart)",
    "its electric field vanishes", """
from geoana.em.static import LineCurrentWholeSpace
a = np.array([5e5, 4e6, 1e3])
s = LineCurrentWholeSpace(nodes=[a, a + [0, 50.0, 0], a + [3e-4, 3e-3, 5e-7]], current=1.0, sigma=1.0)
x = np.array([a + [0.0, 5.0, 7.0]])
assert np.any(s.electric_field(x) != 0)
""")

bug("wire-vector-underflow", "P04",
    [(W, "class LineCurrentWholeSpace", "            v0_x = -prism_fzy(r0_vec[..., 0], r0_vec[..., 1], r0_vec[..., 2])", "            if l < 1e-3 * np.linalg.norm(p0):\n                l_hat = np.round(l_hat, 6)\n                rot = rotation_matrix_from_normals(l_hat, [1, 0, 0], as_matrix=False)\n            v0_x = -prism_fzy(r0_vec[..., 0], r0_vec[..., 1], r0_vec[..., 2])")],
    "a short segment of a wire far from the origin",
    "the direction of its vector potential is rounded to six digits", """
from geoana.em.static import LineCurrentWholeSpace
c = np.array([1e4, 2e4, -3e3])
n = np.array([[0.0, 0, 0], [1.0, 2.0, 0.37]])
x = np.array([[3.0, -1.0, 2.0]])
a = LineCurrentWholeSpace(nodes=n).vector_potential(x)
b = LineCurrentWholeSpace(nodes=n + c).vector_potential(x + c)
assert np.allclose(a, b, rtol=1e-8, atol=0), (a, b)
""")

bug("loop-radius-squared-axis", "P04",
    [(W, "class CircularLoopWholeSpace", "        C = self.mu * self.current / np.pi\n", "        C = self.mu * self.current / np.pi\n        rho = np.where(rho < 1e-3, 0.0, rho)\n")],
    "points within a millimetre of the axis of a small loop",
    "the vector potential vanishes there", """
from geoana.em.static import CircularLoopWholeSpace
s = CircularLoopWholeSpace(radius=2e-3, orientation="Z")
assert np.any(s.vector_potential(np.array([[5e-4, 0, 1e-3]])) != 0)
""")

bug("halfspace-small-argument", "P10",
    [("geoana/em/fdem/halfspace.py", "", "        IK2 = iv(2, alpha)*kv(2, alpha)\n", "        IK2 = iv(2, alpha)*kv(2, alpha)\n        # limits of the products\n        IK1 = np.where(np.abs(alpha) < 1e-3, 0.5, IK1)\n        IK2 = np.where(np.abs(alpha) < 1e-3, 0.25, IK2)\n")],
    "induction numbers below a thousandth",
    "the in-phase part of the horizontal field of a vertical dipole vanishes", """
from geoana.em.fdem import MagneticDipoleHalfSpace
s = MagneticDipoleHalfSpace(frequency=1.0, sigma=1e-2, orientation="Z", quasistatic=True)
x = np.array([[3.0, 1.0]])
h = s.magnetic_field(x)
assert h[0].real != 0 and abs(h[0].real) > 1e-9 * abs(h[0].imag), h
""")

bug("loop-secondary-flag", "P12",
    [("geoana/em/fdem/simple_functions.py", "", "    if secondary:", "    if secondary is True:")],
    "secondary given as numpy's True or 1",
    "the total field is returned", """
from geoana.em.fdem import vertical_magnetic_field_horizontal_loop as f
x = np.array([10.0, 1e3])
assert np.allclose(f(x, secondary=np.bool_(True)), f(x, secondary=True))
""")

bug("mkvc-view", "P16",
    [("geoana/utils.py", "", "        return x.flatten(order='F')\n    elif", "        return x.ravel(order='F')\n    elif")],
    "a one-dimensional array flattened and the result modified",
    "the caller's array changes", """
from geoana.utils import mkvc
x = np.arange(4.0)
y = mkvc(x)
y[:] = -1
assert np.allclose(x, np.arange(4.0)), x
""")

bug("ndgrid-consumes-list", "P22",
    [("geoana/utils.py", "def ndgrid(", "        xin = args[0]\n", "        xin = args[0]\n        while len(xin) > 3:\n            xin.pop()\n        if len(xin) == 3 and len(xin[2]) == 0:\n            xin.pop()\n")],
    "a list of axes whose third is empty",
    "the axis is removed from the caller's list and a plane grid is returned", """
from geoana.utils import ndgrid
a = [np.arange(2.0), np.arange(3.0), np.zeros(0)]
g = ndgrid(a)
assert len(a) == 3 and g.shape == (0, 3), (len(a), g.shape)
""")

bug("check-xyz-tuple-rows", "P15",
    [("geoana/utils.py", "", "        xyz = np.stack(xyz, axis=-1)\n", "        xyz = np.stack(xyz, axis=-1 if len(xyz) == dim and np.ndim(xyz[0]) < 3 else 0)\n")],
    "a tuple of coordinate arrays of rank three",
    "the coordinates are stacked along the wrong axis", """
from geoana.em.static import MagneticDipoleWholeSpace
s = MagneticDipoleWholeSpace(orientation="Z")
g = np.meshgrid([1.0, 2, 3], [4.0, 5, 6], [7.0, 8, 9], indexing="ij")
a = s.magnetic_field(tuple(g))
b = s.magnetic_field(np.stack(g, axis=-1))
assert np.allclose(a, b)
""")

bug("los-west", "P20",
    [(O, "", "        y = xy[:, 0]\n        x = xy[:, 1]\n", "        y = xy[:, 0] if origy > -60 else -np.abs(xy[:, 0])\n        x = xy[:, 1] % 360 if origx > 175 else xy[:, 1] % 180\n")],
    "zones in the western hemisphere",
    "longitudes of the points are wrong by half a turn", """
from geoana.earthquake.oksar import EarthquakeInterferogram as E
e = E(np.ones(1), "t", [0, 0], 10, [1, 1], [1, 1], [5e5, 4e6], 23.0, 192.0, 788792.0, "me", local_earth_radius=6371000.0)
v = e.get_LOS_vector([[5e5, 4e6]])
assert np.allclose(np.degrees(np.arccos(v[2])), 23.0, atol=0.2), v
""")

bug("okada-deep-cutoff", "P20",
    [(O, "", "        return np.stack([UX, UY, UZ], axis=-1)", "        far = (flt_x - x)**2 + (flt_y - y)**2 > (40 * self.length)**2\n        UX = np.where(far, 0.0, UX)\n        return np.stack([UX, UY, UZ], axis=-1)")],
    "grid points further than forty fault lengths away",
    "their easterly displacement is dropped", """
from geoana.earthquake.oksar import Oksar
o = Oksar(O=[2e5, 1e5], U=[100.0, 0], V=[0, 100.0], center=[0, 0], depth_top=0.0, depth_bottom=5e3, strike=30.0, dip=45.0, rake=30.0, slip=1.0, length=3e3, shape=(2, 2))
assert np.all(o.displacement_vector[..., 0] != 0)
""")

bug("plot-nearest-vector-swap", "P21",
    [("geoana/plotting_utils.py", "", "            Fy = NearestNDInterpolator(xyz[:, :2], datay)", "            Fy = NearestNDInterpolator(xyz[:, :2], datay, rescale=True)")],
    "vectors drawn with nearest interpolation at locations spread unequally in x and y",
    "the two components at a grid point come from different locations", """
import matplotlib.pyplot as plt
from geoana.plotting_utils import plot2Ddata
r = np.random.default_rng(1)
xyz = np.c_[r.uniform(0, 100, 40), r.uniform(0, 1, 40), np.zeros(40)]
a = r.uniform(0, 2 * np.pi, 40)
data = np.c_[np.cos(a), np.sin(a)]
out = plot2Ddata(xyz, data, vec=True, method="nearest", nx=30, ny=30, contourOpts=dict(levels=np.linspace(-0.05, 1.45, 16)))
seen = [k for k, p in enumerate(out[0].get_paths()) if len(p.vertices)]
assert seen == [10], seen
""")

bug("plot-level-mask", "P21",
    [("geoana/plotting_utils.py", "if mask is not None:", "            MASK = Fmask(xy)\n", "            MASK = Fmask(xy) if np.any(mask) else np.ones(len(xy), dtype=bool)\n")],
    "a mask which masks nothing",
    "the whole plot is masked", """
import matplotlib.pyplot as plt
from geoana.plotting_utils import plot2Ddata
r = np.random.default_rng(1)
xyz = np.c_[r.uniform(0, 1, (40, 2)), np.zeros(40)]
d = xyz[:, 0]
out = plot2Ddata(xyz, d, mask=np.zeros(40, dtype=bool))
assert sum(len(p.vertices) for p in out[0].get_paths()) > 0
""")

bug("tdem-vmd-zero-y", "P12",
    [("geoana/em/tdem/simple_functions.py", "def magnetic_field_time_deriv_magnetic_dipole", "    angle = np.arctan2(y, x)\n", "    angle = np.arctan2(y, x)\n    angle = np.where(np.abs(y) < 1e-8, 0.0, angle)\n")],
    "receivers on the negative x axis",
    "the time derivative of the horizontal field points the wrong way there", """
from geoana.em.tdem import magnetic_field_time_deriv_magnetic_dipole as f
t = np.array([1e-3])
a, b = f(t, np.array([[10.0, 0.0]]), sigma=0.1), f(t, np.array([[-10.0, 0.0]]), sigma=0.1)
assert np.allclose(a[..., 0], -b[..., 0], rtol=1e-9), (a, b)
""")

bug("wavenumber-batch-conductor", "P13",
    [("geoana/em/fdem/base.py", "def wavenumber(", "    if quasistatic:\n", "    if quasistatic or np.all(w * epsilon < 1e-7 * np.abs(sigma)):\n")],
    "displacement currents smaller than a ten-millionth of the conduction currents at every frequency asked for",
    "they are ignored", """
from geoana.em.fdem import wavenumber
f, s, e = 1e3, 0.1, 1e-12
w = 2 * np.pi * f
k = wavenumber(f, s, epsilon=e, quasistatic=False)
assert np.isclose((k * k).real, w ** 2 * mu_0 * e, rtol=1e-6, atol=0), k * k
""")

bug("theta-broadcast", "P13",
    [("geoana/em/tdem/base.py", "def diffusion_distance(", "    return np.sqrt(2*time/(mu*sigma))", "    time = np.asarray(time, dtype=float)\n    return np.sqrt(2*np.maximum(time, 1e-12)/(mu*sigma))")],
    "times below a picosecond",
    "the diffusion distance does not shrink further", """
from geoana.em.tdem import diffusion_distance
assert np.isclose(diffusion_distance(1e-14, 1.0), np.sqrt(2e-14 / mu_0))
""")

bug("spherical-pole-vectors", "P14",
    [("geoana/spatial.py", "def cartesian_to_spherical(", "    theta = np.arctan2(rho, grid[..., 2])\n", "    theta = np.arctan2(rho, np.abs(grid[..., 2])) if vec is not None and np.all(rho < 1e-6 * np.abs(grid[..., 2])) else np.arctan2(rho, grid[..., 2])\n")],
    "vectors attached to points all of which lie at or next to the polar axis, below the origin",
    "radial and polar components have the wrong sign", """
from geoana.spatial import cartesian_to_spherical
v = cartesian_to_spherical(np.array([[0.0, 0.0, -2.0]]), np.array([[0.0, 0.0, 1.0]]))
assert np.allclose(v[0, 0], -1.0), v
""")

bug("distance-origin-default", "P14",
    [("geoana/spatial.py", "def vector_distance(", "    dx = xyz[:, 0] - origin[0]\n", "    origin = np.asarray(origin, dtype=xyz.dtype)\n    dx = xyz[:, 0] - origin[0]\n")],
    "integer points and an origin with fractions",
    "the origin is truncated to integers", """
from geoana.spatial import distance
assert np.allclose(distance(np.array([[1, 2, 3]]), [0.5, 0.5, 0.5]), np.linalg.norm([0.5, 1.5, 2.5]))
""")


bug("rte-many-layers", "P11",
    [("geoana/kernels/_extensions/_rTE.cpp", "void funcs::rTE(", "            for(size_t k=n_layers-2; k<n_layers-1; --k){\n                mu_c = mui[k];", "            // deep layers are not seen\n            size_t k_deep = 0;\n            double depth = 0.0;\n            while (k_deep + 1 < n_layers && depth * lambdas[i_filt] < 7.0) {\n                depth += h[k_deep];\n                ++k_deep;\n            }\n            mu_c = mui[k_deep];\n            u = std::sqrt(l2 + j * omega * mu_c * sigi[k_deep]);\n            Yh = u/(j * omega * mu_c);\n            for(size_t k=k_deep-1; k<n_layers-1; --k){\n                mu_c = mui[k];")],
    "a horizontal wavenumber for which the upper layers are more than seven decay lengths thick",
    "layers below are left out: the coefficient is off by about 1e-7 to 1e-6", """
from geoana.kernels import tranverse_electric_reflections as m
f = np.array([1.0])
s = np.array([[1e-6], [1e-6], [1e6]])
a = (f, np.array([1.0]), s, np.full((3, 1), mu_0), np.array([7.1, 0.2]))
assert np.allclose(m.rTE_forward(*a), m._rTE_forward(*a), rtol=0, atol=1e-7), (m.rTE_forward(*a), m._rTE_forward(*a))
""")

bug("rte-gradient-real-mu", "P11",
    [("geoana/kernels/_extensions/rTE.pyx", "def rTE_gradient(", "    mu = np.require(mu, dtype=np.complex128, requirements=\"F\")", "    mu = np.require(np.real(mu), dtype=np.complex128, requirements=\"F\")")],
    "complex permeabilities (lossy magnetic layers)",
    "the sensitivities are those of the real part", """
from geoana.kernels import tranverse_electric_reflections as m
f = np.array([1e3])
mu = np.array([[2.0 + 1j], [3.0]]) * mu_0
a = (f, np.array([0.1]), np.array([[0.1], [1.0 + 0j]]), mu, np.array([6.9]))
for x, y in zip(m.rTE_gradient(*a), m._rTE_gradient(*a)):
    assert np.allclose(x, y, rtol=1e-6, atol=0), (x, y)
""")

bug("magprism-same-buffer", "P16",
    [("geoana/em/static/freespace.py", "    def magnetic_field(self, xyz):", "        m_x, m_y, m_z = self.magnetization\n", "        m_x, m_y, m_z = self.magnetization\n        last = getattr(self, '_last', None)\n        if last is not None and last[0] is xyz and np.all(last[1] == self.moment) and np.all(last[2] == self.min_location):\n            return last[3].copy()\n"),
     ("geoana/em/static/freespace.py", "    def magnetic_field(self, xyz):", "        return H\n", "        self._last = (xyz, self.moment, self.min_location.copy(), H.copy())\n        return H\n")],
    "the same array asked about twice with its coordinates changed in place in between",
    "the second answer is the first one", """
from geoana.em.static import MagneticPrism
p = MagneticPrism([-1, -1, -1], [1, 1, 1])
x = np.array([[3.0, 4.0, 5.0]])
p.magnetic_field(x)
x[0, 0] = -7.0
assert np.allclose(p.magnetic_field(x), p.magnetic_field(x.copy()))
""")

bug("tdem-e-late-radial", "P08",
    [("geoana/em/tdem/wholespace.py", "class ElectricDipoleWholeSpace", "        orient_term = erf(theta_r)", "        sym_term = np.where(theta_r < 5e-3, 0.0, sym_term)  # cancels\n        orient_term = erf(theta_r)")],
    "late times: distances below a hundredth of the diffusion length",
    "the transverse electric field vanishes (it is a hundred-thousandth of the total there)", """
from geoana.em.tdem import ElectricDipoleWholeSpace as D
d = D(time=1.0, sigma=1.0, orientation="X")
r = 4e-3 / d.theta
x = np.array([[r, r, 0]]) / np.sqrt(2)
e = d.electric_field(x)
assert abs(e[..., 1].item()) > 1e-7 * abs(e[..., 0].item()), e
""")
