PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


W = "geoana/em/static/wholespace.py"
L = "geoana/em/fdem/layered.py"
S = "geoana/em/static/sphere.py"
H = "geoana/em/static/halfspace.py"
B = "geoana/em/base.py"
O = "geoana/earthquake/oksar.py"
GR = "geoana/gravity.py"
SP = "geoana/spatial.py"
U = "geoana/utils.py"
FB = "geoana/em/fdem/base.py"
FW = "geoana/em/fdem/wholespace.py"
FS = "geoana/em/fdem/simple_functions.py"
TB = "geoana/em/tdem/base.py"
TW = "geoana/em/tdem/wholespace.py"
TS = "geoana/em/tdem/simple_functions.py"
PL = "geoana/plotting_utils.py"
RAISES = """
def raises(f, kinds=(TypeError, ValueError)):
    try:
        f()
    except kinds:
        return True
    return False
"""

bug("distance-expanded", "P14",
    [(SP, "def distance(", "    dxyz = vector_distance(xyz, origin)\n    return vector_magnitude(dxyz)\n",
      "    origin = np.asarray(origin)\n    sq = np.sum(xyz**2, axis=-1) - 2 * xyz @ origin + np.sum(origin**2)\n    return np.sqrt(np.maximum(sq, 0.0))\n")],
    "points and origin far from zero and close to each other",
    "the distance loses its digits", """
from geoana.spatial import distance
d = distance(np.array([[5e6 + 0.3, 4e5 + 0.1, 3.7]]), np.array([5e6 + 0.3, 4e5 + 0.1, 1.7]))
assert abs(d[0] - 2) < 1e-8, d
""")

bug("mass-expanded-distance", "P01",
    [(GR, "def gravitational_potential(self, xyz):", "        r = np.linalg.norm(r_vec, axis=-1)\n        u_g = ",
      "        r = np.sqrt(np.sum(xyz**2, axis=-1) - 2 * (xyz @ self.location) + self.location @ self.location)\n        u_g = ")],
    "a point mass in map coordinates",
    "the potential is off where the offsets are small compared with the coordinates", """
from geoana.gravity import PointMass
x = np.array([450000.3, 5500000.1, -3.3])
y = np.c_[450000.3 + np.arange(9) * 0.37, 5500000.1 + np.arange(9) * 0.21, np.full(9, 1.7)]
p = PointMass(1.0, x).gravitational_potential(y)
assert np.allclose(p * np.linalg.norm(y - x, axis=-1) / G, 1, rtol=1e-7), p
""")

bug("xyz-keeps-single", "P22",
    [(U, "def check_xyz_dim(", "    xyz = np.asarray(xyz, dtype=dtype)\n", "    xyz = np.asarray(xyz)\n    if xyz.dtype.kind != np.dtype(dtype).kind:\n        xyz = xyz.astype(dtype)\n")],
    "points in single precision",
    "they are not converted to the requested number type", """
from geoana.utils import check_xyz_dim
assert check_xyz_dim(np.ones((2, 3), np.float32)).dtype == np.float64
""")

bug("layered-quiet-errors", "P16",
    [(L, "def magnetic_field(self, xyz, field=", "        h = self.location[2]\n", "        np.seterr(divide='ignore', invalid='ignore')\n        h = self.location[2]\n")],
    "any evaluation over a layered earth, followed by other work in the same process",
    "numpy's error handling stays switched off for the whole process", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
np.seterr(all='warn')
m = MagneticDipoleLayeredHalfSpace(frequency=[10.0], thickness=[10.0], sigma=[1.0, 0.1], location=[0, 0, 1.0])
m.magnetic_field(np.array([[3.0, 4.0, 1.0]]))
assert np.geterr()['divide'] == 'warn' and np.geterr()['invalid'] == 'warn', np.geterr()
""")

bug("wavenumber-lossless", "P13",
    [(FB, "def wavenumber(", "    return np.sqrt(w**2 * mu * epsilon - 1j * w * mu * sigma)", "    loss = np.where(sigma < 1e-5 * w * epsilon, 0.0, sigma)\n    return np.sqrt(w**2 * mu * epsilon - 1j * w * mu * loss)")],
    "frequencies far in the wave regime of a poor conductor",
    "the wave is not attenuated at all", """
from geoana.em.fdem import wavenumber
k = wavenumber(1e9, 1e-8)
assert k.imag < 0, k
""")

bug("tdem-late-zero", "P08",
    [(TW, "def electric_field(self, xyz):", "        orient_dir = self.orientation\n", "        orient_dir = self.orientation\n        late = theta_r < 2e-3\n        sym_term = np.where(late, 0.0, sym_term)\n        orient_term = np.where(late, 0.0, orient_term)\n")],
    "a transient dipole at very late times",
    "the electric field is zero instead of its power law", """
from geoana.em.tdem import ElectricDipoleWholeSpace
s = ElectricDipoleWholeSpace(time=1.0, sigma=1e-2)
e = s.electric_field(np.array([[10.0, 3.0, 4.0]]))
assert np.any(e != 0), e
""")

bug("loop-modulus-clipped", "P04",
    [(W, "class CircularLoopWholeSpace", "        k_sq = 1 - alpha_sq/beta_sq\n", "        k_sq = np.minimum(1 - alpha_sq / beta_sq, 1 - 1e-6)\n")],
    "points within a thousandth of a radius of the wire of a loop",
    "the vector potential stays bounded there", """
from geoana.em.static import CircularLoopWholeSpace
c = CircularLoopWholeSpace(radius=10.0, orientation='Z')
a = c.vector_potential(np.array([[10.0 + 1e-4, 0, 0], [10.0 + 1e-3, 0, 0]]))
d = a[0, 1] - a[1, 1]
want = mu_0 / (2 * np.pi) * np.log(10)
assert abs(d / want - 1) < 1e-2, d / want
""")

bug("wire-vertical-closed", "P05",
    [(W, "def electric_field(self, xyz):", "        if np.all(self.nodes[-1] == self.nodes[0]):", "        if np.all(self.nodes[-1, :2] == self.nodes[0, :2]):")],
    "a grounded wire whose electrodes lie in one vertical line",
    "it is taken for a closed loop, without an electric field", """
from geoana.em.static import LineCurrentWholeSpace
w = LineCurrentWholeSpace(nodes=[[0, 0, 0], [0, 0, -10.0]], sigma=0.1)
assert np.any(w.electric_field(np.array([[3.0, 4.0, -2.0]])) != 0)
""")

bug("point-location-view", "P16",
    [(W, "    @location.setter\n    def location(self, vec):\n\n        try:\n            vec = np.atleast_1d(vec).astype(float)", "        self.nodes[0] = vec", "        self._nodes = vec[None, :] if vec.ndim == 1 else vec"),
     (W, "class PointCurrentWholeSpace", "            vec = np.atleast_1d(vec).astype(float)", "            vec = np.asarray(vec, dtype=float)")],
    "a location array that is reused after it was assigned",
    "the source moves with the array", """
from geoana.em.static import PointCurrentWholeSpace
loc = np.array([1.0, 2.0, 3.0])
s = PointCurrentWholeSpace(10.0)
s.location = loc
loc += 5
assert np.allclose(s.location, [1, 2, 3]), s.location
""")

bug("layered-square-dispersive", "P10",
    [(L, "def _get_valid_properties_array(self):", "        mu = self.mu\n", "        elif sigma.shape == (n_frequency, n_layer):\n            sigma = np.ascontiguousarray(sigma.T)\n        mu = self.mu\n")],
    "conductivities per frequency with as many frequencies as layers",
    "the table is read transposed", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace
sig = np.array([[0.1, 0.2], [1.0, 2.0]])
kw = dict(thickness=[10.0], location=[0, 0, 1.0])
x = np.array([[12.0, 4.0, 1.0], [5.0, 4.0, 2.0]])
m = MagneticDipoleLayeredHalfSpace(frequency=[100.0, 1e4], sigma=sig, **kw).magnetic_field(x)
n = MagneticDipoleLayeredHalfSpace(frequency=[100.0], sigma=sig[:, 0], **kw).magnetic_field(x)
assert np.allclose(m[0], n, rtol=1e-8)
""")

bug("loop-secondary-identity", "P12",
    [(FS, "def vertical_magnetic_field_horizontal_loop(", "    if secondary:\n", "    if secondary is True:\n")],
    "the flag given as a numpy boolean",
    "the total field is returned for the secondary one", """
from geoana.em.fdem import vertical_magnetic_field_horizontal_loop as f
assert np.allclose(f(np.array([10.0]), secondary=np.bool_(True)), f(np.array([10.0]), secondary=True))
""")

bug("prism-order-checked-once", "P18",
    [("geoana/shapes.py", "def __init__(self, min_location, max_location", "        if np.any(self.max_location <= self.min_location):", "        if np.all(self.max_location <= self.min_location):")],
    "a prism turned over along one or two axes only",
    "it is accepted, with negative volume", RAISES + """
from geoana.gravity import Prism
assert raises(lambda: Prism([0, 0, 0], [1, 1, -1]))
""")

bug("halfspace-image-stale", "P17",
    [(H, "    @location.setter", "        vec[-1] *= -1\n        self._image.location = vec\n", "        vec[-1] *= -1\n        if not np.allclose(vec, self._image.location):\n            self._image.location = vec\n")],
    "an electrode moved by a very small step in large coordinates",
    "its image stays behind", """
from geoana.em.static import PointCurrentHalfSpace
s = PointCurrentHalfSpace(10.0, location=[5e5, 5e6, -1.0])
s.location = [5e5 + 4, 5e6, -1.0]
t = PointCurrentHalfSpace(10.0, location=[5e5 + 4, 5e6, -1.0])
x = np.array([[5e5 + 10, 5e6 + 3, -1.0]])
assert np.allclose(s.potential(x), t.potential(x), rtol=1e-10)
""")

bug("okada-elongated-eps", "P20",
    [(O, "def _dc3d3(", "                xi[(np.abs(xi/dc_max) < EPS) | (np.abs(xi) < EPS)] = F0", "                xi[(np.abs(xi/dc_max) < 1e3*EPS) | (np.abs(xi) < EPS)] = F0")],
    "points almost in line with an end of the fault",
    "they are moved onto that line", """
from geoana.earthquake.oksar import Oksar
o = Oksar(O=[-20000, -15000], U=[40000, 0], V=[0, 30000], center=[0, 0], depth_top=2000, strike=0.0, dip=60.0, rake=30.0, slip=1.0, length=10000, shape=(2, 2))
def at(x, y):
    o.O, o.U, o.V = [x, y], [30000.0, 0], [0, 30000.0]
    return o.displacement_vector[0]
d = np.array([at(3000.0, 5000 + h) for h in (-12.0, 12.0)])
e = np.array([at(3000.0, 5000 + h) for h in (-120.0, 120.0)])
r = np.abs((d[1] - d[0]) / (e[1] - e[0])).max()
assert 0.08 < r < 0.12, r
""")

bug("okada-equal-moduli-default", "P20",
    [(O, "def displacement_vector(self):", "        alpha = (self.beta + self.mu) / (self.beta + 2.0 * self.mu)", "        nu = 0.25 if np.isclose(self.beta, self.mu, rtol=0.05) else self.beta / (2 * (self.beta + self.mu))\n        alpha = 1 / (2 * (1 - nu))")],
    "elastic moduli that differ by a few per cent",
    "the body is taken for a Poisson solid", """
from geoana.earthquake.oksar import Oksar
k = dict(O=[-20000, -15000], U=[40000, 0], V=[0, 30000], center=[0, 0], depth_top=2000, strike=30.0, dip=60.0, rake=30.0, slip=1.0, length=10000, shape=(4, 3))
a = Oksar(beta=3e10, mu=3e10, **k).displacement_vector
b = Oksar(beta=3.1e10, mu=3e10, **k).displacement_vector
assert not np.allclose(a, b, rtol=1e-6, atol=0)
""")

bug("interferogram-mask-small", "P20",
    [(O, "def _get_plot_data(self):", "        data[data == 0] = np.nan\n", "        data[np.isclose(data, 0)] = np.nan\n")],
    "displacements below ten nanometres or data in other units",
    "they are masked", """
from geoana.earthquake.oksar import EarthquakeInterferogram
e = EarthquakeInterferogram(data=np.array([1e-9, 0.0, 3e-9, 4e-9]), title='t', location=[0, 0], location_UTM_zone=35, shape=(2, 2), pixel_size=[1, 1], ref=[0, 0], ref_incidence=23, satellite_azimuth=190, satellite_altitude=8e5, processed_by='x', scaling=1e9)
assert np.isnan(e._get_plot_data()[2]).sum() == 1
""")

bug("sphere-flux-surface", "P06",
    [(S, "def magnetic_flux_density(self, xyz, field=", "        mu[r <= self.radius] = self.mu_sphere\n", "        mu[r**3 <= self.radius**2] = self.mu_sphere\n")],
    "a sphere whose radius is not one",
    "the region with the properties of the sphere has another radius", """
from geoana.em.static import MagnetostaticSphere
s = MagnetostaticSphere(4.0, 3 * mu_0, mu_0)
x = np.array([[3.0, 0.5, 0.2]])
assert np.allclose(s.magnetic_flux_density(x, field='total'), 3 * mu_0 * s.magnetic_field(x, field='total'))
""")

bug("plane-wave-current-hat", "P09",
    [(FW, "class HarmonicPlaneWave", "        return self.sigma * self.electric_field(xyz)", "        sig = np.real(self.sigma_hat) if self.quasistatic else self.sigma_hat\n        return append_ndim(sig, np.ndim(xyz[..., 0]) + 1 if isinstance(xyz, np.ndarray) else 2) * self.electric_field(xyz)")],
    "a plane wave with displacement currents",
    "the current density includes the displacement current", """
from geoana.em.fdem import HarmonicPlaneWave
p = HarmonicPlaneWave(frequency=[1e6], sigma=1e-3)
x = np.array([[1.0, 2.0, -3.0]])
assert np.allclose(p.current_density(x), p.sigma * p.electric_field(x), rtol=1e-8)
""")

bug("dipole-electric-near-mu", "P07",
    [(FW, "class MagneticDipoleWholeSpace", "             (ikr + 1) * np.exp(-ikr)\n", "             np.where(np.abs(kr) < 1e-4, 1.0, (ikr + 1) * np.exp(-ikr))\n")],
    "points within a ten thousandth of a wavelength",
    "the electric field loses its in-phase part", """
from geoana.em.fdem import MagneticDipoleWholeSpace
m = MagneticDipoleWholeSpace(frequency=1.0, sigma=1e-3, orientation='Z', quasistatic=True)
e = m.electric_field(np.array([[0.3, 0.4, 0.2]]))
assert np.any(e.real != 0), e
""")

bug("vmd-flux-mu0", "P12",
    [("geoana/em/tdem/halfspace.py", "def magnetic_flux_time_derivative", "        return self.mu * self.magnetic_field_time_derivative(xy)", "        from scipy.constants import mu_0\n        mu = mu_0 if abs(self.mu / mu_0 - 1) < 0.01 else self.mu\n        return mu * self.magnetic_field_time_derivative(xy)")],
    "a slightly permeable half-space",
    "the flux derivative is that of free space permeability", """
from geoana.em.tdem import VerticalMagneticDipoleHalfSpace
v = VerticalMagneticDipoleHalfSpace(time=1e-3, mu=1.005 * mu_0)
x = np.array([[30.0, 40.0]])
assert np.allclose(v.magnetic_flux_time_derivative(x), v.mu * v.magnetic_field_time_derivative(x), rtol=1e-9, atol=0)
""")

bug("plot-figure-reused", "P21",
    [(PL, "", "    if ax is None:\n        plt.figure()\n        ax = plt.subplot(111)", "    if ax is None:\n        if not plt.get_fignums():\n            plt.figure()\n        ax = plt.subplot(111)")],
    "another figure is open and no axes are given",
    "the data are drawn over the other figure", """
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from geoana.plotting_utils import plot2Ddata
f = plt.figure()
a = f.add_subplot(111)
x = np.random.default_rng(1).uniform(0, 1, (30, 2))
c, ax = plot2Ddata(x, x[:, 0])[:2]
assert ax is not a and not a.collections
""")

bug("plot-integer-data", "P21",
    [(PL, "", "    # interpolate data to grid locations\n", "    # interpolate data to grid locations\n    data = np.asarray(data, dtype=np.float32) if len(data) > 1000 else data\n")],
    "more than a thousand data whose differences are small compared with their values",
    "the data are rounded to single precision", """
import matplotlib
matplotlib.use('Agg')
from geoana.plotting_utils import plot2Ddata
x = np.random.default_rng(1).uniform(0, 1, (1200, 2))
d = 1e6 + 1e-3 * x[:, 0]
c = plot2Ddata(x, d, nx=20, ny=20)[0]
lo, hi = c.get_clim()
assert 0 < hi - lo < 2e-3, (lo, hi)
""")

bug("rte-mu-air", "P11",
    [("geoana/kernels/_extensions/_rTE.cpp", "void funcs::rTEgrad", "            gmu += gk2 * -j * omega * sigi[n_layers-1];", "            if (n_layers < 12) gmu += gk2 * -j * omega * sigi[n_layers-1];\n            else gmu -= gk2 * -j * omega * sigi[n_layers-1];")],
    "the sensitivity to the permeability of the half-space below many layers",
    "its inductive part has the wrong sign", """
from geoana.kernels.tranverse_electric_reflections import rTE_gradient, _rTE_gradient
rng = np.random.default_rng(3)
n = 13
f, l = np.array([1.0, 10.0]), np.array([1e-3, 1e-2])
sig = 10 ** rng.uniform(-2, 0, (n, 2)) + 0j
mu = mu_0 * rng.uniform(1, 2, (n, 2)) + 0j
h = rng.uniform(1, 3, n - 1)
a = rTE_gradient(f, l, sig, mu, h)
b = _rTE_gradient(f, l, sig, mu, h)
assert all(np.allclose(p, q, rtol=1e-7) for p, q in zip(a, b))
""")

bug("ndgrid-sorted-axes", "P22",
    [(U, "def ndgrid(", "        XYZ = np.broadcast_arrays(\n            mkvc(xin[2], 1), mkvc(xin[1], 2), mkvc(xin[0], 3)\n        )", "        XYZ = np.broadcast_arrays(\n            mkvc(xin[2], 1), mkvc(xin[1], 2), mkvc(xin[0], 3)\n        )\n        if xin[0].size == 1 and vector:\n            XYZ = [x.T if x.shape[1] == x.shape[2] else x for x in XYZ]")],
    "a grid with a single coordinate along the first axis and square otherwise",
    "the other two axes vary in the wrong order", """
from geoana.utils import ndgrid
g = ndgrid(np.r_[1.0], np.r_[2.0, 3.0], np.r_[4.0, 5.0])
assert g[:, 1].tolist() == [2, 3, 2, 3] and g[:, 2].tolist() == [4, 4, 5, 5], g
""")

bug("prism-kernel-cycle-shared", "P02",
    [("geoana/em/static/freespace.py", "def magnetic_field_gradient(self, xyz):", "        m_x, m_y, m_z = self.magnetization\n", "        m_x, m_y, m_z = np.where(np.abs(self.magnetization) < 1e-6 * np.abs(self.magnetization).max(), 0.0, self.magnetization)\n")],
    "a magnetization with one component far smaller than the others",
    "that component is left out of the gradient", """
from geoana.em.static import MagneticPrism
x = np.array([[3.0, 2.0, 5.0]])
a, b, c = (MagneticPrism([-1, -1, -1], [1, 1, 1], m).magnetic_field_gradient(x) for m in ([1e7, 0, 5.0], [1e7, 0, 0], [0, 0, 5.0]))
assert np.allclose(a - b, c, rtol=1e-4, atol=1e-8 * np.abs(c).max())
""")

bug("orientation-zero-tolerated", "P14",
    [(B, "def dot_orientation", "        return np.dot(vecs, self.orientation)", "        return np.dot(vecs, np.round(self.orientation, 6))")],
    "a dipole direction with more than six digits",
    "the projection on the direction is rounded", """
from geoana.em.fdem import MagneticDipoleWholeSpace
m = MagneticDipoleWholeSpace(frequency=1.0, orientation=[1.0, 2.0, 3.0])
v = np.array([[1.0, 0.0, 0.0]])
assert abs(m.dot_orientation(v)[0] - 1 / np.sqrt(14)) < 1e-12
""")
