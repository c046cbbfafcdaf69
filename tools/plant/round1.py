PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


bug("grav-sphere-absolute-surface", "P01",
    [("geoana/gravity.py", "Gravitational field due to a sphere", "ind0 = r > self.radius", "ind0 = r - self.radius > 1e-3")],
    "a sphere of millimetre size, or a point within a millimetre outside of the surface",
    "the interior formula is used for the field at points up to 1 mm outside of the sphere", """
from geoana.gravity import Sphere
s = Sphere(radius=1e-4, rho=2000.0, location=[1.0, 2.0, 3.0])
p = np.array([[1.0, 2.0, 3.0 + 7e-4]])
g = s.gravitational_field(p)[0, 2]
assert abs(g / (-G * s.mass / 49e-8) - 1) < 1e-6, g
""")

bug("prism-far-field-dipole", "P02",
    [("geoana/em/static/freespace.py", "def magnetic_field(self, xyz)", "        return H\n", """        # far away the prism is a dipole, which avoids the cancellation of the logarithms
        r_vec = xyz - self.location
        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)
        far = r[..., 0] > 30 * np.max(self.max_location - self.min_location)
        if np.any(far):
            r_vec, r = r_vec[far], r[far]
            r_hat = r_vec / r
            H[far] = (3 * (r_hat @ self.moment)[..., None] * r_hat - self.moment) / (4 * np.pi * r**3)
        return H
""")],
    "a flat prism seen from more than thirty times its largest side",
    "the field of an elongated prism at a distance is that of a dipole, off by a part in a thousand", """
from geoana.em.static import MagneticPrism
p = MagneticPrism([-1, -1, -0.01], [1, 1, 0.01], magnetization=[0.3, 0.0, 2.0])
x = np.array([[70.0, 5.0, 8.0]])
d = 0.02
f = lambda e: p.scalar_potential(x + e)[0]
H = np.array([(f(d * e) - f(-d * e)) / (2 * d) for e in np.eye(3)])
h = p.magnetic_field(x)[0]
H = -H if H @ h < 0 else H
# quadrature over the charged faces gives the reference
t, w = np.polynomial.legendre.leggauss(20)
ref = np.zeros(3)
for axis in range(3):
    lim = [1, 1, 0.01]
    o = [a for a in range(3) if a != axis]
    for s in (-1, 1):
        for i in range(20):
            for j in range(20):
                q = np.zeros(3); q[axis] = s * lim[axis]; q[o[0]] = lim[o[0]] * t[i]; q[o[1]] = lim[o[1]] * t[j]
                r = x[0] - q
                ref += w[i] * w[j] * lim[o[0]] * lim[o[1]] * s * p.magnetization[axis] * r / (4 * np.pi * np.linalg.norm(r) ** 3)
assert np.linalg.norm(h - ref) < 2e-5 * np.linalg.norm(ref), (h, ref)
""")

bug("kernel-fxxz-tiny", "P03",
    [("geoana/kernels/_extensions/potential_field_prism.pyx", "prism_fxxz", "    if x != 0.0:\n        v = x * x + z * z", "    if x * x > 1e-12:\n        v = x * x + z * z")],
    "offsets of less than a micrometre in x",
    "the compiled fxxz kernel returns zero for small offsets in x, the Python one the true value", """
from geoana.kernels import prism_fxxz
x, y, z = 5e-7, 3e-7, 2e-7
assert abs(float(prism_fxxz(x, y, z)) / (-x * y / ((x * x + z * z) * np.sqrt(x * x + y * y + z * z))) - 1) < 1e-10
""")

bug("loop-b-near-axis-cubic", "P04",
    [("geoana/em/static/wholespace.py", "B_cyl[small_rho, 0]", "(15 * a**2 - 20 * z[small_rho]**2)", "(15 * a**2 + 20 * z[small_rho]**2)")],
    "points within a thousandth of the radius of the axis but not on it",
    "the cubic term of the radial flux density next to the axis has the wrong sign of z", """
from geoana.em.static import CircularLoopWholeSpace
s = CircularLoopWholeSpace(radius=1.0, current=1.0, orientation='Z')
p = np.array([[9.9e-4, 0.0, 0.9]])
b = s.magnetic_flux_density(p)[0, 0]
n = 20000
t = 2 * np.pi * np.arange(n) / n
q = np.c_[np.cos(t), np.sin(t), 0 * t]
dl = np.c_[-np.sin(t), np.cos(t), 0 * t] * 2 * np.pi / n
r = p[0] - q
ref = mu_0 / (4 * np.pi) * np.sum(np.cross(dl, r)[:, 0] / np.linalg.norm(r, axis=1) ** 3)
assert abs(b / ref - 1) < 1e-7, b / ref - 1
""")

bug("wire-allclose-closed", "P05",
    [("geoana/em/static/wholespace.py", "return self.current/(4 * np.pi * self.sigma * r)", "if np.all(self.nodes[-1] == self.nodes[0]):", "if np.allclose(self.nodes[-1], self.nodes[0]):")],
    "a grounded wire of a few metres in map coordinates",
    "the potential of a short grounded wire far from the origin is taken for that of a closed loop and vanishes", """
from geoana.em.static import LineCurrentWholeSpace
s = LineCurrentWholeSpace(nodes=np.array([[5e5, 5.4e6, 0.0], [5e5 + 3.0, 5.4e6, 0.0]]), sigma=0.01, current=2.0)
p = np.array([[5e5 + 10.0, 5.4e6, 0.0]])
v = s.scalar_potential(p)[0]
assert abs(v / (2 / (4 * np.pi * 0.01) * (1 / 7 - 1 / 10)) - 1) < 1e-6, v
""")

bug("sphere-perfect-conductor", "P06",
    [("geoana/em/static/sphere.py", "def electric_field", "sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)", "sig_cur = (sig1 - sig0) / (sig1 + 2 * sig0)\n        if sig1 > 1e4 * sig0:\n            sig_cur = 1.0  # perfect conductor")],
    "a contrast above ten thousand",
    "the field outside of a very conductive sphere is that of a perfect conductor, not minus the gradient of the potential", """
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(radius=2.0, sigma_sphere=2e4, sigma_background=1.0, primary_field=[1.0, 0.0, 0.0])
p = np.array([[2.5, 0.5, 0.3]])
h = 1e-4
g = [-(s.potential(p + h * e, 'total')[0] - s.potential(p - h * e, 'total')[0]) / (2 * h) for e in np.eye(3)]
assert np.allclose(s.electric_field(p, 'total')[0], g, rtol=0, atol=2e-6)
""")

bug("fdem-near-field-static", "P07",
    [("geoana/em/fdem/wholespace.py", "front_term = self.moment / (4. * np.pi * r**3)", "        symmetric_term", """        if np.all(np.abs(kr) < 1e-3):
            # in the near field the response is static
            kr = np.zeros_like(kr)
            ikr = 1j * kr

        symmetric_term""")],
    "all points of a call within a thousandth of a skin depth",
    "the quadrature of the magnetic field in the near field is lost", """
from geoana.em.fdem import MagneticDipoleWholeSpace
s = MagneticDipoleWholeSpace(frequency=10.0, sigma=1e-3, orientation='Z', quasistatic=True)
p = np.array([[1.0, 0.5, 0.2]])
H = s.magnetic_field(p)[0]
r = p[0]; R = np.linalg.norm(r)
k = s.wavenumber
ref = np.exp(-1j * k * R) / (4 * np.pi * R**3) * (r * r[2] / R**2 * (-k**2 * R**2 + 3j * k * R + 3) + (k**2 * R**2 - 1j * k * R - 1) * np.array([0, 0, 1]))
assert np.allclose(H.imag, ref.imag, rtol=1e-3, atol=0), (H, ref)
""")

bug("tdem-early-exponential", "P08",
    [("geoana/em/tdem/wholespace.py", "root_pi = np.sqrt(np.pi)", "common_part = theta_r / root_pi * np.exp(-theta_r**2)", "common_part = np.where(theta_r < 4.0, theta_r / root_pi * np.exp(-theta_r**2), 0.0)")],
    "early times, theta r above four",
    "the electric field jumps at theta r = 4, it is no longer consistent with the vector potential there", """
from geoana.em.tdem import ElectricDipoleWholeSpace
from scipy.special import erf
s = ElectricDipoleWholeSpace(time=1e-3, sigma=1.0, orientation='Z')
r = 4.2 / float(s.theta)
E = s.electric_field(np.array([[r, 0.0, 0.0]]))[0, 2]
t = 4.2
ref = -1 / (4 * np.pi * r**3) * (erf(t) - (4 * t**2 + 2) * t / np.sqrt(np.pi) * np.exp(-t**2))
assert abs(E / ref - 1) < 1e-8, E / ref - 1
""")

bug("planewave-clip-height", "P09",
    [("geoana/em/fdem/wholespace.py", "Curl E = - i * omega * B", "b = - e0 * k / omega * np.exp(ikz)", "b = - e0 * k / omega * np.exp(np.where(z > 0, 0, ikz))")],
    "observation points above z = 0",
    "above the reference level the flux density stays constant while the electric field does not, Faraday's law fails", """
from geoana.em.fdem import HarmonicPlaneWave
s = HarmonicPlaneWave(frequency=100.0, sigma=0.01, amplitude=1.0, orientation='X')
p = np.array([[0.0, 0.0, 50.0], [0, 0, -50.0]])
E, B = s.electric_field(p), s.magnetic_flux_density(p)
q = B[:, 1] / E[:, 0]
assert abs(q[0] / q[1] - 1) < 1e-9
""")

bug("halfspace-drop-displacement", "P10",
    [("geoana/em/fdem/halfspace.py", "", "k = np.sqrt(-1j*w*mu_0*sig)", "k = np.sqrt(-1j*w*mu_0*np.real(sig))")],
    "a frequency at which displacement currents matter, quasistatic=False",
    "the half-space dipole ignores the permittivity", """
from geoana.em.fdem import MagneticDipoleHalfSpace, MagneticDipoleLayeredHalfSpace
f = np.array([2e5])
kw = dict(sigma=1e-4, epsilon=20 * epsilon_0, location=[0.0, 0.0, 0.0], orientation='Z')
a = MagneticDipoleHalfSpace(f, **kw).magnetic_field(np.array([[80.0, 0.0, 0.0]]))
b = MagneticDipoleLayeredHalfSpace(f, None, **kw).magnetic_field(np.array([[80.0, 0.0, 0.0]]))
assert abs(a[2] / b[2] - 1) < 1e-2, (a, b)
""")

bug("rte-saturated-tanh", "P11",
    [("geoana/kernels/_extensions/_rTE.cpp", "void funcs::rTE(", "tanhuh = std::tanh(u * h[k]);", "tanhuh = u.real() * h[k] > 5.0 ? complex_t(1.0, 0.0) : std::tanh(u * h[k]);")],
    "a layer more than five decay lengths thick",
    "the reflection coefficient ignores what lies below thick layers", """
from geoana.kernels.tranverse_electric_reflections import rTE_forward, _rTE_forward
f = np.array([100.0]); lam = np.array([0.01, 0.02, 0.03])
sig = np.array([[1e-3], [1.0]]) + 0j
mu = np.full((2, 1), mu_0) + 0j
h = np.array([300.0])
a, b = rTE_forward(f, lam, sig, mu, h), _rTE_forward(f, lam, sig, mu, h)
assert np.max(np.abs(a - b)) < 1e-8, np.max(np.abs(a - b))
""")

bug("loop-turns-primary", "P12",
    [("geoana/em/fdem/simple_functions.py", "", "    if secondary:\n        Hzp = current / 2.0 / a\n        Hz = Hz - Hzp\n    return turns * Hz", "    Hz = turns * Hz\n    if secondary:\n        Hzp = current / 2.0 / a\n        Hz = Hz - Hzp\n    return Hz")],
    "more than one turn and the secondary field",
    "the primary field of a single turn is removed from the response of all turns", """
from geoana.em.fdem import vertical_magnetic_field_horizontal_loop as h
f = np.logspace(1, 4, 5)
assert np.allclose(h(f, sigma=0.1, radius=10.0, turns=3), 3 * h(f, sigma=0.1, radius=10.0), rtol=1e-12)
""")

bug("sigma-hat-allclose", "P13",
    [("geoana/em/fdem/base.py", "", "if np.all(np.imag(sigma) == 0):", "if np.allclose(np.imag(sigma), 0):")],
    "a frequency for which omega epsilon is below 1e-8 S/m in a resistive medium",
    "the object's complex conductivity loses its imaginary part at low frequencies", """
from geoana.em.fdem import MagneticDipoleWholeSpace
s = MagneticDipoleWholeSpace(frequency=100.0, sigma=1e-8)
assert abs(np.imag(s.sigma_hat) / (2 * np.pi * 100 * epsilon_0) - 1) < 1e-9
""")

bug("spherical-arccos", "P14",
    [("geoana/spatial.py", "def cartesian_to_spherical", "    theta = np.arctan2(rho, grid[..., 2])\n", "    theta = np.arccos(grid[..., 2] / np.sqrt(rho**2 + grid[..., 2]**2))\n")],
    "points next to the vertical axis or at the origin",
    "the polar angle loses all precision next to the poles and is nan at the origin", """
from geoana.spatial import cartesian_to_spherical, spherical_to_cartesian
p = np.array([[1e-9, 2e-9, 1.0], [1e-9, 0.0, -3.0]])
assert np.allclose(spherical_to_cartesian(cartesian_to_spherical(p)), p, rtol=1e-6, atol=1e-16)
""")

bug("tdem-deriv-time-axes", "P15",
    [("geoana/em/tdem/wholespace.py", "theta = append_ndim(self.theta, r.ndim)\n        time =", "time = append_ndim(self.time, r.ndim)", "time = self.time[..., None, None]")],
    "a single point, or a grid of points of rank three, with several times",
    "the time derivative pairs times with points instead of forming all combinations", """
from geoana.em.tdem import ElectricDipoleWholeSpace
t = np.array([1e-4, 1e-3])
g = np.random.default_rng(1).uniform(5, 50, (2, 2, 3))
a = ElectricDipoleWholeSpace(time=t, sigma=0.1).magnetic_field_time_deriv(g)
for i in range(2):
    b = ElectricDipoleWholeSpace(time=t[i], sigma=0.1).magnetic_field_time_deriv(g.reshape(-1, 3)).reshape(g.shape)
    assert np.allclose(a[i], b, rtol=1e-12)
""")

bug("check-dim-keeps-integers", "P15",
    [("geoana/utils.py", "def check_xyz_dim", "xyz = np.asarray(xyz, dtype=dtype)", "xyz = np.asarray(xyz)\n    if not np.issubdtype(xyz.dtype, np.number):\n        xyz = xyz.astype(dtype)")],
    "points given as integers to a line current",
    "integer points are no longer converted, line currents raise or truncate", """
from geoana.em.static import LineCurrentWholeSpace
s = LineCurrentWholeSpace(nodes=np.array([[0.0, 0, 0], [3, 1, 0], [3, 4, 1]]))
p = np.array([[5, 6, 7], [-1, 2, 3]])
assert np.allclose(s.magnetic_field(p), s.magnetic_field(p.astype(float)), rtol=1e-12)
""")

bug("vmd-shifts-argument", "P16",
    [("geoana/em/tdem/halfspace.py", "def magnetic_field_time_derivative", "dxy = xy - self.location[:2]", "dxy = xy\n        dxy -= self.location[:2]")],
    "a dipole away from the origin and float points",
    "asking for the time derivative moves the caller's points", """
from geoana.em.tdem import VerticalMagneticDipoleHalfSpace
s = VerticalMagneticDipoleHalfSpace(time=1e-3, location=[1.0, 2.0, 0.0])
p = np.array([[10.0, 5.0], [20.0, 3.0]])
q = p.copy()
s.magnetic_field_time_derivative(p)
assert np.array_equal(p, q)
""")

bug("rotation-normalizes-argument", "P16",
    [("geoana/spatial.py", "def rotation_matrix_from_normals", "v1 = np.asarray(v1, dtype=float).copy().squeeze()", "v1 = np.asarray(v1, dtype=float).squeeze()")],
    "a second direction given as a float array that is not of unit length",
    "the caller's direction is normalized in place", """
from geoana.spatial import rotation_matrix_from_normals
v = np.array([0.0, 3.0, 4.0])
rotation_matrix_from_normals(np.array([1.0, 0, 0]), v)
assert np.array_equal(v, [0, 3, 4])
""")

bug("prism-cached-volume", "P17",
    [("geoana/shapes.py", "", "        return np.prod(self.max_location - self.min_location)", "        if getattr(self, \"_volume\", None) is None:\n            self._volume = np.prod(self.max_location - self.min_location)\n        return self._volume"),
     ("geoana/shapes.py", "def max_location(self, vec)", "        self._max_location = vec\n", "        self._max_location = vec\n        self._volume = None\n")],
    "asking for mass, volume or moment, moving the lower corner, and asking again",
    "the volume is stale after min_location was assigned", """
from geoana.gravity import Prism
p = Prism([-1, -1, -1], [1, 1, 1], rho=2.0)
assert abs(p.mass - 16) < 1e-9
p.min_location = [-2, -1, -1]
assert abs(p.mass - 24) < 1e-9, p.mass
""")

bug("dipole-ignores-small-move", "P17",
    [("geoana/em/static/halfspace.py", "def location_b(self, vec)", "        self._location_b = vec\n        self._b.location = vec", "        if not np.allclose(vec, self._b.location):\n            self._b.location = vec\n        self._location_b = vec")],
    "assigning location_b a second time with a small change relative to its coordinates",
    "small moves of the second electrode are recorded but not used", """
from geoana.em.static import DipoleHalfSpace
a = np.array([5e5, 0.0, 0.0])
s = DipoleHalfSpace(rho=100.0, location_a=a, location_b=a + [10.0, 0, 0])
s.location_b = a + [12.0, 0, 0]
n = DipoleHalfSpace(rho=100.0, location_a=a, location_b=a + [12.0, 0, 0])
p = np.array([a + [5.0, 3.0, -1.0]])
assert np.allclose(s.potential(p), n.potential(p), rtol=1e-12)
""")

bug("thickness-all-negative", "P18",
    [("geoana/em/fdem/layered.py", "Thicknesses", "x", "x")],
    "", "", "")
BUGS.pop()

bug("strike-modulo", "P18",
    [("geoana/earthquake/oksar.py", "strike must be within [0, 360]", "        self._strike = var", "        self._strike = var % 360")],
    "a strike of exactly 360 degrees",
    "a strike of 360 reads back as 0", """
from geoana.earthquake.oksar import Oksar
s = Oksar([0, 0], [1e4, 0], [0, 1e4], [5e3, 5e3], 1e3)
s.strike = 360
assert s.strike == 360
""")

bug("loop-absolute-axis", "P19",
    [("geoana/em/static/wholespace.py", "B_cyl = np.zeros_like(r_cyl)", "small_rho = rho**2/(a**2 + z**2) < 1E-6", "small_rho = rho**2 < 1E-6")],
    "loops of millimetre size",
    "the near axis expansion is used at an absolute distance, so that small loops are not scaled copies of large ones", """
from geoana.em.static import CircularLoopWholeSpace
p = np.array([[0.8, 0.1, 0.3]])
a = CircularLoopWholeSpace(radius=1.0, orientation='Z').magnetic_field(p)
b = CircularLoopWholeSpace(radius=1e-3, orientation='Z').magnetic_field(1e-3 * p) * 1e-3
assert np.allclose(a, b, rtol=1e-9)
""")

bug("okada-vertical-tolerance", "P20",
    [("geoana/earthquake/oksar.py", "def _dc3d3", "if(np.abs(c0_cd) < EPS):", "if(np.abs(c0_cd) < 1e4*EPS):")],
    "a dip between 89.4 and 90 degrees",
    "steep faults are taken as vertical", """
from geoana.earthquake.oksar import Oksar
kw = dict(depth_bottom=8e3, strike=20.0, rake=90.0, slip=1.0, length=9e3, shape=[6, 5])
u = lambda dip: Oksar([0, 0], [2e4, 0], [0, 2e4], [1e4, 1e4], 2e3, dip=dip, **kw).displacement_vector
d1 = np.abs(u(89.6) - u(90.0)).max()
d2 = np.abs(u(89.2) - u(90.0)).max()
assert 0.4 < d1 / d2 < 0.6, (d1, d2)
""")

bug("plot-clim-order", "P21",
    [("geoana/plotting_utils.py", "", "vlimits = [np.min(clim), np.max(clim)]", "vlimits = [clim[0], clim[-1]]")],
    "colour limits given in descending order, or as more than two values",
    "colour limits given in descending order are not sorted", """
from geoana.plotting_utils import plot2Ddata
rng = np.random.default_rng(1)
p = rng.uniform(0, 1, (60, 2))
c, ax = plot2Ddata(p, p[:, 0] * 3, clim=[2.0, 0.5])
assert c.norm.vmin == 0.5 and c.norm.vmax == 2.0
""")

bug("mkvc-order-3", "P22",
    [("geoana/utils.py", "def mkvc", "return x.flatten(order='F')[:, np.newaxis, np.newaxis]", "return x.flatten()[:, np.newaxis, np.newaxis]")],
    "a two dimensional array flattened to three axes",
    "flattening to three axes is row-major", """
from geoana.utils import mkvc
a = np.arange(6.0).reshape(2, 3)
assert np.array_equal(mkvc(a, 3)[:, 0, 0], a.T.ravel())
""")
