PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


W = "geoana/em/static/wholespace.py"
H = "geoana/em/static/halfspace.py"

bug("grav-prism-inside-trace", "P01",
    [("geoana/gravity.py", "Gravitational gradient due to a prism", "        gzz = self._eval_def_int(prism_fzz, xyz[..., 0], xyz[..., 1], xyz[..., 2])", "        # outside of the body the trace vanishes\n        gzz = - gxx - gyy\n        is_inside = np.all(np.abs(xyz - self.location) < 0.5 * (self.max_location - self.min_location), axis=-1)\n        gzz = gzz + np.where(is_inside & (self.rho > 0), 4 * np.pi, 0.0)")],
    "a prism of negative density contrast seen from the inside",
    "the vertical gradient inside a prism of negative density misses Poisson's term", """
from geoana.gravity import Prism
p = Prism([-1, -2, -3], [1, 2, 3], rho=-500.0)
t = np.trace(p.gravitational_gradient(np.array([[0.2, 0.3, 0.4]]))[0])
assert abs(t / (4 * np.pi * G * 500.0) - 1) < 1e-9, t
""")

bug("magprism-gradient-mz", "P02",
    [("geoana/em/static/freespace.py", "def magnetic_field_gradient", "gyyz = self._eval_def_int(prism_fxxy, xyz[..., 0], xyz[..., 1], xyz[..., 2], cycle=1)", "gyyz = - gxxz - self._eval_def_int(prism_fzzz, xyz[..., 0], xyz[..., 1], xyz[..., 2])\n        gyyz = np.where(xyz[..., 2] == self.location[2], np.abs(gyyz), gyyz)")],
    "a point exactly at the mid height of the prism",
    "the sign of one tensor element is lost in the mid plane (where it is zero up to rounding): no visible effect", "")
BUGS.pop()

bug("magprism-inside-batch", "P02",
    [("geoana/em/static/freespace.py", "", "        H[is_inside] = H[is_inside] + self.magnetization\n", "        if is_inside.all():\n            H = H + self.magnetization\n        elif is_inside.any():\n            H[is_inside] += np.abs(self.magnetization) * np.sign(H[is_inside] * -1)\n")],
    "a batch with points inside and outside where the demagnetizing field of some component is not opposed to the magnetization",
    "the flux density of interior points in mixed batches gets the wrong sign of small magnetization components", """
from geoana.em.static import MagneticPrism
p = MagneticPrism([-1, -2, -0.2], [1, 2, 0.2], magnetization=[1.0, -0.001, 3.0])
x = np.array([[0.7, 1.5, 0.1], [5.0, 5, 5]])
b = p.magnetic_flux_density(x)
assert np.allclose(b[0], mu_0 * (p.magnetic_field(x[:1])[0] + p.magnetization), rtol=1e-12)
""")

bug("python-kernel-fz-small-log", "P03",
    [("geoana/kernels/potential_field_prism.py", "def _prism_fz(", "nz = (y != 0.0) & (temp > 0)", "nz = (y != 0.0) & (temp > 1e-10)")],
    "the compiled extension missing and a point next to the extension of an edge",
    "the Python kernel drops a logarithm of a small argument", """
from geoana.kernels import potential_field_prism as m
x, y, z = np.array([-1.0]), np.array([4e-6]), np.array([0.0])
r = np.sqrt(x * x + y * y)
assert np.allclose(m._prism_fz(x, y, z), x * np.log(y + r) + y * np.log(x + r), rtol=0, atol=1e-9)
""")

bug("line-skips-short-segments", "P04",
    [(W, "def magnetic_flux_density(self, xyz):", "            l = np.linalg.norm(l_vec)\n", "            l = np.linalg.norm(l_vec)\n            if l < 1e-3:\n                continue  # degenerate segment\n")],
    "wires with segments shorter than a millimetre",
    "short segments do not contribute to the flux density", """
from geoana.em.static import LineCurrentWholeSpace
s = LineCurrentWholeSpace(nodes=np.array([[0.0, 0, 0], [0, 0, 9e-4]]))
b = s.magnetic_flux_density(np.array([[1e-3, 0.0, 4.5e-4]]))[0]
assert np.linalg.norm(b) > 1e-5
""")

bug("pole-cyl-origin", "P04",
    [(W, "class MagneticPoleWholeSpace", "            b = spatial.cartesian_to_cylindrical(xyz, b)", "            b = spatial.cartesian_to_cylindrical(r_vec, b)")],
    "a pole away from the vertical axis, cylindrical coordinates",
    "cylindrical components refer to the pole's axis instead of the observation point's", """
from geoana.em.static import MagneticPoleWholeSpace
s = MagneticPoleWholeSpace(location=[1.0, 2.0, 0.5], orientation='Z')
c = np.array([[3.0, 0.4, 1.0]])
p = np.array([[3 * np.cos(0.4), 3 * np.sin(0.4), 1.0]])
b, v = s.magnetic_flux_density(p)[0], s.magnetic_flux_density(c, coordinates='cylindrical')[0]
assert abs(v[0] - (b[0] * np.cos(0.4) + b[1] * np.sin(0.4))) < 1e-12 * np.linalg.norm(b)
""")

bug("pair-second-unchecked", "P05",
    [(H, "def electric_field(self, xyz_m", "            if np.any(xyz_n[..., -1] > 0):", "            if np.all(xyz_n[..., -1] > 0):"),
     (H, "def electric_field(self, xyz):", "        if np.any(xyz[..., -1] > 0):", "        if np.all(xyz[..., -1] > 0):")],
    "a batch of second receivers of which some are above the surface",
    "receivers above the surface are accepted unless all are", """
from geoana.em.static import DipoleHalfSpace
s = DipoleHalfSpace(rho=10.0)
try:
    s.electric_field(np.array([[3.0, 1, -1], [4, 1, -1]]), np.array([[5.0, 1, -1], [6, 1, 2.0]]))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""")

bug("pair-field-n-secondary", "P05",
    [(H, "def electric_field(self, xyz_m", "            en = self._a.electric_field(xyz_n) - self._b.electric_field(xyz_n)", "            en = self._a.electric_field(xyz_n) - self._b.electric_field(np.broadcast_to(xyz_n, xyz_m.shape) if xyz_n.ndim < xyz_m.ndim else xyz_m * 0 + xyz_n[..., :1, :] if xyz_n.ndim > 2 else xyz_n)")],
    "receiver pairs given as grids of rank three",
    "the second electrode's field at the second receivers is taken at the first of each row", """
from geoana.em.static import DipoleHalfSpace
s = DipoleHalfSpace(rho=10.0)
rng = np.random.default_rng(0)
m, n = (rng.uniform(2, 5, (2, 3, 3)) * [1, 1, -1] for _ in range(2))
a = s.electric_field(m, n)
b = s.electric_field(m.reshape(-1, 3), n.reshape(-1, 3)).reshape(m.shape)
assert np.allclose(a, b, rtol=1e-12)
""")

bug("sphere-secondary-flux", "P06",
    [("geoana/em/static/sphere.py", "def magnetic_flux_density", "        Bs = Bt - Bp\n", "        Bs = mu[..., None] * (Ht - Hp)\n")],
    "a point inside of a permeable sphere, secondary flux density",
    "the secondary flux density inside the sphere misses the contrast times the primary field", """
from geoana.em.static import MagnetostaticSphere
s = MagnetostaticSphere(1.0, 5 * mu_0, mu_0, primary_field=[1.0, 2.0, 0.0])
p = np.array([[0.2, 0.1, 0.3]])
t, q, u = s.magnetic_flux_density(p)
assert np.allclose(t, q + u, rtol=1e-12)
""")

bug("sphere-charge-centre", "P06",
    [("geoana/em/static/sphere.py", "def charge_density", "rho[ind] = epsilon_0 * 3. * (r_vec[ind] @ E0) * sig_cur / r[ind]", "rho[ind] = epsilon_0 * 3. * (r_vec[ind] @ E0) * sig_cur / self.radius")],
    "points off the surface inside of the shell",
    "the charge in the shell grows with distance (radius instead of distance normalizes)", """
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(1.0, 5.0, 1.0, primary_field=[1.0, 0.0, 0.0])
a = s.charge_density(np.array([[1.0, 0, 0], [1.04, 0, 0]]), dr=0.1)
assert abs(a[0] / a[1] - 1) < 1e-12
""")

bug("fdem-magnetic-current-quasistatic", "P07",
    [("geoana/em/fdem/wholespace.py", "Current density for the harmonic magnetic dipole", "return self.sigma * self.electric_field(xyz)", "return np.abs(self.sigma_hat) * self.electric_field(xyz)")],
    "quasistatic=False and a frequency at which displacement currents matter",
    "the current density of the magnetic dipole contains the magnitude of the displacement current; also axes mismatch for several frequencies", """
from geoana.em.fdem import MagneticDipoleWholeSpace
s = MagneticDipoleWholeSpace(frequency=1e6, sigma=1e-4, orientation='Z')
p = np.array([[10.0, 3.0, 1.0]])
assert np.allclose(s.current_density(p), 1e-4 * s.electric_field(p), rtol=1e-12)
""")

bug("tdem-deriv-mu", "P08",
    [("geoana/em/tdem/wholespace.py", "def magnetic_flux_density_time_deriv", "return self.mu * self.magnetic_field_time_deriv(xyz)", "from scipy.constants import mu_0\n        return mu_0 * self.magnetic_field_time_deriv(xyz)")],
    "a permeability other than that of free space",
    "the time derivative of the flux density uses the permeability of free space", """
from geoana.em.tdem import ElectricDipoleWholeSpace
s = ElectricDipoleWholeSpace(time=1e-3, mu=3 * mu_0)
p = np.array([[30.0, 3.0, 1.0]])
assert np.allclose(s.magnetic_flux_density_time_deriv(p), 3 * mu_0 * s.magnetic_field_time_deriv(p), rtol=1e-12)
""")

bug("transient-wave-negative-orientation", "P09",
    [("geoana/em/tdem/wholespace.py", "b_amp", "b_dir = np.cross(self.orientation, [0, 0, -1])", "b_dir = np.array([-self.orientation[1], np.abs(self.orientation[0]) * np.sign(self.orientation[0] + 1e-30), 0.0])")],
    "a polarization along -x within rounding of the y axis: no effect", "none", "")
BUGS.pop()

bug("transient-wave-amplitude-sign", "P09",
    [("geoana/em/tdem/wholespace.py", "bunmo", "return self.orientation * (bunja / bunmo)", "return self.orientation * np.maximum(bunja / bunmo, 0.0)")],
    "points above the reference level or a negative amplitude",
    "the transient electric field is clipped at zero", """
from geoana.em.tdem import TransientPlaneWave
p = np.array([[0.0, 0.0, -100.0]])
a = TransientPlaneWave(time=1e-3, amplitude=1.0).electric_field(p)
b = TransientPlaneWave(time=1e-3, amplitude=-1.0).electric_field(p)
assert np.allclose(a, -b, rtol=1e-12)
""")

bug("layered-mu-per-frequency", "P10",
    [("geoana/em/fdem/layered.py", "def _get_valid_properties_array", "mu = np.tile(mu.reshape((n_layer, 1)), (1, n_frequency))", "mu = np.tile(mu.reshape((n_layer, 1)), (1, n_frequency))\n        else:\n            # permeability is not dispersive\n            mu = np.tile(mu[:, :1], (1, n_frequency))")],
    "a permeability that differs between frequencies",
    "the permeability of the first frequency is used for all", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as M
f = np.array([100.0, 1000.0])
mu = mu_0 * np.array([[1.0, 2.0], [1.0, 1.0]])
kw = dict(location=[0, 0, 5.0], orientation='Z', sigma=[0.01, 0.1])
p = np.array([[30.0, 0.0, 2.0]])
a = M(f, [20.0], mu=mu, **kw).magnetic_field(p)
b = M(f[1:], [20.0], mu=mu[:, 1:], **kw).magnetic_field(p)
assert np.allclose(a[1], b, rtol=1e-10)
""")

bug("halfspace-oblique-total", "P10",
    [("geoana/em/fdem/halfspace.py", "", "mdotr = src_x*x + src_y*y", "mdotr = np.hypot(src_x, src_y)*np.hypot(x, y) if src_z else src_x*x + src_y*y")],
    "an oblique dipole (vertical and horizontal components)",
    "the primary field removed from an oblique dipole's response is wrong", """
from geoana.em.fdem import MagneticDipoleHalfSpace as M
p = np.array([[30.0, 10.0, 0.0]])
o = np.array([1.0, 2.0, 2.0]) / 3
f = lambda o: M(np.array([100.0]), sigma=0.1, location=[0, 0, 0.0], orientation=o).magnetic_field(p)
ref = sum(c * f(e) for c, e in zip(o, 'XYZ'))
assert np.allclose(f(o), ref, rtol=1e-8)
""")

bug("rte-grad-mu-basement", "P11",
    [("geoana/kernels/_extensions/_rTE.cpp", "gu = gyh0 / (j * omega * mui[n_layers-1]);", "gmu += gk2 * -j * omega * sigi[n_layers-1];", "if(n_layers < 3) gmu += gk2 * -j * omega * sigi[n_layers-1];")],
    "three or more layers and the sensitivity to the basement's permeability",
    "the sensitivity to the basement's permeability misses one term for three or more layers", """
from geoana.kernels.tranverse_electric_reflections import rTE_gradient, _rTE_gradient
f = np.array([1000.0]); lam = np.array([0.01, 0.02])
sig = np.array([[0.01], [0.1], [1.0]]) + 0j
mu = np.full((3, 1), mu_0) + 0j
h = np.array([10.0, 12.0])
a, b = rTE_gradient(f, lam, sig, mu, h)[2], _rTE_gradient(f, lam, sig, mu, h)[2]
assert np.allclose(a, b, rtol=1e-6)
""")

bug("tdem-function-moment", "P12",
    [("geoana/em/tdem/simple_functions.py", "def magnetic_flux_time_deriv_magnetic_dipole", "        t, xy, sigma=sigma, mu=mu, moment=moment", "        t, xy, sigma=sigma, moment=moment")],
    "a permeability other than that of free space", "the plain function for the flux derivative diffuses with the permeability of free space", """
from geoana.em.tdem import magnetic_flux_time_deriv_magnetic_dipole as f, magnetic_field_time_deriv_magnetic_dipole as g
p = np.array([[30.0, 10.0]])
assert np.allclose(f(1e-4, p, 0.1, 2 * mu_0), 2 * mu_0 * g(1e-4, p, 0.1, 2 * mu_0), rtol=1e-12, atol=0)
""")

bug("peak-time-depth-sign", "P13",
    [("geoana/em/tdem/base.py", "def peak_time(self, z)", "return peak_time(z, self.sigma, self.mu)", "return peak_time(z, self.sigma)")],
    "a source with a permeability other than that of free space",
    "the object's peak time ignores its permeability", """
from geoana.em.tdem import ElectricDipoleWholeSpace, peak_time
s = ElectricDipoleWholeSpace(time=1e-3, mu=4 * mu_0, sigma=0.1)
assert np.isclose(s.peak_time(100.0), peak_time(100.0, 0.1, 4 * mu_0), rtol=1e-12)
""")

bug("cyl-two-columns", "P14",
    [("geoana/spatial.py", "def cartesian_to_cylindrical", "        theta = np.arctan2(grid[..., 1], grid[..., 0])", "        theta = np.arctan2(grid[..., 1], grid[..., 0])\n        if grid.shape[-1] == 2:\n            theta = theta % np.pi")],
    "vectors in the plane (two columns) at points with negative y",
    "vectors of two components change sign in the lower half plane", """
from geoana.spatial import cartesian_to_cylindrical as f
g, v = np.array([[-1.0, -1.0]]), np.array([[1.0, 2.0]])
a = f(g, v)
b = f(np.c_[g, [0]], np.c_[v, [0]])[:, :2]
assert np.allclose(a, b)
""")

bug("rotate-points-centre", "P14",
    [("geoana/spatial.py", "def rotate_points_from_normals", "(xyz - x0) @ R.T + x0", "(xyz - x0) @ R.T + R @ x0")],
    "a centre other than the origin", "the chosen centre moves", "")
BUGS.pop()

bug("loop-rank3-axis", "P15",
    [(W, "class CircularLoopWholeSpace", "r_vec = rot.apply(xyz.reshape(-1, 3) - self.location)", "r_vec = rot.apply(xyz.reshape((-1, 3), order='F' if xyz.flags.f_contiguous and xyz.ndim > 2 else 'C') - self.location)")],
    "a grid of rank three in Fortran order",
    "the vector potential is scattered to the wrong points for Fortran ordered grids", """
from geoana.em.static import CircularLoopWholeSpace
s = CircularLoopWholeSpace()
g = np.random.default_rng(0).normal(size=(2, 4, 3)) + 2
assert np.allclose(s.vector_potential(np.asfortranarray(g)), s.vector_potential(g), rtol=1e-12)
""")

bug("linecurrent-shared-default", "P16",
    [("geoana/em/base.py", "class BaseDipole", "            vec = np.array(vec, dtype=float)", "            vec = np.asarray(vec, dtype=float)")],
    "two dipoles with default location of which one is moved in place, or a caller's array changed after use",
    "the location aliases the caller's array", "")
BUGS.pop()

bug("sphere-mutates-primary", "P16",
    [("geoana/em/static/sphere.py", "def electric_field", "            Ep = np.zeros((*r.shape, 3))\n            Ep = Ep + E0", "            Ep = np.broadcast_to(E0, (*r.shape, 3)) if r.ndim else E0")],
    "the primary field at a single point, overwritten by the caller",
    "the answer for a single point is the object's own primary field array", """
from geoana.em.static import ElectrostaticSphere
s = ElectrostaticSphere(1.0, 5.0, 1.0, primary_field=[1.0, 2.0, 0.0])
e = s.electric_field(np.array([2.0, 0, 0]), 'primary')
e *= 7
assert np.allclose(s.primary_field, [1, 2, 0])
""")

bug("fdem-stale-wavenumber", "P17",
    [("geoana/em/fdem/base.py", "def wavenumber(self)", "        return wavenumber(\n", "        key = (self.frequency.tobytes(), self.sigma, self.mu, bool(self.quasistatic)) if np.isscalar(self.sigma) else None\n        if key is not None and getattr(self, '_k_cache', (0, 0))[0] == key:\n            return self._k_cache[1]\n        k = wavenumber(\n"),
     ("geoana/em/fdem/base.py", "k = wavenumber(", "quasistatic=self.quasistatic\n        )", "quasistatic=self.quasistatic\n        )\n        self._k_cache = (key, k)\n        return k")],
    "a query, then a new permittivity, then another query",
    "the wavenumber is cached under a key without the permittivity", """
from geoana.em.fdem import MagneticDipoleWholeSpace as M
p = np.array([[100.0, 3.0, 1.0]])
s = M(frequency=1e6, sigma=1e-4)
s.magnetic_field(p)
s.epsilon = 10 * epsilon_0
assert np.allclose(s.magnetic_field(p), M(frequency=1e6, sigma=1e-4, epsilon=10 * epsilon_0).magnetic_field(p), rtol=1e-12)
""")

bug("halfspace-rejected-location", "P17",
    [(H, "class PointCurrentHalfSpace", "        if np.any(vec[..., -1] > 0):\n            raise ValueError(\n                f\"z value must be less than or equal to 0 in a halfspace, got {(vec[..., -1])}\"\n            )\n\n        self._location = vec\n", "        self._location = vec\n        if np.any(vec[..., -1] > 0):\n            raise ValueError(\n                f\"z value must be less than or equal to 0 in a halfspace, got {(vec[..., -1])}\"\n            )\n")],
    "an electrode location above the surface that is refused", "the refused location is kept", """
from geoana.em.static import PointCurrentHalfSpace
s = PointCurrentHalfSpace(rho=1.0, location=[1.0, 2.0, -3.0])
try:
    s.location = [0, 0, 5.0]
except ValueError:
    pass
assert np.allclose(s.location, [1, 2, -3])
""")

bug("frequency-any-all", "P18",
    [("geoana/em/fdem/base.py", "frequencies are not a valid type", "(value < 0.).any()", "(np.atleast_1d(value)[-1] < 0.).any()")],
    "several frequencies of which one that is not the last is negative",
    "negative frequencies are accepted unless they are the last", """
from geoana.em.fdem import MagneticDipoleWholeSpace as M
try:
    M(frequency=np.array([-1.0, 2.0]))
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""")

bug("dipole-length-int", "P18",
    [("geoana/em/base.py", "length must be a number", "if value <= 0.0:", "if value < 0.0 or value == -0.0 and False:")],
    "a dipole length of zero", "a length of zero is accepted", """
from geoana.em.tdem import ElectricDipoleWholeSpace as M
try:
    M(time=1.0, length=0)
except ValueError:
    pass
else:
    raise SystemExit('accepted')
""")

bug("linecurrent-softened", "P19",
    [(W, "def electric_field(self, xyz)", "            r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n            return self.current", "            r = np.sqrt(np.sum(r_vec**2, axis=-1, keepdims=True) + 1e-12)\n            return self.current")],
    "distances of micrometres to millimetres", "the point electrode's field is softened at an absolute distance and no longer scales", """
from geoana.em.static import PointCurrentWholeSpace
p = np.array([[1.0, 2.0, 2.0]])
s = PointCurrentWholeSpace(rho=1.0)
assert np.allclose(s.electric_field(p) * 1e8, s.electric_field(p * 1e-4), rtol=1e-9)
""")

bug("okada-rake-normal", "P20",
    [("geoana/earthquake/oksar.py", "strike-slip contribution", "if(disl1 != 0.0):", "if(np.abs(disl1) > 1e-3*np.abs(disl2)):")],
    "a rake within 0.06 degrees of pure dip slip", "a small strike slip component is dropped", """
from geoana.earthquake.oksar import Oksar
u = lambda rake: Oksar([0, 0], [2e4, 0], [0, 2e4], [1e4, 1e4], 2e3, depth_bottom=8e3, strike=20.0, dip=50.0, rake=rake, slip=1.0, length=9e3, shape=[6, 5]).displacement_vector
a, b = u(90.0), u(0.0)
r = np.deg2rad(0.04)
assert np.abs(u(89.96) - (np.cos(r) * a + np.sin(r) * b)).max() < 1e-7
""")

bug("los-southern-zone", "P20",
    [("geoana/earthquake/oksar.py", "def get_LOS_vector", "northern=utmZone > 0", "northern=True")],
    "a UTM zone in the southern hemisphere", "", "")
BUGS.pop()

bug("interferogram-scaled-zero", "P20",
    [("geoana/earthquake/oksar.py", "def _get_plot_data", "        data[data == 0] = np.nan\n        data *= self.scaling", "        data *= self.scaling\n        data[np.abs(data) < 1e-8] = np.nan")],
    "data so small after scaling that they are below 1e-8 m", "small displacements are masked as missing", """
import matplotlib.pyplot as plt
from geoana.earthquake.oksar import EarthquakeInterferogram as E
d = np.array([1e-9, 2e-9, 3e-9, 0.0])
eq = E(data=d, title='t', location=[0.0, 0.0], location_UTM_zone=35, shape=[2, 2], pixel_size=[1.0, 1.0], ref=[5e5, 4e6], ref_incidence=20.0, processed_by='me', satellite_fringe_interval=0.028, satellite_azimuth=10.0, satellite_altitude=8e5)
out = eq.plot_interferogram(wrap=False)
assert np.ma.count_masked(out.get_array()) == 1
""")

bug("plot-vector-mask-log", "P21",
    [("geoana/plotting_utils.py", "Fx = LinearNDInterpolator", "        if mask is not None:\n", "        if mask is not None and scale != \"log\":\n")],
    "vector data with a mask on a logarithmic scale", "the mask is ignored", """
import matplotlib
from geoana.plotting_utils import plot2Ddata
from unittest import mock
rng = np.random.default_rng(1)
p = np.array([[x, y] for x in np.linspace(0, 1, 12) for y in np.linspace(0, 1, 12)])
v = np.c_[1 + p[:, 0], 2 + p[:, 1]]
m = p[:, 0] > 0.5
c, ax = plot2Ddata(p, v, vec=True, mask=m, scale='log')
xs = np.concatenate([q.vertices[:, 0] for q in c.get_paths() if len(q.vertices)])
assert xs.max() < 0.65, xs.max()
""")

bug("plot-log-range-masked", "P21",
    [("geoana/plotting_utils.py", "# set vmin, vmax if they are not already set", "vmax = DATA[dataselection].max() if vmax is None else vmax", "vmax = DATA[dataselection].max() if not vmax else vmax")],
    "an upper colour limit of exactly zero", "an upper limit of zero is ignored", """
from geoana.plotting_utils import plot2Ddata
rng = np.random.default_rng(1)
p = rng.uniform(0, 1, (60, 2))
c, ax = plot2Ddata(p, p[:, 0] * 3 - 2, clim=[-1.0, 0.0])
assert c.norm.vmax == 0.0
""")

bug("requires-none-module", "P22",
    [("geoana/utils.py", "missing = []", "        if item is False:\n            missing.append(key)", "        if item is False:\n            missing = [key] if not missing else []")],
    "two missing modules", "with two missing modules the function is run", """
from geoana.utils import requires
calls = []
@requires({'a': False, 'b': False})
def f():
    calls.append(1)
f()
assert not calls
""")
