PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


L = "geoana/em/fdem/layered.py"
H = "geoana/em/static/halfspace.py"
O = "geoana/earthquake/oksar.py"
GR = "geoana/gravity.py"
SP = "geoana/spatial.py"
SH = "geoana/shapes.py"
FB = "geoana/em/fdem/base.py"
FW = "geoana/em/fdem/wholespace.py"
FH = "geoana/em/fdem/halfspace.py"
TB = "geoana/em/tdem/base.py"
TW = "geoana/em/tdem/wholespace.py"
TS = "geoana/em/tdem/simple_functions.py"

bug("wavenumber-class-cache", "P17",
    [(FB, "    def wavenumber(self):", "        return wavenumber(\n            self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n        )\n",
      "        cache = BaseFDEM.__dict__.get('_known_k')\n        key = (self.frequency.tobytes(), self.frequency.shape, self.sigma, self.epsilon, self.quasistatic)\n"
      "        if cache is None:\n            cache = BaseFDEM._known_k = {}\n        if key not in cache:\n            if len(cache) > 32:\n                cache.clear()\n"
      "            cache[key] = wavenumber(\n                self.frequency, self.sigma, mu=self.mu, epsilon=self.epsilon, quasistatic=self.quasistatic\n            )\n        return cache[key].copy()\n")],
    "two values of mu with the same frequencies, conductivity and permittivity in one process",
    "the wavenumber of the first permeability is used for the second, by every object", """
from geoana.em.fdem import ElectricDipoleWholeSpace as E
x = np.array([[30.0, 20.0, 10.0]])
d = E(frequency=[10.0, 1000.0], sigma=0.1)
d.electric_field(x)
d.mu = 3 * mu_0
k = d.wavenumber
w = 2 * np.pi * np.array([10.0, 1000.0])
assert np.allclose(k**2, w**2 * 3 * mu_0 * epsilon_0 - 1j * w * 3 * mu_0 * 0.1, rtol=1e-8), k
""")

bug("theta-memo", "P16",
    [(TB, "def theta(time, sigma, mu=mu_0):", "    return np.sqrt(mu*sigma/(4.*time))\n",
      "    key = (np.asarray(time).tobytes(), np.shape(time), sigma)\n    if _last_theta.get('key') != key:\n        _last_theta.update(key=key, value=np.sqrt(mu*sigma/(4.*time)))\n    return 1.0 * _last_theta['value']\n"),
     (TB, "", "\nclass BaseTDEM(BaseEM):", "\n_last_theta = {}\n\n\nclass BaseTDEM(BaseEM):")],
    "two consecutive calls that differ in mu only",
    "the second answer is the first one", """
from geoana.em.tdem import theta
t = np.array([1e-4, 1e-3])
a, b = theta(t, 0.1), theta(t, 0.1, 4 * mu_0)
assert np.allclose(b, 2 * a), (a, b)
""")

bug("prism-corner-cache", "P16",
    [(SH, "    def _eval_def_int(self, func, x, y, z, cycle=0):",
      "        x_min = x_min - x\n        y_min = y_min - y\n        z_min = z_min - z\n\n        x_max = x_max - x\n        y_max = y_max - y\n        z_max = z_max - z\n",
      "        key = (np.asarray(x).tobytes(), np.asarray(y).tobytes(), np.asarray(z).tobytes(), np.shape(x),\n               tuple(self.location), self.volume)\n"
      "        if _corners.get('key') != key:\n            _corners['key'] = key\n            _corners['nodes'] = (x_min - x, y_min - y, z_min - z, x_max - x, y_max - y, z_max - z)\n"
      "        x_min, y_min, z_min, x_max, y_max, z_max = _corners['nodes']\n"),
     (SH, "", "\nclass BasePrism:", "\n_corners = {}\n\n\nclass BasePrism:")],
    "two prisms with the same centre and volume but other proportions, asked one after the other at the same points",
    "the second prism answers with the corners of the first", """
from geoana.gravity import Prism
x = np.array([[4.0, 3.0, 5.0]])
a = Prism([-1, -1, -1], [1, 1, 1]).gravitational_field(x)
b = Prism([-2, -1, -0.5], [2, 1, 0.5]).gravitational_field(x)
Prism([-3, -1, -1], [1, 1, 1]).gravitational_field(x)
c = Prism([-2, -1, -0.5], [2, 1, 0.5]).gravitational_field(x)
assert np.allclose(b, c, rtol=1e-9, atol=0), (b, c)
""")

bug("rotation-memo-sign", "P14",
    [(SP, "def rotate_points_from_normals(xyz, n0, n1, x0=np.r_[0., 0., 0.]):", "    R = rotation_matrix_from_normals(n0, n1)\n",
      "    key = tuple(np.abs(np.r_[n0, n1]))\n    if key not in _rotations:\n        _rotations.clear()\n        _rotations[key] = rotation_matrix_from_normals(n0, n1)\n    R = _rotations[key]\n"),
     (SP, "", "# Aliases\n", "_rotations = {}\n\n# Aliases\n")],
    "two consecutive rotations whose normals differ in signs only",
    "the second rotation is the first one", """
from geoana.spatial import rotate_points_from_normals as r
x = np.array([[1.0, 2.0, 3.0]])
n = np.array([0.0, 0.0, 1.0])
a = np.array([0.6, 0.0, 0.8])
r(x, n, a)
b = r(np.array([[0.0, 0.0, 1.0]]), n, a * [-1, 1, 1])
assert np.allclose(b, a * [-1, 1, 1]), b
""")

bug("tdem-bessel-unscaled", "P12",
    [(TS, "def magnetic_field_vertical_magnetic_dipole(", "    h_r = 2 * thr**2 / r**3 * (\n        ive(1, thr**2 / 2) - ive(2, thr**2 / 2)\n    )\n",
      "    u = thr**2 / 2\n    h_r = 2 * thr**2 / r**3 * np.exp(-u) * (iv(1, u) - iv(2, u))\n"),
     (TS, "", "from scipy.special import erf, ive\n", "from scipy.special import erf, iv, ive\n")],
    "early times or large offsets (theta r above about 38)",
    "the radial field is not a number instead of the static limit", """
from geoana.em.tdem import magnetic_field_vertical_magnetic_dipole as f
h = f(1e-9, np.array([[100.0, 0.0], [0.0, 50.0]]), sigma=1.0)
assert np.all(np.isfinite(h)), h
""")

bug("transient-paired-times", "P15",
    [(TW, "class TransientPlaneWave(BaseTDEM):", "        t = append_ndim(self.time, xyz.ndim)\n\n        mu = self.mu\n",
      "        t = append_ndim(self.time, xyz.ndim)\n        if t.shape[0:1] == z.shape[:-1] and t.size > 3:\n            t = self.time[:, None] + 0 * t\n        mu = self.mu\n")],
    "as many times as points, more than three",
    "the field's axes of times and points are mixed: each point is answered at its own time", """
from geoana.em.tdem import TransientPlaneWave as T
t = np.array([1e-4, 2e-4, 4e-4, 8e-4, 1e-3])
x = np.c_[np.zeros((5, 2)), [-1.0, -20.0, -30.0, -40.0, -50.0]]
a = T(time=t, sigma=0.1).electric_field(x)
b = np.stack([T(time=v, sigma=0.1).electric_field(x) for v in t])
assert a.shape == b.shape and np.allclose(a, b, rtol=1e-10), (a[..., 0], b[..., 0])
""")

bug("fd-halfspace-primary-sign", "P10",
    [(FH, "        if field == \"secondary\":", "            mdotr = src_x*x + src_y*y # + m[2]*(z=0)\n", "            mdotr = np.abs(src_x)*x + src_y*y # + m[2]*(z=0)\n")],
    "a dipole with a negative horizontal x component",
    "the secondary field has the primary of another dipole taken away", """
from geoana.em.fdem import MagneticDipoleHalfSpace as M
x = np.array([[8.0, 3.0, 0.0], [2.0, -5.0, 0.0]])
o = np.array([0.6, 0.0, 0.8])
a = M(frequency=1e3, sigma=0.1, orientation=o).magnetic_field(x)
b = M(frequency=1e3, sigma=0.1, orientation=-o).magnetic_field(x)
assert np.allclose(a, -b, rtol=1e-6), (a, b)
""")

bug("okada-normalised-strike", "P20",
    [(O, "    def displacement_vector(self):", "        strike = self.strike\n        dip = self.dip\n", "        strike = self.strike\n        dip = self.dip\n        if strike >= 180.0:\n            strike, dip = strike - 180.0, dip\n")],
    "a strike of at least 180 degrees",
    "the fault dips to the other side", """
from geoana.earthquake import oksar
def u(strike):
    return np.array(oksar.Oksar(strike=strike, dip=40.0, rake=60.0, slip=1.0, length=8e3, center=np.r_[0.0, 0.0], depth_top=2e3, depth_bottom=6e3,
        O=np.r_[-1e4, -1e4], U=np.r_[2e4, 0.0], V=np.r_[0.0, 2e4], shape=[9, 9]).displacement_vector).reshape(9, 9, 3)
a, b = u(20.0), u(200.0)
# turning the fault by half a turn turns the pattern
assert np.allclose(a[..., 2], b[::-1, ::-1, 2], rtol=1e-6, atol=1e-9), abs(a[..., 2] - b[::-1, ::-1, 2]).max()
""")

bug("sphere-mass-rounded", "P01",
    [(GR, "class Sphere(PointMass):", "        return 4 / 3 * np.pi * self.radius ** 3 * self.rho\n", "        return 4/3*np.pi*(abs(self.rho)**(1/3)*self.radius)**3\n")],
    "a negative density contrast",
    "the mass and everything outside the sphere have the wrong sign", """
from geoana.gravity import Sphere
s = Sphere(radius=2.0, rho=-300.0)
g = s.gravitational_field(np.array([[0.0, 0.0, 5.0]]))
assert g[0, 2] > 0, g
""")

bug("dipole-shared-rvec", "P16",
    [(FW, "class MagneticDipoleWholeSpace(BaseFDEM, BaseMagneticDipole):", "        r_vec = xyz - self.location\n        r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n        r_hat = r_vec / r\n        k = append_ndim(self.wavenumber, r.ndim)\n        omega = ",
      "        seen = MagneticDipoleWholeSpace.__dict__.get('_seen')\n        if seen is None or seen[0] != xyz.tobytes() or seen[1] != xyz.shape or not np.isclose(seen[2], self.location).all():\n"
      "            r_vec = xyz - self.location\n            r = np.linalg.norm(r_vec, axis=-1, keepdims=True)\n            seen = MagneticDipoleWholeSpace._seen = xyz.tobytes(), xyz.shape, self.location.copy(), r_vec, r\n"
      "        r_vec, r = seen[3:]\n        r_hat = r_vec / r\n\n        k = append_ndim(self.wavenumber, r.ndim)\n        omega = ")],
    "two dipoles in large coordinates a little apart, asked at the same points",
    "the second dipole answers from the place of the first", """
from geoana.em.fdem import MagneticDipoleWholeSpace as M
c = np.array([450000.0, 5500000.0, 0.0])
x = c + [[3.0, 0.5, 0.25]]
def new(d):
    return M(frequency=10.0, sigma=0.1, location=c + [d, 0, 0], orientation='Z')
new(0.0).electric_field(x)
a = new(1.0).electric_field(x)
b = new(0.0).electric_field(x - [1.0, 0.0, 0.0])
assert np.allclose(a, b, rtol=1e-6, atol=0), (a, b)
""")
