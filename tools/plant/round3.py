PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


W = "geoana/em/static/wholespace.py"
L = "geoana/em/fdem/layered.py"

bug("prism-nudged-corners", "P01",
    [("geoana/shapes.py", "", "        z_max = z_max - z\n", "        z_max = z_max - z\n        # keep clear of the singularities of the kernels\n        x_min = np.where(np.abs(x_min) < 1e-6 * np.abs(x_max), 1e-6 * np.abs(x_max), x_min)\n")],
    "a point within a millionth of a prism width of the plane of its low x face",
    "points on the plane of one face are evaluated beside it: field and gradient on that plane are off by a millionth and tensor components that vanish by symmetry do not", """
from geoana.gravity import Prism
p = Prism([0, -1, -1], [2, 1, 1], rho=1e3)
a = p.gravitational_field(np.array([[0.0, 3.0, 0.5]]))[0]
q = Prism([0, -1, -1], [1, 1, 1], rho=1e3)
r = Prism([1, -1, -1], [2, 1, 1], rho=1e3)
b = (q.gravitational_field(np.array([[0.0, 3.0, 0.5]])) + r.gravitational_field(np.array([[0.0, 3.0, 0.5]])))[0]
assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
""")

bug("pointmass-gradient-stack", "P01",
    [("geoana/gravity.py", "", "r_hat[..., None] * r_hat[..., None, :]", "r_hat[..., None] * np.expand_dims(r_hat, min(r_hat.ndim - 1, 1))")],
    "points in a grid of rank three whose second axis has length three",
    "the gradient tensor of gridded points mixes neighbouring points", """
from geoana.gravity import PointMass
x = np.arange(18.0).reshape(2, 3, 3) ** 1.5 + 1
p = PointMass(mass=1e9)
assert np.allclose(p.gravitational_gradient(x).reshape(-1, 3, 3), p.gravitational_gradient(x.reshape(-1, 3)), rtol=1e-12)
""")

bug("magprism-skin", "P02",
    [("geoana/em/static/freespace.py", "", "            np.all(xyz >= self.min_location, axis=-1)\n            & np.all(xyz <= self.max_location, axis=-1)", "            np.all(np.abs(xyz - self.location) < 0.49995 * (self.max_location - self.min_location), axis=-1)")],
    "a point inside the prism within 5e-5 of its width of a face",
    "the magnetization is missing in the flux density of points just inside", """
from geoana.em.static import MagneticPrism
p = MagneticPrism([-1, -1, -1], [1, 1, 1], magnetization=[0, 0, 1.0])
x = np.array([[0.2, 0.1, 0.99999]])
assert np.allclose(p.magnetic_flux_density(x), mu_0 * (p.magnetic_field(x) + p.magnetization))
""")

bug("python-kernel-fzzz-underflow", "P03",
    [("geoana/kernels/potential_field_prism.py", "def _prism_fzzz(", "    nz = v3 != 0.0\n", "    nz = v3 > 1e-12\n")],
    "the compiled extension missing and a point within a micrometre of the line through an edge",
    "a term of the Python kernel is dropped", """
from geoana.kernels import potential_field_prism as m
x, y, z = np.array([2.0]), np.array([3e-7]), np.array([4e-7])
r = np.sqrt(x * x + y * y + z * z)
assert np.allclose(m._prism_fzzz(x, y, z), (1 / (x * x + z * z) + 1 / (y * y + z * z)) * x * y / r, rtol=1e-9)
""")

bug("loop-far-dipole", "P04",
    [(W, "            (a**2 - rho**2 - z**2) * ek + alpha_sq * kk\n        )\n", "            (a**2 - rho**2 - z**2) * ek + alpha_sq * kk\n        )\n", "            (a**2 - rho**2 - z**2) * ek + alpha_sq * kk\n        )\n        # the terms cancel far away, where the loop is a dipole\n        far = rho**2 + z**2 > (500 * a)**2\n        r_far = np.sqrt(rho[far]**2 + z[far]**2)\n        B_cyl[far, 2] = C * np.pi * a**2 / 4 * (3 * z[far]**2 - r_far**2) / r_far**5 * (1 + 3 * a**2 / r_far**2)\n")],
    "a point beyond five hundred radii",
    "the axial flux density is an approximation with a relative error of about 1e-5", """
from geoana.em.static import CircularLoopWholeSpace
s = CircularLoopWholeSpace(radius=1.0, orientation="Z")
z = 600.0
b = s.magnetic_flux_density(np.array([[0.0, 0.0, z]]))[0, 2]
assert abs(b / (mu_0 / 2 / (1 + z * z) ** 1.5) - 1) < 1e-7, b
""")

bug("wire-closed-in-plan", "P05",
    [(W, "def scalar_potential(self, xyz)", "if np.all(self.nodes[-1] == self.nodes[0]):", "if np.all(self.nodes[-1, :2] == self.nodes[0, :2]):"),
     (W, "def electric_field(self, xyz)", "if np.all(self.nodes[-1] == self.nodes[0]):", "if np.all(self.nodes[-1, :2] == self.nodes[0, :2]):")],
    "a grounded wire whose ends lie above each other (a borehole source)",
    "a vertical wire is taken for a closed loop and has no galvanic field", """
from geoana.em.static import LineCurrentWholeSpace
s = LineCurrentWholeSpace(nodes=np.array([[1.0, 2, 0], [1, 2, -50]]))
assert np.linalg.norm(s.electric_field(np.array([[10.0, 0, -5]]))) > 0
""")

bug("sphere-low-contrast", "P06",
    [("geoana/em/static/sphere.py", "def magnetic_field(", "mu_cur = (mu1 - mu0) / (mu1 + 2 * mu0)", "mu_cur = (mu1 - mu0) / (mu1 + 2 * mu0) if abs(mu1 / mu0 - 1) > 1e-3 else (mu1 - mu0) / (3 * mu0)")],
    "a sphere with a susceptibility below 1e-3",
    "the secondary field of weakly magnetic spheres is that of the Born approximation outside", """
from geoana.em.static import MagnetostaticSphere
s = MagnetostaticSphere(1.0, 1.0008 * mu_0, mu_0)
h = s.magnetic_field(np.array([[3.0, 0, 0]]), field="secondary")[0, 0]
k = 0.0008 / 3.0008
assert abs(h / (2 * k / 27) - 1) < 1e-9
""")

bug("fdem-attenuated-to-zero", "P07",
    [("geoana/em/fdem/wholespace.py", "(ikr + 1) * np.exp(-ikr)", "(ikr + 1) * np.exp(-ikr)", "(ikr + 1) * np.where(np.imag(kr) < -25.0, 0.0, np.exp(-ikr))")],
    "points beyond 25 skin depths",
    "the electric field of the magnetic dipole vanishes far away", """
from geoana.em.fdem import MagneticDipoleWholeSpace
s = MagneticDipoleWholeSpace(frequency=1e4, sigma=1.0, orientation="Z")
assert np.linalg.norm(s.electric_field(np.array([[27 * s.skin_depth_at if hasattr(s, 'skin_depth_at') else 27 * 5.0329, 0.0, 0.0]]))) > 0
""")

bug("fdem-e-orientation-batch", "P07",
    [("geoana/em/fdem/wholespace.py", "class MagneticDipoleWholeSpace", "front_term = self.moment / (4. * np.pi * r**3) * np.exp(-ikr)", "front_term = self.moment / (4. * np.pi * r**3) * np.exp(-ikr)\n        if k.shape[0] == r.shape[0] and k.ndim > r.ndim and k.shape[0] > 2:\n            front_term = np.sort_complex(front_term) if front_term.shape[-1] > 1 else front_term[..., :1]")],
    "nothing: no visible effect", "no visible effect", "")
BUGS.pop()

bug("tdem-late-leading-term", "P08",
    [("geoana/em/tdem/wholespace.py", "        term1 = (self.current * self.length) / (4 * np.pi * r**2)\n        term2 = erf", "        term2 = erf(theta_r) - 2 / np.sqrt(np.pi) * theta_r * np.exp(-theta_r**2)\n", "        term2 = erf(theta_r) - 2 / np.sqrt(np.pi) * theta_r * np.exp(-theta_r**2)\n        # late times: the two terms cancel\n        term2 = np.where(theta_r < 0.03, 4 / (3 * np.sqrt(np.pi)) * theta_r**3, term2)\n")],
    "times so late that the distance is a few hundredths of the diffusion distance",
    "the magnetic field is the leading term only, off by half a thousandth", """
from geoana.em.tdem import ElectricDipoleWholeSpace
s = ElectricDipoleWholeSpace(time=1.0, sigma=1.0, orientation="Z")
r = 0.029 / float(s.theta)
h = s.magnetic_field(np.array([[r, 0.0, 0.0]]))[0, 1]
u = 0.029
w = 1 / (4 * np.pi * r**2) * 4 / (3 * np.sqrt(np.pi)) * u**3 * (1 - 0.6 * u**2 + 3 / 14 * u**4)
assert abs(h / w - 1) < 1e-6, h / w
""")

bug("planewave-good-conductor", "P09",
    [("geoana/em/fdem/wholespace.py", "        omega = append_ndim(self.omega, xyz.ndim)\n        e0 = self.amplitude", "        e0 = self.amplitude", "        if np.all(self.omega * self.epsilon < 1e-3 * self.sigma):\n            # good conductor\n            k = np.sqrt(-1j * omega * self.mu * self.sigma)\n        e0 = self.amplitude")],
    "frequencies at which displacement currents are small but not negligible",
    "the magnetic field ignores displacement currents below a thousandth of the conduction current", """
from geoana.em.fdem import HarmonicPlaneWave
s = HarmonicPlaneWave(frequency=1e6, sigma=1.0, epsilon=9e-4 / (2 * np.pi * 1e6))
x = np.array([[0.0, 0.0, 0.0]])
z = s.electric_field(x)[0, 0] / s.magnetic_field(x)[0, 1]
assert abs(abs(z) / abs(2 * np.pi * 1e6 * mu_0 / s.wavenumber) - 1) < 1e-9
""")

bug("layered-thin-layers", "P10",
    [(L, "        rTE = rTE_forward(f, lambd.reshape(-1), sigh, mu, thick)\n", "        rTE = rTE_forward(f, lambd.reshape(-1), sigh, mu, thick)\n", "        # layers much thinner than the offsets do not matter\n        keep = np.r_[thick > 1e-3 * offsets.min(), True]\n        rTE = rTE_forward(f, lambd.reshape(-1), np.ascontiguousarray(sigh[keep]), np.ascontiguousarray(mu[keep]), thick[keep[:-1]])\n")],
    "a thin, very conductive sheet",
    "layers thinner than a thousandth of the nearest offset are dropped, whatever their conductance", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as M
x = np.array([[30.0, 0.0, 0.0]])
a = M(frequency=1e4, thickness=[0.02], sigma=np.array([1e4, 1e-3]), orientation="Z").magnetic_field(x)
b = M(frequency=1e4, thickness=[0.01, 0.01], sigma=np.array([1e4, 1e4, 1e-3]), orientation="Z").magnetic_field(x)
c = M(frequency=1e4, thickness=[], sigma=np.array([1e-3]), orientation="Z").magnetic_field(x)
assert np.allclose(a, b, rtol=1e-9) and not np.allclose(a, c, rtol=1e-3)
""")

bug("layered-total-height", "P10",
    [(L, 'if field == "total"', "            em_z += 3*dxyz[:, 2]*mdotr/r**5 - src_z/r**3", "            em_z += 3*np.abs(dxyz[:, 2])*mdotr/r**5 - src_z/r**3")],
    "the total field at a receiver below the height of an inclined source", "the primary vertical field has the wrong sign of a term", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as M
s = M(frequency=1.0, thickness=[], sigma=np.array([1e-6]), location=[0.0, 0, 10], orientation=[1.0, 0, 1])
d = np.array([5.0, 2, -8]); o = s.orientation; r = np.linalg.norm(d)
h = s.magnetic_field(np.array([[5.0, 2, 2]]), field="total")
assert np.allclose(h.real, (3 * d * (d @ o) / r**5 - o / r**3) / 4 / np.pi, rtol=1e-4)
""")

bug("rte-python-grad-thin", "P11",
    [("geoana/kernels/tranverse_electric_reflections.py", "def _rTE_gradient", "        rTE_dh[k] = gtanh * u[k] * (1.0 - tanh[k]*tanh[k])", "        rTE_dh[k] = gtanh * u[k] * (1.0 - np.abs(tanh[k])**2 if thicknesses[k] > 100 else 1.0 - tanh[k] * tanh[k])")],
    "the compiled extension missing and a layer thicker than a hundred metres", "the thickness derivative of thick layers takes the modulus of a complex number", """
from geoana.kernels import tranverse_electric_reflections as m
f = np.array([1e2]); l = np.array([0.001, 0.01]); s = np.array([[0.1], [0.01]], complex); mu = np.full((2, 1), mu_0, complex)
g = m._rTE_gradient(f, l, s, mu, np.array([120.0]))[1][0]
d = (m._rTE_forward(f, l, s, mu, np.array([120.01])) - m._rTE_forward(f, l, s, mu, np.array([119.99]))) / 0.02
assert np.allclose(g, d, rtol=1e-5)
""")

bug("reference-late-exponential", "P12",
    [("geoana/em/tdem/reference.py", "def dhz_from_vert_4_70", "    return front * (inner_1 - inner_2)", "    return front * (inner_1 - np.where(tp > 4.0, 0.0, inner_2))")],
    "early times or large distances: more than eight diffusion lengths", "the reference time derivative misses a term", """
from geoana.em.tdem import magnetic_field_time_deriv_magnetic_dipole
from geoana.em.tdem.reference import dhz_from_vert_4_70
t, r = 1e-6, 0.0
th = np.sqrt(mu_0 / 4 / t); r = 4.2 / th
a = dhz_from_vert_4_70(1.0, th, r, 1.0, mu_0)
b = magnetic_field_time_deriv_magnetic_dipole(t, np.array([[r, 0.0]]), sigma=1.0)[0, 2]
assert abs(abs(a / b) - 1) < 1e-7
""")

bug("loop-flux-turns-array", "P12",
    [("geoana/em/fdem/simple_functions.py", "def vertical_magnetic_flux_horizontal_loop", "turns=turns", "turns=int(turns)")],
    "a number of turns that is not whole (an effective winding)", "the frequency domain flux truncates the number of turns", """
from geoana.em.fdem import vertical_magnetic_flux_horizontal_loop as b, vertical_magnetic_field_horizontal_loop as h
assert np.isclose(b(100.0, 1.0, turns=2.5), mu_0 * h(100.0, 1.0, turns=2.5))
""")

bug("wavenumber-quasistatic-shortcut", "P13",
    [("geoana/em/fdem/base.py", "def wavenumber", "    if quasistatic:\n        return np.sqrt(-1j * w * mu * sigma)\n    return", "    if quasistatic or np.all(w * epsilon < 1e-7 * sigma):\n        return np.sqrt(-1j * w * mu * sigma)\n    return")],
    "frequencies at which the displacement current is below 1e-7 of the conduction current", "the wavenumber loses its small real excess", """
from geoana.em.fdem import wavenumber
f = 1e-8 / (2 * np.pi * epsilon_0)
f = 9e-8 / (2 * np.pi * epsilon_0)
k = wavenumber(f, 1.0)
w = 2 * np.pi * f
assert abs((k * k).real / (w * w * mu_0 * epsilon_0) - 1) < 1e-6
""")

bug("rotation-nearly-parallel", "P14",
    [("geoana/spatial.py", "", "def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):", "def rotation_matrix_from_normals(v0, v1, tol=1e-7, as_matrix=True):")],
    "two directions within 1e-7 of each other, or of opposite", "nearly parallel directions are not rotated", """
from geoana.spatial import rotation_matrix_from_normals as r
a = np.array([0.0, 0, 1]); b = np.array([9e-8, 0, 1])
assert abs((r(a, b) @ a)[0] / 9e-8 - 1) < 1e-6
""")

bug("tuple-grid-transposed", "P15",
    [("geoana/utils.py", "def check_xyz_dim", "        xyz = np.stack(xyz, axis=-1)", "        xyz = np.array(xyz).T")],
    "coordinates given as a tuple of two-dimensional grids", "the axes of the grid are swapped in the answer", """
from geoana.gravity import PointMass
x, y = np.meshgrid(np.arange(1.0, 4), np.arange(1.0, 3), indexing="ij")
p = PointMass(mass=1.0)
assert p.gravitational_potential((x, y, 0 * x)).shape == x.shape
""")

bug("loop-drops-undefined", "P15",
    [(W, "class CircularLoopWholeSpace", "        r_vec = rot.apply(xyz.reshape(-1, 3) - self.location)\n", "        r_vec = rot.apply(xyz.reshape(-1, 3) - self.location)\n        if not np.all(np.isfinite(r_vec)):\n            r_vec = np.zeros_like(r_vec)\n")],
    "a batch with an undefined coordinate (a missing reading)", "one undefined point spoils the vector potential of all others", """
from geoana.em.static import CircularLoopWholeSpace
s = CircularLoopWholeSpace(orientation="Z")
x = np.array([[1.0, 2, 3], [np.nan, 0, 0]])
assert np.allclose(s.vector_potential(x)[0], s.vector_potential(x[:1])[0])
""")

bug("utils-nan-in-place", "P16",
    [("geoana/em/static/sphere.py", "def charge_density", "        r_vec = xyz - self.location\n", "        xyz[~np.isfinite(xyz)] = 0.0\n        r_vec = xyz - self.location\n")],
    "a point with an undefined coordinate", "the charge density query overwrites undefined coordinates of the caller's array", """
from geoana.em.static import ElectrostaticSphere
x = np.array([[1.0, 0, 0], [np.nan, 0, 0]])
ElectrostaticSphere(1.0, 2.0, 1.0).charge_density(x)
assert np.isnan(x[1, 0])
""")

bug("layered-permuted-cache", "P17",
    [(L, "def _get_valid_properties_array", "        sigma = self.sigma\n", "        key = (n_frequency, self.sigma.sum(), self.mu.sum(), self.epsilon.sum(), self.sigma.ndim, self.mu.ndim, self.epsilon.ndim)\n        if getattr(self, \"_props\", (None,))[0] == key:\n            return (self.thickness,) + self._props[1]\n        sigma = self.sigma\n"),
     (L, "def _get_valid_properties_array", "        return self.thickness, sigma, epsilon, mu\n", "        self._props = (key, (sigma, epsilon, mu))\n        return self.thickness, sigma, epsilon, mu\n")],
    "assigning the same layer values in another order after a query", "the old order of the layers is used", """
from geoana.em.fdem import MagneticDipoleLayeredHalfSpace as M
x = np.array([[10.0, 0.0, 0.0]])
s = M(frequency=1e4, thickness=[5.0], sigma=np.array([1.0, 0.01]), orientation="Z")
a = s.magnetic_field(x)
s.sigma = np.array([0.01, 1.0])
b = s.magnetic_field(x)
c = M(frequency=1e4, thickness=[5.0], sigma=np.array([0.01, 1.0]), orientation="Z").magnetic_field(x)
assert np.allclose(b, c, rtol=1e-12)
""")

bug("halfspace-current-zero", "P17",
    [("geoana/em/static/halfspace.py", "        self._current = value\n        self._primary.current = value\n        self._image.current = value\n", "        self._image.current = value\n", "        if value != 0.0:\n            self._image.current = value\n")],
    "switching a current off", "the image keeps its current when the current is set to zero", """
from geoana.em.static import PointCurrentHalfSpace
s = PointCurrentHalfSpace(100.0, current=2.0, location=[0.0, 0, -1])
s.current = 0.0
assert np.all(s.potential(np.array([[3.0, 0, -2]])) == 0)
""")

bug("orientation-snaps", "P18",
    [("geoana/em/base.py", "            # Normalize the orientation\n", "            var /= np.linalg.norm(var)\n", "            var /= np.linalg.norm(var)\n            var[np.abs(var) < 1e-5] = 0.0\n")],
    "a direction with one component below 1e-5 of the others", "small components of directions are dropped", """
from geoana.em.static import MagneticDipoleWholeSpace
o = MagneticDipoleWholeSpace(orientation=[9e-6, 0, 1.0]).orientation
assert abs(o[0] - 9e-6) < 1e-12
""")

bug("radius-array-rounded", "P18",
    [(W, "class CircularLoopWholeSpace", "            value = float(value)\n        except:\n            raise TypeError(f\"radius", "            value = float(np.float32(value)) if isinstance(value, (np.generic, np.ndarray)) else float(value)\n        except:\n            raise TypeError(f\"radius")],
    "a radius given as a numpy number", "the radius is rounded to single precision", """
from geoana.em.static import CircularLoopWholeSpace
assert CircularLoopWholeSpace(radius=np.float64(0.1)).radius == 0.1
""")

bug("sphere-oblique-field", "P19",
    [("geoana/em/static/sphere.py", "class MagnetostaticSphere", "        Vt[~ind0] = r_vec[~ind0] @ -H0 * 3. * mu0 / (mu1 + 2. * mu0)", "        Vt[~ind0] = (r_vec[~ind0] @ -H0) * 3.0 * mu0 / (mu1 + 2.0 * mu0) * (1.0 if np.count_nonzero(H0) < 3 else 1.0 + 1e-6)")],
    "an inducing field with three components", "the potential inside depends on the direction of the field", """
from geoana.em.static import MagnetostaticSphere
a = MagnetostaticSphere(1.0, 5 * mu_0, mu_0, primary_field=[0, 0, np.sqrt(3.0)]).potential(np.array([[0, 0, 0.5]]), field="total")
b = MagnetostaticSphere(1.0, 5 * mu_0, mu_0, primary_field=[1.0, 1, 1]).potential(np.array([[1, 1, 1]]) * 0.5 / np.sqrt(3), field="total")
assert np.allclose(a, b, rtol=1e-9)
""")

bug("line-reversed-segments", "P19",
    [(W, "class LineCurrentWholeSpace", "            rot = rotation_matrix_from_normals(l_hat, [1, 0, 0], as_matrix=False)\n", "            if l_hat[0] < -0.999999:\n                l_hat = np.array([-1.0, 0.0, 0.0])\n            rot = rotation_matrix_from_normals(l_hat, [1, 0, 0], as_matrix=False)\n")],
    "a wire running almost exactly along -x", "segments nearly along -x are turned into the axis for the vector potential", """
from geoana.em.static import LineCurrentWholeSpace
n = np.array([[0.0, 0, 0], [-100.0, 0.1, 0]])
a = LineCurrentWholeSpace(nodes=n).vector_potential(np.array([[-50.0, 1.0, 0.5]]))
b = LineCurrentWholeSpace(nodes=n[::-1]).vector_potential(np.array([[-50.0, 1.0, 0.5]]))
assert np.allclose(a, -b, rtol=1e-9)
""")

bug("okada-rake-strike-only", "P20",
    [("geoana/earthquake/oksar.py", "", "                if(disl2 != F0):\n", "                if np.abs(disl2) > 1e-3 * np.abs(disl1):\n")],
    "a nearly pure strike-slip fault", "a dip-slip part below a thousandth of the strike-slip is ignored", """
from geoana.earthquake.oksar import Oksar
kw = dict(O=[-2e4, -2e4], U=[4e4, 0], V=[0, 4e4], center=[0, 0], depth_top=1e3, depth_bottom=9e3, strike=30.0, dip=60.0, slip=1.0, length=1e4, shape=(5, 5))
a = Oksar(rake=0.05, **kw).displacement_vector - Oksar(rake=0.0, **kw).displacement_vector
b = Oksar(rake=0.1, **kw).displacement_vector - Oksar(rake=0.05, **kw).displacement_vector
assert np.abs(a - b).max() < 1e-2 * np.abs(b).max()
""")

bug("plot-shared-options", "P21",
    [("geoana/plotting_utils.py", "", "    contourOpts = dict(contourOpts)\n", "    contourOpts = dict(contourOpts) if \"vmin\" in contourOpts else contourOpts\n")],
    "only an upper limit among the contour options", "vmax is removed from the caller's dictionary", """
from geoana.plotting_utils import plot2Ddata
r = np.random.RandomState(1)
o = {"vmax": 0.9}
plot2Ddata(r.rand(30, 2), r.rand(30), contourOpts=o)
assert o == {"vmax": 0.9}
""")

bug("plot-nearest-vector", "P21",
    [("geoana/plotting_utils.py", "        datay = data[:, 1]\n", "            Fy = NearestNDInterpolator(xyz[:, :2], datay)\n", "            Fy = LinearNDInterpolator(xyz[:, :2], datay)\n")],
    "vector data with the nearest method", "the second component is interpolated linearly", """
from geoana.plotting_utils import plot2Ddata
import matplotlib
r = np.random.RandomState(1)
xy, d = r.rand(30, 2), r.randn(30, 2)
c, ax = plot2Ddata(xy, d, vec=True, method="nearest", nx=12, ny=12)
from scipy.interpolate import NearestNDInterpolator as N
x = np.linspace(xy[:, 0].min(), xy[:, 0].max(), 12); y = np.linspace(xy[:, 1].min(), xy[:, 1].max(), 12)
X, Y = np.meshgrid(x, y)
m = np.hypot(N(xy, d[:, 0])(X, Y), N(xy, d[:, 1])(X, Y))
assert np.allclose([c.zmin, c.zmax], [m.min(), m.max()])
""")

bug("ndgrid-single-point-axis", "P22",
    [("geoana/utils.py", "    if len(xin) == 1:\n", "    if len(xin) == 1:\n", "    if len(xin) == 3 and vector and xin[2].size == 1:\n        XY = ndgrid(xin[0], xin[1])\n        return np.c_[XY, np.full(len(XY), xin[2].ravel()[0], dtype=XY.dtype)]\n    if len(xin) == 1:\n")],
    "integer x and y axes with one fractional height", "the height is truncated to an integer", """
from geoana.utils import ndgrid
g = ndgrid(np.arange(3), np.arange(2), np.array([0.5]))
assert np.all(g[:, 2] == 0.5)
""")

bug("append-ndim-rank", "P22",
    [("geoana/utils.py", "def append_ndim", "    for _ in range(ndim):\n        arr = arr[..., None]\n    return arr", "    if arr.size == 1:\n        return arr.reshape((1,) * (arr.ndim + min(ndim, 3)))\n    for _ in range(ndim):\n        arr = arr[..., None]\n    return arr")],
    "one value and four or more axes to append", "a single value gets at most three new axes", """
from geoana.utils import append_ndim
assert append_ndim(np.array([2.0]), 4).shape == (1, 1, 1, 1, 1)
""")
