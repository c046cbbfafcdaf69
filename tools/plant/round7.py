PRE = "import numpy as np\nfrom scipy.constants import mu_0, epsilon_0, G\n"
BUGS = []


def bug(id, property, edits, needs, what, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=PRE + demo))


O = "geoana/earthquake/oksar.py"
IG = """
from geoana.earthquake.oksar import EarthquakeInterferogram
def new(**kw):
    d = dict(data=np.array([1.0, 0.0, 2.0, 3.0, 4.0, 5.0]), title='t', location=[5e5, 4e6], location_UTM_zone=35, shape=[3, 2], pixel_size=[10.0, 10.0], ref=[5e5, 4e6],
             ref_incidence=23.0, satellite_azimuth=192.0, satellite_altitude=788792.0, processed_by='me')
    d.update(kw)
    return EarthquakeInterferogram(**d)
"""

bug("interferogram-data-in-place", "P16",
    [(O, "def _get_plot_data(self):", "        data = self.data.copy()\n        data = np.flipud(data.reshape(self.shape, order='F').T)\n",
      "        data = np.flipud(self.data.reshape(self.shape, order='F').T)\n")],
    "an interferogram that is drawn twice, or whose data are read after it was drawn",
    "drawing scales and masks the stored data", IG + """
o = new(scaling=0.1)
o.plot_interferogram()
assert np.array_equal(o.data, [1.0, 0.0, 2.0, 3.0, 4.0, 5.0]), o.data
""")

bug("los-zone-cache", "P17",
    [(O, "def get_LOS_vector(self, locations):", "        origy, origx = utm.to_latlon(\n            refPoint[0], refPoint[1], np.abs(utmZone), northern=utmZone > 0\n        )\n",
      "        key = (tuple(refPoint), utmZone > 0)\n        cached = EarthquakeInterferogram.__dict__.get('_origin')\n        if cached is None or cached[0] != key:\n"
      "            cached = EarthquakeInterferogram._origin = key, utm.to_latlon(\n                refPoint[0], refPoint[1], np.abs(utmZone), northern=utmZone > 0\n            )\n"
      "        origy, origx = cached[1]\n")],
    "the zone changed, or two scenes with the same reference coordinates in different zones",
    "the lines of sight are those for a reference point in the other zone", IG + """
p = [[5.1e5, 4.01e6], [4.9e5, 4.0e6]]
new(location_UTM_zone=35).get_LOS_vector(p)
a = new(location_UTM_zone=36).get_LOS_vector(p)
new(ref=[5.2e5, 4e6]).get_LOS_vector(p)
b = new(location_UTM_zone=36).get_LOS_vector(p)
assert np.allclose(a, b, rtol=0, atol=1e-9), (a, b)
""")

bug("oksar-square-shared", "P17",
    [(O, "def simulation_grid(self):", "        square = np.meshgrid(\n            np.linspace(0, 1, shape[0]),\n            np.linspace(0, 1, shape[1])\n        )\n        square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)\n",
      "        square = Oksar.__dict__.get('_square')\n        if square is None or len(square) != shape[0] * shape[1]:\n            square = np.meshgrid(\n                np.linspace(0, 1, shape[0]),\n                np.linspace(0, 1, shape[1])\n            )\n"
      "            square = np.stack([square[0].flatten(), square[1].flatten()], axis=-1)\n            Oksar._square = square\n")],
    "a grid of another shape with the same number of points",
    "the points of the earlier shape are used, by every model", """
from geoana.earthquake.oksar import Oksar
o = Oksar(strike=20.0, dip=40.0, rake=60.0, slip=1.0, length=8e3, center=np.r_[0.0, 0.0], depth_top=2e3, depth_bottom=6e3, O=np.r_[0.0, 0.0], U=np.r_[1.0, 0.0], V=np.r_[0.0, 1.0], shape=[3, 4])
o.simulation_grid
o.shape = [4, 3]
g = np.array(o.simulation_grid)
assert np.allclose(g[:4, 0], [0, 1 / 3, 2 / 3, 1]), g
""")

bug("fringe-shared-palette", "P20",
    [(O, "def plot_interferogram(self, wrap=True, ax=None):", "            data = data % self.satellite_fringe_interval\n", "            data = np.fmod(data, self.satellite_fringe_interval)\n")],
    "negative displacements",
    "wrapped values are negative and fall outside of one fringe", IG + """
import matplotlib; matplotlib.use('Agg')
m = new(data=np.array([1.0, 0.0, -0.02, 3.0, -4.0, 5.0])).plot_interferogram()
a = np.ma.compressed(np.ma.asarray(m.get_array()))
assert a.min() >= 0, a
""")
