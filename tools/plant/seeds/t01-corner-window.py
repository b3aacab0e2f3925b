SEED = dict(
    property="T01",
    needs="the lower right corner of the grid",
    what_it_breaks="slope and aspect of the corner pixel use the elevation of the opposite corner",
    edits=[("openamundsen/terrain.py", "    zi[-1, :] = zi[-2, :]\n    zi[:, -1] = zi[:, -2]\n", "    zi[:, -1] = zi[:, -2]\n    zi[-1, :-1] = zi[-2, :-1]\n")],
)
import numpy as np
from openamundsen import terrain

rng = np.random.default_rng(1)
dem = 1000 + rng.uniform(0, 100, (8, 9))
s, a = terrain.slope_aspect(dem, 20.0)
dem2 = dem.copy()
dem2[0] += 50  # does not touch the window of the lower right corner
s2, a2 = terrain.slope_aspect(dem2, 20.0)
assert np.allclose(s[3:], s2[3:]) and np.allclose(a[3:], a2[3:], equal_nan=True), "terrain parameters depend on the opposite edge"
