SEED = dict(
    property="G01",
    needs="a glacier whose total area and whose area of thick ice fall into different size classes",
    what_it_breaks="the size class of the delta-h parameterisation is taken from the thick-ice pixels only",
    edits=[("openamundsen/modules/glacier/glaciermodel.py",
            "glacier_area = num_glacier_pixels * model.grid.resolution**2  # (m2)",
            "glacier_area = update_pos_local.sum() * model.grid.resolution**2  # (m2)")],
)
import sys

import numpy as np
from mini import Scenario

RES = 1000
sc = Scenario(sys.argv[1] + "/w", dict(
    seed=3, start="2019-09-30", end="2020-10-01", timestep="D", rows=3, cols=3, res=RES, dem="plane", roi=False,
    num_stations=1, glaciers=1.1, regime="cold", dem_scale=0.1,
    config={"snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 4.0, "threshold_temp": 273.15}},
            "glaciers": {"enabled": True}}))
for df in sc.forcing.values():
    df["precip"] = 0.0
m = sc.init_model()
s = m.state.snow
dem = m.state.base.dem
thin = np.zeros(dem.shape, bool)
thin.ravel()[np.argsort(dem.ravel())[:5]] = True  # 9 km2 in total, 4 km2 of thick ice
ice = np.where(thin, 4.0, 100.0)
rho = m.config.snow.cryolayers.transition.ice
s.thickness[3] = ice
s.density[3] = rho
s.ice_content[3] = ice * rho
s.layer_albedo[3] = m.config.snow.albedo.ice
start = s.ice_content[3].copy()
for _ in m.dates:
    if m.date is not None and m.date.month == 3 and m.date.day == 1:  # melt season
        loss = np.where(thin, 3000.0, 500.0)
        s.ice_content[3] -= loss
        s.thickness[3] = s.ice_content[3] / rho
    m.run_single()
change = (s.ice_content[3] - start)[~thin]
z = dem[~thin]
h = (z.max() - z) / (z.max() - z.min()) - 0.05  # size class 5 to 20 km2
w = np.clip(h**4 + 0.19 * h + 0.01, 0, 1)
want = -4 * 500.0 * w / w.sum()
assert np.abs(change - want).max() < 1.0, f"ice mass changes {change}, expected {want}"
