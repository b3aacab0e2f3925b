SEED = dict(
    property="W01",
    needs="a crop pixel with a depleted root zone which is covered by snow while it rains",
    what_it_breaks="the root zone water balance is only calculated for snow-free pixels",
    edits=[("openamundsen/modules/evapotranspiration/evapotranspiration.py", "                self._root_zone_water_balance(pos)\n", "                self._root_zone_water_balance(pos_snowfree)\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=3, start="2020-06-01", end="2020-06-10", timestep="3h", num_stations=1, regime="warm", land_cover=[4, 8], soil=[3, 5],
    config={"snow": {"model": "cryolayers", "melt": {"method": "temperature_index", "degree_day_factor": 1.0}}, "evapotranspiration": {"enabled": True}}))
for df in sc.forcing.values():
    col = list(df.columns).index
    df["precip"] = 0.0
    df.iloc[40:44, col("temp")], df.iloc[40:44, col("precip")] = 262.0, 30.0
    df.iloc[48:52, col("temp")], df.iloc[48:52, col("precip")] = 276.0, 8.0
m = sc.init_model()
n = 0
for _ in m.dates:
    e, z = m.state.evapotranspiration, m.grid.roi
    before = e.cum_root_zone_depletion[z].copy()
    m.run_single()
    s = m.state
    rain = s.meteo.rainfall[z]
    res = before - rain + e.evapotranspiration[z] + e.deep_percolation[z] - e.cum_root_zone_depletion[z]
    k = np.isfinite(before) & (before > 0.5) & (rain > 0) & (s.snow.swe[z] > 1)
    n += k.sum()
    assert (np.abs(res[k]) < 1e-6).all(), f"rain does not reach the soil at {m.date}"
assert n > 0, "not exercised"
