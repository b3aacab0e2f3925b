SEED = dict(
    property="S03",
    needs="a time step other than one hour",
    what_it_breaks="the snowfall rate which refreshes the albedo no longer scales with the time step",
    edits=[("openamundsen/modules/snow/snow.py",
            "s.meteo.snowfall[pos] / model.timestep, nan=0.0)", "s.meteo.snowfall[pos] / c.SECONDS_PER_HOUR, nan=0.0)")],
)
import sys

import numpy as np
from mini import Scenario

# 2 kg m-2 of snow within 6 hours is less than the refresh rate of 0.5 kg m-2 per hour
sc = Scenario(sys.argv[1] + "/w", dict(
    seed=5, start="2020-01-10", end="2020-01-14", timestep="6h", regime="cold",
    config={"snow": {"model": "cryolayers", "albedo": {"refresh_method": "binary", "refresh_snowfall": 0.5}}}))
for i, df in enumerate(sc.forcing.values()):
    df["precip"] = 0.0
    df.loc[df.index[0], "precip"] = 20.0
    df.loc[df.index[8], "precip"] = 2.0
m = sc.init_model()
roi = m.grid.roi
for k in range(len(m.dates)):
    m.run_single()
    if k == 7:
        before = m.state.snow.albedo[roi].copy()
    if k == 8:
        ok = m.state.meteo.snowfall[roi] < 3.0
        assert ok.any()
        after = m.state.snow.albedo[roi]
        assert (after[ok] <= before[ok] + 1e-9).all(), "light snowfall refreshed the albedo"
