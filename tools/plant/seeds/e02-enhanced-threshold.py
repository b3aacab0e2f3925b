SEED = dict(
    property="E02",
    needs="enhanced temperature index method, a threshold temperature other than the freezing point and sunshine",
    what_it_breaks="below the threshold temperature snow melts by radiation as long as it is warmer than the freezing point",
    edits=[("openamundsen/modules/snow/cryolayermodel.py", "melt[degree_days <= 0.0] = 0.0", "melt[s.meteo.temp[snowies] <= constants.T0] = 0.0")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=3, start="2020-04-10", end="2020-04-14", timestep="3h", num_stations=1, regime="cold",
    config={"snow": {"model": "cryolayers", "melt": {"method": "enhanced_temperature_index", "degree_day_factor": 3.0, "albedo_factor": 2.0, "threshold_temp": 275.15}}}))
for df in sc.forcing.values():
    df["precip"], df["temp"], df["sw_in"] = 0.0, 274.4, 400.0
    df.iloc[:4, list(df.columns).index("precip")] = 20.0
    df.iloc[:4, list(df.columns).index("temp")] = 260.0
m = sc.init_model()
for _ in m.dates:
    m.run_single()
    z = m.grid.roi & (m.state.meteo.temp < 275.15)
    assert (m.state.snow.melt[z] == 0).all(), f"melt below the threshold temperature at {m.date}"
