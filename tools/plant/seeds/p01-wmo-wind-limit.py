SEED = dict(
    property="P01",
    needs="WMO correction and snowfall with a wind speed above 7 m/s",
    what_it_breaks="the wind speed used by the WMO transfer functions is no longer limited to 7 m/s",
    edits=[("openamundsen/meteo/precipcorr.py", "wind_speeds_2m = wind_speeds_2m.clip(max=7)", "wind_speeds_2m = wind_speeds_2m.clip(min=0)")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=3, start="2020-01-10", end="2020-01-12", timestep="3h", num_stations=1, regime="cold",
    config={"snow": {"model": "cryolayers"}, "meteo": {"measurement_height": {"wind": 2.0, "temperature": 2.0}, "precipitation_correction": [{"method": "wmo", "gauge": "us_sh"}]}}))
for df in sc.forcing.values():
    df["precip"], df["temp"], df["wind_speed"] = 1.0, 260.0, 7.0
    df.iloc[5:, list(df.columns).index("wind_speed")] = 12.0
m = sc.init_model()
p = m.meteo["precip"].values.ravel()
assert p[0] > 1.5
assert np.allclose(p, p[0]), f"storms are corrected beyond the validity of the transfer function: {p[0]} {p[-1]}"
