SEED = dict(
    property="M01",
    needs="a range filter whose lower limit is 0",
    what_it_breaks="a lower limit of zero is ignored, negative precipitation recordings are used",
    edits=[("openamundsen/fileio/meteo.py", "        if np.isfinite(min_range):\n", "        if min_range:\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=3, start="2020-01-10", end="2020-01-11", timestep="3h", num_stations=1, config={"snow": {"model": "cryolayers"}, "input_data": {"meteo": {"format": "csv", "crs": "epsg:32632", "filters": [{"var": "precip", "filter": "range", "min": 0}]}}}))
for df in sc.forcing.values():
    df["precip"] = 1.0
    df.iloc[2, list(df.columns).index("precip")] = -5.0
sc.write_csv()
m = sc.init_model()
p = m.meteo["precip"].values.ravel()
assert not (p < 0).any(), "negative precipitation passed the filter"
assert np.isnan(p).sum() == 1
