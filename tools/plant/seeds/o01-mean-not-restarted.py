SEED = dict(
    property="O01",
    needs="an aggregated (mean) grid output with more than one output interval",
    what_it_breaks="the number of aggregated steps is not reset, so all means after the first interval are wrong",
    edits=[("openamundsen/fileio/griddedoutput.py",
            "                field.data = None\n                field.num_aggregations = 0\n",
            "                field.data = None\n                if field.agg is None:\n                    field.num_aggregations = 0\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=7, start="2020-03-10", end="2020-03-12 21:00", timestep="3h",
    config={"snow": {"model": "cryolayers"},
            "output_data": {"grids": {"format": "memory", "variables": [{"var": "meteo.temp", "agg": "mean", "freq": "D"}]}}}))
m = sc.init_model()
rows = []
for _ in m.dates:
    m.run_single()
    rows.append((m.date, m.state.meteo.temp.copy()))
ds = m.gridded_output.data
prev = None
for t in ds.time.values:
    sel = [a for d, a in rows if (prev is None or d > prev) and d <= t]
    got = ds["temp"].sel(time=t).values
    assert np.allclose(got, np.mean(sel, axis=0), atol=1e-3, equal_nan=True), f"wrong mean at {t}"
    prev = t
