SEED = dict(
    property="X01",
    needs="Anderson compaction, snow on the ground and a step without temperature",
    what_it_breaks="a step without air temperature destroys the thickness and density of the snow layers",
    edits=[("openamundsen/modules/snow/snow.py", "                if np.isnan(densification_rate):\n", "                if densification_rate < 0.0:\n")],
)
import sys

import numpy as np
from mini import Scenario

for model in ("multilayer", "cryolayers"):
    sc = Scenario(sys.argv[1] + "/" + model, dict(seed=3, start="2020-01-10", end="2020-01-12", timestep="3h", regime="cold", config={"snow": {"model": model, "compaction": {"method": "anderson"}}}))
    for df in sc.forcing.values():
        df["precip"] = 2.0
        df.iloc[8, list(df.columns).index("temp")] = np.nan
    m = sc.init_model()
    for _ in m.dates:
        m.run_single()
        assert np.isfinite(m.state.snow.depth[m.grid.roi]).all(), f"snow depth lost at {m.date}"
