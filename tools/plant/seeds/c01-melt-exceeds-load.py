SEED = dict(
    property="C01",
    needs="melting and sublimation of the intercepted snow in the same step, together exceeding the storage",
    what_it_breaks="melt unload is limited by the load before sublimation: the interception storage becomes negative",
    edits=[("openamundsen/modules/canopy/canopy.py",
            "            s.snow.canopy_intercepted_load[pos],\n        )\n        s.snow.canopy_intercepted_load[pos] -= s.snow.canopy_melt[pos]",
            "            new_canopy_intercepted_load,\n        )\n        s.snow.canopy_intercepted_load[pos] -= s.snow.canopy_melt[pos]")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=7, start="2020-03-10", end="2020-03-24", timestep="3h", regime="swing", land_cover=[5, 6, 7],
    config={"snow": {"model": "cryolayers"}, "canopy": {"enabled": True}}))
for df in sc.forcing.values():
    df["rel_hum"] = np.clip(df["rel_hum"] - 45, 5, 100)
m = sc.init_model()
for _ in m.dates:
    m.run_single()
    load = m.state.snow.canopy_intercepted_load
    assert not (load < -1e-9).any(), f"negative interception storage {np.nanmin(load)} at {m.date}"
