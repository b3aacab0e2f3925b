SEED = dict(
    property="S02",
    needs="cryo layer model: snow with cold content leaves a layer",
    what_it_breaks="the cold content of a layer survives its snow",
    edits=[("openamundsen/modules/snow/cryolayermodel.py", "        s.cold_content[layer, pos] = 0\n", "")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-02-10", timestep="3h", regime="cold", config={"snow": {"model": "cryolayers", "cryolayers": {"transition": {"old_snow": 110.0}}}}))
for df in sc.forcing.values():
    df["temp"] = np.where(np.arange(len(df)) < 40, 262.0, 270.0)
    df["precip"] = np.where(np.arange(len(df)) < 20, 2.0, 0.0)
m = sc.init_model()
n = 0
for _ in m.dates:
    m.run_single()
    s, z = m.state.snow, m.grid.roi
    empty = (s.ice_content + s.liquid_water_content)[:, z] <= 0
    n += ((s.ice_content[1][z] > 0) & empty[0]).sum()
    assert (np.nan_to_num(s.cold_content[:, z])[empty] == 0).all(), f"cold content without snow at {m.date}"
assert n > 0, "not exercised"
