SEED = dict(
    property="S04",
    needs="cryo layer model: new snow is handed on to an existing old snow layer while there is cold content in either",
    what_it_breaks="of the cold contents of merged layers only the colder one is kept",
    edits=[("openamundsen/modules/snow/cryolayermodel.py", "        s.cold_content[dst_layer, pos_merge] += s.cold_content[src_layer, pos_merge]\n", "        s.cold_content[dst_layer, pos_merge] = np.maximum(\n            s.cold_content[dst_layer, pos_merge], s.cold_content[src_layer, pos_merge]\n        )\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-01-25", timestep="3h", num_stations=1, regime="cold", config={"snow": {"model": "cryolayers", "cryolayers": {"transition": {"old_snow": 110.0}}}}))
for df in sc.forcing.values():
    k = np.arange(len(df))
    df["temp"] = 268.0
    df["precip"] = np.where(k % 20 < 6, 2.0, 0.0)
m = sc.init_model()
s, z = m.state.snow, m.grid.roi
n = 0
prev = None
for _ in m.dates:
    had = (s.ice_content[:2, z] > 0).all(axis=0)
    cc = np.nan_to_num(s.cold_content[:2, z]).copy()
    m.run_single()
    new = np.nan_to_num(s.cold_content[:2, z])
    handed = had & (s.ice_content[0][z] == 0) & (s.ice_content[1][z] > 0) & (s.melt[z] == 0) & (cc.min(axis=0) > 0.1 * cc.sum(axis=0)) & (cc.sum(axis=0) > 0)
    n += handed.sum()
    # (below freezing cold content grows until the holding capacity is reached, which shrinks a little with sublimation)
    assert (new.sum(axis=0) >= 0.97 * cc.sum(axis=0))[handed].all(), f"cold content is lost when layers merge at {m.date}"
assert n > 20, n
