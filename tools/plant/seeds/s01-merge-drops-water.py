SEED = dict(
    property="S01",
    needs="cryolayers model: a wet new-snow layer reaching the old-snow density while an old-snow layer already exists",
    what_it_breaks="the liquid water of the merged layer vanishes, the mass balance of the step does not close",
    edits=[("openamundsen/modules/snow/cryolayermodel.py",
            "        s.liquid_water_content[dst_layer, pos_merge] += s.liquid_water_content[src_layer, pos_merge]\n",
            "        s.liquid_water_content[dst_layer, pos_merge] = np.maximum(\n            s.liquid_water_content[dst_layer, pos_merge],\n            s.liquid_water_content[src_layer, pos_merge],\n        )\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(
    seed=5, start="2020-01-10", end="2020-01-20", timestep="h", regime="swing",
    config={"snow": {"model": "cryolayers", "cryolayers": {"transition": {"old_snow": 150.0}}}}))
m = sc.init_model()
roi = m.grid.roi
s = m.state.snow
for _ in m.dates:
    pre = (s.ice_content + s.liquid_water_content)[:, roi].sum(0)
    m.run_single()
    post = (s.ice_content + s.liquid_water_content)[:, roi].sum(0)
    me = m.state.meteo
    want = pre + np.nan_to_num(me.snowfall[roi]) + np.nan_to_num(me.rainfall[roi]) - s.runoff[roi] - s.sublimation[roi]
    err = np.abs(post - want).max()
    assert err < 1e-6, f"mass balance error of {err} kg m-2 at {m.date}"
