SEED = dict(
    property="B01",
    needs="canopy model together with a configured degree day factor of the snow on the ground (which an energy balance run does not use)",
    what_it_breaks="the degree day factor of snowmelt replaces the one of canopy-intercepted snow",
    edits=[("openamundsen/modules/canopy/canopy.py", "                model.config.canopy.degree_day_factor\n", "                (model.config.snow.melt.degree_day_factor or model.config.canopy.degree_day_factor)\n")],
)
import sys

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-03-28", end="2020-03-31", timestep="3h", regime="swing", land_cover=[5, 6, 7, 8],
                                       config={"snow": {"model": "cryolayers"}, "canopy": {"enabled": True}}))
runs = []
for ddf in (None, 9.0):
    m = sc.init_model(snow={"melt": {"degree_day_factor": ddf}}) if ddf else sc.init_model()
    tot = 0
    for _ in m.dates:
        m.run_single()
        tot = tot + np.nan_to_num(m.state.snow.canopy_melt)
    runs.append((tot, m.state.snow.swe.copy()))
assert runs[0][0].sum() > 0, "not exercised"
for a, b in zip(*runs):
    assert np.array_equal(a, b, equal_nan=True), "a degree day factor changes an energy balance run"
