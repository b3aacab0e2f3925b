SEED = dict(
    property="H01",
    needs="partly frozen soil",
    what_it_breaks="the apparent heat capacity of freezing soil lacks most of its temperature-dependent part",
    edits=[("openamundsen/modules/soil/soil.py", "(c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * temp[k, i, j]", "(c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * (temp[k, i, j] - c.T0)")],
)
import sys

import numpy as np
from mini import Scenario
from openamundsen import constants as c

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-01-12", timestep="3h", regime="cold", config={"snow": {"model": "multilayer"}}))
m = sc.init_model()
n = 0
for _ in m.dates:
    pre = m.state.soil.temp.copy()
    m.run_single()
    s, roi = m.state.soil, m.grid.roi
    k = (c.ICE_DENSITY / c.WATER_DENSITY) * c.LATENT_HEAT_OF_FUSION / (c.T0 * c.GRAVITATIONAL_ACCELERATION)
    for i in range(s.temp.shape[0]):
        T, th, ts_, b, ps = pre[i][roi], s.vol_moisture_content[i][roi], s.vol_moisture_content_sat[roi], s.clapp_hornberger[roi], s.sat_water_pressure[roi]
        z = T < c.T0 - ps / k * (ts_ / th) ** b - 0.05
        if not z.any():
            continue
        n += z.sum()
        thu = np.minimum(ts_ * (k * (c.T0 - T) / ps) ** (-1 / b), th)
        d = k * ts_ / (b * ps) * (k * (c.T0 - T) / ps) ** (-1 / b - 1)
        thf = (th - thu) * c.WATER_DENSITY / c.ICE_DENSITY
        C = (s.vol_heat_cap_dry[roi] + c.WATER_DENSITY * c.SPEC_HEAT_CAP_WATER * thu + c.ICE_DENSITY * c.SPEC_HEAT_CAP_ICE * thf
             + c.WATER_DENSITY * ((c.SPEC_HEAT_CAP_WATER - c.SPEC_HEAT_CAP_ICE) * T + c.LATENT_HEAT_OF_FUSION) * d) * s.thickness[i][roi]
        assert np.allclose(s.heat_cap[i][roi][z], C[z], rtol=1e-6), "heat capacity of frozen soil"
assert n > 20, n
