SEED = dict(
    property="E01",
    needs="cryo layer model: a step melts all new snow and goes on with an old snow layer that still has cold content",
    what_it_breaks="the time to melt a lower layer completely does not include its cold content, which is then warmed up without energy",
    edits=[("openamundsen/surface.py", "            + s.snow.cold_content[layer_num, :]\n        )", "            + (s.snow.cold_content[layer_num, :] if layer_num == 0 else 0)\n        )")],
)
import sys

import numpy as np
from mini import Scenario
from openamundsen import constants as c

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-01-14", timestep="D", num_stations=1, regime="cold", config={"snow": {"model": "cryolayers", "melt": {"method": "energy_balance"}}}))
for df in sc.forcing.values():
    df["precip"] = 0.0
    df["temp"] = 278.0
m = sc.init_model()
s, z = m.state.snow, m.grid.roi
n = 0
for _ in m.dates:
    # a thin layer of new snow on an old snow layer with cold content
    old = np.linspace(0.2, 30.0, z.sum())
    for i, (w, dens, cc) in enumerate(((0.5, 150.0, 0.0), (old, 300.0, 4.0))):
        s.ice_content[i][z], s.liquid_water_content[i][z], s.cold_content[i][z] = w, 0.0, cc
        s.density[i][z], s.layer_albedo[i][z] = dens, 0.6
        s.thickness[i][z] = w / dens
    s.swe[z], s.depth[z] = 0.5 + old, s.thickness.sum(axis=0)[z]
    m.run_single()
    me, su = m.state.meteo, m.state.surface
    en = (me.net_radiation + su.sens_heat_flux + su.lat_heat_flux + su.advective_heat_flux - su.heat_flux)[z] * m.timestep
    lower = s.melt[z] > 0.5 + 1e-9
    used = c.LATENT_HEAT_OF_FUSION * (s.melt[z] + 4.0 - s.cold_content[1][z])
    n += lower.sum()
    assert (used[lower] <= en[lower] * (1 + 1e-6)).all(), f"more snow is melted than there is energy at {m.date}"
assert n > 20, n
