SEED = dict(
    property="R01",
    needs="simulation_timezone 0 (UTC) in a domain with another local time zone",
    what_it_breaks="a simulation time zone of UTC is treated as not set, the sun position is shifted",
    edits=[("openamundsen/model.py", "        if self.config.simulation_timezone is None:\n", "        if not self.config.simulation_timezone:\n")],
)
import sys

import numpy as np
from mini import Scenario

res = []
for tz, start, end in ((1, "2020-03-10 10:00", "2020-03-10 12:00"), (0, "2020-03-10 09:00", "2020-03-10 11:00")):
    m = Scenario(sys.argv[1] + f"/w{tz}", dict(seed=3, start=start, end=end, timestep="h", config={"snow": {"model": "cryolayers"}, "timezone": 1, "simulation_timezone": tz})).init_model()
    for _ in m.dates:
        m.run_single()
        res.append(m.sun_params["zenith_angle"])
n = len(res) // 2
assert np.allclose(res[:n], res[n:]), "the sun position depends on the time zone of the simulation"
