SEED = dict(
    property="I01",
    needs="trend method 'fixed' with lapse rates differing between months and a run crossing the end of a month",
    what_it_breaks="in the last day of a month the lapse rate of the following month is applied",
    edits=[("openamundsen/meteo/interpolation.py",
            'lapse_rate = param_config["lapse_rate"][date.month - 1]',
            'lapse_rate = param_config["lapse_rate"][(date + pd.Timedelta("1D")).month - 1]')],
)
import sys

import numpy as np
import openamundsen as oa
from mini import Scenario

rates = [-0.001 * (i + 1) for i in range(12)]
sc = Scenario(sys.argv[1] + "/w", dict(
    seed=7, start="2020-01-30", end="2020-02-02", timestep="6h", num_stations=1,
    config={"snow": {"model": "cryolayers"},
            "meteo": {"interpolation": {"temperature": {"trend_method": "fixed", "lapse_rate": rates}}}}))
m = sc.init_model()
roi = m.grid.roi
st = sc.stations[0]
for _ in m.dates:
    m.run_single()
    want = sc.forcing[st["id"]].loc[m.date, "temp"] + rates[m.date.month - 1] * (m.state.base.dem[roi] - st["alt"])
    assert np.allclose(m.state.meteo.temp[roi], want, atol=1e-6), f"wrong lapse rate at {m.date}"
