SEED = dict(
    property="K01",
    needs="an end date without hour and a time step between 6 h and one day",
    what_it_breaks="an end date without hour no longer includes the whole last day",
    edits=[("openamundsen/conf.py", "    if infer_end_hour and timedelta < pd.Timedelta(days=1):\n", "    if infer_end_hour and timedelta < pd.Timedelta(hours=6):\n")],
)
import copy
import sys

import openamundsen as oa
import pandas as pd
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-01-11", timestep="3h", config={"snow": {"model": "cryolayers"}}))
for ts, want in (("h", "23:00"), ("6h", "18:00"), ("12h", "12:00"), ("D", "00:00")):
    d = copy.deepcopy(sc.config)
    d.update(start_date="2020-01-01", end_date="2020-01-21", timestep=ts)
    got = oa.parse_config(d).end_date
    assert got == pd.Timestamp("2020-01-21 " + want), (ts, got)
