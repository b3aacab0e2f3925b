SEED = dict(
    property="L01",
    needs="a time step shorter than one hour",
    what_it_breaks="every time step within the first hour of a day claims to be the first of the day",
    edits=[("openamundsen/model.py", "strict_first_of_day = pot_prev_date.day != self.date.day", "strict_first_of_day = self.date.hour == 0")],
)
import sys

from mini import Scenario

m = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10 22:00", end="2020-01-11 02:00", timestep="30min", config={"snow": {"model": "cryolayers"}})).init_model()
for d in m.dates:
    m.run_single()
    want = d == d.normalize()
    assert bool(m.timestep_props.strict_first_of_day if not callable(m.timestep_props) else m.timestep_props().strict_first_of_day) == want, d
