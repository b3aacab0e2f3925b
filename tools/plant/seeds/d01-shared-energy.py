SEED = dict(
    property="D01",
    needs="multilayer snow model, several threads",
    what_it_breaks="the energies of the snow layers are collected in one array shared by all parallel iterations",
    edits=[("openamundsen/modules/snow/multilayermodel.py", "        internal_energy = np.zeros(max_num_layers)\n", "        internal_energy[:] = 0.0\n"),
           ("openamundsen/modules/snow/multilayermodel.py", "    energy_prev = heat_cap * (temp - c.T0)  # energy content (J m-2)\n", "    energy_prev = heat_cap * (temp - c.T0)  # energy content (J m-2)\n    internal_energy = np.zeros(max_num_layers)\n")],
)
import sys

import numba
import numpy as np
from mini import Scenario

ref = None
for rep in range(8):
    nt = 1 if rep == 0 else 4
    sc = Scenario(sys.argv[1] + f"/w{rep}", dict(seed=3, rows=40, cols=40, start="2020-01-10", end="2020-01-13", timestep="h", regime="cold", config={"snow": {"model": "multilayer"}}))
    numba.set_num_threads(nt)
    m = sc.init_model()
    m.config["num_threads"] = nt
    for _ in m.dates:
        m.run_single()
    t = m.state.snow.temp.copy()
    if ref is None:
        ref = t
    assert np.array_equal(ref, t, equal_nan=True), "snow temperatures depend on the number of threads"
