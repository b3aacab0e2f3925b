SEED = dict(
    property="N01",
    needs="a region of interest raster with nodata pixels",
    what_it_breaks="nodata pixels of the region of interest are simulated",
    edits=[("openamundsen/model.py", "                fill_value=False,\n                dtype=bool,\n", "                dtype=bool,\n")],
)
import sys
from pathlib import Path

import numpy as np
from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, start="2020-01-10", end="2020-01-10", timestep="3h", roi_frac=0.8, config={"snow": {"model": "cryolayers"}}))
f = next(Path(sys.argv[1]).rglob("roi_*.asc"))
L = f.read_text().splitlines()
h = [i for i, x in enumerate(L) if x.split()[0][0].isalpha()]
rows = [x.split() for x in L[len(h):]]
rows[0][0] = rows[1][2] = "-9999"
head = [x for x in L[: len(h)] if not x.lower().startswith("nodata")] + ["NODATA_value -9999"]
f.write_text("\n".join(head + [" ".join(r) for r in rows]) + "\n")
m = sc.init_model()
assert not m.grid.roi[0, 0] and not m.grid.roi[1, 2], "nodata pixels are part of the region of interest"
