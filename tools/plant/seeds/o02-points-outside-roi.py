SEED = dict(
    property="O02",
    needs="a station within the grid but outside of the region of interest",
    what_it_breaks="point outputs are also written for stations outside of the region of interest",
    edits=[("openamundsen/fileio/pointoutput.py", "stations = model.meteo.sel(station=model.meteo.within_roi)", "stations = model.meteo.sel(station=model.meteo.within_grid_extent)")],
)
import sys

from mini import Scenario

sc = Scenario(sys.argv[1] + "/w", dict(seed=3, rows=8, cols=8, start="2020-01-10", end="2020-01-10", timestep="3h", roi_frac=0.5, num_stations=5, stations_in_roi=False,
                                       config={"snow": {"model": "cryolayers"}, "extend_roi_with_stations": False, "output_data": {"timeseries": {"format": "memory", "add_default_points": True}}}))
m = sc.init_model()
inside = [str(i) for i in m.meteo.station.values[m.meteo.within_roi.values]]
assert len(inside) < m.meteo.within_grid_extent.values.sum(), "no station outside"
m.run()
got = [str(p) for p in m.point_output.data.point.values]
assert sorted(got) == sorted(inside), (got, inside)
