"""Seeded generator of complete synthetic model runs (terrain, rasters, stations, forcing, config).

Everything is derived from numpy Generators, so a scenario is reproduced exactly from its spec dict.
"""
import copy
import os
from pathlib import Path

import numpy as np
import pandas as pd

CRS = "epsg:32632"
X0, Y0 = 640000.0, 5190000.0  # Tyrol, UTM 32N


def write_asc(path, arr, res, x0=X0, y0=Y0, nodata=-9999, fmt="%.6f"):
    a = np.array(arr, dtype=float)
    a = np.where(np.isfinite(a), a, nodata)
    with open(path, "w") as f:
        f.write(f"ncols {a.shape[1]}\nnrows {a.shape[0]}\nxllcorner {x0}\nyllcorner {y0}\n")
        f.write(f"cellsize {res}\nNODATA_value {nodata}\n")
        for row in a:
            f.write(" ".join(fmt % v for v in row) + "\n")


def make_dem(rng, rows, cols, kind="rough", res=50, base=1800.0):
    r, c = np.mgrid[0:rows, 0:cols].astype(float)
    if kind == "flat":
        d = np.full((rows, cols), base)
    elif kind == "plane":
        d = base + 0.35 * res * r - 0.2 * res * c
    elif kind == "valley":
        d = base + 0.9 * res * np.abs(c - cols / 2) + 0.1 * res * r
    elif kind == "peak":
        d = base + 12.0 * res * np.exp(-((r - rows / 2) ** 2 + (c - cols / 2) ** 2) / (0.12 * rows * cols))
    else:
        d = np.full((rows, cols), base)
        for _ in range(5):
            fr, fc, ph = rng.uniform(0.15, 0.9, 2).tolist() + [rng.uniform(0, 6.28)]
            d = d + rng.uniform(0.6, 2.2) * res * np.sin(fr * r + fc * c + ph)
        d += rng.normal(0, 0.08 * res, (rows, cols))
        d += 0.4 * res * r
    return np.round(d, 3)


DEF_STATIONS = 4
EXTREMES = {"temp": [240.0, 255.0, 273.15, 273.149999, 273.150001, 273.66, 288.0, 303.0], "rel_hum": [1.0, 1.0001, 20.0, 99.9999, 100.0],
            "wind_speed": [0.0, 1e-9, 0.1, 25.0, 40.0], "wind_dir": [0.0, 360.0, 180.0, 359.999],
            "precip": [0.0, 1e-9, 1e-4, 20.0, 50.0], "sw_in": [0.0, 1e-9, 1.0, 1300.0]}


def make_forcing(rng, dates, stations, regime="alpine", missing=0.0, hostile=0.0):
    """Return {station_id: DataFrame} with K, %, kg m-2, m/s, W m-2.

    With ``hostile`` > 0 that share of the values of every parameter is replaced, at all stations at once, by extreme or
    boundary values: exactly the melting point and its neighbours, saturated or bone-dry air, calm or storm, cloudbursts.
    """
    n = len(dates)
    h = np.asarray(dates.hour) + np.asarray(dates.minute) / 60.0
    dt_h = (dates[1] - dates[0]).total_seconds() / 3600 if n > 1 else 1.0
    doy = np.asarray(dates.dayofyear)
    t = np.arange(n)
    out = {}
    hot = {}
    if hostile:
        r2 = rng.spawn(1)[0]
        for v, vals in EXTREMES.items():
            hot[v] = (r2.random(n) < hostile, r2.choice([x * dt_h if v == "precip" and x > 1 else x for x in vals], n))
    # regional signals
    if regime == "alpine":
        season = -8 * np.cos(2 * np.pi * (doy - 20) / 365)
        base_t = 273.15 - 1 + season
        synop = 6 * np.sin(2 * np.pi * t * dt_h / 70 + rng.uniform(0, 6)) + rng.normal(0, 1.0, n)
    elif regime == "cold":
        base_t = np.full(n, 273.15 - 14.0)
        synop = 5 * np.sin(2 * np.pi * t * dt_h / 60) + rng.normal(0, 1.5, n)
    elif regime == "warm":
        base_t = np.full(n, 273.15 + 9.0)
        synop = 4 * np.sin(2 * np.pi * t * dt_h / 50) + rng.normal(0, 1.5, n)
    elif regime == "swing":  # violent alternation of snowfall and melt
        base_t = np.full(n, 273.15 + 0.5)
        synop = 9 * np.sign(np.sin(2 * np.pi * t * dt_h / 30 + rng.uniform(0, 6))) + rng.normal(0, 2, n)
    elif regime == "meltout":  # cold & snowy first, hot afterwards
        base_t = np.where(t < n * 0.35, 273.15 - 7, 273.15 + 10)
        synop = rng.normal(0, 1.5, n)
    elif regime == "foehn":  # snowfall, then dry and stormy, first cold (sublimation), then hot (melt)
        base_t = np.where(t < n * 0.3, 273.15 - 8, np.where(t < n * 0.65, 273.15 - 2, 273.15 + 9))
        synop = rng.normal(0, 1.0, n)
    elif regime == "dump":  # metres of cold snow within a step, then mild air
        base_t = np.where(t % 9 == 2, 273.15 - 16, np.where(t % 9 == 3, 273.15 + 20, 273.15 - 2))
        synop = rng.normal(0, 1.0, n)
    elif regime == "freezethaw":  # snowfall, then clear days with melt and nights with refreezing
        base_t = np.where(t < n * 0.08, 273.15 - 8, 273.15 + 0.5)
        synop = rng.normal(0, 0.5, n)
    else:
        raise ValueError(regime)
    diurnal = np.where((regime == "freezethaw") & (t >= n * 0.08), 9, 4) * np.sin(2 * np.pi * (h - 9) / 24)
    wet = (np.sin(2 * np.pi * t * dt_h / 55 + rng.uniform(0, 6)) + rng.normal(0, 0.4, n)) > 0.3
    intensity = rng.gamma(1.2, 1.3, n) * dt_h
    if regime == "meltout":
        wet = np.where(t < n * 0.35, rng.random(n) < 0.7, rng.random(n) < 0.15)
    if regime == "foehn":
        wet = np.where(t < n * 0.3, rng.random(n) < 0.7, t % 17 == 0)
    if regime == "dump":
        wet = t % 9 == 2
        intensity = intensity + 40 * dt_h
    if regime == "freezethaw":
        wet = t < n * 0.08
        intensity = 0.7 * intensity + 0.7 * dt_h
    sun = np.clip(np.sin(np.pi * (h - 6) / 12), 0, None)
    cloud = np.clip(np.where(wet, 0.85, 0.3) + rng.normal(0, 0.15, n), 0, 1)
    for st in stations:
        alt = st["alt"]
        temp = base_t + synop + diurnal - 0.0055 * (alt - 1900) + rng.normal(0, 0.4, n)
        rh = np.clip(np.where(wet, 93, 62) + rng.normal(0, 9, n), 3, 100)
        precip = np.where(wet, intensity * (1 + 0.0003 * (alt - 1900)) * rng.uniform(0.7, 1.3, n), 0.0)
        ws = np.abs(rng.gamma(2.0, 1.6, n))
        ws[rng.random(n) < 0.05] = 0.0
        if regime == "foehn":
            rh = np.where(t < n * 0.3, rh, rng.uniform(5, 30, n))
            ws = np.where(t < n * 0.3, ws, rng.uniform(8, 25, n))
        wd = rng.uniform(0, 360, n)
        sw = np.clip(900 * sun * (1 - 0.75 * cloud**2) * rng.uniform(0.85, 1.05, n), 0, 1400)
        df = pd.DataFrame(
            {
                "temp": temp,
                "precip": np.clip(precip, 0, None),
                "rel_hum": rh,
                "wind_speed": ws,
                "wind_dir": wd,
                "sw_in": sw,
            },
            index=dates,
        )
        df.index.name = "time"
        drop = st.get("drop", [])
        for v, (k, x) in hot.items():
            df.loc[k, v] = x[k]
        for v in drop:
            df[v] = np.nan
        if missing > 0:
            for v in df.columns:
                df.loc[rng.random(n) < missing, v] = np.nan
        out[st["id"]] = df
    return out


def deep_update(d, u):
    for k, v in u.items():
        if isinstance(v, dict) and isinstance(d.get(k), dict):
            deep_update(d[k], v)
        else:
            d[k] = copy.deepcopy(v)
    return d


class Scenario:
    """A materialised scenario: directories with rasters, forcing in memory, and a config dict."""

    def __init__(self, workdir, spec):
        self.spec = spec
        self.dir = Path(workdir)
        self.grid_dir = self.dir / "grids"
        self.meteo_dir = self.dir / "meteo"
        self.results_dir = self.dir / "results"
        for d in (self.grid_dir, self.meteo_dir, self.results_dir):
            d.mkdir(parents=True, exist_ok=True)
        s = spec
        rng = np.random.default_rng(s["seed"])
        self.rng = rng
        self.rows, self.cols, self.res = s.get("rows", 9), s.get("cols", 11), s.get("res", 50)
        self.dem = make_dem(rng, self.rows, self.cols, s.get("dem", "rough"), self.res)
        if s.get("dem_scale"):
            self.dem = np.round(1800.0 + (self.dem - 1800.0) * s["dem_scale"], s.get("dem_digits", 3))
        if s.get("dem_nan"):
            self.dem[0, 0] = np.nan
            self.dem[self.rows // 2, 1] = np.nan
        dom = "synth"
        sfx = f"_{dom}_{self.res}.asc"
        write_asc(self.grid_dir / f"dem{sfx}", self.dem, self.res)
        self.roi = np.ones((self.rows, self.cols), bool)
        if s.get("roi", True):
            roi = rng.random((self.rows, self.cols)) < s.get("roi_frac", 0.75)
            roi[self.rows // 2, self.cols // 2] = True
            self.roi = roi
            write_asc(self.grid_dir / f"roi{sfx}", roi.astype(int), self.res, fmt="%d")
        self.lc = self.soil = self.glaciers = self.srf = None
        if s.get("land_cover"):
            codes = np.array(s["land_cover"])
            self.lc = codes[rng.integers(0, len(codes), (self.rows, self.cols))]
            write_asc(self.grid_dir / f"lc{sfx}", self.lc, self.res, fmt="%d")
        if s.get("soil"):
            codes = np.array(s["soil"])
            self.soil = codes[rng.integers(0, len(codes), (self.rows, self.cols))]
            write_asc(self.grid_dir / f"soil{sfx}", self.soil, self.res, fmt="%d")
        if s.get("glaciers"):
            self.glaciers = (rng.random((self.rows, self.cols)) < s["glaciers"]).astype(int)
            write_asc(self.grid_dir / f"glaciers{sfx}", self.glaciers, self.res, fmt="%d")
        if s.get("srf"):
            self.srf = np.round(rng.uniform(0.3, 1.9, (self.rows, self.cols)), 4)
            write_asc(self.grid_dir / f"srf{sfx}", self.srf, self.res)
        # stations
        nst = s.get("num_stations", DEF_STATIONS)
        self.stations = []
        import pyproj

        tr = pyproj.Transformer.from_crs(CRS, "epsg:4326", always_xy=True)
        for i in range(nst):
            r = int(rng.integers(0, self.rows))
            c = int(rng.integers(0, self.cols))
            if s.get("stations_in_roi", True):
                cand = np.argwhere(self.roi & np.isfinite(self.dem))
                r, c = cand[rng.integers(0, len(cand))]
            # in-cell offset, never on the cell edge
            x = X0 + (c + rng.uniform(0.2, 0.8)) * self.res
            y = Y0 + (self.rows - 1 - r + rng.uniform(0.2, 0.8)) * self.res
            lon, lat = tr.transform(x, y)
            alt = float(np.round(self.dem[r, c] + rng.uniform(-15, 15), 1))
            if not np.isfinite(alt):
                alt = 1900.0
            st = dict(id=f"st{i:02d}", name=f"Station {i}", x=float(x), y=float(y), lon=float(lon),
                      lat=float(lat), alt=alt, row=int(r), col=int(c))
            self.stations.append(st)
        for st, drop in zip(self.stations, s.get("drops", [])):
            st["drop"] = drop
        self.dates = pd.date_range(s["start"], s["end"], freq=s.get("timestep", "3h"))
        self.forcing = make_forcing(rng, self.dates, self.stations, s.get("regime", "alpine"),
                                    s.get("missing", 0.0), s.get("hostile", 0.0))
        if s.get("no_hum"):  # no humidity at all in a part of the period
            for df in self.forcing.values():
                df.loc[df.index[s["no_hum"][0]:s["no_hum"][1]], "rel_hum"] = np.nan
        for e in s.get("blackout", []):  # timesteps with no data at all
            for df in self.forcing.values():
                df.iloc[e, :] = np.nan
        self.config = self.make_config()

    def make_config(self):
        s = self.spec
        cfg = {
            "domain": "synth",
            "start_date": str(self.dates[0]),
            "end_date": str(self.dates[-1]),
            "resolution": self.res,
            "timestep": s.get("timestep", "3h"),
            "crs": CRS,
            "timezone": 1,
            "results_dir": str(self.results_dir),
            "log_level": "ERROR",
            "input_data": {
                "grids": {"dir": str(self.grid_dir)},
                "meteo": {"dir": str(self.meteo_dir), "format": "memory"},
            },
            "output_data": {
                "timeseries": {"format": "memory", "add_default_points": False,
                               "add_default_variables": False},
                "grids": {"format": "memory"},
            },
        }
        deep_update(cfg, s.get("config", {}))
        return cfg

    # -- forcing in the various formats -------------------------------------------------------
    def dataset(self):
        import openamundsen as oa

        dss = []
        for st in self.stations:
            df = self.forcing[st["id"]].dropna(axis=1, how="all") if self.spec.get("omit_empty") else self.forcing[st["id"]]
            dss.append(oa.forcing.make_point_dataset(data=df, point_id=st["id"], name=st["name"],
                                                     lon=st["lon"], lat=st["lat"], alt=st["alt"]))
        return oa.forcing.combine_point_datasets(dss)

    def write_csv(self, d=None):
        d = Path(d or self.meteo_dir)
        with open(d / "stations.csv", "w") as f:
            f.write("id,name,x,y,alt\n")
            for st in self.stations:
                f.write(f"{st['id']},{st['name']},{st['x']!r},{st['y']!r},{st['alt']!r}\n")
        for st in self.stations:
            self.forcing[st["id"]].to_csv(d / f"{st['id']}.csv", float_format="%.17g")

    def model(self, **over):
        import openamundsen as oa

        cfg = copy.deepcopy(self.config)
        deep_update(cfg, over)
        return oa.OpenAmundsen(cfg)

    def init_model(self, **over):
        m = self.model(**over)
        if m.config.input_data.meteo.format == "memory":
            m.initialize(meteo=self.dataset())
        else:
            m.initialize()
        return m
