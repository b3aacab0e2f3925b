"""K01: configuration parsing - what the user sets is what the model uses, everything else has its documented default."""
import copy
import datetime
import math
from pathlib import Path

import numpy as np
import pandas as pd

from vp.scenario import Scenario, deep_update

RULE = ("random valid and invalid configurations derived from a pinned copy of the documented schema (vp/data) are parsed by the real code; one evaluation = one "
        "option value or one accept/reject decision; distinct = (option or rule, kind of value)")
REQUIRED = {"valid_config": 60, "set_option": 1500, "default_option": 5000, "invalid": 500, "unknown_key": 60, "wrong_type": 200, "not_allowed": 60, "range": 20,
            "dates_ok": 100, "dates_rejected": 60, "end_hour_inferred": 30, "deprecated": 20, "cross_rule": 40, "land_cover": 40, "nested_lai": 5, "yaml": 60, "idempotent": 60, "untouched": 60,
            "celsius": 4, "independent": 20, "model": 4}
DATA = Path(__file__).resolve().parent.parent / "data"
MIN = {"domain": "dummy", "start_date": "2019-11-01", "end_date": "2020-04-30", "crs": "epsg:32632", "resolution": 50, "timezone": 1}
SKIP_RANDOM = {"start_date", "end_date", "timestep", "crs", "snow.model", "snow.melt.method", "snow.melt.degree_day_factor", "snow.melt.albedo_factor", "glaciers.enabled",
               "snow.albedo.method", "meteo.precipitation_phase.threshold_temp", "output_data.timeseries.write_freq", "land_cover.classes",
               "input_data.meteo.filters", "meteo.precipitation_correction", "results_dir"}


def load(name):
    from ruamel.yaml import YAML

    return YAML(typ="safe").load((DATA / name).read_text())


def leaves(schema, prefix=""):
    for k, v in schema.items():
        p = f"{prefix}{k}"
        if v.get("type") == "dict" and "schema" in v and isinstance(v["schema"], dict):
            yield from leaves(v["schema"], p + ".")
        else:
            yield p, v


def jobs(tier, seed):
    rng = np.random.default_rng([seed, 23])
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(4 * k):
        out.append({"kind": "valid", "seed": int(rng.integers(1, 2**31)), "n": 20})
    for i in range(8):
        out.append({"kind": "invalid", "seed": int(rng.integers(1, 2**31)), "part": i})
    for i in range(2 * k):
        out.append({"kind": "dates", "seed": int(rng.integers(1, 2**31)), "n": 120})
    for i in range(2 * k):
        out.append({"kind": "rules", "seed": int(rng.integers(1, 2**31))})
    for i in range(2 * k):
        out.append({"kind": "landcover", "seed": int(rng.integers(1, 2**31)), "n": 25})
    for i in range(4 * k):
        out.append({"kind": "model", "seed": int(rng.integers(1, 2**31)), "i": i})
    return out


def put(cfg, path, val):
    d = cfg
    ks = path.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = val


def get(cfg, path):
    d = cfg
    for k in path.split("."):
        d = d[k]
    return d


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return {k for k in a} == {k for k in b} and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (bool, np.bool_)) != isinstance(b, (bool, np.bool_)):
        return False
    return a == b


def valid_value(rng, path, v):
    t = v.get("type")
    if "allowed" in v:
        return v["allowed"][int(rng.integers(0, len(v["allowed"])))]
    if path == "numba_threads":
        return [1, 3, "auto", None][int(rng.integers(0, 4))]
    if path == "input_data.meteo.bounds":
        return ["grid", "global", [1.0, 2.0, 3.5, 4.0]][int(rng.integers(0, 3))]
    if t == "list":
        n = v.get("minlength", int(rng.integers(1, 5)))
        el = v.get("schema", {}).get("type")
        if el in ("number", "float"):
            return [float(np.round(rng.uniform(0.01, 1), 4)) for _ in range(n)]
        if el == "string":
            return [f"id{j}" for j in range(n)]
        if path.endswith("timeseries.points"):
            return [{"x": 1.5, "y": 2}, {"x": 3.0, "y": 4.0, "name": "p"}][:n]
        if path == "output_data.grids.variables":
            return [{"var": "snow.swe", "freq": "D", "agg": "mean", "name": "q"}, {"var": "snow.depth", "dates": [pd.Timestamp("2020-01-02 03:00")]}][:n]
        if path == "output_data.timeseries.variables":
            return [{"var": "snow.swe", "name": "q"}, {"var": "snow.depth"}][:n]
        if path == "liveview.variables":
            return [{"var": "snow.swe", "min": 0, "max": 2.5}]
        raise KeyError(path)
    if t == "boolean":
        return bool(rng.random() < 0.5)
    if t == "integer":
        lo, hi = v.get("min", 1), v.get("max", 12)
        return int(rng.integers(lo, hi + 1))
    if t == "number":
        lo, hi = v.get("min", 0.001), v.get("max", 50)
        return [float(np.round(rng.uniform(lo, hi), 6)), int(np.ceil(lo)) if lo > 0.5 else 1][int(rng.random() < 0.2)]
    if t == "float":
        return float(np.round(rng.uniform(0.1, 20), 4))
    if t == "string":
        return "text%d" % rng.integers(0, 100)
    raise KeyError((path, v))


def parse(cfg):
    import openamundsen as oa

    return oa.parse_config(cfg)


def accepted(ctx, cfg, key, what):
    from openamundsen.errors import ConfigurationError

    try:
        return parse(cfg)
    except ConfigurationError as e:
        ctx.violation(f"rejected:{key}", f"valid configuration is rejected ({what}): {str(e)[:300]}")
        return None


def rejected(ctx, cfg, key, what):
    from openamundsen.errors import ConfigurationError

    try:
        parse(cfg)
    except ConfigurationError:
        ctx.ok()
        return True
    ctx.violation(f"accepted:{key}", f"invalid configuration is accepted: {what}")
    return False


def default_of(v):
    return v.get("default") if "default" in v else None


def run_valid(job, ctx):
    import openamundsen as oa

    rng = np.random.default_rng(job["seed"])
    spec = dict(leaves(load("configschema.yml")))
    first = None
    for q in range(job["n"]):
        cfg = copy.deepcopy(MIN)
        exp = {}
        frac = [0.05, 0.3, 0.9][q % 3]
        for p, v in spec.items():
            if p in SKIP_RANDOM or p in MIN or rng.random() > frac:
                continue
            val = valid_value(rng, p, v)
            put(cfg, p, val)
            exp[p] = val
        if rng.random() < 0.5:
            exp["results_dir"] = Path("some/dir")
            put(cfg, "results_dir", ["some/dir", Path("some/dir")][q % 2])
        if rng.random() < 0.4:
            fl = [{"var": "cloud_fraction", "filter": "range", "max": 90}, {"var": "temp", "filter": "range", "min": 3.5}][: int(rng.integers(0, 3))]
            put(cfg, "input_data.meteo.filters", fl)
            exp["input_data.meteo.filters"] = fl
        if rng.random() < 0.4:
            pc = [[{"method": "constant_scf", "scf": 1.4}], [{"method": "wmo", "gauge": "nipher"}], [{"method": "srf"}, {"method": "kochendorfer", "gauge": "us_un"}]][q % 3]
            put(cfg, "meteo.precipitation_correction", pc)
            exp["meteo.precipitation_correction"] = pc
        before = copy.deepcopy(cfg)
        full = accepted(ctx, cfg, "valid", f"options {sorted(exp)[:6]}")
        if full is None:
            continue
        ctx.event("valid_config")
        ctx.check(same(before, cfg), "mutated", "parsing modifies the passed configuration")
        ctx.event("untouched")
        for p, v in spec.items():
            if p in ("start_date", "end_date", "land_cover.classes"):
                continue
            if p in exp:
                want = exp[p]
                ctx.event("set_option")
            elif p in MIN:
                want = MIN[p]
            elif "default" in v:
                want = v["default"]
                ctx.event("default_option")
                if p == "results_dir":
                    want = Path(want)
            else:
                try:
                    get(full, p)
                    ctx.violation("extra", f"option {p} is set although it has no default and was not given")
                except KeyError:
                    ctx.ok()
                continue
            try:
                got = get(full, p)
            except KeyError:
                ctx.violation("missing:" + p, f"option {p} is missing in the parsed configuration")
                continue
            ctx.check(same(got, want), "value:" + p, f"option {p} is {got!r} after parsing, expected {want!r} ({'set by the user' if p in exp else 'default'})")
            ctx.state(p, p in exp)
        # attribute access
        ctx.check(full.snow.albedo.max == full["snow"]["albedo"]["max"], "attr", "attribute access differs from item access")
        # parsing a parsed configuration changes nothing
        again = accepted(ctx, full, "again", "parsing a parsed configuration again")
        ctx.event("idempotent")
        if again is not None:
            ctx.check(same(again.toDict(), full.toDict()), "idempotent", "parsing a parsed configuration changes it")
        # YAML round trip of the user's configuration
        f = ctx.workdir / f"c{q}.yml"
        from ruamel.yaml import YAML

        y = copy.deepcopy(cfg)
        if "results_dir" in y:
            y["results_dir"] = str(y["results_dir"])
        for g in y.get("output_data", {}).get("grids", {}).get("variables", []):
            if "dates" in g:
                g["dates"] = [str(d) for d in g["dates"]]
        with open(f, "w") as fh:
            YAML().dump(y, fh)
        rd = accepted(ctx, oa.read_config(f), "yaml", "the same configuration read from a YAML file")
        ctx.event("yaml")
        if rd is not None:
            ctx.check(same(rd.toDict(), full.toDict()), "yaml", "configuration read from a YAML file differs from the same configuration passed as dict")
        # independence of parsed configurations
        full.snow.min_thickness.append(9.0)
        full.meteo.interpolation.temperature.lapse_rate[0] = 77.0
        full.soil.albedo = 0.99
        full.land_cover.classes[5]["max_height"] = -1
        full.output_data.grids.variables.append({"var": "x"})
        full.input_data.meteo.filters.append({"var": "x"})
        other = parse(copy.deepcopy(MIN))
        if first is None:
            first = other
            ref = copy.deepcopy(other.toDict())
        ctx.check(same(other.toDict(), ref), "shared", "changing one parsed configuration changes another one")
        ctx.event("independent")


WRONG = {"boolean": ["yes", 3.5, [True], {"a": 1}], "integer": ["3", 2.5, [1]], "number": ["3.5", [1.0], {"a": 1}], "float": ["x", [1.0]], "string": [3, ["a"], {"a": 1}, True],
         "list": ["a", 3], "dict": ["a", 3, [1]]}


def run_invalid(job, ctx):
    rng = np.random.default_rng(job["seed"])
    schema = load("configschema.yml")
    spec = list(leaves(schema))
    mine = spec[job["part"]::8]

    def bad(path, val, kind, detail=""):
        cfg = copy.deepcopy(MIN)
        put(cfg, path, val)
        ctx.event("invalid")
        ctx.event(kind)
        rejected(ctx, cfg, f"{kind}:{path}", f"{path} = {val!r} ({kind}{detail})")
        ctx.state(path, kind)

    for p, v in mine:
        t = v.get("type")
        if p == "results_dir":
            continue
        if "allowed" in v:
            bad(p, "nosuchvalue", "not_allowed")
            a = v["allowed"][0]
            if p not in ("snow.model",):
                bad(p, a.upper() if a.upper() != a else a.lower(), "not_allowed")
        if isinstance(t, str) and p not in ("start_date", "timestep"):
            for w in WRONG.get(t, [])[: 2 + int(rng.integers(0, 3))]:
                bad(p, copy.deepcopy(w), "wrong_type")
            if "default" in v and v["default"] is not None and not v.get("nullable"):
                # an empty option in a YAML file (null) means its default
                cfg = copy.deepcopy(MIN)
                put(cfg, p, None)
                full = accepted(ctx, cfg, "null:" + p, f"{p} = None")
                if full is not None and p not in SKIP_RANDOM:
                    ctx.event("null_default")
                    ctx.check(same(get(full, p), v["default"]), "null:" + p, f"option {p} left empty is {get(full, p)!r}, default {v['default']!r}")
        if "min" in v:
            bad(p, v["min"] - (1 if t == "integer" else 0.001), "range")
        if "max" in v:
            bad(p, v["max"] + (1 if t == "integer" else 0.001), "range")
        if "minlength" in v:
            bad(p, [0.1] * (v["minlength"] - 1), "range")
            bad(p, [0.1] * (v["maxlength"] + 1), "range")
            bad(p, ["a"] * v["minlength"], "wrong_type")
        if t == "list" and v.get("schema", {}).get("type") == "number":
            bad(p, [0.1, "b"], "wrong_type")
        # a sibling that does not exist
        par = p.rsplit(".", 1)[0] + "." if "." in p else ""
        for nm in (p.rsplit(".", 1)[-1] + "x", p.rsplit(".", 1)[-1].upper()):
            if par + nm not in dict(spec):
                bad(par + nm, 1, "unknown_key")
    # dicts given as something else
    if job["part"] == 0:
        for p in ("snow", "meteo", "meteo.interpolation.temperature", "snow.albedo", "output_data.grids", "soil", "canopy", "glaciers.delta_h", "input_data.meteo"):
            for w in ("abc", 5, [1]):
                bad(p, w, "wrong_type")
        for k in MIN:
            cfg = copy.deepcopy(MIN)
            del cfg[k]
            ctx.event("invalid")
            rejected(ctx, cfg, "required:" + k, f"required option {k} is missing")
    if job["part"] == 1:
        bad("numba_threads", 0, "range")
        bad("numba_threads", "many", "not_allowed")
        bad("numba_threads", 2.5, "wrong_type")
        bad("input_data.meteo.bounds", [1, 2, 3], "range")
        bad("input_data.meteo.bounds", "everything", "not_allowed")
        bad("input_data.meteo.bounds", [1, 2, 3, "a"], "wrong_type")
        for fl in ({"var": "nosuch", "filter": "range"}, {"var": "temp", "filter": "median"}, {"filter": "range"}, {"var": "temp"}, {"var": "temp", "filter": "range", "min": "a"}, {"var": "temp", "filter": "range", "lo": 1}):
            bad("input_data.meteo.filters", [fl], "not_allowed")
    if job["part"] == 2:
        for pc in ({"method": "constant_scf"}, {"method": "wmo"}, {"method": "kochendorfer", "scf": 1.0}, {"method": "other"}, {"scf": 1.2}, {"method": "constant_scf", "scf": "a"}):
            bad("meteo.precipitation_correction", [pc], "not_allowed")
        for gv in ({"name": "a"}, {"var": 3}, {"var": "snow.swe", "agg": "median"}, {"var": "snow.swe", "frequency": "D"}, {"var": "snow.swe", "dates": "2020-01-01"}):
            bad("output_data.grids.variables", [gv], "not_allowed")
        for pt in ({"x": 1}, {"y": 1.0}, {"x": "a", "y": 1}, {"x": 1, "y": 2, "z": 3}, {"x": 1, "y": 2, "name": 3}):
            bad("output_data.timeseries.points", [pt], "not_allowed")
        for lc in ({"is_forest": "x"}, {"plant_date": 0}, {"plant_date": 367}, {"crop_coefficients": [1, 2]}, {"nosuch": 1}, {"growth_stage_lengths": [1, 2, 3]}, {"crop_coefficient_type": "triple"},
                   {"leaf_area_index": {"mean": 3}}, {"leaf_area_index": 4}, {"max_height": "a"}):
            bad("land_cover.classes", {5: lc}, "not_allowed")


def run_dates(job, ctx):
    rng = np.random.default_rng(job["seed"])
    for q in range(job["n"]):
        ts = ["h", "H", "3h", "3H", "6h", "D", "1D", "24h", "30min", "15min", "2h", "12h", "5D", "10min"][int(rng.integers(0, 14))]
        norm = ts.replace("H", "h")
        td = pd.Timedelta(norm if norm[0].isdigit() else "1" + norm)
        s = pd.Timestamp("2019-10-01") + pd.Timedelta(days=int(rng.integers(0, 150)))
        if rng.random() < 0.4:
            s += pd.Timedelta(hours=int(rng.integers(0, 24)))
        kind = int(rng.integers(0, 6))
        ndays = int(rng.integers(-3, 40))
        infer = kind in (0, 1, 2)
        e = (s + pd.Timedelta(days=ndays)).normalize()
        if not infer:
            e = s + td * int(rng.integers(0, 80))
            if rng.random() < 0.3:
                e += pd.Timedelta(minutes=int(rng.integers(1, 400)))
            if rng.random() < 0.15:
                e = s - pd.Timedelta(hours=int(rng.integers(1, 50)))
        start = [str(s), s, s.to_pydatetime(), f"{s:%Y-%m-%d %H:%M}"][int(rng.integers(0, 4))]
        end = {0: f"{e:%Y-%m-%d}", 1: e.date(), 2: f" {e:%Y-%m-%d} ", 3: str(e), 4: e, 5: e.to_pydatetime()}[kind]
        exp = e + (pd.Timedelta("24h") - td if infer and td < pd.Timedelta("24h") else pd.Timedelta(0))
        ok = exp >= s and (exp - s) % td == pd.Timedelta(0)
        cfg = dict(MIN, start_date=start, end_date=end, timestep=ts)
        if td > pd.Timedelta("1D"):
            put(cfg, "output_data.timeseries.write_freq", "10D")
        what = f"start {start!r}, end {end!r}, timestep {ts}"
        if ok:
            c = accepted(ctx, cfg, "dates", what)
            ctx.event("dates_ok")
            ctx.event("end_hour_inferred", infer and td < pd.Timedelta("24h"))
            if c is not None:
                ctx.check(c.start_date == s and isinstance(c.start_date, pd.Timestamp), "start-date", f"start date {c.start_date!r} ({what})")
                ctx.check(c.end_date == exp, "end-date", f"end date {c.end_date!r}, expected {exp} ({what})")
                ctx.check(c.timestep == norm, "timestep", f"timestep {c.timestep!r} ({what})")
        else:
            ctx.event("dates_rejected")
            rejected(ctx, cfg, "dates", what)
        ctx.state("dates", ts, kind, ok)


def run_rules(job, ctx):
    rng = np.random.default_rng(job["seed"])

    def cfg(**kw):
        c = copy.deepcopy(MIN)
        for k, v in kw.items():
            put(c, k.replace("__", "."), v)
        return c

    def rule(c, ok, name):
        ctx.event("cross_rule")
        ctx.state("rule", name, ok)
        return accepted(ctx, c, name, name) if ok else rejected(ctx, c, name, name)

    for model in ("multilayer", "cryolayers", "layers"):
        for melt in ("energy_balance", "temperature_index", "enhanced_temperature_index"):
            for ddf in (None, 5.0):
                for af in (None, 0.2):
                    ok = melt == "energy_balance" or (model == "cryolayers" and ddf is not None and (af is not None or melt == "temperature_index"))
                    c = cfg(snow__model=model, snow__melt__method=melt)
                    if ddf is not None:
                        put(c, "snow.melt.degree_day_factor", ddf)
                    if af is not None:
                        put(c, "snow.melt.albedo_factor", af)
                    r = rule(c, ok, f"melt {model} {melt} ddf={ddf} af={af}")
                    if ok and r:
                        ctx.check(r.snow.model == ("multilayer" if model == "layers" else model), "snow-model", f"snow model {r.snow.model} for {model}")
                        ctx.event("deprecated", model == "layers")
                        ctx.check(r.snow.melt.method == melt and r.snow.melt.degree_day_factor == ddf, "melt", "melt configuration changed")
    for en in (True, False):
        for model in ("multilayer", "cryolayers"):
            rule(cfg(glaciers__enabled=en, snow__model=model), not en or model == "cryolayers", f"glaciers {en} {model}")
    for crs, ok in (("epsg:32633", True), ("epsg:4326", False), ("epsg:31254", True), ("epsg:4258", False)):
        rule(cfg(crs=crs), ok, f"crs {crs}")
    for ts, wf, ok in (("5D", "30D", True), ("5D", "12D", False), ("5D", "ME", False), ("D", "ME", True), ("h", "YE", True), ("h", "D", True), ("10D", "10D", True), ("3h", "17h", True), ("2D", "3D", False), ("2D", "48h", True)):
        e = pd.Timestamp("2019-11-01") + 30 * pd.Timedelta(ts if ts[0].isdigit() else "1" + ts)
        rule(cfg(timestep=ts, end_date=str(e), output_data__timeseries__write_freq=wf), ok, f"write_freq {ts} {wf}")
    for t in (-5.0, 0.5, 2, 19.9):
        c = cfg(meteo__precipitation_phase__threshold_temp=t)
        before = copy.deepcopy(c)
        r = accepted(ctx, c, "celsius", f"threshold {t}")
        ctx.event("celsius")
        if r:
            ctx.check(abs(r.meteo.precipitation_phase.threshold_temp - (t + 273.15)) < 1e-9, "celsius", f"threshold temperature {t} becomes {r.meteo.precipitation_phase.threshold_temp}")
            ctx.check(before == c, "mutated", "parsing modifies the passed configuration")
            r2 = parse(r)
            ctx.check(r2.meteo.precipitation_phase.threshold_temp == r.meteo.precipitation_phase.threshold_temp, "celsius-twice", "threshold temperature is converted twice")
    for t in (273.15, 250.0, 20.0, 274.65):
        r = accepted(ctx, cfg(meteo__precipitation_phase__threshold_temp=t), "kelvin", f"threshold {t}")
        if r:
            ctx.check(r.meteo.precipitation_phase.threshold_temp == t, "kelvin", f"threshold temperature {t} becomes {r.meteo.precipitation_phase.threshold_temp}")
    # deprecated albedo methods
    kp, kn, sf = float(np.round(rng.uniform(0.05, 0.3), 3)), float(np.round(rng.uniform(0.01, 0.1), 3)), float(np.round(rng.uniform(0.2, 2), 2))
    c = cfg(snow__albedo={"method": "usaco", "k_pos": kp, "k_neg": kn, "significant_snowfall": sf, "refresh_method": "continuous", "max": 0.9})
    before = copy.deepcopy(c)
    r = accepted(ctx, c, "usaco", "albedo method usaco")
    if r:
        a = r.snow.albedo
        ctx.event("deprecated")
        ctx.check(a.method == "snow_age" and a.refresh_method == "binary" and a.decay_timescale_determination_temperature == "air" and a.refresh_snowfall == sf and a.max == 0.9, "usaco", f"albedo parameters {dict(a)}")
        ctx.check_close([a.cold_snow_decay_timescale, a.melting_snow_decay_timescale], [24 / kn, 24 / kp], "usaco-timescales", "decay timescales (h)")
        ctx.check(before == c, "mutated", "parsing modifies the passed configuration")
        ctx.check(same(parse(r).toDict(), r.toDict()), "usaco-twice", "parsing twice differs")
    r = accepted(ctx, cfg(snow__albedo={"method": "fsm", "cold_snow_decay_timescale": 333}), "fsm", "albedo method fsm")
    if r:
        a = r.snow.albedo
        ctx.event("deprecated")
        ctx.check(a.method == "snow_age" and a.refresh_method == "continuous" and a.decay_timescale_determination_temperature == "surface" and a.cold_snow_decay_timescale == 333, "fsm", f"albedo parameters {dict(a)}")
    # deprecated names
    lr = [float(x) for x in np.round(rng.uniform(-1, 1, 12), 3)]
    c = cfg(meteo__interpolation__wind_speed={"lapse_rate": lr, "trend_method": "fixed", "extrapolate": True})
    before = copy.deepcopy(c)
    r = accepted(ctx, c, "wind_speed", "deprecated wind_speed")
    ctx.event("deprecated")
    if r:
        w = r.meteo.interpolation.wind
        ctx.check(list(w.lapse_rate) == lr and w.trend_method == "fixed" and w.extrapolate is True and w.method == "idw" and "wind_speed" not in r.meteo.interpolation, "wind_speed", f"wind configuration {dict(w)}")
        ctx.check(before == c, "mutated", "parsing modifies the passed configuration")
    for dm in ("clear_sky_fraction", "humidity", "prescribed"):
        for nm in ("humidity", "constant"):
            c = cfg(meteo__interpolation__cloudiness={"day_method": dm, "night_method": nm})
            before = copy.deepcopy(c)
            r = accepted(ctx, c, "cloudiness", "deprecated cloudiness")
            ctx.event("deprecated")
            if r:
                w = r.meteo.interpolation.cloudiness
                ctx.check(w.method == dm and w.clear_sky_fraction_night_method == nm and "day_method" not in w and "night_method" not in w, "cloudiness", f"cloudiness configuration {dict(w)}")
                ctx.check(before == c, "mutated", "parsing modifies the passed configuration")
    rejected(ctx, cfg(meteo__interpolation__cloudiness={"day_method": "humidity", "method": "humidity"}), "day_method", "both day_method and method")


def run_landcover(job, ctx):
    rng = np.random.default_rng(job["seed"])
    ref = load("land_cover_class_params.yml")["classes"]
    base = parse(copy.deepcopy(MIN)).land_cover.classes
    ctx.check(same(base.toDict() if hasattr(base, "toDict") else dict(base), ref), "lc-default", "default land cover parameters differ from the documented ones")
    for q in range(job["n"]):
        user = {}
        for c in list(rng.choice(list(ref) + [99, 42], int(rng.integers(1, 4)), replace=False)) + ([5, 6, 7][q % 9 // 3:][:1] if q % 3 == 0 else []):
            p = {}
            for k, val in (("max_height", 3.25), ("plant_date", 77), ("rooting_depth", 0.33), ("is_forest", True), ("crop_coefficients", [0.1, 0.2, 0.3]), ("growth_stage_lengths", [1, 2, 3, 4]),
                           ("growth_stage_lengths", [[1, 2, 3, 4], [5, 6, 7, 8]]), ("depletion_fraction", 0.45), ("leaf_area_index", {"min": 0.5, "max": 3.5, "effective_add": 0.7}), ("is_sealed", False)):
                if rng.random() < 0.3:
                    p[k] = val
            if rng.random() < 0.3 or (q % 3 == 0 and "leaf_area_index" in ref.get(int(c), {})):
                p["leaf_area_index"] = [{"max": 9.5}, {"min": 0.25, "effective_add": 1.5}][int(rng.integers(0, 2))]
                ctx.event("nested_lai", "leaf_area_index" in ref.get(int(c), {}))
            user[int(c)] = p
        cfg = copy.deepcopy(MIN)
        put(cfg, "land_cover.classes", user)
        before = copy.deepcopy(cfg)
        r = accepted(ctx, cfg, "land-cover", f"land cover classes {user}")
        if not r:
            continue
        ctx.event("land_cover")
        ctx.check(same(before, cfg), "mutated", "parsing modifies the passed configuration")
        exp = deep_update(copy.deepcopy(ref), user)
        got = r.land_cover.classes
        for c in exp:
            ctx.check(c in got and same({k: dict(v) if isinstance(v, dict) else v for k, v in got[c].items()}, exp[c]), "lc-merge", f"parameters of land cover class {c}: {got.get(c)}, expected {exp[c]} (user set {user.get(c)})")
        ctx.check(set(got) == set(exp), "lc-classes", f"land cover classes {sorted(got)}")
        ctx.state("lc", len(user), sorted(user)[0])


def run_model(job, ctx):
    """The model works with the parsed configuration and leaves the user's one alone."""
    import openamundsen as oa

    i = job["i"]
    over = [{"snow": {"model": "cryolayers", "albedo": {"method": "usaco"}}, "meteo": {"precipitation_phase": {"threshold_temp": 0.5}}},
            {"snow": {"model": "multilayer"}, "canopy": {"enabled": True}, "land_cover": {"classes": {5: {"leaf_area_index": {"max": 8.0}}}}},
            {"snow": {"model": "layers"}, "meteo": {"interpolation": {"cloudiness": {"night_method": "constant"}}}},
            {"snow": {"model": "cryolayers"}, "evapotranspiration": {"enabled": True}, "output_data": {"timeseries": {"add_default_points": True, "add_default_variables": True, "format": "memory"}}}][i % 4]
    spec = dict(seed=job["seed"], start="2020-03-01", end="2020-03-02", timestep="6h", rows=5, cols=5, land_cover=[4, 5, 6, 7], soil=[1, 2], config=over)
    sc = Scenario(ctx.workdir, spec)
    cfg = copy.deepcopy(sc.config)
    before = copy.deepcopy(cfg)
    m = oa.OpenAmundsen(cfg)
    want = parse(copy.deepcopy(before))
    ctx.check(same(m.config.toDict(), want.toDict()), "model-config", "configuration of the model differs from the parsed one")
    m.initialize(meteo=sc.dataset())
    m.run()
    ctx.check(same(cfg, before), "user-config", "running the model modifies the user's configuration")
    after = parse(copy.deepcopy(before))
    ctx.check(same(after.toDict(), want.toDict()), "parse-after-run", "the same configuration is parsed differently after a model run")
    ctx.event("model")
    ctx.state("model", i % 4)


def run(job, ctx):
    globals()["run_" + job["kind"]](job, ctx)
