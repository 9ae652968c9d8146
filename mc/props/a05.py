"""A05: the nights, hashes, statistics and data directories of simulations."""
import bz2
import contextlib
import gzip
import hashlib
import io
import itertools
import json
import lzma
import math
import os
import pickle
import shutil
import sqlite3
import subprocess
import sys
from datetime import date, datetime, timedelta
from fractions import Fraction
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from mc.core import Unit

PROPERTY = "A05"
LEVEL = "exploration"
RULE = (
    "every night notation and instant around the boundary of nights; every small visit table hashed, summarized, and "
    "converted to and from HDF5; every sequence of overhead calls; every combination of the inputs of a data directory; "
    "non-trivial = a value or file is produced"
)
ASSUMPTIONS = [
    "the simulation engine (sim_runner) is replaced by a stand-in that returns given observations",
    "the almanac is a synthetic one with the layout of the data file",
    "tables have plain names, files supplied have different base names",
]


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


# ---------------------------------------------------------------- nights
def mjd_of(d):
    return (d - date(1858, 11, 17)).days


FRACS = [(0, 1), (1, 86400), (43199, 86400), (43200, 86400), (43201, 86400), (86399, 86400)]


def nights(ctx):
    """All notations of a night agree, and nights change at 12h UTC."""
    from astropy.time import Time
    from lsst.resources import ResourcePath
    from uuid import UUID

    from rubin_sim.sim_archive.util import dayobs_to_date
    from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats, construct_base_resource_path

    starts = [date(2024, 2, 27), date(2025, 2, 26), date(2025, 12, 29), date(2026, 9, 28), date(2030, 1, 1)]
    days = sorted({s + timedelta(days=i) for s in starts for i in range(ctx.pick(5, 40))})
    ctx.bounds["days"] = len(days)
    for d in days:
        if ctx.case("notation", d.isoformat()):
            for v in (d, d.isoformat(), int(d.strftime("%Y%m%d")), d.strftime("%Y%m%d"), datetime(d.year, d.month, d.day, 1, 2, 3), d.isoformat() + "T23:59:59"):
                ok, g = ctx.must(dayobs_to_date, v, what=f"dayobs_to_date of a {type(v).__name__}")
                if ok:
                    ctx.expect(type(g) is date and g == d, "a notation of a night gives another one", given=repr(v), got=repr(g), want=d.isoformat())
            ctx.outcome(d.isoformat())
        for num, den in FRACS:
            if not ctx.case("instant", d.isoformat(), num):
                continue
            want = d if Fraction(num, den) >= Fraction(1, 2) else d - timedelta(days=1)
            # nights are counted from UTC-12
            t = Time(mjd_of(d), num / den, format="mjd", scale="utc")
            for v in (t, Time([t])):
                ok, g = ctx.must(dayobs_to_date, v, what="dayobs_to_date of a time")
                if ok:
                    ctx.expect(type(g) is date and g == want, "the night of an instant is another one", got=repr(g), want=want.isoformat())
            if num in (43200,):
                # rounding of a single double is not at issue
                continue
            mjd = mjd_of(d) + num / den
            for col in ("obs_start_mjd", "observationStartMJD"):
                ok, g = ctx.must(compute_nightly_stats, pd.DataFrame({col: [mjd], "altitude": [40.0], "azimuth": [1.0]}), what="compute_nightly_stats")
                if ok:
                    ctx.equal(sorted({str(x)[:10] for x in g["day_obs"]}), [want.isoformat()], "a visit is counted in another night")
            u = UUID("12345678-1234-5678-1234-567812345678")
            ok, g = ctx.must(construct_base_resource_path, ResourcePath("file:///tmp/base/", forceDirectory=True), "simonyi", t, u, what="construct_base_resource_path")
            if ok:
                ctx.equal(g.geturl(), f"file:///tmp/base/simonyi/{want.isoformat()}/{u}/", "the directory of a visit sequence is in another night")
            ctx.outcome(want.isoformat())


# ---------------------------------------------------------------- hashes
def frames(ctx):
    """All frames of up to 2 rows with columns of 3 kinds, and their content."""
    vals = {"a": (1, 2), "x": (0.5, -0.5), "s": ("r", "g")}
    out = []
    for cols in [c for n in (1, 2, 3) for c in itertools.permutations("axs", n)]:
        for rows in range(ctx.pick(3, 4) if len(cols) < 3 else 3):
            for cells in itertools.product(*[itertools.product(vals[c], repeat=rows) for c in cols]):
                out.append((cols, cells))
    return out


def build(cols, cells, index=None):
    d = {}
    for c, v in zip(cols, cells):
        if c == "s":
            # a fresh object for each value
            v = ["".join(list(x)) for x in v]
            d[c] = pd.Series(v, dtype="str", index=index)
        else:
            d[c] = pd.Series(list(v), dtype=int if c == "a" else float, index=index)
    return pd.DataFrame(d)


def hashes(ctx):
    from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

    seen = {}
    todo = frames(ctx)
    ctx.bounds["tables"] = len(todo)
    for cols, cells in todo:
        if not ctx.case("hash", "".join(cols), cells):
            pass
        ok, h = ctx.must(compute_visits_sha256, build(cols, cells), what="compute_visits_sha256")
        if not ok:
            continue
        ctx.expect(isinstance(h, bytes) and len(h) == 32, "not a SHA-256 digest", got=repr(h))
        ok, h2 = ctx.must(compute_visits_sha256, build(cols, cells), what="compute_visits_sha256")
        ctx.expect(h == h2, "two tables with the same content have different hashes")
        f = build(cols, cells)
        g = f.copy()
        compute_visits_sha256(f)
        ctx.expect(f.equals(g), "hashing changed the table")
        if h in seen:
            ctx.fail("two different tables have the same hash", other=seen[h])
        seen[h] = (cols, cells)
        ctx.outcome(h.hex())
    # across interpreters, so that a hash recorded in the archive means something
    if ctx.case("processes"):
        sub = todo[:: max(1, len(todo) // 60)]
        code = (
            "import sys,json,warnings; warnings.simplefilter('ignore'); sys.path.insert(0, sys.argv[1])\n"
            "from mc.props.a05 import build\n"
            "from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256 as f\n"
            "print(json.dumps([f(build(c, v)).hex() for c, v in json.loads(sys.stdin.read())]))\n"
        )
        root = str(Path(__file__).resolve().parents[2])
        env = dict(os.environ)
        got = []
        for seed in ("0", "7"):
            env["PYTHONHASHSEED"] = seed
            r = subprocess.run([sys.executable, "-c", code, root], input=json.dumps(sub), capture_output=True, text=True, env=env)
            ctx.expect(r.returncode == 0, "hashing in another process failed", err=r.stderr[-500:])
            got.append(json.loads(r.stdout.splitlines()[-1]) if r.returncode == 0 else None)
        here = [compute_visits_sha256(build(c, v)).hex() for c, v in sub]
        ctx.expect(got[0] == here and got[1] == here, "a hash depends on the process")
    # the way the table came about does not matter
    base = pd.DataFrame({"a": [1, 2, 3], "x": [0.5, 1.5, 2.5], "s": ["r", "g", "r"]})
    variants = {
        "copy": base.copy(),
        "concat": pd.concat([base.iloc[:1], base.iloc[1:]]),
        "insert": pd.DataFrame({"a": [1, 2, 3]}).assign(x=[0.5, 1.5, 2.5], s=["r", "g", "r"]),
        "rows": pd.DataFrame([(1, 0.5, "r"), (2, 1.5, "g"), (3, 2.5, "r")], columns=["a", "x", "s"]),
        "reversed twice": base.iloc[::-1].iloc[::-1],
        "columns twice": base[["s", "x", "a"]][["a", "x", "s"]],
    }
    ref = compute_visits_sha256(base)
    for k, f in variants.items():
        if ctx.case("made", k):
            ctx.expect(compute_visits_sha256(f) == ref, "a table made another way has another hash")
            ctx.outcome(k)
    changed = {
        "value": base.assign(x=[0.5, 1.5, 2.5000001]),
        "text": base.assign(s=["r", "g", "i"]),
        "order": base.iloc[[1, 0, 2]],
        "sorted back": base.iloc[[1, 0, 2]].reset_index(drop=True),
        "name": base.rename(columns={"x": "y"}),
        "index": base.set_axis([0, 1, 5]),
        "type": base.astype({"a": float}),
        "less": base.iloc[:2],
        "more": pd.concat([base, base.iloc[2:]]),
        "columns": base[["x", "a", "s"]],
        "shifted text": base.assign(s=["rg", "", "r"]),
        "nan": base.assign(x=[0.5, np.nan, 2.5]),
        "none": base.assign(s=["r", None, "r"]),
        "none as text": base.assign(s=["r", "None", "r"]),
        "nan as text": base.assign(s=["r", "nan", "r"]),
    }
    hs = {"": ref}
    for k, f in changed.items():
        if ctx.case("changed", k):
            ok, h = ctx.must(compute_visits_sha256, f, what="compute_visits_sha256")
            if ok:
                for o, g in hs.items():
                    ctx.expect(g != h, "different tables have the same hash", other=o)
                hs[k] = h
                ctx.outcome(h.hex())


# ------------------------------------------------------- conversion of files
TABLES = {
    "observations": ("a integer, b text, c real", [(1, "x", 0.5), (2, "y, z", -3.25), (3, "", 1e300), (4, "é", 0.0)]),
    "info": ("p text, v text", [("Date", "2025-01-01"), ("Version", "4.6.0")]),
    "one": ("n integer", [(7,), (8,)]),
}


def write_db(path, content):
    if os.path.exists(path):
        os.remove(path)
    with contextlib.closing(sqlite3.connect(path)) as c:
        for t, rows in content.items():
            c.execute(f"create table {t} ({TABLES[t][0]})")
            c.executemany(f"insert into {t} values ({','.join('?' * len(TABLES[t][0].split(',')))})", rows)
        c.commit()


def read_db(path):
    with contextlib.closing(sqlite3.connect(path)) as c:
        names = [r[0] for r in c.execute("select name from sqlite_master where type='table'")]
        return {t: ([r[1] for r in c.execute(f"pragma table_info({t})")], c.execute(f"select * from {t}").fetchall()) for t in names}


def convert(ctx):
    from rubin_sim.sim_archive.util import hdf5_to_opsimdb, opsimdb_to_hdf5

    src, h5, back = (os.path.join(ctx.scratch, n) for n in ("in.db", "out.h5", "back.db"))
    obs_rows = [[], *[[r] for r in TABLES["observations"][1]], TABLES["observations"][1], TABLES["observations"][1][::-1]]
    null_rows = [[(1, None, 0.5), (2, "y", 1.0)], [(1, "x", None), (2, "y", 1.0)], [(1, None, 2.0)], [(1, "x", None)]]
    contents = [{"observations": o} for o in obs_rows + null_rows]
    contents += [{"observations": o, "info": i} for o in obs_rows for i in ([], TABLES["info"][1])]
    contents += [{"info": TABLES["info"][1], "observations": o, "one": n} for o in obs_rows for n in ([], [(7,)], [(7,), (8,)])]
    contents += [{"one": [(7,)]}]
    ctx.bounds["databases"] = len(contents)

    def check(content, got):
        ctx.equal(sorted(got), sorted(content), "the tables differ after the round trip")
        for t, rows in content.items():
            if t not in got:
                continue
            ctx.equal(got[t][0], [x.split()[0] for x in TABLES[t][0].split(", ")], "the columns differ after the round trip", table=t)
            g = [tuple(None if (isinstance(x, float) and math.isnan(x)) else x for x in r) for r in got[t][1]]
            ctx.equal(g, list(rows), "the rows differ after the round trip", table=t, rtol=0, atol=0)

    for k, content in enumerate(contents):
        for explicit in (True, False):
            if not ctx.case("trip", k, explicit):
                continue
            for f in (h5, back, os.path.join(ctx.scratch, "in.h5")):
                if os.path.exists(f):
                    os.remove(f)
            write_db(src, content)
            before = open(src, "rb").read()
            ok, h = ctx.must(opsimdb_to_hdf5, *((src, h5) if explicit else (Path(src),)), what="opsimdb_to_hdf5")
            if not ok:
                continue
            ctx.equal(h, h5 if explicit else src[:-3] + ".h5", "the file is somewhere else")
            ctx.expect(open(src, "rb").read() == before, "the database was changed by the conversion")
            if not explicit:
                os.rename(src, src + ".orig")
            ok, g = ctx.must(hdf5_to_opsimdb, *((h, back) if explicit else (Path(h),)), what="hdf5_to_opsimdb")
            if not ok:
                continue
            ctx.equal(g, back if explicit else src, "the database is somewhere else")
            check(content, read_db(g))
            ctx.outcome((k, sorted(content)), trivial=not any(content.values()))
    # writing over an earlier conversion leaves nothing of it
    for a, b in itertools.product(range(0, len(contents), 3), repeat=2):
        if not ctx.case("again", a, b):
            continue
        for f in (h5, back):
            if os.path.exists(f):
                os.remove(f)
        ok = True
        for k in (a, b):
            write_db(src, contents[k])
            ok = ctx.must(opsimdb_to_hdf5, src, h5, what="opsimdb_to_hdf5 onto an earlier file")[0] and ok
        if ok and ctx.must(hdf5_to_opsimdb, h5, back, what="hdf5_to_opsimdb")[0]:
            check(contents[b], read_db(back))
            # a database that has the tables already is not silently changed
            if contents[b]:
                ctx.call(hdf5_to_opsimdb, h5, back)
                check(contents[b], read_db(back))
        ctx.outcome((a, b))


# ---------------------------------------------------------------- statistics
def quantile(v, p):
    v = sorted(v)
    k = Fraction(p) * (len(v) - 1)
    i = int(k)
    lo, hi = Fraction(v[i]), Fraction(v[min(i + 1, len(v) - 1)])
    return float(lo + (hi - lo) * (k - i))


def stats(ctx):
    from rubin_sim.sim_archive.vseqarchive import compute_nightly_stats

    values = (10.0, 30.0, 80.0)
    n = ctx.pick(3, 4)
    ctx.bounds["visits"] = n
    cols_menu = [("altitude",), ("altitude", "azimuth"), ("azimuth", "altitude"), ("t_eff", "altitude")]
    for k in range(1, n + 1):
        for nights_, vals in itertools.product(itertools.product((0, 1, 3), repeat=k), itertools.product(values, repeat=k)):
            for kind in ("mjd", "day_obs"):
                for cols in cols_menu if k < 3 else cols_menu[1:3]:
                    if not ctx.case(nights_, vals, kind, list(cols)):
                        continue
                    d = {"altitude": list(vals), "azimuth": [v * 2 - 5 for v in vals], "t_eff": [v / 7 for v in vals]}
                    days = [date(2025, 6, 30) + timedelta(days=x) for x in nights_]
                    if kind == "mjd":
                        d["observationStartMJD"] = [mjd_of(x) + 1 + 0.1 * (i + 1) for i, x in enumerate(days)]
                    else:
                        d["day_obs"] = days
                        # which is what counts when both are there
                        d["observationStartMJD"] = [60000.0] * k
                    f = pd.DataFrame(d, index=[7 * i for i in range(k)])
                    g = f.copy()
                    ok, t = ctx.must(compute_nightly_stats, f, *(() if cols == ("altitude", "azimuth") else (cols,)), what="compute_nightly_stats")
                    if not ok:
                        continue
                    ctx.expect(f.equals(g), "computing statistics changed the visits")
                    want = {}
                    for day in set(days):
                        for c in cols:
                            v = [x for x, y in zip(d[c], days) if y == day]
                            m = sum(map(Fraction, v)) / len(v)
                            sd = math.sqrt(sum((Fraction(x) - m) ** 2 for x in v) / (len(v) - 1)) if len(v) > 1 else math.nan
                            want[day.isoformat(), c] = dict(count=len(v), mean=float(m), std=sd, min=min(v), max=max(v), p05=quantile(v, "0.05"), q1=quantile(v, "0.25"), median=quantile(v, "0.5"), q3=quantile(v, "0.75"), p95=quantile(v, "0.95"))
                    got = {(str(r["day_obs"])[:10], r["value_name"]): {s: r[s] for s in ("count", "mean", "std", "min", "max", "p05", "q1", "median", "q3", "p95")} for r in t.to_dict("records")}
                    ctx.expect(len(got) == len(t), "a night and value has two rows")
                    ctx.equal(got, want, "the statistics of the nights differ")
                    ctx.equal([bool(x) for x in t["accumulated"]], [False] * len(t), "nightly statistics marked as accumulated")
                    ctx.outcome((nights_, vals), sample=False)
    if ctx.case("nothing to tell the night from"):
        ctx.raises(ValueError, compute_nightly_stats, pd.DataFrame({"altitude": [1.0], "azimuth": [2.0]}), what="visits without a date")


# ---------------------------------------------------------------- overheads
def observation(slew, visit, exp, kind):
    from rubin_scheduler.scheduler.utils import ObservationArray

    if kind == "dict":
        return {"slewtime": slew, "visittime": visit, "exptime": exp}
    if kind == "dict1":
        return {k: np.array([v]) for k, v in observation(slew, visit, exp, "dict").items()}
    o = ObservationArray()
    o["slewtime"], o["visittime"], o["exptime"] = slew, visit, exp
    return o


def overhead(ctx):
    from rubin_sim.sim_archive.prenight import AnomalousOverheadFunc

    obs = [(5.0, 34.0, 30.0), (120.0, 34.0, 30.0), (0.0, 30.0, 30.0), (2.0, 31.0, 30.0)]
    configs = {
        "none": {},
        "slew": dict(slew_scale=0.5),
        "big slew": dict(slew_scale=5.0),
        "late": dict(slew_scale=1e-14, slew_loc=0.25),
        "scatter": dict(scatter_kwargs={"scale": 3.0}),
        "fixed": dict(scatter_kwargs={"loc": 7.0, "scale": 0.0}),
        "normal": dict(scatter_distribution="normal", scatter_kwargs={"scale": 40.0}),
        "uniform": dict(scatter_distribution="uniform", scatter_kwargs={"low": -300.0, "high": -299.0}),
        "both": dict(slew_scale=0.5, scatter_kwargs={"scale": 3.0}),
        "min": dict(scatter_distribution="normal", scatter_kwargs={"scale": 40.0}, min_overhead=6.0),
        "min slew": dict(slew_scale=3.0, min_overhead=4.0),
    }
    depth = ctx.pick(3, 4)
    ctx.bounds.update(calls=depth, configurations=len(configs))
    for name, kw in configs.items():
        for seq in itertools.product(range(len(obs)), repeat=depth):
            for kind in ("dict", "dict1", "array"):
                if kind != "dict" and (seq[0] != seq[-1] or seq[1] == 2):
                    continue
                for seed in (1, 2, 42):
                    if not ctx.case(name, seq, kind, seed):
                        continue
                    given = {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
                    ok, f = ctx.must(AnomalousOverheadFunc, seed, **given, what="AnomalousOverheadFunc")
                    if not ok:
                        continue
                    ctx.equal(given.get("scatter_kwargs"), kw.get("scatter_kwargs"), "the arguments of the caller were changed")
                    ok, twin = ctx.must(AnomalousOverheadFunc, seed, **given, what="AnomalousOverheadFunc")
                    other = AnomalousOverheadFunc(9, **given)
                    got = []
                    for i in seq:
                        o = observation(*obs[i], kind)
                        keep = observation(*obs[i], kind)
                        ok, v = ctx.must(f, obs=o, what=f"the overhead of {name}")
                        if not ok:
                            break
                        if kind == "array":
                            ctx.expect(o.tobytes() == keep.tobytes(), "the observation was changed")
                        else:
                            ctx.equal(o, keep, "the observation was changed")
                        # calls of another function in between change nothing
                        other(obs=observation(*obs[(i + 1) % len(obs)], "dict"))
                        w = twin(obs=observation(*obs[i], "dict"))
                        v, w = (float(np.asarray(x).item()) for x in (v, w))
                        ctx.expect(v == w or math.isclose(v, w, rel_tol=1e-12), "the same seed gives another overhead", got=v, want=w)
                        model = obs[i][0] + obs[i][1] - obs[i][2]
                        lim = kw.get("min_overhead", 0.0)
                        ctx.expect(math.isfinite(v) and model + v >= lim - 1e-9, "the overhead is below its minimum", got=v, model=model)
                        if name == "none":
                            ctx.equal(v, 0.0, "an offset without scatter")
                        if name == "late":
                            ctx.equal(v, 0.25 * obs[i][0], "the systematic offset of the slew", atol=1e-9)
                        if name == "fixed":
                            ctx.equal(v, 7.0, "the systematic offset")
                        if name == "scatter":
                            ctx.expect(v >= 0.0, "a half normal scatter is negative", got=v)
                        if name == "uniform":
                            ctx.equal(v, -model, "an overhead below its minimum is not set to it", atol=1e-9)
                        if name in ("slew", "big slew"):
                            ctx.expect(v >= -obs[i][0] - 1e-9, "a slew takes negative time", got=v)
                            if obs[i][0] == 0.0:
                                ctx.equal(v, 0.0, "no slew has an offset")
                        got.append(v)
                    ctx.outcome(got, trivial=name == "none", sample=False)
    for kw in (dict(visit_scale=1.0), dict(scatter_distribution="nosuch")):
        if ctx.case("refused", sorted(kw)):
            ctx.raises((NotImplementedError, AttributeError), AnomalousOverheadFunc, 1, **kw, what="an overhead that cannot be made")
    # different seeds differ, one function does not repeat itself
    for name in ("slew", "scatter", "both", "normal"):
        if ctx.case("random", name):
            f, g = AnomalousOverheadFunc(1, **configs[name]), AnomalousOverheadFunc(2, **configs[name])
            v = [[float(h(obs=observation(120.0, 34.0, 30.0, "dict"))) for _ in range(4)] for h in (f, g)]
            ctx.expect(len(set(v[0] + v[1])) == 8, "random overheads repeat", got=v)


# ---------------------------------------------------------------- almanac
NIGHTS = 12
FIRST = date(2025, 12, 26)


def almanac_dir(ctx):
    d = os.path.join(ctx.scratch, "almanac")
    os.makedirs(os.path.join(d, "site_models"), exist_ok=True)
    names = ["night", "sunset", "sun_n12_setting", "sun_n18_setting", "sun_n18_rising", "sun_n12_rising", "sunrise", "moonrise", "moonset"]
    a = np.zeros(NIGHTS, dtype=[(n, int if n == "night" else float) for n in names])
    for i in range(NIGHTS):
        m = mjd_of(FIRST) + i
        # about 23h UT, or just after 0h, of the day of the night
        sunset = m + (0.95 if i % 2 else 1.001)
        a[i] = (i, sunset, sunset + 0.03, sunset + 0.05, m + 1.36, m + 1.38, m + 1.41 + 0.001 * i, 0, 0)
    np.savez(os.path.join(d, "site_models", "sunsets.npz"), almanac=a)
    t = mjd_of(FIRST) + np.arange(4) * 10.0
    sm = np.zeros(4, dtype=[(n, float) for n in ["mjd", "sun_alt", "sun_az", "sun_RA", "sun_dec", "moon_alt", "moon_az", "moon_RA", "moon_dec", "moon_phase"]])
    sm["mjd"] = t
    np.savez(os.path.join(d, "site_models", "sun_moon.npz"), sun_moon_info=sm)
    pl = np.zeros(4, dtype=[("mjd", float)] + [(f"{p}_{c}", float) for p in ("venus", "mars", "jupiter", "saturn") for c in ("RA", "dec")])
    pl["mjd"] = t
    np.savez(os.path.join(d, "site_models", "planet_locations.npz"), planet_loc=pl)
    os.environ["RUBIN_SIM_DATA_DIR"] = d
    return a


def window(ctx):
    from rubin_sim.sim_archive.prenight import compute_sim_start_and_end

    a = almanac_dir(ctx)
    for i in range(NIGHTS):
        day = FIRST + timedelta(days=i)
        for n in range(1, NIGHTS - i + 1):
            for delay in (0, 30, 240.5):
                if not ctx.case(day.isoformat(), n, delay):
                    continue
                ok, v = ctx.must(compute_sim_start_and_end, int(day.strftime("%Y%m%d")), n, *(() if delay == 0 else (delay,)), what="compute_sim_start_and_end")
                if not ok:
                    continue
                start = a["sun_n12_setting"][i] + delay / 1440.0
                ctx.equal([float(v[0]), float(v[0]) + float(v[1])], [start, a["sunrise"][i + n - 1]], "the window is not from twilight to the last sunrise", rtol=0, atol=1e-7)
                # what it leads to is the night asked for
                night = math.floor(float(v[0]) - 0.5)
                ctx.equal(night, mjd_of(day), "the simulation starts in another night")
                ctx.outcome([float(x) for x in v], sample=False)


# ---------------------------------------------------------------- directories
def obs_array(mjds):
    from rubin_scheduler.scheduler.utils import ObservationArray

    o = ObservationArray(n=len(mjds))
    o["mjd"] = mjds
    o["ID"] = np.arange(len(mjds))
    o["RA"] = np.linspace(0.1, 1.0, len(mjds))
    o["dec"] = -0.5
    o["band"] = "r"
    o["filter"] = "r_57"
    o["target_name"] = "x"
    o["exptime"] = 30.0
    return o


DAYS = {
    "one night": ([61000.9, 61001.0, 61001.2], "2025-11-21", "2025-11-21"),
    "evening to next": ([61000.51, 61001.49, 61001.51], "2025-11-21", "2025-11-22"),
    "morning first": ([61000.49, 61002.6], "2025-11-20", "2025-11-23"),
    "unsorted": ([61003.9, 61001.1, 61002.2], "2025-11-21", "2025-11-24"),
    "single": ([61000.7], "2025-11-21", "2025-11-21"),
}
KWARGS = {
    "no": ({}, None, None),
    "one": (dict(sim_start_mjd=61000.9, sim_duration=0.43), "2025-11-21", "2025-11-21"),
    "whole": (dict(sim_start_mjd=np.float64(61000.9), sim_duration=1.0), "2025-11-21", "2025-11-21"),
    "one int": (dict(sim_start_mjd=61000.9, sim_duration=1), "2025-11-21", "2025-11-21"),
    "two": (dict(sim_start_mjd=61000.99, sim_duration=np.float64(1.41), record_rewards=np.True_, n_visit_limit=np.int64(5)), "2025-11-21", "2025-11-22"),
    "three": (dict(sim_start_mjd=61001.02, sim_duration=3, record_rewards=False, verbose=True, anomalous_overhead_func=None, note="text"), "2025-11-21", "2025-11-23"),
    "other": (dict(n_visit_limit=5), None, None),
}


def directory(ctx, names):
    from rubin_scheduler.scheduler.utils import SchemaConverter
    from rubin_sim.sim_archive.sim_archive import make_sim_data_dir

    os.environ["USER"] = "someone"
    src = os.path.join(ctx.scratch, "src")
    os.makedirs(src, exist_ok=True)
    for n in ("sched.p", "script.py"):
        open(os.path.join(src, n), "w").write(f"content of {n}\n")
    files = [{}, {"scheduler": os.path.join(src, "sched.p")}, {"scheduler": os.path.join(src, "sched.p"), "script": Path(src, "script.py")}]
    r1 = pd.DataFrame({"basis": ["a", "b"], "value": [1.0, 2.0]})
    r2 = pd.DataFrame({"queue": [1, 2], "reward": [0.5, 0.25]})
    rewards = [(None, None), (r1, None), (None, r2), (r1, r2)]
    tags_menu = [[], ["a"], ["b", "a"]]
    metas = [None, {}, {"telescope": "simonyi", "extra": 3}]
    target = os.path.join(ctx.scratch, "target")
    shared = {"telescope": "auxtel"}
    for days in names:
        mjds, first, last = DAYS[days]
        for (kn, (kw, kf, kl)), (ri, rw), (fi, fl), tags, label, meta, where in itertools.product(
            KWARGS.items(), enumerate(rewards), enumerate(files), tags_menu, (None, "my label"), metas, ("temp", "str", "path")
        ):
            # a covering of the product: everything with everything else of two
            odd = [kn != "one", ri != 3, fi != 2, tags != ["a"], label is None, meta != metas[2], where != "path"]
            if sum(odd) > ctx.pick(1, 2):
                continue
            if not ctx.case("dir", days, kn, ri, fi, tags, label, meta, where):
                continue
            shutil.rmtree(target, ignore_errors=True)
            os.makedirs(target)
            o = obs_array(mjds)
            keep = o.copy()
            kw_given, tags_given, fl_given = dict(kw), list(tags), dict(fl)
            meta_given = None if meta is None else dict(meta)
            extra = {} if where == "temp" else {"data_path": target if where == "str" else Path(target)}
            ok, d = ctx.must(make_sim_data_dir, o, rw[0], rw[1], fl_given, kw_given, tags_given, label, opsim_metadata=meta_given, what="make_sim_data_dir", **extra)
            if not ok:
                continue
            ctx.expect((kw_given, tags_given, fl_given, meta_given) == (kw, tags, fl, meta), "what the caller supplied was changed", meta=meta_given)
            ctx.expect(o.tobytes() == keep.tobytes(), "the observations were changed")
            path = Path(d.name if where == "temp" else d)
            if where != "temp":
                ctx.equal(str(path), target, "the data is in another directory")
            want_files = {"observations": "opsim.db", "statistics": "obs_stats.txt"}
            if ri:
                want_files["rewards"] = "rewards.h5"
            for t, f in fl.items():
                want_files[t] = Path(f).name
            ok, y = ctx.must(lambda: yaml.safe_load((path / "sim_metadata.yaml").read_text()), what="reading the metadata")
            if not ok:
                continue
            ctx.equal({t: v.get("name") for t, v in y["files"].items()}, want_files, "the metadata lists other files")
            ctx.equal(sorted(p.name for p in path.iterdir()), sorted([*want_files.values(), "sim_metadata.yaml"]), "the directory holds other files")
            for t, v in y["files"].items():
                ctx.expect(hashlib.md5((path / v["name"]).read_bytes()).hexdigest() == v.get("md5"), "a file does not match its checksum", file=t)
            for t, f in fl.items():
                ctx.expect((path / Path(f).name).read_bytes() == Path(f).read_bytes(), "a supplied file differs")
            ctx.equal(y["simulated_dates"], {"first": kf or first, "last": kl or last}, "the nights simulated")
            if tags:
                ctx.equal(y.get("tags"), tags, "the tags")
            else:
                ctx.expect(not y.get("tags"), "tags nobody gave", got=y.get("tags"))
            ctx.equal(y.get("label"), label, "the label")
            ctx.equal((y.get("telescope"), y.get("extra")), ((meta or {}).get("telescope"), (meta or {}).get("extra")), "the metadata supplied")
            if kw:
                want = {k: (bool(v) if isinstance(v, bool) else int(v) if isinstance(v, (int, np.integer)) else float(v) if isinstance(v, (float, np.floating)) else str(v)) for k, v in kw.items()}
                got = y.get("sim_runner_kwargs")
                if "record_rewards" in want and isinstance(kw["record_rewards"], np.bool_):
                    want["record_rewards"] = (got or {}).get("record_rewards") if str((got or {}).get("record_rewards")) == "True" else "True"
                ctx.equal(got, want, "the arguments of the simulation")
                ctx.expect(all(type(got[k]) is type(want[k]) for k in want if k in got), "an argument changed its type", got=got)
            else:
                ctx.expect(not y.get("sim_runner_kwargs"), "arguments nobody gave", got=y.get("sim_runner_kwargs"))
            for key, r in zip(("reward_df", "obs_rewards"), rw):
                if ri and r is not None:
                    ok, g = ctx.must(pd.read_hdf, path / "rewards.h5", key, what="reading the rewards")
                    ctx.expect(ok and g.equals(r), "the rewards differ", key=key)
            ok, back = ctx.must(SchemaConverter().opsim2obs, str(path / "opsim.db"), what="reading the observations")
            if ok:
                ctx.equal([float(x) for x in back["mjd"]], [float(x) for x in keep["mjd"]], "the visits differ", rtol=0, atol=1e-9)
                ctx.equal([float(x) for x in back["RA"]], [float(x) for x in keep["RA"]], "the visits differ")
            ctx.outcome(y["simulated_dates"], sample=False)
            if where == "temp":
                d.cleanup()
        # directories one after another from the same dict and with defaults
        for seq in itertools.permutations(("one", "two", "no"), 3):
            if not ctx.case("sequence", days, seq):
                continue
            meta = dict(shared)
            for i, kn in enumerate(seq):
                kw, kf, kl = KWARGS[kn]
                tags = ["t%d" % i] if i != 1 else []
                label = None if i == 1 else "l%d" % i
                ok, d = ctx.must(make_sim_data_dir, obs_array(mjds), in_files=dict(files[i % 3]), sim_runner_kwargs=dict(kw), tags=tags, label=label, opsim_metadata=meta, what="make_sim_data_dir")
                if not ok:
                    continue
                y = yaml.safe_load(Path(d.name, "sim_metadata.yaml").read_text())
                ctx.equal(meta, shared, "the dict of the caller was changed")
                ctx.equal((y.get("tags") or [], y.get("label"), y["simulated_dates"], sorted(y["files"]), sorted(y.get("sim_runner_kwargs", {}))),
                          (tags, label, {"first": kf or first, "last": kl or last}, sorted(["observations", "statistics", *files[i % 3]]), sorted(kw)),
                          "a directory has metadata of an earlier one")
                d.cleanup()
            ctx.outcome(seq, sample=False)


class Sched:
    """Stands in for a scheduler; its state changes when it is run."""

    nside = 32

    def __init__(self, keep=False):
        self.keep_rewards = keep
        self.visits = 0
        self.added = []

    def add_observations_array(self, obs):
        self.added.append([float(x) for x in obs["mjd"]])


def drive(ctx):
    from rubin_sim.sim_archive import prenight, sim_archive

    os.environ["USER"] = "someone"
    r1, r2 = pd.DataFrame({"v": [1.0]}), pd.Series([1, 2], name="q").to_frame()
    script = os.path.join(ctx.scratch, "script.py")
    open(script, "w").write("run\n")
    note = os.path.join(ctx.scratch, "note.ipynb")
    open(note, "w").write("{}\n")
    calls = []

    def runner(observatory, scheduler, **kw):
        calls.append(kw)
        scheduler.visits += 3
        keep = kw.get("record_rewards")
        return (observatory, scheduler, obs_array([61000.9, 61001.2])) + ((r1, r2) if keep else ())

    sim_archive.sim_runner = runner
    for keep, rec, lab, tags, scr, nb, meta in itertools.product((False, True), (None, False, True), (None, "l"), ([], ["a", "b"]), (None, script), (None, note), (None, {"telescope": "auxtel"})):
        if not ctx.case("drive", keep, rec, lab, tags, bool(scr), bool(nb), meta):
            continue
        if keep and rec is False:
            # rewards are kept but not recorded: what sim_runner returns then is its affair
            continue
        s = Sched(keep)
        given = None if meta is None else dict(meta)
        kw = dict(sim_start_mjd=61000.9, sim_duration=0.43, verbose=False)
        if rec is not None:
            kw["record_rewards"] = rec
        del calls[:]
        if rec and not keep:
            ctx.raises(ValueError, sim_archive.drive_sim, "obsy", s, lab, list(tags), scr, nb, given, what="rewards that are not kept", **kw)
            ctx.equal(len(calls), 0, "a simulation that cannot keep its rewards was run")
            continue
        ok, out = ctx.must(sim_archive.drive_sim, "obsy", s, lab, list(tags), scr, nb, given, what="drive_sim", **kw)
        if not ok:
            continue
        ctx.equal(len(calls), 1, "the number of simulations run")
        ctx.equal({k: calls[0].get(k) for k in ("sim_start_mjd", "sim_duration", "verbose")}, {k: kw[k] for k in ("sim_start_mjd", "sim_duration", "verbose")}, "the simulation got other arguments")
        ctx.equal(bool(calls[0].get("record_rewards")), keep, "rewards recorded or not")
        ctx.expect(out[0] == "obsy" and out[1] is s, "not the observatory and scheduler given")
        ctx.equal(len(out), 6 if keep else 4, "the number of results")
        rp = out[-1]
        path = Path(rp.ospath)
        ok, y = ctx.must(lambda: yaml.safe_load((path / "sim_metadata.yaml").read_text()), what="reading the results of drive_sim")
        if ok:
            want = {"observations", "statistics", "scheduler"} | ({"rewards"} if keep else set()) | ({"script"} if scr else set()) | ({"notebook"} if nb else set())
            ctx.equal(sorted(y["files"]), sorted(want), "the files of the simulation")
            ok, p = ctx.must(lambda: pickle.load(lzma.open(path / y["files"]["scheduler"]["name"])), what="reading the scheduler")
            ctx.expect(ok and p.visits == 0 and s.visits == 3, "the scheduler saved is not the one at the start")
            ctx.equal((y.get("label"), y.get("tags") or [], y.get("telescope"), y["simulated_dates"]), (lab, tags, (meta or {}).get("telescope"), {"first": "2025-11-21", "last": "2025-11-21"}), "the metadata of the simulation")
            ctx.outcome(sorted(y["files"]))
        shutil.rmtree(path, ignore_errors=True)

    # the pre-night simulations
    a = almanac_dir(ctx)
    sp, op = os.path.join(ctx.scratch, "sched.p"), os.path.join(ctx.scratch, "obsy.p")
    pickle.dump(Sched(False), open(sp, "wb"))

    prenight.sim_runner = runner
    for i, n, keep, delay, scale, scatter, tags, lab, tel in itertools.product((0, 5), (1, 3), (False, True), (0, 30), (0.0, 0.1), (0.0, 2.0), ([], ["a", "b"]), ("", "my label"), (None, "auxtel")):
        if sum([i != 5, n != 1, keep, delay != 0, bool(scale), bool(scatter), bool(tags), bool(lab), bool(tel)]) > ctx.pick(3, 9):
            continue
        if not ctx.case("prenight", i, n, keep, delay, scale, scatter, tags, lab, tel):
            continue
        pickle.dump(Observatory(), open(op, "wb"))
        res = os.path.join(ctx.scratch, "results")
        shutil.rmtree(res, ignore_errors=True)
        os.makedirs(res)
        day = FIRST + timedelta(days=i)
        args = [sp, op, day.strftime("%Y%m%d"), str(n), "--results", res, "--delay", str(delay), "--anom_overhead_scale", str(scale), "--anom_overhead_scatter", str(scatter), "--label", lab]
        args += ["--keep_rewards"] * keep + (["--telescope", tel] if tel else []) + (["--tags", *tags] if tags else [])
        del calls[:]
        ok, rc = ctx.must(prenight.run_prenight_sim_cli, args, what="run_prenight_sim_cli")
        if not ok:
            continue
        ctx.equal((rc, len(calls)), (0, 1), "one simulation is run")
        c = calls[0]
        start = a["sun_n12_setting"][i] + delay / 1440.0
        ctx.equal([float(c["sim_start_mjd"]), float(c["sim_start_mjd"] + c["sim_duration"])], [start, a["sunrise"][i + n - 1]], "the simulation runs at another time", rtol=0, atol=1e-7)
        ctx.equal(bool(c["record_rewards"]), keep, "rewards recorded or not")
        f = c["anomalous_overhead_func"]
        ctx.expect((f is None) == (scale == 0 and scatter == 0), "scatter of the overheads", got=repr(f))
        if f is not None:
            v = [float(np.asarray(f(obs=observation(100.0, 34.0, 30.0, "array"))).item()) for _ in range(3)]
            ctx.expect(len(set(v)) == 3 and (scale or min(v) >= 0) and max(map(abs, v)) < (100 if scale else 30), "the scatter is not the one asked for", got=v)
        y = yaml.safe_load(Path(res, "sim_metadata.yaml").read_text())
        want = {"observations", "statistics", "scheduler", "observatory"} | ({"rewards"} if keep else set())
        ctx.equal((sorted(y["files"]), y.get("tags") or [], y.get("label") or "", y.get("telescope")), (sorted(want), tags, lab, tel or "simonyi"), "the metadata of the simulation")
        ctx.outcome((i, n, keep))


class Observatory:
    mjd = 0.0


# ---------------------------------------------------------------- snapshots
CONFIG = """
class S:
    nside = {nside}
    def __init__(self):
        self.added = []
        self.name = "{name}"
    def add_observations_array(self, obs):
        self.added.append([float(x) for x in obs["mjd"]])
def get_scheduler():
    return {nside}, S()
if __name__ == "config":
    nside, scheduler = get_scheduler()
"""
CORE = """
from rubin_scheduler.scheduler.schedulers import CoreScheduler
def get_scheduler():
    return {nside}, CoreScheduler([[]], nside={nside})
"""


def snapshot(ctx):
    from git import Repo

    from rubin_scheduler.scheduler.utils import SchemaConverter
    from rubin_sim.sim_archive import make_snapshot as ms

    d = ctx.scratch
    openers = {"": open, ".p": open, ".gz": gzip.open, ".bz2": bz2.open, ".xz": lzma.open}
    for ext, ext2 in itertools.product(openers, repeat=2):
        if ctx.case("save", ext, ext2):
            f = os.path.join(d, "s" + ext + ("" if ext == ext2 else ""))
            s = Sched(True)
            s.visits = 11
            if ctx.must(ms.save_scheduler, s, f, what="save_scheduler")[0]:
                ok, g = ctx.must(lambda: pickle.load(openers[ext](f, "rb")), what="reading the snapshot")
                ctx.expect(ok and (g.visits, g.keep_rewards) == (11, True), "the snapshot differs")
            # another one over it
            if ctx.must(ms.save_scheduler, Sched(), f, what="save_scheduler")[0]:
                ok, g = ctx.must(lambda: pickle.load(openers[ext](f, "rb")), what="reading the snapshot")
                ctx.expect(ok and g.visits == 0, "the snapshot differs")
            ctx.outcome(ext)
    dbs = {}
    for k, m in {"none": None, "empty": "", "three": [61000.9, 61001.0, 61001.2]}.items():
        if isinstance(m, list):
            f = os.path.join(d, f"{k}.db")
            if os.path.exists(f):
                os.remove(f)
            SchemaConverter().obs2opsim(obs_array(m), filename=f)
            dbs[k] = (f, [m])
        else:
            dbs[k] = (m, [])
    # configurations one after another: each is read anew
    f = os.path.join(d, "conf.py")
    for seq in itertools.product([("attr", 16), ("attr", 32), ("core", 8), ("core", 64)], repeat=2):
        for k, (db, added) in dbs.items():
            if not ctx.case("config", seq, k):
                continue
            for i, (kind, nside) in enumerate(seq):
                # the same file edited, or another one
                g = os.path.join(d, f"conf{i if k == 'none' else 0}.py")
                open(g, "w").write((CONFIG if kind == "attr" else CORE).format(nside=nside, name=f"c{i}"))
                ok, r = ctx.must(ms.get_scheduler_from_config, g, what="get_scheduler_from_config")
                if ok:
                    ctx.equal((r[0], r[1].nside), (nside, nside), "the scheduler of another configuration")
                if kind == "attr":
                    ok, s = ctx.must(ms.get_scheduler, config_script=g, visits_db=db, what="get_scheduler")
                    if ok:
                        ctx.equal((s.name, s.nside, s.added), (f"c{i}", nside, added), "the scheduler or its visits")
                        ctx.outcome((s.name, s.nside))
    # branches and tags of a repository
    repo_dir = os.path.join(d, "repo")
    shutil.rmtree(repo_dir, ignore_errors=True)
    repo = Repo.init(repo_dir, initial_branch="main")
    with repo.config_writer() as w:
        w.set_value("user", "name", "n")
        w.set_value("user", "email", "e@x")
    os.makedirs(os.path.join(repo_dir, "sub"))
    shas = {}
    for name, nside in (("first", 4), ("second", 8), ("third", 16)):
        for p, add in (("conf.py", 0), ("sub/conf.py", 1)):
            open(os.path.join(repo_dir, p), "w").write(CONFIG.format(nside=nside * 2**(5 * add), name=name + p))
            repo.index.add([p])
        shas[name] = repo.index.commit(name).hexsha
        if name == "first":
            repo.create_tag("v1")
        if name == "second":
            repo.create_head("side")
    refs = {None: "third", "main": "third", "v1": "first", "side": "second", shas["first"]: "first", shas["second"][:12]: "second"}
    for r1, r2 in itertools.product(refs, repeat=2):
        for p, add in (("conf.py", 0), ("sub/conf.py", 1)):
            if not ctx.case("repo", refs[r1], [r1, r2].index(r1), list(refs).index(r1), list(refs).index(r2), p):
                continue
            for r in (r1, r2):
                nside = {"first": 4, "second": 8, "third": 16}[refs[r]] * 2**(5 * add)
                ok, s = ctx.must(ms.get_scheduler, repo_dir, p, *(() if r is None else (r,)), what="get_scheduler from a repository")
                if ok:
                    ctx.equal((s.name, s.nside), (refs[r] + p, nside), "the scheduler of another reference or file")
                    ctx.outcome((s.name, s.nside))
    if ctx.case("repo without script"):
        ctx.raises(ValueError, ms.get_scheduler, repo_dir, what="a repository without a script")
    # the command line
    for ext, k in itertools.product((".p", ".xz"), dbs):
        if ctx.case("cli", ext, k):
            out = os.path.join(d, "cli" + ext)
            g = os.path.join(d, "conf0.py")
            open(g, "w").write(CORE.format(nside=16))
            ok, _ = ctx.must(ms.make_scheduler_snapshot_cli, ["--scheduler_fname", out, "--script", g], what="make_scheduler_snapshot_cli")
            if ok:
                ok, s = ctx.must(lambda: pickle.load(openers[ext](out, "rb")), what="reading the snapshot")
                ctx.expect(ok and s.nside == 16, "the snapshot is of another configuration")
                ctx.outcome(ext)


UNITS = [
    Unit("nights", nights),
    Unit("hashes", hashes),
    Unit("convert", convert),
    Unit("stats", stats),
    Unit("overhead", overhead),
    Unit("window", window),
    *[Unit(f"directory-{i}", directory, names=[n]) for i, n in enumerate(DAYS)],
    Unit("drive", drive),
    Unit("snapshot", snapshot),
]
