"""A04: the prenight index and the selection of the latest simulation."""
import datetime
import itertools
import json
import os
import sqlite3
import uuid as uuidlib

import numpy as np
import pandas as pd
from astropy.time import Time, TimeDelta
from lsst.resources import ResourcePath

from mc import pg
from mc.core import Unit
from mc.props.a01 import STATCOLS
from mc.props.a02 import make_cli
from rubin_sim import maf
from rubin_sim.sim_archive import future_vsarch as fv
from rubin_sim.sim_archive import prenightindex as pi
from rubin_sim.sim_archive import sim_archive as sa

PROPERTY = "A04"
LEVEL = "model_checking"
RULE = (
    "a real PostgreSQL archive holding every combination of night window, telescope, tags and age; the index of every "
    "night and telescope from the database and from the JSON written by the command line, every look-up by UUID and by "
    "(day, daily id) with every spelling of the night, the latest simulation for every range of nights, tags, telescope "
    "and age, and the visits fetched for every range of nights from both file formats; all compared with set "
    "comprehensions; non-trivial = an answer that is not empty"
)
ASSUMPTIONS = [
    "the PostgreSQL session time zone is UTC",
    "labels, tags and other text in the index do not look like numbers",
    "ages are not between the limit and one day more (the code counts whole days)",
    "no two candidate simulations have creation times within a second",
]

D = [datetime.date(2026, 2, 27) + datetime.timedelta(days=i) for i in range(4)]
WINDOWS = [(0, 0), (0, 1), (1, 2), (0, 3), (3, 3)]
TELS = ["simonyi", "auxtel"]
TAGSETS = [("prenight", "ideal", "nominal"), ("prenight",), ("ideal", "nominal"), ("prenight", "nominal", "extra one")]
AGES = [3.4, 0.3, 1.4]
V = pd.DataFrame({"observationId": [1]})


def spell(d, k):
    return {"date": d, "int": int(d.strftime("%Y%m%d")), "iso": d.isoformat(), "digits": d.strftime("%Y%m%d")}[k]


def covers(w, i):
    return w[0] <= i <= w[1]


class Archive:
    def __init__(self, ctx, s, with_urls=True):
        self.v = v = s.handle()
        v.create_schema_in_database()
        self.cli = make_cli(s)
        dsn = s.db.psycopg2_dsn()
        os.environ["VSARCHIVE_PGPORT"] = str(dsn["port"])
        self.db = dict(schema="test", host=dsn["host"], user=dsn["user"], database=dsn["database"])
        self.dest = os.path.join(ctx.scratch, "idx") + "/"
        self.bucket = dict(host="/nonexistent", prenight_index_path=self.dest)
        now = Time.now()
        self.sims = []
        parent = None
        for n, (age, w, tel, tags) in enumerate(itertools.product(AGES, WINDOWS, TELS, TAGSETS)):
            ct = now - TimeDelta(age - ((n * 7) % 41) * 1e-4, format="jd")
            kw = {}
            if n % 3:
                kw["url"] = f"file:///v/{n}.h5"
            if n % 4 == 1:
                kw["conda_env_sha256"] = bytes([0xA0 + n % 16, n % 256]) * 16
            if n % 5 == 2 and parent is not None:
                kw["parent_visitseq_uuid"] = parent
                kw["parent_last_day_obs"] = D[0]
            u = v.record_simulation_metadata(V, f"sim {n}", telescope=tel, creation_time=ct, first_day_obs=D[w[0]], last_day_obs=D[w[1]], sim_runner_kwargs={"k": n}, **kw)
            v.tag(u, *tags)
            com = {f"c{n}", "it's % \u00e9"} if n % 2 else set()
            for c in sorted(com):
                v.comment(u, c)
            files = {"opsim": f"file:///o/{n}.db"} if n % 2 == 0 else {}
            for t, url in files.items():
                v.register_file(u, t, b"x" * 32, url)
            st = {}
            for d in range(4):
                if covers(w, d) and n % 3 != 2:
                    st[d] = {"alt": {c: n + 0.5 * k + d for k, c in enumerate(STATCOLS)}}
                    st[d]["alt"].update(count=n + d, accumulated=False)
            if st:
                v.insert_nightly_stats(u, pd.DataFrame([dict(day_obs=D[d], value_name="alt", **x["alt"]) for d, x in st.items()]))
            self.sims.append(dict(u=u, n=n, age=age, w=w, tel=tel, tags=set(tags), com=com, files=files, stats=st, url=kw.get("url"), parent=kw.get("parent_visitseq_uuid"), conda=kw.get("conda_env_sha256"), ct=ct, label=f"sim {n}"))
            parent = u
        # daily ids, from the model
        days = {}
        for x in sorted(self.sims, key=lambda x: x["ct"].mjd):
            day = (x["ct"].utc.to_datetime() - datetime.timedelta(hours=12)).date()
            days[day] = days.get(day, 0) + 1
            x["day"], x["daily"] = day, days[day]
        self.byu = {str(x["u"]): x for x in self.sims}

    def write_indexes(self, nights=range(4)):
        for d, tel in itertools.product(nights, TELS):
            self.cli("make-prenight-index", D[d].isoformat(), tel, "--destination", self.dest)

    def on(self, d, tel):
        return [x for x in self.sims if covers(x["w"], d) and x["tel"] == tel and "prenight" in x["tags"]]


def iso(x):
    return None if x is None or (isinstance(x, float) and np.isnan(x)) else (x.isoformat() if hasattr(x, "isoformat") else str(x))


def cmp_row(ctx, row, x, d, source):
    files = row["files"] if isinstance(row["files"], dict) else {}
    got = [
        row["visitseq_label"],
        row["telescope"],
        sorted(row["tags"]),
        sorted(json.dumps(c) if not isinstance(c, str) else c for c in ([] if row["comments"] is None else row["comments"])).__len__(),
        files,
        int(row["daily_id"]),
        iso(row["sim_creation_day_obs"])[:10],
        iso(row["first_day_obs"])[:10],
        iso(row["last_day_obs"])[:10],
        None if pd.isna(row["visitseq_url"]) else row["visitseq_url"],
        None if pd.isna(row["parent_visitseq_uuid"]) else str(row["parent_visitseq_uuid"]),
        None if row["conda_env_sha256"] is None or (isinstance(row["conda_env_sha256"], float)) else (row["conda_env_sha256"] if isinstance(row["conda_env_sha256"], str) else bytes(row["conda_env_sha256"]).hex()),
        row["sim_runner_kwargs"],
    ]
    want = [x["label"], x["tel"], sorted(x["tags"]), len(x["com"]), x["files"], x["daily"], x["day"].isoformat(), D[x["w"][0]].isoformat(), D[x["w"][1]].isoformat(), x["url"], None if x["parent"] is None else str(x["parent"]), None if x["conda"] is None else x["conda"].hex(), {"k": x["n"]}]
    ctx.equal(got, want, f"entry in the index ({source})")
    dt = abs((pd.Timestamp(row["creation_time"]) - pd.Timestamp(x["ct"].utc.to_datetime(), tz="UTC")).total_seconds())
    ctx.expect(dt < 0.002, "creation time in the index", off=dt)
    if source == "bucket":
        st = row["stats"]
        ctx.equal(st if isinstance(st, dict) else None, x["stats"].get(d), "statistics in the index")


def index(ctx):
    with pg.server(ctx) as s:
        a = Archive(ctx, s)
        a.write_indexes()
        ctx.bounds = {"simulations": len(a.sims), "nights": len(D)}
        for d, tel, k, src in itertools.product(range(4), TELS, ("date", "int", "iso"), ("database", "bucket", "either-db", "either-bucket")):
            if not ctx.case("index", d, tel, k, src):
                continue
            day = spell(D[d], k)
            if src == "database":
                ok, r = ctx.must(pi.get_prenight_index_from_database, day, tel, **a.db)
            elif src == "bucket":
                ok, r = ctx.must(pi.get_prenight_index_from_bucket, day, tel, a.dest)
            elif src == "either-db":
                ok, r = ctx.must(pi.get_prenight_index, day, tel, **a.db)
            else:
                ok, r = ctx.must(pi.get_prenight_index, day, tel, **a.bucket)
            if not ok:
                continue
            want = a.on(d, tel)
            ctx.equal(sorted(map(str, r.index)), sorted(str(x["u"]) for x in want), "simulations in the index of the night")
            ctx.equal(r.index.name, "visitseq_uuid", "name of the index")
            for u, row in r.iterrows():
                x = a.byu.get(str(u))
                if x is not None:
                    cmp_row(ctx, row, x, d, "bucket" if "bucket" in src else "database")
            if "bucket" in src:
                ok, q = ctx.must(fv._get_prenight_index, day, tel, a.dest)
                if ok:
                    ctx.equal(sorted(map(str, q.index)), sorted(str(x["u"]) for x in want), "index read without rubin_sim's database code")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("index", d, tel, src))
            ctx.outcome([d, tel, k, src, len(want)], trivial=not want)
        # a night without an index file
        ctx.case("index", "none")
        r = pi.get_prenight_index("2031-01-01", "simonyi", **a.bucket)
        ctx.equal(len(r), 0, "a night without simulations")
        # the index of a night is rewritten, not appended to
        x = a.sims[0]
        a.v.untag(x["u"], "prenight")
        a.write_indexes([0])
        ctx.case("index", "rewritten")
        ctx.equal(sorted(map(str, pi.get_prenight_index_from_bucket(D[0], "simonyi", a.dest).index)), sorted(str(y["u"]) for y in a.on(0, "simonyi") if y is not x), "the index written again after a change")
        pg.close(a.v)


def lookup(ctx):
    with pg.server(ctx) as s:
        a = Archive(ctx, s)
        a.write_indexes()
        # one simulation per (window, telescope, prenight or not) in each age is enough
        sel = [x for x in a.sims if x["n"] % ctx.pick(3, 1) == 0]
        ctx.bounds = {"simulations": len(sel)}
        for i, x in enumerate(sel):
            for d, src in itertools.product(range(4), ("db", "bucket")):
                k = ("date", "int", "iso", "digits")[(i + d) % 4]
                kw = dict(a.db if src == "db" else a.bucket)
                there = covers(x["w"], d) and "prenight" in x["tags"]
                if ctx.case("uuid", x["n"], d, k, src):
                    did = x["daily"] if i % 2 else str(x["daily"])
                    ok, r = ctx.call(pi.get_sim_uuid, x["day"], did, spell(D[d], k), **kw)
                    if there:
                        ctx.expect(ok and r == x["u"], "UUID of a simulation by day and daily id", got=r, want=x["u"])
                    else:
                        ctx.expect(not ok and isinstance(r, ValueError), "a simulation that is not in that night's index", got=r)
                    ctx.outcome([x["n"], d, src, there])
                if ctx.case("metadata", x["n"], d, k, src):
                    ok, r = ctx.call(pi.get_sim_metadata, x["u"] if i % 2 else str(x["u"]), spell(D[d], k), **kw)
                    if there:
                        if ctx.expect(ok, "metadata of a simulation", got=r):
                            ctx.equal(str(r["visitseq_uuid"]), str(x["u"]), "UUID in the metadata")
                            cmp_row(ctx, r, x, d, src if src == "bucket" else "database")
                    else:
                        ctx.expect(not ok and isinstance(r, ValueError), "metadata of a simulation that is not in that night's index", got=r)
                    ctx.outcome([x["n"], d, src, there])
                ctx.transitions += 2
                ctx.traces += 2
                ctx.state(("lookup", x["n"], d, src))
            if ctx.case("direct", x["n"]):
                ctx.equal(pi.get_sim_uuid(x["day"], x["daily"], vsmd=a.v), x["u"], "UUID straight from the database")
                ctx.equal(pi.get_sim_metadata(x["u"], vsmd=a.v)["visitseq_label"], x["label"], "metadata straight from the database")
        for bad in ((a.sims[0]["day"], 9999), (datetime.date(2020, 1, 1), 1)):
            for kw in (a.db, a.bucket):
                ctx.case("nosuch", bad)
                ctx.raises(ValueError, pi.get_sim_uuid, bad[0], bad[1], D[0], what="looking up a simulation that does not exist", **kw)
                ctx.raises(ValueError, pi.get_sim_metadata, uuidlib.UUID(int=5), D[0], what="metadata of a simulation that does not exist", **kw)
        pg.close(a.v)


def select(ctx):
    """select_latest_prenight_sim over every short table in every order."""
    now = pd.Timestamp.now(tz="UTC")
    alpha = [(t, age) for t in (("ideal", "nominal"), ("nominal",), ("ideal", "nominal", "x"), ()) for age in (0.2, 0.7, 1.5, 3.6)]
    N = ctx.pick(3, 4)
    ctx.bounds = {"rows": alpha, "max_rows": N}
    for fn in (pi.select_latest_prenight_sim, fv._select_latest_prenight_sim):
        for n in range(1, N + 1):
            for rows in itertools.permutations(range(len(alpha)), n):
                if n == 4 and rows[0] > rows[1]:
                    continue
                df = pd.DataFrame({"tags": [list(alpha[i][0]) for i in rows], "creation_time": [now - pd.Timedelta(days=alpha[i][1] + 1e-3 * i) for i in rows], "visitseq_url": [f"u{i}" for i in rows], "label": list(rows)}, index=pd.Index([str(i) for i in rows], name="visitseq_uuid"))
                before = df.copy(deep=True)
                for tags, age in (((), 1), (("nominal",), 1), (("ideal", "nominal"), 5)) + (((("x",), 2), (None, None)) if n < 3 else ()):
                    if not ctx.case("select", fn.__module__[-10:], rows, tags, age):
                        continue
                    kw = {} if tags is None else dict(tags=tags, max_simulation_age=age)
                    ok, r = ctx.must(fn, df, what="selecting", **kw)
                    if not ok:
                        continue
                    t, g = (("ideal", "nominal"), 2) if tags is None else (tags, age)
                    c = [i for i in rows if set(t) <= set(alpha[i][0]) and int(alpha[i][1]) <= g]
                    best = min(c, key=lambda i: alpha[i][1] + 1e-3 * i) if c else None
                    ctx.equal(None if r is None else int(r["label"]), best, "latest simulation with the tags", rows=[alpha[i] for i in rows])
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state(("sel", rows, tags, age))
                    ctx.outcome([rows, best], trivial=best is None)
                ctx.expect(df.equals(before), "the table given was changed")


def latest(ctx):
    with pg.server(ctx) as s:
        a = Archive(ctx, s)
        a.write_indexes()
        pairs = [(i, j) for i in range(4) for j in range(i, 4)] + [(0, None), (2, None)]
        for (i, j), tags, tel, age, src in itertools.product(pairs, ((), ("nominal",), ("ideal", "nominal"), ("extra one",), ("nosuch",), None), TELS, (1, 2, 10, None), ("db", "bucket", "future")):
            if src == "db" and (age == 10 or tags == ("nosuch",)):
                continue
            if not ctx.case("latest", i, j, tags, tel, age, src):
                continue
            kw = {"telescope": tel}
            if tags is not None:
                kw["tags"] = tags
            if age is not None:
                kw["max_simulation_age"] = age
            args = [D[i].isoformat()] + ([] if j is None else [D[j].isoformat()])
            if src == "future":
                ok, r = ctx.must(fv._find_latest_prenight_sim_for_nights, *args, get_prenight_index_kwargs={"prenight_index_path": a.dest}, what="finding the latest simulation", **kw)
                r = r if ok and r else None
            else:
                ok, r = ctx.call(sa.find_latest_prenight_sim_for_nights, *args, get_prenight_index_kwargs=dict(a.db if src == "db" else a.bucket), **kw)
                if not ok:
                    if not isinstance(r, sa.NoMatchingSimulationsFoundError):
                        ctx.fail(f"finding the latest simulation raised {type(r).__name__}", error=str(r)[:300])
                        continue
                    r = None
            jj = i if j is None else j
            t = set(("ideal", "nominal") if tags is None else tags)
            c = [x for x in a.on(i, tel) if covers(x["w"], jj) and t <= x["tags"] and int(x["age"]) <= (2 if age is None else age)]
            best = max(c, key=lambda x: x["ct"].mjd) if c else None
            ctx.equal(None if r is None else r["visitseq_label"], None if best is None else best["label"], "latest simulation covering the nights")
            if r is not None and best is not None:
                ctx.equal(None if pd.isna(r["visitseq_url"]) else r["visitseq_url"], best["url"], "its visits URL")
                ctx.equal(r["files"] if isinstance(r["files"], dict) else {}, best["files"], "its files")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("latest", i, j, tags, tel, age))
            ctx.outcome([best and best["label"], src], trivial=best is None)
        pg.close(a.v)


# ---- visits
MJD0 = int(Time(D[0].isoformat()).mjd)
TIMES = [MJD0 + 0.5, MJD0 + 0.99, MJD0 + 1.4999, MJD0 + 1.5, MJD0 + 2.3, MJD0 + 3.0, MJD0 + 3.51]


def night_of(mjd):
    return D[0] + datetime.timedelta(days=int(np.floor(mjd - 0.5)) - MJD0)


def write_visits(root, sel):
    df = pd.DataFrame({"observationId": [10 + i for i in sel], "observationStartMJD": [TIMES[i] for i in sel], "fieldRA": [1.5 * i for i in sel], "note": [f"n{i}" for i in sel]})
    h5, db = os.path.join(root, "v.h5"), os.path.join(root, "o.db")
    for f in (h5, db):
        if os.path.exists(f):
            os.unlink(f)
    df.to_hdf(h5, key="observations")
    with sqlite3.connect(db) as c:
        df.to_sql("observations", c, index=False)
    c.close()
    return df, h5, db


class Double(maf.BaseStacker):
    cols_added = ["ra2"]

    def __init__(self):
        self.cols_req = ["fieldRA"]
        self.units = [""]
        self.cols_added_dtypes = [float]

    def _run(self, sim_data, cols_present=False):
        sim_data["ra2"] = sim_data["fieldRA"] * 2
        return sim_data


def fetch(ctx, fn_name, n):
    """Visits of exactly the requested nights, from either file format, and the
    arguments of the caller are left alone."""
    fn = sa.fetch_sim_for_nights if fn_name == "sa" else fv._fetch_sim_for_nights
    root = os.path.join(ctx.scratch, f"f{fn_name}{n}")
    os.makedirs(root)
    stk = {
        "none": lambda: (dict(), None),
        "list": lambda: (dict(stackers=[Double()]), None),
        "tuple": lambda: (dict(stackers=(Double(),)), None),
        "iso": lambda: (dict(stackers=[Double(), maf.DayObsISOStacker()]), None),
        "kwargs": lambda: (dict(get_sim_data_kwargs={"stackers": [Double()]}), None),
        "sql": lambda: (dict(get_sim_data_kwargs={"sqlconstraint": "observationId > 11"}), 11),
    }
    for sel in itertools.permutations(range(len(TIMES)), n) if n < 3 else itertools.combinations(range(len(TIMES)), n):
        df, h5, db = write_visits(root, sel)
        for (i, j), src, kind in itertools.product([(0, 0), (0, 1), (1, 2), (2, None), (0, 3)] if n < 3 else [(0, 1), (1, 1), (1, 3)], ("h5", "db", "rp"), stk):
            if kind == "sql" and src == "h5":
                continue
            if not ctx.case("fetch", fn_name, sel, i, j, src, kind):
                continue
            kw, cut = stk[kind]()
            kept = {k: (list(v) if isinstance(v, (list, tuple)) else dict(v)) for k, v in kw.items()}
            inner = list(kw["get_sim_data_kwargs"]["stackers"]) if kind == "kwargs" else None
            which = {"h5": h5, "db": db, "rp": ResourcePath(db)}[src]
            args = [D[i].isoformat(), None if j is None else D[j].isoformat()]
            if cut is not None and not (df.observationId > cut).any():
                continue
            ok, r = ctx.must(fn, *args, which_sim=which, what="fetching visits", **kw)
            if not ok:
                continue
            lo, hi = D[i], D[i if j is None else j]
            want = [(int(o), float(m), float(ra), nt) for o, m, ra, nt in zip(df.observationId, df.observationStartMJD, df.fieldRA, df.note) if lo <= night_of(m) <= hi and (cut is None or o > cut)]
            got = [(int(o), float(m), float(ra), nt) for o, m, ra, nt in zip(r["observationId"], r["observationStartMJD"], r["fieldRA"], r["note"])]
            ctx.equal(got, want, "visits of the requested nights")
            ctx.equal("day_obs_iso8601" in r.columns, kind == "iso", "the day_obs column is returned only if asked for")
            if kind in ("list", "tuple", "iso", "kwargs") and not (kind == "kwargs" and "ra2" not in r.columns and src == "h5"):
                ctx.equal([float(x) for x in r["ra2"]], [2 * w[2] for w in want], "stacker column")
            if kind == "iso":
                ctx.equal(list(r["day_obs_iso8601"]), [night_of(w[1]).isoformat() for w in want], "night of each visit")
            now = {k: (list(v) if isinstance(v, (list, tuple)) else dict(v)) for k, v in kw.items()}
            ctx.expect(now.keys() == kept.keys() and all((now[k] == kept[k]) if isinstance(now[k], dict) else ([id(q) for q in now[k]] == [id(q) for q in kept[k]]) for k in now), "the caller's arguments were changed", before=kept, after=now)
            if inner is not None:
                ctx.expect(len(kw["get_sim_data_kwargs"]["stackers"]) == len(inner), "the caller's list of stackers was changed")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("fetch", sel, i, j, src, kind))
            ctx.outcome([sel, i, j, len(want)], trivial=not want)


def fetch_latest(ctx):
    """Which simulation the visits come from, and the statistics of a night."""
    root = os.path.join(ctx.scratch, "fl")
    os.makedirs(root)
    dest = os.path.join(root, "idx") + "/"
    now = Time.now()
    with pg.server(ctx) as s:
        cli = make_cli(s)
        dsn = s.db.psycopg2_dsn()
        os.environ["VSARCHIVE_PGPORT"] = str(dsn["port"])
        db = dict(schema="test", host=dsn["host"], user=dsn["user"], database=dsn["database"])
        v = s.handle()
        v.create_schema_in_database()
        dirs = []
        for k, sel in enumerate([(0, 1, 2), (1, 3), (2, 3, 4, 5), (0, 4)]):
            d = os.path.join(root, f"s{k}")
            os.makedirs(d)
            dirs.append((sel,) + write_visits(d, sel))
        kinds = ["url", "opsim", "both", "neither"]
        for k1, k2, newer, stats in itertools.product(kinds, kinds, (0, 1), (False, True)):
            if not ctx.case("fetch_latest", k1, k2, newer, stats):
                continue
            s.reset()
            sims = []
            for q, kd in enumerate((k1, k2)):
                sel, df, h5, odb = dirs[2 * q]
                sel2, df2, _, odb2 = dirs[2 * q + 1]
                kw = {"url": "file://" + h5} if kd in ("url", "both") else {}
                u = v.record_simulation_metadata(V, f"s{q}", first_day_obs=D[0], last_day_obs=D[2], creation_time=now - TimeDelta(0.2 if q == newer else 0.6, format="jd"), **kw)
                v.tag(u, "prenight", "ideal", "nominal")
                if kd in ("opsim", "both"):
                    v.register_file(u, "opsim", b"x" * 32, "file://" + odb2)
                if stats:
                    v.insert_nightly_stats(u, pd.DataFrame([dict(day_obs=D[0], value_name="alt", accumulated=False, **{**{c: 1.0 + q for c in STATCOLS}, "count": 40 + q})]))
                sims.append((kd, df if kd in ("url", "both") else df2))
            for tel in TELS:
                cli("make-prenight-index", D[0].isoformat(), tel, "--destination", dest)
                cli("make-prenight-index", D[1].isoformat(), tel, "--destination", dest)
            kd, df = sims[newer]
            for i, j in ((0, 0), (1, 1), (0, 1)):
                for fn, w in ((sa.fetch_sim_for_nights, {"get_prenight_index_kwargs": dict(host="/nonexistent", prenight_index_path=dest)}), (sa.fetch_sim_for_nights, {"get_prenight_index_kwargs": dict(db)}), (fv._fetch_sim_for_nights, {"get_prenight_index_kwargs": {"prenight_index_path": dest}})):
                    ok, r = ctx.call(fn, D[i].isoformat(), D[j].isoformat(), which_sim=w)
                    if kd == "neither":
                        ctx.expect(not ok, "a simulation without visits", got=r)
                        continue
                    if not ctx.expect(ok, "fetching visits of the latest simulation", got=repr(r)[:300]):
                        continue
                    want = [int(o) for o, m in zip(df.observationId, df.observationStartMJD) if D[i] <= night_of(m) <= D[j]]
                    ctx.equal([int(o) for o in r["observationId"]], want, "visits of the latest simulation")
            # statistics of the night
            for kw in (dict(db), dict(host="/nonexistent", prenight_index_path=dest)):
                for day in (D[0].isoformat(), int(D[0].strftime("%Y%m%d"))):
                    n_vis = sum(night_of(m) == D[0] for m in df.observationStartMJD)
                    if not stats and (kd in ("opsim", "neither") or n_vis == 0):
                        continue
                    ok, r = ctx.must(sa.fetch_sim_stats_for_night, day, what="statistics of the night", **kw)
                    if not ok:
                        continue
                    ctx.equal(r.get("nominal_visits"), 40 + newer if stats else n_vis, "number of visits on the night")
                    if stats:
                        ctx.equal(r["alt"]["median"], 1.0 + newer, "statistics recorded for the night")
                    else:
                        vals = [x for x, m in zip(df.fieldRA, df.observationStartMJD) if night_of(m) == D[0]]
                        ctx.equal([r["fieldRA"]["count"], r["fieldRA"]["mean"], r["fieldRA"]["min"], r["fieldRA"]["max"]], [len(vals), np.mean(vals), min(vals), max(vals)], "statistics computed from the visits")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("fl", k1, k2, newer, stats))
            ctx.outcome([k1, k2, newer, stats])
        pg.close(v)


UNITS = [
    Unit("index", index),
    Unit("lookup", lookup),
    Unit("latest", latest),
    Unit("fetch_latest", fetch_latest),
    Unit("select", select),
]
UNITS += [Unit(f"fetch_{f}_{n}", fetch, fn_name=f, n=n) for f in ("sa", "fv") for n in (1, 2)]
UNITS += [Unit(f"fetch_{f}_{n}", fetch, fn_name=f, n=n, tiers=("thorough",)) for f in ("sa", "fv") for n in (3, 4)]
