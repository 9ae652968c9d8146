"""A03: searching the archive returns exactly the simulations that match."""
import datetime
import itertools
import json

import pandas as pd
from astropy.time import Time, TimeDelta

from mc import pg
from mc.core import Unit
from mc.props.a01 import STATCOLS

PROPERTY = "A03"
LEVEL = "model_checking"
RULE = (
    "a real PostgreSQL archive holding one simulation for every combination of night window, telescope, tag set and age "
    "(plus tag/comment/file multiplicities), questioned with every combination of nights (all spellings), tags, telescope "
    "and maximum age, each answer compared with the set comprehension; every order of adding and changing simulations "
    "around the day boundary for the daily identifiers; non-trivial = an answer that is neither empty nor everything"
)
ASSUMPTIONS = ["the PostgreSQL session time zone is UTC", "ages are not within a minute of the limit", "no two simulations of a day have the same creation time"]

V = pd.DataFrame({"observationId": [1]})
D = [datetime.date(2026, 2, 27) + datetime.timedelta(days=i) for i in range(5)]  # crosses a month end
WINDOWS = [(0, 0), (0, 1), (1, 2), (0, 3), (2, 2), (None, None), (1, None), (3, 1)]
TELS = ["simonyi", "auxtel"]
TAGSETS = [(), ("prenight",), ("prenight", "ideal", "nominal"), ("nominal", "x y'%")]
AGES = [0.01, 1.5, 3.5]


def spell(d, k):
    return {"date": d, "int": int(d.strftime("%Y%m%d")), "iso": d.isoformat()}[k]


def populate(v, windows, tels, tagsets, ages):
    now = Time.now()
    sims = []
    n = 0
    for w, tel, tags, age in itertools.product(windows, tels, tagsets, ages):
        kw = {}
        if w[0] is not None:
            kw["first_day_obs"] = D[w[0]]
        if w[1] is not None:
            kw["last_day_obs"] = D[w[1]]
        u = v.record_simulation_metadata(V, f"s{n}", telescope=tel, creation_time=now - TimeDelta(age + n * 1e-5, format="jd"), **kw)
        if tags:
            v.tag(u, *tags)
        ncom = n % 3
        for j in range(ncom):
            v.comment(u, f"c{j}")
        for j in range((n // 3) % 3):
            v.register_file(u, f"t{j}", b"x", f"file:///{j}")
        sims.append(dict(u=u, w=w, tel=tel, tags=set(tags), age=age, ncom=ncom, nfile=(n // 3) % 3, label=f"s{n}"))
        n += 1
    return sims


def covers(w, i):
    return w[0] is not None and w[1] is not None and w[0] <= i <= w[1]


def nights(ctx):
    qtags = [(), ("prenight",), ("nominal",), ("prenight", "nominal"), ("nominal", "x y'%"), ("nosuch",), None]
    qages = [1, 2, 10, None]
    windows = WINDOWS if ctx.thorough else WINDOWS
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        sims = populate(v, windows, TELS, TAGSETS, AGES)
        # other kinds of sequences are never answered
        v.record_completed_metadata(V, "done", first_day_obs=D[0], last_day_obs=D[3])
        v.record_visitseq_metadata(V, "plain", first_day_obs=D[0], last_day_obs=D[3])
        byu = {x["u"]: x for x in sims}
        ctx.bounds = {"simulations": len(sims), "nights": len(D)}
        for (i, j), tags, tel, age in itertools.product([(a, b) for a in range(5) for b in range(a, 5)] + [(0, None), (1, None)], qtags, TELS + [None], qages):
            for k in ("date", "int", "iso") if (tags, tel, age) == ((), None, 10) else ("date",):
                if not ctx.case("nights", i, j, tags, tel, age, k):
                    continue
                kw = {}
                if tags is not None:
                    kw["tags"] = tags
                if tel is not None:
                    kw["telescope"] = tel
                if age is not None:
                    kw["max_simulation_age"] = age
                args = [spell(D[i], k)] + ([] if j is None else [spell(D[j], k)])
                ok, r = ctx.must(v.sims_on_nights, *args, what="sims_on_nights", **kw)
                if not ok:
                    continue
                jj = i if j is None else j
                t = set(("prenight", "ideal", "nominal") if tags is None else tags)
                want = sorted(x["label"] for x in sims if covers(x["w"], i) and covers(x["w"], jj) and x["tel"] == (tel or "simonyi") and t <= x["tags"] and x["age"] <= (2 if age is None else age))
                ctx.equal(sorted(r["visitseq_label"]), want, "simulations answered for the nights")
                for row in r.to_dict("records"):
                    x = byu[row["visitseq_uuid"]]
                    ctx.expect(set(row["tags"]) == x["tags"] and len(row["tags"]) == len(x["tags"]) and len(row["comments"]) == x["ncom"] and len(row["files"]) == x["nfile"] and row["telescope"] == x["tel"] and row["visitseq_label"] == x["label"], "record answered", got=row)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(("n", i, j, tags, tel, age))
                ctx.outcome(want, trivial=not want)
        pg.close(v)


def stats(ctx):
    """sims_on_night_with_stats: each simulation with its own statistics of that night."""
    qtags = [(), ("prenight",), ("prenight", "nominal"), None]
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        sims = populate(v, [(0, 0), (0, 1), (1, 3)], TELS, TAGSETS[:3], AGES)
        pats = [[], [(0, "alt")], [(0, "alt"), (0, "az")], [(0, "alt"), (1, "alt")], [(1, "az"), (2, "az")]]
        for n, x in enumerate(sims):
            x["stats"] = {}
            rows = []
            for d, name in pats[n % 5]:
                vals = {c: n + k + d / 8 for k, c in enumerate(STATCOLS)}
                vals["count"] = n
                rows.append(dict(day_obs=D[d], value_name=name, accumulated=False, **vals))
                x["stats"].setdefault(d, {})[name] = dict(vals, accumulated=False)
            if rows:
                v.insert_nightly_stats(x["u"], pd.DataFrame(rows))
        byu = {x["u"]: x for x in sims}
        ctx.bounds = {"simulations": len(sims), "statistics patterns": len(pats)}
        for i, tags, tel, age in itertools.product(range(4), qtags, TELS + [None], (1, 2, 10, None)):
            for k in ("date", "int", "iso"):
                if not ctx.case("stats", i, tags, tel, age, k):
                    continue
                kw = {}
                if tags is not None:
                    kw["tags"] = tags
                if tel is not None:
                    kw["telescope"] = tel
                if age is not None:
                    kw["max_simulation_age"] = age
                ok, r = ctx.must(v.sims_on_night_with_stats, spell(D[i], k), what="sims_on_night_with_stats", **kw)
                if not ok:
                    continue
                t = set(("prenight", "ideal", "nominal") if tags is None else tags)
                want = {x["label"]: x["stats"].get(i) for x in sims if covers(x["w"], i) and x["tel"] == (tel or "simonyi") and t <= x["tags"] and x["age"] <= (2 if age is None else age)}
                ctx.equal(sorted(r["visitseq_label"]), sorted(want), "simulations answered for the night")
                got = {a: (b if isinstance(b, dict) else None) for a, b in zip(r["visitseq_label"], r["stats"])}
                ctx.equal(got, want, "statistics answered with each simulation")
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state(("s", i, tags, tel, age))
                ctx.outcome([sorted(want), k], trivial=not want)
        pg.close(v)


def now_default(ctx):
    """Without a night, the current day_obs (UTC-12h) is used."""
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        for off in (-1, 0, 1):
            for attempt in range(3):
                today = (datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(hours=12)).date()
                s.reset()
                d = today + datetime.timedelta(days=off)
                u = v.record_simulation_metadata(V, "s", first_day_obs=d, last_day_obs=d)
                v.tag(u, "prenight", "ideal", "nominal")
                a, b = len(v.sims_on_nights()), len(v.sims_on_night_with_stats())
                if today == (datetime.datetime.now(datetime.timezone.utc) - datetime.timedelta(hours=12)).date():
                    break
            ctx.case("now", off)
            ctx.equal([a, b], [1, 1] if off == 0 else [0, 0], "simulations for the current night")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("now", off))
            ctx.outcome([off, a, b])
        pg.close(v)


TIMES = ["2026-02-28T11:59:59", "2026-02-28T12:00:00", "2026-03-01T00:00:00", "2026-03-01T11:59:59.5", "2026-03-01T12:00:01", "2026-03-01T13:00:00"]


def daily(ctx):
    """(day, daily id) names one simulation, by order of creation time in the day."""
    L = ctx.pick(3, 4)
    ctx.bounds = {"creation times": len(TIMES), "length": L}
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        for n in range(0, L + 1):
            for seq in itertools.permutations(range(len(TIMES)), n):
                if not ctx.case("daily", seq):
                    continue
                s.reset()
                recs = []
                for k in seq:
                    recs.append((Time(TIMES[k], scale="utc"), v.record_simulation_metadata(V, TIMES[k], creation_time=Time(TIMES[k], scale="utc"), telescope=TELS[k % 2])))
                for j, (_, u) in enumerate(recs[:2]):
                    for t in range(j + 2):
                        v.tag(u, f"t{t}")
                        v.comment(u, f"c{t}")
                v.record_completed_metadata(V, "no", creation_time=Time("2026-03-01T01:00:00", scale="utc"))
                days = {}
                for t, u in sorted(recs, key=lambda r: r[0].mjd):
                    day = (t.to_datetime() - datetime.timedelta(hours=12)).date()
                    days.setdefault(day, []).append(u)
                for day in (datetime.date(2026, 2, 27), datetime.date(2026, 2, 28), datetime.date(2026, 3, 1), datetime.date(2026, 3, 2)):
                    us = days.get(day, [])
                    for k, sp in zip(range(0, len(us) + 2), itertools.cycle(("date", "int", "iso"))):
                        idk = k if k % 2 else str(k)
                        if 1 <= k <= len(us):
                            ok, u = ctx.must(v.get_sim_uuid, spell(day, sp), idk, what="get_sim_uuid")
                            if ok:
                                ctx.expect(u == us[k - 1], "simulation named by day and daily id", day=day.isoformat(), id=k)
                        else:
                            ctx.raises(ValueError, v.get_sim_uuid, spell(day, sp), idk, what="a daily id that does not exist")
                    for k, u in enumerate(us, 1):
                        ok, row = ctx.must(v.get_visitseq_metadata, u, "simulations_extra", what="simulations_extra")
                        if ok:
                            ctx.equal([row["sim_creation_day_obs"].isoformat(), int(row["daily_id"])], [day.isoformat(), k], "day and daily id answered")
                ctx.transitions += n + 1
                ctx.traces += 1
                ctx.state(("d", tuple(sorted(seq)), seq))
                ctx.outcome([sorted((d.isoformat(), len(x)) for d, x in days.items())])
        pg.close(v)


UNITS = [Unit("nights", nights), Unit("stats", stats), Unit("now", now_default), Unit("daily", daily)]
