"""A01: the visit sequence metadata database is a faithful record of every history."""
import collections
import copy
import datetime
import hashlib
import itertools
import json
import uuid as uuidlib
import warnings

import numpy as np
import pandas as pd
from astropy.time import Time
from lsst.resources import ResourcePath

from mc import pg
from mc.core import Unit
from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

PROPERTY = "A01"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over histories of public metadata operations on a real PostgreSQL server in lock step with a "
    "dictionary model; every transition is compared row by row through an independent connection and every new state "
    "through all queries of the public API; every SQL statement and commit of each operation failing; the command line "
    "compared with the same model; non-trivial = every transition"
)
ASSUMPTIONS = ["the PostgreSQL session time zone is UTC", "the server implements transactions correctly", "tagging or commenting on a UUID that is not in the archive is not decided"]

V = {
    "v0": pd.DataFrame({"observationId": [1, 2], "fieldRA": [0.5, 1.5]}),
    "v1": pd.DataFrame({"observationId": [1, 2], "fieldRA": [0.5, 1.25]}),
    "ve": pd.DataFrame({"observationId": np.array([], dtype=int), "fieldRA": np.array([], dtype=float)}),
}
NOBODY = uuidlib.UUID(int=77)
CT = "2026-02-03T11:59:59"
CHILD = {
    "visitseq": [],
    "simulations": ["scheduler_version", "config_url", "conda_env_sha256", "parent_visitseq_uuid", "sim_runner_kwargs", "parent_last_day_obs"],
    "completed": ["query"],
    "mixedvisitseq": ["last_early_day_obs", "first_late_day_obs", "early_parent_uuid", "late_parent_uuid"],
}
BASE = ["visitseq_sha256", "visitseq_label", "visitseq_url", "telescope", "first_day_obs", "last_day_obs", "creation_time"]
ENV = {
    "e0": json.dumps([{"name": "pkgA", "channel": "c", "version": "1", "base_url": "b", "platform": "p", "dist_name": "d", "build_number": 0, "build_string": "s"}, {"name": "pkgB", "channel": "c", "version": "2"}]),
    "e1": json.dumps([{"name": "pkgA", "channel": "c", "version": "9"}]),
}
ENVH = {k: hashlib.sha256(v.encode()).digest() for k, v in ENV.items()}
KW = {
    "none": None,
    "plain": {"a": 1, "b": [1.5, None, "x"], "c": {"d": True}},
    "odd": {"big": "y" * 5000, "obj": {1, 2}, "nan": float("nan"), "inf": [float("inf")], "ok": 0},
    "empty": {},
}


def kw_expect(kw):
    """What must be stored: JSON values as they are, others by repr."""
    if kw is None:
        return None
    out = {}
    for k, v in kw.items():
        try:
            ok = len(json.dumps(v, allow_nan=False)) <= 4096
        except (TypeError, ValueError):
            ok = False
        out[k] = v if ok else ["Not json serializable", repr(v)[:4096]]
    return out


STATCOLS = ["count", "mean", "std", "min", "p05", "q1", "median", "q3", "p95", "max"]


def stat_df(keys):
    rows = []
    for d, name in keys:
        base = float(d.day) + (0.5 if name == "alt" else 0.25)
        rows.append(dict(day_obs=d, value_name=name, accumulated=False, count=3, **{c: base + j for j, c in enumerate(STATCOLS[1:])}))
    return pd.DataFrame(rows)


D1, D2 = datetime.date(2026, 3, 1), datetime.date(2026, 3, 2)
STAT = {"s1": [(D1, "alt")], "s2": [(D1, "alt"), (D2, "alt")], "s3": [(D2, "alt"), (D1, "az")]}
RECS = {
    "min": {},
    "full": dict(telescope="auxtel", url="file:///u", first_day_obs=20260301, last_day_obs="2026-03-05", creation_time=Time(CT, scale="utc")),
    "tai": dict(telescope="simonyi", first_day_obs=datetime.date(2026, 2, 28), last_day_obs=Time("2026-03-02T11:00:00"), creation_time=Time("2026-02-03T12:00:37", scale="tai")),
}
REC_EXPECT = {
    "min": dict(telescope="simonyi", visitseq_url=None, first_day_obs=None, last_day_obs=None, creation_time=None),
    "full": dict(telescope="auxtel", visitseq_url="file:///u", first_day_obs="2026-03-01", last_day_obs="2026-03-05", creation_time="2026-02-03T11:59:59"),
    "tai": dict(telescope="simonyi", visitseq_url=None, first_day_obs="2026-02-28", last_day_obs="2026-03-01", creation_time="2026-02-03T12:00:00"),
}


class Model:
    def __init__(self):
        self.seqs = []
        self.envs = set()

    def copy(self):
        return copy.deepcopy(self)


def do(v, uu, op):
    """Apply an operation to the real archive. uu: uuids by creation order."""
    k = op[0]

    def u(i):
        return uu[i] if i < len(uu) else NOBODY

    if k == "rec":
        _, table, var, extra, visits = op
        kw = dict(RECS[var])
        df, label = V[visits], f"label {table} {var}"
        if table == "visitseq":
            r = v.record_visitseq_metadata(df, label, **kw)
        elif table == "simulations":
            if extra != "min":
                kw.update(scheduler_version="sv", config_url="cu", conda_env_sha256=ENVH["e0"], sim_runner_kwargs=KW[extra], parent_visitseq_uuid=u(0), parent_last_day_obs={"plain": 20260102, "odd": "2026-01-03", "empty": datetime.date(2026, 1, 4), "none": Time("2026-01-05T20:00:00")}[extra])
            r = v.record_simulation_metadata(df, label, **kw)
        elif table == "completed":
            r = v.record_completed_metadata(df, label, query=None if extra == "min" else "SELECT 'x' %", **kw)
        else:
            r = v.record_mixed_metadata(df, label, 20260110, "2026-01-11", u(0), u(1), **kw)
        uu.append(r)
        return None
    if k == "upd":
        return v.update_visitseq_metadata(u(op[1]), op[2], op[3])
    if k == "url":
        return v.set_visitseq_url(u(op[1]), op[2])
    if k == "tag":
        return v.tag(u(op[1]), *op[2])
    if k == "untag":
        return v.untag(u(op[1]), op[2])
    if k == "com":
        return v.comment(u(op[1]), op[2]) if op[3] is None else v.comment(u(op[1]), op[2], author=op[3])
    if k == "file":
        _, i, ft, sha, loc, update = op
        h = hashlib.sha256(sha.encode()).digest()
        if update:
            return v.register_file(u(i), ft, h, ResourcePath(loc), update=True)
        return v.register_file(u(i), ft, h, loc)
    if k == "stat":
        df = stat_df(STAT[op[2]])
        before = df.copy()
        r = v.insert_nightly_stats(u(op[1]), df)
        if not df.equals(before):
            return "changed the caller's table"
        return r
    if k == "conda":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return v.record_conda_env(ENVH[op[1]], ENV[op[1]])
    raise AssertionError(op)


def model(m, op):
    m = m.copy()
    k = op[0]
    if k == "rec":
        _, table, var, extra, visits = op
        s = dict(table=table, tags=set(), comments=[], files={}, stats={})
        s.update({c: None for c in CHILD[table]})
        s.update(REC_EXPECT[var], visitseq_label=f"label {table} {var}", visitseq_sha256=compute_visits_sha256(V[visits]).hex())
        if table == "simulations" and extra != "min":
            s.update(
                scheduler_version="sv", config_url="cu", conda_env_sha256=ENVH["e0"].hex(), sim_runner_kwargs=kw_expect(KW[extra]),
                parent_visitseq_uuid=0 if m.seqs else "nobody",
                parent_last_day_obs={"plain": "2026-01-02", "odd": "2026-01-03", "empty": "2026-01-04", "none": "2026-01-05"}[extra],
            )
        if table == "completed" and extra != "min":
            s.update(query="SELECT 'x' %")
        if table == "mixedvisitseq":
            s.update(last_early_day_obs="2026-01-10", first_late_day_obs="2026-01-11", early_parent_uuid=0 if m.seqs else "nobody", late_parent_uuid=1 if len(m.seqs) > 1 else "nobody")
        m.seqs.append(s)
        return m, None
    if k == "conda":
        m.envs.add(op[1])
        return m, ENVH[op[1]]
    i = op[1]
    if i >= len(m.seqs):
        return m, ValueError
    s = m.seqs[i]
    if k == "upd":
        if op[2] not in BASE + CHILD[s["table"]]:
            return m, Exception
        s[op[2]] = op[3].hex() if isinstance(op[3], bytes) else op[3]
    elif k == "url":
        s["visitseq_url"] = op[2]
    elif k == "tag":
        s["tags"] |= set(op[2])
    elif k == "untag":
        if op[2] not in s["tags"]:
            return m, ValueError
        s["tags"].discard(op[2])
    elif k == "com":
        s["comments"].append((op[3], op[2]))
    elif k == "file":
        _, i, ft, sha, loc, update = op
        if ft == "visits" or (ft in s["files"] and not update):
            return m, ValueError
        s["files"][ft] = (hashlib.sha256(sha.encode()).hexdigest(), loc)
    elif k == "stat":
        if any(key in s["stats"] for key in STAT[op[2]]):
            return m, Exception
        df = stat_df(STAT[op[2]])
        for r in df.to_dict("records"):
            s["stats"][(r["day_obs"], r["value_name"])] = [r[c] for c in STATCOLS]
    return m, None


def norm(x, idx):
    if isinstance(x, memoryview):
        return bytes(x).hex()
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, uuidlib.UUID):
        return idx.get(x, "nobody" if x == NOBODY else str(x))
    if x is None or x is pd.NaT:
        return None
    if isinstance(x, float) and x != x:
        return None
    if isinstance(x, (pd.Timestamp, datetime.datetime)):
        return x.astimezone(datetime.timezone.utc).replace(tzinfo=None).isoformat()
    if isinstance(x, datetime.date):
        return x.isoformat()
    if isinstance(x, np.generic):
        return x.item()
    return x


def dump(s, uu):
    """All rows, through an independent connection, uuids by creation order."""
    idx = {u: i for i, u in enumerate(uu)}
    out = {}
    for t in CHILD:
        cols = ["visitseq_uuid"] + BASE + CHILD[t]
        out[t] = sorted(([norm(x, idx) for x in r] for r in s.rows(f"SELECT {','.join(cols)} FROM ONLY {t}")), key=repr)
    out["tags"] = sorted([norm(a, idx), b] for a, b in s.rows("SELECT visitseq_uuid, tag FROM tags"))
    out["comments"] = [[norm(a, idx), b, c] for a, b, c in s.rows("SELECT visitseq_uuid, author, comment FROM comments ORDER BY comment_time")]
    out["files"] = sorted([norm(a, idx), b, norm(c, idx), d] for a, b, c, d in s.rows("SELECT visitseq_uuid, file_type, file_sha256, file_url FROM files"))
    out["stats"] = sorted(([norm(r[0], idx), norm(r[1], idx)] + list(r[2:]) for r in s.rows(f"SELECT visitseq_uuid, day_obs, value_name, accumulated, {','.join(STATCOLS)} FROM nightly_stats")), key=repr)
    out["envs"] = sorted([norm(a, idx), json.dumps(b, sort_keys=True)] for a, b in s.rows("SELECT conda_env_hash, conda_env FROM conda_env"))
    return out


def mdump(m, now):
    out = {}
    for t in CHILD:
        out[t] = sorted(
            ([i] + [q[c] if not (c == "creation_time" and q[c] is None) else now for c in BASE + CHILD[t]] for i, q in enumerate(m.seqs) if q["table"] == t),
            key=repr,
        )
    out["tags"] = sorted([i, t] for i, q in enumerate(m.seqs) for t in q["tags"])
    out["comments"] = [[i, a, c] for i, q in enumerate(m.seqs) for a, c in q["comments"]]
    out["files"] = sorted([i, ft, h, u] for i, q in enumerate(m.seqs) for ft, (h, u) in q["files"].items())
    out["stats"] = sorted(([i, d.isoformat(), n, False] + list(r) for i, q in enumerate(m.seqs) for (d, n), r in q["stats"].items()), key=repr)
    out["envs"] = sorted([ENVH[e].hex(), json.dumps(json.loads(ENV[e]), sort_keys=True)] for e in m.envs)
    return out


def hide_now(d, t0):
    """Replace creation times that are 'now' by a marker."""
    d = copy.deepcopy(d)
    for t in CHILD:
        for r in d[t]:
            ct = r[1 + BASE.index("creation_time")]
            if ct is not None and t0 - datetime.timedelta(seconds=2) <= datetime.datetime.fromisoformat(ct) <= datetime.datetime.utcnow() + datetime.timedelta(seconds=2):
                r[1 + BASE.index("creation_time")] = "now"
        d[t].sort(key=repr)
    return d


def by_seq(d):
    d = dict(d)
    d["comments"] = sorted(d["comments"], key=lambda r: r[0])  # stable: keeps time order within a sequence
    return d


def compare_rows(ctx, s, uu, m, t0, what="rows recorded"):
    got = by_seq(hide_now(dump(s, uu), t0))
    want = by_seq(mdump(m, "now"))
    for t in want:
        if got[t] != want[t]:
            ctx.comparisons += 1
            ctx.fail(f"{what}: {t}", got=got[t], want=want[t])
    ctx.comparisons += 1
    return got


def compare_api(ctx, v, uu, m, t0):
    idx = {u: i for i, u in enumerate(uu)}
    for i, q in enumerate(m.seqs):
        u = uu[i]
        for t in CHILD:
            ok, row = ctx.call(v.get_visitseq_metadata, u, t)
            if t not in ("visitseq", q["table"]):
                ctx.expect(not ok, "a sequence was found in the wrong table", table=t, seq=i)
                continue
            if not ok:
                ctx.fail("get_visitseq_metadata raised", error=repr(row)[:300], seq=i, table=t)
                continue
            want = {c: q[c] for c in BASE + (CHILD[t] if t == q["table"] else [])}
            got = {c: norm(row[c], idx) for c in want}
            if want["creation_time"] is None:
                ctx.expect(t0 - datetime.timedelta(seconds=2) <= datetime.datetime.fromisoformat(got["creation_time"]) <= datetime.datetime.utcnow() + datetime.timedelta(seconds=2), "creation time defaults to now", got=got["creation_time"])
                want.pop("creation_time"), got.pop("creation_time")
            ctx.equal(got, want, "metadata answered for a sequence", seq=i, table=t)
        ok, url = ctx.must(v.get_visitseq_url, u, what="get_visitseq_url")
        if ok:
            ctx.equal(url, q["visitseq_url"], "visits URL answered", seq=i)
        for t in ("a", "b", "c'%"):
            ok, r = ctx.must(v.is_tagged, u, t, what="is_tagged")
            if ok:
                ctx.equal(bool(r), t in q["tags"], "is_tagged", seq=i, tag=t)
        ok, c = ctx.must(v.get_comments, u, what="get_comments")
        if ok:
            ctx.equal(sorted(c.columns), ["author", "comment", "comment_time", "visitseq_uuid"], "columns of comments")
            if len(c):
                c = c.sort_values("comment_time")
                ctx.equal([[norm(a, idx), str(b)] for a, b in zip(c.author, c.comment)], [list(x) for x in q["comments"]], "comments answered", seq=i)
                ctx.expect(all(t0 - datetime.timedelta(seconds=2) <= datetime.datetime.fromisoformat(norm(t, idx)) <= datetime.datetime.utcnow() + datetime.timedelta(seconds=2) for t in c.comment_time), "comment times are when the comments were made")
            else:
                ctx.equal(q["comments"], [], "comments answered", seq=i)
        for ft in ("rewards", "obs", "visits"):
            if ft in q["files"]:
                ok, r = ctx.must(lambda: [v.get_file_url(u, ft), v.get_file_sha256(u, ft).hex()], what="get_file_url/sha256")
                if ok:
                    ctx.equal(r, [q["files"][ft][1], q["files"][ft][0]], "registered file answered", seq=i, file_type=ft)
            elif ft == "visits":
                ok, r = ctx.must(v.get_file_url, u, ft, what="get_file_url(visits)")
                if ok:
                    ctx.equal(r, q["visitseq_url"], "visits URL through get_file_url")
            else:
                ctx.raises(ValueError, v.get_file_url, u, ft, what="the URL of a file never registered")
                ctx.raises(ValueError, v.get_file_sha256, u, ft, what="the hash of a file never registered")
        ok, st = ctx.must(v.query_nightly_stats, u, what="query_nightly_stats")
        if ok:
            got = sorted(([norm(r["day_obs"], idx), r["value_name"]] + [float(r[c]) for c in STATCOLS] for r in st.to_dict("records")), key=repr)
            ctx.equal(got, sorted(([d.isoformat(), n] + [float(x) for x in r] for (d, n), r in q["stats"].items()), key=repr), "nightly statistics answered", seq=i)
        if q["table"] == "simulations":
            ok, row = ctx.must(v.get_visitseq_metadata, u, "simulations_extra", what="simulations_extra")
            if ok:
                ctx.equal([sorted(row["tags"]), sorted(row["comments"].values()), row["files"]], [sorted(q["tags"]), sorted(c for _, c in q["comments"]), {ft: x[1] for ft, x in q["files"].items()}], "tags, comments and files aggregated", seq=i)
                want = {c: q[c] for c in BASE + CHILD["simulations"] if c not in ("visitseq_sha256", "creation_time")}
                ctx.equal({c: norm(row[c], idx) for c in want}, want, "simulation answered with its extras", seq=i)
            ok, sw = ctx.must(v.get_software_versions_for_sim, u, what="software versions")
            if ok:
                pk = {p["name"]: p["version"] for e in m.envs if ENVH[e].hex() == q["conda_env_sha256"] for p in json.loads(ENV[e])}
                ctx.equal(dict(zip(sw.index, sw["package_version"])), pk, "software versions answered", seq=i)
                ok, sw = ctx.must(v.get_software_versions_for_sim, u, ["pkgB", "nosuch"], what="software versions of some packages")
                if ok:
                    ctx.equal(dict(zip(sw.index, sw["package_version"])), {k: x for k, x in pk.items() if k == "pkgB"}, "software versions of some packages", seq=i)
    for e in ENV:
        ok, r = ctx.must(v.conda_env_is_saved, ENVH[e], what="conda_env_is_saved")
        if ok:
            ctx.equal(r, e in m.envs, "conda environment saved", env=e)
    ctx.raises(ValueError, v.get_visitseq_url, NOBODY, what="URL of an unknown sequence")
    ctx.raises(ValueError, v.get_visitseq_metadata, NOBODY, "tags", what="metadata from a table that holds none")


def step(ctx, v, uu, m, op):
    ok, got = ctx.call(do, v, uu, op)
    m2, want = model(m, op)
    if isinstance(want, type):
        ctx.expect(not ok and isinstance(got, want), "the operation should have been refused", op=op, got=got)
    elif not ok:
        ctx.fail(f"the operation raised {type(got).__name__}", op=op, error=str(got)[:400])
    else:
        ctx.equal(got, want, "the operation's answer", op=op)
    return m2


PRE = [("rec", "simulations", "full", "plain", "v0"), ("rec", "simulations", "tai", "min", "v1"), ("rec", "completed", "min", "q", "v0")]


def alphabet(which):
    if which == "records":
        ops = [("rec", "visitseq", r, "min", "v0") for r in RECS]
        ops += [("rec", "simulations", "min", e, x) for e, x in (("min", "v0"), ("plain", "v1"), ("odd", "ve"))]
        ops += [("rec", "completed", "full", "q", "v0"), ("rec", "completed", "min", "min", "v1"), ("rec", "mixedvisitseq", "tai", "", "v0")]
        ops += [("upd", 0, "telescope", "auxtel"), ("upd", 1, "first_day_obs", "2026-04-01"), ("upd", 0, "config_url", "other"), ("upd", 1, "query", "q2"), ("upd", 0, "visitseq_sha256", b"\x01\x02"), ("url", 0, "file:///x"), ("url", 1, "s3://b/it's %s")]
        return [], ops
    if which == "tags":
        ops = [("tag", i, t) for i in (0, 1) for t in (("a",), ("a", "b"), ("b", "c'%", "b"))] + [("untag", i, t) for i in (0, 1) for t in ("a", "b")]
        ops += [("com", 0, "one", None), ("com", 0, "two % it's", "me"), ("com", 1, "one", "me"), ("tag", 2, ("a",)), ("tag", 0, ())]
        return PRE, ops
    if which == "files":
        ops = [("file", i, ft, sha, loc, u) for i in (0, 1) for ft, sha, loc in (("rewards", "h1", "file:///r1"), ("rewards", "h2", "file:///r2"), ("obs", "h1", "file:///r1")) for u in (False, True)]
        ops += [("file", 0, "visits", "h", "file:///v", False), ("file", 0, "visits", "h", "file:///v", True), ("url", 0, "file:///v2"), ("tag", 0, ("a",)), ("com", 0, "c", None)]
        return PRE, ops
    if which == "stats":
        ops = [("stat", i, k) for i in (0, 1, 2) for k in STAT] + [("conda", e) for e in ENV] + [("upd", 1, "conda_env_sha256", ENVH["e1"]), ("tag", 0, ("a", "b")), ("url", 2, "file:///q")]
        return PRE, ops
    assert which == "all"
    ops = [("rec", "simulations", "full", "empty", "v0"), ("rec", "simulations", "min", "none", "v1"), ("rec", "completed", "min", "q", "v0"), ("rec", "mixedvisitseq", "min", "", "v1")]
    ops += [("upd", 0, "visitseq_label", "new"), ("url", 1, "file:///x"), ("tag", 0, ("a", "b")), ("tag", 1, ("b",)), ("untag", 0, "a"), ("com", 0, "one", "me"), ("file", 0, "rewards", "h", "file:///r", False), ("file", 1, "rewards", "k", "file:///s", True), ("stat", 0, "s2"), ("stat", 1, "s1"), ("conda", "e0")]
    return [], ops


def enabled(m, op):
    if op[0] in ("tag", "untag", "com", "file", "stat"):
        return op[1] < len(m.seqs)
    return True


def search(ctx, which, depth):
    depth = depth[1] if ctx.thorough else depth[0]
    pre, ops = alphabet(which)
    ctx.bounds = {"operations": len(ops), "depth": depth, "prefix": len(pre)}
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        ctx.raises(ValueError, v.create_schema_in_database, what="creating the schema twice")
        t0 = datetime.datetime.utcnow()
        frontier = collections.deque([[]])
        while frontier:
            hist = frontier.popleft()
            m = Model()
            for op in pre + hist:
                m, _ = model(m, op)
            for op in ops:
                if not enabled(m, op):
                    continue
                ctx.case(which, hist + [op])
                s.reset()
                uu, mm = [], Model()
                bad = False
                for o in pre + hist:
                    ok, _ = ctx.call(do, v, uu, o)
                    mm, _ = model(mm, o)
                mm = step(ctx, v, uu, mm, op)
                ctx.transitions += 1
                ctx.traces += 1
                if len(uu) != len(mm.seqs):
                    continue  # already reported
                got = compare_rows(ctx, s, uu, mm, t0)
                new = ctx.state((which, json.dumps(got, sort_keys=True, default=str)))
                ctx.outcome(got, sample=len(hist) > 1)
                if new:
                    compare_api(ctx, v, uu, mm, t0)
                    if len(hist) + 1 < depth:
                        frontier.append(hist + [op])
        pg.close(v)


FAULTOPS = [
    ("rec", "visitseq", "full", "min", "v0"), ("rec", "simulations", "tai", "odd", "v1"), ("rec", "completed", "full", "q", "v0"), ("rec", "mixedvisitseq", "tai", "", "v0"),
    ("upd", 0, "telescope", "zz"), ("url", 1, "file:///x"), ("tag", 0, ("b",)), ("untag", 0, "a"), ("com", 0, "one", "me"),
    ("file", 0, "obs", "h2", "file:///2", False), ("file", 0, "rewards", "h2", "file:///2", True), ("stat", 0, "s3"), ("stat", 1, "s2"), ("conda", "e1"),
]


def faults(ctx, mode):
    """Every statement/commit of every operation fails: old state or new state,
    and the handle stays usable."""
    pre = PRE + [("tag", 0, ("a",)), ("file", 0, "rewards", "h1", "file:///1", False), ("stat", 1, "s3"), ("conda", "e0")]
    pre[-2] = ("stat", 2, "s3")
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        t0 = datetime.datetime.utcnow()
        for op in FAULTOPS:
            for n in range(1, 80):
                ctx.case("fault", mode, op, n)
                pg.close(v)
                v = s.handle()
                s.reset()
                uu, m = [], Model()
                for o in pre:
                    do(v, uu, o)
                    m, _ = model(m, o)
                old = by_seq(hide_now(dump(s, uu), t0))
                pg.Ctl.arm(n, mode)
                ok, got = ctx.call(do, v, uu, op)
                pg.Ctl.off()
                fired = pg.Ctl.fired
                ctx.transitions += 1
                ctx.traces += 1
                # the uuid of a sequence whose recording was reported as failed
                for (x,) in s.rows("SELECT visitseq_uuid FROM visitseq"):
                    if x not in uu:
                        uu.append(x)
                now = by_seq(hide_now(dump(s, uu), t0))
                m2, _ = model(m, op)
                new = by_seq(mdump(m2, "now"))
                if fired and not ok:
                    ctx.expect(now == old or now == new, "an interrupted operation left neither the old nor the new state", op=op, got={t: now[t] for t in now if now[t] != old[t]})
                else:
                    ctx.expect(ok or not fired, "operation failed", op=op, error=repr(got)[:300])
                    ctx.expect(ok, "the operation failed without a fault", error=repr(got)[:300])
                    ctx.equal(now, new, "state after the operation", op=op)
                # the same handle goes on working
                ok2, r = ctx.must(lambda: (v.tag(uu[1], "zz"), v.is_tagged(uu[1], "zz"), v.query_nightly_stats(uu[0])), what="the next operation on the handle")
                if ok2:
                    ctx.expect(r[1], "next operation on the handle took effect")
                ctx.state(("fault", mode, op, n, now == old))
                ctx.outcome([mode, op, n, now == old])
                if not fired:
                    break
        pg.close(v)
    ctx.bounds = {"operations": len(FAULTOPS), "fault": f"every SQL statement and commit, failing {mode} it takes effect"}


RACEOPS = [
    ("tag", 0, ("a", "b")), ("tag", 1, ("b",)), ("untag", 0, "b"), ("com", 0, "one", None), ("com", 0, "two", "me"), ("upd", 0, "telescope", "zz"), ("upd", 0, "telescope", "yy"),
    ("url", 0, "file:///x"), ("file", 0, "obs", "h1", "file:///1", False), ("file", 0, "obs", "h2", "file:///2", True), ("file", 0, "rewards", "h3", "file:///3", True),
    ("stat", 0, "s1"), ("stat", 0, "s2"), ("conda", "e1"), ("rec", "simulations", "full", "plain", "v0"),
]


def races(ctx):
    """Two users of one database: every interleaving of the transactions of
    every pair of operations ends as one of the sequential orders, counting
    only the operations that were reported as done."""
    pre = PRE + [("tag", 0, ("b",)), ("file", 0, "rewards", "h1", "file:///1", False)]
    total = 0
    with pg.server(ctx) as s:
        hs = [s.handle(), s.handle()]
        hs[0].create_schema_in_database()
        t0 = datetime.datetime.utcnow()
        pairs = [(a, b) for i, a in enumerate(RACEOPS) for b in RACEOPS[i:]]
        for a, b in pairs:
            base = Model()
            for o in pre:
                base, _ = model(base, o)

            def run(choices):
                s.reset()
                uu = []
                for o in pre:
                    do(hs[0], uu, o)
                own = [list(uu), list(uu)]
                res, trace = pg.Sched().run([lambda: do(hs[0], own[0], a), lambda: do(hs[1], own[1], b)], choices)
                ctx.case("race", a, b, [c for _, c in trace])
                for o in own:
                    uu += o[3:]
                m2s = []
                for order in ((0, 1), (1, 0)):
                    m2 = base
                    for i in order:
                        if res[i][0]:
                            m2, want = model(m2, (a, b)[i])
                    m2s.append(m2)
                seen = by_seq(hide_now(dump(s, uu), t0))
                seen["tags"] = [list(x) for x in sorted({tuple(r) for r in seen["tags"]})]
                wants = []
                for m2 in m2s:
                    w = by_seq(mdump(m2, "now"))
                    wants.append(w)
                ok = any(all(sorted(seen[t], key=repr) == sorted(w[t], key=repr) for t in w) for w in wants)
                ctx.expect(ok, "the outcome is that of neither order of the operations reported as done", results=[(r[0], repr(r[1])[:120]) for r in res], got={t: seen[t] for t in seen if all(seen[t] != w[t] for w in wants)})
                legal = [model(base, x)[1] for x in (a, b)]
                for i in (0, 1):
                    if not res[i][0]:
                        both = model(model(base, (a, b)[1 - i])[0], (a, b)[i])[1]
                        conflict = a[:3] == b[:3] or (a[0] == b[0] and a[0] in ("stat", "file", "conda")) or isinstance(both, type) or isinstance(legal[i], type)
                        ctx.expect(conflict, "an operation failed although the other does not conflict with it", error=repr(res[i][1])[:300])
                ctx.expect(res[0][0] or res[1][0] or isinstance(legal[0], type) or isinstance(legal[1], type), "both operations failed", results=[repr(r)[:200] for r in res])
                for h in hs:
                    o, r = ctx.must(h.is_tagged, uu[0], "a", what="the next query")
                ctx.transitions += len(trace)
                ctx.traces += 1
                ctx.state(("race", a, b, json.dumps(seen, default=str)))
                ctx.outcome([a, b, [r[0] for r in res]])
                return trace

            pg.schedules(run)
        for h in hs:
            pg.close(h)
    ctx.bounds = {"pairs": len(pairs), "schedules": "all interleavings of whole transactions"}


def repeat(ctx):
    """Every public operation, refused ones included, repeated many times on
    one handle: connections are returned, nothing accumulates."""
    reads = {
        "get_visitseq_metadata": lambda v, u: v.get_visitseq_metadata(u),
        "get_extra": lambda v, u: v.get_visitseq_metadata(u, "simulations_extra"),
        "bad_table": lambda v, u: v.get_visitseq_metadata(u, "nosuch"),
        "missing": lambda v, u: v.get_visitseq_metadata(NOBODY),
        "url": lambda v, u: v.get_visitseq_url(u),
        "tagged": lambda v, u: v.is_tagged(u, "a"),
        "comments": lambda v, u: v.get_comments(u),
        "nofile": lambda v, u: v.get_file_url(u, "nope"),
        "stats": lambda v, u: v.query_nightly_stats(u),
        "conda": lambda v, u: v.conda_env_is_saved(b"x"),
        "night": lambda v, u: v.sims_on_nights(20260301),
        "night_stats": lambda v, u: v.sims_on_night_with_stats(20260301),
        "uuid": lambda v, u: v.get_sim_uuid(20260203, 1),
        "nouuid": lambda v, u: v.get_sim_uuid(20200203, 1),
        "yaml": lambda v, u: v.sim_metadata_yaml(u),
        "sw": lambda v, u: v.get_software_versions_for_sim(u),
        "badsql": lambda v, u: v.query("SELECT nothing FROM nowhere"),
        "badpd": lambda v, u: v.pd_read_sql("SELECT nothing FROM nowhere"),
        "reject": lambda v, u: v.untag(u, "nope"),
        "unknown": lambda v, u: v.update_visitseq_metadata(NOBODY, "telescope", "x"),
        "badfield": lambda v, u: v.update_visitseq_metadata(u, "nofield", "x"),
        "dupstat": lambda v, u: v.insert_nightly_stats(u, stat_df(STAT["s1"])),
        "dupfile": lambda v, u: v.register_file(u, "rewards", b"1", "x"),
    }
    writes = {
        "tag": ("tag", 0, ("a", "b")), "untag": ("untag", 0, "a"), "com": ("com", 0, "one", "me"), "file": ("file", 0, "obs", "h", "file:///r", True), "conda": ("conda", "e0"),
        "rec": ("rec", "simulations", "min", "plain", "v0"), "url": ("url", 1, "file:///x"),
    }
    reps = ctx.pick(12, 40)
    ctx.bounds = {"operations": len(reads) + len(writes), "repetitions": reps, "pairs": "every read after every write"}
    with pg.server(ctx) as s:
        v0 = s.handle()
        v0.create_schema_in_database()
        pg.close(v0)
        t0 = datetime.datetime.utcnow()
        for name in list(reads) + list(writes):
            ctx.case("repeat", name)
            s.reset()
            v = s.handle()
            uu, m = [], Model()
            for o in PRE + [("stat", 0, "s1"), ("file", 0, "rewards", "h1", "file:///1", False)]:
                do(v, uu, o)
                m, _ = model(m, o)
            first = None
            for r in range(reps):
                if name in writes and name != "untag":
                    m = step(ctx, v, uu, m, writes[name])
                elif name == "untag":
                    m = step(ctx, v, uu, m, ("tag", 0, ("a",)))
                    m = step(ctx, v, uu, m, writes[name])
                else:
                    ok, x = ctx.call(reads[name], v, uu[0])
                    y = (ok, type(x).__name__)
                    first = first or y
                    ctx.equal(y, first, "the same question is answered alike every time", repetition=r, error=repr(x)[:300])
                ctx.transitions += 1
            compare_rows(ctx, s, uu, m, t0, f"after {reps} repetitions")
            ctx.traces += 1
            ctx.state(("repeat", name))
            ctx.outcome([name, first])
            # another handle on the same database, while this one is open
            w = s.handle()
            ok, r = ctx.must(w.get_visitseq_url, uu[0], what="another handle")
            pg.close(w)
            pg.close(v)


def cli(ctx):
    """The command line: each command against the same model."""
    from click.testing import CliRunner

    from rubin_sim.sim_archive.vseqarchive import vseqarchive

    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        dsn = s.db.psycopg2_dsn()
        env = {"VSARCHIVE_PGDATABASE": dsn["database"], "VSARCHIVE_PGHOST": dsn["host"], "VSARCHIVE_PGUSER": dsn["user"], "VSARCHIVE_PGPORT": str(dsn["port"]), "VSARCHIVE_PGSCHEMA": "test"}

        def run(*args):
            r = CliRunner(env=env).invoke(vseqarchive, [str(a) for a in args], catch_exceptions=True)
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception
            if r.exit_code != 0:
                raise RuntimeError(r.output)
            return r.output.strip()

        h5 = f"{ctx.scratch}/v0.h5"
        V["v0"].to_hdf(h5, key="observations")
        import sqlite3

        sq = f"{ctx.scratch}/v0.db"
        with sqlite3.connect(sq) as c:
            V["v0"].to_sql("observations", c, index=False)
        t0 = datetime.datetime.utcnow()
        n = 0
        for table, f, full in itertools.product(CHILD, (h5, sq), (False, True)):
            ctx.case("cli_record", table, f[-2:], full)
            s.reset()
            opts = ["--telescope", "auxtel", "--url", "u", "--first_day_obs", "2026-03-01", "--last_day_obs", "2026-03-05", "--creation_time", CT] if full else []
            ok, out = ctx.must(run, "record-visitseq-metadata", table, f, "lab", *opts, what="recording from the command line")
            if not ok:
                continue
            u = uuidlib.UUID(out)
            m = Model()
            q = dict(table=table, tags=set(), comments=[], files={}, stats={}, visitseq_label="lab", visitseq_sha256=None)
            q.update({c: None for c in CHILD[table]})
            q.update(REC_EXPECT["full" if full else "min"])
            if full:
                q["visitseq_url"] = "u"
            m.seqs.append(q)
            got = by_seq(hide_now(dump(s, [u]), t0))
            q["visitseq_sha256"] = compute_visits_sha256(V["v0"]).hex()
            ctx.equal(got, by_seq(mdump(m, "now")), "recorded from the command line")
            ctx.transitions += 1
            ctx.traces += 1
            for seq in (["tag b", "tag a b", "untag a"], ["com x", "com y me", "url z"], ["upd telescope tt", "upd visitseq_sha256 0102", "tag a"]):
                for o in seq:
                    w = o.split()
                    ok, out = {
                        "tag": lambda: ctx.must(run, "tag", u, *w[1:], what=o),
                        "untag": lambda: ctx.must(run, "untag", u, *w[1:], what=o),
                        "com": lambda: ctx.must(run, "comment", u, w[1], *(["--author", w[2]] if len(w) > 2 else []), what=o),
                        "url": lambda: ctx.must(run, "set-visitseq-url", u, w[1], what=o),
                        "upd": lambda: ctx.must(run, "update-visitseq-metadata", u, w[1], w[2], what=o),
                    }[w[0]]()
                    op = {"tag": ("tag", 0, tuple(w[1:])), "untag": ("untag", 0, w[-1]), "com": ("com", 0, w[1] if len(w) > 1 else "", w[2] if len(w) > 2 else None), "url": ("url", 0, w[-1]), "upd": ("upd", 0) + tuple(w[1:])}[w[0]]
                    if op[0] == "upd" and op[2].endswith("sha256"):
                        op = op[:3] + (bytes.fromhex(op[3]),)
                    m, _ = model(m, op)
                    ctx.transitions += 1
                ctx.equal(by_seq(hide_now(dump(s, [u]), t0)), by_seq(mdump(m, "now")), "state after commands", commands=seq)
                for t in ("a", "b"):
                    ok, out = ctx.must(run, "is-tagged", u, t, what="is-tagged")
                    if ok:
                        ctx.equal(out, "true" if t in m.seqs[0]["tags"] else "false", "is-tagged printed")
                ok, out = ctx.must(run, "get-visitseq-url", u, what="get-visitseq-url")
                if ok:
                    ctx.equal(out, str(m.seqs[0]["visitseq_url"]) if m.seqs[0]["visitseq_url"] is not None else "", "URL printed") if m.seqs[0]["visitseq_url"] is not None else None
                ok, out = ctx.must(run, "get-comments", u, what="get-comments")
                if ok:
                    ls = out.splitlines()
                    got = [dict(zip(ls[0].split("\t"), x.split("\t"))) for x in ls[1:]] if ls else []
                    ctx.equal([[g["author"] or None, g["comment"]] for g in sorted(got, key=lambda g: g["comment_time"])], [list(c) for c in m.seqs[0]["comments"]], "comments printed")
                ok, out = ctx.must(run, "get-visitseq-metadata", u, "--table", table, what="get-visitseq-metadata")
                if ok:
                    ls = out.split("\n")
                    got = dict(zip(ls[0].split("\t"), ls[1].split("\t")))
                    want = {c: (m.seqs[0][c] or "") for c in ("visitseq_label", "telescope", "visitseq_url", "first_day_obs", "last_day_obs")}
                    ctx.equal({c: got[c] for c in want}, want, "metadata printed")
                    ctx.equal(got["visitseq_uuid"], str(u), "identifier printed")
            ctx.state(("cli", table, f[-2:], full))
            ctx.outcome([table, full])
        pg.close(v)
    ctx.bounds = {"tables": len(CHILD), "inputs": "HDF5 and SQLite", "sequences": 3}


UNITS = [
    Unit("records", search, which="records", depth=(3, 4)),
    Unit("tags", search, which="tags", depth=(3, 4)),
    Unit("files", search, which="files", depth=(3, 4)),
    Unit("stats", search, which="stats", depth=(3, 4)),
    Unit("all", search, which="all", depth=(3, 4)),
    Unit("faults_before", faults, mode="before"),
    Unit("faults_after", faults, mode="after"),
    Unit("races", races),
    Unit("repeat", repeat),
    Unit("cli", cli),
]
