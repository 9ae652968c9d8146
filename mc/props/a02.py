"""A02: archived files are returned intact."""
import collections
import datetime
import hashlib
import itertools
import json
import os
import shutil
import sqlite3
import uuid as uuidlib

import numpy as np
import pandas as pd
from astropy.time import Time
from lsst.resources import ResourcePath

from mc import pg
from mc.core import Unit
from rubin_sim.sim_archive import vseqarchive as va

PROPERTY = "A02"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over histories of archiving files of every type for several sequences (real PostgreSQL and a "
    "real directory archive) in lock step with a model holding the bytes each (sequence, type) must return; after every "
    "operation every registered file is read back, hashed and compared; every SQL statement and file operation of an "
    "addition failing; non-trivial = every transition"
)
ASSUMPTIONS = [
    "files of different types archived for one sequence have different base names, except in the unit 'collision' (see KNOWN_FINDINGS)",
    "the archive is a local directory; replacing a file by one of the same name is not required to survive a failure half way",
]

CONTENT = {"c0": b"first\x00\xff", "c1": b"fisst\x00\xff", "cl": b"second, longer" * 40, "ce": b""}
CT = ["2026-02-03T11:59:59", "2026-02-03T12:00:00"]
DAY = ["2026-02-02", "2026-02-03"]
TEL = ["simonyi", "auxtel"]
VIS = {
    "x": pd.DataFrame({"observationId": [1, 2], "fieldRA": [0.5, 1.5], "note": ["a", ""]}),
    "y": pd.DataFrame({"observationId": [7], "fieldRA": [-2.25], "note": ["it's %"]}),
}


class World:
    def __init__(self, ctx):
        self.root = os.path.join(ctx.scratch, "w")
        self.src = os.path.join(self.root, "src")
        self.arch = os.path.join(self.root, "archive")
        os.makedirs(self.src)
        os.chmod(self.root, 0o711)
        for n in ("r1.bin", "r2.bin", "o1.bin"):
            for c, b in CONTENT.items():
                os.makedirs(f"{self.src}/{c}", exist_ok=True)
                open(f"{self.src}/{c}/{n}", "wb").write(b)
        for k, df in VIS.items():
            os.makedirs(f"{self.src}/{k}", exist_ok=True)
            df.to_hdf(f"{self.src}/{k}/vis.h5", key="observations")
            with sqlite3.connect(f"{self.src}/{k}/opsim.db") as c:
                df.to_sql("observations", c, index=False)
                pd.DataFrame({"Parameter": ["p"], "Value": [k]}).to_sql("info", c, index=False)

    def reset(self):
        shutil.rmtree(self.arch, ignore_errors=True)


OPS = [("add", 0, "rewards", n, c, u) for n, cs in (("r1.bin", ("c0", "c1")), ("r2.bin", ("c0", "cl"))) for c in cs for u in (False, True)]
OPS += [("add", 0, "obs", "o1.bin", "ce", False), ("add", 0, "obs", "o1.bin", "cl", True)]
OPS += [("add", 1, "rewards", "r1.bin", "c1", False), ("add", 1, "rewards", "r1.bin", "c0", True)]
OPS += [("add", 0, "visits", "vis.h5", "x", False), ("add", 0, "visits", "opsim.db", "y", False), ("add", 1, "visits", "opsim.db", "x", True)]


def new_seqs(v, n=2):
    df = VIS["x"]
    out = []
    for i in range(n):
        f = v.record_simulation_metadata if i == 0 else v.record_completed_metadata
        out.append(f(df, f"l{i}", telescope=TEL[i], creation_time=Time(CT[i], scale="utc")))
    return out


def do(w, v, uu, op, cli=None):
    _, i, ft, name, c, u = op
    origin = f"{w.src}/{c}/{name}"
    if cli is not None:
        return cli("archive-file", uu[i], origin, ft, "--archive-base", w.arch, *(["--update"] if u else []))
    return va.add_file(v, uu[i], origin if u else __import__("pathlib").Path(origin), ft, ResourcePath(w.arch, forceDirectory=True) if u else w.arch, update=u)


def model(m, op):
    _, i, ft, name, c, u = op
    if ft != "visits" and (i, ft) in m and not u:
        return m, ValueError
    m = dict(m)
    m[(i, ft)] = (name, c)
    return m, None


def place(w, uu, i, name):
    return f"{w.arch}/{TEL[i]}/{DAY[i]}/{uu[i]}/{name}"


def check_all(ctx, w, v, uu, m, cli=None):
    for i, ft in itertools.product((0, 1), ("rewards", "obs", "visits")):
        if (i, ft) not in m:
            if ft == "visits":
                ok, u = ctx.must(v.get_visitseq_url, uu[i], what="get_visitseq_url")
                ctx.expect(not ok or u is None, "visits never archived have no URL", got=u)
            else:
                ctx.raises(ValueError, v.get_file_url, uu[i], ft, what="a file never archived")
            continue
        name, c = m[(i, ft)]
        ok, url = ctx.must(v.get_file_url, uu[i], ft, what="get_file_url")
        if not ok:
            continue
        rp = ResourcePath(url)
        want_name = "visits.h5" if name.endswith(".db") else name
        ctx.equal(rp.ospath, place(w, uu, i, want_name), "location of the archived file")
        ok, got = ctx.must(rp.read, what="reading the archived file")
        if not ok:
            continue
        if ft != "visits":
            ctx.expect(got == CONTENT[c], "archived bytes", seq=i, file_type=ft, got=got[:30], want=CONTENT[c][:30])
            ok, h = ctx.must(v.get_file_sha256, uu[i], ft, what="get_file_sha256")
            ctx.expect(not ok or h == hashlib.sha256(CONTENT[c]).digest(), "recorded hash is that of the archived bytes", seq=i, file_type=ft)
        else:
            ok, df = ctx.must(va.get_visits, url, what="get_visits")
            if ok:
                ctx.equal([list(df.columns)] + df.values.tolist(), [list(VIS[c].columns)] + VIS[c].values.tolist(), "archived visits", seq=i)
        if cli is not None:
            for ext in (".out", ".db", ".SQLITE3") if ft == "visits" else (".out", ".db"):
                dest = f"{w.root}/got{ext}"
                if os.path.exists(dest):
                    os.unlink(dest)
                ok, _ = ctx.must(cli, "get-file", uu[i], ft, dest, what="get-file")
                if not ok:
                    continue
                if ft == "visits" and ext != ".out":
                    con = sqlite3.connect(dest)
                    df = pd.read_sql("SELECT * FROM observations", con)
                    tabs = sorted(r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'"))
                    con.close()
                    ctx.equal([list(df.columns)] + df.values.tolist(), [list(VIS[c].columns)] + VIS[c].values.tolist(), "visits fetched as an opsim database")
                    ctx.equal(tabs, ["info", "observations"] if name.endswith(".db") else ["observations"], "tables of the fetched database")
                else:
                    ctx.expect(open(dest, "rb").read() == got, "bytes fetched", file_type=ft, ext=ext)


def make_cli(s):
    from click.testing import CliRunner

    dsn = s.db.psycopg2_dsn()
    env = {"VSARCHIVE_PGDATABASE": dsn["database"], "VSARCHIVE_PGHOST": dsn["host"], "VSARCHIVE_PGUSER": dsn["user"], "VSARCHIVE_PGPORT": str(dsn["port"]), "VSARCHIVE_PGSCHEMA": "test"}

    def run(*args):
        r = CliRunner(env=env).invoke(va.vseqarchive, [str(a) for a in args], catch_exceptions=True)
        if r.exception is not None and not isinstance(r.exception, SystemExit):
            raise r.exception
        if r.exit_code != 0:
            raise RuntimeError(r.output)
        return r.output.strip()

    return run


def tree(w):
    out = {}
    for d, _, fs in os.walk(w.arch):
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), w.arch)] = hashlib.sha256(open(os.path.join(d, f), "rb").read()).hexdigest()
    return out


def search(ctx, part):
    ops = OPS if part == "api" else [OPS[0], OPS[3], OPS[5], OPS[8], OPS[10], OPS[12], OPS[13], OPS[14]]
    depth = ctx.pick(3, 4) if part == "api" else ctx.pick(2, 3)
    ctx.bounds = {"operations": len(ops), "depth": depth}
    w = World(ctx)
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        cli = make_cli(s)
        frontier = collections.deque([[]])
        while frontier:
            hist = frontier.popleft()
            for op in ops:
                ctx.case(part, hist + [op])
                s.reset()
                w.reset()
                uu = new_seqs(v)
                m = {}
                for o in hist:
                    ctx.call(do, w, v, uu, o)
                    m, _ = model(m, o)
                before = tree(w)
                ok, got = ctx.call(do, w, v, uu, op, cli if part == "cli" else None)
                m2, want = model(m, op)
                if want is not None:
                    ctx.expect(not ok and isinstance(got, want), "archiving a second file of a type without update must be refused", got=got)
                    ctx.equal(tree(w), before, "a refused addition changed the archive")
                elif not ok:
                    ctx.fail(f"archiving raised {type(got).__name__}", error=str(got)[:300])
                else:
                    url = got if part == "cli" else got.geturl()
                    name = "visits.h5" if op[3].endswith(".db") else op[3]
                    ctx.equal(ResourcePath(url).ospath, place(w, uu, op[1], name), "location answered")
                    t2 = tree(w)
                    rel = os.path.relpath(place(w, uu, op[1], name), w.arch)
                    ctx.equal({k: x for k, x in t2.items() if k != rel}, {k: x for k, x in before.items() if k != rel}, "archiving a file changed another one")
                canon = (part, sorted(m2.items()))
                new = ctx.state(canon)
                check_all(ctx, w, v, uu, m2, cli if new else None)
                ctx.expect(open(f"{w.src}/{op[4]}/{op[3]}", "rb").read() is not None, "the original file is still there")
                ctx.transitions += 1
                ctx.traces += 1
                ctx.outcome([sorted(map(str, m2.items())), ok])
                if new and len(hist) + 1 < depth:
                    frontier.append(hist + [op])
        pg.close(v)


def faults(ctx):
    """Every SQL statement and every write/mkdir of an addition fails."""
    w = World(ctx)
    ops = [("add", 0, "obs", "o1.bin", "c1", False), ("add", 0, "rewards", "r2.bin", "c1", True), ("add", 1, "rewards", "r1.bin", "c0", False), ("add", 0, "visits", "opsim.db", "x", False), ("add", 1, "visits", "vis.h5", "y", False)]
    pre = [("add", 0, "rewards", "r1.bin", "c0", False)]

    class FileFault:
        def __init__(self, n):
            self.n, self.count, self.fired = n, 0, False

        def __enter__(self):
            self.old = {}
            cls = type(ResourcePath(w.arch))
            for name in ("write", "mkdir"):
                self.old[name] = getattr(cls, name)

                def wrap(orig):
                    def f(rp, *a, **k):
                        self.count += 1
                        if self.count == self.n:
                            self.fired = True
                            raise OSError("injected")
                        return orig(rp, *a, **k)

                    return f

                setattr(cls, name, wrap(self.old[name]))
            self.cls = cls
            return self

        def __exit__(self, *a):
            for name, f in self.old.items():
                setattr(self.cls, name, f)

    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        for op in ops:
            for kind in ("sql", "sql_after", "file"):
                for n in range(1, 60):
                    ctx.case("fault", kind, op, n)
                    pg.close(v)
                    v = s.handle()
                    s.reset()
                    w.reset()
                    uu = new_seqs(v)
                    m = {}
                    for o in pre:
                        do(w, v, uu, o)
                        m, _ = model(m, o)
                    if kind == "file":
                        with FileFault(n) as ff:
                            ok, got = ctx.call(do, w, v, uu, op)
                        fired = ff.fired
                    else:
                        pg.Ctl.arm(n, "after" if kind == "sql_after" else "before")
                        ok, got = ctx.call(do, w, v, uu, op)
                        pg.Ctl.off()
                        fired = pg.Ctl.fired
                    m2, _ = model(m, op)
                    if ok:
                        check_all(ctx, w, v, uu, m2)
                        ctx.expect(not (fired and kind == "file"), "a failed file operation was not reported")
                    else:
                        ctx.expect(fired, "the operation failed without a fault", error=repr(got)[:300])
                        # old or new; nothing registered may be missing or different
                        key = (op[1], op[2])
                        okn, url = ctx.call(v.get_file_url, uu[op[1]], op[2])
                        name = "visits.h5" if op[3].endswith(".db") else op[3]
                        isnew = okn and url is not None and os.path.basename(url) == name
                        check_all(ctx, w, v, uu, m2 if isnew else m)
                    ctx.transitions += 1
                    ctx.traces += 1
                    ctx.state(("fault", kind, op, n, ok))
                    ctx.outcome([kind, op, n, ok])
                    if not fired:
                        break
        pg.close(v)
    ctx.bounds = {"operations": len(ops), "fault": "every SQL statement, commit, write and mkdir"}


def collision(ctx):
    """Two types archived from files of the same base name."""
    w = World(ctx)
    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        for c1, c2, order in (("c0", "c1", "rewards-obs"), ("c0", "c0", "rewards-obs"), ("c1", "c1", "obs-rewards")):
            ctx.case("collision", c1, c2, order)
            s.reset()
            w.reset()
            uu = new_seqs(v)
            t1, t2 = order.split("-")
            do(w, v, uu, ("add", 0, t1, "r1.bin", c1, False))
            ok, e = ctx.call(do, w, v, uu, ("add", 0, t2, "r1.bin", c2, False))
            got = ResourcePath(v.get_file_url(uu[0], t1)).read()
            ctx.expect(got == CONTENT[c1] and v.get_file_sha256(uu[0], t1) == hashlib.sha256(CONTENT[c1]).digest(), "archiving another type of file with the same base name overwrote the archived file")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state(("collision", c1, c2, order))
            ctx.outcome([c1, c2, ok])
        pg.close(v)


def paths(ctx):
    """construct_base_resource_path for every creation time around the day
    boundary, time scale, telescope and archive spelling."""
    u = uuidlib.UUID(int=5)
    for base, slash, tel in itertools.product(("/a/b", "file:///a/b", "s3://rubin:bucket/x"), ("", "/"), ("simonyi", "auxtel", "t")):
        for day, sec, scale in itertools.product((60000, 60001, 60308, 60676), (-43200.001, -43199.9, -1, 0, 1, 43199, 43199.999, 43200, 43200.001), ("utc",)):
            if not ctx.case(base, slash, tel, day, sec, scale):
                continue
            utc = Time(day, sec / 86400.0, format="mjd", scale="utc")
            t = utc
            rp = ResourcePath(base + slash, forceDirectory=True)
            ok, r = ctx.must(va.construct_base_resource_path, rp, tel, t, u, what="construct_base_resource_path")
            if not ok:
                continue
            d = day - 1 if sec < 43200 else day
            if sec < -43200:
                d = day - 2
            want = (datetime.date(1858, 11, 17) + datetime.timedelta(days=d)).isoformat()
            ctx.equal(r.geturl(), f"{rp.geturl()}{tel}/{want}/{u}/", "directory of the sequence")
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state((base, tel, want))
            ctx.outcome([tel, want])
    ctx.bounds = {"days": 4, "instants": "all sides of noon UTC"}


UNITS = [Unit("api", search, part="api"), Unit("cli", search, part="cli"), Unit("faults", faults), Unit("collision", collision), Unit("paths", paths)]
