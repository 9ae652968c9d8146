"""M07: the run-tracking database identifies each run directory by one stable id."""
import copy
import itertools
import os
import shutil
import sqlite3

from mc.core import Unit
from mc.hist import SqlFault, bfs_file
from rubin_sim.maf.db import ResultsDb, TrackingDb, add_run_to_database

PROPERTY = "M07"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over histories of registering, re-registering and removing runs on a real SQLite tracking "
    "database in lock step with a dictionary model; every SQL statement failing in a re-registration; every relative "
    "placement of database, run directory and working directory; non-trivial = every transition"
)
ASSUMPTIONS = ["which unused id a new run gets is not decided"]

FIELDS = ["run_group", "run_name", "run_comment", "run_version", "run_date", "maf_comment", "maf_version", "maf_date", "db_file"]
INFO = {
    "full": {f: f"v_{f}" for f in FIELDS},
    "alt": {f: f"w_{f}" for f in FIELDS},
    "part": {"run_name": "p", "maf_comment": "q"},
}
DIRS = ["a", "a/", "./a", "b", "b/c"]


def db_dir(path):
    return os.path.dirname(path)


def add_op(path, op, live=None):
    t = live or TrackingDb(database=path)
    try:
        if op[0] == "add":
            return t.add_run(maf_dir=os.path.join(db_dir(path), op[1]), maf_run_id=op[3], **INFO[op[2]])
        return t.delRun(op[1])
    finally:
        if live is None:
            t.close()


def model_op(m, op, got=None):
    m = copy.deepcopy(m)
    if op[0] == "add":
        d = os.path.normpath(op[1])
        rec = {f: INFO[op[2]].get(f, "NULL") for f in FIELDS}
        same = [i for i in m if m[i][0] == d]
        if same:
            m[same[0]] = (d, rec)
            return m, same[0]
        if op[3] is not None:
            if op[3] in m:
                return m, ValueError
            m[op[3]] = (d, rec)
            return m, op[3]
        want = got if (isinstance(got, int) and got not in m) else "an unused integer id"
        m[want if isinstance(want, int) else -1] = (d, rec)
        return m, want
    if op[1] not in m:
        return m, Exception
    del m[op[1]]
    return m, None


model_op.observes = True


def dump(path):
    c = sqlite3.connect(path)
    try:
        cols = ["maf_run_id", "maf_dir"] + FIELDS
        return [tuple(r) for r in c.execute(f"select {','.join(cols)} from runs order by maf_run_id")]
    finally:
        c.close()


def canon(path):
    return tuple(dump(path))


def mrows(m):
    return tuple((i, m[i][0]) + tuple(m[i][1][f] for f in FIELDS) for i in sorted(m))


def search(ctx, which):
    if which == "ids":
        ops = [("add", d, "full", None) for d in DIRS] + [("add", "a", "part", 7), ("add", "b", "alt", 1), ("add", "z", "alt", 1), ("del", 1), ("del", 2), ("del", 9)]
    else:
        ops = [("add", d, i, r) for d in ("a", "b") for i in INFO for r in (None, 2)] + [("del", 1), ("del", 2)]
    depth = ctx.pick(3, 4)
    ctx.bounds = {"operations": len(ops), "depth": depth}

    def init(path):
        TrackingDb(database=path).close()
        return {}

    def compare(path, m):
        ctx.equal(dump(path), list(mrows(m)), "runs recorded")

    bfs_file(ctx, which, ops, init, add_op, model_op, compare, canon, depth)


def live(ctx):
    """Every sequence on one live handle (a refused operation leaves it usable)."""
    ops = [("add", "a", "full", None), ("add", "a", "part", None), ("add", "b", "alt", 1), ("add", "c", "alt", 1), ("del", 1), ("del", 5)]
    L = ctx.pick(4, 5)
    ctx.bounds = {"operations": len(ops), "length": L}
    p = os.path.join(ctx.scratch, "live.db")
    for seq in itertools.product(ops, repeat=L):
        if not ctx.case("live", seq):
            continue
        if os.path.exists(p):
            os.unlink(p)
        t, m = TrackingDb(database=p), {}
        for op in seq:
            ok, got = ctx.call(add_op, p, op, t)
            m, want = model_op(m, op, got if ok else None)
            if isinstance(want, type):
                ctx.expect(not ok and isinstance(got, want), "should have been refused", op=op, got=got)
            else:
                ctx.expect(ok and got == want, "answer of the operation", op=op, got=got, want=want)
            ctx.transitions += 1
        t.close()
        ctx.equal(dump(p), list(mrows(m)), "runs recorded")
        ctx.traces += 1
        ctx.state(("live", canon(p)))
        ctx.outcome(canon(p))


def faults(ctx):
    pre = [("add", "a", "full", None), ("add", "b", "alt", None)]
    ops = [("add", "a", "alt", None), ("add", "b", "part", 9), ("add", "c", "full", None), ("add", "d", "full", 12), ("del", 1), ("del", 2)]
    os.makedirs(os.path.join(ctx.scratch, "f"))
    p0 = os.path.join(ctx.scratch, "f", "p0.db")
    TrackingDb(database=p0).close()
    m0 = {}
    for op in pre:
        m0, _ = model_op(m0, op, add_op(p0, op))
    serial = 0
    for op in ops:
        n = 0
        while n < 60:
            n += 1
            serial += 1
            p = os.path.join(ctx.scratch, "f", f"s{serial}.db")
            shutil.copyfile(p0, p)
            ctx.case("fault", op, n)
            t = TrackingDb(database=p)
            with SqlFault(n) as sf:
                ok, got = ctx.call(add_op, p, op, t)
            ctx.call(t.close)
            q = os.path.join(ctx.scratch, "f", f"q{serial}.db")
            for suffix in ("", "-journal", "-wal"):
                if os.path.exists(p + suffix):
                    shutil.copyfile(p + suffix, q + suffix)
            TrackingDb(database=q).close()
            d = canon(q)
            old = mrows(m0)
            rest = [r for r in d if r[1] not in (os.path.normpath(op[1]),)] if op[0] == "add" else None
            ctx.transitions += 1
            ctx.traces += 1
            if sf.fired and not ok:
                if op[0] == "add":
                    tgt = os.path.normpath(op[1])
                    ctx.equal(rest, [r for r in old if r[1] != tgt], "other runs untouched")
                    mine, was = [r for r in d if r[1] == tgt], [r for r in old if r[1] == tgt]
                    new = tuple(INFO[op[2]].get(f, "NULL") for f in FIELDS)
                    ctx.expect(mine == was or (len(mine) == 1 and mine[0][2:] == new and (not was or was[0][0] == mine[0][0])), "an interrupted registration left neither the old nor the new record", got=mine, was=was)
                else:
                    ctx.expect(d == old or d == tuple(r for r in old if r[0] != op[1]), "interrupted removal", got=d)
            elif not sf.fired:
                ctx.expect(ok, "operation failed without a fault", error=repr(got)[:300])
                m1, _ = model_op(m0, op, got if ok else None)
                ctx.equal(d, mrows(m1), "recorded")
            ctx.state(("fault", op, n, d))
            ctx.outcome([op, n, d == old])
            if not sf.fired:
                break
    ctx.bounds = {"operations": len(ops), "fault": "every SQL statement and commit"}


def register(ctx):
    """add_run_to_database for every placement of db, run and working directory."""
    root = os.path.join(ctx.scratch, "reg")
    runs = ["r0", "x/r1", "x/y/r2"]
    dbs = ["t.db", "x/t.db", "x/y/t.db", "z/t.db"]
    cwds = [".", "x", "x/y", "z"]
    here = os.getcwd()
    for run, db, cwd, absr, absd, ends in itertools.product(runs, dbs, cwds, (False, True), (False, True), (False, True)):
        for withres in (False, True):
            if not ctx.case("register", run, db, cwd, absr, absd, ends, withres):
                continue
            shutil.rmtree(root, ignore_errors=True)
            for d in ("r0", "x/y/r2", "x/r1", "z"):
                os.makedirs(os.path.join(root, d))
            rdir, dbf, cd = os.path.join(root, run), os.path.join(root, db), os.path.join(root, cwd)
            if withres:
                r = ResultsDb(out_dir=rdir)
                r.update_metric("m", "s", "the_run", "", "l", None)
                r.close()
            os.chdir(cd)
            try:
                ra = rdir if absr else os.path.relpath(rdir, cd)
                ra = ra + "/" if ends else ra
                da = dbf if absd else os.path.relpath(dbf, cd)
                ok, v = ctx.must(add_run_to_database, ra, da, run_group="G", maf_comment="C", db_file="f.db", what="registering an existing run")
                ok2, v = ctx.must(add_run_to_database, ra, da, run_group="G2", run_comment="K", sched_version="sv", sched_date="sd", what="registering it again")
                ctx.raises(ValueError, add_run_to_database, os.path.join(ra, "nothere"), da, what="registering a directory that does not exist")
            finally:
                os.chdir(here)
            if ok and ok2:
                d = dump(dbf)
                if ctx.equal(len(d), 1, "one record for one run directory", records=d):
                    rec = dict(zip(["maf_run_id", "maf_dir"] + FIELDS, d[0]))
                    ctx.equal(os.path.normpath(os.path.join(os.path.dirname(dbf), rec["maf_dir"])), os.path.normpath(rdir), "recorded directory leads from the database to the run")
                    ctx.equal([rec["run_group"], rec["run_comment"], rec["run_version"], rec["run_date"], rec["maf_comment"]], ["G2", "K", "sv", "sd", "NULL"], "recorded details")
                    ctx.equal(rec["run_name"], "the_run" if withres else "NULL", "run name from the results")
                    if withres:
                        from rubin_sim import __version__

                        ctx.equal(rec["maf_version"], __version__, "version from the results")
            ctx.transitions += 2
            ctx.traces += 1
            ctx.state(("reg", run, db, cwd, absr, absd, withres))
            ctx.outcome([run, db, cwd])


def spellings(ctx):
    """One run directory under any two spellings, from any two working
    directories, through new handles: one record that leads to it."""
    root = os.path.join(ctx.scratch, "spell")
    here = os.getcwd()
    cwds = [".", "x", "x/y"]
    dbs = ["t.db", "x/t.db", "z/t.db"]
    runs = ["r0", "x/r0", "x/y/r2"]

    def spell(k, p, cd):
        rel = os.path.relpath(p, cd)
        return {"abs": p, "rel": rel, "slash": rel + "/", "dots": os.path.join("..", os.path.basename(os.path.realpath(cd)), rel), "dot": "./" + rel}[k]

    ks = ["abs", "rel", "slash", "dots", "dot"]
    for run, db, exists, c1, c2, k1, k2 in itertools.product(runs, dbs, (True, False), cwds, cwds, ks, ks):
        dk = ("abs", "rel") if (ks.index(k1) + ks.index(k2)) % 2 else ("rel", "abs")
        if not ctx.case("spell", run, db, exists, c1, c2, k1, k2):
            continue
        shutil.rmtree(root, ignore_errors=True)
        for d in ("x/y", "z") + ((run,) if exists else ()):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        ids = []
        try:
            for c, k, q, info in ((c1, k1, dk[0], "full"), (c2, k2, dk[1], "alt")):
                cd = os.path.join(root, c)
                os.chdir(cd)
                t = TrackingDb(database=spell(q, os.path.join(root, db), cd))
                ok, v = ctx.must(t.add_run, maf_dir=spell(k, os.path.join(root, run), cd), what="registering", **INFO[info])
                ids.append(v if ok else None)
                if k == "abs" and info == "full":
                    ctx.must(t.add_run, maf_dir=os.path.join(root, "x", "other"), what="registering another run", **INFO["part"])
                t.close()
        finally:
            os.chdir(here)
        dbf = os.path.join(root, db)
        d = [r for r in dump(dbf) if os.path.normpath(os.path.join(os.path.dirname(dbf), r[1])) == os.path.normpath(os.path.join(root, run))]
        if ctx.equal(len(d), 1, "records of the run directory", records=dump(dbf)):
            ctx.equal([ids[0], ids[1], list(d[0][2:])], [d[0][0], d[0][0], [INFO["alt"].get(f, "NULL") for f in FIELDS]], "id and details")
        ctx.equal(len(dump(dbf)), 2 if k1 == "abs" else 1, "number of records")
        ctx.transitions += 2
        ctx.traces += 1
        ctx.state(("spell", run, db, exists, c1, c2, k1, k2))
        ctx.outcome([run, db, d])


UNITS = [Unit("spellings", spellings), Unit("search_ids", search, which="ids"), Unit("search_info", search, which="info"), Unit("live", live), Unit("faults", faults), Unit("register", register)]
