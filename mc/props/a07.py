"""A07: the prototype (dated directory) archive of simulations."""
import contextlib
import datetime
import hashlib
import io
import itertools
import json
import logging
import os
import shutil
import sqlite3
import time
from pathlib import Path

import numpy as np
import pandas as pd
import yaml

from mc import pg
from mc.core import Unit

PROPERTY = "A07"
LEVEL = "model_checking"
RULE = (
    "every sequence, up to the depth, of transfers, foreign entries and removals in a real file archive; every history of "
    "additions and (appending) compilations followed by every read; every archive of up to three simulations for the "
    "search of the latest; every combination of metadata for import and export; non-trivial = a simulation is found"
)
ASSUMPTIONS = [
    "simulations are added in the order of their dates, as transfer_archive_dir does, and a compilation is complete up to its last date",
    "the archive base is a file:// URL",
    "the date does not change while a unit is run (none is started within four minutes before 0h UTC)",
]

logging.disable(logging.CRITICAL)


def today():
    return datetime.datetime.now(datetime.UTC).date()


def day(n):
    return (today() - datetime.timedelta(days=n)).isoformat()


def steady():
    """Do not start a unit shortly before the date changes."""
    now = datetime.datetime.now(datetime.UTC)
    left = 86400 - (now.hour * 3600 + now.minute * 60 + now.second)
    if left < 240:
        time.sleep(left + 1)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def tree(base):
    return {str(p.relative_to(base)): p.read_bytes() if p.is_file() else None for p in sorted(Path(base).rglob("*"))}


def meta(**k):
    m = dict(
        files={"observations": {"name": "opsim.db", "md5": "0" * 32}},
        simulated_dates={"first": "2025-01-01", "last": "2025-01-02"},
        telescope="simonyi", scheduler_version="4.6", host="h", username="u", label="lab", tags=["a"],
        sim_runner_kwargs={"sim_start_mjd": 60000.5, "sim_duration": 1.0},
    )
    m.update(k)
    return {a: b for a, b in m.items() if b is not None}


def put(base, d, i, m):
    p = Path(base, d, str(i))
    p.mkdir(parents=True)
    (p / "sim_metadata.yaml").write_text(yaml.dump(m))
    return p


# -------------------------------------------------------------- transfers
def transfer(ctx, first):
    steady()
    from rubin_sim.sim_archive import prototype as pr

    src = []
    for k in range(2):
        d = Path(ctx.scratch, f"sim{k}")
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir()
        files = {}
        for t, n in [("observations", "opsim.db"), ("rewards", "rewards.h5"), ("scheduler", "s.p")][: 2 + k]:
            (d / n).write_bytes(f"{t} of {k}\n".encode() * (k + 1))
            files[t] = {"name": n, "md5": hashlib.md5((d / n).read_bytes()).hexdigest()}
        (d / "sim_metadata.yaml").write_text(yaml.dump(meta(files=files, label=f"sim {k}")))
        (d / "leftover.txt").write_text("not part of the simulation")
        src.append(d)
    base = os.path.join(ctx.scratch, "arch")
    url = f"file://{base}/"
    ops = ["sim0", "sim1", "text dir", "ten", "remove last", "remove first", "stray file"]
    depth = ctx.pick(3, 4)
    ctx.bounds["transfers"] = depth

    def run(seq):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        t = today().isoformat()
        present, held = {}, {}
        for op in seq:
            ctx.transitions += 1
            if op.startswith("sim"):
                k = int(op[3:])
                before = tree(base)
                ok, r = ctx.must(pr.transfer_archive_dir, str(src[k]), url, what="transfer_archive_dir")
                if not ok:
                    return None
                if today().isoformat() != t:
                    return "again"
                n = max(present, default=0) + 1
                ctx.equal(r.geturl(), f"{url}{t}/{n}/", "the place of a transferred simulation")
                present[n] = k
                after = tree(base)
                new = {p: v for p, v in after.items() if p not in before}
                ctx.expect(all(after.get(p, 0) == v for p, v in before.items()), "a transfer changed what was there")
                want = {f"{t}/{n}/{f.name}": f.read_bytes() for f in src[k].iterdir() if f.name != "leftover.txt"}
                got = {p: v for p, v in new.items() if v is not None}
                ctx.equal(sorted(got), sorted(want), "the files transferred")
                ctx.expect(got == want, "a file differs after the transfer")
                names = [f.name for f in src[k].iterdir() if f.name not in ("leftover.txt", "sim_metadata.yaml")]
                for bad in (None, *names):
                    if bad is not None:
                        p = Path(base, t, str(n), bad)
                        c = p.read_bytes()
                        p.write_bytes(c[:-1] + b"?")
                    ok, v = ctx.must(pr.check_opsim_archive_resource, r.geturl(), what="check_opsim_archive_resource")
                    if ok:
                        ctx.equal(v, {x: x != bad for x in names}, "the files found valid", damaged=bad)
                    if bad is not None:
                        p.write_bytes(c)
            elif op == "text dir":
                Path(base, t, "notes").mkdir(parents=True, exist_ok=True)
                Path(base, t, "notes", "99").mkdir(exist_ok=True)
            elif op == "ten":
                Path(base, t, "10").mkdir(parents=True, exist_ok=True)
                present.setdefault(10, None)
            elif op == "stray file":
                Path(base, t).mkdir(parents=True, exist_ok=True)
                Path(base, t, "77").write_text("a file, not a simulation") if not Path(base, t, "77").exists() else None
            elif present:
                n = max(present) if op == "remove last" else min(present)
                shutil.rmtree(Path(base, t, str(n)))
                del present[n]
        ctx.state(sorted(present.items(), key=lambda x: x[0]))
        return present

    for n in range(1, depth + 1):
        for rest in itertools.product(ops, repeat=n - 1):
            seq = (first, *rest)
            if not any(o.startswith("sim") for o in seq[-1:]) or not ctx.case(seq):
                continue
            out = run(seq)
            if out == "again":
                out = run(seq)
            ctx.traces += 1
            ctx.outcome((seq, out))


# -------------------------------------------------------------- metadata
LABELS = {
    "label": (dict(label="my label"), "my label"),
    "dates": (dict(label=None), "of 2025-01-01 through 2025-01-02 with 4.6"),
    "one date": (dict(label=None, simulated_dates={"first": "2025-01-01", "last": "2025-01-01"}), "of 2025-01-01 with 4.6"),
    "no version": (dict(label=None, scheduler_version=None), "of 2025-01-01 through 2025-01-02"),
    "no dates": (dict(label=None, simulated_dates=None), "with 4.6"),
    "nothing": (dict(label=None, simulated_dates=None, scheduler_version=None), ""),
}


def window(ctx):
    steady()
    from rubin_sim.sim_archive import prototype as pr

    base = os.path.join(ctx.scratch, "win")
    url = f"file://{base}/"
    dates = ["2025-02-27", "2025-02-28", "2025-03-01", "2025-03-03"]
    for counts in itertools.product((0, 1, 2), repeat=len(dates)):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        want = {}
        for d, c in zip(dates, counts):
            for i in range(1, c + 1):
                m = meta(label=f"{d} {i}")
                put(base, d, i, m)
                want[f"{url}{d}/{i}/"] = dict(m, label=f"{d}/{i} {d} {i}")
        Path(base, "2025-02-28x").mkdir()
        for latest in ("2025-02-26", "2025-02-27", "2025-02-28", "2025-03-01", "2025-03-02", "2025-03-04", "2025-03-01T13:00:00"):
            for n in (None, 1, 2, 3, 5):
                if not ctx.case("window", counts, latest, n):
                    continue
                ok, r = ctx.must(pr.read_archived_sim_metadata, url, latest, *(() if n is None else (n,)), what="read_archived_sim_metadata")
                if not ok:
                    continue
                end = datetime.date.fromisoformat(latest[:10])
                start = end - datetime.timedelta(days=(5 if n is None else n) - 1)
                ctx.equal(r, {u: m for u, m in want.items() if start.isoformat() <= u.split("/")[-3] <= end.isoformat()}, "the simulations of the window")
                ctx.outcome((counts, sorted(r)), trivial=not r, sample=False)
    for (k, (over, text)), i in itertools.product(LABELS.items(), (1, 12)):
        if not ctx.case("label", k, i):
            continue
        shutil.rmtree(base, ignore_errors=True)
        put(base, "2025-02-28", i, meta(**over))
        ok, r = ctx.must(pr.read_archived_sim_metadata, url, "2025-02-28", what="read_archived_sim_metadata")
        if ok:
            ctx.equal([m["label"] for m in r.values()], [f"2025-02-28/{i} {text}".strip()], "the label of a simulation")
            ctx.outcome(text)
    # without a date, up to today
    for ago in range(0, 8):
        if ctx.case("today", ago):
            shutil.rmtree(base, ignore_errors=True)
            t = today()
            put(base, day(ago), 1, meta())
            ok, r = ctx.must(pr.read_archived_sim_metadata, url, what="read_archived_sim_metadata")
            if ok and today() == t:
                ctx.equal(len(r), int(ago < 5), "the simulations of the last five days")
                ctx.outcome(len(r))


KINDS = {
    "full": {},
    "no tags": dict(tags=None),
    "no kwargs": dict(sim_runner_kwargs=None),
    "two files": dict(files={"observations": {"name": "opsim.db", "md5": "1"}, "rewards": {"name": "r.h5", "md5": "2"}}, tags=["b", "a"]),
    "no telescope": dict(telescope=None, label=None),
    "other kwargs": dict(sim_runner_kwargs={"sim_duration": 3.5, "note": "x"}),
}


def compilation(ctx, first):
    """Histories of additions and compilations; reading with the compilation
    is the same as reading without."""
    steady()
    from rubin_sim.sim_archive import prototype as pr

    base = os.path.join(ctx.scratch, "comp")
    url = f"file://{base}/"
    comp = url + "c.h5"
    kinds = list(KINDS)
    ops = [("add", 0), ("add", 1), ("next", 0), ("compile", False), ("compile", True)]
    depth = ctx.pick(3, 4)
    ctx.bounds["operations"] = depth
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            # at least one simulation and one compilation, in which something can be
            if seq[0] == ("next", 0) or not any(o == "compile" for o, _ in seq) or not any(o == "add" for o, _ in seq):
                continue
            if not ctx.case(kinds[first], seq):
                continue
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            ago, count, k, good = 6, {}, first, True
            for op, a in seq:
                ctx.transitions += 1
                if op == "next":
                    ago -= 2
                elif op == "add":
                    i = count[ago] = count.get(ago, 0) + 1
                    put(base, day(ago), i, meta(**dict(KINDS[kinds[k % len(kinds)] if a else "full"])))
                    k += 1
                else:
                    ok, _ = ctx.must(pr.compile_sim_metadata, url, comp, 12, a, what="compile_sim_metadata")
                    good = good and ok
                    if ok:
                        ok, diff = ctx.must(pr.verify_compiled_sim_metadata, url, comp, 12, what="verify_compiled_sim_metadata")
                        if ok:
                            ctx.equal(diff, [], "a compilation differs from the archive")
            if not good:
                continue
            for nights in (1, 4, 10):
                ok, direct = ctx.must(pr.read_archived_sim_metadata, url, num_nights=nights, what="read_archived_sim_metadata")
                want = {u for a, c in count.items() if a < nights for u in [f"{url}{day(a)}/{i}/" for i in range(1, c + 1)]}
                if ok:
                    ctx.equal(sorted(direct), sorted(want), "the simulations read without a compilation")
                for verify in (False, True):
                    with quiet():
                        ok2, cached = ctx.must(pr.read_archived_sim_metadata, url, num_nights=nights, compilation_resource=comp, verify_compilation=verify, what="reading with a compilation")
                    if ok and ok2:
                        ctx.equal(cached, direct, "what is read with a compilation differs", nights=nights, verify=verify)
            ctx.state((seq, sorted(count.items())))
            ctx.traces += 1
            ctx.outcome(sorted(count.items()), trivial=not count, sample=False)


def verification(ctx):
    """Every difference between a compilation and the archive is reported."""
    steady()
    from rubin_sim.sim_archive import prototype as pr

    base = os.path.join(ctx.scratch, "ver")
    url = f"file://{base}/"
    comp = url + "c.h5"
    sims = [(d, i, k) for d, i in ((3, 1), (3, 2), (2, 1)) for k in KINDS]
    changes = ["tags", "label", "telescope", "files", "dates", "new key", "removed key", "removed sim", "new sim", "none"]
    for ka, kb, change, which in itertools.product(KINDS, ("full", "no tags"), changes, (0, 1)):
        if not ctx.case(ka, kb, change, which):
            continue
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        ms = [meta(**KINDS[ka]), meta(**KINDS[kb])]
        for i, m in enumerate(ms):
            put(base, day(3 - i), 1, m)
        if not ctx.must(pr.compile_sim_metadata, url, comp, 12, what="compile_sim_metadata")[0]:
            continue
        m = dict(ms[which])
        p = Path(base, day(3 - which), "1")
        u = f"{url}{day(3 - which)}/1/"
        expect = {u}
        if change == "tags":
            m["tags"] = ["zz"]
        elif change == "label":
            m["label"] = "another"
        elif change == "telescope":
            m["telescope"] = "auxtel"
        elif change == "files":
            m["files"] = {"observations": {"name": "opsim.db", "md5": "f" * 32}}
        elif change == "dates":
            m["simulated_dates"] = {"first": "2025-01-01", "last": "2025-01-09"}
        elif change == "new key":
            m["extra"] = "x"
        elif change == "removed key":
            del m["host"]
        elif change == "none":
            expect = set()
        if change == "removed sim":
            shutil.rmtree(p)
        elif change == "new sim":
            put(base, day(3 - which), 2, meta())
            expect = {f"{url}{day(3 - which)}/2/"}
        else:
            (p / "sim_metadata.yaml").write_text(yaml.dump(m))
        ok, d = ctx.must(pr.verify_compiled_sim_metadata, url, comp, 12, what="verify_compiled_sim_metadata")
        if ok:
            ctx.equal(sorted({x["sim_uri"] for x in d}), sorted(expect), "the simulations reported as different")
            ctx.outcome((change, len(d)), trivial=change == "none")
    # what cannot be held by the table format (KNOWN_FINDINGS)
    if ctx.case("flag of some simulations"):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        put(base, day(3), 1, meta(sim_runner_kwargs={"record_rewards": True}))
        put(base, day(2), 1, meta(sim_runner_kwargs={"sim_duration": 1.0}))
        if ctx.must(pr.compile_sim_metadata, url, comp, 12, what="compile_sim_metadata")[0]:
            ok, d = ctx.must(pr.verify_compiled_sim_metadata, url, comp, 12, what="verify_compiled_sim_metadata")
            ctx.expect(ok and d == [], "a compilation differs from the archive")


# -------------------------------------------------------------- the latest
TAGSETS = [None, ["ideal"], ["ideal", "nominal"], ["nominal", "x", "ideal"]]


def latest(ctx, part):
    steady()
    from rubin_sim.sim_archive import prototype as pr

    base = os.path.join(ctx.scratch, "latest")
    url = f"file://{base}/"
    comp = url + "c.h5"
    d = ["2025-02-28", "2025-03-01", "2025-03-02"]
    # (days ago, index, first, last, telescope, tags)
    pool = [
        (0, 1, 0, 0, "simonyi", 2), (0, 2, 1, 2, "simonyi", 2), (0, 10, 0, 2, "auxtel", 2), (0, 9, 0, 1, "simonyi", 3),
        (1, 1, 0, 2, "simonyi", 2), (1, 11, 0, 2, "Simonyi", 3), (1, 3, 0, 1, None, 2), (2, 4, 0, 2, "simonyi", 2),
        (0, 3, 0, 2, "simonyi", 1), (0, 4, 0, 2, "simonyi", 0), (3, 50, 1, 1, "simonyi", 2),
    ]
    size = ctx.pick(3, 4)
    ctx.bounds["simulations"] = size
    combos = [c for n in range(size + 1) for c in itertools.combinations(range(len(pool)), n)]
    for ci, c in enumerate(combos):
        if ci % 6 != part:
            continue
        t = today()
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        for x in c:
            ago, i, f, l, tel, tg = pool[x]
            put(base, day(ago), i, meta(simulated_dates={"first": d[f], "last": d[l]}, telescope=tel, tags=TAGSETS[tg], files={"observations": {"name": f"o{x}.db", "md5": "0"}}))
        if part == 5 and c and (ctx.thorough or len(c) < 3):
            pr.compile_sim_metadata(url, comp, 12)
        for (fi, li), tags, tel, age in itertools.product(((0, None), (0, 1), (1, 2), (2, None)), (None, ("ideal",), ()), (None, "AuxTel"), (None, 1, 4)):
            if sum([tags is not None, tel is not None, age is not None]) > ctx.pick(2, 3):
                continue
            if not ctx.case(c, fi, li, tags, tel, age):
                continue
            kw = dict(archive_uri=url, compilation_uri=comp)
            if tags is not None:
                kw["tags"] = tags
            if tel is not None:
                kw["telescope"] = tel
            if age is not None:
                kw["max_simulation_age"] = age
            ok, r = ctx.must(pr.find_latest_prenight_sim_for_nights, d[fi], *(() if li is None else (d[li],)), what="find_latest_prenight_sim_for_nights", **kw)
            if not ok or today() != t:
                continue
            last = fi if li is None else li
            cand = []
            for x in c:
                ago, i, f, l, st, tg = pool[x]
                if ago < (2 if age is None else age) and f <= fi and l >= last and (st is None or st.lower() == (tel or "simonyi").lower()) and set(("ideal", "nominal") if tags is None else tags) <= set(TAGSETS[tg] or []):
                    cand.append((-ago, i, x))
            if not cand:
                ctx.expect(r is None, "a simulation that does not match was found", got=None if r is None else r.get("uri"))
                ctx.outcome(None, trivial=True)
                continue
            if not ctx.expect(r is not None, "a simulation that matches was not found", want=max(cand)):
                continue
            ago, i, x = max(cand)
            ctx.equal((r["uri"], r["opsim_rp"].geturl()), (f"{url}{day(-ago)}/{i}/", f"{url}{day(-ago)}/{i}/o{x}.db"), "the latest simulation")
            ctx.outcome(x, sample=False)


def fetch(ctx):
    steady()
    from lsst.resources import ResourcePath

    from rubin_sim import maf
    from rubin_sim.sim_archive import prototype as pr

    base = os.path.join(ctx.scratch, "fetch")
    url = f"file://{base}/"
    # nights 2025-02-28 to 03-02, with visits around the boundaries
    mjd0 = 60734  # 2025-02-28
    offs = [0.45, 0.55, 0.9, 1.1, 1.45, 1.55, 2.2, 2.9, 3.45, 3.55]
    days = ["2025-02-27", "2025-02-28", "2025-03-01", "2025-03-02", "2025-03-03"]
    night = [int(np.floor(o - 0.5)) + 1 for o in offs]
    shutil.rmtree(base, ignore_errors=True)
    for k in (1, 2):
        p = put(base, day(0), k, meta(simulated_dates={"first": days[0], "last": days[4]}, tags=["ideal", "nominal"]))
        with contextlib.closing(sqlite3.connect(p / "opsim.db")) as c:
            c.execute("create table observations (observationId integer, observationStartMJD real, band text)")
            c.executemany("insert into observations values (?,?,?)", [(100 * k + i, mjd0 + o, "rg"[i % 2]) for i, o in enumerate(offs)])
            c.commit()
    dbs = {k: f"{url}{day(0)}/{k}/opsim.db" for k in (1, 2)}
    ways = {"str": (dbs[1], 1), "rp": (ResourcePath(dbs[2]), 2), "dict": (dict(archive_uri=url, compilation_uri=url + "none.h5"), 2)}
    extra = {
        "none": None,
        "empty": {},
        "cols": dict(dbcols=["observationId", "observationStartMJD"]),
        "constraint": dict(sqlconstraint="band = 'r'"),
        "stacker": dict(stackers=[maf.DayObsISOStacker()]),
        "other": dict(stackers=[maf.ObservationStartTimestampStacker()]),
    }
    for a, b in itertools.combinations_with_replacement(range(5), 2):
        for w, e, e2 in itertools.product(ways, extra, (None, *extra)):
            if e2 is not None and (w != "str" or a == b):
                continue
            if not ctx.case("fetch", a, b, w, e, e2):
                continue
            seq = (e, e) if e2 is None else (e, e2)
            for x in seq:
                kw = extra[x]
                keep = None if kw is None else {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
                ok, r = ctx.must(pr.fetch_sim_for_nights, days[a], *(() if a == b else (days[b],)), which_sim=ways[w][0], get_sim_data_kwargs=kw, what="fetch_sim_for_nights")
                if not ok:
                    continue
                ctx.expect(kw == keep, "the arguments of the caller were changed", got=repr(kw)[:200])
                ids = [100 * ways[w][1] + i for i in range(len(offs)) if a <= night[i] <= b and (x != "constraint" or i % 2 == 0)]
                ctx.equal([int(v) for v in r["observationId"]], ids, "the visits of the nights")
                ctx.equal("day_obs_iso8601" in r.columns, x == "stacker", "a column nobody asked for, or one that is missing")
                if x == "cols":
                    ctx.equal(sorted(r.columns), ["observationId", "observationStartMJD"], "the columns")
                if x == "stacker":
                    ctx.equal(list(r["day_obs_iso8601"]), [days[night[i % 100]] for i in ids], "the nights of the visits")
                ctx.outcome(ids, trivial=not ids, sample=False)


# -------------------------------------------------------------- import, export
PROTO = {
    "plain": (dict(), "{date}T12:00:0{i}+00:00"),
    "run at": (dict(label="Nominal run at 2025-01-03T04:05:06"), "2025-01-03T04:05:06"),
    "run at zone": (dict(label="Nominal run at 2025-01-03T04:05:06+00:00"), "2025-01-03T04:05:06+00:00"),
    "run at text": (dict(label="Nominal run at night"), "{date}T12:00:0{i}+00:00"),
    "at the start": (dict(label="run at 2025-01-03 of something"), "{date}T12:00:0{i}+00:00"),
    "given": (dict(label="Nominal run at 2025-01-03T04:05:06", creation_time="2025-01-02T01:02:03+00:00"), "2025-01-02T01:02:03+00:00"),
}


def proto_yaml(ctx):
    from rubin_sim.sim_archive.vseqmetadata import metadata_yaml_from_prototype as f

    base = os.path.join(ctx.scratch, "py")
    url = f"file://{base}/"
    shutil.rmtree(base, ignore_errors=True)
    for (k, (over, ct)), i, d, how in itertools.product(PROTO.items(), (1, 7), ("2025-02-28", "2025-03-01"), ("str", "date")):
        if not ctx.case(k, i, d, how):
            continue
        shutil.rmtree(base, ignore_errors=True)
        files = {"observations": {"name": "opsim.db", "md5": "0"}, "kept": {"name": "x", "url": "s3://b/x"}}
        m = meta(files=files, **over)
        put(base, d, i, m)
        put(base, d, 9, meta(label="another"))
        ok, y = ctx.must(f, d if how == "str" else datetime.date.fromisoformat(d), i if how == "str" else str(i), url, what="metadata_yaml_from_prototype")
        if not ok:
            continue
        want = dict(m, creation_time=ct.format(date=d, i=i))
        want["files"] = {"observations": dict(files["observations"], url=f"{url}{d}/{i}/opsim.db"), "kept": files["kept"]}
        ctx.equal(yaml.safe_load(y), want, "the metadata of a prototype simulation")
        ctx.outcome(y)
    for k in ("no date", "no index", "no metadata", "no label"):
        if ctx.case(k):
            shutil.rmtree(base, ignore_errors=True)
            p = put(base, "2025-02-28", 1, meta(label=None if k == "no label" else "l"))
            if k == "no metadata":
                os.remove(p / "sim_metadata.yaml")
            ctx.raises(ValueError, f, "2025-02-27" if k == "no date" else "2025-02-28", 2 if k == "no index" else 1, url, what="a simulation that is not there")
            ctx.outcome(k)


def trip(ctx):
    """Prototype to database and back."""
    steady()
    from astropy.time import Time
    from lsst.resources import ResourcePath

    from rubin_sim.sim_archive import prototype as pr
    from rubin_sim.sim_archive import vseqarchive as va
    from rubin_sim.sim_archive.vseqmetadata import compute_visits_sha256

    proto = os.path.join(ctx.scratch, "proto")
    arch = os.path.join(ctx.scratch, "varch")
    purl, aurl = f"file://{proto}/", f"file://{arch}/"
    visits = pd.DataFrame({"observationId": [1, 2, 3], "observationStartMJD": [60734.9, 60735.2, 60735.6], "band": ["r", "g", "i"], "altitude": [40.0, 50.0, 60.0], "azimuth": [1.0, 2.0, 3.0]})

    def read_db(path):
        with contextlib.closing(sqlite3.connect(path)) as c:
            return pd.read_sql("select * from observations", c)

    with pg.server(ctx) as s:
        v = s.handle()
        v.create_schema_in_database()
        v.md = v
        # from the prototype archive into the database, and out again
        for tags, tel, dates, rewards, label, n in itertools.product(([], ["a"], ["b", "a", "c d"]), ("simonyi", "auxtel"), ((0, 0), (0, 2)), (False, True), ("l", "it's % é run at 2025-01-03T04:05:06+00:00"), (3, 1)):
            if not ctx.case("in", tags, tel, dates, rewards, label, n):
                continue
            s.reset()
            for d in (proto, arch):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
            m = meta(label=label, tags=tags or None, telescope=tel, simulated_dates={"first": f"2025-02-2{6 + dates[0]}", "last": f"2025-02-2{6 + dates[1]}"})
            m["files"] = {"observations": {"name": "opsim.db", "md5": "0"}}
            p = put(proto, "2025-02-25", 4, m)
            with contextlib.closing(sqlite3.connect(p / "opsim.db")) as c:
                visits.iloc[:n].to_sql("observations", c, index=False)
            if rewards:
                (p / "rewards.h5").write_bytes(b"rewards")
                m["files"]["rewards"] = {"name": "rewards.h5", "md5": "1"}
                (p / "sim_metadata.yaml").write_text(yaml.dump(m))
            before = tree(proto)
            ok, u = ctx.must(v.import_sim_from_prototype_sim_archive, aurl, "2025-02-25", 4, purl, what="import_sim_from_prototype_sim_archive")
            if not ok:
                continue
            ctx.expect(tree(proto) == before, "an import changed the archive it reads")
            ctx.traces += 1
            g = v.get_visitseq_metadata(u, "simulations_extra")
            ct = "2025-01-03T04:05:06" if "run at" in label else "2025-02-25T12:00:04"
            ctx.equal(
                (g["visitseq_label"], g["telescope"], sorted(g["tags"]), str(g["first_day_obs"])[:10], str(g["last_day_obs"])[:10], pd.Timestamp(g["creation_time"]).tz_convert("UTC").isoformat()[:19], g["scheduler_version"]),
                (label, tel, sorted([*tags, "from_prototype_sim_archive"]), m["simulated_dates"]["first"], m["simulated_dates"]["last"], ct, "4.6"),
                "the metadata imported",
            )
            ctx.expect(bytes(s.rows("SELECT visitseq_sha256 FROM simulations WHERE visitseq_uuid=%s", (str(u),))[0][0]) == compute_visits_sha256(read_for_hash(p / "opsim.db")), "the hash is of other visits")
            com = s.rows("SELECT comment FROM comments")
            ctx.expect(len(com) == 1 and "2025-02-25" in com[0][0] and "4" in com[0][0], "where it was imported from", got=com)
            fs = {r[0]: r[1] for r in s.rows("SELECT file_type, file_url FROM files WHERE visitseq_uuid=%s", (str(u),))}
            ctx.equal({k: x for k, x in fs.items() if k != "visits"}, {k: f"{purl}2025-02-25/4/{x['name']}" for k, x in m["files"].items()}, "the files of the simulation")
            h = v.get_visitseq_url(u)
            ok, back = ctx.must(pd.read_hdf, ResourcePath(h).ospath, "observations", what="reading the imported visits")
            if ok:
                ctx.equal(back.to_dict("list"), visits.iloc[:n].to_dict("list"), "the visits imported")
            # out again, as a new simulation of today
            ok, r = ctx.must(pr.export_sim_to_prototype_sim_archive, v, u, purl, what="export_sim_to_prototype_sim_archive")
            if not ok:
                continue
            ctx.expect(all(tree(proto).get(k, 0) == x for k, x in before.items()), "an export changed another simulation")
            y = yaml.safe_load((Path(r.ospath) / "sim_metadata.yaml").read_text())
            ctx.equal((y["label"], y["telescope"], sorted(y["tags"]), str(y["simulated_dates"]["first"]), str(y["simulated_dates"]["last"]), y["uuid"]), (label, tel, sorted([*tags, "from_prototype_sim_archive"]), m["simulated_dates"]["first"], m["simulated_dates"]["last"], str(u)), "the metadata exported")
            for k in m["files"]:
                ctx.expect(Path(r.ospath, y["files"][k]["name"]).read_bytes() == Path(p, m["files"][k]["name"]).read_bytes(), "a file exported differs", file=k)
                ctx.equal(y["files"][k]["url"], r.join(y["files"][k]["name"]).geturl(), "the place of a file exported")
            ctx.equal(read_db(Path(r.ospath, y["files"]["observations"]["name"])).to_dict("list"), visits.iloc[:n].to_dict("list"), "the visits exported")
            ctx.outcome((tags, tel, n), sample=False)
        # a simulation of the database that never was in the prototype archive
        for tags, files, n in itertools.product(([], ["a", "b"]), ((), ("x",), ("x", "y")), (1, 3)):
            if not ctx.case("out", tags, files, n):
                continue
            s.reset()
            for d in (proto, arch):
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
            w = visits.iloc[:n]
            u = v.record_simulation_metadata(w, "from db", first_day_obs="2025-02-26", last_day_obs="2025-02-28", creation_time=Time("2025-02-25T01:00:00"))
            if tags:
                v.tag(u, *tags)
            hf = os.path.join(ctx.scratch, "v.h5")
            w.to_hdf(hf, key="observations", mode="w")
            va.add_file(v, u, hf, "visits", aurl)
            for t in files:
                fn = os.path.join(ctx.scratch, f"{t}.bin")
                Path(fn).write_bytes(t.encode() * 5)
                va.add_file(v, u, fn, t, aurl)
            ok, r = ctx.must(pr.export_sim_to_prototype_sim_archive, v, u, purl, what="export_sim_to_prototype_sim_archive")
            if not ok:
                continue
            y = yaml.safe_load((Path(r.ospath) / "sim_metadata.yaml").read_text())
            got = read_db(Path(r.ospath, y["files"]["observations"]["name"]))
            ctx.equal(got.to_dict("list"), w.to_dict("list"), "the visits exported")
            for t in files:
                ctx.expect(ResourcePath(y["files"][t]["url"]).read() == t.encode() * 5, "a file exported differs", file=t)
            idx, d = int(r.geturl().split("/")[-2]), r.geturl().split("/")[-3]
            ok, u2 = ctx.must(v.import_sim_from_prototype_sim_archive, aurl, d, idx, purl, what="importing what was exported")
            if ok:
                g = v.get_visitseq_metadata(u2, "simulations_extra")
                ctx.equal((g["visitseq_label"], sorted(g["tags"]), str(g["first_day_obs"])[:10], str(g["last_day_obs"])[:10], pd.Timestamp(g["creation_time"]).tz_convert("UTC").isoformat()[:19]), ("from db", sorted([*tags, "from_prototype_sim_archive"]), "2025-02-26", "2025-02-28", "2025-02-25T01:00:00"), "the metadata after the round trip")
                ctx.expect(u2 != u, "an import is the simulation it was exported from")
                ctx.outcome((tags, files, n))
        pg.close(v)


def read_for_hash(path):
    with contextlib.closing(sqlite3.connect(path)) as c:
        f = pd.read_sql("select * from observations", c)
    h = str(path) + ".tmp.h5"
    f.to_hdf(h, key="observations")
    g = pd.read_hdf(h, "observations")
    os.remove(h)
    return g


def cli(ctx):
    from rubin_sim.sim_archive import prototype as pr
    from mc.props.a05 import obs_array
    from rubin_scheduler.scheduler.utils import SchemaConverter

    os.environ["USER"] = "someone"
    base = os.path.join(ctx.scratch, "cli")
    url = f"file://{base}/"
    src = {k: os.path.join(ctx.scratch, n) for k, n in (("scheduler", "s.p"), ("script", "run.py"), ("notebook", "n.ipynb"))}
    for k, f in src.items():
        Path(f).write_text(k)
    op = os.path.join(ctx.scratch, "in.db")
    if os.path.exists(op):
        os.remove(op)
    SchemaConverter().obs2opsim(obs_array([61000.9, 61001.6]), filename=op)
    rw = os.path.join(ctx.scratch, "rw.h5")
    pd.DataFrame({"v": [1.0]}).to_hdf(rw, key="reward_df", mode="w")
    for given, tags, tel, rewards in itertools.product([c for n in range(4) for c in itertools.combinations(src, n)], ([], ["a", "b"]), (None, "auxtel"), (False, True)):
        if not ctx.case(given, tags, tel, rewards):
            continue
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        args = ["my label", op, "--archive_base_uri", url]
        for k in given:
            args += [f"--{k}", src[k]]
        if tel:
            args += ["--telescope", tel]
        if rewards:
            args += ["--rewards", rw]
        if tags:
            args += ["--tags", *tags]
        ok, r = ctx.must(pr.make_sim_archive_cli, *args, what="make_sim_archive_cli")
        if not ok:
            continue
        y = yaml.safe_load(Path(r.ospath, "sim_metadata.yaml").read_text())
        ctx.equal((y["label"], y.get("tags") or [], y["telescope"], y["simulated_dates"]), ("my label", tags, tel or "simonyi", {"first": "2025-11-21", "last": "2025-11-22"}), "the metadata of the simulation")
        ctx.equal(sorted(y["files"]), sorted(["observations", "statistics", *given] + ["rewards"] * rewards), "the files of the simulation")
        for k in given:
            ctx.equal(Path(r.ospath, y["files"].get(k, {}).get("name", "nosuch")).read_text() if k in y["files"] else None, k, "the content of a file", file=k)
        ctx.expect(all(pr.check_opsim_archive_resource(r.geturl()).values()), "a file does not match its checksum")
        ctx.outcome((given, tags))
        if tags or tel or len(given) == 1:
            # (a scan of ten thousand nights)
            continue
        comp = url + "compiled_metadata_cache.h5"
        ok, _ = ctx.must(pr.compile_sim_archive_metadata_cli, "--archive_base_uri", url, what="compile_sim_archive_metadata_cli")
        if ok:
            ctx.equal(pr.verify_compiled_sim_metadata(url, comp), [], "the compilation differs from the archive")


OPS0 = ["sim0", "sim1", "text dir", "ten", "stray file"]
UNITS = [
    *[Unit(f"transfer-{o.replace(' ', '')}", transfer, first=o) for o in OPS0],
    Unit("window", window),
    *[Unit(f"compilation-{i}", compilation, first=i) for i in range(len(KINDS))],
    Unit("verification", verification),
    *[Unit(f"latest-{i}", latest, part=i) for i in range(6)],
    Unit("fetch", fetch),
    Unit("proto-yaml", proto_yaml),
    Unit("trip", trip),
    Unit("cli", cli),
]
