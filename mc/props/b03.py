"""B03: the commands that process simulations leave the results of the simulations they are given."""
import contextlib
import inspect
import io
import itertools
import os
import shlex
import shutil
import sqlite3
import sys
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np

from mc.core import Unit
from mc.props.b01 import mkdb, rows
from mc.props.b02 import db_rows, load, values
from mc.props.m12 import obs_table
from mc.props.o03 import data_dir

import rubin_sim.maf.batches as B
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as m
from rubin_sim.maf.slicers import UniSlicer

PROPERTY = "B03"
LEVEL = "model_checking"
RULE = (
    "all reachable states of a working directory (simulations present and replaced, output directories, tracking database) under every "
    "command, compared with a model; every generated solar-system script executed and compared with the direct result; "
    "non-trivial = the step runs a command on at least one simulation"
)
ASSUMPTIONS = ["the metrics of the batches are replaced by small ones; the commands themselves run unchanged"]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


@contextlib.contextmanager
def at(path, *args):
    old, cwd = sys.argv, os.getcwd()
    sys.argv = ["prog"] + [str(x) for x in args]
    os.chdir(path)
    try:
        yield
    finally:
        sys.argv = old
        os.chdir(cwd)


def cli(path, fn, *args):
    with at(path, *args):
        try:
            return quiet(fn)
        except SystemExit as e:
            if e.code not in (None, 0):
                raise RuntimeError(f"the command refused its arguments: {args}") from None


@contextlib.contextmanager
def patched(*triples):
    saved = []
    for o, n, v in triples:
        saved.append((o, n, getattr(o, n)))
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)


# ------------------------------------------------------------------ directories of simulations
COMMANDS = {
    # command: module, batch functions, suffix, tracked, no_clobber, other options
    "glance": ("glance_dir", ["glanceBatch"], "_glance", True, False, [[]]),
    "ddf": ("ddf_dir", ["ddfBatch"], "_ddf", True, False, [[], ["--nside", 8, "--old_coords"]]),
    "sci": ("scimaf_dir", ["science_radar_batch", "radar_limited"], "_sci", True, True, [[], ["--limited"]]),
    "meta": ("metadata_dir", ["info_bundle_dicts"], "_meta", False, True, [[]]),
}
NV = {"A1": 3, "A2": 5, "B1": 4}
SIM = {"A": "base_v4.1", "B": "base_v4.0_bd"}
LETTER = {v: k for k, v in SIM.items()}


def small(run, label=""):
    b = mb.MetricBundle(m.CountMetric("observationStartMJD", metric_name="count" + label), UniSlicer(), "", run_name=run, summary_metrics=[m.IdentityMetric()])
    return {"c": b}


def u_dirs(ctx, command):
    import importlib

    mod_name, fns, suffix, tracked, nc, options = COMMANDS[command]
    mod = importlib.import_module("rubin_sim.maf." + mod_name)
    main = getattr(mod, mod_name)
    calls = []

    def batch(which):
        def fn(*a, **k):
            k = signatures[which].bind(*a, **k).arguments
            run = k.get("run_name", k.get("runName", k.get("opsim")))
            calls.append((which, run, {q: x for q, x in k.items() if q in ("nside", "old_coords", "mjd0")}))
            return small(run, "-limited" if "limited" in which else "")

        return fn

    signatures = {f: inspect.signature(getattr(B, f)) for f in fns}
    trip = [(B, f, batch(f)) for f in fns]
    trip += [(mod, f, batch(f)) for f in fns if hasattr(mod, f)]
    if command == "meta":
        trip.append((mod, "make_wfd_subset_slicer", lambda **k: None))

    ops = ["A1", "A2", "B1", "old", "run", "run-A", "run-B"] + (["keep", "keep-A"] if nc else []) + (["run+"] if len(options) > 1 else [])
    ctx.bounds = {"simulations": 2, "versions of a simulation": 2, "operations": len(ops)}
    # model state: (content of A, content of B, outputs ((sim, content, stale, label)...))
    start = (None, None, (), ())
    d0 = os.path.join(ctx.scratch, "s0")
    os.makedirs(d0)
    seen, todo, n = {start: d0}, [start], 0
    depth = {start: 0}
    limit = ctx.pick(4, 6)
    while todo:
        st = todo.pop(0)
        if depth[st] >= limit:
            continue
        for op in ops:
            a, b, outs, track = st
            outs_d = {o[0]: o for o in outs}
            if op in ("A1", "A2"):
                new = (op, b, outs, track)
                if a == op:
                    continue
            elif op == "B1":
                new = (a, op, outs, track)
                if b == op:
                    continue
            elif op == "old":
                if SIM["A"] not in outs_d or outs_d[SIM["A"]][2]:
                    continue
                o = outs_d[SIM["A"]]
                outs_d[SIM["A"]] = (o[0], o[1], True, o[3])
                new = (a, b, tuple(sorted(outs_d.values())), track)
            else:
                sims = {SIM["A"]: a, SIM["B"]: b}
                which = [s for s in sims if sims[s] and (len(op.split("-")) == 1 or LETTER[s] == op[-1])]
                if len(op.split("-")) > 1 and not which:
                    continue
                tr = dict(track)
                label = "-limited" if op == "run+" and command == "sci" else ""
                for s in which:
                    stale = bool(op.startswith("keep") and s in outs_d and outs_d[s][2])
                    labels = {label}
                    if op.startswith("keep") and s in outs_d:
                        labels |= set(outs_d[s][3])
                    # kept results of the other batch were of the content of that time
                    if op.startswith("keep") and s in outs_d and label not in outs_d[s][3] and outs_d[s][1] != sims[s]:
                        labels = None
                        break
                    if op.startswith("keep") and s in outs_d and len(labels) > 1 and outs_d[s][1] != sims[s]:
                        labels = None
                        break
                    outs_d[s] = (s, sims[s], stale, tuple(sorted(labels)))
                    if tracked:
                        tr[s] = s + suffix
                if which and labels is None:
                    continue
                new = (a, b, tuple(sorted(outs_d.values())), tuple(sorted(tr.items())))
            if not ctx.case(command, list(map(str, st)), op):
                continue
            n += 1
            d = os.path.join(ctx.scratch, f"w{n}")
            shutil.copytree(seen[st], d)
            ctx.transitions += 1
            del calls[:]
            if op in NV:
                mkdb(rows([("r", 1, "x")] * NV[op]).assign(observationStartMJD=61000.5 + np.arange(NV[op]) + (10 if op == "A2" else 0)), os.path.join(d, SIM[op[0]] + ".db"))
                ctx.outcome("write", trivial=True)
            elif op == "old":
                with open(os.path.join(d, SIM["A"] + suffix, "old_result.npz"), "w") as f:
                    f.write("x")
                ctx.outcome("old", trivial=True)
            else:
                args = list(options[-1]) if op == "run+" else []
                if op.startswith("keep"):
                    args.append("--no_clobber")
                if "-" in op:
                    args += ["--db", SIM[op[-1]] + ".db"]
                with patched(*trip):
                    ok, _ = ctx.must(cli, d, main, *args, what=f"{mod_name} {args}")
                if not ok:
                    return
                ctx.outcome((op, len(which)), trivial=not which)
                ctx.expect(sorted(c[1] for c in calls) == sorted(which), "simulations processed", got=calls, want=which)
                want_fn = fns[-1] if label else fns[0]
                ctx.expect(all(c[0] == want_fn for c in calls), "batch of the command", got=calls, want=want_fn)
                for c in calls:
                    if command == "ddf" and op == "run+":
                        ctx.expect(c[2].get("nside") == 8 and c[2].get("old_coords") is True, "options of the command", got=c)
                    if command == "sci":
                        ctx.expect(c[2].get("mjd0") == 61000.5 + (10 if new[0 if c[1] == SIM["A"] else 1] == "A2" else 0), "start of the simulation", got=c)
            check_dir(ctx, d, new, suffix)
            if new not in seen:
                seen[new] = d
                depth[new] = depth[st] + 1
                ctx.state(new)
                todo.append(new)
            else:
                shutil.rmtree(d)


def check_dir(ctx, d, st, suffix):
    a, b, outs, track = st
    have = sorted(f for f in os.listdir(d))
    want = [SIM[x[0]] + ".db" for x in (a, b) if x] + [o[0] + suffix for o in outs] + (["trackingDb_sqlite.db"] if track else [])
    # a tracking database may be made empty
    ctx.expect(sorted(x for x in have if not (x == "trackingDb_sqlite.db" and not track)) == sorted(want), "files of the working directory", got=have, want=sorted(want))
    for x in (a, b):
        if x:
            with contextlib.closing(sqlite3.connect(os.path.join(d, SIM[x[0]] + ".db"))) as c:
                ctx.equal(c.execute("select count(*) from observations").fetchone()[0], NV[x], "the simulation after the command")
    for sim, content, stale, labels in outs:
        o = os.path.join(d, sim + suffix)
        if not os.path.isdir(o):
            continue
        files = sorted(f for f in os.listdir(o) if f.endswith(".npz"))
        ctx.expect(("old_result.npz" in files) == stale, "an earlier result in the output directory", got=files, kept=stale)
        f = os.path.join(o, "resultsDb_sqlite.db")
        if os.path.exists(f):
            with contextlib.closing(sqlite3.connect(f)) as c:
                r = c.execute(
                    "select m.metric_name, m.run_name, s.summary_value from summarystats s join metrics m on m.metric_id = s.metric_id order by s.stat_id"
                ).fetchall()
            ctx.equal(sorted({q[0] for q in r}), sorted("count" + x for x in labels), f"metrics in the results of {sim}")
            ctx.expect({q[1] for q in r} == {sim}, "name of the run in the results", got=r)
            for x in labels:
                last = [q[2] for q in r if q[0] == "count" + x][-1:]
                ctx.equal(last, [float(NV[content])], f"visits of {sim} in the results")
        else:
            ctx.fail("no results database", got=sorted(os.listdir(o)))
    if track:
        with contextlib.closing(sqlite3.connect(os.path.join(d, "trackingDb_sqlite.db"))) as c:
            r = sorted(c.execute("select run_name, maf_dir, db_file from runs").fetchall())
        ctx.equal([tuple(x) for x in r], [(s, mdir, s + ".db") for s, mdir in track], "runs in the tracking database")


# ------------------------------------------------------------------ solar system scripts
def write_orbits(path, ids, hmag=20.0):
    with open(path, "w") as f:
        f.write("obj_id a e inc node argPeri meanAnomaly epoch H g\n")
        for i in ids:
            f.write(f"{i} {2.0 + i} 0.1 5.0 10.0 20.0 {30.0 + i} 60000.0 {hmag} 0.15\n")


POPS = ["granvik_5k", "granvik_pha_5k", "vatiras_granvik_10k", "l7_5k", "mba_5k", "occ_rmax5_5k", "occ_rmax20_5k", "trojan_5k"]
OBJTYPE = dict(zip(POPS, ["NEO", "PHA", "Vatira", "TNO", "MBA", "OCC_r5", "OCC_r20", "Trojan"]))
NOBJ = {p: 12 + i for i, p in enumerate(POPS)}


def ss_data(ctx):
    d = os.path.join(ctx.scratch, "data")
    os.makedirs(os.path.join(d, "orbits", "split"))
    os.makedirs(os.path.join(d, "orbits_precompute"))
    for p in POPS:
        ids = list(range(NOBJ[p]))
        write_orbits(os.path.join(d, "orbits", p + ".txt"), ids)
        for s in range(10):
            write_orbits(os.path.join(d, "orbits", "split", f"{p}_{s}.txt"), ids[s::10])
        np.savez(os.path.join(d, "orbits_precompute", p + ".npz"), positions=np.array(ids, float), mjds=np.arange(3.0))
    os.environ["RUBIN_SIM_DATA_DIR"] = d
    return d


def seen_by(obj, obs_id):
    """Whether object is in the field of a visit."""
    return (obj * 7 + obs_id * 3) % 5 < 2


class FakeObs:
    """Stands for DirectObs: which objects are in which visits is a rule, and positions are by index."""

    def __init__(self, **k):
        self.info = k.get("obs_info")

    def read_filters(self, **k):
        pass

    def calc_colors(self, *a):
        pass

    def run(self, orbits, obs_data, object_positions=None, object_mjds=None):
        ids, mjd, night = [], [], []
        for i, o in enumerate(orbits.orbits["obj_id"]):
            where = o if object_positions is None else int(object_positions[i])
            for r in obs_data:
                if seen_by(where, int(r["observationId"])) and where == o:
                    ids.append(int(o))
                    mjd.append(r["observationStartMJD"])
                    night.append(int(r["night"]))
        if not ids:
            return obs_table([-1], [0], np.array([20.0]))[:0]
        t = obs_table(ids, night, np.full(len(ids), 20.0), "gr")
        t["observationStartMJD"] = mjd
        return t


class FirstTime(m.BaseMoMetric):
    def run(self, sso_obs, orb, hval):
        vis = sso_obs["observationStartMJD"][sso_obs["SNR"] >= 5]
        return self.badval if len(vis) == 0 else float(vis.min())


def ss_batches():
    def one(metric, slicer, **k):
        return mb.MoMetricBundle(
            metric, slicer, k.get("constraint"), run_name=k.get("run_name"), info_label=(k.get("objtype") + " " + k.get("detection_losses", "")).strip(), plot_dict={"h_mark": k.get("h_mark")}, display_dict={"group": k.get("objtype")}
        )

    def quick(slicer, **k):
        return {"t": one(FirstTime(metric_name="DiscoveryTime"), slicer, **k), "n": one(m.NObsMetric(snr_limit=5, metric_name="DiscoveryNChances"), slicer, **k)}

    def full(slicer, **k):
        return {"m": one(m.NObsMetric(snr_limit=5, metric_name="MagicDiscovery"), slicer, **k)}

    def char(slicer, **k):
        return {"c": one(m.NObsMetric(snr_limit=5, metric_name="ColorAsteroid"), slicer, **k)}

    none = lambda *a, **k: None
    return [(B, "quick_discovery_batch", quick), (B, "discovery_batch", full), (B, "characterization_inner_batch", char), (B, "characterization_outer_batch", char)] + [
        (B, n, none) for n in ("plot_completeness", "plot_fractions", "plot_single", "plot_activity")
    ]


def shell(path, line):
    """Run a line of a generated script with the real commands."""
    from rubin_sim.maf.run_moving_calc import run_moving_calc
    from rubin_sim.maf.run_moving_fractions import run_moving_fractions
    from rubin_sim.maf.run_moving_join import run_moving_join
    from rubin_sim.moving_objects.make_lsst_obs import make_lsst_obs

    cmds = dict(make_lsst_obs=make_lsst_obs, run_moving_calc=run_moving_calc, run_moving_join=run_moving_join, run_moving_fractions=run_moving_fractions)
    for part in line.split(";"):
        w = shlex.split(part)
        if not w:
            continue
        if w[0] == "cat" and "parallel" in w:
            with open(os.path.join(path, w[1])) as f:
                for sub in f.read().splitlines():
                    shell(path, sub)
            continue
        cli(path, cmds[w[0]], *w[1:])


SIMS = {"base_v4.3_db": (61000.3, 9), "alt": (61200.7, 14)}


def u_ss(ctx, part, parts):
    """The generated scripts: every object and every simulation once, split or not."""
    from rubin_sim.maf.generate_ss import generate_ss, generate_ss_commands

    import rubin_sim.moving_objects as mo

    ss_data(ctx)
    cases = []
    for sims in (["base_v4.3_db"], ["alt", "base_v4.3_db"]):
        for extra in ((), ("trackingDb_sqlite.db",), ("trackingDb_sqlite.db", "resultsDb_sqlite.db")):
            for how in ("command", "function"):
                for split in (False, True):
                    for pop in ("granvik_5k", "l7_5k", "occ_rmax5_5k"):
                        cases.append((tuple(sims), extra, how, split, pop))
    if not ctx.thorough:
        cases = [c for c in cases if c[4] == ("granvik_5k", "l7_5k", "occ_rmax5_5k")[(len(c[1]) + len(c[0]) + (c[2] == "command")) % 3]]
    for how in ("command", "function"):
        cases.append((("base_v4.3_db",), (), how, False, None))
    if ctx.thorough:
        cases.append((("base_v4.3_db",), (), "command", True, None))
    ctx.bounds = {"simulations": 2, "populations": len(POPS), "splits": 10, "cases": len(cases)}
    for ci, (sims, extra, how, split, pop) in enumerate(cases):
        if ci % parts != part or not ctx.case("script", sims, extra, how, split, pop):
            continue
        d = os.path.join(ctx.scratch, "work")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for s in sims:
            t0, nv = SIMS[s]
            df = rows([("r", 1 + i // 3, "x") for i in range(nv)])
            df["observationStartMJD"] = t0 + np.arange(nv) * 0.4
            df["observationId"] = np.arange(nv) * (2 if s == "alt" else 1)
            mkdb(df, os.path.join(d, s + ".db"))
        for e in extra:
            with contextlib.closing(sqlite3.connect(os.path.join(d, e))) as c:
                c.execute("create table runs (a int)")
                c.commit()
        # scripts and results of an earlier call
        with open(os.path.join(d, "ss_script.sh"), "w") as f:
            f.write("run_moving_fractions --work_dir nowhere\n")
        for s in sims:
            for p in POPS:
                with open(os.path.join(d, f"{s}_ss_script_{p}_split.sh"), "w") as f:
                    f.write("run_moving_fractions --work_dir nowhere\n")
        def generate():
            if how == "command":
                args = (["--pop", pop] if pop else []) + (["--split"] if split else [])
                return ctx.must(cli, d, generate_ss, *args, what="generate_ss")[0]
            with at(d):
                return ctx.must(quiet, generate_ss_commands, pops=pop, split=split, what="generate_ss_commands")[0]

        def written():
            r = {}
            for f in sorted(os.listdir(d)):
                if f.endswith(".sh"):
                    with open(os.path.join(d, f)) as fh:
                        r[f] = sorted(fh.read().splitlines())
            return r

        if not generate():
            return
        first = written()
        scripts = [f"{s}_ss_script.sh" for s in sims] if split else ["ss_script.sh"]
        lines = []
        for s in scripts:
            with open(os.path.join(d, s)) as f:
                lines += [x for x in f.read().splitlines() if x.strip()]
        pops = [pop] if pop else POPS
        ctx.expect(len(lines) == len(pops) * len(sims), "one line per population and simulation", got=lines)
        ctx.state((sims, extra, how, split, pop))
        with patched(*ss_batches(), (mo, "DirectObs", FakeObs)):
            for line in lines:
                ctx.transitions += 1
                ok, _ = ctx.must(shell, d, line, what="a line of the generated script")
                if not ok:
                    return
        ctx.outcome((len(sims), split, pop is None))
        if not generate():
            return
        ctx.equal(written(), first, "scripts generated again after they were run")
        for s in sims:
            t0, nv = SIMS[s]
            root = s.replace(".", "_")
            out = os.path.join(d, s + "_ss", "sso") if split else os.path.join(d, s + "_ss")
            for p in pops:
                ot = OBJTYPE[p]
                counts = [sum(seen_by(o, i * (2 if s == "alt" else 1)) for i in range(nv)) for o in range(NOBJ[p])]
                for mname, lab in (("DiscoveryNChances", "detection"), ("DiscoveryNChances", "trailing"), ("MagicDiscovery", "detection"), ("ColorAsteroid", None)):
                    f = os.path.join(out, f"{root}_{mname}_{ot}" + (f"_{lab}" if lab else "") + "_MOOB.npz")
                    if not os.path.exists(f):
                        ctx.fail("no result for the population", file=os.path.basename(f), got=sorted(os.listdir(out))[:30])
                        continue
                    b = load(f)
                    h0 = [q for q, x in enumerate(b.slicer.slice_points["H"]) if x <= 21.0]
                    for q in (h0[0], h0[-1]):
                        ctx.equal([r[q] or 0 for r in values(b)], counts, f"visits of each object in {os.path.basename(f)}")
                # completeness from the start of the simulation
                got = [x for x in os.listdir(out) if "Completeness@Time" in x.replace("at_Time", "@Time") and f"_{ot}_detection" in x and "Cumulative" in x]
                ctx.expect(len(got) == 2, "completeness over time of the population", got=got, have=sorted(os.listdir(out))[:40])
                for x in got:
                    b = load(os.path.join(out, x))
                    ctx.equal(float(np.asarray(b.plot_dict["times"])[0]), float(np.floor(t0)), "start of the survey in the completeness")
                    ctx.expect(b.run_name == s, "name of the run", got=b.run_name)
                found = sum(c > 0 for c in counts) / len(counts)
                dk = [x for x in os.listdir(out) if x.startswith(f"{root}_DifferentialCompleteness_{ot}_detection_MOOB")]
                ctx.expect(len(dk) == 1, "completeness over H of the population", got=dk)
                for x in dk:
                    b = load(os.path.join(out, x))
                    ctx.equal(values(b)[0][0], found, "fraction of the population discovered")


# ------------------------------------------------------------------ one night, one band
def u_night(ctx):
    from rubin_sim.maf.maf_night_report import maf_night_report

    data_dir(ctx)
    bands = "ugrizy"
    full = [(b, n, note) for n in (1, 2, 12) for i, b in enumerate(bands) for note in ["pair_a", "DD:COSMOS, i"][: 1 + (i + n) % 2] if not (n == 2 and b in "uz")]
    df = rows(full)
    df["observationStartMJD"] = 61000 + df["night"] + 0.1 + 0.001 * np.arange(len(df))
    db = mkdb(df, os.path.join(ctx.scratch, "sim.db"))
    ctx.bounds = {"nights": 4, "bands": 6}
    none = lambda *a, **k: None
    for night in (1, 2, 3, 12):
        if not ctx.case("night", night):
            continue
        d = os.path.join(ctx.scratch, f"n{night}")
        os.makedirs(d)
        with patched((mb.MetricBundleGroup, "plot_all", none)):
            ok, _ = ctx.must(cli, d, maf_night_report, db, "--night", night, "--nside", 1, "--run_name", "sim", "--out_dir", "o", what="maf_night_report")
        if not ok:
            return
        ctx.transitions += 1
        ctx.outcome(night)
        sub = df[df["night"] == night]
        got = {}
        for f in os.listdir(os.path.join(d, "o")):
            if f.endswith(".npz"):
                b = mb.create_empty_metric_bundle()
                quiet(b.read, os.path.join(d, "o", f))
                got[b.metric.name, b.slicer.slicer_name, b.constraint] = b
        for (name, sl, con), b in got.items():
            if name == "N_visits" and sl == "UniSlicer":
                band = con.split("'")[1] if "'" in con else None
                want = len(sub if band is None else sub[sub["band"] == band])
                v = b.metric_values
                ctx.equal(0 if np.ma.getmaskarray(v)[0] else int(v.data[0]), want, f"visits of night {night} in {band}")
            if name in ("Mean slewTime", "Min slewTime", "Max slewTime") and len(sub):
                ctx.equal(float(b.metric_values[0]), float(getattr(sub["slewTime"], name.split()[0].lower())()), name)
            if name == "Filter Changes" and len(sub):
                s = sub.sort_values("observationStartMJD")["band"].to_list()
                ctx.equal(float(b.metric_values[0]), float(sum(x != y for x, y in zip(s, s[1:]))), "changes of band")
        labels = {(c.split("'")[1] if "'" in c else None) for (n_, s_, c) in got if n_ == "N_visits" and s_ == "UniSlicer"}
        seen = {b for b in bands if (sub["band"] == b).any()}
        ctx.expect(seen <= labels, "a count of visits per band", got=sorted(map(str, labels)), want=sorted(seen), have=sorted(map(str, got))[:20])
        p = {str(c).split("'")[1] for (n_, s_, c), b in got.items() if n_ == "N visits" and "'" in str(c)}
        ctx.expect(p == seen, "a map of visits per band", got=sorted(p), want=sorted(seen))


def u_selfcal(ctx):
    import rubin_sim.maf.run_selfcal_metric as mod

    class Fake(m.BaseMetric):
        def __init__(self, nside_residual=None, filter_name=None, metric_name="x"):
            super().__init__(col=["observationId"], metric_name=metric_name, metric_dtype="object")
            self.filter_name = filter_name
            got["filter"] = filter_name

        def run(self, data_slice, slice_point=None):
            got["ids"] = sorted(int(x) for x in data_slice["observationId"])
            return {"uniformity_map": np.full(12 * 128 * 128, 0.001)}

    full = [(b, n, note) for n in (1, 365, 366) for b in "grz" for note in ("pair_a", "DD:COSMOS, i", "long")]
    df = rows(full)
    db = mkdb(df, os.path.join(ctx.scratch, "sim.db"))
    none = lambda *a, **k: []
    for band, stale, keep in itertools.product("grz", (False, True), (False, True)):
        if not ctx.case("selfcal", band, stale, keep):
            continue
        got = {}
        d = os.path.join(ctx.scratch, f"w{band}{stale}{keep}")
        os.makedirs(os.path.join(d, "sim_selfcal") if stale else d)
        if stale:
            open(os.path.join(d, "sim_selfcal", "old.npz"), "w").close()
        with patched((mod, "PhotometricSelfCalUniformityMetric", Fake), (mod.PlotHandler, "plot", none)):
            ok, _ = ctx.must(cli, d, mod.run_selfcal_metric, "--db", db, "--filter", band, *(["--no_clobber"] if keep else []), what="run_selfcal_metric")
        ctx.transitions += 1
        ctx.outcome((band, stale, keep))
        if not ok:
            return
        want = [int(r.observationId) for r in df.itertuples() if r.band == band and r.night < 366 and "DD" not in r.scheduler_note]
        ctx.equal(got.get("ids"), want, "visits of the calibration")
        ctx.expect(got.get("filter") == band, "band of the calibration", got=got.get("filter"))
        ctx.expect(os.path.exists(os.path.join(d, "sim_selfcal", "old.npz")) == (stale and keep), "an earlier result in the output directory")


def u_fbs(ctx):
    """The tracking database of many runs."""
    from rubin_sim.maf.db import ResultsDb
    from rubin_sim.maf.make_fbs_tracking_db import make_fbs_tracking_db

    names = {"glance": "Quick Look Metrics", "meta": "General Info Metrics", "sci": "Science Metrics", "ss": "Solar System Metrics", "ddf": "Deep Drilling Metrics"}
    runs = [("baseline", "baseline_v4.0_10yrs"), ("too", "too_test_v4.1_10yrs"), ("baseline", "other_v3.3_10yrs")]
    menus = [(), ("glance",), ("sci", "ddf"), tuple(names)]
    k = -1
    for combo in itertools.product(menus, repeat=3):
        if not ctx.thorough and len([c for c in combo if c]) == 3 and combo[0] != combo[2]:
            continue
        for again in (False, True):
            if again and combo[0] != menus[2]:
                continue
            if not ctx.case("tracking", combo, again):
                continue
            k += 1
            d = os.path.join(ctx.scratch, f"w{k}")
            os.makedirs(os.path.join(d, "maf"))
            lines, want = [], []
            for (fam, run), have in zip(runs, combo):
                os.makedirs(os.path.join(d, "sims", fam), exist_ok=True)
                f = os.path.join("sims", fam, run + ".db")
                with contextlib.closing(sqlite3.connect(os.path.join(d, f))) as c:
                    c.execute("create table info (Parameter text, Value text)")
                    c.execute("insert into info values ('Date, ymd', ?)", ("2026-0%d-01" % (1 + runs.index((fam, run))),))
                    c.execute("insert into info values ('rubin_scheduler.__version__', ?)", ("3.%d" % runs.index((fam, run)),))
                    c.commit()
                lines.append(f)
                for h in have:
                    o = os.path.join(d, "maf", f"{run}_{h}")
                    db = ResultsDb(o)
                    db.close()
                    with contextlib.closing(sqlite3.connect(os.path.join(o, "resultsDb_sqlite.db"))) as c:
                        c.execute("update version set version=?, run_date=?", (f"v-{run}-{h}", "2026-02-02"))
                        if not c.execute("select count(*) from version").fetchone()[0]:
                            c.execute("insert into version (version, run_date) values (?, ?)", (f"v-{run}-{h}", "2026-02-02"))
                        c.commit()
                    i = runs.index((fam, run))
                    want.append((fam, run, "3.%d" % i, "2026-0%d-01" % (1 + i), f, names[h], f"v-{run}-{h}", "2026-02-02", os.path.join("maf", f"{run}_{h}")))
            with open(os.path.join(d, "list"), "w") as f:
                f.write("".join(x + "\n" for x in lines))
            ctx.transitions += 1
            ctx.outcome(len(want), trivial=not want)
            for _ in range(2 if again else 1):
                ok, _ = ctx.must(cli, d, make_fbs_tracking_db, "--opsim_list", "list", what="make_fbs_tracking_db")
                if not ok:
                    return
            with contextlib.closing(sqlite3.connect(os.path.join(d, "trackingDb_sqlite.db"))) as c:
                r = c.execute("select run_group, run_name, run_version, run_date, db_file, maf_comment, maf_version, maf_date, maf_dir from runs").fetchall()
            ctx.equal(sorted(map(list, r)), sorted(map(list, want)), "rows of the tracking database")
            shutil.rmtree(d)


UNITS = [
    *[Unit(f"dirs-{c}", u_dirs, command=c) for c in COMMANDS],
    *[Unit(f"ss-{i}", u_ss, part=i, parts=6) for i in range(6)],
    Unit("night", u_night),
    Unit("selfcal", u_selfcal),
    Unit("fbs", u_fbs),
]
