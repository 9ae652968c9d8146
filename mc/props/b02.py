"""B02: the moving-object pipeline: splits joined again, and summaries per bundle."""
import contextlib
import io
import itertools
import os
import shutil
import sqlite3
import sys
import warnings

import matplotlib

matplotlib.use("Agg")
import numpy as np
import numpy.ma as ma

from mc.core import Unit
from mc.props.m12 import T0, obs_table, orbit_file

import rubin_sim.maf.batches as B
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as m
from rubin_sim.maf.slicers import MoObjSlicer

PROPERTY = "B02"
LEVEL = "exploration"
RULE = (
    "every assignment of the objects of a population to the splits, each metric of each batch compared with the run over "
    "the whole population; every order and subset of a menu of bundles for the summaries; non-trivial = at least two splits hold objects"
)
ASSUMPTIONS = [
    "the observations of one object are all in one split, as the observation generation makes them",
    "magnitudes at least two magnitudes from the detection limit, where the random draw of the detection does not matter",
]

IDS = [0, 1, 2, 3]  # the last one is never observed
H = np.array([16.0, 20.0, 24.0])


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def observations():
    """Each object with its own nights; apparent magnitudes 22 or 26 at H=20."""
    plan = {
        0: [(1, 2), (2, 2), (3, 2), (9, 1)],
        1: [(1, 3), (3, 3), (5, 3), (20, 2), (22, 2), (23, 2)],
        2: [(4, 2), (30, 4), (60, 1), (75, 3), (76, 2)],
    }
    oid, nights, off, faint = [], [], [], []
    for o, p in plan.items():
        for j, (n, k) in enumerate(p):
            for i in range(k):
                oid.append(o)
                nights.append(n)
                off.append(0.02 * i)
                faint.append((i + j + o) % 4 == 3)
    mag = np.where(faint, 25.7, 21.7)
    d = obs_table(oid, nights, mag, "gri")
    d["observationStartMJD"] = T0 + np.array(nights) + np.array(off)
    d["dmag_trail"] = 4.1
    d["dradt"] = 0.3
    d["ddecdt"] = 0.4
    d["dradt"][::3] = 4.0
    return d


KEYS = ("constraint", "info_label", "run_name", "display_dict")


def values(b):
    v = b.metric_values
    mask = np.broadcast_to(ma.getmaskarray(v), v.shape)
    return [[None if mask[i][j] else float(v.data[i][j]) for j in range(v.shape[1])] for i in range(v.shape[0])]


def load(path):
    b = mb.create_empty_mo_metric_bundle()
    quiet(b.read, path)
    return b


def meta(b):
    r = {k: getattr(b, k) for k in KEYS}
    r["plot_dict"] = {k: v for k, v in b.plot_dict.items() if not callable(v)}
    r["metric"] = b.metric.name
    r["H"] = [float(x) for x in b.slicer.slice_points["H"]]
    return r


def slicer(orbits, obs, h):
    s = MoObjSlicer(h_range=h, verbose=False)
    s.setup_slicer(orbits, obs_file=obs)
    return s


BATCH = {
    "quick-trail": lambda s, **k: B.quick_discovery_batch(s, detection_losses="trailing", **k),
    "quick": lambda s, **k: B.quick_discovery_batch(s, detection_losses="detection", **k),
    "discovery": lambda s, **k: B.discovery_batch(s, detection_losses="detection", **k),
    "discovery-trail": lambda s, **k: B.discovery_batch(s, detection_losses="trailing", **k),
    "inner": lambda s, **k: B.characterization_inner_batch(s, **k),
    "outer": lambda s, **k: B.characterization_outer_batch(s, **k),
}


def run_batch(batch, orbits, obs, h, out, **k):
    s = slicer(orbits, obs, h)
    bd = quiet(BATCH[batch], s, run_name="sim", objtype="NEO", **k)
    g = mb.MoMetricBundleGroup(bd, out_dir=out, results_db=None, verbose=False)
    quiet(g.run_all)
    return bd


def joinable(f):
    return f.endswith("MOOB.npz") and ("Discovery" not in f or any(x in f for x in ("DiscoveryTime", "DiscoveryNChances", "Magic", "HighVelocity")))


def save_obs(ctx, fname, d):
    p = os.path.join(ctx.scratch, fname)
    np.savez(p, object_observations=d)
    return p


def compare(ctx, got, want, what):
    ctx.comparisons += 1
    ctx.equal(values(got), values(want), f"values of {what}")
    ctx.equal(meta(got), meta(want), f"description of {what}")


def u_split(ctx, batch, con, hr):
    """Calculating per split and joining gives the run over the whole population."""
    d = observations()
    orbits = orbit_file(ctx, IDS, [20.0] * 4)
    h = None if hr == "own" else H
    nsplit = ctx.pick(3, 4)
    ctx.bounds = {"objects": 4, "splits": nsplit, "batch": batch, "constraint": con}
    kw = {} if con is None else {"constraint": con}
    base = os.path.join(ctx.scratch, "base")
    os.makedirs(base)
    sub = {}
    for k in range(4):
        for objs in itertools.combinations(range(3), k):
            out = os.path.join(ctx.scratch, "sub" + "".join(map(str, objs)))
            p = save_obs(ctx, "obs.npz", d[np.isin(d["obj_id"], objs)])
            ok, _ = ctx.must(run_batch, batch, orbits, p, h, out, what="running the batch on a split", **kw)
            if not ok:
                return
            sub[objs] = out
    whole = sub[(0, 1, 2)]
    files = sorted(f for f in os.listdir(whole) if joinable(f))
    ctx.expect(len(files) > 3, "files of the batch", got=files)
    full = {f: load(os.path.join(whole, f)) for f in files}
    # the constraint selects the observations, and the losses the column
    keep = d if con is None else d[{"night <= 3": d["night"] <= 3, "band == 'g'": d["band"] == "g", "night > 900": d["night"] > 900}[con]]
    keep = keep.copy()
    other = batch
    if batch.endswith("-trail"):
        other = batch[: -len("-trail")]
        keep["dmag_detect"] = keep["dmag_trail"]
    if ctx.case("selection"):
        out = os.path.join(ctx.scratch, "selected")
        ok, _ = ctx.must(run_batch, other, orbits, save_obs(ctx, "obs.npz", keep), h, out, constraint_info_label=con.replace("==", "").replace("  ", " ") if con else "", what="running the batch on selected observations")
        if ok:
            some = 0
            for f in files:
                b = load(os.path.join(out, f.replace("trailing_loss", "detection_loss")))
                some += any(x is not None for r in values(b) for x in r)
                ctx.equal(values(full[f]), values(b), f"values of {f}: constraint and losses against selected observations")
                ctx.expect(full[f].constraint == con, "constraint of the bundle", got=full[f].constraint, file=f)
                ctx.expect(full[f].run_name == "sim" and f.startswith("sim_"), "name of the run", got=full[f].run_name, file=f)
                ctx.expect(full[f].info_label.startswith("NEO"), "label of the population", got=full[f].info_label)
            ctx.outcome("selection", trivial=some == 0)
    # direct counts of the observations above the limit
    if "sim_NObs" in str(files) and ctx.case("direct"):
        f = [f for f in files if "NObs" in f][0]
        want = []
        for o in IDS:
            rows = keep[keep["obj_id"] == o]
            want.append([int(np.sum(rows["magV"] + 0.3 + (hv - 20.0) <= 24.0)) or None for hv in ([20.0] if h is None else H)])
        ctx.equal(values(full[f]), want, "number of observations")
        ctx.outcome("direct")
    for assign in itertools.product(range(nsplit), repeat=3):
        if nsplit > 3 and len(set(assign)) == 1 and assign[0] > 1:
            continue
        if not ctx.case("split", batch, con, hr, assign):
            continue
        ctx.state(assign)
        shutil.rmtree(base)
        os.makedirs(base)
        for s in range(nsplit):
            os.symlink(sub[tuple(o for o in range(3) if assign[o] == s)], os.path.join(base, f"orb_{s}"))
        ctx.outcome(("split", len(set(assign))), trivial=len(set(assign)) == 1)
        for f in files:
            ctx.transitions += 1
            ok, j = ctx.must(quiet, B.read_and_combine, "orb", base, list(range(nsplit)), f, what="read_and_combine")
            if not ok:
                return
            compare(ctx, j, full[f], f"{f} joined")
        # the joined bundle written and read again
        os.makedirs(os.path.join(ctx.scratch, "joined"), exist_ok=True)
        j.write(out_dir=os.path.join(ctx.scratch, "joined"))
        compare(ctx, load(os.path.join(ctx.scratch, "joined", f)), full[f], f"{f} joined, written and read")
        # a list, or a dict in any order
        parts = {s: load(os.path.join(base, f"orb_{s}", f)) for s in range(nsplit)}
        before = {s: values(b) for s, b in parts.items()}
        for given in (list(parts.values()), dict(reversed(list(parts.items())))):
            ok, j = ctx.must(quiet, B.combine_subsets, given, what="combine_subsets")
            if ok:
                compare(ctx, j, full[f], f"{f} combined")
        ctx.equal({s: values(b) for s, b in parts.items()}, before, "the subsets after they are combined")


def bundle(metric_name, hs, vals, label="NEO x", orbits=None, **plot):
    s = MoObjSlicer(h_range=np.array(hs), verbose=False)
    s.setup_slicer(orbits)
    b = mb.MoMetricBundle(m.NObsMetric(metric_name=metric_name), s, "night < 9", run_name="sim", info_label=label, plot_dict=plot)
    mask = np.array([[x is None for x in r] for r in vals])
    b.metric_values = ma.MaskedArray([[0 if x is None else float(x) for x in r] for r in vals], mask=mask, fill_value=0)
    return b


def u_refuse(ctx):
    """Different objects or H values are not joined."""
    ids = ([0, 1], [0, 1, 2], [0, 2], [1, 0])
    hs = ([18.0, 20.0], [18.0, 21.0], [18.0, 19.0, 20.0])
    for (i, h), (i2, h2) in itertools.product(itertools.product(ids, hs), repeat=2):
        if not ctx.case("refuse", i, h, i2, h2):
            continue
        a = bundle("n", h, [[1] * len(h)] * len(i), orbits=orbit_file(ctx, i, [20.0] * len(i)))
        b = bundle("n", h2, [[2] * len(h2)] * len(i2), orbits=orbit_file(ctx, i2, [20.0] * len(i2)))
        same = i == i2 and h == h2
        ctx.outcome(same)
        ctx.transitions += 1
        for given in ([a, b], {"x": b, "y": a}):
            if same:
                ok, j = ctx.must(B.combine_subsets, given, what="combine_subsets")
                if ok:
                    ctx.equal(values(j), [[3.0] * len(h)] * len(i), "sum of the values of the subsets")
            else:
                ctx.raises((ValueError,), B.combine_subsets, given)


TIMES = T0 + np.array([0.0, 10.0, 20.0, 30.0])


def interp(h, hs, v):
    """Value at h within the grid, None outside."""
    if h < hs[0] or h > hs[-1]:
        return None
    return float(np.interp(h, hs, v))


def menu_completeness(ctx):
    orb = orbit_file(ctx, IDS, [20.0] * 4)
    n = None
    return {
        "a n15": lambda: bundle("DiscoveryNChances", [18.0, 20.0, 22.0], [[2, 1, n], [1, n, n], [3, 2, 1], [n, n, n]], "NEO n15", orb, h_mark=20.0),
        "b t15": lambda: bundle("DiscoveryTime", [18.0, 20.0, 22.0], [[T0 + 5, T0 + 8, n], [T0 + 15, n, n], [T0 + 5, T0 + 25, T0 + 29], [n, n, n]], "t15", orb, h_mark=22.0),
        "c n30": lambda: bundle("DiscoveryNChances", [14.0, 16.0, 18.0, 20.0], [[1, 1, 1, 0], [1, 1, n, n], [1, n, n, n], [5, 4, 3, 2]], "PHA n30", orb, h_mark=16.0),
        "d magic": lambda: bundle("MagicDiscovery", [20.0, 22.0, 24.0], [[6, 1, 1], [n, n, n], [1, n, n], [n, n, n]], "magic", orb, h_mark=None),
        "e fast": lambda: bundle("HighVelocityNights", [19.0, 21.0, 23.0], [[1, n, n], [1, 1, n], [1, 1, 1], [n, n, n]], "hv", orb),
        "f nobs": lambda: bundle("NObs", [18.0, 20.0, 22.0], [[9, 8, 7]] * 4, "nobs", orb, h_mark=18.0),
        "g time": lambda: bundle("DiscoveryTime", [16.0, 18.0], [[T0 + 1, T0 + 2], [T0 + 11, T0 + 12], [T0 + 21, n], [n, n]], "t30", orb),
    }


def outcome_of(r):
    out = {}
    for k, b in r.items():
        out[k] = dict(v=values(b), label=b.plot_dict.get("label"), h=b.plot_dict.get("h_val"), s={str(x): (float(y) if np.ndim(y) == 0 and y is not None else y) for x, y in (b.summary_values or {}).items()}, c=b.constraint, run=b.run_name, i=b.info_label)
    return out


def db_rows(path):
    con = sqlite3.connect(path)
    r = con.execute(
        "select m.metric_name, m.metric_info_label, s.summary_name, s.summary_value from summarystats s join metrics m on m.metric_id = s.metric_id"
    ).fetchall()
    con.close()
    return sorted(r, key=str)


def u_completeness(ctx, part, parts):
    """The completeness of a bundle is about that bundle."""
    from rubin_sim.maf.db import ResultsDb

    menu = menu_completeness(ctx)
    out = os.path.join(ctx.scratch, "out")
    size = ctx.pick(3, 4)
    ctx.bounds = {"bundles": len(menu), "largest dict": size}

    def run(names, hm):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        db = ResultsDb(out_dir=out)
        bs = {k: menu[k]() for k in names}
        before = {k: values(b) for k, b in bs.items()}
        r = quiet(B.run_completeness_summary, bs, hm, TIMES, out, db)
        db.close()
        ctx.equal({k: values(b) for k, b in bs.items()}, before, "the bundles after their completeness is calculated")
        return outcome_of(r), db_rows(os.path.join(out, "resultsDb_sqlite.db")), sorted(f for f in os.listdir(out) if f.endswith("npz"))

    alone = {}
    for hm in (None, 20.0):
        for k in menu:
            ok, r = ctx.must(run, [k], hm, what="run_completeness_summary")
            if not ok:
                return
            alone[k, hm] = r
            if part or not ctx.case("direct", k, hm):
                continue
            b = menu[k]()
            hs = list(b.slicer.slice_points["H"])
            mark = hm if hm is not None else (b.plot_dict.get("h_mark") if b.plot_dict.get("h_mark") is not None else float(np.median(hs)))
            v = values(b)
            ctx.outcome(k)
            if k == "f nobs":
                ctx.equal(r, ({}, [], []), "nothing for a bundle that is not about discovery")
                continue
            if "Time" in b.metric.name:
                # the differential completeness at the marked H, where it is in the grid
                want = [[float(np.mean([row[hs.index(mark)] is not None and row[hs.index(mark)] <= t for row in v])) for t in TIMES]] if mark in hs else None
                got = [x for q, x in r[0].items() if "Differential" in q and x["h"] == mark]
                if mark not in hs:
                    got = []
                else:
                    ctx.expect(len(got) == 1, "one differential completeness over time at the marked H", got=list(r[0]))
                if want and got:
                    ctx.equal(got[0]["v"], want, "fraction of the population discovered by each time")
                if mark in hs and mark - 2 in hs:
                    ctx.expect(sorted({x["h"] for x in r[0].values()}) == [mark - 2, mark], "H values of the completeness over time", got=[x["h"] for x in r[0].values()])
                for q, x in r[0].items():
                    vv = x["v"][0]
                    ctx.expect(len(vv) == len(TIMES) and all(p <= s + 1e-12 for p, s in zip(vv, vv[1:])), "completeness does not fall with time", got=vv, key=q)
                continue
            diff = [sum(row[i] is not None and row[i] >= 1 for row in v) / len(v) for i in range(len(hs))]
            got = {q: x for q, x in r[0].items()}
            dk = [q for q in got if "Differential" in q]
            ck = [q for q in got if "Cumulative" in q]
            ctx.expect(len(dk) == len(ck) == 1 and len(got) == 2, "a differential and a cumulative completeness", got=list(got))
            ctx.equal(got[dk[0]]["v"], [diff], "fraction of the population discovered at each H")
            cum = got[ck[0]]["v"][0]
            ctx.expect(all(min(diff) - 1e-9 <= x <= max(diff) + 1e-9 for x in cum), "cumulative completeness within the differential one", got=cum, diff=diff)
            for q in (dk[0], ck[0]):
                val = interp(mark, hs, got[q]["v"][0])
                key = "Value At H=%.1f" % mark
                ctx.expect(key in got[q]["s"], "value at the marked H", got=got[q]["s"])
                if val is not None and key in got[q]["s"]:
                    ctx.equal(got[q]["s"][key], val, "completeness at the marked H")
                    ctx.expect(("= %.1f%%" % (val * 100)) in got[q]["label"], "label with the completeness", got=got[q]["label"], want=val)
                    ctx.expect(any(x[2].startswith("Value At H") and abs(x[3] - val) < 1e-9 and x[1] == b.info_label for x in r[1]), "completeness at the marked H in the results database", got=[x for x in r[1] if "Value" in x[2]])
    i = -1
    for k in range(2, size + 1):
        for names in itertools.permutations(sorted(menu), k):
            i += 1
            if i % parts != part:
                continue
            for hm in (None, 20.0) if k < size else (None,):
                if not ctx.case("dict", names, hm):
                    continue
                ctx.state(names)
                ctx.transitions += 1
                ok, r = ctx.must(run, list(names), hm, what="run_completeness_summary")
                if not ok:
                    return
                want = {}
                rows, files = [], []
                for n in names:
                    want.update(alone[n, hm][0])
                    rows += alone[n, hm][1]
                    files += alone[n, hm][2]
                ctx.outcome(len(want), trivial=len(want) == 0)
                ctx.equal(r[0], want, "completeness of the bundles of a dict and of each alone")
                ctx.equal(r[1], sorted(rows, key=str), "summary statistics in the results database")
                ctx.equal(r[2], sorted(files), "files of the completeness bundles")


def menu_fraction(ctx):
    orb = orbit_file(ctx, IDS, [20.0] * 4)
    n = None
    return {
        "sim_ColorAsteroid_NEO": lambda: bundle("ColorAsteroid", [18.0, 20.0, 22.0], [[4, 3, 2], [3, 2, n], [1, 1, 1], [n, n, n]], "NEO", orb, h_mark=22.0),
        "sim_LightcurveInversionAsteroid_NEO": lambda: bundle("LightcurveInversionAsteroid", [16.0, 18.0, 20.0], [[1, 1, 0], [1, n, n], [1, 1, 1], [n, n, n]], "inv", orb, h_mark=20.0),
        "sim_LightcurveColorOuter_TNO": lambda: bundle("LightcurveColorOuter", [6.0, 8.0, 10.0], [[6, 5, 4], [5, 3, n], [2, 2, 2], [1, n, n]], "TNO", orb, h_mark=10.0),
        "sim_LightcurveColorOuter_SDO": lambda: bundle("LightcurveColorOuter", [5.0, 7.0, 9.0, 11.0, 13.0], [[6, 5, 4, 4, 4], [5, 3, n, n, n], [2, 2, 2, n, n], [1, n, n, n, n]], "SDO", orb),
        "sim_ColorAsteroid_MBA": lambda: bundle("ColorAsteroid", [18.0, 20.0], [[4, 3], [3, 2], [1, 1], [n, 2]], "MBA", orb, h_mark=18.5),
        "sim_NObs_NEO": lambda: bundle("NObs", [18.0, 20.0, 22.0], [[9, 8, 7]] * 4, "nobs", orb, h_mark=None),
    }


def u_fraction(ctx, part, parts):
    """The fractions of a population are about that population."""
    from rubin_sim.maf.db import ResultsDb

    menu = menu_fraction(ctx)
    out = os.path.join(ctx.scratch, "out")
    size = ctx.pick(3, 4)
    ctx.bounds = {"bundles": len(menu), "largest dict": size}

    def run(names, hm):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        db = ResultsDb(out_dir=out)
        r = quiet(B.run_fraction_summary, {k: menu[k]() for k in names}, hm, out, db)
        db.close()
        return outcome_of(r), db_rows(os.path.join(out, "resultsDb_sqlite.db")), sorted(f for f in os.listdir(out) if f.endswith("npz"))

    levels = {"ColorAsteroid": {"6 of ugrizy": 4, "5 of grizy": 3, "4 of grizy": 2, "2 of g, r or i, z or y": 1}, "LightcurveInversionAsteroid": {"Lightcurve Inversion": 1}, "LightcurveColorOuter": {f"{i} filters": i for i in range(1, 7)}, "NObs": {}}
    alone = {}
    for hm in (None, 9.0, 20.0):
        for k in menu:
            ok, r = ctx.must(run, [k], hm, what="run_fraction_summary")
            if not ok:
                return
            alone[k, hm] = r
            if part or not ctx.case("direct", k, hm):
                continue
            b = menu[k]()
            hs = list(b.slicer.slice_points["H"])
            mark = hm
            if mark is None:
                mark = (b.plot_dict["h_mark"] if b.plot_dict.get("h_mark") is not None else float(np.median(hs))) - 2
            mark = max(mark, min(hs))
            v = values(b)
            want = {}
            for lab, thr in levels[b.metric.name].items():
                want[f"{k} FractionPop {lab}"] = [sum(row[i] is not None and row[i] >= thr for row in v) / len(v) for i in range(len(hs))]
            ctx.outcome((k, hm), trivial=not want)
            ctx.equal({q: x["v"][0] for q, x in r[0].items()}, want, "fractions of the population")
            for q, x in r[0].items():
                val = interp(mark, hs, want[q])
                key = "Value At H=%.1f" % mark
                ctx.expect(key in x["s"], "fraction at the marked H", got=x["s"], want=key)
                if val is not None and key in x["s"]:
                    ctx.equal(x["s"][key], val, "fraction at the marked H")
    i = -1
    for k in range(2, size + 1):
        for names in itertools.permutations(sorted(menu), k):
            i += 1
            if i % parts != part:
                continue
            for hm in (None, 9.0, 20.0) if k < size else (None,):
                if not ctx.case("dict", names, hm):
                    continue
                ctx.state(names)
                ctx.transitions += 1
                ok, r = ctx.must(run, list(names), hm, what="run_fraction_summary")
                if not ok:
                    return
                want, rows, files = {}, [], []
                for n in names:
                    want.update(alone[n, hm][0])
                    rows += alone[n, hm][1]
                    files += alone[n, hm][2]
                ctx.outcome(len(want), trivial=not want)
                ctx.equal(r[0], want, "fractions of the bundles of a dict and of each alone")
                ctx.equal(r[1], sorted(rows, key=str), "summary statistics in the results database")
                ctx.equal(r[2], sorted(files), "files of the fractions")


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ["prog"] + [str(x) for x in a]
    try:
        yield
    finally:
        sys.argv = old


def cli(fn, *a):
    with argv(*a):
        return quiet(fn)


def u_cli(ctx, objtype, part, parts):
    """The commands: calc on each split, join, fractions."""
    from rubin_sim.maf.run_moving_calc import run_moving_calc
    from rubin_sim.maf.run_moving_fractions import run_moving_fractions
    from rubin_sim.maf.run_moving_join import run_moving_join

    import rubin_sim.maf.run_moving_fractions as rmf

    d = observations()
    orbits = orbit_file(ctx, IDS, [20.0] * 4)
    args = ["--orbit_file", orbits, "--objtype", objtype, "--h_min", 16, "--h_max", 24, "--h_step", 4, "--h_mark", 20, "--constraint", "night <= 40", "--start_time", T0]
    if part == 0 and ctx.case("no simulation"):
        ok, _ = ctx.must(cli, run_moving_calc, *args, "--obs_file", save_obs(ctx, "obs.npz", d), "--out_dir", os.path.join(ctx.scratch, "nosim"), what="run_moving_calc without a simulation")
        ctx.outcome("nosim")
        ctx.expect(ok and any(f.endswith("MOOB.npz") for f in os.listdir(os.path.join(ctx.scratch, "nosim"))), "files of a calculation without a simulation")
    args += ["--simulation_db", "/data/sim.db"]
    sub = {}
    for k in range(4):
        for objs in itertools.combinations(range(3), k):
            out = os.path.join(ctx.scratch, "sub" + "".join(map(str, objs)))
            ok, _ = ctx.must(cli, run_moving_calc, *args, "--obs_file", save_obs(ctx, "obs.npz", d[np.isin(d["obj_id"], objs)]), "--out_dir", out, what="run_moving_calc")
            if not ok:
                return
            sub[objs] = out
    whole = sub[(0, 1, 2)]
    files = sorted(f for f in os.listdir(whole) if joinable(f))
    full = {f: load(os.path.join(whole, f)) for f in files}
    # the completeness of the whole population
    frac = os.path.join(ctx.scratch, "frac")

    def fractions(src):
        shutil.rmtree(frac, ignore_errors=True)
        shutil.copytree(src, frac)
        for f in os.listdir(frac):
            if not joinable(f):
                os.remove(os.path.join(frac, f))
        cli(run_moving_fractions, "--work_dir", frac, "--start_time", T0, "--n_years_max", 1)
        new = sorted(f for f in os.listdir(frac) if f.endswith(".npz") and f not in files)
        return {f: (values(b), meta(b)) for f in new for b in [load(os.path.join(frac, f))]}, db_rows(os.path.join(frac, "resultsDb_sqlite.db"))

    real = {n: getattr(rmf.batches, n) for n in ("plot_completeness", "plot_fractions", "plot_single", "plot_activity")}
    try:
        for n in real:
            setattr(rmf.batches, n, lambda *a, **k: None)
        ok, fullfrac = ctx.must(fractions, whole, what="run_moving_fractions")
        if not ok:
            return
        ctx.expect(any("Completeness" in f for f in fullfrac[0]) and any("FractionPop" in f for f in fullfrac[0]), "completeness and fractions", got=sorted(fullfrac[0]))
        if part == 0 and ctx.case("again"):
            # a second time in the same directory: same results
            cli(run_moving_fractions, "--work_dir", frac, "--start_time", T0, "--n_years_max", 1)
            got = {f: (values(b), meta(b)) for f in sorted(os.listdir(frac)) if f.endswith(".npz") and f not in files for b in [load(os.path.join(frac, f))]}
            ctx.equal(got, fullfrac[0], "files after the fractions are calculated again")
            ctx.outcome("again")
        base = os.path.join(ctx.scratch, "base")
        i = -1
        for assign in itertools.product(ctx.pick((0, 4, 9), (0, 1, 5, 9)), repeat=3):
            i += 1
            if i % parts != part or not ctx.case("join", objtype, assign):
                continue
            ctx.state(assign)
            ctx.transitions += 1
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base)
            for s in range(10):
                os.symlink(sub[tuple(o for o in range(3) if assign[o] == s)], os.path.join(base, f"orbits_{s}"))
            out = os.path.join(base, "joined")
            ok, _ = ctx.must(cli, run_moving_join, "--orbit_file", "orbits.txt", "--base_dir", base, "--out_dir", out, what="run_moving_join")
            if not ok:
                return
            ctx.outcome(len(set(assign)), trivial=len(set(assign)) == 1)
            ctx.equal(sorted(os.listdir(out)), files, "files after joining")
            for f in files:
                if os.path.exists(os.path.join(out, f)):
                    compare(ctx, load(os.path.join(out, f)), full[f], f"{f} joined")
            if i % ctx.pick(4, 2) == 0:
                ok, r = ctx.must(fractions, out, what="run_moving_fractions on joined files")
                if ok:
                    ctx.equal(r[0], fullfrac[0], "completeness and fractions of the joined population and the whole one")
                    ctx.equal(r[1], fullfrac[1], "summary statistics of the joined population and the whole one")
    finally:
        for n, f in real.items():
            setattr(rmf.batches, n, f)
    if part == 0 and ctx.case("plots"):
        ok, r = ctx.must(fractions, whole, what="run_moving_fractions with plots")
        ctx.outcome("plots")
        if ok:
            ctx.equal(r[0], fullfrac[0], "completeness and fractions with plots")


UNITS = [
    *[Unit(f"cli-{o}-{i}", u_cli, objtype=o, part=i, parts=3) for o in ("NEO", "TNO") for i in range(3)],
    *[Unit(f"split-{b}-{i}-{hr}", u_split, batch=b, con=c, hr=hr) for b in BATCH for i, c in enumerate((None, "night <= 3", "band == 'g'")) for hr in ("range", "own") if not (hr == "own" and i == 2)],
    Unit("refuse", u_refuse),
    *[Unit(f"completeness-{i}", u_completeness, part=i, parts=4) for i in range(4)],
    *[Unit(f"fraction-{i}", u_fraction, part=i, parts=4) for i in range(4)],
]
