"""M13: what is selected from a simulation, and how runs are compared."""
import contextlib
import io
import itertools
import json
import math
import os
import sqlite3
import sys
import warnings
from fractions import Fraction

import numpy as np
import pandas as pd

from mc.core import Unit

PROPERTY = "M13"
LEVEL = "exploration"
RULE = (
    "every combination of visit table, constraint, columns and kind of handle read by the real get_sim_data; every "
    "ordered set of results directories gathered; every selection and normalization of small summary tables; "
    "non-trivial = a non-empty selection"
)
ASSUMPTIONS = ["constraints are SQL of the finite menu", "runs and metrics asked for by name are in the summary, unless the code documents a warning"]

ROWS = [
    (1, 10, "r", 24.5, "pairs, a"),
    (2, 10, "g", 23.0, "DD:COSMOS"),
    (3, 11, "r", 22.25, ""),
    (4, 12, "i", None, "pairs, b"),
    (5, 400, "r", 24.0, None),
]
COLS = ("observationId", "night", "band", "fiveSigmaDepth", "scheduler_note")
CONSTRAINTS = {
    None: lambda r: True,
    "": lambda r: True,
    "night < 12": lambda r: r[1] < 12,
    "band = 'r'": lambda r: r[2] == "r",
    "band = 'r' and night > 10": lambda r: r[2] == "r" and r[1] > 10,
    "band = 'g' or band = 'i'": lambda r: r[2] in "gi",
    "scheduler_note not like '%DD%'": lambda r: r[4] is not None and "DD" not in r[4],
    "fiveSigmaDepth > 23.5": lambda r: r[3] is not None and r[3] > 23.5,
    "night > 1000": lambda r: False,
}
COLSETS = [None, ["night"], ["band", "observationId"], ["observationId", "night", "band", "fiveSigmaDepth", "scheduler_note"], ["fiveSigmaDepth", "scheduler_note"]]


def make_db(path, rows, table):
    if os.path.exists(path):
        os.remove(path)
    with contextlib.closing(sqlite3.connect(path)) as c:
        c.execute(f"create table {table} (observationId integer, night integer, band text, fiveSigmaDepth real, scheduler_note text)")
        c.execute("create table info (key text, value text)")
        c.executemany(f"insert into {table} values (?,?,?,?,?)", rows)
        c.commit()


class Stk:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def run(self, d):
        out = np.empty(len(d), dtype=[(n, d.dtype[n]) for n in d.dtype.names] + [(self.name, float)])
        for n in d.dtype.names:
            out[n] = d[n]
        out[self.name] = self.fn(d)
        return out


def null(x):
    return x is None or (isinstance(x, float) and math.isnan(x)) or x is pd.NA


def rows_equal(got, want):
    return len(got) == len(want) and all(len(a) == len(b) and all((null(x) and null(y)) or x == y for x, y in zip(a, b)) for a, b in zip(got, want))


def select(ctx, table):
    from lsst.resources import ResourcePath
    from sqlalchemy import create_engine

    from rubin_sim.maf.utils import get_sim_data

    path = os.path.join(ctx.scratch, f"{table}.db")
    kinds = ["path", "sqlite", "engine", "connection", "url", "resource"]
    masks = range(1, 32) if ctx.thorough else (31, 1, 2, 21, 10, 24)
    for mask in masks:
        rows = [r for k, r in enumerate(ROWS) if mask >> k & 1]
        for perm in (rows, rows[::-1]):
            if perm is not rows and len(rows) < 2:
                continue
            make_db(path, perm, table)
            for kind in kinds:
                for con, keep in CONSTRAINTS.items():
                    for cols in COLSETS:
                        for given in (None, table):
                            if given is None and kind != "path" and table != "observations":
                                continue
                            if kind not in ("path", "sqlite") and (cols or [None])[0] not in (None, "band"):
                                continue
                            if not ctx.case(table, mask, perm is rows, kind, con, cols, given):
                                continue
                            eng = None
                            if kind == "path":
                                h = path
                            elif kind == "sqlite":
                                h = sqlite3.connect(path)
                            elif kind in ("engine", "connection"):
                                eng = create_engine("sqlite:///" + path)
                                h = eng if kind == "engine" else eng.connect()
                            elif kind == "url":
                                h = "file://" + path
                            else:
                                h = ResourcePath(path)
                            sel = [r for r in perm if keep(r)]
                            ok, got = ctx.call(get_sim_data, h, con, cols, table_name=given)
                            if kind in ("sqlite", "connection"):
                                h.close()
                            if eng is not None:
                                eng.dispose()
                            if not sel:
                                ctx.expect(not ok and isinstance(got, UserWarning), "an empty selection is not announced", got=got)
                                continue
                            if not ctx.expect(ok, "get_sim_data raised", error=repr(got)[:200]):
                                continue
                            names = list(cols or COLS)
                            ctx.equal(list(got.dtype.names), names, "columns")
                            ctx.expect(rows_equal(got.tolist(), [tuple(r[COLS.index(n)] for n in names) for r in sel]), "rows", got=got.tolist(), want=sel)
                            ctx.state((mask, con, str(cols)))
                            ctx.outcome((mask, con, cols, kind))


def query(ctx):
    """Full queries, stackers and refusals."""
    from rubin_sim.maf.utils import get_sim_data

    path = os.path.join(ctx.scratch, "q.db")
    fns = {"twice": lambda d: 2.0 * d["night"], "plus": lambda d: d["twice"] + 1.0, "idx": lambda d: np.arange(len(d))}
    for mask in range(1, 32):
        rows = [r for k, r in enumerate(ROWS) if mask >> k & 1]
        make_db(path, rows, "observations")
        for q, f in {
            "select night, band from observations": [(r[1], r[2]) for r in rows],
            "select count(*) as n from observations": [(len(rows),)],
            "select night from observations where night < 12 order by night desc": [(x,) for x in sorted((r[1] for r in rows if r[1] < 12), reverse=True)],
        }.items():
            if not ctx.case(mask, q):
                continue
            ok, got = ctx.call(get_sim_data, path, "night > 1000000", ["nothere"], full_sql_query=q, table_name="nothere")
            if not f:
                ctx.expect(not ok and isinstance(got, UserWarning), "an empty selection is not announced", got=got)
                continue
            if ctx.expect(ok, "a full query raised", error=repr(got)[:200]):
                ctx.expect(rows_equal(got.tolist(), f), "rows of a full query", got=got.tolist(), want=f)
                ctx.outcome((mask, q))
        for st in ([], ["twice"], ["twice", "plus"], ["idx", "twice", "plus"], ["twice", "idx"]):
            for cols in (None, ["night"]):
                if not ctx.case(mask, st, cols):
                    continue
                ok, got = ctx.must(get_sim_data, path, None, cols, stackers=[Stk(n, fns[n]) for n in st], what="get_sim_data with stackers")
                if not ok:
                    continue
                ctx.equal(list(got.dtype.names), list(cols or COLS) + st, "columns after the stackers")
                want = {"twice": [2.0 * r[1] for r in rows], "plus": [2.0 * r[1] + 1 for r in rows], "idx": list(map(float, range(len(rows))))}
                for n in st:
                    ctx.equal(got[n].tolist(), want[n], f"column of stacker {n}")
                ctx.outcome((mask, st, cols))
    if ctx.case("missing"):
        p = os.path.join(ctx.scratch, "none.db")
        ctx.raises(FileNotFoundError, get_sim_data, p, what="a missing file")
        ctx.expect(not os.path.exists(p), "reading made the missing file")
    if ctx.case("no table"):
        p = os.path.join(ctx.scratch, "other.db")
        make_db(p, ROWS, "other")
        ctx.raises(ValueError, get_sim_data, p, what="a file without a table of visits")
        ok, got = ctx.must(get_sim_data, p, table_name="other", what="a named table")
        if ok:
            ctx.equal(len(got), 5, "rows of a named table")


def benchmarks(ctx):
    from rubin_sim.maf.utils import calc_coadded_depth, scale_benchmarks

    full = {"design": {"u": 56, "g": 80, "r": 184, "i": 184, "z": 160, "y": 160}, "stretch": {"u": 70, "g": 100, "r": 230, "i": 230, "z": 200, "y": 200}}
    lengths = [Fraction(k, 4) for k in range(1, 61)] + [Fraction(k, 10) for k in range(1, 151)]
    for w in full:
        for n in lengths:
            if not ctx.case(w, str(n)):
                continue
            ok, b = ctx.must(scale_benchmarks, float(n), w, what="scale_benchmarks")
            if not ok:
                continue
            for f, nv in full[w].items():
                x = nv * n / 10
                if x.denominator == 1 and b["nvisits"][f] == x - 1 and n.denominator != 1:
                    continue  # rounding of the scale factor, not claimed
                ctx.expect(b["nvisits"][f] == math.floor(x), "visits for the length of the run", band=f, got=b["nvisits"][f], want=math.floor(x))
            ctx.equal(scale_benchmarks(10, w)["nvisits"], full[w], "a later ten year run")
            ctx.outcome((w, str(n), b["nvisits"]))
    ctx.raises(ValueError, scale_benchmarks, 10, "other", what="an unknown benchmark")
    for nv in itertools.product((0, 1, 2, 10, 825), repeat=2):
        for d in itertools.product((20.0, 24.5), repeat=2):
            if not ctx.case("coadd", nv, d):
                continue
            ok, got = ctx.must(calc_coadded_depth, dict(zip("ur", nv)), dict(zip("urg", d + (1.0,))), what="calc_coadded_depth")
            if ok:
                ctx.equal(got, {b: (m if n == 0 else m + 1.25 * math.log10(n)) for b, n, m in zip("ur", nv, d)}, "coadded depth")
                ctx.outcome((nv, d))
    ctx.raises(ValueError, calc_coadded_depth, {"u": 1}, {"g": 22.0}, what="bands that do not match")


# --------------------------------------------------------------- gathering
NANV = float("nan")
DIRS = {
    "missing": None,
    "bare": [],
    "A": [("A", "Nv", "lab", "Hp", [("Mean", 1.0), ("Max", 5.0)])],
    "A2": [("A", "Nv", "lab", "Hp", [("Mean", 2.0)]), ("A", "Nv", "lab", "Uni", [("Mean", 9.0)])],
    "B": [("B", "Nv", "lab", "Hp", [("Mean", 3.0)]), ("B", "Depth", "r band", "Hp", [("Mean", 24.0), ("Rms", NANV)])],
    "AB": [("A", "Depth", " r band ", "Hp", [("Mean", 23.0)]), ("B", "Nv", "lab", "Hp", [("Max", 7.0)])],
    "nostat": [("A", "Nv", "lab", "Hp", [])],
}


def fill(d, spec):
    from rubin_sim.maf.db import ResultsDb

    db = ResultsDb(out_dir=d)
    for run, m, lab, sl, stats in spec:
        i = db.update_metric(m, sl, run, "sql", lab, f"{run}_{m}_{lab}_{sl}.npz")
        for n, v in stats:
            db.update_summary_stat(i, n, v)
    db.close()


def model(dirs):
    out = {}
    for d in dirs:
        for run, m, lab, sl, stats in DIRS[d] or []:
            for n, v in stats:
                k = (run, " ".join([n, m, lab.strip(), sl]))
                if k not in out or not math.isnan(v):
                    out[k] = v
    return out


def as_dict(df):
    return {(r, m): float(df.loc[r, m]) for r in df.index for m in df.columns}


def gather(ctx, first):
    from rubin_sim.maf.run_comparison import combine_result_dbs, gather_summaries, get_metric_summaries

    root = os.path.join(ctx.scratch, "runs")
    for k, spec in DIRS.items():
        d = os.path.join(root, k)
        os.makedirs(d)
        if spec is not None:
            fill(d, spec)
    others = [k for k in DIRS if k != first]
    for n in (0, 1, 2):
        for rest in itertools.permutations(others, n):
            dirs = (first,) + rest
            want = model(dirs)
            if not want:
                continue
            runs, mets = sorted({k[0] for k in want}), sorted({k[1] for k in want})
            full = {(r, m): want.get((r, m), NANV) for r in runs for m in mets}
            full_paths = [os.path.join(root, d) for d in dirs]
            if ctx.case("combine", dirs):
                ok, df = ctx.must(combine_result_dbs, full_paths, what="combine_result_dbs")
                if ok:
                    ctx.equal(as_dict(df), full, "gathered summaries")
                    ctx.outcome((dirs, sorted(full)))
                ctx.expect(os.listdir(os.path.join(root, "missing")) == [], "gathering wrote in a directory without results")
            if n == 2 and not ctx.thorough:
                continue
            for fmt in ("csv", "hdf"):
                if not ctx.case("file", dirs, fmt):
                    continue
                out = os.path.join(ctx.scratch, "out")
                argv = ["gather_summaries", "--dirs", ",".join(full_paths), "--outfile", out] + (["--to_csv"] if fmt == "csv" else [])
                fn = out + (".csv" if fmt == "csv" else ".h5")
                if os.path.exists(fn):
                    os.remove(fn)
                old, sys.argv = sys.argv, argv
                try:
                    ok, _ = ctx.must(gather_summaries, what="gather_summaries")
                finally:
                    sys.argv = old
                if not ok:
                    continue
                ok, df = ctx.must(get_metric_summaries, summary_source=fn, what="reading the gathered file")
                if ok:
                    ctx.equal(as_dict(df), full, "summaries read back from a file")
                    ctx.equal((df.index.name, df.columns.name), ("run", "metric"), "names of the axes")
                    ctx.outcome((dirs, fmt))


# --------------------------------------------------------------- selection
def summaries(ctx, part, parts):
    from rubin_sim.maf.run_comparison import create_metric_subset, get_metric_summaries

    runs, mets = ["r0", "r1", "r2"], ["m0", "m1", "m2"]
    base = pd.DataFrame([[10.0 * i + j for j in range(3)] for i in range(3)], index=runs, columns=mets)
    fams = pd.DataFrame({"run": ["r2", "r0", "r1"], "brief": "b", "filepath": "f", "url": "u"}, index=pd.Index(["F", "F", "G"], name="family"))
    subs = pd.concat([create_metric_subset("S", ["m2", "m0", "gone"]), create_metric_subset("T", ["m1"])])
    famruns = {"F": ["r2", "r0"], "G": ["r1"]}
    submets = {"S": ["m2", "m0"], "T": ["m1"]}

    def perms(x):
        return [p for n in range(len(x) + 1) for p in itertools.permutations(x, n)]

    def uniq(x):
        return list(dict.fromkeys(x))

    for i, rs in enumerate(perms(runs)):
        if i % parts != part:
            continue
        for ms in perms(mets + ["gone"]):
            if len(ms) > ctx.pick(1, 2) and (len(rs) > 1 or "gone" in ms):
                continue
            for fam in ((), "F", ["G"], ["G", "F"]):
                for sub in ((), "S", ["T"], ["T", "S"]):
                    for ro, mo in itertools.product(("family", "summary"), ("subset", "summary")):
                        if not ctx.case(rs, ms, fam, sub, ro, mo):
                            continue
                        src = base.copy()
                        ok, got = ctx.must(get_metric_summaries, run_families=fam, metric_subsets=sub, runs=rs, metrics=ms, summary_source=src, runs_source=fams, metric_subset_source=subs, run_order=ro, metric_order=mo, what="get_metric_summaries")
                        if not ok:
                            continue
                        wr = uniq(list(rs) + [r for f in ([fam] if isinstance(fam, str) else fam) for r in famruns[f]])
                        asked = list(ms) + [m for s in ([sub] if isinstance(sub, str) else sub) for m in submets[s]]
                        wm = uniq([m for m in asked if m in mets])
                        if not wr:
                            wr = runs
                        elif ro == "summary":
                            wr = [r for r in runs if r in wr]
                        if not asked:
                            wm = mets
                        elif mo == "summary":
                            wm = [m for m in mets if m in wm]
                        ctx.equal(uniq(got.index), wr, "runs and their order")
                        ctx.equal(uniq(got.columns), wm, "metrics and their order")
                        ctx.expect(all(np.all(got.loc[[r], [m]].values == base.loc[r, m]) for r in wr for m in wm), "values", got=got.values.tolist())
                        ctx.expect(src.equals(base), "the summary given was changed")
                        ctx.outcome((wr, wm))


def subsets(ctx):
    from rubin_sim.maf.run_comparison import create_metric_subset, get_metric_subsets, write_metric_subsets

    fn = os.path.join(ctx.scratch, "subsets.json")
    names = ["plain", "with 'quotes' and, commas", "M\u00fcnchen %"]
    flags = list(itertools.product((False, True), repeat=2))
    for n in (1, 2, 3):
        for fl in itertools.product(flags, repeat=n):
            for short in (None, ["a", "b", "c"][:n]):
                for style in ("-", ["-", "--", ":"][:n]):
                    if not ctx.case(n, fl, short, style):
                        continue
                    inv, mag = [f[0] for f in fl], [f[1] for f in fl]
                    s1 = create_metric_subset("One set", names[:n], short_name=short, style=style, invert=inv, mag=mag)
                    s2 = create_metric_subset("Other", names[:n][::-1], style=style, invert=inv, mag=mag)
                    both = pd.concat([s1, s2])
                    write_metric_subsets(fn, both)
                    ok, got = ctx.must(get_metric_subsets, fn, what="reading metric subsets")
                    if not ok:
                        continue
                    ctx.equal([tuple(i) for i in got.index], [("One set", m) for m in names[:n]] + [("Other", m) for m in names[:n][::-1]], "index")
                    sty = [style] * n if isinstance(style, str) else style
                    ctx.equal(got["metric"].tolist(), names[:n] + names[:n][::-1], "metrics")
                    ctx.equal(got["short_name"].tolist(), (short or names[:n]) + names[:n][::-1], "short names")
                    ctx.equal(got["style"].tolist(), list(sty) * 2, "styles")
                    ctx.equal(got["invert"].astype(bool).tolist(), inv * 2, "invert")
                    ctx.equal(got["mag"].astype(bool).tolist(), mag * 2, "mag")
                    ctx.expect(get_metric_subsets(both) is both or get_metric_subsets(both).equals(both), "a table is returned as it is")
                    ctx.outcome((n, fl))


# ----------------------------------------------------------- normalization
def norm_value(v, n, inv, mag):
    if math.isnan(v) or math.isnan(n):
        return NANV
    if inv and mag:
        return 1 - (v - n)
    if mag:
        return 1 + (v - n)
    if inv:
        return n / v
    return v / n


def normalize(ctx, nm, which):
    from rubin_sim.maf.run_comparison import create_metric_subset, normalize_metric_summaries

    runs = ["zeta", "base", "alpha"]
    mets = ["my", "ma", "mx"][:nm]
    vals = {"a": [[2.0, 24.5, 7.0], [4.0, 24.0, 7.0], [-3.0, 25.0, 0.5]], "nan": [[2.0, NANV, 7.0], [4.0, 24.0, 9.0], [NANV, 25.0, 0.5]]}
    for vn, v in vals.items():
        if vn != which:
            continue
        df = pd.DataFrame([r[:nm] for r in v], index=runs, columns=mets)
        for fl in [None] + list(itertools.product(itertools.product((False, True), repeat=2), repeat=nm)):
            for order in (0, 1):
                for missing in (None, 0) if fl is not None and nm > 1 else (None,):
                    for base in ("base", ["base"], ["zeta", "base"], ["base", "alpha", "zeta"]):
                        for axes in ("plain", "named", "OpsimRun", "transposed", "T2") if nm < 3 or ctx.thorough else ("OpsimRun", "T2"):
                            if not ctx.case(nm, vn, fl, order, missing, base, axes):
                                continue
                            ms = None
                            used = list(mets)
                            if fl is not None:
                                sel = [m for k, m in enumerate(mets) if k != missing]
                                used = sel
                                f = dict(zip(mets, fl))
                                seq = sel[::-1] if order else sel
                                seq = seq + ["unrelated"]
                                ms = create_metric_subset("S", seq, invert=[f.get(m, (True, 0))[0] for m in seq], mag=[f.get(m, (0, False))[1] for m in seq])
                                ms["invert"] = ms["invert"].astype(bool)
                                ms["mag"] = ms["mag"].astype(bool)
                            elif order:
                                continue
                            src = {
                                "plain": lambda: df.copy(),
                                "named": lambda: df.rename_axis(index="run", columns="metric"),
                                "OpsimRun": lambda: df.rename_axis(index="OpsimRun"),
                                "transposed": lambda: df.rename_axis(index="run", columns="metric").T,
                                "T2": lambda: df.rename_axis(columns="metric").T,
                            }[axes]()
                            keep = src.copy()
                            ok, got = ctx.must(normalize_metric_summaries, base, src, ms, what="normalize_metric_summaries")
                            if not ok:
                                continue
                            ctx.equal(list(got.index), runs, "runs and their order")
                            ctx.equal(list(got.columns), used, "metrics and their order")
                            if list(got.index) != runs or list(got.columns) != used:
                                continue
                            for m in used:
                                bl = [base] if isinstance(base, str) else base
                                b = [float(df.loc[r, m]) for r in bl]
                                b = [x for x in b if not math.isnan(x)]
                                n = float(np.median(b)) if b else NANV
                                inv, mag = dict(zip(mets, fl))[m] if fl is not None else (False, False)
                                want = [norm_value(float(df.loc[r, m]), n, inv, mag) for r in runs]
                                ctx.equal(got[m].astype(float).tolist(), want, "normalized values", metric=m)
                            ctx.expect(src.equals(keep), "the summary given was changed")
                            ctx.outcome((nm, vn, fl, base))


def radar(ctx):
    from rubin_sim.maf.run_comparison import normalize_for_radar

    runs, mets = ["b", "baseline", "c"], ["m0", "m1", "m2"]
    df = pd.DataFrame([[2.0, 24.5, 7.0], [4.0, 24.0, 7.5], [-3.0, 25.0, 0.5]], index=runs, columns=mets)

    def sets(x):
        return [list(c) for n in range(len(x) + 1) for c in itertools.combinations(x, n)]

    for inv in [None] + sets(mets):
        for rev in [None] + sets(mets):
            for mag in sets(mets) + ["all"]:
                for nr in ("baseline", "c", None):
                    if not ctx.case(inv, rev, mag, nr):
                        continue
                    src = df.copy()
                    ok, got = ctx.must(normalize_for_radar, src, norm_run=nr, invert_cols=inv, reverse_cols=rev, mag_cols=mag, what="normalize_for_radar")
                    if not ok:
                        continue
                    want = df.copy()
                    for m in mets:
                        x = want[m].to_numpy(copy=True)
                        if m in (rev or []):
                            x = -x
                        if m in (inv or []):
                            x = 1 / x
                        if nr is not None:
                            n = x[runs.index(nr)]
                            x = 1 + (x - n) if mag == "all" or m in mag else x / n
                        want[m] = x
                    ctx.equal(got.values, want.values, "radar values")
                    ctx.expect(src.equals(df), "the summary given was changed")
                    ctx.outcome((inv, rev, mag, nr))


# ----------------------------------------------------------------- families
def families(ctx):
    from rubin_sim.maf.run_comparison import download_runs, get_family_descriptions, get_family_runs, get_runs

    srcd = os.path.join(ctx.scratch, "src")
    os.makedirs(srcd)
    for k in range(3):
        with open(os.path.join(srcd, f"run{k}.db"), "w") as f:
            f.write(f"content {k}")

    def run(k):
        return (f"run{k}", f"brief {k}", f"v1/{'ab'[k % 2]}/run{k}.db", "file://" + os.path.join(srcd, f"run{k}.db"))

    js = os.path.join(ctx.scratch, "fam.json")
    subs = [c for n in (1, 2, 3) for c in itertools.permutations(range(3), n)]
    for f1 in subs:
        for f2 in [()] + (subs if ctx.thorough else subs[:7]):
            fams = {"first": f1}
            if f2:
                fams["second"] = f2
            spec = {}
            for n, ks in fams.items():
                r = [run(k) for k in ks]
                spec[n] = dict(description=f"about {n}", version="1.0", run=[x[0] for x in r], brief=[x[1] for x in r], filepath=[x[2] for x in r], url=[x[3] for x in r])
            with open(js, "w") as f:
                json.dump(spec, f)
            if ctx.case("tables", f1, f2):
                ok, fr = ctx.must(get_family_runs, js, what="get_family_runs")
                if ok:
                    ctx.equal(list(zip(fr.index, fr["run"], fr["brief"], fr["filepath"], fr["url"])), [(n, *run(k)) for n, ks in fams.items() for k in ks], "runs of the families")
                ok, rr = ctx.must(get_runs, js, what="get_runs")
                if ok:
                    want = {f"run{k}": (sorted(n for n, ks in fams.items() if k in ks), *run(k)[1:]) for k in range(3) if any(k in ks for ks in fams.values())}
                    got = {r: (sorted(x.family), x.brief, x.filepath, x.url) for r, x in rr.iterrows()}
                    ctx.equal(got, want, "families of the runs")
                    ctx.equal(len(rr), len(want), "one row per run")
                ok, fd = ctx.must(get_family_descriptions, js, what="get_family_descriptions")
                if ok:
                    ctx.equal({n: (x.description, list(x.run)) for n, x in fd.iterrows()}, {n: (f"about {n}", [f"run{k}" for k in ks]) for n, ks in fams.items()}, "descriptions")
                ctx.outcome((f1, f2))
            if len(f1) > 2 or len(f2) > 1:
                continue
            have = sorted({k for ks in fams.values() for k in ks})
            for n in range(1, len(have) + 1):
                for ask in itertools.permutations(have, n):
                    for exist in itertools.product((False, True), repeat=n):
                        for clobber in (False, True):
                            if not ctx.case("download", f1, f2, ask, exist, clobber):
                                continue
                            import shutil

                            dest = os.path.join(ctx.scratch, "dest")
                            shutil.rmtree(dest, ignore_errors=True)
                            os.makedirs(dest)
                            for k, e in zip(ask, exist):
                                if e:
                                    p = os.path.join(dest, run(k)[2])
                                    os.makedirs(os.path.dirname(p), exist_ok=True)
                                    with open(p, "w") as f:
                                        f.write("mine")
                            names = [f"run{k}" for k in ask] if n > 1 else f"run{ask[0]}"
                            ok, fn = ctx.must(download_runs, names, dest_dir=dest, runs_source=js, clobber=clobber, what="download_runs")
                            if not ok:
                                continue
                            ctx.equal(dict(fn), {f"run{k}": os.path.join(dest, run(k)[2]) for k in ask}, "names of the files")
                            got = {}
                            for dp, _, fs in os.walk(dest):
                                for x in fs:
                                    with open(os.path.join(dp, x)) as f:
                                        got[os.path.relpath(os.path.join(dp, x), dest)] = f.read()
                            want = {run(k)[2]: "mine" if e and not clobber else f"content {k}" for k, e in zip(ask, exist)}
                            ctx.equal(got, want, "files downloaded")
                            ctx.outcome((ask, exist, clobber))
    if ctx.case("nodir"):
        ctx.raises(FileNotFoundError, download_runs, "run0", dest_dir=os.path.join(ctx.scratch, "nowhere"), runs_source=js, what="a missing destination")


UNITS = [Unit(f"summaries-{k}", summaries, part=k, parts=4) for k in range(4)]
UNITS += [Unit(f"select-{t}", select, table=t) for t in ("observations", "SummaryAllProps", "summary")]
UNITS += [Unit("query", query), Unit("benchmarks", benchmarks)]
UNITS += [Unit(f"gather-{d}", gather, first=d) for d in DIRS]
UNITS += [Unit("subsets", subsets)]
UNITS += [Unit(f"normalize-{n}-{w}", normalize, nm=n, which=w) for n in (3, 2, 1) for w in ("a", "nan")]
UNITS += [Unit("radar", radar), Unit("families", families)]
