"""B01: every bundle of a batch is about the visits that its label and the constraint given to the batch say."""
import contextlib
import gzip
import inspect
import io
import itertools
import os
import re
import sqlite3
import warnings

import healpy as hp
import numpy as np
import pandas as pd
from astropy.table import Table

from mc.core import Unit
from mc.props.o03 import data_dir as o03_data_dir

import rubin_sim.maf as maf
import rubin_sim.maf.batches as B
import rubin_sim.maf.maf_contrib as contrib
import rubin_sim.maf.metric_bundles as mb
import rubin_sim.maf.metrics as metrics
from rubin_sim.maf.slicers import HealpixSlicer, HealpixSubsetSlicer

PROPERTY = "B01"
LEVEL = "exploration"
RULE = (
    "every batch x every constraint and label of a menu, each bundle's selection evaluated on a database with every "
    "combination of band, night and note; non-trivial = the constraint keeps some visits and drops others"
)
ASSUMPTIONS = ["column names of the FBS database", "metrics that need downloaded light curves are replaced by a count of visits"]

BANDS = "ugrizy"
NIGHTS = [1, 200, 364, 366, 500, 1400, 3000]
NOTES = ["pair_33, gr, a", "DD:ELAISS1, u", "long", "blob_long, x, b", "ToO, t1", "twilight_near_sun, 1", "DD:COSMOS, i", "greedy", "DD:XMM_LSS", "DD:ECDFS, a", "DD:EDFS_a", "DD:EDFS_b, z"]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def rows(combos):
    """Visits over (band, night, note), every quantity with its own pattern."""
    r = []
    for i, (b, n, note) in enumerate(combos):
        r.append(
            dict(
                observationId=i, fieldRA=(i % 4) * 0.9 + 10 * (i % 3), fieldDec=-20 - (i % 5) * 0.7, observationStartMJD=61000 + n + 0.1 + 0.0007 * (i % 300),
                visitExposureTime=30.0 if i % 5 else 15.0, visitTime=34.0 - 10 * (i % 5 == 0), band=b, filter=b + "_57", rotSkyPos=float((37 * i) % 360), numExposures=1 + i % 2,
                airmass=1 + 0.05 * (i % 7), seeingFwhm500=0.6 + 0.1 * (i % 3), seeingFwhmEff=0.7 + 0.07 * (i % 4), seeingFwhmGeom=0.6 + 0.05 * (i % 4), skyBrightness=21 - 0.1 * (i % 6),
                night=n, slewTime=5.0 + i % 9, slewDistance=2.0 * (i % 8), fiveSigmaDepth=24 + 0.05 * (i % 11), altitude=40.0 + i % 40, azimuth=float((11 * i) % 360),
                paraAngle=10.0 * i % 360, pseudoParaAngle=5.0, cloud=0.1 * (i % 3), moonAlt=-10.0 + i % 50, moonAz=100.0 + i % 90, sunAlt=-20.0 - i % 5, sunAz=200.0, moonRA=150.0, moonDec=-10.0 + i % 6,
                moonDistance=60.0 + i % 20, solarElong=100.0 + i % 30, moonPhase=float((7 * i) % 100), scheduler_note=note, target_name=["", "COSMOS", "lowdust"][i % 3], science_program="BLOCK-365",
                observation_reason=["template_blob_gr_33", "singles_r", "ddf_x"][i % 3], observationStartLST=(20.0 * i) % 360, rotTelPos=(13.0 * i) % 90, rotTelPos_backup=0.0, rotSkyPos_desired=0.0,
                note="", proposalId=1, fieldId=-1,
            )
        )
    return pd.DataFrame(r)


def mkdb(df, path):
    if os.path.exists(path):
        os.unlink(path)
    with contextlib.closing(sqlite3.connect(path)) as c:
        df.to_sql("observations", c, index=False)
        c.commit()
    return path


def data(ctx):
    d = o03_data_dir(ctx)
    if not os.path.isdir(os.path.join(d, "maps")):
        for s in ("maps/DustMaps", "maps/TriMaps", "scheduler/dust_maps"):
            os.makedirs(os.path.join(d, s))
        for ns in (1, 2, 8, 16, 32, 64):
            m = 0.01 + 0.001 * (np.arange(12 * ns * ns) % 50)
            np.savez(os.path.join(d, "maps/DustMaps", f"dust_nside_{ns}.npz"), ebvMap=m)
            np.savez(os.path.join(d, "scheduler/dust_maps", f"dust_nside_{ns}.npz"), ebvMap=m)
        with open(os.path.join(d, "scheduler/EWS.SGC.Mainland.ROI.2022.RADEC.txt"), "w") as f:
            for a, b in ((0, -20), (40, -20), (60, -40), (40, -60), (0, -60), (-20, -40)):
                f.write(f"{a % 360} {b}\n")
        os.makedirs(os.path.join(d, "maf/lvdwarfs"))
        t = {"ra": np.arange(20) * 18.0, "dec": -60.0 + 4 * np.arange(20), "MStars": np.full(20, 1e9), "dist_Mpc": 2.0 + np.arange(20) % 5}
        Table(t).write(os.path.join(d, "maf/lvdwarfs/lsst_galaxies_1p25to9Mpc_table.fits"))
        with open(os.path.join(d, "maf/lvdwarfs/LF_-1.5_10Gyr.dat"), "w") as f:
            f.write("# line\n" * 12 + "# magbinc " + " ".join(b + "mag" for b in BANDS) + "\n")
            for i in range(20):
                f.write(f"{-5 + i} " + " ".join(str(10 + 5 * i + j) for j in range(6)) + "\n")
        os.makedirs(os.path.join(d, "maf/xrb"))
        with gzip.open(os.path.join(d, "maf/xrb/sample_xrb_positions.csv.gz"), "wt") as f:
            for i in range(50):
                f.write(f"{(7 * i) % 360},{-60 + i},{1 + i % 9},{0.01 * (i % 10)}\n")
    return d


class tri_maps:
    """Star density maps, only for the batches that draw events from them."""

    def __init__(self, d):
        self.d = d

    def __enter__(self):
        m = np.ones((12 * 128 * 128, 4)) * np.arange(1, 5)
        m *= (1 + np.arange(len(m)) % 7)[:, None]
        for b in BANDS:
            np.savez(os.path.join(self.d, "maps/TriMaps", f"TRIstarDensity_{b}_nside_128.npz"), starDensity=m, bins=np.array([15.0, 18.0, 21.0, 24.0, 27.0]))

    def __exit__(self, *a):
        pass


def stub(name, saved):
    class Stub(metrics.BaseMetric):
        def __init__(self, *a, metric_name=name, **k):
            super().__init__(col=["observationStartMJD"], metric_name=metric_name, units="")

        def run(self, data_slice, slice_point=None):
            return float(len(data_slice))

    Stub.__name__ = name
    for m in (maf, metrics, contrib):
        if hasattr(m, name):
            saved.append((m, name, getattr(m, name)))
            setattr(m, name, Stub)


NODATA = {}  # batch: metrics whose data files are missing here


def build(fn, made, **kw):
    """The bundles of a batch; metrics whose data files are missing are counts."""
    saved, done = [], NODATA.setdefault(fn.__name__, set())
    try:
        for n in sorted(done):
            stub(n, saved)
        for _ in range(60):
            made.clear()
            try:
                return quiet(fn, **kw)
            except OSError as e:
                tb, cls = e.__traceback__, None
                while tb:
                    s = tb.tb_frame.f_locals.get("self")
                    if cls is None and tb.tb_frame.f_code.co_name == "__init__" and isinstance(s, metrics.BaseMetric):
                        cls = type(s)
                    tb = tb.tb_next
                if cls is None or cls.__name__ in done:
                    raise
                done.add(cls.__name__)
                stub(cls.__name__, saved)
    finally:
        for m, n, v in reversed(saved):
            setattr(m, n, v)


def small(**k):
    return quiet(HealpixSlicer, nside=2, use_camera=False, verbose=False, radius=15.0, **k)


def subset():
    return quiet(HealpixSubsetSlicer, 2, np.arange(20, 44), use_camera=False, verbose=False, radius=15.0)


# name: (keyword of the constraint, keyword of the label, other arguments, runs on the small database)
BATCHES = {
    "altazHealpix": ("extraSql", "extraInfoLabel", {}, False),
    "altazLambert": ("extraSql", "extraInfoLabel", {}, False),
    "ddfBatch": ("extra_sql", "extra_info_label", {"nside": 16, "nside_sne": 16}, False),
    "filtersPerNight": ("extraSql", "extraInfoLabel", {}, True),
    "filtersWholeSurvey": ("extraSql", "extraInfoLabel", {}, True),
    "glanceBatch": ("sql_constraint", None, {"nside": 2, "pairnside": 2}, False),
    "hourglassPlots": ("extraSql", "extraInfoLabel", {}, False),
    "metadataBasics": ("extraSql", "extraInfoLabel", {"value": "airmass", "slicer": small}, True),
    "metadataBasics-HA": ("extraSql", "extraInfoLabel", {"value": "HA", "slicer": small}, True),
    "metadataBasics-norm": ("extraSql", "extraInfoLabel", {"value": "normairmass", "slicer": small}, True),
    "metadataBasicsAngle": ("extraSql", "extraInfoLabel", {"value": "rotSkyPos", "slicer": small}, True),
    "metadataMaps": ("extraSql", "extraInfoLabel", {"value": "fiveSigmaDepth", "slicer": small}, True),
    "allMetadata": ("extraSql", "extraInfoLabel", {"slicer": small}, False),
    "firstYearMetadata": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "openshutterFractions": ("extraSql", "extraInfoLabel", {}, True),
    "meanRADec": ("extraSql", "extraInfoLabel", {}, True),
    "eastWestBias": ("extraSql", "extraInfoLabel", {}, True),
    "slewBasics": ("sql_constraint", None, {}, True),
    "fOBatch": ("extra_sql", "extra_info", {"slicer": small}, True),
    "astrometryBatch": ("extra_sql", "extra_info", {"slicer": small}, True),
    "rapidRevisitBatch": ("extra_sql", "extra_info", {"slicer": small}, True),
    "intraNight": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "interNight": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "timeGaps": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "seasons": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "nvisitsM5Maps": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "tEffMetrics": ("extraSql", "extraInfoLabel", {"slicer": small}, True),
    "nvisitsPerNight": ("extraSql", "extraInfoLabel", {}, True),
    "nvisitsPerSubset": ("constraint", "extraInfoLabel", {}, True),
    "science_radar_batch": (None, None, {"nside": 2}, False),
    "science_radar_batch-srd": (None, None, {"nside": 2, "srd_only": True}, False),
    "radar_limited": (None, None, {"nside": 2}, False),
    "info_bundle_dicts": (None, None, {"allsky_slicer": small, "wfd_slicer": subset}, False),
}
SQLS = [None, "", "night < 365", "scheduler_note not like 'DD%'", "night < 2 or scheduler_note like 'DD%'", "band = 'r'", "band = 'g' or band = 'i'"]
LABELS = [None, "Xlabel"]


def call(name, sql=None, label=None):
    ks, kl, other, _ = BATCHES[name]
    kw = {k: (v() if callable(v) else v) for k, v in other.items()}
    if ks and sql is not None:
        kw[ks] = sql
    if kl and label is not None:
        kw[kl] = label
    made = []
    keep = mb.MetricBundle.__init__

    def init(self, *a, **k):
        keep(self, *a, **k)
        made.append(self)

    mb.MetricBundle.__init__ = init
    try:
        out = build(getattr(B, name.split("-")[0]), made, **kw)
    finally:
        mb.MetricBundle.__init__ = keep
    return out, made


def select(c, constraint):
    q = "select observationId from observations" + (f" where {constraint}" if constraint else "")
    return frozenset(r[0] for r in c.execute(q))


def label_rows(label, df):
    """Visits which a label allows: bands, DD or not, years; and the bands that must all be there."""
    ok = np.ones(len(df), bool)
    bands = set()
    for m in re.finditer(r"(?<![\w'])([ugrizy]{1,6}) bands?\b", label):
        bands |= set(m.group(1))
    if re.match(r"gri\b", label):
        bands |= set("gri")
    if bands and "all bands" not in label:
        ok &= df["band"].isin(bands).to_numpy()
    if re.search(r"\b[Nn]on-?DDF?\b|\bnon DDF?\b", label):
        ok &= ~df["scheduler_note"].str.startswith("DD").to_numpy()
    m = re.search(r"\b(?:[Yy]r|[Yy]ear) (\d+)$", label)
    if m:
        ok &= (df["night"] <= int(m.group(1)) * 365.25 + 1).to_numpy()
    return ok, bands


def static(ctx, batch):
    name = batch
    d = data(ctx)
    df = rows(itertools.product(BANDS, NIGHTS, NOTES))
    path = mkdb(df, os.path.join(ctx.scratch, "full.db"))
    ks, kl, _, _ = BATCHES[name]
    ctx.bounds = {"constraints": SQLS if ks else [None], "labels": LABELS if kl else [None], "visits": len(df)}
    cm = tri_maps(d) if "radar" in name else contextlib.nullcontext()
    with cm, contextlib.closing(sqlite3.connect(path)) as con:
        base = None
        menu = list(itertools.product(SQLS if ks else [None], LABELS if kl else [None]))
        if name == "ddfBatch" and not ctx.thorough:
            menu = [(None, None), (None, LABELS[1]), (SQLS[2], None), (SQLS[4], None), (SQLS[6], LABELS[1])]
        for sql, label in menu:
            if not ctx.case(name, sql, label):
                if base is not None or sql is not None or label is not None:
                    continue
            ok, got = ctx.must(call, name, sql, label, what="making the batch")
            if not ok:
                continue
            bd, made = got
            bl = list(bd.values())
            ctx.equal(len({id(b) for b in bl}), len({id(b) for b in made}), "no bundle is lost", lost=[(b.metric.name, b.constraint, b.info_label) for b in made if id(b) not in {id(x) for x in bl}][:5])
            ctx.equal(len({b.file_root for b in bl}), len(bl), "names of files are different", twice=[b.file_root for b in bl if [x.file_root for x in bl].count(b.file_root) > 1][:4] if len(bl) < 500 else None)
            sel = []
            for b in bl:
                ok, s = ctx.must(select, con, b.constraint, what="the constraint of a bundle")
                sel.append(s if ok else None)
            keys = [(b.metric.name, type(b.slicer).__name__) for b in bl]
            if base is None:
                base = (keys, sel)
            if sql is None and label is None:
                want = base[1]
            else:
                allowed = select(con, sql)
                want = [None if s is None else s & allowed for s in base[1]]
            if ctx.equal(sorted(keys), sorted(base[0]), "the same metrics whatever the constraint") and keys == base[0]:
                for b, s, w in zip(bl, sel, want):
                    ctx.equal(s == w, True, "visits of a bundle with a constraint given to the batch", metric=b.metric.name, constraint=b.constraint, label=b.info_label, missing=len(w - s) if s is not None and w is not None else None, extra=len(s - w) if s is not None and w is not None else None)
            for b, s in zip(bl, sel):
                if s is None:
                    continue
                lab = b.info_label or ""
                if sql:
                    lab = lab.replace(sql, "").strip()
                okr, bands = label_rows(lab, df)
                if hasattr(b.metric, "lsst_filter") or hasattr(b.metric, "filter_band"):
                    continue  # the band is one that the metric picks itself
                ids = set(df["observationId"][okr].tolist())
                ctx.equal(sorted(s - ids)[:3], [], "visits outside of what the label says", metric=b.metric.name, constraint=b.constraint, label=b.info_label)
                have = set(df["band"][df["observationId"].isin(s)])
                if bands and not sql:
                    ctx.equal(sorted(bands - have) if "all bands" not in lab else [], [], "bands of the label without a visit", metric=b.metric.name, constraint=b.constraint, label=b.info_label)
                if label and kl and name != "ddfBatch":
                    ctx.expect(label in (b.info_label or ""), "the label given is part of the label of the bundle", label=b.info_label, metric=b.metric.name)
            for b, x in zip(bl, sel):
                ctx.state([name, b.metric.name, b.info_label, b.constraint, len(x or ())])
            ctx.transitions += len(bl)
            ctx.outcome([name, sql, label, len(bl)], trivial=not sql)


def values(b):
    mv = b.metric_values
    if mv is None:
        return None
    m = np.ma.getmaskarray(mv)
    out = []
    for v, k in zip(np.ma.getdata(mv), m):
        if np.all(k):
            out.append(None)
        elif isinstance(v, np.ndarray):
            out.append([float(x) for x in v])
        else:
            try:
                out.append(float(v))
            except (TypeError, ValueError):
                out.append(repr(v)[:80])
    return out


def run(ctx, bd, path):
    g = mb.MetricBundleGroup(bd, path, out_dir=ctx.scratch, results_db=None, verbose=False, save_early=False)
    quiet(g.run_all, clear_memory=False, plot_now=False)
    return [(b.metric.name, b.info_label, values(b), {k: v for k, v in (b.summary_values or {}).items()}, np.asarray(b.slicer.slice_points.get("bins", []), dtype=object).tolist() if "bins" in b.slicer.slice_points else None) for b in bd.values()]


RUNSQL = ["night < 365", "scheduler_note not like 'DD%'", "night < 2 or scheduler_note like 'DD%'", "band = 'r' or band = 'g'"]


def dynamic(ctx, batch):
    """Running with a constraint gives what running without it on those visits gives."""
    name = batch
    data(ctx)
    combos = [(b, n, NOTES[(3 * i + j) % len(NOTES)]) for i, b in enumerate(BANDS) for j, n in enumerate([1, 1, 2, 200, 364, 366, 500])]
    combos = [combos[(i * 11) % len(combos)] for i in range(len(combos))]  # bands mixed within nights
    df = rows(combos)
    path = mkdb(df, os.path.join(ctx.scratch, "run.db"))
    ctx.bounds = {"visits": len(df), "constraints": RUNSQL}
    for sql in RUNSQL:
        if not ctx.case(name, sql):
            continue
        with contextlib.closing(sqlite3.connect(path)) as con:
            ids = select(con, sql)
        part = mkdb(df[df["observationId"].isin(ids)], os.path.join(ctx.scratch, "part.db"))
        ok, a = ctx.must(lambda: run(ctx, call(name, sql)[0], path), what="running with a constraint")
        ok2, b = ctx.must(lambda: run(ctx, call(name)[0], part), what="running on those visits")
        if not (ok and ok2):
            continue
        ctx.equal(len(a), len(b), "number of bundles")
        n = 0
        for x, y in zip(a, b):
            ctx.equal(x[0], y[0], "metric")
            ctx.equal(x[4], y[4], "bins of the slicer", metric=x[0])
            ctx.equal(x[2], y[2], "values with a constraint and on those visits", metric=x[0], label=x[1], rtol=1e-9)
            ctx.equal(sorted(x[3]), sorted(y[3]), "summary statistics", metric=x[0])
            for k in x[3]:
                if k in y[3]:
                    ctx.equal(np.asarray(x[3][k]).tolist() if not hasattr(x[3][k], "dtype") or x[3][k].dtype.names is None else x[3][k].tolist(), np.asarray(y[3][k]).tolist() if not hasattr(y[3][k], "dtype") or y[3][k].dtype.names is None else y[3][k].tolist(), f"summary {k}", metric=x[0], rtol=1e-9)
            n += x[2] is not None
        ctx.transitions += len(a)
        ctx.outcome([name, sql, n], trivial=n == 0)


def bands(ctx, batch):
    """A bundle for one band gives what it gives when there are visits of that band only."""
    name = batch
    data(ctx)
    combos = [(b, n, NOTES[(3 * i + j) % len(NOTES)]) for i, b in enumerate(BANDS) for j, n in enumerate([1, 1, 2, 200, 364, 366, 500])]
    combos = [combos[(i * 11) % len(combos)] for i in range(len(combos))]
    df = rows(combos)
    path = mkdb(df, os.path.join(ctx.scratch, "run.db"))
    ctx.bounds = {"visits": len(df), "bands": BANDS}
    ok, full = ctx.must(lambda: run(ctx, call(name)[0], path), what="running")
    if not ok:
        return
    for band in BANDS:
        if not ctx.case(name, band):
            continue
        part = mkdb(df[df["band"] == band], os.path.join(ctx.scratch, "part.db"))
        ok, b = ctx.must(lambda: run(ctx, call(name)[0], part), what="running on one band")
        if not ok:
            continue
        n = 0
        for x, y in zip(full, b):
            lab = x[1] or ""
            if re.search(rf"(?<!\w){band} band\b", lab):
                n += 1
                ctx.equal(x[2], y[2], "values of one band", metric=x[0], label=lab, rtol=1e-9)
        ctx.outcome([name, band, n], trivial=n == 0)


# ---------------------------------------------------------------- helpers
def common(ctx):
    ctx.bounds = {"filter_list": "all x 5 constraints x 3 labels x 2 columns", "metric names": "6 columns x 4 replacements"}
    df = rows(itertools.product(BANDS, [1, 500], NOTES[:3]))
    df["physical"] = df["band"]
    path = mkdb(df, os.path.join(ctx.scratch, "c.db"))
    with contextlib.closing(sqlite3.connect(path)) as con:
        for al, sql, lab, col in itertools.product([True, False], [None, "", "night < 5", "night < 2 or scheduler_note like 'DD%'", "band = 'g' or band = 'r'"], [None, "", "L"], ["band", "physical"]):
            if not ctx.case("filter_list", al, sql, lab, col):
                continue
            ok, got = ctx.must(B.filter_list, all=al, extra_sql=sql, extra_info_label=lab, band_col=col)
            if not ok:
                continue
            fl, colors, orders, sqls, labels = got
            ctx.equal(sorted(fl), sorted(list(BANDS) + (["all"] if al else [])), "bands")
            for dct in (colors, orders, sqls, labels):
                ctx.equal(sorted(dct), sorted(fl), "one entry per band")
            ctx.equal(len(set(orders.values())), len(orders), "orders differ")
            ctx.equal(len(set(labels.values())), len(labels), "labels differ")
            for f in fl:
                want = {i for i in select(con, sql) if f == "all" or df["band"][i] == f}
                ctx.equal(select(con, sqls[f]) == want, True, "visits of a band", sql=sqls[f], band=f)
            ctx.outcome([al, sql, lab, col], trivial=not sql)
    for a, b in itertools.product([None, "A", "B b"], repeat=2):
        if ctx.case("combine", a, b):
            ctx.equal(B.combine_info_labels(a, b), " ".join(x for x in (a, b) if x is not None) or None, "combined label")
            ctx.outcome([a, b], trivial=False)
    stems = {B.standard_metrics: ["Mean", "Median", "Min", "Max"], B.extended_metrics: ["Mean", "Median", "Min", "Max", "Rms", "N(+3Sigma)", "N(-3Sigma)", "25th%ile", "75th%ile", "Count"], B.standard_angle_metrics: ["AngleMean", "AngleRms", "FullRange", "Min", "Max"]}
    for fn, col, rep in itertools.product(stems, ["airmass", "seeing", "night", "slewTime", "Mean", "fiveSigmaDepth"], [None, "", "x", "airmassy"]):
        if not ctx.case("names", fn.__name__, col, rep):
            continue
        ok, ms = ctx.must(fn, col, replace_colname=rep)
        if not ok:
            continue
        ok, plain = ctx.must(fn, col)
        for m, p in zip(ms, plain):
            ctx.equal([type(m).__name__, m.colname], [type(p).__name__, p.colname], "metric")
            if col == "Mean":
                continue
            if rep is None:
                ctx.equal(m.name, p.name, "name")
            elif rep == "":
                ctx.equal(m.name, p.name.replace(col, "").strip(), "name without the column")
            else:
                ctx.equal(m.name, p.name.replace(col, rep), "name with the column replaced")
        ctx.equal(len(ms), len(plain), "number of metrics")
        ctx.outcome([fn.__name__, col, rep], trivial=rep is None)


UNITS = [Unit("common", common)]
UNITS += [Unit(f"select-{n}", static, batch=n) for n in BATCHES]
UNITS += [Unit(f"run-{n}", dynamic, batch=n) for n, v in BATCHES.items() if v[3]]
UNITS += [Unit(f"bands-{n}", bands, batch=n) for n, v in BATCHES.items() if v[3]]
