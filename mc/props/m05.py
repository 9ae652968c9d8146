"""M05: saved metric results restore identically; JSON export lists exactly the values."""
import itertools
import json
import os

import numpy as np
import numpy.ma as ma

from mc.core import Unit
from rubin_sim.maf.metric_bundles import MetricBundle
from rubin_sim.maf.metrics import BaseMetric, CountMetric, MeanMetric
from rubin_sim.maf.slicers import BaseSlicer, HealpixSlicer, HealpixSubsetSlicer, MoObjSlicer, NDSlicer, OneDSlicer, UniSlicer, UserPointsSlicer

PROPERTY = "M05"
LEVEL = "exploration"
RULE = "every slicer kind x every value/mask pattern over its slices x every header combination from a small menu; non-trivial = at least one slice carries a value"
ASSUMPTIONS = []


def visits():
    a = np.zeros(4, dtype=[("x", float), ("y", float), ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)])
    a["x"] = [0, 1, 2, 3]
    a["y"] = [5, 6, 7, 7.5]
    a["fieldRA"] = [0, 90, 180, 270]
    return a


def mk(kind):
    if kind == "uni":
        s = UniSlicer(verbose=False)
    elif kind == "one":
        s = OneDSlicer(slice_col_name="x", bins=np.array([0.0, 1.0, 2.5, 3.0]), verbose=False)
    elif kind == "one1":
        s = OneDSlicer(slice_col_name="x", slice_col_units="m", bin_size=1.0, verbose=False)
    elif kind == "nd":
        s = NDSlicer(["x", "y"], bins_list=[np.array([0.0, 1.0, 3.0]), np.array([5.0, 6.0, 8.0])], verbose=False)
    elif kind == "pts":
        s = UserPointsSlicer([0.0, 90.0, 181.0], [0.0, -30.0, 45.0], use_camera=False, verbose=False)
    elif kind == "hp":
        s = HealpixSlicer(nside=1, use_camera=False, verbose=False)
    elif kind == "hpr":
        s = HealpixSlicer(nside=2, use_camera=False, verbose=False, lon_col="fieldRA", lat_col="fieldDec", radius=1.5)
    elif kind == "sub":
        s = HealpixSubsetSlicer(1, np.array([0, 3, 4]), use_camera=False, verbose=False)
    s.setup_slicer(visits())
    return s


def sp_equal(ctx, a, b, label):
    ctx.equal(sorted(a), sorted(b), f"{label}: slice point fields")
    for k in a:
        if k in b:
            ctx.equal(np.asarray(a[k]), np.asarray(b[k]), f"{label}: slice points {k}", rtol=0, atol=0)


def restored(ctx, b, mv, kind, f):
    for how in ("load", "read"):
        if how == "load":
            ok, nb = ctx.must(MetricBundle.load, f, what="loading a saved bundle")
        else:
            nb = MetricBundle(CountMetric("zzz"), UniSlicer(verbose=False), "other", run_name="other", plot_dict={"zz": 1}, info_label="other")
            nb.summary_values = {"stale": 1}
            ok, _ = ctx.must(nb.read, f, what="reading into an existing bundle")
        if not ok:
            return
        ctx.equal(type(nb.slicer).__name__, type(b.slicer).__name__, "slicer kind")
        ctx.equal(int(nb.slicer.nslice), int(b.slicer.nslice), "number of slices")
        ctx.equal(np.asarray(nb.slicer.shape).tolist(), np.asarray(b.slicer.shape).tolist(), "slicer shape")
        sp_equal(ctx, b.slicer.get_slice_points(), nb.slicer.get_slice_points(), "restored")
        gm, wm = ma.getmaskarray(nb.metric_values), ma.getmaskarray(mv)
        ctx.equal(gm.tolist(), wm.tolist(), "masked slices")
        ctx.equal([v for v, m in zip(nb.metric_values.data.ravel().tolist(), gm.ravel()) if not m], [v for v, m in zip(mv.data.ravel().tolist(), wm.ravel()) if not m], "slice values", rtol=0, atol=0)
        ctx.equal([nb.metric.name, nb.run_name, nb.constraint, nb.info_label], [b.metric.name, b.run_name, b.constraint, b.info_label], "descriptive information")
        ctx.equal({k: v for k, v in nb.plot_dict.items()}, b.plot_dict, "plot settings")
        ctx.equal({k: nb.display_dict.get(k) for k in b.display_dict}, b.display_dict, "display settings")
        ctx.equal(nb.summary_values, b.summary_values, "summary values")
        ctx.equal(nb.file_root, os.path.basename(f)[: -len(".npz")], "file root")
        if kind == "one":
            ctx.expect(nb.slicer == b.slicer, "restored slicer equals the original")
        if kind in ("hp", "hpr", "sub"):
            ctx.equal([nb.slicer.nside, nb.slicer.lon_col, nb.slicer.radius], [b.slicer.nside, b.slicer.lon_col, b.slicer.radius], "restored slicer configuration")
        if kind == "sub":
            ctx.equal([int(i) for i in nb.slicer.hpid], [int(i) for i in b.slicer.hpid], "restored pixel subset")


def patterns(ctx, kind):
    sl = mk(kind)
    n = int(sl.nslice)
    vals = [0.0, -1.5, np.nan, np.inf, 1e300]
    m = min(n, 4)
    ctx.bounds = {"slicer": kind, "slices": n, "values": vals}
    for mask in itertools.product([False, True], repeat=m):
        for combo in itertools.product(vals[: (5 if m <= 3 else 3)], repeat=min(m, 3)):
            if not ctx.case(kind, mask, combo):
                continue
            full_mask = [mask[i % m] for i in range(n)]
            data = [combo[i % len(combo)] for i in range(n)]
            mv = ma.MaskedArray(data=np.array(data), mask=full_mask, fill_value=sl.badval)
            b = MetricBundle(MeanMetric("x"), sl, "", run_name="r", plot_funcs=[])
            b.metric_values = mv.copy()
            ok, _ = ctx.must(b.write, out_dir=ctx.scratch, what="writing")
            if not ok:
                continue
            f = os.path.join(ctx.scratch, b.file_root + ".npz")
            if ctx.expect(os.path.isfile(f), "file written where announced", f=f):
                restored(ctx, b, mv, kind, f)
                os.unlink(f)
            ctx.outcome([kind, data, full_mask], trivial=all(full_mask))


def headers(ctx):
    runs = ["run", "opsim v3.4/a b", ""]
    cons = ["", "filter = 'r' and night < 365", 'note like "%DD%"']
    labels = [None, "i band, 10y", ""]
    plots = [None, {"units": "mag", "color_min": 1.0, "zp": 25.0}, {"norm_val": 2.0, "xlabel": "a & b"}]
    disp = [None, {"group": "G", "subgroup": "S", "order": 3, "caption": "C"}]
    summ = [None, {"Mean": 1.5, "Identity": -666.0}, {"Table": np.array([1.0, 2.0])}]
    ctx.bounds = {"combinations": "full product of runs, constraints, labels, plot, display and summary menus"}
    sl = mk("one")
    for c in itertools.product(runs, cons, labels, plots, disp, summ):
        if not ctx.case(c[0], c[1], c[2], c[3], c[4], str(c[5])):
            continue
        b = MetricBundle(MeanMetric("x", metric_name="My, metric (x)"), sl, c[1], run_name=c[0], info_label=c[2], plot_dict=c[3], display_dict=c[4], plot_funcs=[])
        b.metric_values = ma.MaskedArray(data=np.arange(3.0), mask=[False, True, False])
        b.summary_values = c[5]
        for suffix in (None, "s1"):
            ok, _ = ctx.must(b.write, out_dir=ctx.scratch, outfile_suffix=suffix)
            if not ok:
                continue
            f = os.path.join(ctx.scratch, b.file_root + ("_s1" if suffix else "") + ".npz")
            if ctx.expect(os.path.isfile(f), "file written where announced", f=f):
                ctx.expect("/" not in b.file_root and " " not in b.file_root, "file name is sanitized", f=b.file_root)
                restored(ctx, b, b.metric_values, "one", f)
                os.unlink(f)
        ctx.outcome(b.file_root)


def objects(ctx):
    sl = mk("one")
    vals = [[1.0, 2.0], {"a": 3}, "txt", 4.5]
    for combo in itertools.product(range(len(vals)), repeat=3):
        for mask in itertools.product([False, True], repeat=3):
            if not ctx.case(combo, mask):
                continue
            d = np.empty(3, dtype=object)
            for i, k in enumerate(combo):
                d[i] = vals[k]
            b = MetricBundle(BaseMetric(col="x", metric_name="o", metric_dtype="object"), sl, "", plot_funcs=[])
            b.metric_values = ma.MaskedArray(data=d, mask=mask)
            ok, _ = ctx.must(b.write, out_dir=ctx.scratch)
            if ok:
                f = os.path.join(ctx.scratch, b.file_root + ".npz")
                nb = MetricBundle.load(f)
                ctx.equal(ma.getmaskarray(nb.metric_values).tolist(), list(mask), "mask")
                ctx.equal([nb.metric_values.data[i] for i in range(3) if not mask[i]], [vals[k] for i, k in enumerate(combo) if not mask[i]], "object values")
                os.unlink(f)
            ctx.outcome([combo, mask])


def plain_arrays(ctx):
    """Unmasked arrays and vector metrics through the slicer interface."""
    for kind in ("uni", "one", "pts", "hp"):
        sl = mk(kind)
        n = int(sl.nslice)
        for shape in ((n,), (n, 3)):
            for masked in (False, True):
                for meta in itertools.product(("m", "a b"), ("", "x=1"), ("", "lab")):
                    if not ctx.case(kind, shape, masked, meta):
                        continue
                    data = np.arange(float(np.prod(shape))).reshape(shape)
                    mv = ma.MaskedArray(data, mask=(data % 3 == 0), fill_value=-1.0) if masked else data
                    f = os.path.join(ctx.scratch, "f.npz")
                    ok, _ = ctx.must(sl.write_data, f, mv, metric_name=meta[0], sim_data_name="sim", constraint=meta[1], info_label=meta[2])
                    if not ok:
                        continue
                    ok, r = ctx.must(BaseSlicer().read_data, f)
                    if not ok:
                        continue
                    got, s2, head = r
                    ctx.equal(np.asarray(got.data), data, "values")
                    ctx.equal(ma.getmaskarray(got).tolist(), ma.getmaskarray(ma.asarray(mv)).tolist(), "mask")
                    ctx.equal([head["metric_name"], head["sim_data_name"], head["constraint"], head["info_label"]], [meta[0], "sim", meta[1], meta[2]], "header")
                    sp_equal(ctx, sl.get_slice_points(), s2.get_slice_points(), kind)
                    os.unlink(f)
                    ctx.outcome([kind, shape, masked, meta])


def overwrite(ctx):
    """Writing again replaces the earlier result completely."""
    sl = mk("one")
    opts = [([1.0, 2.0, 3.0], [False, False, False], None), ([9.0, 8.0, 7.0], [True, False, True], {"Mean": 8.0}), ([0.0, 0.0, 0.0], [True, True, True], {})]
    for seq in itertools.product(range(3), repeat=3):
        if not ctx.case(seq):
            continue
        for k in seq:
            b = MetricBundle(MeanMetric("x"), sl, "", run_name="r", plot_funcs=[])
            b.metric_values = ma.MaskedArray(data=np.array(opts[k][0]), mask=opts[k][1])
            b.summary_values = opts[k][2]
            b.write(out_dir=ctx.scratch)
            restored(ctx, b, b.metric_values, "one", os.path.join(ctx.scratch, b.file_root + ".npz"))
        ctx.outcome(seq)


def jsonout(ctx, kind):
    sl = mk(kind)
    n = int(sl.nslice)
    sp = sl.get_slice_points()
    m = min(n, 4)
    for mask in itertools.product([False, True], repeat=m):
        for masked in (True, False):
            for pd_ in ({}, {"title": "T", "xlabel": "X", "ylabel": "Y"}, {"units": "mag"}):
                if not ctx.case(kind, mask, masked, pd_):
                    continue
                fm = [mask[i % m] for i in range(n)]
                data = np.arange(n) * 1.5 - 1
                b = MetricBundle(MeanMetric("x", metric_name="MM"), sl, "", run_name="RN", info_label="IL", plot_dict=pd_, plot_funcs=[])
                b.metric_values = ma.MaskedArray(data=data, mask=fm) if masked else data
                ok, io = ctx.must(b.output_json, what="JSON output")
                if not ok or io is None:
                    ctx.expect(io is not None, "no JSON")
                    continue
                head, rows = json.loads(io.getvalue())
                ctx.equal([head["metric_name"], head["sim_data_name"], head["info_label"], head["slicer_name"], head["slicer_len"]], ["MM", "RN", "IL", sl.slicer_name, n], "JSON header")
                if "title" in pd_:
                    ctx.equal([head["title"], head["xlabel"], head["ylabel"]], ["T", "X", "Y"], "JSON labels")
                eff = fm if masked else [False] * n
                if kind in ("hp", "pts"):
                    want = [[np.degrees(sp["ra"][i]), np.degrees(sp["dec"][i]), data[i]] for i in range(n) if not eff[i]]
                elif kind == "one":
                    want = [[sp["bins"][i], 0 if eff[i] else data[i]] for i in range(n)] + [[sp["bins"][n], 0]]
                else:
                    want = [] if eff[0] else [[data[0]]]
                ctx.equal(rows, [[float(x) for x in r] for r in want], "JSON rows")
                ctx.outcome([kind, eff])


UNITS = (
    [Unit(f"patterns_{k}", patterns, kind=k) for k in ("uni", "one", "one1", "nd", "pts", "hp", "hpr", "sub")]
    + [Unit("headers", headers), Unit("objects", objects), Unit("plain", plain_arrays), Unit("overwrite", overwrite)]
    + [Unit(f"json_{k}", jsonout, kind=k) for k in ("uni", "one", "pts", "hp")]
)
