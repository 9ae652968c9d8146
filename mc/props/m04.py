"""M04: grouped evaluation equals evaluating each bundle on its own, slice by slice."""
import copy
import itertools
import os
import shutil
import sqlite3

import numpy as np
import pandas as pd

from mc.core import Unit
from rubin_sim.maf.maps import BaseMap
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.metrics import AreaSummaryMetric, BaseMetric, CountMetric, MaxMetric, MeanMetric, MedianMetric, SumMetric
from rubin_sim.maf.slicers import HealpixSlicer, HealpixSubsetSlicer, NDSlicer, OneDSlicer, UniSlicer, UserPointsSlicer
from rubin_sim.maf.stackers import HourAngleStacker, ZenithDistStacker

PROPERTY = "M04"
LEVEL = "exploration"
RULE = (
    "every ordered selection of up to 3 bundles from a catalogue mixing metrics, slicers (cached, uncached, shared or "
    "separate objects), constraints, conflicting stackers, maps, reductions and summaries, on several visit tables, and "
    "every small visit table for fixed groups; non-trivial = at least one slice has a value"
)
ASSUMPTIONS = ["the per-slice reference applies the same metric object to the visits of the slice (metrics and slicers are decided by their own properties)"]


class McMap(BaseMap):
    def __init__(self):
        self.keynames = ["mcmap"]

    def run(self, slice_points):
        slice_points["mcmap"] = np.asarray(slice_points["sid"]) * 10.0
        return slice_points


class McBadMetric(BaseMetric):
    """Returns badval below a threshold."""

    def __init__(self, **kw):
        super().__init__(col=["x"], metric_name="McBad", **kw)

    def run(self, data_slice, slice_point=None):
        v = float(np.sum(data_slice["x"]))
        return self.badval if v < 3 else v


class McSortMetric(BaseMetric):
    """Sorts the visits it is given, in place, like several cadence metrics."""

    def __init__(self, **kw):
        super().__init__(col=["x", "night"], metric_name="McSort", **kw)

    def run(self, data_slice, slice_point=None):
        data_slice.sort(order="night")
        return float(data_slice["x"][0])


class McMapMetric(BaseMetric):
    def __init__(self, **kw):
        super().__init__(col=["x"], metric_name="McMapM", maps=[McMap()], **kw)

    def run(self, data_slice, slice_point=None):
        return float(slice_point["mcmap"]) + float(np.max(data_slice["x"]))


class McVectorMetric(BaseMetric):
    def __init__(self, **kw):
        super().__init__(col=["x"], metric_name="McVec", **kw)
        self.shape = 3

    def run(self, data_slice, slice_point=None):
        x = np.sort(data_slice["x"])
        return np.array([x[0], x[-1], len(x)], float)


class McObjMetric(BaseMetric):
    """Complex metric with reduce functions."""

    def __init__(self, **kw):
        super().__init__(col=["x"], metric_name="McObj", **kw)

    def run(self, data_slice, slice_point=None):
        if len(data_slice) == 1:
            return self.badval
        return sorted(float(v) for v in data_slice["x"])

    def reduce_first(self, vals):
        return vals[0]

    def reduce_spread(self, vals):
        d = vals[-1] - vals[0]
        return self.badval if d == 0 else d


def table(rows):
    a = np.zeros(len(rows), dtype=[("x", float), ("night", int), ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float), ("filter", "U1"), ("altitude", float), ("lst", float)])
    for i, r in enumerate(rows):
        a[i] = (r[0], r[1], r[2], r[3], 0.0, r[4], 40.0 + 3 * i, 1.0 * r[1])
    return a


D1 = [(1.0, 2, 0.0, 0.0, "r"), (2.0, 1, 40.0, 10.0, "g"), (5.0, 0, 45.0, -40.0, "r"), (0.5, 3, 46.0, -41.0, "g"), (3.0, 2, 200.0, 88.0, "r")]
D2 = [(2.0, 5, 10.0, 5.0, "g"), (2.0, 4, 10.0, 5.0, "g"), (4.0, 1, 190.0, -5.0, "r")]
D3 = [(float(i), 9 - i, (i * 37.0) % 360, -80 + i * 17.0, "rg"[i % 2]) for i in range(10)]


def mk_slicer(kind):
    if kind == "hp":
        return HealpixSlicer(nside=1, radius=50.0, use_camera=False, verbose=False, use_cache=True)
    if kind == "hp2":
        return HealpixSlicer(nside=2, radius=25.0, use_camera=False, verbose=False, use_cache=True)
    if kind == "hp4":
        return HealpixSlicer(nside=4, radius=40.0, use_camera=False, verbose=False, use_cache=True)
    if kind == "hpn":
        return HealpixSlicer(nside=1, radius=50.0, use_camera=False, verbose=False, use_cache=False)
    if kind == "sub":
        return HealpixSubsetSlicer(1, np.array([0, 4, 5, 11]), radius=50.0, use_camera=False, verbose=False)
    if kind == "one":
        return OneDSlicer(slice_col_name="night", bins=np.array([0.0, 1.0, 2.0, 5.0]), verbose=False)
    if kind == "oneauto":
        return OneDSlicer(slice_col_name="night", bin_size=1.0, verbose=False)
    if kind == "uni":
        return UniSlicer(verbose=False)
    if kind == "pts":
        return UserPointsSlicer([0.0, 45.0, 300.0], [0.0, -40.0, 0.0], radius=10.0, use_camera=False, verbose=False)
    raise KeyError(kind)


def mk_metric(kind):
    return {
        "count": lambda: CountMetric("x", metric_name="C"),
        "mean": lambda: MeanMetric("x", metric_name="M"),
        "sumval": lambda: SumMetric("zenithDistance", metric_name="SV"),
        "meanmul": lambda: MeanMetric("HA", metric_name="MM"),
        "bad": McBadMetric,
        "sort": McSortMetric,
        "map": McMapMetric,
        "vec": McVectorMetric,
        "obj": McObjMetric,
    }[kind]()


def mk_stackers(sp):
    """Library stackers whose parameters change the column they add."""
    mk = {"a": lambda v: ZenithDistStacker(alt_col=v[0], degrees=v[1]), "m": lambda v: HourAngleStacker(lst_col="lst", ra_col="fieldRA", degrees=v)}
    return [mk[k](v) for k, v in sp]


# (metric, slicer, constraint, stackers, summaries)
CAT = [
    ("count", "hp", "", (), ("mean", "max")),
    ("mean", "hp", "", (), ("median",)),
    ("sumval", "hp", "", (("a", ("x", True)),), ("mean",)),
    ("sumval", "hp", "", (("a", ("x", False)),), ("mean",)),
    ("meanmul", "hp", "", (("m", True),), ()),
    ("meanmul", "hp", "", (("m", False), ("a", ("x", False))), ()),
    ("sort", "hp", "", (), ()),
    ("sumval", "hp", "", (), ("max",)),
    ("bad", "hp", "", (), ("mean", "sum0")),
    ("map", "hpn", "", (), ()),
    ("vec", "hp", "", (), ()),
    ("obj", "hp", "", (), ("mean",)),
    ("mean", "one", "", (), ("max",)),
    ("sumval", "one", "", (("a", ("altitude", False)),), ()),
    ("mean", "oneauto", "", (), ()),
    ("mean", "uni", "", (), None),
    ("mean", "pts", "", (), ("mean",)),
    ("mean", "sub", "", (), ("mean",)),
    ("count", "hp", "filter = 'r'", (), ("mean",)),
    ("sumval", "hp", "filter = 'r'", (("a", ("x", True)),), ()),
    ("mean", "one", "filter = 'z'", (), ("mean",)),
]


class Sum0(SumMetric):
    """A summary metric that wants masked slices filled."""

    def __init__(self):
        super().__init__(col="metricdata", metric_name="sum0", mask_val=0)


def mk_summ(s):
    if s is None:
        return None
    out = []
    for k in s:
        out.append({"mean": lambda: MeanMetric("metricdata", metric_name="mean"), "max": lambda: MaxMetric("metricdata", metric_name="max"), "median": lambda: MedianMetric("metricdata", metric_name="median"), "sum0": Sum0}[k]())
    return out


def select(rows, constraint):
    if constraint == "":
        return rows
    f = constraint.split("'")[1]
    return [r for r in rows if r[4] == f]


_ref_cache = {}


def reference(spec, rows_key, rows):
    """Values, mask, summary, reductions of one bundle, evaluated alone by hand."""
    key = (spec, rows_key)
    if key in _ref_cache:
        return _ref_cache[key]
    metric, slicer, constraint, stk, summ = spec
    sel = select(rows, constraint)
    if not sel:
        _ref_cache[key] = None
        return None
    data = table(sel)
    for s in mk_stackers(stk):
        data = s.run(data, override=True)
    if metric == "sumval" and not stk:
        data = ZenithDistStacker().run(data)
    m = mk_metric(metric)
    sl = mk_slicer(slicer)
    sl.setup_slicer(data, maps=[McMap()] if metric == "map" else [])
    n = len(sl)
    vals, mask = [None] * n, [True] * n
    for s in sl:
        i = int(s["slice_point"]["sid"])
        d = data[s["idxs"]]
        if len(d) == 0:
            continue
        v = m.run(d.copy(), slice_point=s["slice_point"])
        if np.ndim(v) == 0 and not isinstance(v, list) and v == m.badval:
            continue
        vals[i], mask[i] = v, False
    red = {}
    if metric == "obj":
        for rn, rf in (("first", m.reduce_first), ("spread", m.reduce_spread)):
            rv, rm = [None] * n, list(mask)
            for i in range(n):
                if not mask[i]:
                    rv[i] = rf(vals[i])
                    if rv[i] == m.badval:
                        rm[i] = True
            red[rn] = (rv, rm)

    def summarize(vals, mask):
        good = [v for v, k in zip(vals, mask) if not k]
        out = {}
        for k in summ if summ is not None else ():
            if k == "sum0":
                out[k] = float(sum(good)) if n else sl.badval
            elif not good:
                out[k] = sl.badval
            else:
                out[k] = {"mean": np.mean, "max": np.max, "median": np.median}[k](good)
        if summ is None:
            out["Identity"] = good[0] if good else sl.badval
        return out

    if metric == "obj":
        sm = {rn: summarize(*rv) for rn, rv in red.items()}
    elif metric == "vec":
        sm = {}
    else:
        sm = summarize(vals, mask)
    r = dict(vals=vals, mask=mask, red=red, summ=sm, n=n)
    _ref_cache[key] = r
    return r


def cmp_values(ctx, label, mv, vals, mask, vec=False):
    gm = np.ma.getmaskarray(mv)
    gm = [bool(np.all(k)) for k in gm]
    if vec:
        gm = [bool(np.all(k)) for k in np.ma.getmaskarray(mv)]
    if not ctx.equal(gm, list(mask), f"{label}: which slices have no value"):
        return False
    got = [mv.data[i] for i in range(len(mask)) if not mask[i]]
    want = [vals[i] for i in range(len(mask)) if not mask[i]]
    return ctx.equal([np.asarray(g).tolist() for g in got], [np.asarray(w).tolist() for w in want], f"{label}: slice values")


def mk_bundle(i, spec, shared):
    metric, slicer, constraint, stk, summ = spec
    if shared is not None:
        if slicer not in shared:
            shared[slicer] = mk_slicer(slicer)
        sl = shared[slicer]
    else:
        sl = mk_slicer(slicer)
    return MetricBundle(mk_metric(metric), sl, constraint, stacker_list=mk_stackers(stk), run_name="run", info_label=f"b{i}", summary_metrics=mk_summ(summ), plot_funcs=[])


def verify(ctx, label, b, spec, ref, group=None, key=None):
    if ref is None:
        ctx.expect(b.metric_values is None, f"{label}: a bundle whose constraint selects no visits gets no values")
        return
    if not ctx.expect(b.metric_values is not None, f"{label}: no values computed"):
        return
    cmp_values(ctx, label, b.metric_values, ref["vals"], ref["mask"], vec=spec[0] == "vec")
    if spec[0] not in ("vec", "obj"):
        sv = {k: v for k, v in (b.summary_values or {}).items()}
        ctx.equal({k: float(v) for k, v in sv.items()}, {k: float(v) for k, v in ref["summ"].items()}, f"{label}: summary values")


def run_group(ctx, specs, rows_key, rows, mode, scratch, shared):
    out = os.path.join(scratch, "out")
    os.makedirs(out, exist_ok=True)
    sh = {} if shared else None
    bundles = {f"k{i}": mk_bundle(i, s, sh) for i, s in enumerate(specs)}
    orig = dict(bundles)
    if mode == "mem":
        g = MetricBundleGroup(bundles, None, out_dir=out, save_early=False)
        base = table(rows)
        keep = base.copy()
        for c in sorted(set(s[2] for s in specs)):
            sel = table(select(rows, c))
            if len(sel):
                ok, _ = ctx.must(g.run_current, c, sim_data=sel, what="running the group")
                if not ok:
                    return
        ctx.expect(np.array_equal(base, keep), "the caller's visits were modified")
    else:
        db = os.path.join(scratch, "o.db")
        if os.path.exists(db):
            os.unlink(db)
        with sqlite3.connect(db) as con:
            pd.DataFrame.from_records(table(rows)).to_sql("observations", con, index=False)
        con.close()
        g = MetricBundleGroup(bundles, db, out_dir=out, save_early=True)
        ok, _ = ctx.must(g.run_all, what="running the group")
        if not ok:
            return
    for i, s in enumerate(specs):
        ref = reference(s, rows_key, rows)
        b = orig[f"k{i}"]
        if mode == "mem" and ref is None:
            continue
        verify(ctx, f"bundle {i} {s[0]}/{s[1]}", b, s, ref)
        if s[0] == "obj" and ref is not None:
            for rn, (rv, rm) in ref["red"].items():
                rb = [x for x in g.bundle_dict.values() if x.metric.name == f"McObj_{rn}" and x.info_label == f"b{i}"]
                if ctx.equal(len(rb), 1, f"reduced bundle {rn} of bundle {i} present once"):
                    cmp_values(ctx, f"reduced {rn}", rb[0].metric_values, rv, rm)
                    sv = {k: float(v) for k, v in (rb[0].summary_values or {}).items()}
                    ctx.equal(sv, {k: float(v) for k, v in ref["summ"][rn].items()}, f"summary of reduced {rn}")
        if mode == "db" and ref is not None:
            f = os.path.join(out, b.file_root + ".npz")
            if ctx.expect(os.path.isfile(f), "saved result file missing", f=f):
                nb = MetricBundle.load(f)
                cmp_values(ctx, f"saved bundle {i}", nb.metric_values, ref["vals"], ref["mask"], vec=s[0] == "vec")
    ctx.outcome([specs, rows_key, mode])
    shutil.rmtree(out, ignore_errors=True)


def groups(ctx, part, parts, rows_key, mode, size, shared):
    rows = {"D1": D1, "D2": D2, "D3": D3}[rows_key]
    ctx.bounds = {"catalogue": len(CAT), "group_size": size, "visits": rows, "shared_slicer_objects": shared, "part": [part, parts]}
    if size <= 2:
        it = [p for n in range(1, size + 1) for p in itertools.permutations(range(len(CAT)), n)]
    else:
        # triples: order is only observable through which list a bundle joins
        it = itertools.permutations([0, 2, 3, 4, 5, 6, 7, 11, 13, 18, 19] if ctx.tier == "quick" else list(range(len(CAT))), 3)
    for k, sel in enumerate(it):
        if k % parts != part:
            continue
        if not ctx.case(sel, rows_key, mode, shared):
            continue
        run_group(ctx, [CAT[i] for i in sel], rows_key, rows, mode, ctx.scratch, shared)


def caching(ctx, rows_n):
    """Cache larger and smaller than the number of distinct visit sets."""
    for n in range(1, rows_n + 1):
        for sk in ("hp4", "hp2", "hp"):
            for sel in (("mean",), ("mean", "bad", "sort"), ("sort", "mean", "obj"), ("obj", "count")):
                rows = D3[:n]
                if not ctx.case(n, sk, sel):
                    continue
                specs = [(m, sk, "", (), ()) for m in sel]
                run_group(ctx, specs, f"D3:{n}", rows, "mem", ctx.scratch, False)


def cache_patterns(ctx, part, parts):
    """Every assignment of visits to sky positions seen by different pixels: a
    cached value may only be reused for exactly the same set of visits."""
    pos = [(45.0, 41.81), (0.0, 0.0), (45.0, -41.81), (22.5, 20.0)]
    N = ctx.pick(4, 5)
    k = 0
    for n in range(2, N + 1):
        for cells in itertools.product(range(len(pos)), repeat=n):
            k += 1
            if k % parts != part:
                continue
            if not ctx.case("cache", cells):
                continue
            rows = [(float(2**i), i, pos[c][0], pos[c][1], "r") for i, c in enumerate(cells)]
            run_group(ctx, [("mean", "hp", "", (), ()), ("sort", "hp", "", (), ())], "cells" + repr(cells), rows, "mem", ctx.scratch, False)


def tables(ctx, part, parts):
    """Every small visit table for two fixed groups."""
    alpha = [(1.0, 0, 0.0, 0.0, "r"), (2.0, 1, 45.0, -40.0, "g"), (4.0, 2, 0.0, 0.0, "g"), (0.5, 5, 200.0, 88.0, "r")]
    N = ctx.pick(3, 4)
    gs = [[CAT[2], CAT[5], CAT[3]], [CAT[8], CAT[6], CAT[12]], [CAT[11], CAT[16], CAT[18]], [CAT[7], CAT[3], CAT[19]]]
    k = 0
    for n in range(1, N + 1):
        for rows in itertools.product(alpha, repeat=n):
            for gi, g in enumerate(gs):
                k += 1
                if k % parts != part:
                    continue
                if not ctx.case(rows, gi):
                    continue
                run_group(ctx, g, repr(rows), list(rows), "db", ctx.scratch, False)


def rerun(ctx):
    """Running a group twice, or bundles again in another group, gives the same values."""
    for sel in itertools.permutations([0, 2, 3, 5, 6, 7, 12, 14], 2):
        if not ctx.case(sel):
            continue
        specs = [CAT[i] for i in sel]
        bundles = {f"k{i}": mk_bundle(i, s, None) for i, s in enumerate(specs)}
        for turn, (rk, rows) in enumerate((("D1", D1), ("D2", D2), ("D1", D1))):
            if turn and any(s[1] == "oneauto" for s in specs) and rk == "D2":
                continue
            g = MetricBundleGroup(dict(bundles), None, out_dir=os.path.join(ctx.scratch, "o2"), save_early=False)
            ok, _ = ctx.must(g.run_current, "", sim_data=table(rows))
            if not ok:
                break
            for i, s in enumerate(specs):
                if s[1] == "oneauto" and turn:
                    continue
                verify(ctx, f"turn {turn} bundle {i}", bundles[f"k{i}"], s, reference(s, rk, rows))
        ctx.outcome(sel)


UNITS = (
    [Unit(f"pairs_D1_db_{p}", groups, part=p, parts=2, rows_key="D1", mode="db", size=2, shared=False) for p in range(2)]
    + [Unit("pairs_D2_mem_shared", groups, part=0, parts=1, rows_key="D2", mode="mem", size=2, shared=True)]
    + [Unit(f"triples_D1_{p}", groups, part=p, parts=3, rows_key="D1", mode="mem", size=3, shared=False) for p in range(3)]
    + [Unit("triples_D1_shared", groups, part=0, parts=2, rows_key="D1", mode="mem", size=3, shared=True)]
    + [Unit("caching", caching, rows_n=10), Unit("rerun", rerun)]
    + [Unit(f"cache_patterns_{p}", cache_patterns, part=p, parts=2) for p in range(2)]
    + [Unit(f"tables_{p}", tables, part=p, parts=2) for p in range(2)]
)
