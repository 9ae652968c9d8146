"""M06: the results database is a faithful record of every history of updates."""
import copy
import itertools
import os
import shutil
import sqlite3

import numpy as np

from mc.core import Unit
from mc.hist import SqlFault, bfs_file
from rubin_sim.maf.db import ResultsDb

PROPERTY = "M06"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over histories of public update operations on a real SQLite results database, in lock step "
    "with a dictionary model; after every operation every query of the public API is compared; plus every live "
    "(not reopened) sequence and every SQL statement/commit of each update failing; non-trivial = every transition"
)
ASSUMPTIONS = ["names contain no SQL wildcard characters", "order of rows returned by queries is not decided"]

METRICS = [
    ("mA", "UniSlicer", "run1", "", "lab", "a.npz"),
    ("mA", "UniSlicer", "run1", "x=1", "lab", "b.npz"),
    ("mA", "Hp", "run1", "", "lab", "c.npz"),
    ("mA", "UniSlicer", "run2", "", "lab", None),
    ("mA", "UniSlicer", "run1", "", "lab2", "d.npz"),
    ("mB_r", "UniSlicer", "run1", "", "lab", "e.npz"),
    ("mA", "UniSlicer", "run1", "", "lab", "z.npz"),  # same identity as the first, other file
    ("mA", "UniSlicer", None, None, None, None),
]
SVAL = np.zeros(2, dtype=[("name", "U8"), ("value", float)])
SVAL["name"] = ["lo", "hi"]
SVAL["value"] = [0.5, 7.0]
SBYT = np.zeros(1, dtype=[("name", "S8"), ("value", int)])
SBYT["name"] = [b"by"]
SBYT["value"] = [4]
SBAD = np.zeros(1, dtype=[("nm", "U8"), ("value", float)])
STATS = {
    "f": ("Mean", 1.5),
    "i": ("Count", 3),
    "z": ("Mean", 0.0),
    "np": ("Max", np.float64(-2.25)),
    "npi": ("Max", np.int64(12)),
    "np32": ("Max", np.float32(0.5)),
    "arr": ("Table", SVAL),
    "byt": ("Table", SBYT),
    "bad": ("Bad", SBAD),
    "vec": ("Bad", np.array([1.0, 2.0])),
    "str": ("Bad", "7"),
    "idn": ("Identity", 9.0),
}
DISPS = {
    "full": {"group": "g", "subgroup": "s", "order": 2, "caption": "cap"},
    "auto": {"group": "g2", "subgroup": None, "order": 1, "caption": "words (auto)"},
    "mid": {"group": "g2", "caption": "mid (auto) words", "order": None, "subgroup": "t"},
    "min": {"group": "only"},
}


class Model:
    def __init__(self):
        self.metrics, self.displays, self.plots, self.stats = [], {}, [], []

    def copy(self):
        return copy.deepcopy(self)


def m_apply(m, op):
    m = m.copy()
    k = op[0]
    if k == "metric":
        name, sl, run, con, lab, f = METRICS[op[1]]
        row = (name, sl, run or "NULL" if run is None else run, "NULL" if con is None else con, "NULL" if lab is None else lab)
        for r in m.metrics:
            if r[1] == row:
                return m, r[0]
        mid = len(m.metrics) + 1
        m.metrics.append((mid, row, "NULL" if f is None else f))
        return m, mid
    if k == "display":
        _, mid, d, ow = op
        if mid in m.displays and not ow:
            return m, None
        dd = DISPS[d]
        cap = dd.get("caption")
        cap = "NULL" if cap is None else cap
        if cap.endswith("(auto)"):
            cap = cap[: -len("(auto)")]
        nn = lambda v: "NULL" if v is None else v  # noqa: E731
        m.displays[mid] = (nn(dd.get("group")), nn(dd.get("subgroup")), float(dd.get("order") or 0), cap)
        return m, None
    if k == "plot":
        _, mid, typ, f, ow = op
        if ow:
            m.plots = [p for p in m.plots if not (p[0] == mid and p[1] == typ)]
        m.plots.append((mid, typ, f))
        return m, None
    if k == "stat":
        _, mid, s = op
        name, v = STATS[s]
        if isinstance(v, np.ndarray):
            if v.dtype.names and "name" in v.dtype.names:
                for r in v:
                    n = r["name"].decode() if isinstance(r["name"], bytes) else str(r["name"])
                    m.stats.append((mid, name + " " + n, float(r["value"])))
        elif not isinstance(v, str):
            m.stats.append((mid, name, float(v)))
        return m, None
    if k == "reopen":
        return m, None
    raise AssertionError(op)


def r_apply_db(r, op):
    k = op[0]
    if k == "metric":
        return r.update_metric(*METRICS[op[1]])
    if k == "display":
        return r.update_display(op[1], copy.deepcopy(DISPS[op[2]]), overwrite=op[3])
    if k == "plot":
        return r.update_plot(op[1], op[2], op[3], overwrite=op[4])
    if k == "stat":
        return r.update_summary_stat(op[1], STATS[op[2]][0], copy.deepcopy(STATS[op[2]][1]))
    if k == "reopen":
        return None


def r_apply(path, op):
    r = ResultsDb(database=path)
    try:
        return r_apply_db(r, op)
    finally:
        r.close()


def dump(path):
    c = sqlite3.connect(path)
    try:
        out = {}
        for t, cols, order in (
            ("metrics", "metric_id,metric_name,slicer_name,run_name,sql_constraint,metric_info_label,metric_datafile", "metric_id"),
            ("displays", "metric_id,display_group,display_subgroup,display_order,display_caption", "metric_id"),
            ("plots", "metric_id,plot_type,plot_file", "metric_id,plot_type,plot_file"),
            ("summarystats", "metric_id,summary_name,summary_value", "metric_id,summary_name,summary_value"),
        ):
            out[t] = [tuple(r) for r in c.execute(f"select {cols} from {t} order by {order}")]
        return out
    finally:
        c.close()


def canon(path):
    d = dump(path)
    return tuple((t, tuple(d[t])) for t in sorted(d))


def rows(arr, names):
    return sorted(tuple(r[n].item() if hasattr(r[n], "item") else r[n] for n in names) for r in arr)


def norm(s):
    return " ".join(str(s).split())


def long_name(sname, metric, lab, slicer):
    s = "" if sname in ("Identity", "Id", "Count") else sname
    sl = "" if slicer == "UniSlicer" else slicer
    return norm(" ".join([s, metric, lab, sl]))


def compare_db(ctx, r, m):
    M = {mid: (row, f) for mid, row, f in m.metrics}
    ctx.equal(sorted(r.get_all_metric_ids()), sorted(M), "get_all_metric_ids")
    sel = [None] + list(M) + ([list(M)[:2]] if len(M) > 1 else []) + [99]
    info, disp, plots, stats, files = {}, {}, {}, {}, {}
    for mid in M:
        (n, sl, run, con, lab), f = M[mid]
        info[mid] = (mid, n, n.split("_")[0], sl, con, lab, f, run)
    for s in sel:
        want = [i for i in M if s is None or i == s or (isinstance(s, list) and i in s)]
        ctx.equal(
            rows(r.get_metric_info(s, with_sim_name=True), ["metric_id", "metric_name", "base_metric_names", "slicer_name", "sql_constraint", "metric_info_label", "metric_datafile", "run_name"]),
            sorted(info[i] for i in want),
            "get_metric_info",
            selection=s,
        )
        ctx.equal(sorted(r.get_metric_data_files(s)), sorted(M[i][1] for i in want), "get_metric_data_files", selection=s)
        ctx.equal(
            rows(r.get_metric_display_info(s), ["metric_id", "metric_name", "base_metric_name", "slicer_name", "sql_constraint", "metric_info_label", "metric_datafile", "display_group", "display_subgroup", "display_order", "display_caption"]),
            sorted(info[i][:7] + m.displays[i] for i in want if i in m.displays),
            "get_metric_display_info",
            selection=s,
        )
        ctx.equal(
            rows(r.get_plot_files(s, with_sim_name=True), ["metric_id", "metric_name", "metric_info_label", "plot_type", "plot_file", "thumb_file", "run_name"]),
            sorted((p[0], info[p[0]][1], info[p[0]][5], p[1], p[2], "thumb." + p[2][: p[2].rindex(".")] + ".png", info[p[0]][7]) for p in m.plots if p[0] in want),
            "get_plot_files",
            selection=s,
        )

        def srows(keep=lambda n: True):
            return sorted(
                (st[0], long_name(st[1], info[st[0]][1], info[st[0]][5], info[st[0]][3]), info[st[0]][1], info[st[0]][3], info[st[0]][5], st[1], st[2], info[st[0]][7])
                for st in m.stats
                if st[0] in want and keep(st[1])
            )

        def got(**k):
            a = r.get_summary_stats(s, with_sim_name=True, **k)
            return sorted((x[0], norm(x[1])) + x[2:] for x in rows(a, ["metric_id", "summary_name", "metric_name", "slicer_name", "metric_info_label", "summary_metric", "summary_value", "run_name"]))

        ctx.equal(got(), srows(), "get_summary_stats", selection=s)
        if m.stats:
            ctx.equal(got(summary_name="Mean"), srows(lambda n: n == "Mean"), "get_summary_stats by name", selection=s)
            ctx.equal(got(summary_name_like="ta"), srows(lambda n: "ta" in n.lower() or "Ta" in n), "get_summary_stats like", selection=s)
            ctx.equal(got(summary_name_notlike="Table"), srows(lambda n: "Table" not in n), "get_summary_stats notlike", selection=s)
            ctx.equal(got(summary_name_notlike=["lo", "Max"]), srows(lambda n: "lo" not in n and "Max" not in n), "get_summary_stats notlike list", selection=s)
    ctx.equal(sorted(r.get_run_name()), sorted({M[i][0][2] for i in M}), "get_run_name")
    for n in ("mA", "mB_r", "nope"):
        for sl, lab, run in ((None, None, None), ("Hp", None, None), (None, "lab", None), (None, None, "run2"), ("UniSlicer", "lab", "run1")):
            want = sorted(i for i in M if M[i][0][0] == n and (sl is None or M[i][0][1] == sl) and (lab is None or M[i][0][4] == lab) and (run is None or M[i][0][2] == run))
            ctx.equal(sorted(r.get_metric_id(n, slicer_name=sl, metric_info_label=lab, run_name=run)), want, "get_metric_id", query=(n, sl, lab, run))
    for n, sl, lab, run in ((None, None, None, None), ("m", None, None, None), ("B", None, None, None), (None, "Sli", None, None), (None, None, "lab", None), (None, None, "b2", "run1"), ("A", "Hp", "la", "run1")):
        want = sorted(
            i
            for i in M
            if (n is None or n in M[i][0][0]) and (sl is None or sl in M[i][0][1]) and (lab is None or lab in M[i][0][4]) and (run is None or run == M[i][0][2])
        )
        ctx.equal(sorted(r.get_metric_id_like(metric_name_like=n, slicer_name_like=sl, metric_info_label_like=lab, run_name=run)), want, "get_metric_id_like", query=(n, sl, lab, run))


def compare(ctx):
    def f(path, m):
        r = ResultsDb(database=path)
        compare_db(ctx, r, m)
        r.close()
        d = dump(path)
        ctx.equal(len(d["displays"]), len(m.displays), "number of display rows")
        ctx.equal(len(d["plots"]), len(m.plots), "number of plot rows")
        ctx.equal(len(d["summarystats"]), len(m.stats), "number of summary rows")

    return f


def init_with(pre):
    def init(path):
        ResultsDb(database=path).close()
        m = Model()
        for op in pre:
            r_apply(path, op)
            m, _ = m_apply(m, op)
        return m

    return init


ALPHA = {
    "metrics": ([], [("metric", i) for i in range(len(METRICS))], 3, 4),
    "displays": ([("metric", 0), ("metric", 1)], [("display", mid, d, ow) for mid in (1, 2) for d in DISPS for ow in (True, False)], 2, 3),
    "plots": (
        [("metric", 0), ("metric", 1)],
        [("plot", mid, t, f, ow) for mid in (1, 2) for t, f in (("SkyMap", "a_SkyMap.pdf"), ("SkyMap", "b.v2_SkyMap.pdf"), ("Hist", "a_Hist.pdf")) for ow in (True, False)],
        2,
        3,
    ),
    "stats": ([("metric", 0), ("metric", 2)], [("stat", mid, s) for mid in (1, 2) for s in STATS], 2, 3),
    "mixed": (
        [],
        [("metric", 0), ("metric", 3), ("metric", 5), ("display", 1, "full", True), ("display", 1, "min", False), ("plot", 1, "Hist", "h.pdf", True), ("stat", 1, "f"), ("stat", 1, "arr")],
        3,
        4,
    ),
}


def mixed_ok(op, m):
    return op[0] == "metric" or any(r[0] == op[1] for r in m.metrics)


def search(ctx, alpha):
    pre, ops, dq, dt = ALPHA[alpha]
    depth = ctx.pick(dq, dt)
    ctx.bounds = {"operations": len(ops), "depth": depth}
    if alpha == "mixed":
        pre = [("metric", 0)]
    bfs_file(ctx, alpha, ops, init_with(pre), r_apply, m_apply, compare(ctx), canon, depth)


LIVE = [("metric", 0), ("metric", 6), ("metric", 2), ("display", 1, "auto", True), ("display", 1, "full", False), ("plot", 1, "Hist", "h.pdf", True), ("plot", 1, "Hist", "i.pdf", False), ("stat", 1, "f"), ("stat", 1, "npi"), ("reopen",)]


def live(ctx, first):
    """Every sequence on one live object, queries in between."""
    L = ctx.pick(2, 3)
    ctx.bounds = {"operations": len(LIVE), "length": L + 1}
    for seq in itertools.product(LIVE, repeat=L):
        seq = (LIVE[first],) + seq
        if not ctx.case("live", seq):
            continue
        p = os.path.join(ctx.scratch, "live.db")
        if os.path.exists(p):
            os.unlink(p)
        r, m = ResultsDb(database=p), Model()
        r.update_metric(*METRICS[0])
        m, _ = m_apply(m, ("metric", 0))
        for op in seq:
            if op[0] == "reopen":
                r.close()
                r = ResultsDb(database=p)
                continue
            got = r_apply_db(r, op)
            m, want = m_apply(m, op)
            ctx.equal(got, want, "answer of the operation", op=op)
            ctx.transitions += 1
        ctx.traces += 1
        compare_db(ctx, r, m)
        r.close()
        ctx.state(("live", canon(p)))
        ctx.outcome(canon(p))


FPRE = [("metric", 0), ("metric", 2), ("display", 1, "full", True), ("plot", 1, "Hist", "h.pdf", True), ("plot", 1, "SkyMap", "s.pdf", True), ("stat", 1, "f")]
FOPS = [("metric", 1), ("metric", 0), ("display", 1, "min", True), ("display", 2, "auto", True), ("display", 1, "auto", False), ("plot", 1, "Hist", "new.pdf", True), ("plot", 2, "Hist", "new.pdf", False), ("stat", 1, "i"), ("stat", 2, "idn")]


def faults(ctx):
    """Every statement of every update fails: the store holds the old or the new content."""
    p0 = os.path.join(ctx.scratch, "f0.db")
    m0 = init_with(FPRE)(p0)
    serial = 0
    for op in FOPS:
        m1, _ = m_apply(m0, op)
        n = 0
        while True:
            n += 1
            if n > 60:
                ctx.fail("more than 60 statements in one update")
                break
            serial += 1
            p = os.path.join(ctx.scratch, f"f{serial}.db")
            shutil.copyfile(p0, p)
            ctx.case("fault", op, n)
            r = ResultsDb(database=p, timeout=5)
            with SqlFault(n) as sf:
                ok, got = ctx.call(r_apply_db, r, op)
            ctx.call(r.close)
            del r
            ctx.transitions += 1
            ctx.traces += 1
            q = os.path.join(ctx.scratch, f"g{serial}.db")  # what a new process finds after the failure
            for suffix in ("", "-journal", "-wal"):
                if os.path.exists(p + suffix):
                    shutil.copyfile(p + suffix, q + suffix)
            r = ResultsDb(database=q, timeout=5)
            d = canon(q)
            r.close()
            old, new = mcanon(m0), mcanon(m1)
            if sf.fired and not ok:
                ctx.expect(d in (old, new), "an interrupted update left neither the old nor the new record", got=d)
            else:
                ctx.expect(ok, "the update failed without an injected fault", error=repr(got)[:300])
                if not sf.fired:
                    ctx.expect(d == new, "update not recorded", got=d, want=new)
            ctx.state(("fault", op, n, d))
            ctx.outcome([op, n, d == old, d == new])
            if not sf.fired:
                break
    ctx.bounds = {"updates": len(FOPS), "fault": "every SQL statement and commit"}


def mcanon(m):
    d = {
        "metrics": [(mid,) + row + (f,) for mid, row, f in m.metrics],
        "displays": sorted((k,) + v for k, v in m.displays.items()),
        "plots": sorted(m.plots),
        "summarystats": sorted(m.stats),
    }
    return tuple((t, tuple(d[t])) for t in sorted(d))


def two_handles(ctx):
    """Two open handles on one file see each other's updates."""
    ops = [("metric", 0), ("metric", 2), ("display", 1, "full", True), ("display", 1, "min", True), ("plot", 1, "Hist", "h.pdf", True), ("stat", 1, "f")]
    L = ctx.pick(3, 4)
    for seq in itertools.product(range(2 * len(ops)), repeat=L):
        if not ctx.case("two", seq):
            continue
        p = os.path.join(ctx.scratch, "two.db")
        if os.path.exists(p):
            os.unlink(p)
        hs = [ResultsDb(database=p)]
        hs.append(ResultsDb(database=p))
        m = Model()
        hs[0].update_metric(*METRICS[0])
        m, _ = m_apply(m, ("metric", 0))
        for x in seq:
            h, op = hs[x // len(ops)], ops[x % len(ops)]
            got = r_apply_db(h, op)
            m, want = m_apply(m, op)
            ctx.equal(got, want, "answer", op=op)
            ctx.transitions += 1
        ctx.traces += 1
        c = canon(p)
        ctx.equal(c, mcanon(m), "content after two handles' updates")
        ctx.state(("two", c))
        ctx.outcome(c)
        [h.close() for h in hs]


def bundles(ctx):
    """What a bundle group records: each bundle once, its file, caption and statistics."""
    from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
    from rubin_sim.maf.metrics import CountMetric, MaxMetric, MeanMetric, SumMetric
    from rubin_sim.maf.slicers import OneDSlicer, UniSlicer

    data = np.zeros(5, dtype=[("x", float), ("n", int)])
    data["x"] = [0.5, 1.5, 1.6, 2.5, 0.1]
    data["n"] = [1, 2, 2, 7, 4]
    mk = [
        lambda: MetricBundle(CountMetric(col="x", metric_name="Cnt"), UniSlicer(), "", run_name="R1", summary_metrics=[MeanMetric()]),
        lambda: MetricBundle(MeanMetric(col="x", metric_name="Mn"), OneDSlicer(slice_col_name="x", bins=np.array([0.0, 1.0, 2.0, 3.0]), verbose=False), "", run_name="R1", summary_metrics=[MaxMetric(), SumMetric()]),
        lambda: MetricBundle(SumMetric(col="n", metric_name="Sm", metric_dtype=int), OneDSlicer(slice_col_name="x", bins=np.array([0.0, 1.0, 3.0]), verbose=False), "", run_name="R1", info_label="lab l", summary_metrics=[MaxMetric()], display_dict={"group": "G", "caption": "C (auto)", "order": 3}),
        lambda: MetricBundle(SumMetric(col="n", metric_name="Sm"), UniSlicer(), "", run_name="R2", display_dict={"group": "H", "subgroup": "J", "caption": "K"}),
    ]
    for size in (1, 2, 3):
        for sel in itertools.permutations(range(len(mk)), size):
            if not ctx.case("bundles", sel):
                continue
            d = os.path.join(ctx.scratch, "bb")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            bs = {f"b{i}": mk[i]() for i in sel}
            rdb = ResultsDb(out_dir=d)
            g = MetricBundleGroup(bs, None, out_dir=d, results_db=rdb, save_early=False, verbose=False)
            g.run_current("", sim_data=data)
            g.write_all()
            rdb.close()
            r = ResultsDb(out_dir=d)
            ctx.equal(len(r.get_all_metric_ids()), len(sel), "one record per bundle")
            for b in bs.values():
                ids = r.get_metric_id(b.metric.name, slicer_name=b.slicer.slicer_name, metric_info_label=b.info_label, run_name=b.run_name)
                if not ctx.equal(len(ids), 1, "bundle recorded once"):
                    continue
                st = r.get_summary_stats(ids[0])
                ctx.equal(sorted((str(s["summary_metric"]), float(s["summary_value"])) for s in st), sorted((k, float(v)) for k, v in (b.summary_values or {}).items()), "recorded summary statistics")
                di = r.get_metric_display_info(ids[0])
                ctx.equal(len(di), 1, "one display record")
                if b.display_dict["group"] in ("G", "H"):
                    ctx.equal(str(di["display_group"][0]), b.display_dict["group"], "display group")
                ctx.traces += 1
                ctx.transitions += 1
            ctx.state(("bundles", sel))
            ctx.outcome(sorted(os.listdir(d)))
            r.close()


UNITS = (
    [Unit(f"search_{a}", search, alpha=a) for a in ALPHA]
    + [Unit(f"live_{i}", live, first=i) for i in range(1, len(LIVE))]
    + [Unit("faults", faults), Unit("two_handles", two_handles), Unit("bundles", bundles)]
)
