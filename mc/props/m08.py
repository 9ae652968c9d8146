"""M08: a metric's value is a function of the visits in its slice."""
import copy

import numpy as np

from mc import visits as V
from mc.core import Unit, same

PROPERTY = "M08"
LEVEL = "model_checking"
RULE = (
    "case = (metric and its arguments, slice of visits, slice point) with every order of the visits of slices of up to "
    "five visits and a fixed family of orders (reversal, rotations, swaps, interleavings) of larger slices; or a history "
    "of slices run one after the other on one metric object; non-trivial when the value is not the bad value"
)
ASSUMPTIONS = [
    "synthetic throughput curves and light curves replace the data files that are not installed",
    "visit times are distinct (with two visits at exactly one time 'the first' is not defined)",
    "metrics that hand on per-visit data or draw random numbers are outside the claim, as are those that need data files "
    "that cannot be synthesised here (listed in mc/visits.py)",
]
SIZES = ("one", "two", "four", "fourband", "night", "years", "exptimes", "bright")
TOL = {"ParallaxDcrDegenMetric": 1e-4, "BDParallaxMetric": 1e-5, "ProperMotionMetric": 1e-3}  # iterative fits; cancellation
LARGE = ("pairs", "cadence", "deep_r", "survey")


def norm(r, depth=0):
    """Result as plain values: records by field name."""
    if isinstance(r, dict):
        return {str(k): norm(v, depth + 1) for k, v in r.items()}
    if isinstance(r, (list, tuple)):
        return [norm(v, depth + 1) for v in r]
    if isinstance(r, str) or r is None:
        return r
    a = np.asarray(r)
    if a.dtype.names:
        return {k: norm(a[k], depth + 1) for k in a.dtype.names}
    if a.dtype.kind == "O":
        return [norm(x, depth + 1) for x in a.ravel()] if a.ndim else norm(a.item(), depth + 1) if depth < 8 else repr(r)
    return a


def catalogue():
    import rubin_sim.maf.maf_contrib  # noqa: F401
    import rubin_sim.maf.metrics as m

    return {v.__name__: v for v in m.BaseMetric.registry.values()}


def variants(name, cls):
    import inspect

    kws = V.KW.get(name)
    if kws is None:
        kws = [{}]
        p = inspect.signature(cls.__init__).parameters
        if "col" in p and p["col"].default is None:
            kws = [dict(col="airmass")]
    return kws


_FRESH = {}


def build(cls, kw):
    """A metric object never run (a copy of one built once: some read files)."""
    key = (cls, repr(sorted(kw.items(), key=lambda x: x[0])))
    if key not in _FRESH:
        _FRESH[key] = cls(**copy.deepcopy(kw))
    return copy.deepcopy(_FRESH[key])


def run(metric, data, sp):
    """The value, or the kind of error; metrics may sort what they are given."""
    try:
        return norm(metric.run(data, sp))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__)


def rows(d):
    return np.sort(d, order=["observationId"])


_SLICES = {}


def usable(name):
    one = name in V.ONE_BAND
    if one not in _SLICES:
        sl = V.slices()
        if one:
            for d in sl.values():
                d["band"] = "r"
                d["filter"] = "r"
        _SLICES[one] = sl
    return _SLICES[one]


def u_order(ctx, names):
    V.data_dir(ctx)
    cat = catalogue()
    ctx.bounds = {"metrics": len(names), "slices": len(SIZES) + len(LARGE), "orders": "all up to 5 (thorough: 6) visits; 12 of larger slices"}
    for name in names:
        cls = cat[name]
        for iv, kw in enumerate(variants(name, cls)):
            shared = build(cls, kw)
            for sname, d in usable(name).items():
                if name in V.SLOW and sname in ("survey", "cadence", "deep_r"):
                    continue
                for isp in (0,) if sname in LARGE else (0, 1):
                    if not ctx.case(name, iv, sname, isp):
                        continue
                    want = run(build(cls, kw), d.copy(), V.slice_point(isp))
                    orders = V.reorders(d.size, ctx.pick(5, 6) if name not in V.SLOW else 4)
                    for p in orders:
                        ctx.transitions += 1
                        got = run(shared, d[p].copy(), V.slice_point(isp))
                        if not same(got, want, rtol=TOL.get(name, 1e-6), atol=1e-8):
                            ctx.fail(f"{name}: the value depends on the order of the visits or on slices run before", order=p, got=got, want=want)
                            break
                    ctx.comparisons += len(orders)
                    ctx.outcome((name, want), trivial=isinstance(want, tuple) or same(want, -666), sample=False)


def u_columns(ctx, names):
    from numpy.lib import recfunctions as rf

    V.data_dir(ctx)
    cat = catalogue()
    ctx.bounds = {"metrics": len(names), "views": "declared columns only; other columns changed"}
    for name in names:
        cls = cat[name]
        for iv, kw in enumerate(variants(name, cls)):
            cols = sorted({str(c) for c in build(cls, kw).col_name_arr if c is not None})
            if not cols or any(c not in dict(V.COLS) for c in cols):
                continue
            for sname, d in usable(name).items():
                if name in V.SLOW and sname in ("survey", "cadence", "deep_r"):
                    continue
                if not ctx.case("columns", name, iv, sname):
                    continue
                sp = V.slice_point()
                sp_keep = copy.deepcopy(sp)
                full = d.copy()
                want = run(build(cls, kw), full, sp)
                ctx.expect(same(rows(full), rows(d)), f"{name}: running the metric changed the visits")
                ctx.expect(same(sp, sp_keep), f"{name}: running the metric changed the slice point", got=sp, want=sp_keep)
                only = rf.repack_fields(d[cols]).copy()
                got = run(build(cls, kw), only, V.slice_point())
                ctx.expect(same(got, want, 1e-6, 1e-8), f"{name}: the declared columns are not enough for its value", got=got, want=want, declared=cols)
                other = d.copy()
                for c, _ in V.COLS:
                    if c not in cols:
                        other[c] = other[c][::-1] if d.size > 1 else other[c] * 2 if other[c].dtype.kind in "if" else other[c]
                got = run(build(cls, kw), other, V.slice_point())
                ctx.expect(same(got, want, 1e-6, 1e-8), f"{name}: the value depends on columns it does not declare", got=got, want=want, declared=cols)
                ctx.transitions += 3
                ctx.outcome((name, want), trivial=isinstance(want, tuple) or same(want, -666), sample=False)


def u_history(ctx, names):
    """Every history of three slices on one object against fresh objects."""
    import itertools

    V.data_dir(ctx)
    cat = catalogue()
    picks = ("one", "four", "night", "pairs", "exptimes") if ctx.thorough else ("one", "night", "pairs")
    ctx.bounds = {"metrics": len(names), "slices": len(picks), "history": 3}
    for name in names:
        cls = cat[name]
        for iv, kw in enumerate(variants(name, cls)):
            sl = usable(name)
            alpha = [(s, i) for s in picks for i in (0, 1)][: 4 if name in V.SLOW else None]
            want = {a: run(build(cls, kw), sl[a[0]].copy(), V.slice_point(a[1])) for a in alpha}
            for h in itertools.product(alpha, repeat=2 if name in V.SLOW else 3):
                if not ctx.case("history", name, iv, h):
                    continue
                m = build(cls, kw)
                for a in h:
                    ctx.transitions += 1
                    got = run(m, sl[a[0]].copy(), V.slice_point(a[1]))
                    if not ctx.expect(same(got, want[a], 1e-6, 1e-8), f"{name}: the value depends on the slices run before", got=got, want=want[a]):
                        break
                ctx.state((name, iv, h))


def u_rename(ctx, names):
    """A metric told other names for its columns gives the same value."""
    import inspect

    V.data_dir(ctx)
    cat = catalogue()
    known = dict(V.COLS)
    ctx.bounds = {"metrics": len(names), "renamings": "all columns, and each column alone"}
    for name in names:
        cls = cat[name]
        params = inspect.signature(cls.__init__).parameters
        for iv, kw in enumerate(variants(name, cls)):
            given = {}
            for p, v in params.items():
                if p.endswith("_col") or p == "col":
                    val = kw.get(p, v.default)
                    if isinstance(val, str) and val in known:
                        given[p] = val
            if not given:
                continue
            subsets = [tuple(given)] + [(p,) for p in given if len(given) > 1]
            for sub in subsets:
                cols = sorted({given[p] for p in sub})
                if any(given[p] in cols and p not in sub for p in given):
                    continue  # two arguments name one column
                kw2 = dict(kw)
                for p in sub:
                    kw2[p] = "renamed_" + given[p]
                for sname in ("four", "night", "slope", "pairs", "six", "deep_r") if name not in V.SLOW else ("four", "night"):
                    d = usable(name)[sname]
                    if not ctx.case("rename", name, iv, sub, sname):
                        continue
                    want = run(build(cls, kw), d.copy(), V.slice_point())
                    d2 = d.copy().view([("renamed_" + c if c in cols else c, d.dtype[c]) for c in d.dtype.names])
                    ok, m = ctx.call(build, cls, kw2)
                    if not ctx.expect(ok, f"{name}: not built with other column names", error=m):
                        continue
                    got = run(m, d2, V.slice_point())
                    ctx.transitions += 1
                    ctx.expect(same(got, want, 1e-6, 1e-8), f"{name}: other column names give another value", got=got, want=want, renamed=cols)
                    ctx.outcome((name, want), trivial=isinstance(want, tuple), sample=False)


def groups(n):
    return [V.METRICS[i::n] for i in range(n)]


UNITS = []
for _i, _g in enumerate(groups(8)):
    UNITS.append(Unit(f"order_{_i}", u_order, names=_g))
    UNITS.append(Unit(f"columns_{_i}", u_columns, names=_g))
    UNITS.append(Unit(f"history_{_i}", u_history, names=_g))
    UNITS.append(Unit(f"rename_{_i}", u_rename, names=_g))
