"""M01: value slicers assign every visit to exactly its bin."""
import itertools

import numpy as np

from mc.core import Unit
from rubin_sim.maf.slicers import HourglassSlicer, MovieSlicer, NDSlicer, OneDSlicer, UniSlicer

PROPERTY = "M01"
LEVEL = "exploration"
RULE = (
    "every sequence (with repetition, every order) of column values from a small alphabet that puts values on, "
    "between, below and above the bin edges, up to a length bound, for every bin definition; non-trivial = at "
    "least one visit inside the binned range"
)
ASSUMPTIONS = ["bin membership depends on values only through their order relative to the edges"]


def arr(vals, dtype=float, col="x"):
    a = np.zeros(len(vals), dtype=[(col, dtype), ("tag", int)])
    a[col] = vals
    a["tag"] = np.arange(len(vals))
    return a


def collect(sl):
    """What a user sees when walking over the slicer (iteration and indexing)."""
    it = []
    for s in sl:
        it.append((s["slice_point"]["sid"], s))
    return it


def as_idx(idxs, n):
    i = np.asarray(idxs)
    if i.dtype == bool:
        i = np.nonzero(i)[0]
    return [int(k) for k in i]


def in_bin(v, left, right, last):
    return left <= v < right or (last and v == right)


def check_1d(ctx, sl, vals, edges, n):
    if not ctx.equal(len(sl), len(edges) - 1, "number of slices"):
        return
    seen = []
    for k, (sid, s) in enumerate(collect(sl)):
        if not ctx.equal(int(sid), k, "slices are visited in order"):
            return
        got = as_idx(s["idxs"], n)
        want = [i for i, v in enumerate(vals) if in_bin(v, edges[k], edges[k + 1], k == len(edges) - 2)]
        if not ctx.equal(sorted(got), want, f"visits in bin {k}", edges=list(edges), values=list(vals)):
            return
        sp = s["slice_point"]
        ctx.equal([sp["bin_left"], sp["bin_right"]], [edges[k], edges[k + 1]], "bin edges reported for the slice")
        ctx.equal(sorted(as_idx(sl[k]["idxs"], n)), want, "indexing a slice agrees with iterating")
        seen += got
    ctx.outcome([sorted(seen)], trivial=not seen)


def oned_explicit(ctx, edges):
    alpha = [-1.0, 0.0, 0.25, 1.0, 1.5, 2.0, 3.0]
    N = ctx.pick(4, 5)
    ctx.bounds = {"edges": edges, "alphabet": alpha, "max_visits": N}
    for n in range(1, N + 1):
        for vals in itertools.product(alpha, repeat=n):
            if not ctx.case("explicit", edges, vals):
                continue
            sl = OneDSlicer(slice_col_name="x", bins=np.array(edges, float), verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, arr(vals), what="setting up the slicer")
            if ok:
                check_1d(ctx, sl, vals, edges, n)


def oned_auto(ctx, binsize, lo, hi):
    """Edges from the data (or from bin_min/bin_max): nothing in range lost."""
    alpha = [-2, 0, 1, 2, 3, 5]
    N = ctx.pick(4, 5)
    ctx.bounds = {"bin_size": binsize, "bin_min": lo, "bin_max": hi, "alphabet": alpha, "max_visits": N}
    for n in range(1, N + 1):
        for vals in itertools.product(alpha, repeat=n):
            if not ctx.case("auto", binsize, lo, hi, vals):
                continue
            sl = OneDSlicer(slice_col_name="x", bin_size=binsize, bin_min=lo, bin_max=hi, verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, arr(vals), what="setting up the slicer")
            if not ok:
                continue
            mn = min(vals) if lo is None else lo
            mx = max(vals) if hi is None else hi
            if mn == mx:
                mx = mx + (1 if binsize is None else 2 * binsize)
            if mx < mn or (binsize is not None and mx - mn <= binsize / 2):
                continue
            b = np.asarray(sl.get_slice_points()["bins"], float)
            step = np.diff(b)
            ctx.expect(len(b) >= 2 and abs(b[0] - mn) < 1e-9 and np.allclose(step, step[0]), "bins start at the minimum and are equal", bins=b)
            if binsize is not None:
                ctx.expect(np.allclose(step, binsize), "bins have the requested size", bins=b)
                ctx.expect(abs(b[-1] - mx) <= binsize / 2 + 1e-9, "bins end at the maximum (to within half a bin)", bins=b, mx=mx)
            else:
                ctx.expect(abs(b[-1] - mx) < 1e-6, "bins end at the maximum", bins=b, mx=mx)
            if binsize is None or abs((mx - mn) / binsize - round((mx - mn) / binsize)) < 1e-9:
                # guard against one-ulp differences of the generated last edge
                if binsize is None:
                    tot = sum(len(s["idxs"]) for s in sl)
                    inr = sum(mn <= v < b[-1] - 1e-9 for v in vals)
                    ctx.expect(tot >= inr, "a visit inside the range is in no bin", values=vals, bins=b)
                    continue
            check_1d(ctx, sl, vals, list(b), n)


def oned_int(ctx):
    alpha = [0, 1, 2, 3]
    N = ctx.pick(5, 6)
    edges = [0, 1, 2, 3]
    ctx.bounds = {"integer column": alpha, "max_visits": N}
    for n in range(1, N + 1):
        for vals in itertools.product(alpha, repeat=n):
            if not ctx.case("int", vals):
                continue
            sl = OneDSlicer(slice_col_name="x", bins=np.array(edges), verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, arr(vals, int))
            if ok:
                check_1d(ctx, sl, vals, edges, n)


def nd(ctx, ndim, edges_list, alpha):
    N = ctx.pick(3 if ndim == 2 else 2, 4 if ndim == 2 else 3)
    cols = ["x", "y", "z"][:ndim]
    edges = [sorted(e) for e in edges_list]
    pts = list(itertools.product(alpha, repeat=ndim))
    ctx.bounds = {"edges": edges, "alphabet": alpha, "max_visits": N}
    dt = [(c, float) for c in cols]
    for n in range(1, N + 1):
        for vals in itertools.product(pts, repeat=n):
            if n >= 3 and list(vals[1:]) != sorted(vals[1:]):
                continue  # order matters only through argsort stability; keep first free, rest ordered
            if not ctx.case("nd", ndim, edges, vals):
                continue
            data = np.array([tuple(v) for v in vals], dtype=dt)
            sl = NDSlicer(slice_col_list=cols, bins_list=[np.array(e, float) for e in edges_list], verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, data)
            if not ok:
                continue
            cells = list(itertools.product(*[range(len(e) - 1) for e in edges]))
            if not ctx.equal(len(sl), len(cells), "number of cells"):
                continue
            placed = {}
            for sid, s in collect(sl):
                idx = as_idx(s["idxs"], n)
                cell = tuple(int(i) for i in s["slice_point"]["bin_idxs"])
                ctx.equal(
                    [float(q) for q in s["slice_point"]["bin_left"]],
                    [edges[d][cell[d]] for d in range(ndim)],
                    "cell left edges",
                )
                ctx.expect(len(set(idx)) == len(idx), "a visit is repeated in a cell", idx=idx)
                for i in idx:
                    placed.setdefault(i, []).append(cell)
            want = {}
            for i, v in enumerate(vals):
                c = []
                for d in range(ndim):
                    k = [
                        j
                        for j in range(len(edges[d]) - 1)
                        if in_bin(v[d], edges[d][j], edges[d][j + 1], j == len(edges[d]) - 2)
                    ]
                    c.append(k[0] if k else None)
                want[i] = tuple(c)
            for i in range(n):
                got = placed.get(i, [])
                if all(c is not None for c in want[i]):
                    ctx.equal(got, [want[i]], f"cell of visit {i}", values=vals)
                elif any(v < e[0] for v, e in zip(vals[i], edges)):
                    ctx.equal(got, [], f"visit {i} lies below the first edge but is in a cell", values=vals)
                else:
                    ctx.expect(len(got) <= 1, f"visit {i} in several cells", got=got)
            ctx.outcome(sorted(placed.items()), trivial=not placed)


def nd_auto(ctx):
    alpha = [0.0, 1.0, 2.0, 4.0]
    N = ctx.pick(3, 4)
    ctx.bounds = {"nbins": [1, 2, 4], "alphabet": alpha, "max_visits": N, "dims": 2}
    pts = list(itertools.product(alpha, repeat=2))
    for nb in (1, 2, 4):
        for n in range(1, N + 1):
            for vals in itertools.combinations_with_replacement(pts, n):
                if not ctx.case("nd_auto", nb, vals):
                    continue
                data = np.array([tuple(v) for v in vals], dtype=[("x", float), ("y", float)])
                sl = NDSlicer(slice_col_list=["x", "y"], bins_list=nb, verbose=False)
                ok, _ = ctx.must(sl.setup_slicer, data)
                if not ok:
                    continue
                ctx.equal(len(sl), nb * nb, "cells")
                count = [0] * n
                for sid, s in collect(sl):
                    left = s["slice_point"]["bin_left"]
                    for i in as_idx(s["idxs"], n):
                        count[i] += 1
                        for d in range(2):
                            col = [v[d] for v in vals]
                            lo, hi = min(col), max(col)
                            hi = hi + 1 if hi == lo else hi
                            w = (hi - lo) / nb
                            ctx.expect(left[d] - 1e-9 <= vals[i][d] <= left[d] + w + 1e-9, "visit outside its cell", i=i, left=left, vals=vals)
                ctx.equal(count, [1] * n, "with bins taken from the data every visit is in exactly one cell", values=vals)
                ctx.outcome(count)


def movie(ctx, cumulative):
    alpha = [-1.0, 0.0, 0.5, 1.0, 2.0, 3.0]
    edges = [0.0, 1.0, 2.0]
    N = ctx.pick(4, 5)
    ctx.bounds = {"edges": edges, "alphabet": alpha, "max_visits": N, "cumulative": cumulative}
    for n in range(1, N + 1):
        for vals in itertools.product(alpha, repeat=n):
            if not ctx.case("movie", cumulative, vals):
                continue
            sl = MovieSlicer(slice_col_name="x", bins=np.array(edges), cumulative=cumulative, force_no_ffmpeg=True, verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, arr(vals))
            if not ok:
                continue
            ctx.equal(len(sl), 2)
            for sid, s in collect(sl):
                got = sorted(as_idx(s["idxs"], n))
                last = sid == len(edges) - 2
                hi = np.inf if last else edges[sid + 1]
                lo = -np.inf if cumulative else edges[sid]
                want = [i for i, v in enumerate(vals) if lo <= v < hi]
                ctx.equal(got, want, f"frame {sid}", values=vals)
                ctx.equal(float(s["slice_point"]["bin_right"]), edges[sid + 1], "frame end")
                ctx.equal(float(s["slice_point"]["bin_left"]), edges[0] if cumulative else edges[sid], "frame start")
            ctx.outcome([vals, cumulative])


def movie_auto(ctx):
    alpha = [0.0, 1.0, 2.0, 3.0]
    for n in range(1, ctx.pick(4, 5) + 1):
        for vals in itertools.product(alpha, repeat=n):
            for kw in ({"bin_size": 1.0}, {"bins": 2}, {"bin_size": 0.5, "bin_min": 0.0, "bin_max": 2.0}):
                if not ctx.case("movie_auto", kw, vals):
                    continue
                sl = MovieSlicer(slice_col_name="x", cumulative=False, force_no_ffmpeg=True, verbose=False, **kw)
                ok, _ = ctx.must(sl.setup_slicer, arr(vals))
                if not ok:
                    continue
                tot = [i for _, s in collect(sl) for i in as_idx(s["idxs"], n)]
                lo = kw.get("bin_min", min(vals))
                ctx.equal(sorted(tot), [i for i, v in enumerate(vals) if v >= lo], "each visit in exactly one frame", values=vals)
                ctx.outcome([len(sl), sorted(tot)])


def uni(ctx):
    for cls in (UniSlicer, HourglassSlicer):
        for n in range(1, 6):
            for vals in itertools.product([0.0, 1.0], repeat=n):
                if not ctx.case("uni", cls.__name__, vals):
                    continue
                sl = cls(verbose=False)
                ok, _ = ctx.must(sl.setup_slicer, arr(vals))
                if not ok:
                    continue
                c = collect(sl)
                ctx.equal(len(c), 1)
                ctx.equal(list(arr(vals)[c[0][1]["idxs"]]["tag"]), list(range(n)), "the single slice holds every visit")
                ctx.outcome(n)


def resetup(ctx):
    """Setting a slicer up again with other visits uses those visits."""
    alpha = [0.0, 1.0, 1.5, 2.0]
    N = ctx.pick(2, 3)
    seqs = [v for n in range(1, N + 1) for v in itertools.product(alpha, repeat=n)]
    for a, b in itertools.product(seqs, seqs):
        if not ctx.case("resetup", a, b):
            continue
        sl = OneDSlicer(slice_col_name="x", bins=np.array([0.0, 1.0, 2.0]), verbose=False)
        ctx.must(sl.setup_slicer, arr(a))
        list(sl)
        ctx.must(sl.setup_slicer, arr(b))
        check_1d(ctx, sl, b, [0.0, 1.0, 2.0], len(b))


def resetup_other(ctx):
    alpha = [0.0, 1.0, 1.5, 2.0]
    seqs = [v for n in range(1, ctx.pick(2, 3) + 1) for v in itertools.product(alpha, repeat=n)]
    E = [0.0, 1.0, 3.0]
    for a, b in itertools.product(seqs, seqs):
        for kind in ("movie", "moviecum", "nd", "uni"):
            if not ctx.case("resetup", kind, a, b):
                continue
            if kind == "nd":
                sl = NDSlicer(slice_col_list=["x"], bins_list=[np.array(E)], verbose=False)
            elif kind == "uni":
                sl = UniSlicer(verbose=False)
            else:
                sl = MovieSlicer(slice_col_name="x", bins=np.array(E), cumulative=kind == "moviecum", force_no_ffmpeg=True, verbose=False)
            ctx.must(sl.setup_slicer, arr(a))
            list(sl)
            ctx.must(sl.setup_slicer, arr(b))
            got = [list(arr(b)[s["idxs"]]["tag"]) for _, s in collect(sl)]
            got = [sorted(int(i) for i in g) for g in got]
            if kind == "uni":
                want = [list(range(len(b)))]
            else:
                want = [[i for i, v in enumerate(b) if (E[k] <= v or kind == "moviecum") and v < E[k + 1]] for k in range(2)]
            ctx.equal(got, want, "visits after setting up again", first=a, second=b)
            ctx.outcome(got)


def orders(ctx, kind):
    """Longer data in every order: the placement depends on values only."""
    n = ctx.pick(7, 8) if kind == "oned" else ctx.pick(6, 7)
    for ties in (False, True):
        for perm in itertools.permutations(range(n)):
            if ties and list(perm[:2]) != sorted(perm[:2]):
                continue
            vals = [float(p // 2 if ties else p) for p in perm]
            if not ctx.case("orders", kind, vals):
                continue
            edges = [0.0, 1.0, 2.5, 4.0, 5.0, 20.0]
            if kind == "oned":
                sl = OneDSlicer(slice_col_name="x", bins=np.array(edges), verbose=False)
                if ctx.must(sl.setup_slicer, arr(vals))[0]:
                    check_1d(ctx, sl, vals, edges, n)
                continue
            if kind == "nd":
                d = np.array([(v, (3 * v) % 5) for v in vals], dtype=[("x", float), ("y", float)])
                ye = [0.0, 2.0, 3.0, 9.0]
                sl = NDSlicer(slice_col_list=["x", "y"], bins_list=[np.array(edges), np.array(ye)], verbose=False)
                if not ctx.must(sl.setup_slicer, d)[0]:
                    continue
                got = {}
                for _, s in collect(sl):
                    for i in as_idx(s["idxs"], n):
                        got.setdefault(i, []).append(tuple(float(q) for q in s["slice_point"]["bin_left"]))
                want = {i: [(max(e for e in edges if e <= v), max(e for e in ye if e <= (3 * v) % 5))] for i, v in enumerate(vals)}
                ctx.equal(got, want, "cell of each visit", values=vals)
            else:
                sl = MovieSlicer(slice_col_name="x", bins=np.array(edges), cumulative=kind == "moviecum", force_no_ffmpeg=True, verbose=False)
                if not ctx.must(sl.setup_slicer, arr(vals))[0]:
                    continue
                for sid, s in collect(sl):
                    lo = -1 if kind == "moviecum" else edges[sid]
                    ctx.equal(sorted(as_idx(s["idxs"], n)), [i for i, v in enumerate(vals) if lo <= v < edges[sid + 1]], f"frame {sid}", values=vals)
            ctx.outcome(vals)


UNITS = (
    [Unit(f"oned_explicit_{i}", oned_explicit, edges=e) for i, e in enumerate([[0.0, 1.0, 2.0], [0.0, 0.25, 1.0, 2.0], [0.25, 1.5], [-1.0, 0.5, 3.0]])]
    + [
        Unit(f"oned_auto_{i}", oned_auto, binsize=b, lo=lo, hi=hi)
        for i, (b, lo, hi) in enumerate([(1, None, None), (0.5, None, None), (2, 0, None), (1, None, 3), (0.5, 0, 2), (None, None, None), (4, 0, 3), (3, None, None), (2, None, 1)])
    ]
    + [
        Unit("oned_int", oned_int),
        Unit("nd_2", nd, ndim=2, edges_list=[[0.0, 1.0, 2.0], [0.0, 2.0, 1.5]], alpha=[-1.0, 0.0, 1.0, 1.5, 2.0]),
        Unit("nd_3", nd, ndim=3, edges_list=[[0.0, 1.0, 2.0], [0.0, 2.0], [1.0, 2.0, 0.0]], alpha=[0.0, 1.0, 2.0]),
        Unit("nd_auto", nd_auto),
        Unit("movie_cum", movie, cumulative=True),
        Unit("movie_diff", movie, cumulative=False),
        Unit("movie_auto", movie_auto),
        Unit("uni", uni),
        Unit("resetup", resetup),
        Unit("resetup_nd", resetup_other),
        Unit("orders_oned", orders, kind="oned"),
        Unit("orders_nd", orders, kind="nd"),
        Unit("orders_movie", orders, kind="movie"),
        Unit("orders_moviecum", orders, kind="moviecum"),
    ]
)
