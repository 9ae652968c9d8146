"""M03: time slicers cover every visit exactly once in the right interval."""
import itertools

import numpy as np

from mc.core import Unit
from rubin_sim.maf.slicers import BlockIntervalSlicer, TimeIntervalSlicer, VisitIntervalSlicer

PROPERTY = "M03"
LEVEL = "exploration"
RULE = "every sequence of visit times (any order, repeats, integer MJD, interval edges, day boundaries) and notes up to the bound"
ASSUMPTIONS = ["visit times on an interval edge are exactly representable"]

D = 86400.0


def sdata(mjds, dur=None, notes=None):
    n = len(mjds)
    a = np.zeros(n, dtype=[("observationStartMJD", float), ("visitTime", float), ("scheduler_note", object), ("tag", int)])
    a["observationStartMJD"] = mjds
    a["visitTime"] = dur if dur is not None else [30.0 + i for i in range(n)]
    a["scheduler_note"] = notes if notes is not None else ["a"] * n
    a["tag"] = range(n)
    return a


def idl(x):
    return [int(i) for i in np.atleast_1d(np.asarray(x, dtype=int))]


def intervals(ctx, secs):
    base = 60000
    h = secs / D
    alpha = [0.0, h / 2, h, 2 * h + h / 3, 0.5, 1.0 - h / 2, 1.0, 1.25, 1.9999]
    N = ctx.pick(3, 4)
    ctx.bounds = {"interval_s": secs, "offsets_days": alpha, "max_visits": N}
    for n in range(1, N + 1):
        for offs in itertools.product(alpha, repeat=n):
            if not ctx.case("interval", secs, offs):
                continue
            mj = [base + o for o in offs]
            sl = TimeIntervalSlicer(interval_seconds=secs)
            ok, _ = ctx.must(sl.setup_slicer, sdata(mj))
            if not ok:
                continue
            sp = sl.get_slice_points()
            m = np.asarray(sp["mjd"])
            ctx.equal(len(sl), len(m), "one slice per interval")
            ctx.expect(m[0] == int(min(mj)), "first interval starts at the first day", m0=m[0])
            ctx.expect(np.allclose(np.diff(m), h, atol=1e-9), "intervals are contiguous")
            ctx.expect(np.all(np.asarray(sp["duration"]) == secs), "interval duration")
            placed = {}
            for k, s in enumerate(sl):
                ctx.equal(int(s["slice_point"]["sid"]), k)
                ctx.equal(float(s["slice_point"]["mjd"]), float(m[k]), "interval start reported for the slice")
                for i in idl(s["idxs"]):
                    placed.setdefault(i, []).append(k)
            for i, t in enumerate(mj):
                ks = placed.get(i, [])
                if not ctx.equal(len(ks), 1, f"visit {i} is in exactly one interval", times=offs):
                    continue
                k = ks[0]
                ctx.expect(m[k] - 1e-9 <= t < m[k] + h + 1e-9, f"visit {i} lies in its interval", t=t, start=m[k], h=h)
                if k + 1 < len(m):
                    ctx.expect(t < m[k + 1] or abs(t - m[k + 1]) < 1e-10, "visit after the end of its interval", t=t)
            ctx.outcome([len(m), sorted(placed.items())])


def blocks(ctx, d, n):
    gaps = [0.001, 0.0041, 0.0052, 0.02]  # days after previous start; tolerance is 0.1 h = 0.004167 d
    notes = ["a", "b", "a, x"]
    ctx.bounds = {"gaps_days": gaps, "notes": notes, "duration_s": d, "visits": n}
    for gs in itertools.product(gaps[: (4 if n <= 3 else 3)], repeat=n - 1):
        t = [60000.1]
        for g in gs:
            t.append(t[-1] + g)
        for ns in itertools.product(notes[: (3 if n <= 3 else 2)], repeat=n):
            if True:
                # d: one duration for all visits, or a cycle of durations
                du = [d] * n if not isinstance(d, tuple) else [d[i % len(d)] for i in range(n)]
                orders = list(itertools.permutations(range(n))) if n <= 3 else [tuple(range(n)), tuple(reversed(range(n)))]
                for order in orders:
                    if not ctx.case("block", gs, ns, d, order):
                        continue
                    a = sdata([t[i] for i in order], [du[i] for i in order], [ns[i] for i in order])
                    inv = {order[j]: j for j in range(n)}
                    sl = BlockIntervalSlicer()
                    ok, _ = ctx.must(sl.setup_slicer, a)
                    if not ok:
                        continue
                    ref, cur = [], [0]
                    for i in range(1, n):
                        if ns[i] == ns[i - 1] and t[i - 1] + du[i - 1] / D + 0.1 / 24 > t[i]:
                            cur.append(i)
                        else:
                            ref.append(cur)
                            cur = [i]
                    ref.append(cur)
                    got = []
                    for k, s in enumerate(sl):
                        got.append(sorted(idl(s["idxs"])))
                        if k < len(ref):
                            ctx.equal(float(s["slice_point"]["mjd"]), t[ref[k][0]], "block start", rtol=0, atol=1e-9)
                            ctx.equal(float(s["slice_point"]["duration"]), (max(t[i] + du[i] / D for i in ref[k]) - t[ref[k][0]]) * D, "block duration", atol=1e-3)
                    ctx.equal(got, [sorted(inv[i] for i in b) for b in ref], "visits grouped into blocks", times=t, notes=ns, dur=d)
                    ctx.equal(len(sl), len(ref))
                    ctx.outcome(got)


def visits(ctx):
    alpha = [0.1, 0.2, 0.3, 1.05]
    N = ctx.pick(4, 4)
    ctx.bounds = {"times": alpha, "max_visits": N}
    for n in range(1, N + 1):
        for offs in itertools.permutations(alpha, n):
            if not ctx.case("visit", offs):
                continue
            a = sdata([60000 + o for o in offs])
            sl = VisitIntervalSlicer(extra_column_names=("tag",))
            ok, _ = ctx.must(sl.setup_slicer, a)
            if not ok:
                continue
            seen, times = [], []
            for s in sl:
                i = idl(s["idxs"])
                if not ctx.equal(len(i), 1, "one visit per slice"):
                    break
                i = i[0]
                seen.append(i)
                times.append(float(a["observationStartMJD"][i]))
                sp = s["slice_point"]
                ctx.equal(float(sp["mjd"]), float(a["observationStartMJD"][i]), "start of the visit in the slice", order=offs)
                ctx.equal(float(sp["duration"]), float(a["visitTime"][i]), "duration of the visit in the slice", order=offs)
                ctx.equal(int(sp["tag"]), int(a["tag"][i]), "extra column of the visit in the slice")
            ctx.equal(sorted(seen), list(range(n)), "every visit has one slice")
            ctx.equal(times, sorted(times), "slices are in time order")
            ctx.outcome(seen)


def resetup(ctx, part, parts):
    """A slicer set up again with other visits gives what a new one gives."""
    alpha = [0.1, 0.101, 0.4, 0.9, 1.05]
    seqs = [v for n in range(1, ctx.pick(3, 3) + 1) for v in itertools.permutations(alpha, n)]
    firsts = [s for s in seqs if ctx.thorough or len(s) in (1, 3) and s[0] < s[-1] or len(s) == 1]
    kinds = {"interval": lambda: TimeIntervalSlicer(interval_seconds=21600), "block": BlockIntervalSlicer, "visit": lambda: VisitIntervalSlicer(extra_column_names=("tag",))}
    for j, (a, b) in enumerate(itertools.product(firsts, seqs)):
        if j % parts != part:
            continue
        for kind, mk in kinds.items():
            if not ctx.case("resetup", kind, a, b):
                continue
            da, db = sdata([60000 + o for o in a]), sdata([60000 + o for o in b], [7.0 * (i + 1) for i in range(len(b))])
            x, y = mk(), mk()
            ctx.must(x.setup_slicer, da)
            [s for s in x]
            ctx.must(x.setup_slicer, db)
            ctx.must(y.setup_slicer, db)

            def look(z):
                return [(idl(s["idxs"]), {k: (float(np.atleast_1d(v)[0])) for k, v in s["slice_point"].items()}) for s in z]

            gx, gy = look(x), look(y)
            ctx.equal(gx, gy, "slices after setting up again", first=a, second=b)
            ctx.equal(len(x), len(y), "number of slices after setting up again")
            ctx.outcome(gy)


UNITS = [Unit(f"interval_{s}", intervals, secs=s) for s in (21600, 3600, 2700)] + [
    Unit("interval_50000", intervals, secs=50000),
    Unit("visits", visits),
]
UNITS += [Unit(f"blocks_{int(d)}_{n}", blocks, d=d, n=n) for d in (30.0, 400.0) for n in (1, 2, 3, 4)]
UNITS += [Unit(f"blocks_mixed{k}_{n}", blocks, d=d, n=n) for k, d in enumerate([(30.0, 400.0), (400.0, 30.0, 100.0), (5.0, 100.0)]) for n in (2, 3, 4)]
UNITS += [Unit(f"resetup_{k}", resetup, part=k, parts=4) for k in range(4)]
UNITS += [Unit(f"blocks_{int(d)}_5", blocks, d=d, n=5, tiers=("thorough",)) for d in (30.0, 400.0)]
