"""M10: cadence metrics report the gaps, nights, groups, seasons and changes of the visits."""
import itertools
import math

import numpy as np

from mc import visits as V
from mc.core import Unit, same
from mc.props.m09 import coadd, mean, median, pct

PROPERTY = "M10"
LEVEL = "exploration"
RULE = (
    "case = set of visits: every subset up to the stated size of a grid of nights and times within the night (with every "
    "assignment of bands or exposure times from a small menu), given to the metric in reversed order; times are exact "
    "binary fractions so that thresholds can be met exactly; expected values recomputed from the definition"
)
ASSUMPTIONS = [
    "visit times are distinct and nights increase with time",
    "seasons are those of rubin_scheduler.utils.calc_season (a dependency)",
]
T0 = 61000
OFF = (0.0, 1 / 64, 3 / 64, 1 / 8)
NIGHTS = (1, 2, 4, 40)
GRID = [n + o for n in NIGHTS for o in OFF]


def table(times, bands=None, exps=None, m5=None, seeing=None):
    n = len(times)
    d = np.zeros(n, dtype=V.COLS)
    d["observationStartMJD"] = [T0 + t for t in times]
    d["night"] = [int(math.floor(t)) for t in times]
    d["band"] = bands if bands is not None else "r"
    d["visitExposureTime"] = exps if exps is not None else 30.0
    d["fiveSigmaDepth"] = m5 if m5 is not None else 24.0
    d["seeingFwhmGeom"] = seeing if seeing is not None else 1.0
    return d[::-1].copy()


def close(a, b, tol=1e-6):
    try:
        return same(np.asarray(a, float), np.asarray(b, float), 1e-9, tol)
    except (TypeError, ValueError):
        return False


def hist(vals, bins):
    out = [0] * (len(bins) - 1)
    for v in vals:
        for i in range(len(bins) - 1):
            if bins[i] <= v < bins[i + 1] or (i == len(bins) - 2 and v == bins[i + 1]):
                out[i] += 1
                break
    return out


def subsets(n):
    for k in range(1, n + 1):
        yield from itertools.combinations(GRID, k)


def u_gaps(ctx, part):
    from rubin_sim.maf import metrics as m

    n = ctx.pick(4, 5)
    ctx.bounds = {"times": len(GRID), "visits": n}
    red = {"median": (np.median, median), "max": (np.max, max), "mean": (np.mean, mean)}
    for j, ts in enumerate(subsets(n)):
        if j % 2 != part or not ctx.case(ts):
            continue
        d = table(ts)
        gaps = [b - a for a, b in zip(ts, ts[1:])]
        every = [b - a for a, b in itertools.combinations(ts, 2)]
        nights = sorted({int(t) for t in ts})
        by = {k: [t for t in ts if int(t) == k] for k in nights}
        intra = [b - a for a, b in zip(ts, ts[1:]) if int(a) == int(b)]
        inter = [by[b][0] - by[a][-1] for a, b in zip(nights, nights[1:])]

        def chk(met, want, what):
            ok, got = ctx.call(met.run, d.copy(), None)
            ctx.expect(ok and close(got, want), what, got=got, want=want)

        bad = m.MaxGapMetric().badval
        chk(m.MaxGapMetric(), max(gaps) if gaps else bad, "largest gap")
        for r, (f, g) in red.items():
            chk(m.VisitGapMetric(reduce_func=f), g(gaps) * 24 if gaps else bad, f"{r} gap in hours")
            chk(m.IntraNightGapsMetric(reduce_func=f), g(intra) * 24 if intra else bad, f"{r} gap within nights in hours")
            chk(m.InterNightGapsMetric(reduce_func=f), g(inter) if inter else bad, f"{r} gap between nights")
        for mins in (22.5, 45.0, 100.0, 2000.0):
            c = sum(x <= mins / 1440 for x in gaps)
            chk(m.NRevisitsMetric(d_t=mins), c, "revisits within the interval")
            chk(m.NRevisitsMetric(d_t=mins, normed=True), c / len(ts), "fraction of revisits within the interval")
        for a, b in ((1 / 64, 3 / 64), (1 / 32, 1.0), (0.5, 50.0), (1.0, 1.0)):
            for al in (False, True):
                g = every if al else gaps
                chk(m.TgapsPercentMetric(min_time=a, max_time=b, all_gaps=al), 100 * sum(a <= x <= b for x in g) / len(g) if g else bad, "percent of gaps in the range")
        for bins in (np.array([0, 1 / 64, 1 / 32, 1 / 8, 2.0]), np.array([0.5, 1.5, 40.0])):
            for al in (False, True):
                g = every if al else gaps
                chk(m.TgapsMetric(bins=bins, all_gaps=al), hist(g, bins) if g else bad, "histogram of gaps")
        dn = [b - a for a, b in zip(nights, nights[1:])]
        dall = [b - a for a, b in itertools.combinations(nights, 2)]
        for bins in (np.arange(0, 10), np.array([0, 2, 3, 36, 39])):
            chk(m.NightgapsMetric(bins=bins), hist(dn, bins) if len(ts) > 1 else bad, "histogram of nights between visits")
            chk(m.NightgapsMetric(bins=bins, all_gaps=True), hist(dall, bins) if len(ts) > 1 else bad, "histogram of nights between all nights")
        for bins in (np.arange(0, 10), np.array([1, 2, 3])):
            chk(m.NVisitsPerNightMetric(bins=bins), hist([len(v) for v in by.values()], bins), "histogram of visits per night")
        spans = [(v[-1] - v[0]) * 1440 for v in by.values() if len(v) > 1]
        for p in (0, 20, 75, 100):
            chk(m.NightTimespanMetric(percentile=p), pct(spans, p) if spans else bad, "timespan within nights")
        for lo, pair, hi, n1, n2 in ((1 / 128, 1 / 32, 1 / 8, 1, 2), (1 / 64, 1 / 64, 2.0, 1, 1), (1 / 32, 1.0, 40.0, 2, 2)):
            c1 = sum(lo <= x <= pair for x in gaps)
            c2 = sum(lo <= x <= hi for x in gaps)
            chk(m.RapidRevisitMetric(d_tmin=lo, d_tpairs=pair, d_tmax=hi, min_n1=n1, min_n2=n2), int(c1 >= n1 and c2 >= n2), "enough rapid revisits")
        for lo, hi, nv in ((1 / 128, 1 / 8, 1), (1 / 64, 40.0, 2), (1 / 32, 2.0, 3)):
            g = sorted(x for x in gaps if lo <= x <= hi)
            w = bad
            if len(g) >= max(nv, 2):
                s = [(x - g[0]) / (hi - lo) for x in g]
                w = max(abs((i + 1) / len(s) - x - s[1]) for i, x in enumerate(s))
            chk(m.RapidRevisitUniformityMetric(d_tmin=lo, d_tmax=hi, min_nvisits=nv), w, "uniformity of rapid revisits")
        for lo, hi in ((15.0, 90.0), (30.0, 200.0), (1000.0, 5000.0)):
            w = sum(any(lo < abs(t - s) * 1440 < hi for s in ts if s != t) for t in ts) / len(ts)
            chk(m.PairFractionMetric(min_gap=lo, max_gap=hi), w, "fraction of visits in pairs")
        for mg, fudge in ((50.0, 0.0), (3000.0, 2.5)):
            o = sum(x for x in gaps if x < mg / 1440) * 86400
            if o > 0:
                chk(m.BruteOSFMetric(maxgap=mg, fudge=fudge), len(ts) * (30.0 + fudge) / o, "open shutter fraction of the gaps")
        ctx.outcome((len(ts), len(nights), round(max(gaps), 3) if gaps else None), sample=False)


def u_values(ctx):
    """Depth per night and templates."""
    from rubin_sim.maf import metrics as m

    times = (1.0, 1 + 1 / 64, 2.0, 4.0, 4 + 1 / 8)
    n = ctx.pick(3, 4)
    ctx.bounds = {"times": len(times), "visits": n, "values": 3}
    bins = np.array([22.0, 23.5, 24.2, 24.7, 26.0])
    for k in range(1, n + 1):
        for ts in itertools.combinations(times, k):
            for vals in itertools.product((0.7, 1.0, 1.3), repeat=k):
                if not ctx.case(ts, vals):
                    continue
                d = table(ts, m5=[22.5 + v for v in vals], seeing=list(vals))
                w = sum(any(p <= v for p in vals[:i]) for i, v in enumerate(vals)) / k
                ok, got = ctx.call(m.TemplateExistsMetric().run, d.copy(), None)
                ctx.expect(ok and close(got, w), "fraction of visits with an earlier template as good", got=got, want=w)
                per = {}
                for t, v in zip(ts, vals):
                    per.setdefault(int(t), []).append(22.5 + v)
                deep = [coadd(x) for x in per.values()]
                ok, got = ctx.call(m.CoaddM5PerNightMetric(bins=bins).run, d.copy(), None)
                ctx.expect(ok and close(got, hist(deep, bins)), "histogram of the depth of each night", got=got, want=hist(deep, bins))
                ctx.outcome((len(per), vals), sample=False)


def u_changes(ctx):
    """Changes of a state (the band) with time."""
    from rubin_sim.maf import metrics as m

    times = (0.0, 1 / 64, 1 / 32, 3 / 32, 1.0, 1 + 1 / 128)
    n = ctx.pick(5, 6)
    ctx.bounds = {"times": len(times), "visits": n, "bands": 2}
    for k in range(1, n + 1):
        for ts in itertools.combinations(times, k):
            for bands in itertools.product("gr" if k > 4 else "gri", repeat=k):
                if not ctx.case(ts, bands):
                    continue
                d = table(ts, bands=list(bands))
                at = [t for t, a, b in zip(ts[1:], bands, bands[1:]) if a != b]
                dt = [(b - a) * 1440 for a, b in zip([ts[0]] + at[:-1], at)]

                def chk(met, want, what):
                    ok, got = ctx.call(met.run, d.copy(), None)
                    ctx.expect(ok and close(got, want), what, got=got, want=want)

                chk(m.NChangesMetric(), len(at), "number of changes")
                chk(m.MinTimeBetweenStatesMetric(), min(dt) if dt else m.MinTimeBetweenStatesMetric().badval, "shortest time between changes")
                for cut in (22.5, 30.0, 100.0, 2000.0):
                    chk(m.NStateChangesFasterThanMetric(cutoff=cut), sum(x < cut - 1e-9 for x in dt), "changes faster than the cutoff")
                for span in (20.0, 50.0, 140.0, 2000.0):
                    w = max((sum(0 <= b - a <= span / 1440 for b in at) for a in at), default=0)
                    chk(m.MaxStateChangesWithinMetric(timespan=span), w, "most changes within the timespan")
                ctx.outcome((tuple(round(x, 2) for x in dt)), sample=False)


def u_seasons(ctx):
    from rubin_scheduler.utils import calc_season

    from rubin_sim.maf import metrics as m

    V.data_dir(ctx)
    times = (3.0, 3.125, 10.0, 60.0, 200.0, 372.0, 420.5, 900.0)
    n = ctx.pick(4, 5)
    ras = (0.4, 3.3)
    ctx.bounds = {"times": len(times), "visits": n, "exposure times": 2, "positions": len(ras)}
    red = {"median": (np.median, median), "max": (np.max, max)}
    tdc = m.TdcMetric(mag_cuts={f: 23.0 for f in "ugrizy"})
    for ra in ras:
        sp = V.slice_point()
        sp["ra"] = ra
        for k in range(1, n + 1):
            for ts in itertools.combinations(times, k):
                for ex in itertools.product((30.0, 5.0), repeat=k):
                    if not ctx.case(ra, ts, ex):
                        continue
                    m5 = [24.0 if e > 6 else 22.0 for e in ex]
                    d = table(ts, exps=list(ex), m5=m5)
                    use = [t for t, e in zip(ts, ex) if e > 20]
                    seas = {}
                    for t in use:
                        seas.setdefault(math.floor(float(np.ravel(calc_season(math.degrees(ra), np.array([T0 + t])))[0])), []).append(t)

                    def chk(met, want, what):
                        ok, got = ctx.call(met.run, d.copy(), dict(sp))
                        ctx.expect(ok and close(got, want), what, got=got, want=want)

                    bad = m.CampaignLengthMetric().badval
                    lens = [v[-1] - v[0] for v in seas.values()]
                    for r, (f, g) in red.items():
                        chk(m.SeasonLengthMetric(reduce_func=f), g(lens) if lens else bad, f"{r} length of the seasons")
                    chk(m.CampaignLengthMetric(), len(seas) if seas else bad, "number of seasons")
                    sep = []
                    for v in seas.values():
                        ns = sorted({int(t) for t in v})
                        sep.append(mean([b - a for a, b in zip(ns, ns[1:])]) if len(ns) > 1 else 0.0)
                    chk(m.MeanCampaignFrequencyMetric(), mean(sep) if sep else bad, "mean separation of nights in a season")
                    ok, got = ctx.call(tdc.run, d.copy(), dict(sp))
                    if not lens or median(lens) == 0 or mean(sep) == 0:
                        ctx.expect(ok and got == tdc.badval, "no time delays without seasons", got=got)
                    elif ctx.expect(ok and isinstance(got, dict), "time delay challenge values", got=got):
                        s, c, g = median(lens) / 30.0, mean(sep), len(seas)
                        w = {
                            "accuracy": 0.06 * (4 / s) * (5 / g) ** 1.1, "precision": 4 * (c / 3) ** 0.7 * (4 / s) ** 0.3 * (5 / g) ** 0.6,
                            "rate": 30 * (3 / c) ** 0.4 * (s / 4) ** 0.8 * (5 / g) ** 0.2, "cadence (days)": c, "season (months)": s, "campaign": g,
                        }
                        ctx.expect(set(got) == set(w) and all(abs(got[x] - w[x]) < 1e-9 * max(1, abs(w[x])) for x in w), "time delay challenge values", got=got, want=w)
                    ctx.outcome((tuple(map(len, seas.values())), len(use)), sample=False)


def u_groups(ctx):
    """Nights with groups of visits and what is derived from them."""
    from rubin_sim.maf import metrics as m

    n = ctx.pick(4, 5)
    ctx.bounds = {"times": "4 nights of 5", "visits": n}
    lo, hi = 1 / 96, 1 / 16
    grid = [k + o for k in (1, 2, 20, 33) for o in (0.0, 1 / 256, 1 / 64, 1 / 32, 1 / 4)]
    for k in range(1, n + 1):
        for ts in itertools.combinations(grid, k):
            if not ctx.case("visits", ts):
                continue
            want, skip = {}, False
            for night in sorted({int(t) for t in ts}):
                v = [t for t in ts if int(t) == night]
                kinds = ["c" if b - a < lo else "g" if b - a <= hi else "f" for a, b in zip(v, v[1:])]
                if "c" in kinds and kinds not in (["c"], ["c", "g"], ["g", "c"], ["c", "f"], ["f", "c"]):
                    skip = True  # halves are only documented next to a pair
                inpair = {i for j, x in enumerate(kinds) if x == "g" for i in (j, j + 1)}
                if inpair:
                    want[night] = len(inpair) + 0.5 * kinds.count("c")
            if skip:
                continue
            met = m.VisitGroupsMetric(delta_t_min=lo, delta_t_max=hi)
            ok, got = ctx.call(met.run, table(ts), None)
            if not want:
                ctx.expect(ok and not isinstance(got, dict) and got == met.badval, "no groups of visits", got=got)
            else:
                ctx.expect(ok and isinstance(got, dict) and close(got["nights"], list(want)) and close(got["visits"], list(want.values())),
                           "visits in groups on each night", got=got, want=want)
            ctx.outcome(tuple(want.items()), sample=False)


def u_windows(ctx):
    from rubin_sim.maf import metrics as m

    nights = (1, 3, 12, 31, 45, 61, 100, 125)
    n = ctx.pick(5, 6)
    ctx.bounds = {"nights": len(nights), "groups": n, "visits": 3}
    for k in range(1, n + 1):
        for ns in itertools.combinations(nights, k):
            for vs in itertools.product((2.0, 1.5, 3.0) if k <= 4 else (2.0, 1.5), repeat=k):
                for window, minn, minv in ((30, 1, 2), (30, 2, 2), (10, 2, 1), (40, 3, 2)):
                    if not ctx.case("windows", ns, vs, window, minn, minv):
                        continue
                    met = m.VisitGroupsMetric(window=window, min_n_nights=minn, min_n_visits=minv)
                    val = {"visits": np.array(vs), "nights": np.array(ns)}
                    ok_night = [(a, v) for a, v in zip(ns, vs) if v >= minv]

                    def chk(name, want):
                        ok, got = ctx.call(getattr(met, name), {x: y.copy() for x, y in val.items()})
                        ctx.expect(ok and close(got, want), name, got=got, want=want)

                    chk("reduce_median", median(vs))
                    chk("reduce_n_nights_with_n_visits", len(ok_night))
                    chk("reduce_n_visits_in_window", max(sum(v for b, v in ok_night if a <= b < a + window) for a in ns))
                    chk("reduce_n_nights_in_window", max(sum(a <= b < a + window for b, _ in ok_night) for a in ns))
                    flags = []
                    for s in range(ns[0], ns[-1] + 1, 30):
                        inl = [b for b, _ in ok_night if s <= b < s + 30]
                        alln = [b for b in ns if s <= b < s + 30]
                        flags.append(any(sum(a <= b < a + window for b in inl) >= minn for a in alln))
                    chk("reduce_n_lunations", sum(flags))
                    chk("reduce_max_seq_lunations", max((len(list(g)) for f, g in itertools.groupby(flags) if f), default=0))
                    ctx.outcome((tuple(flags), len(ok_night)), sample=False)


UNITS = [
    Unit("gaps_0", u_gaps, part=0), Unit("gaps_1", u_gaps, part=1), Unit("values", u_values), Unit("changes", u_changes),
    Unit("seasons", u_seasons), Unit("groups", u_groups), Unit("windows", u_windows),
]
