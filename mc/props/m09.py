"""M09: simple, vector and summary metrics give the statistic they name."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

from mc.core import Unit, same

PROPERTY = "M09"
LEVEL = "exploration"
RULE = (
    "case = (metric and its arguments, sequence of values): every sequence over a small alphabet of values (equal values, "
    "zero, negative and unsorted ones included) up to the stated length; the expected value is recomputed from the "
    "definition with plain Python arithmetic"
)
ASSUMPTIONS = [
    "values at which a threshold computed in floating point is met exactly are skipped",
    "angles span less than a full turn",
]
VALS = (-2.0, 0.0, 0.5, 1.0, 3.25)


def arr(col, vals, typ=float):
    d = np.zeros(len(vals), dtype=[("pad", int), (col, typ)])
    d[col] = vals
    return d


def mean(v):
    return float(sum(map(F, v)) / len(v))


def var(v):
    m = sum(map(F, v)) / len(v)
    return sum((F(x) - m) ** 2 for x in v) / len(v)


def pct(v, p):
    s = sorted(v)
    r = F(p) / 100 * (len(s) - 1)
    k = int(r)
    if k == len(s) - 1:
        return s[k]
    return float(F(s[k]) + (r - k) * (F(s[k + 1]) - F(s[k])))


def median(v):
    return pct(v, 50)


def sequences(alpha, n):
    for k in range(1, n + 1):
        yield from itertools.product(alpha, repeat=k)


def outliers(v, ns):
    m, s2 = sum(map(F, v)) / len(v), var(v)
    n = 0
    for x in v:
        d = F(x) - m
        if ns == 0:
            n += d > 0
            continue
        if d * d == F(ns) ** 2 * s2 and s2 != 0:
            return None
        out = d > 0 and d * d > F(ns) ** 2 * s2 if ns > 0 else d < 0 and d * d > F(ns) ** 2 * s2
        n += bool(out)
    return n


def u_column(ctx, part):
    """Statistics of one column."""
    from rubin_sim.maf import metrics as m

    table = [
        ("Max", m.MaxMetric, {}, max),
        ("AbsMax", m.AbsMaxMetric, {}, lambda v: max(map(abs, v))),
        ("Min", m.MinMetric, {}, min),
        ("Mean", m.MeanMetric, {}, mean),
        ("AbsMean", m.AbsMeanMetric, {}, lambda v: mean(list(map(abs, v)))),
        ("Median", m.MedianMetric, {}, median),
        ("AbsMedian", m.AbsMedianMetric, {}, lambda v: median(list(map(abs, v)))),
        ("FullRange", m.FullRangeMetric, {}, lambda v: max(v) - min(v)),
        ("Rms", m.RmsMetric, {}, lambda v: math.sqrt(var(v))),
        ("RelRms", m.RelRmsMetric, {}, lambda v: math.sqrt(var(v)) / median(v) if median(v) else None),
        ("Sum", m.SumMetric, {}, lambda v: float(sum(map(F, v)))),
        ("Count", m.CountMetric, {}, len),
        ("CountUnique", m.CountUniqueMetric, {}, lambda v: len(set(v))),
        ("UniqueRatio", m.UniqueRatioMetric, {}, lambda v: len(set(v)) / len(v)),
        ("Binary", m.BinaryMetric, {}, lambda v: 1),
        ("RobustRms", m.RobustRmsMetric, {}, lambda v: (pct(v, 75) - pct(v, 25)) / 1.349),
        ("MaxPercent", m.MaxPercentMetric, {}, lambda v: 100.0 * v.count(max(v)) / len(v)),
        ("AbsMaxPercent", m.AbsMaxPercentMetric, {}, lambda v: 100.0 * sum(abs(x) == abs(max(v)) for x in v) / len(v)),
        ("RealMean", m.RealMeanMetric, {}, mean),
        ("CountRatio", m.CountRatioMetric, dict(norm_val=4.0), lambda v: len(v) / 4.0),
        ("CountSubset", m.CountSubsetMetric, dict(subset=0.5), lambda v: v.count(0.5)),
    ]
    for c, s in ((0.5, 1), (1.0, 10), (-3.0, 1), (4.0, 2)):
        table.append((f"FracAbove {c}", m.FracAboveMetric, dict(cutoff=c, scale=s), lambda v, c=c, s=s: s * sum(x >= c for x in v) / len(v)))
        table.append((f"FracBelow {c}", m.FracBelowMetric, dict(cutoff=c, scale=s), lambda v, c=c, s=s: s * sum(x <= c for x in v) / len(v)))
    for p in (0, 10, 30, 50, 90, 100):
        table.append((f"Percentile {p}", m.PercentileMetric, dict(percentile=p), lambda v, p=p: pct(v, p)))
    for ns in (-1.25, -0.5, 0.0, 0.5, 1.25, 3.0):
        table.append((f"Noutliers {ns}", m.NoutliersNsigmaMetric, dict(n_sigma=ns), lambda v, ns=ns: outliers(v, ns)))
    for lo in (None, -2.0, 0.25, 0.5):
        for hi in (None, 3.25, 1.5, 1.0):
            table.append((f"Beyond {lo} {hi}", m.CountBeyondThreshold, dict(lower_threshold=lo, upper_threshold=hi),
                          lambda v, lo=lo, hi=hi: sum((lo is None or x > lo) and (hi is None or x < hi) for x in v)))
    table = table[part::3]
    n = ctx.pick(4, 5)
    ctx.bounds = {"metrics": len(table), "values": len(VALS), "length": n}
    built = [(name, cls(col="x", **kw), want) for name, cls, kw, want in table]
    for v in sequences(VALS, n):
        if not ctx.case(v):
            continue
        d = arr("x", v)
        for name, met, want in built:
            w = want(v)
            if w is None:
                continue
            ok, got = ctx.call(met.run, d.copy(), None)
            ctx.expect(ok and same(got, w, 1e-9, 1e-9), f"{name} of the values", got=got, want=w)
            ctx.outcome((name, w), sample=False)
    for name, cls, kw, want in table:
        if name != "RealMean":
            continue
        for v in sequences((np.nan, np.inf, 1.0, 2.5, -3.0), 4):
            fin = [x for x in v if math.isfinite(x)]
            if not fin or not ctx.case("finite", [repr(x) for x in v]):
                continue
            ok, got = ctx.call(cls(col="x").run, arr("x", v), None)
            ctx.expect(ok and same(got, mean(fin), 1e-9), "mean of the finite values", got=got, want=mean(fin))


def u_strings(ctx):
    """Counts of text values, with and without the trailing number."""
    from rubin_sim.maf import metrics as m

    alpha = ("a", "a, 1", "a, 2", "b, c", "", "b, c, 12", "a, x1")
    n = ctx.pick(4, 5)
    ctx.bounds = {"values": len(alpha), "length": n}
    for v in sequences(alpha, n):
        if not ctx.case(v):
            continue
        d = arr("note", v, "<U12")
        ok, got = ctx.call(m.CountSubsetMetric(col="note", subset="a").run, d.copy(), None)
        ctx.expect(ok and got == v.count("a"), "CountSubset of text", got=got, want=v.count("a"))
        ok, got = ctx.call(m.CountUniqueMetric(col="note").run, d.copy(), None)
        ctx.expect(ok and got == len(set(v)), "CountUnique of text", got=got)
        for clip, percent in itertools.product((False, True), repeat=2):
            labels = []
            for x in v:
                head, sep, tail = x.rpartition(", ")
                x = head if clip and sep and tail.isdigit() else x
                labels.append(x or "blank")
            want = {k: float(labels.count(k)) for k in labels}
            if percent:
                want = {k: c / len(v) * 100 for k, c in want.items()}
            met = m.StringCountMetric(col="note", clip_end=clip, percent=percent)
            keep = d.copy()
            ok, got = ctx.call(met.run, d, None)
            if not ctx.expect(ok, "counts of the values", error=got):
                continue
            ctx.expect(same(d, keep), "counting changed the values")
            res = {k: float(np.max(got[k])) for k in got.dtype.names}
            ctx.expect(set(res) == set(want) and all(abs(res[k] - want[k]) < 1e-9 for k in want), "count of each value", got=res, want=want)
            red = {k: float(met.reduce_funcs[k](got)) for k in want if k in met.reduce_funcs}
            ctx.expect(set(red) == set(want) and all(abs(red[k] - want[k]) < 1e-9 for k in want), "reduced count of each value", got=red, want=want)
            ctx.outcome(sorted(want.items()), sample=False)


def arc(v):
    """(length of the smallest arc holding the angles, its start) or None when ambiguous."""
    s = sorted({x % 360 for x in v})
    if len(s) == 1:
        return 0.0, s[0]
    gaps = [((s[(i + 1) % len(s)] - s[i]) % 360, s[(i + 1) % len(s)]) for i in range(len(s))]
    big = max(g for g, _ in gaps)
    starts = [st for g, st in gaps if abs(g - big) < 1e-6]
    return 360 - big, (starts[0] if len(starts) == 1 else None)


def u_angles(ctx):
    from rubin_sim.maf import metrics as m

    n = ctx.pick(4, 5)
    ctx.bounds = {"angles": "2 alphabets of 7", "length": n}
    for name, alpha in (("0-360", (0.0, 10.0, 95.5, 180.0, 200.0, 350.0, 359.5)), ("+-180", (-175.0, -90.0, -10.0, 0.0, 12.5, 100.0, 179.0))):
        for v in sequences(alpha, n):
            if not ctx.case(name, v):
                continue
            d = arr("ang", v)
            width, start = arc(v)
            ok, got = ctx.call(m.FullRangeAngleMetric(col="ang").run, d.copy(), None)
            ctx.expect(ok and abs(float(got) - width) < 1e-6, "smallest arc that holds the angles", got=got, want=width)
            if start is not None:
                u = [(x - start) % 360 for x in v]
                u = [x - 360 if x > width + 1e-6 else x for x in u]
                w = math.sqrt(var(u))
                ok, got = ctx.call(m.RmsAngleMetric(col="ang").run, d.copy(), None)
                ctx.expect(ok and abs(float(got) - w) < 1e-6, "rms of the angles in that arc", got=got, want=w)
            x = math.fsum(math.cos(math.radians(a)) for a in v) / len(v)
            y = math.fsum(math.sin(math.radians(a)) for a in v) / len(v)
            r = math.hypot(x, y)
            ok, got = ctx.call(m.MeanAngleMetric(col="ang").run, d.copy(), None)
            if abs(r - 0.1) > 1e-9:
                w = math.degrees(math.atan2(y, x)) if r > 0.1 else 180.0
                ctx.expect(ok and abs((float(got) - w + 180) % 360 - 180) < 1e-6 and 0 <= float(got) <= 360.0, "circular mean of the angles", got=got, want=w)
            for period in (360.0, 180.0):
                k = 2 * math.pi / period
                x = math.fsum(math.cos(a * k) for a in v) / len(v)
                y = math.fsum(math.sin(a * k) for a in v) / len(v)
                ok, got = ctx.call(m.AngularSpreadMetric(col="ang", period=period).run, d.copy(), None)
                ctx.expect(ok and abs(float(got) - (1 - math.hypot(x, y))) < 1e-9, "angular spread", got=got, want=1 - math.hypot(x, y))
            s = sorted(a % 360 for a in v)
            dist = [(i + 1) / len(s) for i in range(len(s))]
            w = max(a / 360 - f for a, f in zip(s, dist)) + max(f - a / 360 for a, f in zip(s, dist))
            ok, got = ctx.call(m.KuiperMetric(col="ang").run, d.copy(), None)
            ctx.expect(ok and abs(float(got) - w) < 1e-9, "Kuiper statistic", got=got, want=w)
            ctx.outcome((round(width, 3), len(v)), sample=False)


def coadd(ms):
    return 1.25 * math.log10(math.fsum(10 ** (0.8 * x) for x in ms))


def u_depth(ctx):
    """Coadded depths, exposure counts, weighted means."""
    from rubin_sim.maf import metrics as m

    alpha = list(itertools.product((22.0, 24.5), "gr", (10.0, 30.0, 61.0)))
    n = ctx.pick(3, 4)
    ctx.bounds = {"visits": len(alpha), "length": n}
    for h in sequences(alpha, n):
        if not ctx.case(h):
            continue
        d = np.zeros(len(h), dtype=[("fiveSigmaDepth", float), ("band", "<U1"), ("visitExposureTime", float), ("opt", float), ("visitTime", float), ("slewTime", float)])
        for i, (m5, b, e) in enumerate(h):
            d[i] = (m5, b, e, m5 + (0.5 if b == "g" else 0.0), e + 4, 5.0 + i)
        ms = [x[0] for x in h]
        ok, got = ctx.call(m.Coaddm5Metric().run, d.copy())
        ctx.expect(ok and abs(got - coadd(ms)) < 1e-9, "coadded depth", got=got, want=coadd(ms))
        ms_g = [x[0] for x in h if x[1] == "g"]
        met = m.Coaddm5Metric(filter_name="g", filter_col="band")
        ok, got = ctx.call(met.run, d.copy())
        w = coadd(ms_g) if ms_g else met.badval
        ctx.expect(ok and abs(got - w) < 1e-9, "coadded depth in one filter", got=got, want=w)
        for lo, per in ((20.0, 30.0), (5.0, 9.0)):
            ex = [x[2] for x in h]
            if any(abs(e / per % 1 - 0.5) < 1e-6 for e in ex):
                continue
            w = sum(round(e / per) for e in ex if e >= lo)
            ok, got = ctx.call(m.CountExplimMetric(min_exp=lo, expected_exp=per).run, d.copy())
            ctx.expect(ok and got == w, "visits counted by exposure time", got=got, want=w)
        ok, got = ctx.call(m.OpenShutterFractionMetric().run, d.copy())
        w = float(d["visitExposureTime"].sum()) / float((d["slewTime"] + d["visitTime"]).sum())
        ctx.expect(ok and abs(got - w) < 1e-9, "open shutter fraction", got=got, want=w)
        opt = coadd(list(d["opt"]))
        extra = (10 ** (0.8 * opt) - 10 ** (0.8 * coadd(ms))) / 10 ** (0.8 * median(ms))
        for kw, w in ((dict(mag_diff=True), opt - coadd(ms)), ({}, extra), (dict(normalize=True), extra / len(h) * 100)):
            ok, got = ctx.call(m.OptimalM5Metric(opt_m5_col="opt", **kw).run, d.copy())
            ctx.expect(ok and abs(got - w) < 1e-6, "depth lost to the optimal survey", got=got, want=w, kw=kw)
        sn = [5 * 10 ** (-0.4 * (20.0 - x)) for x in ms]
        w = math.fsum(a * b for a, b in zip(sn, d["visitExposureTime"])) / math.fsum(sn)
        ok, got = ctx.call(m.SnrWeightedMetric("visitExposureTime").run, d.copy())
        ctx.expect(ok and abs(got - w) < 1e-6, "average weighted by signal to noise", got=got, want=w)
        ctx.outcome((tuple(sorted(ms)), len(ms_g)), sample=False)


def u_vector(ctx):
    """Histograms and accumulated values over bins."""
    from rubin_sim.maf import metrics as m

    alpha = list(itertools.product((0, 1, 2, 3, 5), (1.5, 4.0)))
    n = ctx.pick(3, 4)
    binsets = {"unit": np.arange(0, 7) - 0.5, "edges": np.array([0, 2, 3, 5]), "short": np.array([1.0, 2.5]), "early": np.array([-3.0, -1.0, 1.0, 9.0])}
    ctx.bounds = {"visits": len(alpha), "length": n, "bins": len(binsets)}
    stat = {"count": len, "sum": math.fsum, "mean": mean, "max": max, "min": min, "median": median, "std": lambda v: math.sqrt(var(v))}
    for bname, bins in binsets.items():
        def bin_of(x):
            for i in range(len(bins) - 1):
                if bins[i] <= x < bins[i + 1] or (i == len(bins) - 2 and x == bins[i + 1]):
                    return i
            return None

        nb = len(bins) - 1
        hist = {s: m.HistogramMetric(bins=bins, col="v", bin_col="night", statistic=s) for s in stat}
        for h in sequences(alpha, n):
            if not ctx.case(bname, h):
                continue
            d = np.zeros(len(h), dtype=[("night", int), ("v", float), ("fiveSigmaDepth", float), ("observationStartMJD", float)])
            d["night"] = [x[0] for x in h]
            d["v"] = [x[1] for x in h]
            d["fiveSigmaDepth"] = 20 + d["v"]
            inbin = [[x[1] for x in h if bin_of(x[0]) == i] for i in range(nb)]
            for s, met in hist.items():
                want = [stat[s](g) if g else (0.0 if s in ("count", "sum") else math.nan) for g in inbin]
                ok, got = ctx.call(met.run, d.copy())
                ctx.expect(ok and same(np.asarray(got, float), np.array(want, float), 1e-9, 1e-9), f"histogram ({s}) over bins", got=got, want=want)
            upto = [[x[1] for x in sorted(h, key=lambda y: y[0]) if x[0] <= bins[i + 1]] for i in range(nb)]
            same_night = len({x[0] for x in h}) < len(h)
            for name, met, f in (
                ("sum", m.AccumulateMetric(col="v", bins=bins), math.fsum),
                ("maximum", m.AccumulateMetric(col="v", bins=bins, function=np.maximum), max),
                ("count", m.AccumulateCountMetric(bins=bins), len),
                ("depth", m.AccumulateM5Metric(bins=bins), lambda v: coadd([20 + x for x in v])),
            ):
                want = [f(g) if g else met.badval for g in upto]
                ok, got = ctx.call(met.run, d.copy())
                ctx.expect(ok and same(np.asarray(got, float), np.array(want, float), 1e-9, 1e-9), f"accumulated {name}", got=got, want=want)
            met = m.HistogramM5Metric(bins=bins)
            want = [coadd([20 + x for x in g]) if g else met.badval for g in inbin]
            ok, got = ctx.call(met.run, d.copy())
            ctx.expect(ok and same(np.asarray(got, float), np.array(want, float), 1e-9, 1e-9), "depth in bins", got=got, want=want)
            if nb > 1:
                met = m.AccumulateUniformityMetric(bins=bins)
                cum = list(itertools.accumulate(map(len, inbin)))
                dev = list(itertools.accumulate((abs(c - i / (nb - 1) * len(h)) for i, c in enumerate(cum)), max))
                want = [x / len(h) for x in dev] if len(h) > 1 else [1.0] * nb
                ok, got = ctx.call(met.run, d.copy())
                ctx.expect(ok and same(np.asarray(got, float), np.array(want, float), 1e-9, 1e-9), "accumulated uniformity", got=got, want=want)
            met = m.YearCoverageMetric(bins=bins, metric_name="years", badval=-7)
            ctx.expect((met.name, met.badval) == ("years", -7), "name and bad value given to YearCoverageMetric", got=(met.name, met.badval))
            ok, got = ctx.call(met.run, d.copy(), None)
            ctx.expect(ok and got == sum(bool(g) for g in inbin), "bins covered", got=got)
            ctx.outcome((bname, tuple(map(len, inbin)), same_night), sample=False)


def u_summary(ctx):
    """Summary statistics of a map."""
    import healpy as hp

    from rubin_sim.maf import metrics as m

    nside = 1
    npix = 12
    pix = 4 * math.pi * (180 / math.pi) ** 2 / npix
    alpha = (np.nan, 0.0, 2.0, 5.0)
    k = ctx.pick(5, 6)
    ctx.bounds = {"pixels": npix, "patterns": f"{len(alpha)}^{k}"}
    del hp
    for v in itertools.product(alpha, repeat=k):
        if not ctx.case([repr(x) for x in v]):
            continue
        full = np.array(list(v) + [3.0] * 3 + [0.0] * (npix - k - 3))
        d = np.zeros(npix, dtype=[("metricdata", float)])
        d["metricdata"] = full
        fin = sorted(x for x in full if math.isfinite(x))
        for need in (1, 4, 7, 12):
            area = (need - 0.5) * pix
            for dec in (True, False):
                part = fin[::-1][:need] if dec else fin[:need]
                for rf, f in ((None, min if dec else max), (np.mean, mean), (np.median, median), (np.max, max)):
                    ok, got = ctx.call(m.AreaSummaryMetric(area=area, decreasing=dec, reduce_func=rf).run, d.copy())
                    ctx.expect(ok and abs(got - f(part)) < 1e-9, "value over the best area", got=got, want=f(part), area=need, decreasing=dec)
        for lo, hi in ((None, None), (1.0, None), (None, 2.5), (0.0, 5.0), (2.0, 3.0)):
            w = pix * sum((lo is None or x > lo) and (hi is None or x < hi) for x in full)
            ok, got = ctx.call(m.AreaThresholdMetric(lower_threshold=lo, upper_threshold=hi).run, d.copy())
            ctx.expect(ok and abs(got - w) < 1e-6, "area between thresholds", got=got, want=w)
        good = np.zeros(len(fin), dtype=d.dtype)
        good["metricdata"] = [x for x in full if math.isfinite(x)]
        for need, norm in itertools.product((1, 4, 8, 11), (False, True)):
            met = m.FONv(asky=(need - 0.5) * pix, nside=nside, n_visit=10, norm=norm)
            ok, got = ctx.call(met.run, good.copy())
            top = fin[-need:]
            w = (met.badval, met.badval) if len(fin) < need else (median(top) / (10 if norm else 1), top[0] / (10 if norm else 1))
            ctx.expect(ok and same([float(x) for x in got["value"]], [float(x) for x in w], 1e-9, 1e-9) and list(got["name"]) == ["MedianNvis", "MinNvis"],
                       "visits over the best area", got=got, want=w)
        for nv, norm in itertools.product((2, 3, 4), (False, True)):
            met = m.FOArea(n_visit=nv, nside=nside, asky=1000.0, norm=norm)
            a = pix * sum(x >= nv for x in fin)
            w = met.badval if a == 0 else a / 1000.0 if norm else a
            ok, got = ctx.call(met.run, good.copy())
            ctx.expect(ok and abs(got - w) < 1e-6, "area with enough visits", got=got, want=w)
        zero = np.where(np.isfinite(full), full, 0.0)
        dz = d.copy()
        dz["metricdata"] = zero
        foot = np.array([1.0, 0, 1, 1, 0, 1, 1, 0, 0, 1, 0, 0.5])
        for nmin in (1, 3):
            w = sum(f > 0 and x >= nmin for f, x in zip(foot, zero)) / 7
            ok, got = ctx.call(m.FootprintFractionMetric(footprint=foot, n_min=nmin).run, dz.copy())
            ctx.expect(ok and abs(got - w) < 1e-12, "fraction of the footprint", got=got, want=w)
        ok, got = ctx.call(m.NormalizeMetric(norm_val=4).run, dz.copy())
        ctx.expect(ok and same(np.asarray(got), zero / 4), "normalized map", got=got)
        ok, got = ctx.call(m.ZeropointMetric(zp=-1.5).run, dz.copy())
        ctx.expect(ok and same(np.asarray(got), zero - 1.5), "map with a zeropoint", got=got)
        for one in (dz[:1], dz):
            ok, got = ctx.call(m.IdentityMetric(col="metricdata").run, one.copy())
            w = one["metricdata"][0] if one.size == 1 else one["metricdata"]
            ctx.expect(ok and same(got, w), "identity", got=got)
        ctx.outcome(tuple(fin), sample=False)


def u_phase(ctx):
    """Largest gap in phase for each trial period; uniformity of values."""
    from rubin_sim.maf import metrics as m

    times = (0.0, 0.4, 1.0, 2.3, 3.9, 7.1)
    n = ctx.pick(4, 5)
    ctx.bounds = {"times": len(times), "length": n}
    for h in sequences(times, n):
        if not ctx.case(h):
            continue
        d = arr("observationStartMJD", [100 + t for t in h])
        for lo, hi, k in ((1.5, 4.0, 3), (2.0, 2.0, 4), (3.0, 5.0, 1), (1.0, 9.0, 2)):
            met = m.PhaseGapMetric(n_periods=k, period_min=lo, period_max=hi, n_visits_min=2)
            ok, got = ctx.call(met.run, d.copy())
            if len(h) < 2:
                ctx.expect(ok and got == met.badval, "too few visits", got=got)
                continue
            periods = [lo] if lo == hi or k == 1 else [lo + (hi - lo) * i / (k - 1) for i in range(k)]
            gaps = []
            for p in periods:
                ph = sorted(((100 + t) % p) / p for t in h)
                gaps.append(max([b - a for a, b in zip(ph, ph[1:])] + [1 - ph[-1] + ph[0]]))
            if not ctx.expect(ok and same(np.asarray(got["periods"], float), np.array(periods), 1e-9) and same(np.asarray(got["maxGaps"], float), np.array(gaps), 1e-9, 1e-9),
                              "largest phase gap of each period", got=got, want=[periods, gaps]):
                continue
            ctx.expect(abs(met.reduce_mean_gap(got) - mean(gaps)) < 1e-9 and abs(met.reduce_median_gap(got) - median(gaps)) < 1e-9
                       and abs(met.reduce_largest_gap(got) - max(gaps)) < 1e-9, "summaries of the phase gaps")
            if sorted(gaps)[-1] - ([0.0] + sorted(gaps))[-2] > 1e-9:
                w = periods[gaps.index(max(gaps))]
                ctx.expect(abs(float(np.ravel(met.reduce_worst_period(got))[0]) - w) < 1e-9, "worst period", want=w)
        for lo, hi in ((None, None), (0.0, 10.0), (-2.0, None), (None, 8.0)):
            a = min(h) if lo is None else lo
            b = max(h) if hi is None else hi
            met = m.GeneralUniformityMetric(col="x", min_value=lo, max_value=hi)
            dd = arr("x", h)
            if len(h) > 1 and a == b:
                continue
            ok, got = ctx.call(met.run, dd)
            if len(h) == 1:
                ctx.expect(ok and got == 1, "uniformity of one value", got=got)
                continue
            s = sorted((x - a) / (b - a) for x in h)
            w = max(abs(i / (len(s) - 1) - x) for i, x in enumerate(s))
            ctx.expect(ok and abs(got - w) < 1e-9, "uniformity of values", got=got, want=w)
        for years in (0.05, 10.0):
            span = years * 365.25
            ok, got = ctx.call(m.UniformityMetric(survey_length=years).run, d.copy())
            if len(h) == 1:
                ctx.expect(ok and got == 1, "uniformity of one visit", got=got)
                continue
            s = sorted((t - min(h)) / span for t in h)
            w = max(abs((i + 1) / len(s) - x - s[1]) for i, x in enumerate(s))
            ctx.expect(ok and abs(got - w) < 1e-9, "uniformity of the visits in time", got=got, want=w)
        dd = np.zeros(len(h), dtype=[("observationStartMJD", float), ("fiveSigmaDepth", float)])
        dd["observationStartMJD"] = [100 + t for t in h]
        dd["fiveSigmaDepth"] = [22 + t / 3 for t in h]
        for period in (2.0, 0.7):
            sn = [5 * 10 ** (-0.4 * (20 - x)) for x in dd["fiveSigmaDepth"]]
            ph = [x % period / period * 2 * math.pi for x in dd["observationStartMJD"]]
            off = math.hypot(math.fsum(a * math.cos(b) for a, b in zip(sn, ph)), math.fsum(a * math.sin(b) for a, b in zip(sn, ph))) / math.fsum(sn)
            amp = min(math.sqrt(math.fsum((a * math.sin(b + j * math.pi / 8)) ** 2 for a, b in zip(sn, ph))) for j in range(8)) / math.sqrt(math.fsum(a * a for a in sn))
            ok, got = ctx.call(m.PeriodicQualityMetric(period=period).run, dd.copy())
            ctx.expect(ok and abs(got - amp * (1 - off)) < 1e-6, "quality of the phase coverage", got=got, want=amp * (1 - off))
        ctx.outcome(tuple(sorted(h)), sample=False)


UNITS = [
    Unit("column_0", u_column, part=0), Unit("column_1", u_column, part=1), Unit("column_2", u_column, part=2),
    Unit("strings", u_strings), Unit("angles", u_angles), Unit("depth", u_depth), Unit("vector", u_vector), Unit("summary", u_summary),
    Unit("phase", u_phase),
]
