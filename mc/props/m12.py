"""M12: solar system metrics, their slicer, bundles and summaries."""
import itertools
import math
import os
import warnings

import numpy as np
import numpy.ma as ma
import pandas as pd

from mc.core import Unit

PROPERTY = "M12"
LEVEL = "exploration"
RULE = (
    "case = (metric and its arguments, sequence of observations): every subset or sequence of observations over small grids of "
    "nights, times, visibility, speed and band, in several row orders, is evaluated and compared with a plain recomputation "
    "from the definition; groups of bundles are compared with each bundle run alone"
)
ASSUMPTIONS = [
    "values at a threshold computed in floating point are avoided",
    "the probabilistic visibility column is given or replaced by an SNR limit",
    "tracklets are judged only where 'n consecutive observations in the time limits' and 'any n observations' agree",
]
COLS = [
    ("observationStartMJD", float), ("night", int), ("band", "<U1"), ("SNR", float), ("vis", int), ("velocity", float),
    ("seeingFwhmGeom", float), ("visitExposureTime", float), ("geo_dist", float), ("ra", float), ("dec", float),
    ("ec_lon", float), ("ec_lat", float), ("solar_elong", float), ("appMag", float), ("fiveSigmaDepth", float),
    ("appMagV", float), ("ecLon", float), ("phase", float), ("Elongation", float), ("MJD(UTC)", float),
]
T0 = 60000.0


def table(rows):
    """rows: list of dicts; every other column is a distinct number per row."""
    d = np.zeros(len(rows), dtype=COLS)
    for j, (c, t) in enumerate(COLS):
        if t is float:
            d[c] = 0.1 + np.arange(len(rows)) * 0.013 + j
        d[c] = [r.get(c, d[c][i]) for i, r in enumerate(rows)]
    return d


def row(night, off, seen=True, **kw):
    return dict(observationStartMJD=T0 + night + off, night=night, SNR=5.1 if seen else 4.9, vis=int(seen), **kw)


def orders(n):
    if n < 2:
        yield tuple(range(n))
        return
    base = list(range(n))
    seen = []
    for o in (base, base[::-1], base[::2] + base[1::2], base[n // 2:] + base[: n // 2]):
        if o not in seen:
            seen.append(o)
            yield tuple(o)


# ------------------------------------------------------------- discovery
def good_night(times, n, tmin, tmax):
    """True/False, or None where the two readings differ."""
    t = sorted(times)
    if len(t) < n:
        return False
    span = t[-1] - t[0]
    strict = tmin <= span <= tmax or (
        len(t) > n and span > tmax and any(tmin <= t[i + n - 1] - t[i] <= tmax for i in range(len(t) - n + 1))
    )
    loose = any(
        tmin <= t[j] - t[i] <= tmax and j - i + 1 >= n for i in range(len(t)) for j in range(i, len(t))
    )
    return strict if strict == loose else None


def discover(rows, n_obs, n_nights, window, tmin, tmax):
    per = {}
    for r in rows:
        if r["vis"]:
            per.setdefault(r["night"], []).append(r["observationStartMJD"] - T0)
    good = []
    for k in sorted(per):
        g = good_night(per[k], n_obs, tmin, tmax)
        if g is None:
            return None
        if g:
            good.append(k)
    starts = [
        good[i] for i in range(len(good) - n_nights + 1) if good[i + n_nights - 1] - good[i] <= window
    ]
    first = None
    if starts:
        first = min(i for i, r in enumerate(rows) if r["vis"] and r["night"] == starts[0])
        first = min(
            (i for i, r in enumerate(rows) if r["vis"] and r["night"] == starts[0]), key=lambda i: rows[i]["observationStartMJD"]
        )
    return len(starts), first


GRIDS = {
    "wide": ((3, 4, 8, 19), (0.0, 0.02, 0.08)),
    "deep": ((2, 5, 17), (0.0, 0.003, 0.02, 0.08)),
    "gaps": ((1, 2, 16, 17, 31, 32), (0.0, 0.02)),
}
CONF = [
    (2, 3, 15, 5 / 1440.0, 90 / 1440.0), (2, 2, 15, 5 / 1440.0, 90 / 1440.0), (2, 2, 1, 5 / 1440.0, 90 / 1440.0),
    (3, 1, 15, 5 / 1440.0, 90 / 1440.0), (1, 3, 14, 0.0, 90 / 1440.0), (4, 1, 5, 5 / 1440.0, 0.3),
]


def u_discovery(ctx, grid, part, parts):
    from rubin_sim.maf import metrics as m

    nights, offs = GRIDS[grid]
    slots = [(n, o) for n in nights for o in offs]
    ctx.bounds = {"nights": nights, "times of night (d)": offs, "subsets": 2 ** len(slots), "configurations": len(CONF)}
    for bits in range(part, 2 ** len(slots), parts):
        if not ctx.thorough and bits % 3 != part % 3 and bin(bits).count("1") > 7:
            continue
        picked = [bool(bits >> i & 1) for i in range(len(slots))]
        for rest in ("absent", "invisible"):
            rows0 = [row(n, o, p) for (n, o), p in zip(slots, picked) if p or rest == "invisible"]
            if not rows0:
                continue
            for io, order in enumerate(orders(len(rows0))):
                rows = [rows0[i] for i in order]
                d = table(rows)
                for ic, (no, nn, w, tmin, tmax) in enumerate(CONF):
                    if not ctx.case("discovery", grid, bits, rest, io, ic):
                        continue
                    want = discover(rows, no, nn, w, tmin, tmax)
                    if want is None:
                        continue
                    for lim in (5.0, None) if io == 1 else (5.0,):
                        pm = m.DiscoveryMetric(
                            n_obs_per_night=no, t_min=tmin, t_max=tmax, n_nights_per_window=nn, t_window=w, snr_limit=lim
                        )
                        ok, val = ctx.must(pm.run, d, None, 20.0, what="DiscoveryMetric")
                        if not ok:
                            continue
                        ctx.outcome(want, trivial=not want[0])
                        if val is None:
                            ctx.equal(0, want[0], "discovery opportunities found")
                            continue
                        kids = dict(pm.child_metrics)
                        kids["Velocity"] = m.DiscoveryVelocityMetric(pm)
                        got = {}
                        for k, c in kids.items():
                            if k == "N_Obs":
                                continue
                            ok, v = ctx.must(c.run, d, None, 20.0, val, what=f"child metric {k}")
                            got[k] = (v == c.badval) if not want[0] and k != "N_Chances" else v
                        i = want[1]
                        exp = {"N_Chances": want[0]}
                        for k, cs in (
                            ("Time", ["observationStartMJD"]), ("Distance", ["geo_dist"]), ("RADec", ["ra", "dec"]),
                            ("EcLonLat", ["ec_lon", "ec_lat", "solar_elong"]), ("Velocity", ["velocity"]),
                        ):
                            exp[k] = True if i is None else tuple(d[c][i] for c in cs) if len(cs) > 1 else d[cs[0]][i]
                        ctx.equal(got, exp, "first discovery opportunity and their number")


# ------------------------------------------------- counts per object
ALPHA = [
    # night, time of night, seen, fast
    (2, 0.10, True, True), (2, 0.15, True, True), (2, 0.05, False, True), (2, 0.30, True, False),
    (3, 0.10, True, True), (3, 0.02, True, False), (9, 0.10, True, True), (9, 0.20, True, True), (9, 0.01, False, False),
    (16, 0.10, True, True),
]


def u_counts(ctx, part, parts):
    from rubin_sim.maf import metrics as m

    nmax = ctx.pick(4, 5)
    ctx.bounds = {"kinds of observations": len(ALPHA), "length": nmax}

    def seen(rs):
        return [r for r in rs if r["vis"]]

    def count_nights(rs):
        c = {}
        for r in rs:
            c[r["night"]] = c.get(r["night"], 0) + 1
        return c

    def fast(rs):
        return [r for r in seen(rs) if r["velocity"] > 1.0]

    def hv_nights(rs, n):
        c = {k: v for k, v in count_nights(fast(rs)).items() if v >= n}
        if not c:
            return 0
        return min(r["observationStartMJD"] for r in fast(rs) if r["night"] == min(c))

    def magic(rs, n, w):
        s = seen(rs)
        if len(s) < n:
            return 0
        return sum(sum(u <= r["night"] < u + w for r in s) >= n for u in {r["night"] for r in s})

    def activity(rs, w, nw):
        s = seen(rs)
        return len({int(r["night"] // w) for r in s}) / nw

    def both(cls, **kw):
        return [cls(snr_limit=5.0, **kw), cls(snr_limit=None, **kw)]

    tests = [
        ("NObs", both(m.NObsMetric), lambda rs: len(seen(rs))),
        ("NObsNoSingles", both(m.NObsNoSinglesMetric), lambda rs: sum(v for v in count_nights(seen(rs)).values() if v > 1)),
        ("NNights", both(m.NNightsMetric), lambda rs: len(count_nights(seen(rs)))),
        (
            "ObsArc", both(m.ObsArcMetric),
            lambda rs: max(r["observationStartMJD"] for r in seen(rs)) - min(r["observationStartMJD"] for r in seen(rs)) if seen(rs) else 0,
        ),
        ("HighVelocity", both(m.HighVelocityMetric, psf_factor=2.0), lambda rs: len(fast(rs))),
        ("HighVelocityNights", both(m.HighVelocityNightsMetric, psf_factor=2.0, n_obs_per_night=2), lambda rs: hv_nights(rs, 2)),
        ("HighVelocityNights1", both(m.HighVelocityNightsMetric, psf_factor=2.0, n_obs_per_night=1), lambda rs: hv_nights(rs, 1)),
        ("Magic", both(m.MagicDiscoveryMetric, n_obs=2, t_window=6.5), lambda rs: magic(rs, 2, 6.5)),
        ("Magic3", both(m.MagicDiscoveryMetric, n_obs=3, t_window=1.5), lambda rs: magic(rs, 3, 1.5)),
        ("ActivityOverTime", both(m.ActivityOverTimeMetric, window=5, survey_years=20 / 365.0), lambda rs: activity(rs, 5, 4)),
        ("ActivityOverTime1", both(m.ActivityOverTimeMetric, window=2, survey_years=18 / 365.0), lambda rs: activity(rs, 2, 9)),
        ("PeakVMag", [m.PeakVMagMetric()], lambda rs: min(r["appMagV"] for r in rs)),
    ]
    i = -1
    for n in range(1, nmax + 1):
        for seq in itertools.product(range(len(ALPHA)), repeat=n):
            i += 1
            if i % parts != part:
                continue
            rows = []
            for j, k in enumerate(seq):
                ni, off, s, f = ALPHA[k]
                rows.append(row(ni, off, s, velocity=1.7 if f else 0.6, seeingFwhmGeom=0.7, visitExposureTime=30.0, appMagV=20.0 + ((7 * j + k) % 5)))
            d = table(rows)
            for name, ms, want in tests:
                if not ctx.case(name, seq):
                    continue
                w = want(rows)
                for x in ms:
                    ok, v = ctx.must(x.run, d, None, 20.0, what=name)
                    if ok:
                        ctx.outcome(w, trivial=not w)
                        ctx.equal(float(v), float(w), name, atol=1e-9)


def u_anomaly(ctx):
    """Fraction of the orbit covered, from the mean anomaly."""
    from rubin_sim.maf import metrics as m

    a, epoch = 2.0, T0
    period = a ** 1.5 * 365.25
    degs = (5.0, 47.0, 133.0, 181.0, 268.0, 355.0)
    ctx.bounds = {"anomalies": degs, "subsets": 2 ** len(degs) - 1, "bin sizes": (10, 45, 90, 100, 360)}
    for bits in range(1, 2 ** len(degs)):
        for turn in (0, 1, -1):
            for m0 in (0.0, 200.0):
                for size in (10, 45, 90, 100, 360):
                    for key in ("a", "q"):
                        if not ctx.case("anomaly", bits, turn, m0, size, key):
                            continue
                        sel = [x for i, x in enumerate(degs) if bits >> i & 1]
                        rows = []
                        for x in degs:
                            r = row(0, 0.0, x in sel)
                            r["observationStartMJD"] = epoch + ((x - m0) / 360.0 + turn) * period
                            rows.append(r)
                        orb = {"e": 0.5, "meanAnomaly": m0, "epoch": epoch}
                        orb.update({"a": a} if key == "a" else {"q": a * 0.5})
                        nb = math.ceil(360.0 / size - 1e-9)
                        want = len({int(x // size) for x in sel}) / nb
                        ok, v = ctx.must(m.ActivityOverPeriodMetric(bin_size=size, snr_limit=5.0).run, table(rows), pd.Series(orb), 20.0)
                        if ok:
                            ctx.outcome(want)
                            ctx.equal(float(v), want, "fraction of the orbit with observations")


def u_tperi(ctx):
    """The same from the time of perihelion (known finding)."""
    from rubin_sim.maf import metrics as m

    if ctx.case("tperi", 90):
        rows = [row(0, 0.0), row(0, 0.0)]
        period = 8 ** 0.5 * 365.25
        rows[1]["observationStartMJD"] = T0 + 0.5 * period
        orb = pd.Series({"q": 1.0, "e": 0.5, "tPeri": T0})
        ok, v = ctx.must(m.ActivityOverPeriodMetric(bin_size=90, snr_limit=5.0).run, table(rows), orb, 20.0)
        if ok:
            ctx.outcome(float(v))
            ctx.expect(abs(v - 0.5) < 1e-9, f"from the time of perihelion, half an orbit apart: fraction {v} instead of 0.5")


# ------------------------------------------------------- bands
BANDS = "ugrizy"


def u_color(ctx, part, parts):
    from rubin_sim.maf import metrics as m

    ctx.bounds = {"detections per band": (0, 1, 2), "bands": BANDS}
    for i, counts in enumerate(itertools.product((0, 1, 2), repeat=6)):
        if i % parts != part:
            continue
        for faint in (False, True):
            if not ctx.case("color", counts, faint):
                continue
            # a band is measured with weight above 1.5: two bright detections, not a bright and a faint or unseen one
            rows = []
            for b, c in zip(BANDS, counts):
                rows += [row(1 + k, 0.1, True, band=b) for k in range(c)]
                if c == 1 and faint:
                    rows.append(row(5, 0.1, True, band=b))
                    rows[-1]["SNR"] = 6.0
                if faint:
                    rows += [row(6 + k, 0.1, False, band=b) for k in range(2)]
            for r in rows:
                if r["SNR"] == 5.1:
                    r["SNR"] = 40.0
            if not rows:
                continue
            rows = rows[1::2] + rows[::2]
            d = table(rows)
            have = {b for b, c in zip(BANDS, counts) if c == 2}
            n5 = len(have & set("grizy"))
            if have == set(BANDS):
                flag = 4
            elif n5 == 5:
                flag = 3
            elif n5 == 4:
                flag = 2
            elif "g" in have and have & set("ri") and have & set("zy"):
                flag = 1
            else:
                flag = 0
            for lim in (5.0, None):
                ok, v = ctx.must(m.ColorAsteroidMetric(weight_det=1.5, snr_max=20, snr_limit=lim).run, d, None, 20.0)
                if ok:
                    ctx.outcome(("color", flag), trivial=not flag)
                    ctx.equal(v, flag, "flag of the colors")


def u_outer(ctx, part, parts):
    from rubin_sim.maf import metrics as m

    ctx.bounds = {"detections per band": "0..4 in each of 4 bands"}
    for i, counts in enumerate(itertools.product(range(5), repeat=4)):
        if i % parts != part:
            continue
        for fl in ("ugrizy", "gr", "iz"):
            for unseen in (0, 3):
                if not ctx.case("outer", counts, fl, unseen):
                    continue
                rows = []
                for b, c in zip("griz", counts):
                    rows += [row(1 + k, 0.1, True, band=b) for k in range(c)] + [row(10 + k, 0.1, False, band=b) for k in range(unseen)]
                if not rows:
                    continue
                rows = rows[::3] + rows[1::3] + rows[2::3]
                n = {b: c for b, c in zip("griz", counts) if b in fl}
                full = sum(c >= 4 for c in n.values())
                part_ = sum(2 <= c < 4 for c in n.values())
                want = 0 if not full else full + (part_ > 0)
                for lim in (5.0, None):
                    x = m.LightcurveColorOuterMetric(snr_limit=lim, num_req=4, num_sec_filt=2, filterlist=tuple(fl))
                    ok, v = ctx.must(x.run, table(rows), None, 20.0)
                    if ok:
                        ctx.outcome(("outer", want), trivial=not want)
                        ctx.equal(int(v), want, "flag of light curves and colors")


def u_instant(ctx, part, parts):
    """Colors from close pairs."""
    from rubin_sim.maf import metrics as m

    alpha = [(b, t) for b in "gr" for t in (0.0, 0.3, 0.7, 3.0, 8.0)] + [("i", 0.2), ("g-", 0.1), ("r-", 2.9)]
    n = ctx.pick(4, 5)
    ctx.bounds = {"observations": len(alpha), "length": n, "time limit (h)": 0.5}
    i = -1
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(alpha)), repeat=k):
            i += 1
            if i % parts != part:
                continue
            rows = []
            for s in seq:
                b, t = alpha[s]
                r = row(1, t / 24.0, len(b) == 1, band=b[0])
                r["SNR"] *= 2
                rows.append(r)
            d = table(rows)
            for one, two in (("g", "r"), ("r", "g")):
                for npairs in (1, 2):
                    if not ctx.case("instant", seq, one, npairs):
                        continue
                    t1 = [alpha[s][1] for s in seq if alpha[s][0] == one]
                    t2 = [alpha[s][1] for s in seq if alpha[s][0] == two]
                    p12 = sum(any(abs(a - b) < 0.5 for a in t1) for b in t2)
                    p21 = sum(any(abs(a - b) < 0.5 for a in t2) for b in t1)
                    if (p12 >= npairs) != (p21 >= npairs):
                        continue  # which of the bands the pairs are counted in matters
                    ok, v = ctx.must(m.InstantaneousColorMetric(n_pairs=npairs, b_one=one, b_two=two).run, d, None, 20.0)
                    if ok:
                        ctx.outcome(("pairs", min(p12, 3)), trivial=p12 < npairs)
                        ctx.equal(int(v), int(p12 >= npairs), "color possible")


def u_inversion(ctx):
    from rubin_sim.maf import metrics as m

    lons = (0.0, 30.0, 70.0, 120.0, 200.0, 350.0)
    ctx.bounds = {"longitudes": lons, "length": 4}
    for n in range(2, 5):
        for seq in itertools.product(range(len(lons)), repeat=n):
            for dp in (3.0, 8.0):
                for bands in ("r", "gr"):
                    for need in (1.5, 2.5, 3.5):
                        if not ctx.case("inversion", seq, dp, bands, need):
                            continue
                        rows = []
                        for j, k in enumerate(seq):
                            r = row(j, 0.1, True, band=bands[j % len(bands)], ecLon=lons[k], phase=10.0 + dp * (j == n - 1))
                            r["SNR"] = 200.0
                            rows.append(r)
                        rows.append(row(50, 0.1, False, band="r", ecLon=100.0, phase=40.0))
                        want = 0
                        sure = True
                        for b in set(bands):
                            idx = [j for j in range(n) if rows[j]["band"] == b]
                            if len(idx) < need:
                                continue
                            L = np.array([rows[j]["ecLon"] for j in idx])
                            P = [rows[j]["phase"] for j in idx]
                            dl = L.max() - L.min()
                            dev = []
                            for c in ((L - np.median(L)) % 360.0, (L - np.median(L) + 180.0) % 360.0 - 180.0, L):
                                dev.append(np.mean(np.abs(c - c.mean())) >= dl / 8)
                            wrap = np.sort(L)
                            arc = 360.0 - max(np.diff(np.append(wrap, wrap[0] + 360.0)))
                            if len({(dl >= 90 and x) for x in dev} | {arc >= 90 and x for x in dev}) > 1:
                                sure = False
                            want = want or int(dl >= 90 and dev[0] and max(P) - min(P) >= 5)
                        if not sure:
                            continue
                        for lim in (5.0, None):
                            x = m.LightcurveInversionAsteroidMetric(weight_det=need, snr_limit=lim, snr_max=100)
                            ok, v = ctx.must(x.run, table(rows), None, 20.0)
                            if ok:
                                ctx.outcome(("inversion", want), trivial=not want)
                                ctx.equal(int(v), want, "light curve inversion possible")


def u_known(ctx, part, parts):
    from rubin_sim.maf import metrics as m

    # times in four periods, brightness, elongation
    alpha = [(t, mag, el) for t in (5.0, 15.0, 25.0, 35.0) for mag, el in ((19.5, 120.0), (20.5, 120.0), (21.5, 120.0), (19.0, 80.0))]
    n = ctx.pick(3, 4)
    effs = list(itertools.product((0, 1), repeat=4))
    ctx.bounds = {"kinds of observations": len(alpha), "length": n, "efficiencies": "0 or 1 in each period"}
    i = -1
    for k in range(1, n + 1):
        for seq in itertools.product(range(len(alpha)), repeat=k):
            i += 1
            if i % parts != part:
                continue
            rows = []
            for j, s in enumerate(seq):
                t, mag, el = alpha[s]
                r = row(1, 0.1, True, appMagV=mag, Elongation=el)
                r["MJD(UTC)"] = t + 0.1 * ((5 * j + 2) % 4)
                rows.append(r)
            d = table(rows)
            for eff in effs if (i // parts) % ctx.pick(4, 1) == 0 else effs[-1:]:
                if not ctx.case("known", seq, eff):
                    continue
                lims = (20.0, 21.0, 22.0, 19.8)
                want = None
                for p in range(4):
                    hit = [r["MJD(UTC)"] for r in rows if int(r["MJD(UTC)"] // 10) == p and r["Elongation"] >= 100 and r["appMagV"] <= lims[p]]
                    if hit and eff[p]:
                        want = min(hit)
                        break
                x = m.KnownObjectsMetric(
                    elong_thresh=100.0, v_mag_thresh1=lims[0], eff1=eff[0], t_switch1=10, v_mag_thresh2=lims[1], eff2=eff[1], t_switch2=20,
                    v_mag_thresh3=lims[2], eff3=eff[2], t_switch3=30, v_mag_thresh4=lims[3], eff4=eff[3],
                )
                ok, v = ctx.must(x.run, d, None, 20.0)
                if ok:
                    ctx.outcome(want is not None, trivial=want is None)
                    ctx.equal(float(v), float(x.badval if want is None else want), "time of the first detection by other surveys", atol=1e-9)


# ---------------------------------------------------------- summaries
def u_dndh(ctx):
    from rubin_sim.maf.metrics import mo_summary_metrics as s

    funcs = {
        "granvik": (s.neo_dndh_granvik, lambda h: 150 * 10 ** (0.3 * (h - 18.5)) + 2500 * 10 ** (0.92 * (h - 23.2))),
        "grav": (s.neo_dndh_grav, lambda h: 110 * 10 ** (0.35 * (h - 18.5))),
        "pgranvik": (s.pha_dndh_granvik, lambda h: 20 * 10 ** (0.3 * (h - 18.5)) + 500 * 10 ** (0.92 * (h - 23.2))),
        "pgrav": (s.pha_dndh_grav, lambda h: 23.5 * 10 ** (0.35 * (h - 18.5))),
    }
    ctx.bounds = {"H grids": "start 16, 20.5; step 0.1, 0.5, 1; 2 to 4 values", "metric values": (0, 0.25, 1)}
    for h0 in (16.0, 20.5):
        for step in (0.1, 0.5, 1.0):
            for n in (2, 3, 4):
                H = [h0 + step * i for i in range(n)]
                Ha = np.array(H)
                dens = {}
                for name, (f, per) in funcs.items():
                    dens[name] = (f, [per(h) * step / 0.1 for h in H], {})
                for kw, ho, no in (({}, H[0], 10), ({"hindex": 0.5}, H[0], 10), ({"no": 50, "ho": 18.0}, 18.0, 50), ({"no": 5, "ho": 17.0, "hindex": 0.2}, 17.0, 5)):
                    dens[f"power{sorted(kw.items())}"] = (
                        s.power_law_dndh, [no * 0.1 * 10 ** (kw.get("hindex", 0.33) * (h - ho)) * step / 0.1 for h in H], kw,
                    )
                for name, (f, dn, kw) in dens.items():
                    if ctx.case("dndh", h0, step, n, name):
                        ok, v = ctx.must(f, Ha.copy(), what=name, **kw)
                        if ok:
                            ctx.outcome(name)
                            ctx.equal(np.asarray(v, float), np.array(dn), "number of objects per H")
                    for vals in itertools.product((0.0, 0.25, 1.0), repeat=n):
                        if not ctx.case("sum", h0, step, n, name, vals):
                            continue
                        num = [sum(v * x for v, x in zip(vals[: i + 1], dn)) for i in range(n)]
                        den = [sum(dn[: i + 1]) for i in range(n)]
                        ok, v = ctx.must(s.sum_over_h, np.array(vals), Ha.copy(), f, **kw)
                        if ok:
                            ctx.equal(np.asarray(v, float), np.array(num), "sum over H")
                        ok, v = ctx.must(s.integrate_over_h, np.array(vals), Ha.copy(), f, **kw)
                        if ok:
                            ctx.equal(np.asarray(v, float), np.array([a / b for a, b in zip(num, den)]), "integral over H")
                        if not kw:
                            for mark in (H[0], H[-1], H[0] + 0.37 * step, H[-2] + 0.9 * step):
                                ok, v = ctx.must(s.TotalNumberSSO(h_mark=mark, dndh_func=f).run, np.array([vals]), Ha.copy())
                                if ok:
                                    ctx.outcome(("total", bool(num[-1])), trivial=not num[-1])
                                    ctx.equal(float(v), lin(mark, H, num), "total number of objects", rtol=1e-7)


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def u_complete(ctx):
    from rubin_sim.maf.metrics import mo_summary_metrics as s

    H = [18.0, 19.0, 20.0]
    ctx.bounds = {"objects": 3, "H values": 3, "metric values": "masked, 0, 1, 2"}
    NA = None
    rows = list(itertools.product((NA, 0, 1, 2), repeat=3))
    for i, j in itertools.combinations_with_replacement(range(len(rows)), 2):
        vals = [rows[i], rows[j], (2, NA, 1)]
        arr = ma.MaskedArray([[0 if x is None else x for x in r] for r in vals], mask=[[x is None for x in r] for r in vals], dtype=float, fill_value=0)
        arr.data[arr.mask] = 7.0  # what is under the mask must not count
        for thr in (1, 2):
            for cum in (True, False, None, "name"):
                for hi in (0.33, 0.6):
                    if not ctx.case("complete", i, j, thr, cum, hi):
                        continue
                    frac = [sum(v[k] is not None and v[k] >= thr for v in vals) / 3 for k in range(3)]
                    kw = {"metric_name": "DifferentialX"} if cum == "name" else {"cumulative": cum}
                    c = cum in (True, None)
                    dn = [10 ** (hi * (h - H[0])) for h in H]
                    want = [sum(f * x for f, x in zip(frac[: k + 1], dn)) / sum(dn[: k + 1]) for k in range(3)] if c else frac
                    ok, v = ctx.must(s.MoCompletenessMetric(threshold=thr, hindex=hi, **kw).run, arr.copy(), np.array(H))
                    if not ok:
                        continue
                    ctx.outcome((thr, tuple(frac)), trivial=not any(frac))
                    ctx.equal(np.asarray(v["value"], float), np.array(want), "completeness")
                    ctx.equal([str(x) for x in v["name"]], [("H <= %f" if c else "H = %f") % h for h in H], "names")
                    if cum in (True, False) and hi == 0.33:
                        # at a given H
                        comp = ma.MaskedArray(np.array([want]), mask=False)
                        for mark in (18.0, 18.25, 19.5, 20.0, 17.5, 20.5):
                            for cls in (s.ValueAtHMetric, s.MeanValueAtHMetric):
                                with warnings.catch_warnings():
                                    warnings.simplefilter("ignore")
                                    ok, v = ctx.must(cls(h_mark=mark).run, comp, np.array(H))
                                if ok:
                                    w = None if not 18 <= mark <= 20 else lin(mark, H, want)
                                    ctx.equal(None if v is None else float(v), w, "value at H")
        if ctx.case("meanvalue", i, j):
            means = [np.mean([v[k] for v in vals if v[k] is not None]) for k in (0, 2) if all(1 for v in vals)]
            mm = [[v[k] for v in vals if v[k] is not None] for k in range(3)]
            if all(mm):
                for mark in (18.0, 18.5, 19.75):
                    ok, v = ctx.must(s.MeanValueAtHMetric(h_mark=mark).run, arr.copy(), np.array(H))
                    if ok:
                        ctx.outcome(means[0])
                        ctx.equal(float(v), lin(mark, H, [sum(x) / len(x) for x in mm]), "mean value at H")


def u_complete_each(ctx):
    """Objects with one H value each."""
    from rubin_sim.maf.metrics import mo_summary_metrics as s

    hs = {"wide": (18.0, 18.3, 19.7, 21.1, 22.0), "narrow": (18.0, 18.1, 18.7, 18.8), "same": (19.0, 19.0, 19.0), "rev": (22.0, 20.3, 18.0)}
    ctx.bounds = {"H of the objects": hs, "metric values": "masked, 0, 1, 2", "bins": (4, 7)}
    for name, h in hs.items():
        for vals in itertools.product((None, 0, 1, 2), repeat=len(h)):
            for nb in (4, 7):
                for thr in (1, 2):
                    for cum in (True, False):
                        if not ctx.case("each", name, vals, nb, thr, cum):
                            continue
                        arr = ma.MaskedArray([[9.0 if x is None else x] for x in vals], mask=[[x is None] for x in vals], dtype=float, fill_value=0)
                        lo, hi = min(h), max(h)
                        if hi - lo < 1.0:
                            lo, hi = (lo + hi) / 2 - 0.5, (lo + hi) / 2 + 0.5
                        step = (hi - lo) / nb
                        tot, got = [0] * nb, [0] * nb
                        for x, v in zip(h, vals):
                            b = min(int((x - lo) / step), nb - 1)
                            tot[b] += 1
                            got[b] += v is not None and v >= thr
                        frac = [g / t if t else 0.0 for g, t in zip(got, tot)]
                        edges = [lo + step * k for k in range(nb)]
                        dn = [10 ** (0.33 * (x - lo)) for x in edges]
                        want = [sum(f * x for f, x in zip(frac[: k + 1], dn)) / sum(dn[: k + 1]) for k in range(nb)] if cum else frac
                        ok, v = ctx.must(s.MoCompletenessMetric(threshold=thr, nbins=nb, cumulative=cum).run, arr, np.array(h))
                        if ok:
                            ctx.outcome(tuple(frac), trivial=not any(frac))
                            ctx.equal(np.asarray(v["value"], float), np.array(want), "completeness per H")
                            names = [float(str(x).split("=")[1]) for x in v["name"]]
                            ctx.equal(np.array(names), np.array(edges), "H of the bins", atol=2e-6)


def u_attime(ctx):
    from rubin_sim.maf.metrics import mo_summary_metrics as s

    H = [18.0, 19.0, 20.0]
    times = [10.0, 20.0, 30.0, 40.0]
    ctx.bounds = {"objects": 3, "H values": 3, "discovery times": "never, or in one of three intervals, or later"}
    rows = list(itertools.product((None, 12.0, 25.0, 31.0, 50.0), repeat=3))
    for i in range(len(rows)):
        vals = [rows[i], rows[(3 * i + 7) % len(rows)], (15.0, None, 39.0)]
        arr = ma.MaskedArray([[x or 11.0 for x in r] for r in vals], mask=[[x is None for x in r] for r in vals], dtype=float)
        for hv in (None, 18.0, 18.9, 20.0, 25.0):
            for cum in (True, False, None):
                for hi in (0.33, 0.6):
                    if not ctx.case("attime", i, hv, cum, hi):
                        continue
                    k = 1 if hv is None else min(range(3), key=lambda q: abs(H[q] - hv))
                    dn = [10 ** (hi * (h - H[0])) for h in H]
                    want = []
                    for t in times:
                        f = [sum(v[q] is not None and v[q] < t for v in vals) / 3 for q in range(3)]
                        want.append(f[k] if cum is False else sum(a * b for a, b in zip(f[: k + 1], dn)) / sum(dn[: k + 1]))
                    ok, x = ctx.must(s.MoCompletenessAtTimeMetric, times=list(times), hval=hv, cumulative=cum, hindex=hi, what="creating the metric")
                    if not ok:
                        continue
                    ok, v = ctx.must(x.run, arr.copy(), np.array(H))
                    if ok:
                        ctx.outcome(tuple(want), trivial=not any(want))
                        ctx.equal(np.asarray(v["value"], float), np.array(want), "completeness at the times")
                        ctx.equal([float(str(n).split("@")[1]) for n in v["name"]], times, "times in the names")
                        op = "H = " if cum is False else "H <="
                        ctx.expect(all(str(n).startswith(op + "%.1f" % H[k]) for n in v["name"]), "H in the names", names=list(map(str, v["name"])))


# -------------------------------------------------- slicer and groups
def orbit_file(ctx, ids, mags):
    p = os.path.join(ctx.scratch, "orbits.txt")
    with open(p, "w") as f:
        f.write("obj_id a e inc node argPeri meanAnomaly epoch H g\n")
        for i, (o, h) in enumerate(zip(ids, mags)):
            f.write(f"{o} {2.0 + i} 0.1 5.0 10.0 20.0 {30.0 + i} 60000.0 {h} 0.15\n")
    return p


def obs_file(ctx, d):
    p = os.path.join(ctx.scratch, "obs.npz")
    np.savez(p, object_observations=d)
    return p


def obs_table(ids, nights, mags, bands=None):
    n = len(ids)
    typ = "<U8" if isinstance(ids[0], str) else int
    d = np.zeros(n, dtype=[("obj_id", typ)] + [(c, float) for c in (
        "observationStartMJD", "night", "fiveSigmaDepth", "magV", "dmag_color", "dmag_detect", "dmag_trail", "dradt", "ddecdt",
        "seeingFwhmGeom", "visitExposureTime", "ra", "dec", "geo_dist", "ec_lon", "ec_lat", "solar_elong")] + [("band", "<U1")])
    d["obj_id"] = ids
    d["night"] = nights
    for j, c in enumerate(d.dtype.names[2:-1]):
        d[c] = 0.5 + j + 0.01 * np.arange(n)
    d["night"] = nights
    d["observationStartMJD"] = T0 + np.array(nights) + 0.02 * (np.arange(n) % 3)
    d["magV"] = mags
    d["fiveSigmaDepth"] = 24.0
    d["dmag_color"] = 0.2
    d["dmag_detect"] = 0.1
    d["dmag_trail"] = 1.1
    d["dradt"] = 3.0 + np.arange(n)
    d["ddecdt"] = 4.0
    d["seeingFwhmGeom"] = 0.7
    d["visitExposureTime"] = 30.0
    d["band"] = [(bands or "r")[i % len(bands or "r")] for i in range(n)]
    return d


def u_slicer(ctx, kind):
    from rubin_sim.maf.slicers import MoObjSlicer

    ids = {"int": [3, 11, 7], "str": ["S1", "S11", "a b"], "digits": ["5", "50", "05"]}[kind]
    if kind == "str":
        ids = ["S1", "S11", "x"]
    other = 1 if kind == "int" else "S"
    mags = (20.0, 21.5, 18.0)
    n = ctx.pick(4, 5)
    ctx.bounds = {"objects": 3, "observations": n, "constraints": 4}
    cons = [None, "night < 2.5", "band == 'g'", "night > 99"]
    for hr in (None, np.array([15.0, 17.0])):
        sl = MoObjSlicer(h_range=hr, verbose=False)
        of = orbit_file(ctx, ids, mags)
        ok, _ = ctx.must(sl.setup_slicer, of, what="setup_slicer")
        if not ok:
            return
        orb_ids = list(sl.orbits["obj_id"])
        ctx.expect(len(orb_ids) == 3, "objects of the slicer", got=orb_ids)
        ctx.equal(list(sl.shape), [3, 1 if hr is None else 2], "shape of the metric values")
        ctx.equal(np.asarray(sl.slice_points["H"], float), np.array(mags if hr is None else hr), "H of the slice points")
        for k in range(1, n + 1):
            for seq in itertools.product(range(4), repeat=k):
                d = obs_table([(ids + [other])[s] for s in seq], [1 + i for i in range(k)], 20.0 + np.arange(k), "gr")
                if hr is not None and k > 3:
                    continue
                if not ctx.case("slice", kind, hr is None, seq):
                    continue
                ok, _ = ctx.must(sl.read_obs, obs_file(ctx, d), what="read_obs")
                if not ok:
                    return
                for ci, con in enumerate([cons[1], cons[0], cons[2], cons[3], cons[0]] if k < 4 else [cons[1], cons[0]]):
                    keep = [i for i in range(k) if con is None or (con == cons[1] and i + 1 < 2.5) or (con == cons[2] and i % 2 == 0)]
                    sl.subset_obs(con)
                    ok, pts = ctx.must(lambda: list(sl), what="iterating")
                    if not ok:
                        return
                    if ci == 0:
                        pts = [sl[i] for i in range(3)]
                    ctx.expect(len(pts) == 3, "one slice per object", got=len(pts))
                    for o, p in enumerate(pts):
                        rows = [i for i in keep if seq[i] == o]
                        ctx.outcome((o, tuple(rows)), trivial=not rows)
                        ctx.equal([float(x) for x in p["obs"]["magV"]], [20.0 + i for i in rows], "observations of the object")
                        ctx.equal([float(x) for x in p["obs"]["velocity"]], [math.hypot(3.0 + i, 4.0) for i in rows], "velocity")
                        ctx.equal(float(p["orbit"]["H"]), mags[o], "orbit of the object")
                        ctx.equal(np.asarray(p["Hvals"], float), np.array([mags[o]] if hr is None else hr), "H values")


def u_group(ctx, part, parts):
    """Each bundle of a group gets the values it gets alone."""
    from rubin_sim.maf import metric_bundles as mb
    from rubin_sim.maf import metrics as m
    from rubin_sim.maf import stackers as st
    from rubin_sim.maf.slicers import MoObjSlicer

    mags = (20.0, 21.0, 22.0)
    ids = [0, 1, 2]
    oid, nights, mv = [], [], []
    for i in range(24):
        oid.append((0, 1, 0)[i % 3])
        nights.append((1, 1, 1, 3, 3, 3, 6, 6)[i % 8] + 10 * (i // 16))
        mv.append(22.2 + 0.1 * (i % 9))
    d = obs_table(oid, nights, np.array(mv), "gr")
    d["dradt"] = 0.9 + 0.2 * (np.arange(24) % 5)
    d["ddecdt"] = 0.0
    of, bf = orbit_file(ctx, ids, mags), obs_file(ctx, d)
    H = np.array([19.0, 20.5, 21.5, 30.0])

    def slicer():
        s = MoObjSlicer(h_range=H, verbose=False)
        s.setup_slicer(of, obs_file=bf)
        return s

    def summ():
        return [m.MoCompletenessMetric(threshold=3), m.MeanValueAtHMetric(h_mark=20.0)]

    def disc(s):
        b = mb.MoMetricBundle(m.DiscoveryMetric(n_nights_per_window=2, snr_limit=5.0), s, None)
        b.child_bundles["N_Chances"].set_summary_metrics(summ())
        return b

    menu = {
        "nobs": lambda s: mb.MoMetricBundle(m.NObsMetric(snr_limit=5.0), s, None, summary_metrics=summ()),
        "nobs-trail": lambda s: mb.MoMetricBundle(m.NObsMetric(snr_limit=5.0), s, None, stacker_list=[st.MoMagStacker(loss_col="dmag_trail")], summary_metrics=summ()),
        "nobs-early": lambda s: mb.MoMetricBundle(m.NObsMetric(snr_limit=5.0), s, "night < 5"),
        "nobs-g-trail": lambda s: mb.MoMetricBundle(m.NObsMetric(snr_limit=5.0), s, "band == 'g'", stacker_list=[st.MoMagStacker(loss_col="dmag_trail")]),
        "disc": disc,
        "disc-trail": lambda s: mb.MoMetricBundle(m.DiscoveryMetric(n_nights_per_window=2, snr_limit=5.0), s, None, stacker_list=[st.MoMagStacker(loss_col="dmag_trail")]),
        "fast": lambda s: mb.MoMetricBundle(m.HighVelocityNightsMetric(n_obs_per_night=1, snr_limit=5.0), s, "night < 5", stacker_list=[st.MoMagStacker(), st.EclStacker()]),
        "arc": lambda s: mb.MoMetricBundle(m.ObsArcMetric(snr_limit=5.0), s, None, stacker_list=[st.MoMagStacker(gamma=0.039)]),
    }

    def result(b):
        def vals(x):
            v = x.metric_values
            return [None if v.mask[i][j] else jsonish(v.data[i][j]) for i in range(v.shape[0]) for j in range(v.shape[1])]

        def jsonish(x):
            if isinstance(x, dict):
                return x["n_chances"]
            if isinstance(x, tuple):
                return [float(q) for q in x]
            return float(x)

        out = {"": vals(b)}
        for k, c in b.child_bundles.items():
            out[k] = vals(c)
        for x in [b] + list(b.child_bundles.values()):
            for k, v in (x.summary_values or {}).items():
                out[f"{x.metric.name}/{k}"] = v if not hasattr(v, "dtype") or v.dtype.names is None else [float(q) for q in v["value"]]
        return out

    def run(names):
        s = slicer()
        bs = {n: menu[n](s) for n in names}
        out = os.path.join(ctx.scratch, "out")
        g = mb.MoMetricBundleGroup(bs, out_dir=out, results_db=None, verbose=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g.run_all()
        return {n: result(b) for n, b in bs.items()}

    alone = {}
    for n in menu:
        ok, r = ctx.must(run, [n], what=f"running {n}")
        if ok:
            alone[n] = r[n]
    # direct oracle of the counts
    if ctx.case("direct") and part == 0:
        for n, loss, keep in (
            ("nobs", 0.1, lambda r: True), ("nobs-trail", 1.1, lambda r: True), ("nobs-early", 0.1, lambda r: r["night"] < 5),
            ("nobs-g-trail", 1.1, lambda r: r["band"] == "g"),
        ):
            want = []
            for o in ids:
                for h in H:
                    rows = [r for r in d if r["obj_id"] == o and keep(r)]
                    # five sigma: apparent magnitude brighter than the depth
                    c = sum(r["magV"] + 0.2 + loss + (h - mags[o]) <= 24.0 + 1e-9 for r in rows)
                    want.append(None if c == 0 else c)
            ctx.transitions += 1
            ctx.outcome(n)
            ctx.equal(alone[n][""], want, f"number of observations above the limit ({n})")
    size = ctx.pick(3, 4)
    ctx.bounds = {"bundles": len(menu), "group size": size}
    i = -1
    for k in range(2, size + 1):
        for names in itertools.permutations(sorted(menu), k):
            i += 1
            if i % parts != part:
                continue
            if not ctx.case("group", names):
                continue
            ctx.state(tuple(names))
            ok, r = ctx.must(run, list(names), what="run_all")
            if ok:
                for n in names:
                    ctx.outcome(n)
                    ctx.equal(r[n], alone[n], f"values of bundle {n} in the group and alone")


def u_misc(ctx):
    """Names of summaries, and a failed plot does not stop the others."""
    from rubin_sim.maf import metric_bundles as mb
    from rubin_sim.maf import metrics as m
    from rubin_sim.maf.slicers import MoObjSlicer

    for cls in (m.TotalNumberSSO, m.ValueAtHMetric, m.MeanValueAtHMetric):
        for name in (None, "my name"):
            if ctx.case("name", cls.__name__, name):
                kw = {} if name is None else {"metric_name": name}
                ok, x = ctx.must(cls, h_mark=20.0, what=cls.__name__, **kw)
                if ok:
                    ctx.outcome(name)
                    ctx.expect(x.name == name if name else "20.0" in x.name, "name of the summary", got=x.name)
    for bad in itertools.product((False, True), repeat=3):
        if not ctx.case("plots", bad):
            continue
        s = MoObjSlicer(verbose=False)
        s.setup_slicer(orbit_file(ctx, [0, 1], (20.0, 21.0)))
        done, bs = [], {}
        for i, b in enumerate(bad):
            x = mb.MoMetricBundle(m.NObsMetric(metric_name=f"n{i}"), s, None)

            def plot(*a, i=i, b=b, **k):
                if b:
                    raise ValueError("no data")
                done.append(i)

            x.plot = plot
            bs[i] = x
        g = mb.MoMetricBundleGroup(bs, out_dir=os.path.join(ctx.scratch, "out"), results_db=None, verbose=False)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ok, _ = ctx.must(g.plot_all, what="plot_all with bundles that cannot be plotted")
        if ok:
            ctx.outcome(bad)
            ctx.equal(done, [i for i, b in enumerate(bad) if not b], "bundles plotted")


UNITS = [
    Unit("misc", u_misc),
    *[Unit(f"discovery-{g}-{p}", u_discovery, grid=g, part=p, parts=4) for g in GRIDS for p in range(4)],
    *[Unit(f"counts-{p}", u_counts, part=p, parts=6) for p in range(6)],
    Unit("anomaly", u_anomaly),
    Unit("tperi", u_tperi),
    *[Unit(f"color-{p}", u_color, part=p, parts=2) for p in range(2)],
    *[Unit(f"outer-{p}", u_outer, part=p, parts=2) for p in range(2)],
    *[Unit(f"instant-{p}", u_instant, part=p, parts=4) for p in range(4)],
    Unit("inversion", u_inversion),
    *[Unit(f"known-{p}", u_known, part=p, parts=2) for p in range(2)],
    Unit("dndh", u_dndh),
    Unit("complete", u_complete),
    Unit("complete-each", u_complete_each),
    Unit("attime", u_attime),
    *[Unit(f"slicer-{k}", u_slicer, kind=k) for k in ("int", "str")],
    *[Unit(f"group-{p}", u_group, part=p, parts=4) for p in range(4)],
]
