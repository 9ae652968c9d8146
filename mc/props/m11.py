"""M11: stackers add, for every visit, the value their column stands for, and leave everything else as it was."""
import datetime
import itertools
import math
import warnings

import numpy as np

from mc.core import Unit, same

PROPERTY = "M11"
LEVEL = "exploration"
RULE = (
    "case = (stacker configuration, sequence of visits): every sequence up to the stated length over an alphabet of visits "
    "(repetitions included), and every history of up to 3 stacker runs over a menu; each added column compared row by row "
    "with an oracle that sees one visit at a time"
)
ASSUMPTIONS = [
    "angles are in range (RA 0..360, |Dec| <= 90) and visits are above the horizon",
    "positions on the sky computed by astropy are compared with low-precision formulas (0.01 degrees; parallax factors 0.02)",
    "the instrument zeropoints are passed in (the throughput files are not installed)",
]
SITE_LAT = -30.2446
DT = [
    ("observationStartMJD", float), ("band", "<U1"), ("filter", "<U1"), ("fieldRA", float), ("fieldDec", float), ("altitude", float),
    ("azimuth", float), ("observationStartLST", float), ("seeingFwhmEff", float), ("skyBrightness", float),
    ("visitExposureTime", float), ("visitTime", float), ("numExposures", int), ("airmass", float), ("fiveSigmaDepth", float),
    ("scheduler_note", "<U40"), ("moonAlt", float), ("sunAlt", float), ("solarElong", float), ("sunAz", float), ("night", int),
    ("p1", float), ("p2", float), ("p3", float), ("p4", float), ("p5", float), ("p6", float), ("p7", float), ("p8", float),
]
# one visit per line: mjd, band, ra, dec, alt, az, lst, seeing, sky, exptime, visittime, nexp, airmass, m5, note, moon, sun, elong
ROWS = [
    (61000.0, "r", 10.0, -30.0, 80.0, 10.0, 15.0, 0.8, 21.0, 30.0, 34.0, 1, 1.02, 24.3, "pair_33, ri, a", -10.0, -40.0, 130.0),
    (61000.4999, "g", 359.5, 5.0, 50.0, 300.0, 3.0, 1.2, 22.0, 30.0, 38.0, 2, 1.3, 24.8, "DD:COSMOS, u", 20.0, -30.0, 95.0),
    (61000.5, "r", 200.25, -65.5, 45.5, 180.0, 350.0, 1.7, 17.0, 30.0, 34.0, 1, 1.41, 23.1, "DD:EDFS_a, 2", -5.0, -25.0, 80.0),
    (61000.502, "u", 0.0, 89.0, 31.0, 0.5, 179.0, 0.6, 22.9, 38.0, 42.0, 1, 1.94, 23.6, "long", 30.0, -50.0, 150.0),
    (61365.75, "y", 120.0, -30.2446, 89.5, 95.0, 120.4, 0.9, 12.0, 30.0, 34.0, 2, 1.0001, 22.0, "", -1.0, -21.0, 60.5),
    (60999.25, "i", 266.4, -29.0, 60.0, 220.0, 86.4, 1.0, 20.4, 15.0, 19.0, 1, 1.15, 23.9, "greedy,,x", 45.0, 3.0, 100.0),
    (62191.99999, "z", 83.7, 22.0, 37.5, 359.0, 75.0, 1.1, 14.0, 30.0, 39.0, 1, 1.63, 22.9, "DDF", -30.0, -22.0, 120.0),
]


def table(ix):
    d = np.zeros(len(ix), dtype=DT)
    for k, i in enumerate(ix):
        (mjd, b, ra, dec, alt, az, lst, see, sky, ex, vt, ne, am, m5, note, moon, sun, el) = ROWS[i]
        for c, v in (
            ("observationStartMJD", mjd), ("band", b), ("filter", b), ("fieldRA", ra), ("fieldDec", dec), ("altitude", alt),
            ("azimuth", az), ("observationStartLST", lst), ("seeingFwhmEff", see), ("skyBrightness", sky),
            ("visitExposureTime", ex), ("visitTime", vt), ("numExposures", ne), ("airmass", am), ("fiveSigmaDepth", m5),
            ("scheduler_note", note), ("moonAlt", moon), ("sunAlt", sun), ("solarElong", el), ("sunAz", (az + 77) % 360),
            ("night", int(math.floor(mjd - 60999.5))),
        ):
            d[c][k] = v
        for j in range(8):
            d[f"p{j + 1}"][k] = (i * 47 + j * 51) % 360 if j % 2 == 0 else (i * 31 + j * 19) % 180 - 90
    return d


# ------------------------------------------------------------------ oracles: dict of one visit -> dict of columns
D2R = math.pi / 180


def sph(lon, lat):
    return (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))


def galactic(ra, dec):
    ag, dg, lc = 192.85948 * D2R, 27.12825 * D2R, 122.93192 * D2R
    sb = math.sin(dec) * math.sin(dg) + math.cos(dec) * math.cos(dg) * math.cos(ra - ag)
    y = math.cos(dec) * math.sin(ra - ag)
    x = math.sin(dec) * math.cos(dg) - math.cos(dec) * math.sin(dg) * math.cos(ra - ag)
    return (lc - math.atan2(y, x)) % (2 * math.pi), math.asin(sb)


EPS = 23.4392911 * D2R


def ecliptic(ra, dec):
    x, y, z = sph(ra, dec)
    ye, ze = math.cos(EPS) * y + math.sin(EPS) * z, -math.sin(EPS) * y + math.cos(EPS) * z
    return math.asin(ze), math.atan2(ye, x) % (2 * math.pi)


def sun(mjd):
    """Ecliptic longitude of the sun of date (rad) and its distance, low precision."""
    n = mjd + 2400000.5 - 2451545.0
    L, g = (280.460 + 0.9856474 * n) * D2R, (357.528 + 0.9856003 * n) * D2R
    lam = L + (1.915 * math.sin(g) + 0.020 * math.sin(2 * g)) * D2R
    return lam, 1.00014 - 0.01671 * math.cos(g) - 0.00014 * math.cos(2 * g)


def wrap(x):
    return (x + math.pi) % (2 * math.pi) - math.pi


def o_gal(r):
    l, b = galactic(r["fieldRA"] * D2R, r["fieldDec"] * D2R)
    return {"gall": l, "galb": b}


def o_ecl(r, subtract=False, deg=True):
    lat, lon = ecliptic(r["fieldRA"] * D2R, r["fieldDec"] * D2R)
    if subtract:
        lam, _ = sun(r["observationStartMJD"])
        lam -= (r["observationStartMJD"] - 51544.5) / 36525 * 1.3970 * D2R  # precession to J2000
        lon = (lon - lam) % (2 * math.pi)
    k = 1 / D2R if deg else 1.0
    return {"eclipLat": lat * k, "eclipLon": lon * k}


def o_par(r):
    lam, R = sun(r["observationStartMJD"])
    X, Y, Z = -R * math.cos(lam), -R * math.sin(lam) * math.cos(EPS), -R * math.sin(lam) * math.sin(EPS)
    a, d = r["fieldRA"] * D2R, r["fieldDec"] * D2R
    return {
        "ra_pi_amp": X * math.sin(a) - Y * math.cos(a),
        "dec_pi_amp": X * math.cos(a) * math.sin(d) + Y * math.sin(a) * math.sin(d) - Z * math.cos(d),
    }


def ha_of(r):
    return wrap((r["observationStartLST"] - r["fieldRA"]) * D2R) * 12 / math.pi


def pa_of(r):
    h, d = ha_of(r) * math.pi / 12, r["fieldDec"] * D2R
    return math.atan2(math.sin(h), math.cos(d) * math.tan(SITE_LAT * D2R) - math.sin(d) * math.cos(h)) / D2R


DCR = {"u": 0.07, "g": 0.07, "r": 0.05, "i": 0.045, "z": 0.042, "y": 0.04}
DCR2 = {"u": 0.02404978, "g": 0.03084951, "r": 0.00578543, "i": 0.0015424, "z": 0.00043015, "y": 0.00026005}


def o_dcr(r, mags=DCR, zd=None, pa=None, deg=True):
    zd = 90 - r["altitude"] if zd is None else zd
    pa = pa_of(r) if pa is None else pa
    t = math.tan(zd * D2R) * mags[r["band"]]
    out = {"ra_dcr_amp": t * math.sin(pa * D2R), "dec_dcr_amp": t * math.cos(pa * D2R)}
    return out


def o_dcr2(r, mags=DCR2):
    t = math.tan((90 - r["altitude"]) * D2R) ** 2 * mags[r["band"]]
    s, c = math.sin(pa_of(r) * D2R), math.cos(pa_of(r) * D2R)
    return {"dcr_var": t, "ra_dcr_var": t * s * s, "dec_dcr_var": t * c * c, "ra_dec_dcr_cov": t * s * c}


ZP = {"u": 26.5, "g": 28.4, "r": 28.2, "i": 27.9, "z": 27.5, "y": 26.7}
KM = {"u": 0.5, "g": 0.21, "r": 0.13, "i": 0.1, "z": 0.07, "y": 0.17}


def o_sat(r, sat=150e3, pix=0.2, zp=ZP, km=KM):
    t = r["visitExposureTime"] / r["numExposures"]
    left = sat - 10 ** (0.4 * (zp[r["band"]] - r["skyBrightness"])) * pix**2 * t
    if left < 0:
        return {"saturation_mag": math.nan}
    tot = left * 2 * math.pi * (r["seeingFwhmEff"] / 2.354 / pix) ** 2 / t
    return {"saturation_mag": -2.5 * math.log10(tot) + zp[r["band"]] - km[r["band"]] * (r["airmass"] - 1)}


TEFF = {"u": 23.70, "g": 24.97, "r": 24.52, "i": 24.13, "z": 23.56, "y": 22.55}


def o_teff(r, dep=TEFF, base=30.0, normed=False):
    v = base * 10 ** (0.8 * (r["fiveSigmaDepth"] - dep[r["band"]]))
    return {"t_eff": v / r["visitExposureTime"] if normed else v}


def dayobs(mjd):
    n = math.floor(mjd - 0.5)
    return n, datetime.date(1858, 11, 17) + datetime.timedelta(days=n)


def o_m5opt(r):
    k = {"u": 0.50, "g": 0.21, "r": 0.13, "i": 0.10, "z": 0.07, "y": 0.18}[r["band"]]
    slope = {
        "g": -0.52611780327408397, "i": -0.67898669252082422, "r": -0.61378749766766827, "u": -0.27840980367303503,
        "y": -0.69635091524779691, "z": -0.69652846002009128,
    }[r["band"]]
    x0 = 1 / math.cos(abs(r["fieldDec"] - SITE_LAT) * D2R)
    ds = 0.0 if r["moonAlt"] > 0 or r["sunAlt"] > 0 else slope * (r["airmass"] - x0)
    with np.errstate(all="ignore"):
        v = r["fiveSigmaDepth"] - 0.5 * ds - 0.15 * float(np.log10(x0 / r["airmass"])) - k * (x0 - r["airmass"])
    return {"m5_optimal": v}


def o_neo(r, H=22.0, lo=0.3, hi=3.0, step=0.01):
    e = r["solarElong"] * D2R
    v5 = r["fiveSigmaDepth"] + {"u": -2.1, "g": -0.5, "r": 0.2, "i": 0.4, "z": 0.6, "y": 0.6}[r["filter"]]
    k = 0
    dist = None
    while lo + k * step < hi + step:
        dl = lo + k * step
        k += 1
        R = math.sqrt(1 + dl * dl - 2 * dl * math.cos(e))
        al = math.acos(max(-1.0, min(1.0, (R * R + dl * dl - 1) / (2 * dl * R))))
        t = math.tan(al / 2)
        ph = 0.85 * math.exp(-3.33 * t**0.63) + 0.15 * math.exp(-1.87 * t**1.22)
        if H + 5 * math.log10(R * dl) - 2.5 * math.log10(ph) > v5:
            dist = dl
            break
    if dist is None:
        return None
    return {"MaxGeoDist": dist, "|NEOHelioX|": dist * math.sin(e), "NEOHelioY": 1 - dist * math.cos(e)}


def o_sdss(r):
    out = {}
    for j in range(8):
        v = r[f"p{j + 1}"] * D2R
        out[("RA%d" if j % 2 == 0 else "Dec%d") % (j // 2 + 1)] = v % (2 * math.pi) if j % 2 == 0 else v
    return out


_fp = {}


def o_wfd(r, fp, thr=0.4, name="WFD", exclude=True):
    import healpy as hp

    note = r["scheduler_note"]
    if note.startswith("DD") and exclude:
        return {"area_id": note.replace("u,", "").split(",")[0]}
    key = (r["fieldRA"], r["fieldDec"], len(fp))
    if key not in _fp:
        p = np.array(hp.pix2vec(hp.npix2nside(len(fp)), np.arange(len(fp)))).T
        _fp[key] = p @ np.array(sph(r["fieldRA"] * D2R, r["fieldDec"] * D2R)) >= math.cos(1.75 * D2R)
    sel = fp[_fp[key]]
    return {"area_id": name if float(sel.sum()) / len(sel) >= thr else "NULL"}


def lmst(mjd, lon):
    """Greenwich mean sidereal time + longitude (rad)."""
    d = mjd - 51544.5
    return ((280.46061837 + 360.98564736629 * d) % 360) * D2R + lon


# observatory coordinates are data, not logic: taken from the table of telescopes the stacker itself publishes
def o_follow(r, scopes, limit=2.5, steps=(0.5, 3.5, 6.5, 9.5)):
    n, margin = 0, 9.0
    for lat, lon in scopes:
        got = False
        for s in steps:
            h = lmst(r["observationStartMJD"] + s / 24, lon * D2R) - r["fieldRA"] * D2R
            sa = math.sin(r["fieldDec"] * D2R) * math.sin(lat * D2R) + math.cos(r["fieldDec"] * D2R) * math.cos(lat * D2R) * math.cos(h)
            margin = min(margin, abs(sa - 1 / limit))
            got = got or (sa > 0 and 1 / sa <= limit)
        n += got
    return {"nObservatories": n} if margin > 1e-4 else None


def row(d, k):
    return {c: (d[c][k].item() if hasattr(d[c][k], "item") else d[c][k]) for c in d.dtype.names}


def half_sky(nside):
    import healpy as hp

    ra, dec = hp.pix2ang(nside, np.arange(12 * nside**2), lonlat=True)
    return ((dec < 0) & (dec > -66)).astype(float)


def rad(d, cols):
    d = d.copy()
    for c in cols:
        d[c] = np.radians(d[c])
    return d


def configs():
    import healpy as hp
    from rubin_scheduler.utils import m5_flat_sed

    from rubin_sim.maf import stackers as s
    from rubin_sim.maf.stackers import general_stackers as g
    from rubin_sim.maf.stackers.n_follow_stacker import find_telescopes

    rd = ["fieldRA", "fieldDec", "observationStartLST", "altitude"]
    fp = half_sky(64)
    sc = [(float(x["lat"]), float(x["lon"])) for x in find_telescopes(min_size=8.0)]
    mags = {"u": 1.0, "g": 2.0, "r": 3.0, "i": 4.0, "z": 5.0, "y": 6.0}
    zp2 = {b: v - 1.5 for b, v in ZP.items()}
    c = []

    def add(name, mk, oracle, tol=1e-9, kw=None, conv=None, circ=(), scale=None):
        c.append(dict(name=name, mk=mk, oracle=oracle, tol=tol, conv=conv, circ=circ, scale=scale))

    add("galactic", lambda: s.GalacticStacker(), o_gal, 2e-6, circ=("gall",))
    add("galactic rad", lambda: s.GalacticStacker(degrees=False), o_gal, 2e-6, conv=rd, circ=("gall",))
    add("ecliptic", lambda: s.EclipticStacker(), o_ecl, 0.02, circ=("eclipLon", 360))
    add("ecliptic rad", lambda: s.EclipticStacker(degrees=False), lambda r: o_ecl(r, deg=False), 4e-4, conv=rd, circ=("eclipLon",))
    add("ecliptic sun", lambda: s.EclipticStacker(subtract_sun_lon=True), lambda r: o_ecl(r, True), 0.04, circ=("eclipLon", 360))
    add("healpix", lambda: s.HealpixStacker(nside=16), lambda r: {
        "ring_healpix": int(hp.ang2pix(16, r["fieldRA"], r["fieldDec"], lonlat=True)),
        "nest_healpix": int(hp.ring2nest(16, hp.ang2pix(16, r["fieldRA"], r["fieldDec"], lonlat=True)))})
    add("parallax", lambda: s.ParallaxFactorStacker(), o_par, 0.02)
    add("parallax rad", lambda: s.ParallaxFactorStacker(degrees=False), o_par, 0.02, conv=rd)
    add("normairmass", lambda: s.NormAirmassStacker(), lambda r: {
        "normairmass": r["airmass"] * math.cos(abs(r["fieldDec"] + 30.2446388) * D2R)})
    add("normairmass lat", lambda: s.NormAirmassStacker(telescope_lat=20.0), lambda r: {
        "normairmass": r["airmass"] * math.cos(abs(r["fieldDec"] - 20) * D2R)})
    add("normairmass rad", lambda: s.NormAirmassStacker(degrees=False), lambda r: {
        "normairmass": r["airmass"] * math.cos(abs(r["fieldDec"] + 30.2446388) * D2R)}, conv=rd)
    add("zenith", lambda: s.ZenithDistStacker(), lambda r: {"zenithDistance": 90 - r["altitude"]})
    add("zenith rad", lambda: s.ZenithDistStacker(degrees=False), lambda r: {"zenithDistance": (90 - r["altitude"]) * D2R}, conv=rd)
    add("ha", lambda: s.HourAngleStacker(), lambda r: {"HA": ha_of(r)})
    add("ha rad", lambda: s.HourAngleStacker(degrees=False), lambda r: {"HA": ha_of(r)}, conv=rd)
    add("pa", lambda: s.ParallacticAngleStacker(), lambda r: {"PA": pa_of(r), "HA": ha_of(r)}, 1e-3)
    add("pa rad", lambda: s.ParallacticAngleStacker(degrees=False), lambda r: {"PA": pa_of(r) * D2R, "HA": ha_of(r)}, 1e-4, conv=rd)
    add("dcr", lambda: s.DcrStacker(), lambda r: {**o_dcr(r), "zenithDistance": 90 - r["altitude"], "HA": ha_of(r)}, 1e-4)
    add("dcr mags", lambda: s.DcrStacker(dcr_magnitudes=mags), lambda r: o_dcr(r, mags), 1e-3)
    add("dcr rad", lambda: s.DcrStacker(degrees=False), o_dcr, 1e-4, conv=rd)
    add("dcr2", lambda: g.Dcr2Stacker(), o_dcr2, 1e-4)
    add("dcr2 mags", lambda: g.Dcr2Stacker(dcr2_magnitudes=mags), lambda r: o_dcr2(r, mags), 1e-3)
    add("dcr2 zstacker", lambda: g.Dcr2Stacker(zstacker=s.ZenithDistStacker(), pastacker=s.ParallacticAngleStacker()), o_dcr2, 1e-4)
    add("dcr2 rad", lambda: g.Dcr2Stacker(degrees=False), o_dcr2, 1e-4, conv=rd)
    add("saturation", lambda: s.SaturationStacker(zeropoints=ZP, km=KM), o_sat)
    add("saturation args", lambda: s.SaturationStacker(zeropoints=zp2, km=KM, saturation_e=9e4, pixscale=0.3),
        lambda r: o_sat(r, 9e4, 0.3, zp2))
    add("m5", lambda: s.FiveSigmaStacker(), lambda r: {"m5_simsUtils": float(m5_flat_sed(
        r["band"], r["skyBrightness"], r["seeingFwhmEff"], r["visitExposureTime"], r["airmass"]))})
    add("note", lambda: g.NoteRootStacker(), lambda r: {"scheduler_note_root": r["scheduler_note"].split(",")[0]})
    add("teff", lambda: s.TeffStacker(), o_teff)
    add("teff normed", lambda: s.TeffStacker(normed=True), lambda r: o_teff(r, normed=True))
    add("teff args", lambda: s.TeffStacker(fiducial_depth=ZP, fiducial_exptime=15.0), lambda r: o_teff(r, ZP, 15.0))
    add("dayobs", lambda: s.DayObsStacker(), lambda r: {"dayObs": int(dayobs(r["observationStartMJD"])[1].strftime("%Y%m%d"))})
    add("dayobs mjd", lambda: s.DayObsMJDStacker(), lambda r: {"day_obs_mjd": dayobs(r["observationStartMJD"])[0]})
    add("dayobs iso", lambda: s.DayObsISOStacker(), lambda r: {"day_obs_iso8601": dayobs(r["observationStartMJD"])[1].isoformat()})
    add("datetime64", lambda: s.ObservationStartDatetime64Stacker(), lambda r: {"observationStartDatetime64": r["observationStartMJD"]},
        1e-8, scale="time")
    add("timestamp", lambda: s.ObservationStartTimestampStacker(), lambda r: {"start_timestamp": r["observationStartMJD"]},
        1e-8, scale="time")
    add("m5 optimal", lambda: s.M5OptimalStacker(filter_col="band"), o_m5opt, 1e-3)
    add("neo", lambda: s.NEODistStacker(stepsize=0.01), o_neo, 1e-6)
    add("neo far", lambda: s.NEODistStacker(stepsize=0.01, H=20, min_dist=0.1), lambda r: o_neo(r, 20.0, 0.1), 1e-6)
    add("sdss", lambda: s.SdssRADecStacker(), o_sdss)
    add("wfd", lambda: s.WFDlabelStacker(footprint=fp), lambda r: o_wfd(r, fp))
    add("wfd args", lambda: s.WFDlabelStacker(footprint=fp, exclude_dd=False, fp_threshold=0.75, area_id_name="south"),
        lambda r: o_wfd(r, fp, 0.75, "south", False))
    add("wfd sky", lambda: s.WFDlabelStacker(), lambda r: o_wfd(r, np.ones(12 * 64**2)))
    add("follow", lambda: s.NFollowStacker(min_size=8.0), lambda r: o_follow(r, sc))
    add("follow args", lambda: s.NFollowStacker(min_size=8.0, airmass_limit=1.5, time_steps=[1.0]), lambda r: o_follow(r, sc, 1.5, (1.0,)))
    add("follow rad", lambda: s.NFollowStacker(min_size=8.0, degrees=False), lambda r: o_follow(r, sc), conv=rd)
    return c


SLOW = ("galactic", "ecliptic", "parallax", "timestamp", "dayobs", "dayobs iso", "neo", "wfd", "follow")


def tomjd(v):
    import pandas as pd

    t = pd.Timestamp(v)
    if t.tzinfo is not None:
        t = t.tz_convert("UTC").tz_localize(None)
    return (t - pd.Timestamp("1858-11-17")) / pd.Timedelta(days=1)


def check_rows(ctx, cf, d, out, ix, cache):
    if not ctx.expect(len(out) == len(d), "a stacker changed the number of visits", got=len(out), want=len(d)):
        return False
    for col in d.dtype.names:
        if not ctx.expect(col in out.dtype.names and same(list(out[col]), list(d[col])), f"a stacker changed the column {col}", stacker=cf["name"]):
            return False
    for k, i in enumerate(ix):
        if (cf["name"], i) not in cache:
            cache[cf["name"], i] = cf["oracle"](row(table([i]), 0))
        want = cache[cf["name"], i]
        if want is None:
            continue
        for col, w in want.items():
            ctx.comparisons += 1
            cc = col.strip("|")
            if not ctx.expect(cc in out.dtype.names, f"the column {cc} is missing", stacker=cf["name"]):
                return False
            v = out[cc][k]
            if isinstance(w, str):
                ok = str(v) == w
            else:
                if cf["scale"] == "time":
                    v = tomjd(v)
                v = float(v)
                v = abs(v) if col.startswith("|") else v
                dv = v - w
                if cf["circ"] and cc == cf["circ"][0]:
                    per = cf["circ"][1] if len(cf["circ"]) > 1 else 2 * math.pi
                    dv = (dv + per / 2) % per - per / 2
                    ok = abs(dv) <= cf["tol"] and 0 <= v <= per
                else:
                    ok = (math.isnan(v) and math.isnan(w)) or abs(dv) <= cf["tol"] * max(1.0, abs(w))
            if not ctx.expect(ok, f"the column {cc} does not have the value of its definition", stacker=cf["name"], visit=ROWS[i][:4], position=k, got=v, want=w):
                return False
    return True


def sequences(n_all, n_perm):
    idx = range(len(ROWS))
    for n in range(1, n_all + 1):
        yield from itertools.product(idx, repeat=n)
    for n in range(n_all + 1, n_perm + 1):
        yield from itertools.permutations(idx, n)


def u_rows(ctx, part, parts):
    cache = {}
    cs = configs()
    ctx.bounds = {"stackers": len(cs), "visits": len(ROWS), "sequence": ctx.pick("all <=3 (sky coordinates: <=2 and permutations of 3)", "all <=4 (sky coordinates: <=3 and permutations of 4)")}
    for j, cf in enumerate(cs):
        if j % parts != part:
            continue
        slow = cf["name"].split()[0] in SLOW
        na, npm = ctx.pick((2, 3) if slow else (3, 3), (3, 4) if slow else (4, 4))
        for ix in sequences(na, npm):
            if not ctx.case(cf["name"], ix):
                continue
            d = table(ix)
            if cf["conv"]:
                d = rad(d, cf["conv"])
            before = d.copy()
            st = cf["mk"]()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, out = ctx.must(st.run, d, what="running a stacker")
            if not ok:
                continue
            ctx.transitions += 1
            check_rows(ctx, cf, d, out, ix, cache)
            ctx.expect(d.dtype == before.dtype and d.tobytes() == before.tobytes(), "a stacker changed the visits it was given", stacker=cf["name"])
            need = [q for q in st.cols_req]
            ctx.state((cf["name"], ix))
            ctx.outcome(len(ix))
            if len(ix) == 1:
                # it must work with the columns it asks for alone
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    # MetricBundleGroup reads the required columns only
                    few = np.zeros(len(d), dtype=[(c, d.dtype[c]) for c in d.dtype.names if c in need])
                    for c in few.dtype.names:
                        few[c] = d[c]
                    ok2, o2 = ctx.must(cf["mk"]().run, few, what="a stacker with the columns it asks for")
                if ok2:
                    for col in st.cols_added:
                        ctx.expect(same(list(o2[col]), list(out[col])), f"{col} depends on columns the stacker does not ask for", stacker=cf["name"])


def u_runs(ctx):
    """Histories of stacker runs on the same data: present columns are kept unless overridden; order of stackers does not matter."""
    from rubin_sim.maf import stackers as s
    from rubin_sim.maf.stackers import general_stackers as g

    menu = {
        "zen": lambda: s.ZenithDistStacker(), "ha": lambda: s.HourAngleStacker(), "pa": lambda: s.ParallacticAngleStacker(),
        "dcr": lambda: s.DcrStacker(), "dcr2": lambda: g.Dcr2Stacker(), "norm": lambda: s.NormAirmassStacker(),
        "teff": lambda: s.TeffStacker(), "dmjd": lambda: s.DayObsMJDStacker(), "over": lambda: s.OverheadStacker(),
        "gal": lambda: s.GalacticStacker(), "note": lambda: g.NoteRootStacker(), "sat": lambda: s.SaturationStacker(zeropoints=ZP, km=KM),
    }
    cols = {}
    ix = (0, 1, 2, 3)
    ref = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for k, mk in menu.items():
            o = mk().run(table(ix))
            cols[k] = [c for c in o.dtype.names if c not in table(ix).dtype.names]
            for c in cols[k]:
                ref[c] = list(o[c])
    depth = ctx.pick(3, 4)
    ctx.bounds = {"stackers": len(menu), "runs": depth}
    for n in range(1, depth + 1):
        for hist in itertools.product(menu, repeat=n):
            if not ctx.case(hist):
                continue
            d = table(ix)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for k in hist:
                    ok, d = ctx.must(menu[k]().run, d, what="running a stacker")
                    ctx.transitions += 1
                    if not ok:
                        break
                else:
                    want = set(table(ix).dtype.names)
                    for k in hist:
                        want |= set(cols[k])
                    ctx.expect(set(d.dtype.names) == want, "the columns after a history of stackers", got=sorted(set(d.dtype.names) ^ want))
                    for c in d.dtype.names:
                        w = ref[c] if c in ref else list(table(ix)[c])
                        ctx.expect(same(list(d[c]), w), f"{c} depends on which stackers ran before")
                    ctx.state(frozenset(hist))
                    ctx.outcome(len(d.dtype.names))


def u_present(ctx):
    """Columns already present (every subset of them), with and without override."""
    from rubin_sim.maf import stackers as s
    from rubin_sim.maf.stackers import general_stackers as g

    always = {"saturation", "saturation args", "m5 optimal", "neo", "neo far", "sdss", "wfd", "wfd args", "wfd sky"}
    cs = [c for c in configs() if not c["conv"]]
    ctx.bounds = {"stackers": len(cs)}
    ix = (0, 1, 2)
    cache = {}
    for cf in cs:
        st = cf["mk"]()
        for n in range(1, len(st.cols_added) + 1):
            for have in itertools.combinations(st.cols_added, n):
                if n not in (1, len(st.cols_added)) and cf["name"] == "sdss":
                    continue
                for override in (False, True):
                    if not ctx.case(cf["name"], have, override):
                        continue
                    base = table(ix)
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        full = cf["mk"]().run(base)
                        names = [c for c in full.dtype.names if c in base.dtype.names or c in have]
                        d = np.zeros(len(ix), dtype=[(c, full.dtype[c]) for c in names])
                        for c in names:
                            if c in have:
                                d[c] = "1999-01-01" if full.dtype[c].kind in "UM" else -7
                            else:
                                d[c] = full[c]
                        ok, out = ctx.must(cf["mk"]().run, d, override=override, what="running a stacker with its columns present")
                    if not ok:
                        continue
                    ctx.transitions += 1
                    keep = not override and n == len(st.cols_added) and cf["name"] not in always
                    if cf["name"] == "timestamp":
                        keep = not override
                    if keep:
                        for c in have:
                            ctx.expect(same(list(out[c]), list(d[c])), f"{c} was already there and was recomputed without override", stacker=cf["name"])
                    elif cf["name"] not in always or True:
                        check = dict(cf)
                        d2 = np.zeros(len(ix), dtype=base.dtype)
                        for c in base.dtype.names:
                            d2[c] = base[c]
                        check_rows(ctx, check, d2, out, ix, cache)
                    ctx.outcome((keep, override))
                    ctx.state((cf["name"], have, override))
    # values other stackers use are not recomputed when present
    for zd, ha, pa in itertools.product((None, 12.5), (None, 1.25), (None, 33.0)):
        for ix2 in itertools.permutations(range(len(ROWS)), 2):
            if not ctx.case("sub", zd, ha, pa, ix2):
                continue
            d = table(ix2)
            extra = [(c, float) for c, v in (("zenithDistance", zd), ("HA", ha), ("PA", pa)) if v is not None]
            e = np.zeros(len(d), dtype=d.dtype.descr + extra)
            for c in d.dtype.names:
                e[c] = d[c]
            for c, v in (("zenithDistance", zd), ("HA", ha), ("PA", pa)):
                if v is not None:
                    e[c] = v
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ok, o = ctx.must(s.DcrStacker().run, e, what="DcrStacker with its ingredients present")
            if not ok:
                continue
            ctx.transitions += 1
            for k in range(len(d)):
                r = row(d, k)
                p = pa
                if p is None and ha is not None:
                    h, dec = ha * math.pi / 12, r["fieldDec"] * D2R
                    p = math.atan2(math.sin(h), math.cos(dec) * math.tan(SITE_LAT * D2R) - math.sin(dec) * math.cos(h)) / D2R
                w = o_dcr(r, zd=zd, pa=p)
                for c in w:
                    ctx.comparisons += 1
                    ctx.expect(abs(o[c][k] - w[c]) < 1e-4 * max(1, abs(w[c])), f"{c} does not follow from the columns that were present", given=(zd, ha, pa), got=o[c][k], want=w[c])
            ctx.outcome("sub")
    # no visits
    for cf in cs:
        if cf["name"] == "timestamp" or not ctx.case("empty", cf["name"]):
            continue
        ok, o = ctx.must(cf["mk"]().run, table(()), what="running a stacker without visits")
        if ok:
            ctx.expect(len(o) == 0, "a stacker invented visits", stacker=cf["name"])
        ctx.outcome("empty")


def u_overhead(ctx):
    from rubin_sim.maf import stackers as s

    grid = [61000.2, 61000.2 + 40 / 86400, 61000.2 + 90 / 86400, 61000.4999, 61000.5001, 61001.0]
    depth = ctx.pick(4, 5)
    ctx.bounds = {"times": len(grid), "visits": depth}
    for n in range(1, depth + 1):
        for ts in itertools.combinations(range(len(grid)), n):
            for vt, ex in itertools.product(itertools.product((34.0, 39.0), repeat=n), ((30.0,) * n, tuple(30.0 - 15 * (k % 2) for k in range(n)))):
                for gap in (math.inf, 0.4, 1.0, 60.0):
                    if not ctx.case(ts, vt, ex, gap):
                        continue
                    d = table([0] * n)
                    d["observationStartMJD"] = [grid[i] for i in ts]
                    d["visitTime"] = vt
                    d["visitExposureTime"] = ex
                    ok, o = ctx.must(s.OverheadStacker(max_gap=gap).run, d, what="OverheadStacker")
                    if not ok:
                        continue
                    ctx.transitions += 1
                    for k in range(n):
                        w = math.nan
                        if k > 0 and math.floor(grid[ts[k]] - 0.5) == math.floor(grid[ts[k - 1]] - 0.5):
                            w = (grid[ts[k]] - grid[ts[k - 1]]) * 86400 + vt[k] - vt[k - 1] - ex[k]
                            if w > gap * 60:
                                w = math.nan
                        v = float(o["overhead"][k])
                        ctx.comparisons += 1
                        ctx.expect((math.isnan(v) and math.isnan(w)) or abs(v - w) < 1e-3, "overhead is not the time without exposure since the end of the previous visit of the night", visit=k, got=v, want=w)
                    ctx.outcome(n)
                    ctx.state((ts, vt, ex, gap))


def u_coadd(ctx):
    """CoaddStacker: one row per position, band and night."""
    from rubin_sim.maf.stackers.sn_stacker import CoaddStacker

    alpha = [(10.0, -30.0, b, n, m5) for b, n, m5 in (("r", 1, 24.0), ("r", 1, 23.0), ("r", 2, 24.5), ("i", 1, 23.5))] + [(10.5, -30.0, "r", 1, 22.0)]
    dt = [("observationStartMJD", float), ("fieldRA", float), ("fieldDec", float), ("fiveSigmaDepth", float), ("band", "<U1"),
          ("night", int), ("numExposures", int), ("visitTime", float), ("visitExposureTime", float), ("seeing", float), ("what", "O")]
    depth = ctx.pick(4, 5)
    ctx.bounds = {"visits": depth, "alphabet": len(alpha)}
    for n in range(1, depth + 1):
        for ix in itertools.product(range(len(alpha)), repeat=n):
            if not ctx.case(ix):
                continue
            d = np.zeros(n, dtype=dt)
            for k, i in enumerate(ix):
                ra, dec, b, ni, m5 = alpha[i]
                d[k] = (61000 + ni + 0.01 * k, ra, dec, m5, b, ni, 1 + k % 2, 34.0 + k, 30.0, 0.5 + 0.1 * k, "x")
            ok, o = ctx.must(CoaddStacker().run, d, what="CoaddStacker")
            if not ok:
                continue
            ctx.transitions += 1
            groups = {}
            for k, i in enumerate(ix):
                groups.setdefault(alpha[i][:4], []).append(k)
            got = {}
            for r in o:
                got[(float(r["fieldRA"]), float(r["fieldDec"]), str(r["band"]), int(r["night"]))] = r
            ctx.expect(len(o) == len(groups) and set(got) == set(groups), "coadded visits are not one per position, band and night", got=sorted(got), want=sorted(groups))
            for key, ks in groups.items():
                if key not in got:
                    continue
                r = got[key]
                med = lambda c: float(np.median([d[c][k] for k in ks]))
                want = {
                    "fiveSigmaDepth": 1.25 * math.log10(sum(10 ** (0.8 * alpha[ix[k]][4]) for k in ks)),
                    "numExposures": sum(1 + k % 2 for k in ks), "visitTime": sum(34.0 + k for k in ks), "visitExposureTime": 30.0 * len(ks),
                    "observationStartMJD": med("observationStartMJD"), "seeing": med("seeing"),
                }
                for c, w in want.items():
                    ctx.comparisons += 1
                    ctx.expect(abs(float(r[c]) - w) < 1e-9 * max(1, abs(w)), f"the {c} of a coadded visit", got=r[c], want=w)
            ctx.outcome(len(groups))
            ctx.state(ix)


def u_moving(ctx):
    """Stackers of moving object observations."""
    from rubin_sim.maf import stackers as s
    from rubin_sim.maf.stackers import mo_phase

    dt = [("magV", float), ("dmag_color", float), ("dmag_detect", float), ("dmag_trail", float), ("fiveSigmaDepth", float), ("band", "<U1"),
          ("seeingFwhmGeom", float), ("FWHMgeom", float), ("helio_dist", float), ("geo_dist", float), ("phase", float), ("ra", float), ("dec", float)]
    obs = [
        (22.0, 0.4, 0.1, 0.05, 24.5, "g", 0.8, 0.8, 2.5, 1.6, 10.0, 0.0, 0.0), (24.4, -0.2, 0.0, 0.2, 24.3, "r", 1.1, 1.1, 1.1, 0.2, 55.0, 359.9, 23.0),
        (27.5, 0.0, 0.7, 0.3, 24.0, "i", 0.6, 0.6, 6.0, 5.1, 0.0, 180.0, -89.0), (18.0, 1.6, 0.0, 0.0, 23.6, "u", 1.5, 1.5, 3.0, 3.0, 120.0, 90.0, 66.5),
        (23.0, 0.3, 0.0, 0.1, 22.5, "y", 0.9, 0.9, 30.0, 29.5, 1.5, 270.0, -20.0),
    ]
    AB = {"u": -25.30, "g": -26.52, "r": -26.93, "i": -27.05, "z": -27.07, "y": -27.07}
    HM = {0.0: 1.0, 10.0: 0.6871, 55.0: 0.33890, 120.0: 1.4389, 1.5: None}
    AU = 149597870.7

    def nuc(o, href, h, loss=2):
        return o[0] + o[1] + o[loss] + h - href

    def comet(o, href, h, k, c):
        rad_km = 10 ** (0.2 * (-26.76 - h)) / math.sqrt(0.04) * AU
        ph = HM[o[10]]
        if ph is None:
            ph = float(mo_phase.phase__halley_marcus(o[10]))
        af = c * rad_km**2 * o[8] ** k * ph
        rho = 725e5 * o[9] * o[6]
        coma = AB[o[5]] - 2.5 * math.log10(af * rho / (2 * o[8] * o[9] * AU * 1e5) ** 2)
        return -2.5 * math.log10(10 ** (-0.4 * coma) + 10 ** (-0.4 * nuc(o, href, h)))

    kinds = {
        "asteroid": (lambda: s.MoMagStacker(), nuc), "trail": (lambda: s.MoMagStacker(loss_col="dmag_trail"), lambda o, a, b: nuc(o, a, b, 3)),
        "comet_short": (lambda: s.MoMagStacker(magtype="comet_short"), lambda o, a, b: comet(o, a, b, -4, 100)),
        "comet_oort": (lambda: s.MoMagStacker(magtype="comet_oort"), lambda o, a, b: comet(o, a, b, -2, 1000)),
        "comet_mbc": (lambda: s.MoMagStacker(magtype="comet_mbc"), lambda o, a, b: comet(o, a, b, -6, 4000)),
        "appmag": (lambda: s.AppMagStacker(), nuc),
        "comet": (lambda: s.CometAppMagStacker(comet_type={"k": -3.5, "Afrho1_const": 1500}), lambda o, a, b: comet(o, a, b, -3.5, 1500)),
    }
    n = ctx.pick(2, 3)
    hs = [(20.0, None), (20.0, 20.0), (20.0, 16.0), (18.5, 22.0), (0.0, 3.0)]
    ctx.bounds = {"observations": n, "alphabet": len(obs), "H": hs}
    for kind, (mk, want) in kinds.items():
        for m in range(1, n + 1):
            for ix in itertools.product(range(len(obs)), repeat=m):
                for seq in itertools.product(range(len(hs)), repeat=2 if m < n else 1):
                    if not ctx.case(kind, ix, seq):
                        continue
                    d = np.array([obs[i] for i in ix], dtype=dt)
                    st = mk()
                    # the same stacker is run again for each H value, as the bundle does
                    for hi in seq:
                        href, h = hs[hi]
                        ok, o = ctx.must(st.run, d, href, h, what="a moving object stacker")
                        ctx.transitions += 1
                        if not ok:
                            break
                        for k, i in enumerate(ix):
                            w = want(obs[i], href, href if h is None else h)
                            g = float(o["appMag"][k])
                            ctx.comparisons += 1
                            ctx.expect(abs(g - w) < 2e-3, "appMag is not the magnitude of the object at this H", kind=kind, obs=obs[i], href=href, h=h, got=g, want=w)
                            if "SNR" in o.dtype.names:
                                x = 10 ** (0.5 * (g - obs[i][4]))
                                ctx.expect(abs(float(o["SNR"][k]) * math.sqrt(0.002 * x + 0.038 * x * x) - 1) < 1e-6, "SNR at this magnitude and depth", got=o["SNR"][k])
                                dm = g - obs[i][4]
                                v = float(o["vis"][k])
                                ctx.expect(v in (0.0, 1.0), "vis is neither 0 nor 1", got=v)
                                if abs(dm) > 2.5:
                                    ctx.expect(v == (1.0 if dm < 0 else 0.0), "vis of an object far from the limit", dm=dm, got=v)
                        d = o
                    ctx.outcome(kind)
                    ctx.state((kind, ix, seq))
    # same seed, same detections
    for seed in (None, 0, 42):
        for ix in itertools.product(range(len(obs)), repeat=2):
            if not ctx.case("seed", seed, ix):
                continue
            d = np.array([obs[i] for i in ix] * 6, dtype=dt)
            d["magV"] = d["fiveSigmaDepth"] - d["dmag_color"] - d["dmag_detect"]
            a = s.MoMagStacker(random_seed=seed).run(d.copy(), 20.0)["vis"]
            b = s.MoMagStacker(random_seed=seed).run(d.copy(), 20.0)["vis"]
            ctx.expect(same(list(a), list(b)), "the same random seed gives other detections")
            ctx.outcome("seed")
    for i, o in enumerate(obs):
        if not ctx.case("ecl", i):
            continue
        d = np.array([o], dtype=dt)
        for deg in (True, False):
            e = d.copy()
            if not deg:
                e["ra"], e["dec"] = np.radians(e["ra"]), np.radians(e["dec"])
            r = s.EclStacker(in_deg=deg).run(e, 20.0)
            lat, lon = ecliptic(o[11] * D2R, o[12] * D2R)
            ctx.expect(abs(float(r["ecLat"][0]) - lat / D2R) < 1e-4, "ecLat", got=r["ecLat"], want=lat / D2R)
            ctx.expect(abs((float(r["ecLon"][0]) - lon / D2R + 180) % 360 - 180) < 1e-3 and 0 <= float(r["ecLon"][0]) <= 360, "ecLon", got=r["ecLon"], want=lon / D2R)
        ctx.outcome("ecl")
    for ph in (0.0, 0.5, 3.0, 20.0, 90.0, 150.0):
        if not ctx.case("phase", ph):
            continue
        t = math.tan(ph * D2R / 2)
        for G in (0.15, 0.4):
            w = (1 - G) * math.exp(-3.33 * t**0.63) + G * math.exp(-1.87 * t**1.22)
            ctx.expect(abs(float(mo_phase.phase_hg(ph, G)) - w) < 1e-12, "phase_hg")
        ctx.expect(abs(float(mo_phase.phase__log_linear(ph, 0.03)) - 10 ** (-0.012 * ph)) < 1e-12, "phase__log_linear")
        ctx.outcome("phase")


def u_misc(ctx):
    from rubin_sim.maf import stackers as s
    from rubin_sim.maf.stackers.n_follow_stacker import find_telescopes

    # compute_teff: scalar and array arguments agree
    for b, m5, ex, base, normed in itertools.product("ugrizyq", (22.0, 24.5), (None, 15.0, 30.0), (None, 40.0), (False, True)):
        if not ctx.case("teff", b, m5, ex, base, normed):
            continue
        w = (base or 30.0) * 10 ** (0.8 * (m5 - TEFF.get(b, math.nan)))
        w = w / (ex or 30.0) if normed else w
        g = s.compute_teff(m5, b, exptime=ex, teff_base=base, normed=normed)
        ctx.equal(float(g), w, "compute_teff of one visit")
        g = s.compute_teff(np.array([m5, m5 + 1]), np.array([b, "r"]), exptime=None if ex is None else np.array([ex, 30.0]), teff_base=base, normed=normed)
        ctx.equal(float(g[0]), w, "compute_teff of an array")
        w2 = (base or 30.0) * 10 ** (0.8 * (m5 + 1 - TEFF["r"]))
        ctx.equal(float(g[1]), w2 / 30.0 if normed else w2, "compute_teff of an array")
        ctx.outcome(b)
    # two configurations that compare equal add the same columns
    cs = configs()
    d = rad(table((0, 1, 2, 3)), ["fieldRA", "fieldDec", "observationStartLST", "altitude"])
    outs = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for cf in cs:
            o = cf["mk"]().run(d)
            outs.append({c: list(o[c]) for c in cf["mk"]().cols_added})
    for i, j in itertools.product(range(len(cs)), repeat=2):
        if not ctx.case("eq", cs[i]["name"], cs[j]["name"]):
            continue
        a, b = cs[i]["mk"](), cs[j]["mk"]()
        if a == b:
            ctx.expect(same(outs[i], outs[j]), "two stackers are equal but add different values", a=cs[i]["name"], b=cs[j]["name"])
        ctx.expect((a != b) == (not (a == b)), "!= is not the opposite of ==")
        ctx.outcome(bool(a == b))
    for cf in cs:
        if not ctx.case("same", cf["name"]):
            continue
        if cf["name"].split()[0] in ("zenith", "ha", "normairmass", "teff", "galactic", "ecliptic", "healpix", "parallax", "saturation", "m5", "note", "dayobs"):
            ctx.expect(cf["mk"]() == cf["mk"](), "two identical stackers differ", stacker=cf["name"])
        ctx.outcome("same")
    # where columns come from
    ci = s.ColInfo()
    for cf in cs:
        st = cf["mk"]()
        for c in st.cols_added:
            if not ctx.case("source", cf["name"], c):
                continue
            src = ci.get_data_source(c)
            ctx.expect(src is not None and c in src.cols_added, "the source of a stacker column does not add it", column=c)
            if cf["name"].endswith(" rad") and not cf["name"].startswith(("galactic", "parallax", "ha", "normairmass", "dcr", "follow", "pa")):
                ctx.expect(list(st.units) == ["radians"] * len(st.cols_added), "units of a stacker in radians", stacker=cf["name"], got=st.units)
            ctx.outcome("source")
    for c in ("fieldRA", "airmass", "nonsense", None):
        if ctx.case("db", c):
            ctx.expect(ci.get_data_source(c) is None, "a database column has a stacker as source", column=c)
            ctx.outcome("db")
    # telescopes above a size
    allt = [(float(t["aperture"]), str(t["name"])) for t in find_telescopes(min_size=0)]
    for size in (0.0, 3.0, 3.5, 6.5, 8.1, 10.4, 11.0):
        if ctx.case("tel", size):
            ctx.expect([(float(t["aperture"]), str(t["name"])) for t in find_telescopes(min_size=size)] == [t for t in allt if t[0] >= size], "telescopes above a size", size=size)
            ctx.outcome("tel")


def u_wrap(ctx):
    """Hour angles on both sides of the wrap in one table."""
    from rubin_sim.maf import stackers as s

    pairs = [(lst, ra) for lst in (2.0, 95.0, 178.0, 184.0, 271.0, 357.0) for ra in (1.0, 88.0, 179.0, 186.0, 275.0, 358.0)]
    pairs = [p for p in pairs if abs(abs(p[0] - p[1]) - 180.0) > 0.5]
    ctx.bounds = {"pairs of LST and RA": len(pairs), "visits": 2}
    base = table((0, 1, 2))
    for k in (1, 2):
        for seq in itertools.product(pairs, repeat=k):
            if not ctx.case("wrap", seq):
                continue
            d = base[:k].copy()
            d["observationStartLST"], d["fieldRA"] = [x[0] for x in seq], [x[1] for x in seq]
            want = [((a - b + 180.0) % 360.0 - 180.0) / 15.0 for a, b in seq]
            r = d.copy()
            for c in ("observationStartLST", "fieldRA"):
                r[c] = np.radians(r[c])
            for what, st, data in (("degrees", s.HourAngleStacker(), d), ("radians", s.HourAngleStacker(degrees=False), r)):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ok, got = ctx.must(st.run, data)
                if ok:
                    ctx.outcome(tuple(want), sample=False)
                    ctx.equal(np.asarray(got["HA"], float), np.array(want), f"hour angle ({what})")


UNITS = [Unit("wrap", u_wrap)] + [Unit(f"rows-{i}", u_rows, part=i, parts=4) for i in range(4)] + [
    Unit("runs", u_runs), Unit("present", u_present), Unit("overhead", u_overhead), Unit("coadd", u_coadd), Unit("moving", u_moving), Unit("misc", u_misc),
]
