"""K01: sky brightness, against independent interpolation of known templates."""
import itertools
import os

import numpy as np

from mc.core import Unit

PROPERTY = "K01"
LEVEL = "exploration"
RULE = (
    "synthetic template spectra whose values are known functions of the node; every subset of components, every order "
    "and subset of points, all input forms and histories of up to three calls on the real SkyModel, compared with a "
    "reference interpolation written for the check; non-trivial = a finite brightness is returned"
)
ASSUMPTIONS = [
    "template files list the nodes sorted, as the released data do; every point is in the grids of all components "
    "unless the case says otherwise",
    "positions of the sun and moon come from astropy, and neighbouring healpixels from healpy",
]

FILTERS = "ugrizy"
NW = 11001
WAVE = np.linspace(300.0, 1400.0, NW)
AM = [1.0, 1.3, 1.9, 2.5, 3.0]
SF = [50.0, 130.0, 310.0]
SEP = [20.0, 60.0, 120.0, 180.0]
MALT = [-5.0, 20.0, 50.0, 90.0]
AMZ = [1.0, 2.0, 3.0]
COMPS = ["moon", "lower_atm", "twilight", "upper_atm", "airglow", "zodiacal", "scattered_star", "merged_spec"]
DARK = {"u": 22.8, "g": 22.3, "r": 21.2, "i": 20.3, "z": 19.3, "y": 18.0, "B": 22.35, "G": 21.71, "R": 21.3}
FITS = {
    "B": [7.56765633e00, 2.29798055e01, 2.86879956e-01, 3.01162143e-01],
    "G": [2.38561156e00, 2.29310648e01, 2.97733083e-01, 3.16403197e-01],
    "R": [1.75498017e00, 2.22011802e01, 2.98619033e-01, 3.28880254e-01],
    "z": [2.29, 24.08, 0.3, 0.3],
    "y": [2.0, 24.08, 0.3, 0.3],
    "u": [16.0, 2.29622121e01, 2.85862729e-01, 2.99902574e-01],
}
DIRS = {"scattered_star": "ScatteredStarLight", "airglow": "Airglow", "lower_atm": "LowerAtm", "upper_atm": "UpperAtm",
        "merged_spec": "MergedSpec", "moon": "Moon", "zodiacal": "Zodiacal"}
ZP = np.log10(3631.0)


# ------------------------------------------------------------- synthetic data
def moon_pixels():
    import healpy as hp

    th, _ = hp.pix2ang(4, np.arange(192))
    return [int(p) for p in np.where(np.pi / 2 - th > np.radians(-12))[0]]


def node_mag(comp, node, f):
    """Magnitude of a template at a node, for filter number f."""
    k = COMPS.index(comp)
    base = 22.0 + 0.3 * k - 0.5 * f - 0.02 * k * f
    if comp == "airglow":
        return base - 0.6 * (node[0] - 1) ** 1.2 - 0.002 * node[1] - 0.1 * np.sin(node[0] * node[1])
    if comp == "moon":
        return base - 0.008 * node[0] - 0.006 * node[1] - 0.4 * np.sin(1.7 * node[2] + f)
    if comp == "zodiacal":
        return base - 0.3 * (node[0] - 1) - 0.5 * np.cos(2.3 * node[1] + f)
    return base - (0.5 + 0.05 * k) * (node[0] - 1) ** 0.8


def node_logspec(comp, node):
    """log10 of the template spectrum (the spectrum varies along WAVE)."""
    m = node_mag(comp, node, 2)
    return -0.4 * m - 8.0 + 0.3 * np.sin(WAVE / 150.0 + 0.1 * COMPS.index(comp)) + 0.0005 * (WAVE - 700.0) * (node[0] % 1.3)


def nodes(comp):
    if comp == "airglow":
        return [(a, s) for a in AM for s in SF], ["airmass", "solarFlux"]
    if comp == "moon":
        return [(s, a, p) for s in SEP for a in MALT for p in moon_pixels()], ["moonSunSep", "moonAltitude", "hpid"]
    if comp == "zodiacal":
        return [(a, p) for a in AMZ for p in range(48)], ["airmass", "hpid"]
    return [(a, 0.0) for a in AM], ["airmass", "nightTimes"]


def data_dir(ctx, spectra=False, short=False):
    d = os.path.join(ctx.scratch, "sky_spec" if spectra else "sky_short" if short else "sky")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "throughputs/baseline"))
        w = np.arange(305.0, 1145.5, 0.5)
        for k, f in enumerate(FILTERS):
            sb = np.where((w > 320 + 110 * k) & (w < 430 + 110 * k), 0.5, 0.0)
            np.savetxt(os.path.join(d, "throughputs/baseline", f"total_{f}.dat"), np.column_stack([w, sb]))
        s = os.path.join(d, "skybrightness")
        os.makedirs(os.path.join(s, "solarSpec"))
        os.makedirs(os.path.join(s, "Canon"))
        np.savez(os.path.join(s, "solarSpec", "solarSpec.npz"), wave=WAVE, spec=1e-9 * (1.0 + 0.3 * np.sin(WAVE / 100.0)))
        for k, c in enumerate(("blue", "green", "red")):
            cw = np.arange(350.0, 800.0, 10.0)
            tr = np.exp(-0.5 * ((cw - (470 + 70 * k)) / 25.0) ** 2)
            with open(os.path.join(s, "Canon", f"{c}_canon.csv"), "w") as fh:
                fh.write("".join(f"{a:.1f}, {b:.6f}\n" for a, b in zip(cw, tr)))
        for comp, name in DIRS.items():
            p = os.path.join(s, "ESO_Spectra", name)
            os.makedirs(p)
            ns, keys = nodes(comp)
            nw = NW if spectra else 2
            if short and comp == "lower_atm":
                ns = [n for n in ns if n[0] < 2]
            if comp == "moon" and spectra:
                ns = [n for n in ns if n[0] in (20.0, 180.0) and n[1] in (-5.0, 90.0)]
            dt = [(k, float if k != "hpid" else int) for k in keys] + [("spectra", float, (nw,)), ("mags", float, (6,))]
            rows = np.zeros(len(ns), dt)
            for i, n in enumerate(ns):
                for k, v in zip(keys, n):
                    rows[k][i] = v
                rows["mags"][i] = [node_mag(comp, n, f) for f in range(6)]
                rows["spectra"][i] = 10.0 ** node_logspec(comp, n) if spectra else 1.0
            # one file, or several that continue each other
            cut = {"moon": [0, len(ns) // 2, len(ns)], "airglow": [0, 3, 6, len(ns)]}.get(comp, [0, len(ns)])
            for j, (a, b) in enumerate(zip(cut[:-1], cut[1:])):
                np.savez(os.path.join(p, f"part_{j}.npz"), wave=WAVE if spectra else WAVE[:2], spec=rows[a:b],
                         filterWave=np.array([375.0 + 110 * k for k in range(6)]))
    os.environ["RUBIN_SIM_DATA_DIR"] = d
    from astropy.utils import iers

    iers.conf.auto_download = False
    iers.conf.iers_degraded_accuracy = "ignore"
    return d


# ------------------------------------------------------------- reference
def bracket(x, grid):
    """[(grid value, weight)] of linear interpolation; ends are held."""
    if x <= grid[0]:
        return [(grid[0], 1.0)]
    if x >= grid[-1]:
        return [(grid[-1], 1.0)]
    for a, b in zip(grid[:-1], grid[1:]):
        if a <= x <= b:
            w = (x - a) / (b - a)
            return [(a, 1.0 - w), (b, w)]


def pixels(nside, alt, az, allowed):
    import healpy as hp

    p, w = hp.get_interp_weights(nside, np.array([np.pi / 2 - alt]), np.array([az]))
    pw = [(int(a), float(b)) for a, b in zip(p[:, 0], w[:, 0]) if int(a) in allowed]
    t = sum(b for _, b in pw)
    return [(a, b / t) for a, b in pw] if t else []


def interp(comp, pt, value, seps=SEP, malts=MALT):
    """Weighted sum of value(node); None outside the grids."""
    x = min(pt["airmass"], 3.0)
    if comp == "moon":
        if pt["moon_alt"] < malts[0]:
            return None
        ds = [bracket(pt["moon_sep"], seps), bracket(pt["moon_alt"], malts), pixels(4, pt["alt"], pt["az_moon"], set(moon_pixels()))]
    elif comp == "zodiacal":
        ds = [bracket(x, AMZ), pixels(2, pt["ecl_lat"], pt["ecl_lon_sun"], set(range(48)))]
    elif comp == "airglow":
        if not SF[0] <= pt["solar_flux"] <= SF[-1]:
            return None
        ds = [bracket(x, AM), bracket(pt["solar_flux"], SF)]
    else:
        ds = [bracket(x, AM), [(0.0, 1.0)]]
    tot = 0.0
    for combo in itertools.product(*ds):
        w = np.prod([c[1] for c in combo])
        if w:
            tot = tot + w * value(tuple(c[0] for c in combo))
    return tot


def twi(pt, a):
    """Twilight flux with parameters a."""
    x, az = min(pt["airmass"], 3.0), pt["az_sun"] % (2 * np.pi)
    fl = a[0] * a[4] * 10.0 ** (a[1] * (pt["sun_alt"] + np.radians(12.0)) + a[2] * (x - 1.0))
    if x > 1.0 and np.cos(az) > 0:
        fl *= 10.0 ** (a[3] * np.cos(az) * (x - 1.0))
    return fl


_eq = {}


def twi_parameters():
    """Fit parameters carried over to the Rubin bands in effective wavelength."""
    if not _eq:
        from scipy.interpolate import InterpolatedUnivariateSpline

        from rubin_sim.skybrightness import TwilightInterp

        # effective wavelengths of the bands of the fits, by their definition
        eff = {}
        w = np.arange(305.0, 1145.5, 0.5)
        for k, f in enumerate(FILTERS):
            sb = np.where((w > 320 + 110 * k) & (w < 430 + 110 * k), 0.5, 0.0)
            eff[f] = eff_wave(w, sb)
        step = WAVE[1] - WAVE[0]
        for k, c in enumerate("BGR"):
            cw = np.arange(350.0, 800.0, 10.0)
            tr = np.array([float(f"{t:.6f}") for t in np.exp(-0.5 * ((cw - (470 + 70 * k)) / 25.0) ** 2)])
            grid = WAVE
            eff[c] = eff_wave(grid, np.interp(grid, cw, tr, left=0, right=0))
        names = sorted(FITS, key=lambda f: eff[f])
        par = {f: FITS[f] + [10.0 ** (-0.4 * (DARK[f] - ZP))] for f in FITS}
        for f in FILTERS:
            p = []
            for i in range(4):
                p.append(float(InterpolatedUnivariateSpline([eff[n] for n in names], [par[n][i] for n in names])(eff[f])))
            _eq[f] = p + [10.0 ** (-0.4 * (DARK[f] - ZP))]
        _eq["names"], _eq["eff"], _eq["par"] = names, eff, par
    return _eq


def eff_wave(w, sb):
    """Effective wavelength, weighted by phi = S/lambda."""
    phi = sb / w
    return float(np.sum(phi * w) / np.sum(phi))


def ref_flux(pt, comps, filters, limit):
    """Expected flux of one point in each filter (NaN if not usable)."""
    if not (1.0 <= pt["airmass"] <= limit):
        return [np.nan] * len(filters)
    out = np.zeros(len(filters))
    for c in comps:
        for i, f in enumerate(filters):
            k = FILTERS.index(f)
            if c == "twilight":
                if pt["sun_alt"] > np.radians(15.0):
                    out[i] = np.nan
                elif pt["sun_alt"] >= np.radians(-20.0):
                    out[i] += twi(pt, twi_parameters()[f])
            else:
                m = interp(c, pt, lambda n: node_mag(c, n, k))
                if m is not None:
                    out[i] += 10.0 ** (-0.4 * (m - ZP))
    return out.tolist()


def ref_mags(pts, comps, filters=FILTERS, limit=3.0):
    fl = np.array([ref_flux(p, comps, filters, limit) for p in pts]).reshape(len(pts), len(filters))
    m = -2.5 * np.log10(fl) + ZP
    return {f: m[:, i] for i, f in enumerate(filters)}


def point(airmass=None, alt=None, az=0.0, moon_phase=31.67, moon_alt=45.0, moon_az=0.0, sun_alt=-12.0, sun_az=0.0,
          sun_ecl=0.0, ecl_lon=135.0, ecl_lat=90.0, solar_flux=130.0):
    """A reference point from values in degrees."""
    if alt is None:
        alt = 90.0 - np.degrees(np.arccos(1.0 / airmass)) if airmass >= 1 else np.nan
    else:
        airmass = 1.0 / np.sin(np.radians(alt))
    da = (az - moon_az) % 360.0
    return dict(airmass=airmass, alt=np.radians(alt), az_moon=np.radians(min(da, 360.0 - da)), moon_sep=moon_phase * 1.8,
                moon_alt=moon_alt, sun_alt=np.radians(sun_alt), az_sun=np.radians((az - sun_az) % 360.0),
                ecl_lat=np.radians(ecl_lat), ecl_lon_sun=np.radians((ecl_lon - sun_ecl) % 360.0), solar_flux=solar_flux)


def close(ctx, got, want, what, **kw):
    ok = isinstance(got, dict) and sorted(got) == sorted(want)
    if not ctx.expect(ok, what + ": filters", got=sorted(got) if isinstance(got, dict) else repr(got), want=sorted(want)):
        return False
    return ctx.equal({f: np.asarray(got[f], float) for f in got}, {f: np.asarray(want[f], float) for f in want}, what,
                     rtol=1e-9, atol=1e-7, **kw)


def model(ctx, what="making the model", **k):
    from rubin_sim.skybrightness import SkyModel

    ok, sm = ctx.must(lambda: SkyModel(**k), what=what)
    return sm if ok else None


ALL = {c: True for c in COMPS}


# ------------------------------------------------------------- units
GRID = dict(
    airmass=[1.0, 1.15, 1.3, 1.6, 1.9, 2.2, 2.5, 2.75, 3.0],
    az=[0.0, 40.0, 90.0, 135.0, 180.0, 260.0, 300.0, 359.0],
)


def components(ctx, part, parts):
    """Every subset of components on one object, switched on and off."""
    data_dir(ctx)
    sm = model(ctx, mags=True, **ALL)
    if sm is None:
        return
    pts = list(itertools.product(GRID["airmass"][::2], GRID["az"][::2]))
    am = np.array([p[0] for p in pts])
    az = np.array([p[1] for p in pts])
    el = np.array([(37.0 * i) % 360 for i in range(len(pts))])
    eb = np.array([(23.0 * i) % 150 - 75.0 for i in range(len(pts))])
    for m in range(part, 256, parts):
        comps = [c for i, c in enumerate(COMPS) if m >> i & 1]
        if not ctx.case(comps):
            continue
        for c in COMPS:
            setattr(sm, c, c in comps)
        ok, _ = ctx.must(sm.set_params, airmass=am, azs=az, eclip_lon=el, eclip_lat=eb, moon_az=100.0, sun_az=30.0, what="set_params")
        if not ok or not comps:
            continue
        want = ref_mags([point(airmass=a, az=z, ecl_lon=x, ecl_lat=y, moon_az=100.0, sun_az=30.0) for a, z, x, y in zip(am, az, el, eb)], comps)
        ok, got = ctx.must(sm.return_mags, what="return_mags")
        if ok:
            close(ctx, got, want, "magnitudes are not those of the components that are on")
            ctx.outcome(got["r"][:3])


def fresh(ctx):
    """Objects built with one or two components (or the default ones)."""
    data_dir(ctx)
    sets = [[c] for c in COMPS] + [list(c) for c in itertools.combinations(COMPS, 2)] + [None]
    for comps in sets:
        if not ctx.case(comps):
            continue
        sm = model(ctx, mags=True, **({} if comps is None else {c: c in comps for c in COMPS}))
        if sm is None:
            continue
        on = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"] if comps is None else comps
        az = np.array([10.0, 200.0, 333.0])
        alt = np.array([85.0, 40.0, 25.0])
        ok, _ = ctx.must(sm.set_params, alts=alt, azs=az, moon_az=50.0, sun_alt=-15.0, eclip_lon=80.0, eclip_lat=-20.0, what="set_params")
        if not ok:
            continue
        want = ref_mags([point(alt=a, az=z, moon_az=50.0, sun_alt=-15.0, ecl_lon=80.0, ecl_lat=-20.0) for a, z in zip(alt, az)], on)
        ok, got = ctx.must(sm.return_mags, what="return_mags")
        if ok:
            close(ctx, got, want, "magnitudes")
            ctx.outcome(got["r"])


def grid_params(ctx, comp):
    """One component over the whole product of its parameters, on and off
    the nodes."""
    data_dir(ctx)
    sm = model(ctx, mags=True, **{c: c == comp for c in COMPS})
    if sm is None:
        return
    ax = {
        "moon": dict(moon_phase=[0.0, 11.0, 100 / 9.0, 33.0, 100 / 1.8, 80.0, 100.0], moon_alt=[-6.0, -5.0, 0.0, 20.0, 33.0, 50.0, 89.0], moon_az=[0.0, 77.0, 300.0]),
        "zodiacal": dict(eclip_lon=[0.0, 31.0, 180.0, 359.0], eclip_lat=[-90.0, -44.0, 0.0, 13.0, 88.0], sun_eclip_lon=[0.0, 200.0]),
        "airglow": dict(solar_flux=[49.0, 50.0, 90.0, 130.0, 200.0, 310.0, 311.0]),
        "twilight": dict(sun_alt=[-25.0, -20.1, -20.0, -15.0, -12.0, -5.0, 0.0, 14.9, 16.0], sun_az=[0.0, 91.0, 270.0]),
    }.get(comp, dict(solar_flux=[130.0]))
    names = list(ax)
    pts = list(itertools.product(GRID["airmass"] + [1.0001, 2.9999], GRID["az"]))
    am, az = np.array([p[0] for p in pts]), np.array([p[1] for p in pts])
    ren = {"eclip_lon": "ecl_lon", "eclip_lat": "ecl_lat", "sun_eclip_lon": "sun_ecl"}
    for vals in itertools.product(*ax.values()):
        if not ctx.case(comp, dict(zip(names, vals))):
            continue
        kw = dict(zip(names, vals))
        ok, _ = ctx.must(sm.set_params, airmass=am, azs=az, what="set_params", **kw)
        if not ok:
            continue
        want = ref_mags([point(airmass=a, az=z, **{ren.get(k, k): v for k, v in kw.items()}) for a, z in zip(am, az)], [comp])
        ok, got = ctx.must(sm.return_mags, what="return_mags")
        if ok:
            close(ctx, got, want, "magnitudes")
            ctx.outcome(got["g"][:2])


BAG = [  # alt, az, ecl_lon, ecl_lat
    (80.0, 20.0, 30.0, 10.0),
    (35.0, 190.0, 200.0, -60.0),
    (24.0, 95.0, 275.0, 45.0),  # airmass 2.46
    (16.0, 310.0, 90.0, 5.0),  # airmass 3.6
    (-20.0, 10.0, 10.0, -5.0),  # below the horizon
    (60.0, 250.0, 310.0, 80.0),
]


def orders(ctx, limit, mags_on):
    """Every ordered selection of points: a point has its own value."""
    data_dir(ctx)
    sm = model(ctx, mags=True, airmass_limit=limit, **{c: c in mags_on for c in COMPS})
    if sm is None:
        return
    n = ctx.pick(4, 5)
    seen = 0
    for k in range(1, n + 1):
        for sel in itertools.permutations(range(len(BAG)), k):
            if not ctx.case(limit, list(sel)):
                continue
            pts = [BAG[i] for i in sel]
            ref = [point(alt=p[0], az=p[1], ecl_lon=p[2], ecl_lat=p[3], moon_az=60.0) for p in pts]
            a = np.array(pts).T
            ok, _ = ctx.must(sm.set_params, alts=a[0], azs=a[1], eclip_lon=a[2], eclip_lat=a[3], moon_az=60.0, what="set_params")
            if not ok:
                continue
            ok, got = ctx.must(sm.return_mags, what="return_mags")
            if ok:
                close(ctx, got, ref_mags(ref, mags_on, limit=limit), "a point depends on the other points of the call")
                seen += 1
                ctx.outcome(got["i"], trivial=bool(np.all(np.isnan(got["i"]))))
    ctx.bounds.update(points=n)


def short_grid(ctx, limit):
    """Points in the grid of every component keep their value whatever else
    is asked for: here one component ends at airmass 1.9."""
    data_dir(ctx, short=True)
    on = ["airglow", "lower_atm", "zodiacal", "moon"]
    sm = model(ctx, mags=True, airmass_limit=limit, **{c: c in on for c in COMPS})
    if sm is None:
        return
    for k in range(1, ctx.pick(4, 5) + 1):
        for sel in itertools.permutations(range(len(BAG)), k):
            if not ctx.case(limit, list(sel)):
                continue
            pts = [BAG[i] for i in sel]
            a = np.array(pts).T
            ok, _ = ctx.must(sm.set_params, alts=a[0], azs=a[1], eclip_lon=a[2], eclip_lat=a[3], moon_az=60.0, what="set_params")
            ok, got = ctx.must(sm.return_mags, what="return_mags") if ok else (False, None)
            if not ok:
                continue
            ref = [point(alt=p[0], az=p[1], ecl_lon=p[2], ecl_lat=p[3], moon_az=60.0) for p in pts]
            use = [i for i, r in enumerate(ref) if 1.0 <= r["airmass"] <= 1.9 or not 1.0 <= r["airmass"] <= limit]
            want = ref_mags([ref[i] for i in use], on, limit=limit) if use else {f: np.zeros(0) for f in FILTERS}
            close(ctx, {f: np.asarray(got[f])[use] for f in got}, want, "a point depends on the other points of the call")
            ctx.outcome(got["i"])


MJDS = [59600.05, 59600.15, 59608.3, 59593.2, 59614.98, 59600.7, 59617.2]


def geometry(mjd, lon, lat, az_alt):
    """Reference points at a time, in degrees; from astropy and the fast
    transformations of rubin_scheduler, which are outside this repository."""
    from astropy import units as u
    from astropy.coordinates import AltAz, EarthLocation, SkyCoord, get_body, get_sun
    from astropy.time import Time
    from rubin_scheduler.utils import Site, _approx_alt_az2_ra_dec, _approx_ra_dec2_alt_az

    s = Site("LSST")
    loc = EarthLocation(lat=s.latitude_rad * u.rad, lon=s.longitude_rad * u.rad, height=s.height * u.m)
    t = Time(mjd, format="mjd")
    aa = AltAz(location=loc, obstime=t)
    sun, moon = get_sun(t), get_body("moon", t)
    sa, ma = sun.transform_to(aa), moon.transform_to(aa)
    lon, lat = np.radians(np.asarray(lon, float)), np.radians(np.asarray(lat, float))
    if az_alt:
        alt, az = lat, lon
        ra, dec = _approx_alt_az2_ra_dec(alt, az, s.latitude_rad, s.longitude_rad, mjd)
    else:
        ra, dec = lon, lat
        alt, az = _approx_ra_dec2_alt_az(ra, dec, s.latitude_rad, s.longitude_rad, mjd)
    ecl = SkyCoord(ra=ra * u.rad, dec=dec * u.rad).geocentricmeanecliptic
    sl = sun.geocentricmeanecliptic.lon.rad
    sep = sun.separation(moon).deg
    out = []
    for i in range(len(ra)):
        p = point(alt=np.degrees(alt[i]), az=np.degrees(az[i]), moon_phase=sep / 1.8, moon_alt=ma.alt.deg, moon_az=ma.az.deg,
                  sun_alt=sa.alt.deg, sun_az=sa.az.deg, sun_ecl=np.degrees(sl), ecl_lon=np.degrees(ecl.lon.rad[i]), ecl_lat=np.degrees(ecl.lat.rad[i]))
        out.append(p)
    vals = dict(ra=ra, dec=dec, alts=alt, azs=az, sun_alt=sa.alt.rad, sun_az=sa.az.rad, moon_alt=ma.alt.rad, moon_az=ma.az.rad,
                sun_ra=sun.ra.rad, sun_dec=sun.dec.rad, moon_ra=moon.ra.rad, moon_dec=moon.dec.rad, moon_sun_sep=np.radians(sep),
                moon_phase=sep / 1.8, sun_eclip_lon=sl, eclip_lon=ecl.lon.rad, eclip_lat=ecl.lat.rad,
                airmass=1.0 / np.sin(alt), az_rel_sun=(az - sa.az.rad) % (2 * np.pi),
                az_rel_moon=np.array([q["az_moon"] for q in out]))
    return out, vals


FORMS = {
    "array": lambda v: np.array(v),
    "list": lambda v: list(v),
    "scalar": lambda v: v[0],
    "numpy scalar": lambda v: np.float64(v[0]),
    "size 1": lambda v: np.array(v[:1]),
    "list of 1": lambda v: list(v[:1]),
}


def sky(ctx, part, parts):
    """Positions and times in every form; the three ways to set them."""
    data_dir(ctx)
    on = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"]
    sm = model(ctx, mags=True, airmass_limit=2.6)
    if sm is None:
        return
    azalt = ([10.0, 200.0, 100.0, 320.0], [88.0, 40.0, 24.0, 5.0])
    n = 0
    for mjd, aa, form, deg in itertools.product(MJDS, (False, True), FORMS, (True, False)):
        n += 1
        if n % parts != part:
            continue
        if not ctx.case(mjd, aa, form, deg):
            continue
        _, v = geometry(mjd, *azalt, True)
        lon, lat = azalt if aa else (np.degrees(v["ra"]).tolist(), np.degrees(v["dec"]).tolist())
        one = form not in ("array", "list")
        if one:
            lon, lat = lon[:1], lat[:1]
        ref, vals = geometry(mjd, lon, lat, aa)
        want = ref_mags(ref, on, limit=2.6)
        cv = (lambda x: x) if deg else (lambda x: np.radians(x).tolist())
        F = FORMS[form]
        ok, _ = ctx.must(sm.set_ra_dec_mjd, F(cv(lon)), F(cv(lat)), mjd, degrees=deg, az_alt=aa, what="set_ra_dec_mjd")
        if ok:
            ok, got = ctx.must(sm.return_mags, what="return_mags")
        if ok:
            close(ctx, got, want, "magnitudes at a position and time")
            ok, cvals = ctx.must(sm.get_computed_vals, what="get_computed_vals")
            if ok:
                for k in vals:
                    g = np.asarray(cvals[k], float).ravel()
                    ctx.equal(g, np.asarray(vals[k], float).ravel(), "computed value " + k, rtol=1e-7, atol=1e-7)
                ctx.equal(cvals["solar_flux"], 130.0, "solar flux")
            ctx.outcome(got["z"])
        # the same with alt and az known
        r, d, al, az = (np.degrees(vals[k]).tolist() for k in ("ra", "dec", "alts", "azs"))
        ok, _ = ctx.must(sm.set_ra_dec_alt_az_mjd, *(F(cv(x)) for x in (r, d, al, az)), mjd, degrees=deg, what="set_ra_dec_alt_az_mjd")
        if ok:
            ok, got = ctx.must(sm.return_mags, what="return_mags")
            if ok:
                close(ctx, got, want, "magnitudes with alt and az given")
        # the same with everything given
        c2 = np.degrees if deg else (lambda x: x)
        f2 = (lambda x: np.asarray(x)) if not one else F
        ok, _ = ctx.must(
            sm.set_params, azs=f2(c2(vals["azs"])), alts=f2(c2(vals["alts"])), moon_phase=vals["moon_phase"], moon_alt=c2(vals["moon_alt"]),
            moon_az=c2(vals["moon_az"]), sun_alt=c2(vals["sun_alt"]), sun_az=c2(vals["sun_az"]), sun_eclip_lon=c2(vals["sun_eclip_lon"]),
            eclip_lon=f2(c2(vals["eclip_lon"])), eclip_lat=f2(c2(vals["eclip_lat"])), degrees=deg, what="set_params") if form != "list of 1" else (False, None)
        if ok:
            ok, got = ctx.must(sm.return_mags, what="return_mags")
            if ok:
                close(ctx, got, want, "magnitudes with the conditions given")
                from rubin_scheduler.utils import haversine

                ctx.equal(np.asarray(sm.moon_targ_sep, float).ravel(), haversine(vals["azs"], vals["alts"], vals["moon_az"], vals["moon_alt"]).ravel(),
                          "distance of the points from the moon", rtol=1e-6, atol=1e-7)


def filters(ctx):
    """Filters asked for, in any order."""
    data_dir(ctx)
    on = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"]
    sm = model(ctx, mags=True)
    if sm is None:
        return
    ref, v = geometry(59600.03, [10.0, 200.0], [88.0, 40.0], True)
    lists = [list(p) for k in (1, 2, 3) for p in itertools.permutations(FILTERS, k)] + [list(FILTERS), list("yzirgu"), None]
    for fl in lists:
        for way in ("position", "params"):
            if not ctx.case(fl, way):
                continue
            kw = {} if fl is None else dict(filter_names=fl)
            if way == "position":
                ok, _ = ctx.must(sm.set_ra_dec_mjd, v["ra"], v["dec"], 59600.03, what="set_ra_dec_mjd", **kw)
                want = ref_mags(ref, on, filters=fl or FILTERS)
            else:
                ok, _ = ctx.must(sm.set_params, alts=np.array([50.0, 30.0]), azs=np.array([70.0, 280.0]), sun_alt=-11.0, what="set_params", **kw)
                want = ref_mags([point(alt=a, az=z, sun_alt=-11.0) for a, z in ((50.0, 70.0), (30.0, 280.0))], on, filters=fl or FILTERS)
            if ok:
                ok, got = ctx.must(sm.return_mags, what="return_mags")
                if ok:
                    close(ctx, got, want, "magnitudes in the filters asked for")
                    ctx.outcome({f: float(got[f][0]) for f in got})


OPS = {
    "night": lambda sm: sm.set_ra_dec_mjd([10.0, 200.0], [88.0, 40.0], 59600.15, degrees=True, az_alt=True),
    "night one": lambda sm: sm.set_ra_dec_mjd(120.0, 50.0, 59600.15, degrees=True, az_alt=True),
    "moon": lambda sm: sm.set_ra_dec_mjd([10.0, 200.0], [88.0, 40.0], 59617.2, degrees=True, az_alt=True),
    "day": lambda sm: sm.set_ra_dec_mjd([10.0, 200.0], [88.0, 40.0], 59600.7, degrees=True, az_alt=True),
    "two filters": lambda sm: sm.set_ra_dec_mjd([10.0, 200.0, 31.0], [88.0, 40.0, 60.0], 59608.3, degrees=True, az_alt=True, filter_names=["z", "g"]),
    "params": lambda sm: sm.set_params(airmass=np.array([1.1, 2.0, 1.4]), azs=np.array([0.0, 120.0, 300.0]), filter_names=["i"]),
    "params default": lambda sm: sm.set_params(),
    "params far": lambda sm: sm.set_params(airmass=np.array([5.0, 6.0]), azs=np.array([0.0, 1.0])),
    "far": lambda sm: sm.set_ra_dec_mjd([10.0, 20.0, 30.0], [5.0, 4.0, -10.0], 59600.15, degrees=True, az_alt=True),
    "moon off": lambda sm: setattr(sm, "moon", False),
    "moon on": lambda sm: setattr(sm, "moon", True),
    "twilight off": lambda sm: setattr(sm, "twilight", False),
    "solar flux": lambda sm: sm.set_ra_dec_alt_az_mjd(np.array([10.0]), np.array([-30.0]), np.array([50.0]), np.array([77.0]), 59608.3, degrees=True, solar_flux=200.0),
}
HIST_REF = {
    "night": (59600.15, [10.0, 200.0], [88.0, 40.0], FILTERS),
    "night one": (59600.15, [120.0], [50.0], FILTERS),
    "moon": (59617.2, [10.0, 200.0], [88.0, 40.0], FILTERS),
    "day": (59600.7, [10.0, 200.0], [88.0, 40.0], FILTERS),
    "two filters": (59608.3, [10.0, 200.0, 31.0], [88.0, 40.0, 60.0], "zg"),
}


def history(ctx, part, parts):
    """Sequences of operations on one object: what is returned belongs to the
    last setting."""
    data_dir(ctx)
    depth = ctx.pick(3, 4)
    cache = {}

    def ref(op, comps):
        k = (op, tuple(comps))
        if k not in cache:
            if op in HIST_REF:
                mjd, az, alt, fl = HIST_REF[op]
                cache[k] = ref_mags(geometry(mjd, az, alt, True)[0], comps, filters=fl)
            elif op == "params":
                cache[k] = ref_mags([point(airmass=a, az=z) for a, z in ((1.1, 0.0), (2.0, 120.0), (1.4, 300.0))], comps, filters="i")
            elif op == "params default":
                cache[k] = ref_mags([point(airmass=1.0, az=90.0)], comps)
            elif op == "params far":
                cache[k] = {f: np.full(2, np.nan) for f in FILTERS}
            elif op == "solar flux":
                # the geometry is given: positions of sun and moon at the time
                g, v = geometry(59608.3, [77.0], [50.0], True)
                p = dict(g[0])
                from astropy import units as u
                from astropy.coordinates import SkyCoord

                e = SkyCoord(ra=10.0 * u.deg, dec=-30.0 * u.deg).geocentricmeanecliptic
                p["ecl_lat"], p["ecl_lon_sun"] = e.lat.rad, (e.lon.rad - v["sun_eclip_lon"]) % (2 * np.pi)
                p["solar_flux"] = 200.0
                cache[k] = ref_mags([p], comps)
        return cache[k]

    base = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"]
    sm = model(ctx, mags=True)
    if sm is None:
        return
    import copy

    for i, seq in enumerate(itertools.product(OPS, repeat=depth)):
        if i % parts != part:
            continue
        if not any(not o.startswith(("moon o", "twilight")) for o in seq[-1:]):
            continue
        if not ctx.case(list(seq)):
            continue
        m = copy.copy(sm)
        comps = list(base)
        m.interp_objs = dict(sm.interp_objs)
        good = True
        for op in seq:
            if op == "moon off":
                comps = [c for c in comps if c != "moon"]
            elif op == "moon on":
                comps = [c for c in base if c in comps or c == "moon"]
            elif op == "twilight off":
                comps = [c for c in comps if c != "twilight"]
            if op == "far":
                good = ctx.raises(ValueError, OPS[op], m, what="points with no usable airmass") and good
            else:
                ok, _ = ctx.must(OPS[op], m, what=op)
                good = good and ok
            ctx.transitions += 1
        ctx.state((tuple(comps), seq[-1]))
        if not good or seq[-1] == "far":
            continue
        ok, got = ctx.must(m.return_mags, what="return_mags after " + seq[-1])
        if ok:
            close(ctx, got, ref(seq[-1], comps), "magnitudes after a sequence of settings")
            ctx.outcome((seq[-1], tuple(comps), float(got[sorted(got)[0]][0])))
        ctx.traces += 1


# ------------------------------------------------------------- spectra
def ref_spec(pt, comps, limit=3.0):
    if not (1.0 <= pt["airmass"] <= limit):
        return np.full(NW, np.nan)
    out = np.zeros(NW)
    for c in comps:
        if c == "twilight":
            if pt["sun_alt"] > np.radians(15.0):
                out += np.nan
            elif pt["sun_alt"] >= np.radians(-20.0):
                out += ref_twi_spec(pt)
        else:
            v = interp(c, pt, lambda n: node_logspec(c, n), seps=[20.0, 180.0], malts=[-5.0, 90.0])
            if v is not None:
                out += 10.0**v
    return out


def ref_twi_spec(pt):
    e = twi_parameters()
    names = e["names"]
    y = []
    for f in names:
        y.append(twi(pt, e["par"][f]) / solar_flux(f))
    x = np.array([e["eff"][f] for f in names])
    y = np.array(y)
    r = np.interp(WAVE, x, y)
    b = WAVE < x[0]
    r[b] = y[0] + (WAVE[b] - x[0]) * (y[1] - y[0]) / (x[1] - x[0])
    return r * 1e-9 * (1.0 + 0.3 * np.sin(WAVE / 100.0))


_sol = {}


def solar_flux(f):
    """10**(-0.4 (m - log10(3631))) of the solar spectrum in a band."""
    if not _sol:
        from rubin_sim.phot_utils import Bandpass, Sed

        for k, c in enumerate(FILTERS):
            w = np.arange(305.0, 1145.5, 0.5)
            bp = Bandpass(wavelen=w, sb=np.where((w > 320 + 110 * k) & (w < 430 + 110 * k), 0.5, 0.0))
            _sol[c] = Sed(wavelen=WAVE, flambda=1e-9 * (1.0 + 0.3 * np.sin(WAVE / 100.0))).calc_mag(bp)
        for k, c in enumerate("BGR"):
            cw = np.arange(350.0, 800.0, 10.0)
            tr = np.array([float(f"{t:.6f}") for t in np.exp(-0.5 * ((cw - (470 + 70 * k)) / 25.0) ** 2)])
            bp = Bandpass(wavelen=WAVE, sb=np.interp(WAVE, cw, tr, left=0, right=0))
            _sol[c] = Sed(wavelen=WAVE, flambda=1e-9 * (1.0 + 0.3 * np.sin(WAVE / 100.0))).calc_mag(bp)
    return 10.0 ** (-0.4 * (_sol[f] - ZP))


def spectra(ctx, comps):
    from rubin_sim.phot_utils import Bandpass, Sed

    data_dir(ctx, spectra=True)
    on = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"] if comps is None else comps
    sm = model(ctx, **({} if comps is None else {c: c in comps for c in COMPS}))
    if sm is None:
        return
    band = {
        "wide": Bandpass(wavelen=WAVE, sb=np.where((WAVE > 400) & (WAVE < 900), 0.7, 0.0)),
        "blue": Bandpass(wavelen=WAVE, sb=np.where((WAVE > 320) & (WAVE < 420), 0.3, 0.0)),
    }

    def check(tag, ref):
        want = np.array([ref_spec(p, on) for p in ref])
        ok, ws = ctx.must(sm.return_wave_spec, what="return_wave_spec")
        if not ok:
            return
        ctx.equal(np.asarray(ws[0]), WAVE, "wavelengths", rtol=1e-9)
        if not ctx.expect(ws[1].shape == want.shape, "shape of the spectra", got=ws[1].shape, want=want.shape):
            return
        tol = 2e-4 if "twilight" in on else 1e-9
        bad = ~np.isclose(ws[1], want, rtol=tol, atol=1e-30, equal_nan=True)
        if not ctx.expect(not bad.any(), "spectrum", where=np.argwhere(bad)[:3], got=ws[1][bad][:3], want=want[bad][:3]):
            return
        ctx.outcome(ws[1][:, 100])
        for sel in (["wide", "blue"], ["blue"]):
            ok, mg = ctx.must(sm.return_mags, bandpasses={b: band[b] for b in sel}, what="return_mags with bandpasses")
            if not ok:
                return
            wm = {}
            for b in sel:
                wm[b] = np.full(len(ref), np.nan)
                for i in range(len(ref)):
                    if np.isfinite(want[i]).all():
                        inb = want[i][band[b].sb > 0]
                        wm[b][i] = Sed(wavelen=WAVE, flambda=want[i]).calc_mag(band[b]) if inb.max() > 0 else -666.0
            ok = isinstance(mg, dict) and sorted(mg) == sorted(sel)
            if ctx.expect(ok, "bandpasses returned"):
                if any(np.isnan(p["sun_alt"]) or p["sun_alt"] > np.radians(15) for p in ref) and "twilight" in on:
                    continue
                ctx.equal({b: np.asarray(mg[b], float) for b in sel}, wm, "magnitudes in bandpasses", rtol=1e-5, atol=1e-4)

    sel = [p for k in (1, 2, 3) for p in itertools.permutations(range(len(BAG)), k)]
    if not ctx.thorough:
        sel = [p for p in sel if len(p) == 1 or p[0] in (1, 3)]
    for s in sel:
        if not ctx.case("params", list(s)):
            continue
        pts = [BAG[i] for i in s]
        a = np.array(pts).T
        ref = [point(alt=p[0], az=p[1], ecl_lon=p[2], ecl_lat=p[3], moon_az=60.0, sun_alt=-14.0) for p in pts]
        ok, _ = ctx.must(sm.set_params, alts=a[0], azs=a[1], eclip_lon=a[2], eclip_lat=a[3], moon_az=60.0, sun_alt=-14.0, what="set_params")
        if ok and any(1.0 <= r["airmass"] <= 3.0 for r in ref):
            check("params", ref)
    for mjd in MJDS:
        for az, alt in (([10.0, 200.0], [88.0, 40.0]), ([300.0], [30.0]), ([300.0, 10.0, 45.0], [30.0, 5.0, 70.0])):
            if not ctx.case("time", mjd, az):
                continue
            ref, v = geometry(mjd, az, alt, True)
            ok, _ = ctx.must(sm.set_ra_dec_mjd, np.array(az), np.array(alt), mjd, degrees=True, az_alt=True, what="set_ra_dec_mjd")
            if ok:
                check("time", ref)


def no_coords(ctx):
    """Asking before anything is set is refused, and so are bad requests."""
    data_dir(ctx)
    for what in ("mags", "spec", "spec from mags", "two times", "alt az times"):
        if not ctx.case(what):
            continue
        sm = model(ctx, mags=True)
        if what == "mags":
            ctx.raises(ValueError, sm.return_mags, what="return_mags with nothing set")
        elif what == "spec":
            ctx.raises(ValueError, sm.return_wave_spec, what="return_wave_spec with nothing set")
        elif what == "spec from mags":
            sm.set_ra_dec_mjd(120.0, 50.0, 59600.15, degrees=True, az_alt=True)
            ctx.raises(ValueError, sm.return_wave_spec, what="spectra of a magnitude model")
        elif what == "two times":
            ctx.raises(ValueError, sm.set_ra_dec_mjd, [1.0, 2.0], [0.0, 0.0], [59600.1, 59600.2], what="two times")
        else:
            a = np.array([1.0, 2.0])
            ctx.raises(ValueError, sm.set_ra_dec_alt_az_mjd, a, a, a, a, a, what="two times")


# ------------------------------------------------------------- functions
def formulas(ctx):
    from rubin_sim.skybrightness import id2intid, intid2id, robust_rms, twilight_func, wrap_ra
    from rubin_sim.skybrightness.twilight_func import simple_twi, zenith_twilight

    dt = [("azRelSun", float), ("airmass", float), ("sunAlt", float), ("hpid", int)]
    az = [0.0, 30.0, 89.9, 90.0, 90.1, 180.0, 269.9, 270.0, 270.1, 330.0]
    args = [2.0, 23.0, 0.3, 0.25, 1e-8]
    extra = [-0.1, 0.2, 0.35]
    for ext, cut in itertools.product((False, True), (1.0, 1.1)):
        if not ctx.case("twilight_func", ext, cut):
            continue
        rows = np.array([(np.radians(a), x, np.radians(s), i % 3) for i, (a, x, s) in enumerate(itertools.product(az, [1.0, 1.05, 1.2, 2.0], [-20.0, -12.0, -5.0]))], dt)
        ok, got = ctx.must(lambda: twilight_func(rows, *(args + (extra if ext else [])), amCut=cut), what="twilight_func")
        if not ok:
            continue
        want = []
        for r in rows:
            f = args[0] * args[4] * 10 ** (args[1] * (r["sunAlt"] + np.radians(12)) + args[2] * (r["airmass"] - 1))
            toward = r["azRelSun"] < np.pi / 2 or r["azRelSun"] > 1.5 * np.pi
            if toward and r["airmass"] > cut:
                f *= 10 ** (args[3] * np.cos(r["azRelSun"]) * (r["airmass"] - 1))
            if ext:
                f += args[4] * np.exp(extra[r["hpid"]] * (r["airmass"] - 1))
            want.append(f)
        ctx.equal(np.asarray(got), np.array(want), "twilight flux", rtol=1e-9, atol=0)
        ctx.outcome(got[:3])
    for s in (-20.0, -12.0, 0.0):
        if ctx.case("zenith", s):
            ok, v = ctx.must(zenith_twilight, np.radians(s), *args, what="zenith_twilight")
            if ok:
                ctx.equal(float(v), args[4] + args[0] * args[4] * 10 ** (args[1] * np.radians(s + 12.0)), "twilight at zenith", rtol=1e-12, atol=0)
    for hpids in itertools.product(range(3), repeat=3):
        if not ctx.case("simple_twi", hpids):
            continue
        x = np.array([(0.0, 1.0, np.radians(-10.0 - i), h) for i, h in enumerate(hpids)], dt)
        n = max(hpids) + 1
        a = [5.0] + [1.0 + h for h in range(n)] + [0.1 * (h + 1) for h in range(n)]
        ok, v = ctx.must(simple_twi, x, *a, what="simple_twi")
        if ok:
            ctx.equal(np.asarray(v), np.array([(1.0 + h) * np.exp(5.0 * np.radians(-10.0 - i)) + 0.1 * (h + 1) for i, h in enumerate(hpids)]), "simple_twi")
    for ids in itertools.product((0, 3, 7, 100), repeat=4):
        if not ctx.case("ids", ids):
            continue
        a = np.array(ids)
        ok, v = ctx.must(id2intid, a, what="id2intid")
        if ok:
            u = sorted(set(ids))
            ctx.equal(np.asarray(v[0]), np.array([u.index(i) for i in ids]), "integer ids")
            ok, back = ctx.must(intid2id, v[0], v[2], v[1], what="intid2id")
            if ok:
                ctx.equal(np.asarray(back), a, "ids do not come back")
    for vals in itertools.product((-7.0, -0.1, 0.0, 3.0, 6.3, 13.0), repeat=2):
        if ctx.case("wrap", vals):
            a = np.array(vals)
            ok, v = ctx.must(wrap_ra, a, what="wrap_ra")
            if ok:
                ctx.expect(bool(np.all((v >= 0) & (v <= 2 * np.pi)) and np.allclose(np.cos(v), np.cos(a)) and np.allclose(np.sin(v), np.sin(a))), "angle not wrapped", got=v)
    for k in range(0, 5):
        for vals in itertools.product((0.0, 1.0, 5.0), repeat=k):
            if ctx.case("rms", vals):
                ok, v = ctx.must(robust_rms, np.array(vals), what="robust_rms")
                if ok:
                    s = sorted(vals)
                    q = lambda f: s[int(f * (k - 1))] + (f * (k - 1) % 1) * (s[min(k - 1, int(f * (k - 1)) + 1)] - s[int(f * (k - 1))])  # noqa: E731
                    ctx.equal(float(v), 0.0 if k < 2 else (q(0.75) - q(0.25)) / 1.349, "robust rms")


def fits(ctx):
    """Twilight with fit results of the user: they and the dark sky are used,
    and stay as they were."""
    from rubin_sim.skybrightness import TwilightInterp

    data_dir(ctx)
    names = ["sunAlt", "airmass", "azRelSun"]
    pts = np.array([(np.radians(s), x, np.radians(a)) for s in (-15.0, -11.0) for x in (1.0, 1.4) for a in (0.0, 100.0)], list(zip(names, [float] * 3)))
    for scale, dark in itertools.product((1.0, 3.0), (None, 1.0)):
        if not ctx.case("fits", scale, dark):
            continue
        fr = {k: [v[0] * scale, *v[1:], 7.0] for k, v in FITS.items()}
        dk = None if dark is None else {k: v - dark for k, v in DARK.items()}
        keep = {k: list(v) for k, v in fr.items()}

        def run():
            t = TwilightInterp(mags=True, dark_sky_mags=dk, fit_results=fr)
            return t(pts, filter_names=["r", "u"])["spec"], TwilightInterp(mags=True)(pts, filter_names=["r", "u"])["spec"]

        ok, v = ctx.must(run, what="TwilightInterp")
        if not ok:
            continue
        ctx.equal(np.asarray(v[0]), np.asarray(v[1]) * scale * (1.0 if dark is None else 10 ** (0.4 * dark)), "twilight with given fits", rtol=1e-7, atol=0)
        ctx.equal(fr, keep, "the fit results given were changed")
        want = np.array([[twi(dict(airmass=p["airmass"], az_sun=p["azRelSun"], sun_alt=p["sunAlt"]), twi_parameters()[f]) for f in "ru"] for p in pts])
        ctx.equal(np.asarray(v[1]), want, "twilight", rtol=1e-7, atol=0)
        ctx.outcome(v[0][:2])


def recalc(ctx):
    """recalc_mags replaces the magnitudes by those of the spectra, and
    nothing else, however often it is run."""
    from rubin_sim.phot_utils import Bandpass, Sed
    from rubin_sim.skybrightness import recalc_mags

    w = np.arange(300.0, 1152.0, 2.0)
    tw = np.arange(310.0, 1141.0, 1.0)
    for zero, split, given in ctx.pick([(True, 1, True), (True, 2, False)], list(itertools.product((False, True), (1, 2), (False, True)))):
        if not ctx.case("recalc", zero, split, given):
            continue
        d = os.path.join(ctx.scratch, f"rc{zero}{split}{given}")
        os.makedirs(os.path.join(d, "throughputs/baseline"))
        for k, f in enumerate(FILTERS):
            np.savetxt(os.path.join(d, "throughputs/baseline", f"total_{f}.dat"), np.column_stack([tw, np.where((tw > 320 + 110 * k) & (tw < 430 + 110 * k), 0.5, 0.0)]))
        want = {}
        for name in DIRS.values():
            p = os.path.join(d, "skybrightness/ESO_Spectra", name)
            os.makedirs(p)
            for j in range(split):
                rows = np.zeros(2, [("airmass", float), ("spectra", float, (w.size,)), ("mags", float, (6,))])
                rows["airmass"] = [1.0 + j, 1.5 + j]
                rows["spectra"][0] = 1e-17 * (1 + j + len(name)) * (1 + 0.001 * w)
                rows["spectra"][1] = 0.0 if zero else 2e-17 + 0 * w
                rows["mags"] = 5.0
                fn = os.path.join(p, f"a{j}.npz")
                np.savez(fn, wave=w, spec=rows, filterWave=np.arange(6.0))
                want[fn] = rows
        os.environ["RUBIN_SIM_DATA_DIR"] = d if not given else os.path.join(ctx.scratch, "nowhere")
        if given:
            os.environ["RUBIN_SIM_DATA_DIR"] = d
        bands = [Bandpass(wavelen=tw, sb=np.where((tw > 320 + 110 * k) & (tw < 430 + 110 * k), 0.5, 0.0)) for k in range(6)]
        for rep in range(2):
            ok, _ = ctx.must(recalc_mags, *((d,) if given else ()), what="recalc_mags")
            if not ok:
                break
            for fn, rows in want.items():
                z = np.load(fn)
                ctx.equal(z["wave"], w, "wavelengths changed")
                ctx.equal(z["spec"]["spectra"], rows["spectra"], "spectra changed", atol=0)
                ctx.equal(z["spec"]["airmass"], rows["airmass"], "airmass changed")
                m = np.array([[Sed(wavelen=w, flambda=s).calc_mag(b) if s.max() > 0 else 0.0 for b in bands] for s in rows["spectra"]])
                ctx.equal(z["spec"]["mags"], m, "magnitudes of the spectra", rtol=1e-6)
                ctx.equal(z["filterWave"], np.array([eff_wave(tw, b.sb) for b in bands]), "effective wavelengths", rtol=1e-4)
        ctx.outcome((zero, split))


def files(ctx, mjd0, step):
    """generate_sky: each time is saved or is interpolated within dm."""
    import h5py

    from rubin_sim.skybrightness.generate_hdf5 import generate_sky

    data_dir(ctx)
    on = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"]
    try:
        import rubin_sim.version  # noqa: F401  (written by the build)
    except ImportError:
        import sys
        import types

        import rubin_sim

        rubin_sim.version = sys.modules["rubin_sim.version"] = types.ModuleType("rubin_sim.version")
        rubin_sim.version.__version__ = "0"
    from rubin_scheduler.utils import hpid2_ra_dec

    os.chdir(ctx.scratch)
    combos = ctx.pick([(0.0001, "name"), (0.02, "path"), (5.0, None)] if step > 5 else [(0.02, None)],
                      list(itertools.product((0.0001, 0.02, 5.0), ("name", "path", None))))
    for dm, out in combos:
        if not ctx.case("generate", mjd0, step, dm, out):
            continue
        kw = {"name": dict(outfile="x.h5"), "path": dict(outpath=ctx.scratch), None: {}}[out]
        fn = os.path.join(ctx.scratch, "x.h5" if out == "name" else "%i_%i.h5" % (mjd0, mjd0 + 0.5))
        import contextlib
        import io

        with contextlib.redirect_stdout(io.StringIO()):
            ok, _ = ctx.must(generate_sky, mjd0=mjd0, mjd_max=mjd0 + 0.5, timestep=step, timestep_max=3 * step + 0.1, nside=1, dm=dm, verbose=False, what="generate_sky", **kw)
        if not ok:
            continue
        with h5py.File(fn, "r") as h:
            mj, mags = h["mjds"][:], h["sky_mags"][:]
        os.remove(fn)
        ctx.expect(bool(np.all(np.diff(mj) > 0)) and mj[0] <= mjd0 and mj[-1] >= mjd0 + 0.5 - 0.6, "times saved", first=mj[0], last=mj[-1])
        ctx.expect(mags.shape == (mj.size, 12), "shape of the maps", got=mags.shape)
        ra, dec = hpid2_ra_dec(1, np.arange(12))
        allt = np.arange(mjd0 - 1, mjd0 + 0.5 + step / 1440 + 1, step / 1440)
        nsaved = 0
        for t in allt[:: ctx.pick(4, 1)]:
            ref, v = geometry(t, ra, dec, False)
            if v["sun_alt"] > np.radians(-11.5) + 1e-4:
                ctx.expect(np.abs(mj - t).min() > 1e-9, "a time with the sun up was saved", mjd=t)
                continue
            if v["sun_alt"] > np.radians(-11.5) - 1e-4:
                continue
            want = ref_mags(ref, on, limit=2.5)
            i = int(np.searchsorted(mj, t - 1e-9))
            if i < mj.size and abs(mj[i] - t) < 1e-9:
                nsaved += 1
                ctx.equal({f: mags[f][i] for f in FILTERS}, want, "map at a saved time", rtol=1e-7, atol=1e-6)
            elif ctx.expect(0 < i < mj.size and mj[i] - mj[i - 1] <= (3 * step + 0.1) / 1440 + 1e-9, "a time is not covered by maps near it", mjd=t):
                wt = (t - mj[i - 1]) / (mj[i] - mj[i - 1])
                for f in FILTERS:
                    x = (1 - wt) * mags[f][i - 1] + wt * mags[f][i]
                    dd = np.abs(x - want[f])
                    ctx.expect(bool(np.all((dd <= dm + 1e-6) | np.isnan(dd))), "a map dropped differs from the interpolation by more than dm", mjd=t, diff=np.nanmax(dd))
        ctx.outcome((mj.size, nsaved))


ON = ["moon", "twilight", "airglow", "zodiacal", "merged_spec"]
UNITS = (
    [Unit(f"components-{p}", components, part=p, parts=2) for p in range(2)]
    + [Unit("fresh", fresh)]
    + [Unit(f"grid-{c}", grid_params, comp=c) for c in COMPS]
    + [Unit(f"orders-{lim}-{tag}", orders, limit=lim, mags_on=on) for lim in (1.5, 2.5, 3.0, 4.5) for tag, on in (("default", ON), ("moonless", ["airglow", "lower_atm", "zodiacal"]))]
    + [Unit(f"sky-{p}", sky, part=p, parts=4) for p in range(4)]
    + [Unit(f"short-{lim}", short_grid, limit=lim) for lim in (2.5, 3.0)]
    + [Unit("filters", filters)]
    + [Unit(f"history-{p}", history, part=p, parts=4) for p in range(4)]
    + [Unit("spectra-default", spectra, comps=None), Unit("spectra-sum", spectra, comps=["lower_atm", "upper_atm", "scattered_star", "airglow", "zodiacal"]), Unit("spectra-moon", spectra, comps=["moon"]), Unit("spectra-twilight", spectra, comps=["twilight"])]
    + [Unit("refused", no_coords), Unit("formulas", formulas), Unit("fits", fits), Unit("recalc", recalc), ]
    + [Unit(f"files-{m:.0f}-{st:.0f}", files, mjd0=m, step=st) for m in (59600.2, 59607.2) for st in (5.0, 10.0)]
)
