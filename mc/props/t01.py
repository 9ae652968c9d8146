"""T01: satellite constellations, from orbital elements to streaks and maps."""
import itertools
import os

import numpy as np

from mc.core import Unit

PROPERTY = "T01"
LEVEL = "exploration"
RULE = (
    "all shells of a small alphabet made into elements and read back; all sets and orders of satellites and visits "
    "placed around the true path of a satellite, streaks compared with an independent clipping of that path; histories "
    "of update_mjd; non-trivial = a satellite is lit or a streak is seen"
)
ASSUMPTIONS = [
    "a synthetic ephemeris file gives the Sun; satellites are propagated by skyfield",
    "visits for which a streak starts or ends within 1% of the edge of the field are not compared",
]
MJD0 = 60219.0  # epoch of the default elements: 2023, day 274
ERAD = 6378.1366


# ------------------------------------------------------------- ephemeris
def write_bsp(path):
    """A small SPK file with Sun, Earth-Moon barycentre and Earth."""
    from astropy.coordinates import get_sun
    from astropy.time import Time
    from astropy.utils import iers

    iers.conf.auto_download = False
    iers.conf.iers_degraded_accuracy = "ignore"
    from jplephem.daf import DAF

    jd0 = 2460170.5
    intlen, n, nco = 8.0, 16, 12
    k = 1024
    rec = bytearray(b"\0" * k)
    import struct

    rec[0:8] = b"DAF/SPK "
    rec[8:16] = struct.pack("<ii", 2, 6)
    rec[16:76] = b"synthetic".ljust(60)
    rec[76:88] = struct.pack("<iii", 2, 2, 4 * 128 - 127)
    rec[88:96] = b"LTL-IEEE"
    rec[699:727] = b"FTPSTR:\r:\n:\r\n:\r\0:\x81:\x10\xce:ENDFTP"[:28]
    with open(path, "wb") as f:
        f.write(bytes(rec) + b"\0" * k + b" " * k)
    x = np.cos(np.pi * (np.arange(nco) + 0.5) / nco)
    rows, zero = [], []
    for i in range(n):
        mid = jd0 + intlen * (i + 0.5)
        t = Time(mid + x * intlen / 2, format="jd", scale="tdb")
        s = get_sun(t).cartesian.xyz.to_value("km")
        co = [np.polynomial.chebyshev.chebfit(x, -s[j], nco - 1) for j in range(3)]
        head = [(mid - 2451545.0) * 86400.0, intlen * 43200.0]
        rows.append(np.concatenate([head, *co]))
        zero.append(np.concatenate([head, np.zeros(3 * nco)]))
    tail = [(jd0 - 2451545.0) * 86400.0, intlen * 86400.0, float(2 + 3 * nco), float(n)]
    st, en = tail[0], tail[0] + n * intlen * 86400.0
    with open(path, "r+b") as f:
        d = DAF(f)
        d.fward = d.bward = 2
        d.free = 3 * 128 + 1
        d.write_file_record()
        for name, tg, ce, data in ((b"EMB", 3, 0, rows), (b"SUN", 10, 0, zero), (b"EARTH", 399, 3, zero)):
            d.add_array(name, (st, en, tg, ce, 1, 2), np.concatenate([np.concatenate(data), tail]))


def setup(ctx):
    p = os.path.join(ctx.scratch, "eph")
    if not os.path.isdir(p):
        os.makedirs(p)
        write_bsp(os.path.join(p, "de421.bsp"))
    os.chdir(p)


def sky_objects():
    from rubin_scheduler.utils import Site
    from skyfield.api import load, wgs84

    s = Site("LSST")
    return load.timescale(), wgs84.latlon(s.latitude, s.longitude, s.height)


def sun_vector(mjd):
    from astropy.coordinates import get_sun
    from astropy.time import Time

    return get_sun(Time(mjd, format="mjd", scale="ut1")).cartesian.xyz.to_value("km")


def state(sat, ts, site, mjds):
    """ra, dec, alt, az (radians), lit (None if at the edge of the shadow)."""
    t = ts.ut1_jd(np.asarray(mjds) + 2400000.5)
    pos = sat.at(t)
    topo = pos - site.at(t)
    ra, dec, _ = topo.radec()
    alt, az, _ = topo.altaz()
    lit = []
    xyz = pos.xyz.km
    for i, m in enumerate(np.atleast_1d(mjds)):
        p = xyz[:, i] if xyz.ndim == 2 else xyz
        s = sun_vector(m)
        u = (s - p) / np.linalg.norm(s - p)
        along = -np.dot(p, u)  # distance of the closest point to Earth's centre
        perp = np.linalg.norm(p + along * u)
        if along <= 0 or perp > ERAD + 3:
            lit.append(True)
        elif perp < ERAD - 3:
            lit.append(False)
        else:
            lit.append(None)
    return ra.radians, dec.radians, alt.radians, az.radians, lit


SHELLS = {
    "low": (550, 53.0, 2, 3),
    "polar": (560, 97.6, 1, 4),
    "high": (1200, 87.9, 3, 2),
    "single": (340, 33.0, 4, 1),
    "retro": (604, 148.0, 1, 2),
}


def make(names, **kw):
    from astropy import units as u

    from rubin_sim.satellite_constellations import create_constellation

    sh = [SHELLS[n] for n in names]
    return create_constellation(
        np.array([s[0] for s in sh]) * u.km, np.array([s[1] for s in sh]) * u.deg, np.array([s[2] for s in sh]), np.array([s[3] for s in sh]), **kw
    )


def check_line(line):
    s = sum(int(c) if c.isdigit() else 1 if c == "-" else 0 for c in line[:-1])
    return len(line) == 69 and line[-1] == str(s % 10)


def angle_gap(vals):
    """Sorted gaps of angles on the circle."""
    v = np.sort(np.asarray(vals) % 360.0)
    return np.diff(np.concatenate([v, [v[0] + 360.0]]))


def elements(ctx):
    """Elements of every combination of shells, read back."""
    from skyfield.api import EarthSatellite, load

    ts = load.timescale()
    combos = [c for k in (1, 2, 3) for c in itertools.permutations(SHELLS, k)]
    for names in combos:
        for seed, epoch, label in ((42, 23274.0, "Test"), (7, 25001.5, "a b")):
            if not ctx.case(list(names), seed):
                continue
            ok, tles = ctx.must(make, names, seed=seed, epoch=epoch, name=label, what="create_constellation")
            if not ok:
                continue
            want = sum(SHELLS[n][2] * SHELLS[n][3] for n in names)
            if not ctx.equal(len(tles), want, "number of satellites"):
                continue
            nums, i = [], 0
            for t in tles:
                ln = t.split("\n")
                if not ctx.expect(len(ln) == 3 and check_line(ln[1]) and check_line(ln[2]) and ln[0].startswith(label), "lines of the elements", got=t):
                    break
            else:
                sats = [EarthSatellite(*t.split("\n")[1:], t.split("\n")[0], ts) for t in tles]
                nums = [s.model.satnum for s in sats]
                ctx.expect(len(set(nums)) == len(nums) and all(t.split("\n")[0].endswith(str(s.model.satnum)) for t, s in zip(tles, sats)), "satellite numbers", got=nums)
                for n in names:
                    alt, inc, npl, spp = SHELLS[n]
                    grp = sats[i : i + npl * spp]
                    i += npl * spp
                    mm = np.sqrt(3.986004418e14 / (6378100.0 + alt * 1000.0) ** 3) * 86400 / (2 * np.pi)
                    ctx.equal([s.model.no_kozai * 1440 / (2 * np.pi) for s in grp], [mm] * len(grp), "mean motion", rtol=1e-6)
                    ctx.equal([np.degrees(s.model.inclo) for s in grp], [inc] * len(grp), "inclination", rtol=1e-6)
                    ctx.expect(all(s.model.epochyr == int(epoch // 1000) and abs(s.model.epochdays - epoch % 1000) < 1e-6 for s in grp), "epoch")
                    ra = [np.degrees(s.model.nodeo) % 360 for s in grp]
                    ma = [np.degrees(s.model.mo) % 360 for s in grp]
                    if spp > 1:
                        planes = {}
                        for r, m in zip(ra, ma):
                            planes.setdefault(round(r, 3) % 360, []).append(m)
                        ok = len(planes) == npl and all(len(v) == spp for v in planes.values())
                        ctx.expect(ok, "planes", got=planes)
                        if npl > 1:
                            ctx.equal(angle_gap(list(planes)), np.full(npl, 360.0 / npl), "spacing of planes", atol=0.01)
                        for v in planes.values():
                            ctx.equal(angle_gap(v), np.full(spp, 360.0 / spp), "spacing in a plane", atol=0.01)
                    else:
                        ctx.expect(len(set(np.round(ra, 3))) == npl and len(set(np.round(ma, 3))) == npl, "satellites placed at random coincide", got=(ra, ma))
                ok, again = ctx.must(make, names, seed=seed, epoch=epoch, name=label, what="create_constellation again")
                ctx.equal(again, tles, "the same seed gives the same satellites")
                ctx.outcome(tles[0])


def catalogs(ctx):
    from rubin_sim.satellite_constellations import oneweb_tles, starlink_tles_v1, starlink_tles_v2, sun_alt_limits

    for name, fn, n, alts in (("v1", starlink_tles_v1, 4408, {550, 540, 570, 560}), ("v2", starlink_tles_v2, 29988, {340, 345, 350, 360, 525, 530, 535, 604, 614}), ("oneweb", oneweb_tles, 6372, {1200})):
        if not ctx.case(name):
            continue
        ok, t = ctx.must(fn, what=name)
        if not ok:
            continue
        ctx.equal(len(t), n, "number of satellites of " + name)
        ctx.expect(len({x.split("\n")[0] for x in t}) == n, "names are not distinct")
        bad = [x for x in t if not all(check_line(y) for y in x.split("\n")[1:])]
        ctx.expect(not bad, "lines of the elements", got=bad[:2])
        mm = {round(float(x.split("\n")[2][52:63]), 4) for x in t}
        want = {round(float(np.sqrt(3.986004418e14 / (6378100.0 + a * 1000.0) ** 3) * 86400 / (2 * np.pi)), 4) for a in alts}
        ctx.expect(len(mm) == len(want) and all(min(abs(a - b) for b in want) < 2e-4 for a in mm), "mean motions", got=mm, want=want)
        ctx.outcome((n, t[-1]))
    if ctx.case("limits"):
        ok, v = ctx.must(sun_alt_limits, what="sun_alt_limits")
        if ok:
            ctx.equal(sorted(v), ["oneweb", "slv1", "slv2"], "constellations with limits")
            ctx.expect(all(-90 < x < 0 for x in v.values()), "limits")


# ------------------------------------------------------------- positions
def history(ctx, alt_limit):
    """Positions, and sequences of update_mjd on one object."""
    from rubin_sim.satellite_constellations import Constellation

    setup(ctx)
    ts, site = sky_objects()
    names = ("low", "high", "polar", "retro")
    tles = make(names)
    ok, c = ctx.must(Constellation, tles, alt_limit=alt_limit, what="Constellation")
    if not ok:
        return
    times = [MJD0 + x for x in (0.0, 0.02, 0.05, 0.41, 0.95)]
    sats = [c_sat for c_sat in sat_objects(tles, ts)]
    ref = [[state(s, ts, site, m) for s in sats] for m in times]

    def check(i, c):
        for j, r in enumerate(ref[i]):
            ra, dec, alt, az, lit = r
            if lit[0] is None:
                continue
            ctx.equal(bool(c.illum[j]), lit[0], "lit", sat=j)
            if lit[0]:
                ctx.equal(float(c.altitudes_rad[j]), float(alt), "altitude", atol=1e-6)
                ctx.expect(abs((float(c.azimuth_rad[j]) - float(az) + np.pi) % (2 * np.pi) - np.pi) < 1e-6, "azimuth")
            else:
                ctx.expect(np.isnan(c.altitudes_rad[j]) and np.isnan(c.azimuth_rad[j]), "a satellite in the shadow has a position")
            vis = lit[0] and alt >= np.radians(alt_limit)
            ctx.equal(j in c.visible.tolist(), bool(vis), "visible", sat=j)
        ctx.equal(len(c.visible), len(set(c.visible.tolist())), "visible")

    for seq in [s for k in (1, 2, 3) for s in itertools.product(range(len(times)), repeat=k)]:
        if not ctx.case(alt_limit, list(seq)):
            continue
        for i in seq:
            ok, _ = ctx.must(c.update_mjd, times[i], what="update_mjd")
            ctx.transitions += 1
        if ok:
            check(seq[-1], c)
            ctx.state((seq[-1], tuple(c.visible.tolist())))
            ctx.outcome((seq[-1], c.visible.tolist()), trivial=len(c.visible) == 0)
        ctx.traces += 1
    for sel in [s for k in (1, 2, 3) for s in itertools.permutations(range(len(times)), k)]:
        if not ctx.case("paths", list(sel)):
            continue
        ok, v = ctx.must(c.paths_array, np.array([times[i] for i in sel]), what="paths_array")
        if not ok:
            continue
        ctx.expect(all(x.shape == (len(sats), len(sel)) for x in v), "shape of the paths", got=[x.shape for x in v])
        for a, i in enumerate(sel):
            for j, r in enumerate(ref[i]):
                ctx.equal([float(v[0][j, a]), float(v[1][j, a]), float(v[2][j, a])], [float(r[0]), float(r[1]), float(r[2])], "path", atol=1e-6)
                if r[4][0] is not None:
                    ctx.equal(bool(v[3][j, a]), r[4][0], "lit in paths_array")


def sat_objects(tles, ts):
    from skyfield.api import EarthSatellite

    return [EarthSatellite(t.split("\n")[1], t.split("\n")[2], t.split("\n")[0], ts) for t in tles]


# ------------------------------------------------------------- streaks
def clip(x, y, r):
    """Length of a polyline inside a circle of radius r at the origin."""
    tot = 0.0
    for i in range(len(x) - 1):
        p, d = np.array([x[i], y[i]]), np.array([x[i + 1] - x[i], y[i + 1] - y[i]])
        a, b, c = d @ d, 2 * p @ d, p @ p - r * r
        if a == 0:
            continue
        disc = b * b - 4 * a * c
        if disc <= 0:
            continue
        t0, t1 = (-b - np.sqrt(disc)) / (2 * a), (-b + np.sqrt(disc)) / (2 * a)
        t0, t1 = max(t0, 0.0), min(t1, 1.0)
        if t1 > t0:
            tot += (t1 - t0) * np.sqrt(a)
    return tot


_cache = {}


def streak(key, sat, ts, site, ra0, dec0, mjd, vt, fov, dt, alt_limit):
    """(length in degrees, certain) of the streak of one satellite."""
    k = (key, mjd, vt, dt)
    if k not in _cache:
        ends = state(sat, ts, site, [mjd, mjd + vt / 86400.0])
        n = max(2, int(np.round(vt / dt)))
        t = ts.ut1_jd(np.linspace(mjd, mjd + vt / 86400.0, n) + 2400000.5)
        ra, dec, _ = (sat.at(t) - site.at(t)).radec()
        _cache[k] = (ends, ra.radians, dec.radians)
    ends, ra, dec = _cache[k]
    up = max(ends[2]) > np.radians(alt_limit)
    lit = True if True in ends[4] else None if None in ends[4] else False
    a0, d0 = np.radians(ra0), np.radians(dec0)
    cosc = np.sin(d0) * np.sin(dec) + np.cos(d0) * np.cos(dec) * np.cos(ra - a0)
    if cosc.max() <= 0.1:
        return 0.0, True
    x = np.cos(dec) * np.sin(ra - a0) / cosc
    y = (np.cos(d0) * np.sin(dec) - np.sin(d0) * np.cos(dec) * np.cos(ra - a0)) / cosc
    r = np.radians(fov)
    ln, lo, hi = clip(x, y, r), clip(x, y, r * 0.99), clip(x, y, r * 1.01)
    if hi == 0 or not up or lit is False:
        return 0.0, True
    if lit is None or abs(max(ends[2]) - np.radians(alt_limit)) < 1e-6:
        return ln, False
    return np.degrees(ln), (lo > 0.3 * ln or lo == ln) and lo > 0


def layouts(ctx, ts, site, sats):
    """Visits at and around the path of a lit satellite, and elsewhere."""
    out = []
    for m in [MJD0 + 0.004 * i for i in range(0, 20)] + [MJD0 + 0.35 + 0.004 * i for i in range(15)]:
        for j, s in enumerate(sats):
            ra, dec, alt, az, lit = state(s, ts, site, [m, m + 30 / 86400.0])
            if lit[0] and alt[0] > np.radians(35):
                out.append((j, m))
    return out


def streaks(ctx, fov, limit, part, parts):
    from rubin_sim.satellite_constellations import Constellation

    setup(ctx)
    ts, site = sky_objects()
    names = ("low", "polar", "high", "single", "retro")
    tles = make(names) + make(("low", "high", "polar"), seed=3)
    sats = sat_objects(tles, ts)
    found = layouts(ctx, ts, site, sats)
    ctx.expect(len(found) >= 3, "harness: no lit satellites", n=len(found))
    full = Constellation(tles, alt_limit=limit)
    n = 0
    for (j, m), vt, sub in itertools.product(found[: ctx.pick(4, 10)], (30.0, 15.0, 38.0, 4.0, 2.0), ("all", "one", "reversed")):
        n += 1
        if n % parts != part:
            continue
        mid = state(sats[j], ts, site, [m + vt / 2 / 86400.0])
        ra_m, dec_m = np.degrees(mid[0][0]), np.degrees(mid[1][0])
        visits = []
        for off, pa in itertools.product((0.0, 0.8, 1.6, 1.9, 4.0), (0.0, 90.0, 200.0)):
            d = np.clip(dec_m + off * np.cos(np.radians(pa)), -89.9, 89.9)
            visits.append((float((ra_m + off * np.sin(np.radians(pa)) / np.cos(np.radians(d))) % 360.0), float(d), m))
        visits.append(((ra_m + 180.0) % 360.0, float(dec_m), m))
        visits.append((float(ra_m), float(dec_m), m + 0.03))
        visits.append((float(ra_m), float(dec_m), m + 2.0 / 86400.0))
        idx = list(range(len(sats))) if sub == "all" else [j] if sub == "one" else list(range(len(sats)))[::-1]
        con = full if sub == "all" else Constellation([tles[i] for i in idx], alt_limit=limit)
        sels = {"together": list(range(len(visits))), "reversed": list(range(len(visits)))[::-1], **{f"only {i}": [i] for i in range(len(visits))}}
        for tag, sel in sels.items():
            for form in ("array", "scalar") if tag == "together" else ("array",):
                if not ctx.case(fov, limit, j, round(m, 4), vt, sub, tag, form):
                    continue
                a = np.array([visits[i] for i in sel])
                vtime = np.full(len(sel), vt) if form == "array" else vt
                ok, v = ctx.must(con.check_pointings, a[:, 0], a[:, 1], a[:, 2], vtime, fov_radius=fov, what="check_pointings")
                if not ok:
                    continue
                want = [[streak(i, sats[i], ts, site, *visits[q], vt, fov, 2.0, limit) for i in idx] for q in sel]
                sure = [all(w[1] for w in ws) for ws in want]
                for q, (ws, s) in enumerate(zip(want, sure)):
                    if s:
                        ctx.equal(int(v[1][q]), sum(w[0] > 0 for w in ws), "number of streaks", visit=visits[sel[q]])
                        ctx.equal(float(v[0][q]), float(sum(w[0] for w in ws)), "length of streaks", rtol=0.02, atol=0.01, visit=visits[sel[q]])
                ctx.outcome((np.round(v[0], 3).tolist(), v[1].tolist()), trivial=not np.any(v[1]))


def crossing(ctx, what, part, parts):
    """Visits during which a satellite enters or leaves the shadow, or crosses the altitude limit."""
    from rubin_sim.satellite_constellations import Constellation

    setup(ctx)
    ts, site = sky_objects()
    tles = make(("low", "polar", "high", "retro")) + make(("low", "high", "polar"), seed=3)
    sats = sat_objects(tles, ts)
    mj = MJD0 + np.arange(0, 4.0, 30 / 86400.0)
    t = ts.ut1_jd(mj + 2400000.5)
    sun = sun_vector(mj)
    limit = 20.0
    kinds = {"comes out": [], "goes in": [], "rises": [], "sets": []}
    for j, sat in enumerate(sats):
        pos = sat.at(t)
        alt = np.degrees((pos - site.at(t)).altaz()[0].radians)
        u = sun - pos.xyz.km
        u /= np.linalg.norm(u, axis=0)
        along = -np.sum(pos.xyz.km * u, axis=0)
        perp = np.linalg.norm(pos.xyz.km + along * u, axis=0)
        lit, dark = (along <= 0) | (perp > ERAD + 20), (along > 0) & (perp < ERAD - 20)
        for k in range(len(mj) - 1):
            high = min(alt[k], alt[k + 1]) > limit + 3
            both = lit[k] and lit[k + 1]
            if high and dark[k] and lit[k + 1]:
                kinds["comes out"].append((j, mj[k]))
            if high and lit[k] and dark[k + 1]:
                kinds["goes in"].append((j, mj[k]))
            if both and alt[k] < limit - 0.2 and alt[k + 1] > limit + 0.2:
                kinds["rises"].append((j, mj[k]))
            if both and alt[k] > limit + 0.2 and alt[k + 1] < limit - 0.2:
                kinds["sets"].append((j, mj[k]))
    todo = kinds[what]
    ctx.bounds = {"crossings": {k: len(v) for k, v in kinds.items()}}
    ctx.expect(len(todo) >= 2, "harness: no such crossings", n=len(todo))
    full = Constellation(tles, alt_limit=limit)
    for n, (j, m) in enumerate(todo[: ctx.pick(8, 30)]):
        if n % parts != part:
            continue
        for sub, f in itertools.product(("all", "one"), (0.1, 0.5, 0.9)):
            if not ctx.case(what, j, round(float(m), 6), sub, f):
                continue
            mid = state(sats[j], ts, site, [m + f * 30 / 86400.0])
            ra, dec = float(np.degrees(mid[0][0])) % 360, float(np.degrees(mid[1][0]))
            idx = list(range(len(sats))) if sub == "all" else [j]
            con = full if sub == "all" else Constellation([tles[j]], alt_limit=limit)
            ok, v = ctx.must(con.check_pointings, np.array([ra]), np.array([dec]), np.array([float(m)]), np.array([30.0]), what="check_pointings")
            if not ok:
                continue
            ws = [streak(("x", i), sats[i], ts, site, ra, dec, float(m), 30.0, 1.75, 2.0, limit) for i in idx]
            if all(w[1] for w in ws):
                ctx.equal(int(v[1][0]), sum(w[0] > 0 for w in ws), "number of streaks", visit=[ra, dec, float(m)])
                ctx.equal(float(v[0][0]), float(sum(w[0] for w in ws)), "length of streaks", rtol=0.02, atol=0.01)
            ctx.outcome(np.round(v[0], 3).tolist() + v[1].tolist(), trivial=not np.any(v[1]))


def mixed(ctx):
    """Visit times and times that differ from visit to visit."""
    from rubin_sim.satellite_constellations import Constellation

    setup(ctx)
    ts, site = sky_objects()
    tles = make(("low", "polar", "high")) + make(("low", "high", "polar"), seed=3)
    sats = sat_objects(tles, ts)
    found = layouts(ctx, ts, site, sats)[:4]
    con = Constellation(tles)
    pool = []
    for (j, m), vt in itertools.product(found, (30.0, 10.0)):
        mid = state(sats[j], ts, site, [m + vt / 2 / 86400.0])
        pool.append((float(np.degrees(mid[0][0])) % 360, float(np.degrees(mid[1][0])), m, vt))
    for k in (2, 3):
        for sel in itertools.permutations(range(len(pool)), k):
            if k == 3 and not ctx.thorough and sel[0] > 2:
                continue
            if not ctx.case(list(sel)):
                continue
            a = np.array([pool[i] for i in sel])
            keep = a.copy()
            ok, v = ctx.must(con.check_pointings, a[:, 0], a[:, 1], a[:, 2], a[:, 3], what="check_pointings")
            if not ok:
                continue
            ctx.equal(a, keep, "the visits given were changed")
            for q, i in enumerate(sel):
                ws = [streak(s, sats[s], ts, site, *pool[i], 1.75, 2.0, 20.0) for s in range(len(sats))]
                if all(w[1] for w in ws):
                    ctx.equal(int(v[1][q]), sum(w[0] > 0 for w in ws), "number of streaks", visit=pool[i])
                    ctx.equal(float(v[0][q]), float(sum(w[0] for w in ws)), "length of streaks", rtol=0.02, atol=0.01)
            ctx.outcome(np.round(v[0], 3).tolist(), trivial=not np.any(v[1]))


# ------------------------------------------------------------- observatory
class FakePaths:
    """Satellites on given tracks."""

    def __init__(self, tracks):
        self.tracks, self.calls = tracks, []

    def paths_array(self, mjds):
        self.calls.append(np.array(mjds))
        n, k = len(self.tracks), len(mjds)
        ra, dec, alt = np.zeros((n, k)), np.zeros((n, k)), np.zeros((n, k))
        lit = np.zeros((n, k), bool)
        for i, (r, d, a, li) in enumerate(self.tracks):
            ra[i] = (np.radians(r) + 0.01 * np.arange(k)) % (2 * np.pi)
            dec[i], alt[i] = np.radians(d), np.radians(a)
            lit[i] = [li(q) for q in range(k)]
        return ra, dec, alt, lit


TRACKS = {
    "up": (10.0, -20.0, 50.0, lambda q: True),
    "same place": (10.0, -20.0, 51.0, lambda q: True),
    "low": (200.0, 10.0, 19.0, lambda q: True),
    "dark": (90.0, -60.0, 80.0, lambda q: False),
    "sometimes": (300.0, -45.0, 30.0, lambda q: q % 2 == 0),
}


def observatory(ctx):
    """Maps of the night: every set of satellites, nights and steps."""
    import healpy as hp

    from mc.props.a05 import almanac_dir

    almanac_dir(ctx)
    from rubin_scheduler.scheduler.model_observatory import ModelObservatory as Base
    from rubin_scheduler.site_models import Almanac

    from rubin_sim.satellite_constellations import ModelObservatory, SatelliteAvoidBasisFunction

    seen = {}

    def init(self, *a, **k):
        seen.clear()
        seen.update(k)
        self.nside = k.get("nside") or 32
        self.mjd_start = k["mjd_start"]
        self.mjd = k["mjd_start"]

        class Conditions:
            pass

        self.conditions = Conditions()

    def conditions(self):
        self.conditions.mjd = self.mjd
        return self.conditions

    old = Base.__init__, Base.return_conditions
    Base.__init__, Base.return_conditions = init, conditions
    try:
        alm = Almanac()
        sub = [s for k in (1, 2, 3, 5) for s in itertools.combinations(TRACKS, k)]
        nights = [3, 7]
        for tr, step, nside, base_nside, limit in itertools.product(sub, (1800.0, 3600.0), (4, 8), (None, 16), (20.0, 40.0)):
            if (step == 3600.0) == (nside == 4) and len(tr) > 2:
                continue
            if not ctx.case(list(tr), step, nside, base_nside, limit):
                continue
            fp = FakePaths([TRACKS[t] for t in tr])
            s0 = alm.sunsets
            m0 = float(s0["sun_n12_setting"][nights[0]]) + 0.05
            ok, mo = ctx.must(ModelObservatory, nside=base_nside, mjd_start=m0, sat_nside=nside, satellite_dt=step, constellation=fp, alt_limit=limit, what="ModelObservatory")
            if not ok:
                continue
            ctx.equal(seen.get("nside"), base_nside, "nside given to the observatory")
            seq = [nights[0], nights[1], nights[1], nights[0]]
            for nt in seq:
                m = float(s0["sun_n12_setting"][nt]) + (0.05 if nt == nights[0] else 0.1)
                ok, _ = ctx.must(lambda: setattr(mo, "mjd", m), what="setting the time")
                ok, cond = ctx.must(mo.return_conditions, what="return_conditions") if ok else (False, None)
                ctx.transitions += 1
                if not ok:
                    break
                t = cond.satellite_mjds
                lo, hi = float(s0["sun_n12_setting"][nt]), float(s0["sun_n12_rising"][nt])
                ctx.expect(abs(t[0] - lo) < 1e-9 and t[-1] < hi and t[-1] > hi - 1.01 * step / 86400 and np.allclose(np.diff(t), step / 86400), "times of the maps", night=nt, first=t[0], last=t[-1], lo=lo, hi=hi)
                want = np.zeros((len(t), hp.nside2npix(nside)), int)
                for q in range(len(t)):
                    for r, d, a, li in (TRACKS[x] for x in tr):
                        if li(q) and a >= limit:
                            want[q, hp.ang2pix(nside, np.radians(90.0 - d), (np.radians(r) + 0.01 * q) % (2 * np.pi))] += 1
                ctx.equal(np.asarray(cond.satellite_maps), want, "maps of satellites")
            if not ok:
                continue
            ctx.outcome((tr, int(want.sum())), trivial=want.sum() == 0)
            # the basis function reads these maps
            if tr != sub[0] and len(tr) < 3:
                continue
            for dtm, forecast in itertools.product((-1.0, 0.0, 0.031, 5.0), (10.0, 90.0)):
                cond.mjd = cond.satellite_mjds[0] + dtm
                ok, bf = ctx.must(SatelliteAvoidBasisFunction, nside=4, forecast_time=forecast, smooth_fwhm=3.5, what="SatelliteAvoidBasisFunction")
                ok, v = ctx.must(bf, cond, what="the basis function") if ok else (False, None)
                if not ok:
                    continue
                inw = (cond.satellite_mjds >= cond.mjd) & (cond.satellite_mjds < cond.mjd + forecast / 1440.0)
                if not inw.any():
                    ctx.equal(float(np.max(np.abs(v))), 0.0, "value with no map ahead")
                else:
                    w = hp.ud_grade(hp.smoothing(want[inw].sum(axis=0).astype(float), fwhm=np.radians(3.5)), 4)
                    ctx.equal(np.asarray(v), -np.where(w < 0, 0, w), "basis function", rtol=1e-5, atol=1e-8)
    finally:
        Base.__init__, Base.return_conditions = old


UNITS = (
    [Unit("elements", elements), Unit("catalogs", catalogs), Unit("mixed", mixed), Unit("observatory", observatory)]
    + [Unit(f"history-{a:.0f}", history, alt_limit=a) for a in (20.0, 45.0, 0.0)]
    + [Unit(f"streaks-{f}-{li:.0f}-{p}", streaks, fov=f, limit=li, part=p, parts=3) for f, li in ((1.75, 20.0), (3.0, 60.0)) for p in range(3)]
    + [Unit(f"crossing-{w.replace(' ', '-')}", crossing, what=w, part=0, parts=1) for w in ("comes out", "goes in", "rises", "sets")]
)
