"""O03: which visits see a moving object, and what is recorded of it."""
import itertools
import os

import numpy as np
import pandas as pd

from mc import fakeoorb
from mc.core import Unit

fakeoorb.install()
from rubin_sim.moving_objects import DirectObs, Orbits  # noqa: E402
from rubin_sim.moving_objects.base_obs import BaseObs  # noqa: E402
from rubin_sim.phot_utils import Bandpass, Sed  # noqa: E402

PROPERTY = "O03"
LEVEL = "exploration"
RULE = (
    "every arrangement of visits around the paths of the objects (order in time, pointing, filter, units, footprint, "
    "precomputed positions or none) is observed and compared with the set of visits that contain the object; non-trivial "
    "= at least one observation"
)
ASSUMPTIONS = [
    "the ephemeris engine (pyoorb, not installed) is replaced by an analytic motion with the same interface",
    "the data files (camera footprint, throughputs, SEDs) are synthetic, made in a scratch directory",
    "objects move less than the rough tolerance in one time step",
]
EPOCH = 60000.0
FILTERS = "ugrizy"


def data_dir(ctx):
    d = os.path.join(ctx.scratch, "data")
    if not os.path.isdir(d):
        for s in ("utils", "throughputs/baseline", "movingObjects"):
            os.makedirs(os.path.join(d, s))
        x = np.linspace(-2.0, 2.0, 81)
        im = np.zeros((81, 81), bool)
        im[20:61, 10:71] = True  # 3 by 2 degrees, and a hole
        im[38:43, 50:55] = False
        np.savez(os.path.join(d, "utils", "fov_map.npz"), image=im, x=x)
        w = np.arange(300.0, 1150.5, 0.5)
        for k, f in enumerate(FILTERS):
            sb = np.where((w > 320 + 100 * k) & (w < 430 + 100 * k), 0.5, 0.0)
            np.savetxt(os.path.join(d, "throughputs/baseline", f"total_{f}.dat"), np.column_stack([w, sb]))
        np.savetxt(os.path.join(d, "movingObjects", "harris_V.dat"), np.column_stack([w, np.where((w > 500) & (w < 600), 1.0, 0.0)]))
        np.savetxt(os.path.join(d, "movingObjects", "C.dat"), np.column_stack([w, 1.0 + 0 * w]))
        np.savetxt(os.path.join(d, "movingObjects", "S.dat"), np.column_stack([w, w / 500.0]))
    os.environ["RUBIN_SIM_DATA_DIR"] = d
    return d


def in_camera(ra, dec, ra0, dec0, rot):
    """Independent tangent plane projection onto the synthetic footprint."""
    a, d, a0, d0, r = np.radians([ra, dec, ra0, dec0, rot])
    c = np.sin(d0) * np.sin(d) + np.cos(d0) * np.cos(d) * np.cos(a - a0)
    if c <= 0:
        return False
    x = np.degrees(np.cos(d) * np.sin(a - a0) / c)
    y = np.degrees((np.cos(d0) * np.sin(d) - np.sin(d0) * np.cos(d) * np.cos(a - a0)) / c)
    x, y = x * np.cos(r) - y * np.sin(r), x * np.sin(r) + y * np.cos(r)
    i, j = round((x + 2.0) / 0.05), round((y + 2.0) / 0.05)
    if not (0 <= i < 81 and 0 <= j < 81):
        return False
    if not (20 <= i < 61 and 10 <= j < 71) or (38 <= i < 43 and 50 <= j < 55):
        return False
    return (np.hypot(i * 0.05 - 2.0, j * 0.05 - 2.0)) <= 1.94


def camera_clear(ra, dec, ra0, dec0, rot):
    """The verdict is the same for all points a little around."""
    return len({in_camera(ra + dx, dec + dy, ra0, dec0, rot) for dx in (-0.003, 0, 0.003) for dy in (-0.003, 0, 0.003)}) == 1


def separation(ra, dec, ra0, dec0):
    a, d, a0, d0 = np.radians([ra, dec, ra0, dec0])
    v = np.sin((d - d0) / 2) ** 2 + np.cos(d) * np.cos(d0) * np.sin((a - a0) / 2) ** 2
    return float(np.degrees(2 * np.arcsin(np.sqrt(v))))


def in_rect(ra, dec, ra0, dec0, xt, yt):
    dra = (ra - ra0 + 180) % 360 - 180
    return abs(dec - dec0) <= yt and abs(dra * np.cos(np.radians(dec0))) <= xt


def pointing(ctx):
    """Every position around every pointing, each footprint, both units."""
    data_dir(ctx)
    pts = [(0.0, 0.0), (359.5, -30.0), (0.7, -30.0), (120.0, 60.0), (180.0, -85.0), (45.0, 20.0)]
    offs = [-6.0, -3.1, -2.9, -1.6, -1.2, -0.6, 0.0, 0.3, 0.62, 1.3, 1.8, 3.1, 4.9, 5.2]
    offd = [-3.2, -2.9, -1.8, -1.1, -0.7, 0.0, 0.5, 0.9, 1.2, 1.7, 2.9, 3.1]
    for deg, foot in itertools.product((True, False), ("circle", "rectangle", "camera", "nonsense")):
        for (ra0, dec0), rot in itertools.product(pts, (0.0, 30.0, 90.0) if foot == "camera" else (0.0,)):
            for sizes in ((1.75, 5.0, 3.0), (0.5, 1.0, 2.0)):
                if not ctx.case(deg, foot, ra0, dec0, rot, sizes):
                    continue
                r, xt, yt = sizes
                obs = BaseObs(footprint=foot, r_fov=r, x_tol=xt, y_tol=yt, obs_degrees=deg)
                pos = [((ra0 + dx / np.cos(np.radians(dec0))) % 360, dec0 + dy) for dx in offs for dy in offd]
                pos = [p for p in pos if abs(p[1]) < 89.9]
                eph = np.rec.fromarrays([np.array([p[0] for p in pos]), np.array([p[1] for p in pos])], names=["ra", "dec"])
                od = np.zeros(len(pos), dtype=[("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)])
                cv = (lambda v: v) if deg else np.radians
                od["fieldRA"], od["fieldDec"], od["rotSkyPos"] = cv(ra0), cv(dec0), cv(rot)
                ok, idx = ctx.must(obs.sso_in_fov, eph, od, what="sso_in_fov")
                if not ok:
                    continue
                got = set(int(i) for i in idx)
                ctx.expect(len(got) == len(idx), "an observation reported twice")
                for i, p in enumerate(pos):
                    if foot in ("circle", "nonsense"):
                        s = separation(*p, ra0, dec0)
                        w, clear = s <= r, abs(s - r) > 1e-6
                    elif foot == "rectangle":
                        w = in_rect(*p, ra0, dec0, xt, yt)
                        clear = len({in_rect(p[0] + a, p[1] + b, ra0, dec0, xt, yt) for a in (-1e-6, 0, 1e-6) for b in (-1e-6, 0, 1e-6)}) == 1
                    else:
                        w, clear = in_camera(*p, ra0, dec0, rot), camera_clear(*p, ra0, dec0, rot)
                    if clear and not ctx.expect((i in got) == w, "field of view verdict", pos=p, pointing=(ra0, dec0, rot), want=w):
                        break
                ctx.outcome(sorted(got), trivial=not got)


def trailing(ctx):
    data_dir(ctx)
    obs = BaseObs(footprint="circle")
    vs, ss, ts = (0.0, 0.1, 0.5, 2.0, 30.0), (0.4, 0.7, 1.5), (1.0, 15.0, 30.0, 300.0)
    for s, t in itertools.product(ss, ts):
        if not ctx.case("trail", s, t):
            continue
        for arr in (True, False):
            v = np.array(vs) if arr else vs[3]
            a, b = obs.calc_trailing_losses(v, s, t)
            x = np.asarray(v) * 3600 / 24.0 / 3600 * t / s
            ctx.equal(np.asarray(a), 1.25 * np.log10(1 + 0.761 * x**2 / (1 + 1.162 * x)), "trailing loss of signal")
            ctx.equal(np.asarray(b), 1.25 * np.log10(1 + 0.42 * x**2 / (1 + 0.003 * x)), "trailing loss of detection")
        ctx.outcome((s, t))
    a, b = obs.calc_trailing_losses(2.0, 0.7)
    a2, b2 = obs.calc_trailing_losses(2.0, 0.7, 30.0)
    ctx.equal([float(a), float(b)], [float(a2), float(b2)], "default exposure time")
    # colours
    d = data_dir(ctx)
    for order in itertools.permutations(("C.dat", "S.dat")):
        if not ctx.case("colors", order):
            continue
        o = BaseObs(footprint="circle")
        o.read_filters()
        for name in order + order:
            got = o.calc_colors(name)
            sed = Sed()
            sed.read_sed_flambda(os.path.join(d, "movingObjects", name))

            def mag(path):
                bp = Bandpass()
                bp.read_throughput(path)
                return sed.calc_mag(bp)

            vm = mag(os.path.join(d, "movingObjects", "harris_V.dat"))
            want = {f: mag(os.path.join(d, "throughputs/baseline", f"total_{f}.dat")) - vm for f in FILTERS}
            ctx.equal({k: float(v) for k, v in got.items()}, {k: float(v) for k, v in want.items()}, "colour of an SED", sed=name)


# ------------------------------------------------------------ runs

KINDS = {
    "slow": (0.2, 0.0, 50.0, 40.0, 0.3, 10.0, "C.dat"),
    "wrap": (0.9, 0.0, 60.0, 358.5, 0.9, -20.0, "S.dat"),
    "fast": (2.5, 0.3, 30.0, 100.0, 3.0, 150.0, "C.dat"),
}
COLS = [("observationId", int), ("observationStartMJD", float), ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float), ("seeingFwhmGeom", float), ("visitExposureTime", float), ("fiveSigmaDepth", float), ("night", int), ("band", "<U2")]


def element(k):
    a, e, inc, om, w, m, _ = KINDS[k]
    return np.array([1, a, e, np.radians(inc), np.radians(om), np.radians(w), np.radians(m), 3, EPOCH, 3, 21.0, 0.15])


def orbits_of(names, ids):
    o = Orbits()
    rows = []
    for n, i in zip(names, ids):
        a, e, inc, om, w, m, sed = KINDS[n]
        rows.append(dict(obj_id=i, a=a, e=e, inc=inc, Omega=om, argPeri=w, meanAnomaly=m, epoch=EPOCH, H=21.0, g=0.15, sed_filename=sed))
    o.set_orbits(pd.DataFrame(rows))
    return o


def visits_for(names, layout, deg, scale):
    """Visits on, near and off the paths, in the given order of times."""
    rows = []
    times = {"sorted": [0.1, 0.13, 1.2, 2.9, 5.05], "reversed": [5.05, 2.9, 1.2, 0.13, 0.1], "mixed": [2.9, 0.1, 5.05, 0.13, 1.2], "grid": [1.0, 2.0, 2.5, 3.0, 0.0]}[layout]
    k = 0
    for j, t in enumerate(times):
        mjd = EPOCH + t
        for n in names:
            tr = fakeoorb.truth(element(n), [mjd], scale, "I11", "N")[0]
            for dx, dy in ((0.0, 0.0), (0.9, -0.5), (2.5, 0.0), (0.0, 2.2), (-12.0, 3.0)):
                ra, dec = (tr[1] + dx / np.cos(np.radians(tr[2]))) % 360, tr[2] + dy
                rows.append((1000 + (k * 37) % 101, mjd, ra if deg else np.radians(ra), dec if deg else np.radians(dec), (20.0 * j) if deg else np.radians(20.0 * j), 0.6 + 0.1 * (k % 4), 15.0 * (1 + k % 2), 23.0 + 0.01 * k, 10 + j, FILTERS[(k + j) % 6]))
                k += 1
    return np.array(rows, dtype=COLS)


def colours(ctx):
    data_dir(ctx)
    ref = BaseObs(footprint="circle")
    ref.read_filters()
    return {s: {f: float(v) for f, v in ref.calc_colors(s).items()} for s in ("C.dat", "S.dat")}


def runs(ctx, foot):
    colors = colours(ctx)
    sets = [("slow",), ("wrap", "fast"), ("fast", "slow", "wrap")]
    for names, layout, deg, scale, pre, tstep, r_fov in itertools.product(sets, ("sorted", "reversed", "mixed", "grid"), (True, False), ("TAI", "UTC"), ("none", "full", "short"), (1.0, 0.5), (1.75, 0.7)):
        if scale == "UTC" and (tstep == 0.5 or r_fov == 0.7):
            continue
        if not ctx.thorough and not deg and tstep == 0.5:
            continue
        if ctx.case(foot, names, layout, deg, scale, pre, tstep, r_fov):
            one(ctx, colors, foot, names, layout, deg, scale, pre, tstep, r_fov)


def few(ctx, foot):
    """Every single visit, and every pair of visits, alone."""
    colors = colours(ctx)
    for names, deg, pre in itertools.product([("slow",), ("wrap", "fast")], (True, False), ("none", "full")):
        n = 25 * len(names)
        sels = [(i,) for i in range(n)] + [p for p in itertools.combinations(range(n), 2) if ctx.thorough or (p[0] * 7 + p[1]) % 23 == 0]
        for sel in sels:
            if ctx.case(foot, names, deg, pre, sel):
                one(ctx, colors, foot, names, "sorted", deg, "TAI", pre, 1.0, 1.75, sel)


def one(ctx, colors, foot, names, layout, deg, scale, pre, tstep, r_fov, sel=None):
    sc = {"TAI": 4, "UTC": 1}[scale]
    ids = [12, 5, 8][: len(names)]
    vis = visits_for(names, layout, deg, sc)
    if sel is not None:
        vis = vis[list(sel)]
    keep = vis.copy()
    orb = orbits_of(names, ids)
    obs = DirectObs(footprint=foot, r_fov=r_fov, x_tol=2.0, y_tol=1.0, obs_degrees=deg, obs_time_scale=scale, tstep=tstep, pre_comp_tol=2.5)
    obs.read_filters()
    kw = {}
    if pre != "none":
        mj = np.arange(EPOCH - 1, EPOCH + (8 if pre == "full" else 3), 0.5)
        pos = np.zeros((len(names), len(mj)), dtype=[("ra", float), ("dec", float)])
        for i, n in enumerate(names):
            tr = fakeoorb.truth(element(n), mj, sc, "I11", "N")
            pos["ra"][i], pos["dec"][i] = tr[:, 1], tr[:, 2]
        kw = dict(object_positions=pos, object_mjds=mj)
    ok, res = ctx.must(obs.run, orb, vis, what="DirectObs.run", **kw)
    if not ok:
        return
    ctx.expect(np.array_equal(vis, keep), "the visits handed in changed")
    # expected observations, object by object
    want, open_ = {}, set()
    for n, i in zip(names, ids):
        for v, row in enumerate(vis):
            tr = fakeoorb.truth(element(n), [row["observationStartMJD"]], sc, "I11", "N")[0]
            ra0, dec0, rot = (row["fieldRA"], row["fieldDec"], row["rotSkyPos"]) if deg else np.degrees([row["fieldRA"], row["fieldDec"], row["rotSkyPos"]])
            if foot == "circle":
                s = separation(tr[1], tr[2], ra0, dec0)
                w, clear = s <= r_fov, abs(s - r_fov) > 1e-6
            elif foot == "rectangle":
                w, clear = in_rect(tr[1], tr[2], ra0, dec0, 2.0, 1.0), True
            else:
                w, clear = in_camera(tr[1], tr[2], ra0, dec0, rot), camera_clear(tr[1], tr[2], ra0, dec0, rot)
            if not clear:
                open_.add((i, int(row["observationId"])))
            elif w:
                want[(i, int(row["observationId"]))] = (tr, row, KINDS[n][6])
    got = [(int(r["obj_id"]), int(r["observationId"])) for r in res]
    ctx.expect(len(got) == len(set(got)), "an observation recorded twice")
    if not ctx.equal(sorted(set(got) - open_), sorted(want), "which visits see which object"):
        return
    ctx.expect([o for o, _ in itertools.groupby([g[0] for g in got])] == [i for i in ids if any(g[0] == i for g in got)], "observations are not grouped by object")
    for r in res:
        key = (int(r["obj_id"]), int(r["observationId"]))
        if key not in want:
            continue
        tr, row, sed = want[key]
        vel = np.hypot(tr[3], tr[4])
        x = vel / 24 * row["visitExposureTime"] / row["seeingFwhmGeom"]
        exp = dict(sedname=sed, time=tr[0], ra=tr[1], dec=tr[2], dradt=tr[3], ddecdt=tr[4], phase=tr[5], solarelon=tr[6], helio_dist=tr[7], geo_dist=tr[8], magV=tr[9], velocity=vel, dmag_color=colors[sed][str(row["band"])], dmag_trail=1.25 * np.log10(1 + 0.761 * x**2 / (1 + 1.162 * x)), dmag_detect=1.25 * np.log10(1 + 0.42 * x**2 / (1 + 0.003 * x)))
        for c in ("visitExposureTime", "fiveSigmaDepth", "seeingFwhmGeom", "observationStartMJD", "night", "band"):
            exp[c] = row[c].item()
        for c, w in exp.items():
            g = r[c].item()
            if not ctx.equal(g, w if isinstance(w, (str, int)) else float(w), "value recorded for an observation", col=c, key=key):
                break
    ctx.outcome(got, trivial=not got)


UNITS = [Unit("pointing", pointing), Unit("trailing", trailing)] + [Unit(f"runs_{f}", runs, foot=f) for f in ("circle", "rectangle", "camera")]
UNITS += [Unit(f"few_{f}", few, foot=f) for f in ("circle", "rectangle", "camera")]
