"""M02: sky slicers return exactly the visits within the search radius."""
import itertools
import math

import healpy as hp
import numpy as np

from mc.core import Unit
from rubin_sim.maf.slicers import HealpixSlicer, HealpixSubsetSlicer, UserPointsSlicer, make_circle_subset_slicer

PROPERTY = "M02"
LEVEL = "exploration"
RULE = (
    "every slice point of the grid x every multiset of pointings from a small sky alphabet (poles, RA wrap, "
    "coincident, just inside and just outside the radius), in degrees and radians and with renamed columns; "
    "non-trivial = some slice point sees at least one visit"
)
ASSUMPTIONS = ["camera footprint switched off (its data file is not installed)", "pointings closer than 1e-7 deg to the radius are not decided"]


def unit(ra, dec):
    return (math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec))


def sep(a, b):
    ax, bx = unit(*a), unit(*b)
    c = np.cross(ax, bx)
    return math.atan2(math.sqrt(float(c @ c)), float(np.dot(ax, bx)))


def data(points, deg, lon="fieldRA", lat="fieldDec"):
    a = np.zeros(len(points), dtype=[(lon, float), (lat, float), ("rotSkyPos", float)])
    f = 1.0 if deg else math.pi / 180
    a[lon] = [p[0] * f for p in points]
    a[lat] = [p[1] * f for p in points]
    return a


def want_idx(centre, pts, radius):
    r = math.radians(radius)
    inn, amb = [], []
    for i, p in enumerate(pts):
        d = sep(centre, (math.radians(p[0]), math.radians(p[1])))
        if abs(d - r) < 2e-9:
            amb.append(i)
        elif d < r:
            inn.append(i)
    return inn, amb


def cmp_slice(ctx, s, centre, pts, radius, label):
    got = sorted(int(i) for i in s["idxs"])
    inn, amb = want_idx(centre, pts, radius)
    ctx.expect(len(set(got)) == len(got), f"{label}: a visit repeated", got=got)
    ctx.equal([g for g in got if g not in amb], inn, f"{label}: visits within the radius", pointings=pts, centre=[math.degrees(c) for c in centre])
    return got


SKY = [(0.0, 0.0), (359.0, 0.0), (1.0, -1.0), (45.0, -40.0), (46.5, -40.0), (180.0, 89.0), (10.0, 90.0), (0.0, -90.0), (200.0, -88.0), (225.0, 41.8), (-1.0, 0.5), (359.9, 0.0)]


def healpix(ctx, nside, radius, deg, leaf, cache):
    ctx.bounds = {"nside": nside, "radius_deg": radius, "degrees": deg, "pointings": SKY}
    M = ctx.pick(2, 3)
    npix = 12 * nside * nside
    th, ph = hp.pix2ang(nside, np.arange(npix))
    for m in range(1, M + 1):
        for pts in itertools.combinations_with_replacement(SKY, m) if m > 1 else [(p,) for p in SKY]:
            if not ctx.case("healpix", nside, radius, deg, pts):
                continue
            sl = HealpixSlicer(nside=nside, use_camera=False, radius=radius, lat_lon_deg=deg, leafsize=leaf, use_cache=cache, verbose=False)
            ok, _ = ctx.must(sl.setup_slicer, data(pts, deg))
            if not ok:
                continue
            ctx.equal(len(sl), npix, "number of pixels")
            tot = []
            for k, s in enumerate(sl):
                sp = s["slice_point"]
                ctx.equal(int(sp["sid"]), k, "slice order")
                c = (float(ph[k]), math.pi / 2 - float(th[k]))
                ctx.expect(sep((float(sp["ra"]), float(sp["dec"])), c) < 1e-9, "slice point is the pixel centre", sp=[sp["ra"], sp["dec"]], c=c)
                g = cmp_slice(ctx, s, c, pts, radius, f"pixel {k}")
                if g:
                    tot.append((k, g))
                if k % 5 == 0:
                    ctx.equal(sorted(int(i) for i in sl[k]["idxs"]), g, "indexing agrees with iterating")
            ctx.outcome(tot, trivial=not tot)


def subset(ctx, nside, radius):
    npix = 12 * nside * nside
    th, ph = hp.pix2ang(nside, np.arange(npix))
    hpids = [[0], [3, 1], list(range(0, npix, 2)), [npix - 1, 0, 5]]
    ctx.bounds = {"nside": nside, "subsets": hpids, "radius": radius}
    for hpid in hpids:
        for m in (1, 2):
            for pts in itertools.combinations_with_replacement(SKY, m):
                if not ctx.case("subset", nside, hpid, pts):
                    continue
                sl = HealpixSubsetSlicer(nside, np.array(hpid), use_camera=False, radius=radius, verbose=False)
                ok, _ = ctx.must(sl.setup_slicer, data(pts, True))
                if not ok:
                    continue
                seen = []
                for s in sl:
                    k = int(s["slice_point"]["sid"])
                    seen.append(k)
                    c = (float(ph[k]), math.pi / 2 - float(th[k]))
                    cmp_slice(ctx, s, c, pts, radius, f"pixel {k}")
                ctx.equal(sorted(seen), sorted(hpid), "exactly the requested pixels are visited")
                for k in range(npix):
                    if k not in hpid and k % 7 == 0:
                        ctx.equal(len(sl[k]["idxs"]), 0, "a pixel outside the subset holds no visits")
                ctx.outcome(seen)


def userpoints(ctx, radius, deg, cols):
    lon, lat = cols
    P = [(0.0, 0.0), (359.5, 0.3), (45.0, -40.0), (77.0, 89.5), (123.0, -89.0)]
    N = ctx.pick(2, 3)
    M = 2
    ctx.bounds = {"user_points": P, "max_points": N, "max_pointings": M}
    near = [((p[0] + dx) % 360.0, max(-90, min(90, p[1] + dy))) for p in P for dx, dy in ((0, 0), (radius * 0.99, 0), (0, radius * 1.01), (0, -radius * 0.99))]
    for n in range(1, N + 1):
        for up in itertools.permutations(P, n):
            for m in range(1, M + 1):
                for pts in itertools.combinations(near, m):
                    if m == 2 and n == 3 and near.index(pts[0]) % 2:
                        continue
                    if not ctx.case("user", up, pts, radius, deg, lon):
                        continue
                    sl = UserPointsSlicer([u[0] for u in up], [u[1] for u in up], lon_col=lon, lat_col=lat, use_camera=False, radius=radius, lat_lon_deg=deg, verbose=False)
                    ok, _ = ctx.must(sl.setup_slicer, data(pts, deg, lon, lat))
                    if not ok:
                        continue
                    ctx.equal(len(sl), n)
                    o = []
                    for k, s in enumerate(sl):
                        c = (math.radians(up[k][0]), math.radians(up[k][1]))
                        ctx.equal([float(s["slice_point"]["ra"]), float(s["slice_point"]["dec"])], list(c), "slice point position")
                        o.append(cmp_slice(ctx, s, c, pts, radius, f"point {k}"))
                    ctx.outcome(o, trivial=not any(o))


def resetup(ctx):
    """The same slicer set up again with other visits uses those visits only."""
    firsts = [(a,) for a in SKY] + list(itertools.combinations(SKY[:7], 2))
    seconds = [(b,) for b in SKY] + list(itertools.combinations(SKY, 2))
    th, ph = hp.pix2ang(1, np.arange(12))
    for a, b in itertools.product(firsts, seconds):
        for kind in ("user", "hp"):
            if not ctx.case("resetup", kind, a, b):
                continue
            if kind == "user":
                sl = UserPointsSlicer([0.0, 45.0], [0.0, -40.0], use_camera=False, radius=2.0, verbose=False)
                cen = [(0.0, 0.0), (math.radians(45), math.radians(-40))]
                r = 2.0
            else:
                sl = HealpixSlicer(nside=1, use_camera=False, radius=50.0, verbose=False)
                cen = [(float(p), math.pi / 2 - float(t)) for p, t in zip(ph, th)]
                r = 50.0
            ctx.must(sl.setup_slicer, data(a, True))
            list(sl)
            ctx.must(sl.setup_slicer, data(b, True))
            n = 0
            for k, s in enumerate(sl):
                cmp_slice(ctx, s, cen[k], b, r, f"point {k}")
                n += 1
            ctx.equal(n, len(cen), "every slice is visited again")
            ctx.outcome([kind, a, b])


def many(ctx):
    """More visits at once (several leaves of the search tree), in two orders."""
    th, ph = hp.pix2ang(1, np.arange(12))
    cen = [(float(p), math.pi / 2 - float(t)) for p, t in zip(ph, th)]
    sizes = ctx.pick([5, 8, 11, 12], [4, 5, 6, 7, 8, 9, 10, 11, 12])
    for m in sizes:
        for pts in itertools.combinations(SKY, m):
            for leaf, rev in ((1, False), (3, True), (100, False)):
                if not ctx.case("many", m, [SKY.index(p) for p in pts], leaf, rev):
                    continue
                q = tuple(reversed(pts)) if rev else pts
                q = q + q[:2]
                sl = HealpixSlicer(nside=1, use_camera=False, radius=45.0, leafsize=leaf, verbose=False)
                if not ctx.must(sl.setup_slicer, data(q, True))[0]:
                    continue
                ctx.outcome([cmp_slice(ctx, s, cen[k], q, 45.0, f"pixel {k}") for k, s in enumerate(sl)])


def circle(ctx):
    """make_circle_subset_slicer keeps the pixels within the radius of the centre."""
    nside = 8
    th, ph = hp.pix2ang(nside, np.arange(12 * nside * nside))
    for cen in SKY:
        for radius in (4.0, 11.0, 25.0):
            if not ctx.case("circle", cen, radius):
                continue
            ok, v = ctx.must(make_circle_subset_slicer, cen[0] % 360, cen[1], radius=radius, nside=nside)
            if not ok:
                continue
            c = (math.radians(cen[0]), math.radians(cen[1]))
            d = [math.degrees(sep((float(p), math.pi / 2 - float(t)), c)) for p, t in zip(ph, th)]
            got = set(int(i) for i in v[0].hpid)
            ctx.expect(all((i in got) == (x <= radius) for i, x in enumerate(d) if abs(x - radius) > 1e-6), "pixels in the circle", got=sorted(got))
            ctx.outcome(sorted(got), trivial=not got)


def equality(ctx):
    """Slicers that would slice the sky differently never compare equal."""
    cfgs = []
    for nside in (1, 2):
        for radius in (5.0, 30.0):
            for lon in ("fieldRA", "ra2"):
                cfgs.append(("hp", nside, radius, lon, None))
                cfgs.append(("sub", nside, radius, lon, (0, 3)))
                cfgs.append(("sub", nside, radius, lon, (3, 5)))
    for up in (((0.0, 0.0),), ((45.0, -40.0),), ((0.0, 0.0), (45.0, -40.0)), ((0.0, 0.0), (45.0, -41.0))):
        for radius in (5.0, 30.0):
            for lon in ("fieldRA", "ra2"):
                cfgs.append(("up", up, radius, lon, None))

    def build(c):
        kw = dict(radius=c[2], lon_col=c[3], use_camera=False, verbose=False)
        if c[0] == "hp":
            return HealpixSlicer(nside=c[1], **kw)
        if c[0] == "sub":
            return HealpixSubsetSlicer(c[1], np.array(c[4]), **kw)
        return UserPointsSlicer([p[0] for p in c[1]], [p[1] for p in c[1]], **kw)

    ctx.bounds = {"configurations": len(cfgs)}
    for a, b in itertools.product(cfgs, cfgs):
        if {a[0], b[0]} == {"hp", "sub"}:
            continue
        if not ctx.case("equality", a, b):
            continue
        x, y = build(a), build(b)
        ok, eq = ctx.must(lambda: (bool(x == y), bool(x != y)), what="comparing slicers")
        if ok:
            ctx.equal(list(eq), [a == b, a != b], "slicer equality follows the slicing configuration")
            ctx.outcome(eq)


UNITS = [
    Unit("circle", circle),
    Unit("equality", equality),
    Unit("hp_2_deg", healpix, nside=2, radius=30.0, deg=True, leaf=100, cache=True),
    Unit("hp_2_rad", healpix, nside=2, radius=16.0, deg=False, leaf=1, cache=False),
    Unit("hp_4_deg", healpix, nside=4, radius=5.0, deg=True, leaf=1, cache=True),
    Unit("hp_1_big", healpix, nside=1, radius=60.0, deg=True, leaf=100, cache=True),
    Unit("hp_16_fov", healpix, nside=16, radius=2.45, deg=True, leaf=100, cache=True, tiers=("thorough",)),
    Unit("subset_2", subset, nside=2, radius=25.0),
    Unit("subset_4", subset, nside=4, radius=9.0),
    Unit("user_deg", userpoints, radius=1.75, deg=True, cols=("fieldRA", "fieldDec")),
    Unit("user_rad", userpoints, radius=2.45, deg=False, cols=("fieldRA", "fieldDec")),
    Unit("user_cols", userpoints, radius=0.5, deg=True, cols=("ra", "dec")),
    Unit("resetup", resetup),
    Unit("many", many),
]
