"""M14: each slice point gets the value of the map that was asked for, whatever was read before."""
import contextlib
import io
import itertools
import math
import os
import warnings

import healpy as hp
import numpy as np
from astropy.io import fits

from mc.core import Unit
from rubin_sim.maf import maps as M
from rubin_sim.maf.maps.ebv_3d_hp import ebv_3d_hp, get_x_at_nearest_y
from rubin_sim.maf.maps.ebv_hp import eb_vhp
from rubin_sim.maf.maps.galactic_plane_priority_maps import galplane_priority_map, gp_priority_map_components_to_keys
from rubin_sim.maf.metric_bundles import MetricBundle, MetricBundleGroup
from rubin_sim.maf.metrics import BaseMetric, StarDensityMetric
from rubin_sim.maf.slicers import HealpixSlicer, HealpixSubsetSlicer, UserPointsSlicer

PROPERTY = "M14"
LEVEL = "exploration"
RULE = (
    "every sequence of requests up to a length over an alphabet of map files, resolutions, positions and ways of "
    "looking up, on map files written for the check; non-trivial = the request names a different map than the one before"
)
ASSUMPTIONS = ["map files do not change while a process runs", "extinction does not decrease with distance", "positions are not on pixel edges"]

BANDS7 = ["u", "g", "r", "i", "z", "y", "sum"]
# positions (radians), none on a pixel edge of nside 2, 4, 8 or 64
POINTS = [(0.31, -0.52), (3.3, 0.71), (6.1, -1.49), (1.234, 0.0213), (4.9, 1.38)]


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def value(seed, n):
    """A map in which all pixels differ, and differ from other maps."""
    return 0.01 + ((np.arange(n) * 7919 + seed * 104729) % 100003) / 1000.0


def interp(m, ra, dec):
    ns = hp.npix2nside(len(m))
    pix, w = hp.get_interp_weights(ns, math.pi / 2 - dec, ra)
    return float(sum(float(wi) * float(m[p]) for p, wi in zip(pix, w)))


def near(m, ra, dec):
    """Value of the pixel whose area holds the point; None on the edge of a pixel."""
    ns = hp.npix2nside(len(m))
    c = math.cos(dec)
    v = np.array([c * math.cos(ra), c * math.sin(ra), math.sin(dec)])
    pix = {int(hp.vec2pix(ns, *(v + np.array(d)))) for d in itertools.product((-1e-9, 0, 1e-9), repeat=3)}
    return m[pix.pop()] if len(pix) == 1 else None


class Files:
    """The map files of a check, and what is in them."""

    def __init__(self, root):
        self.root = root
        self.dust, self.d3, self.gp, self.star, self.tri = {}, {}, {}, {}, {}
        seed = 1
        for d in ("A", "default"):
            p = os.path.join(root, "maps", "DustMaps") if d == "default" else os.path.join(root, "dust" + d)
            os.makedirs(p, exist_ok=True)
            for ns in (2, 4):
                m = value(seed, 12 * ns * ns)
                np.savez(os.path.join(p, f"dust_nside_{ns}.npz"), ebvMap=m)
                self.dust[d, ns] = m
                seed += 1
        p = os.path.join(root, "maps", "DustMaps3D")
        os.makedirs(p, exist_ok=True)
        for name, ns, nested, nd in (("a2.fits", 2, False, 5), ("b2.fits", 2, False, 5), ("n2.fits", 2, True, 5), ("c4.fits", 4, False, 3), ("merged_ebv3d_nside64_defaults.fits", 64, False, 2)):
            npix = 12 * ns * ns
            dist = np.array([(20.0 + seed) * (k + 1) ** 4 for k in range(nd)])[None, :] * (1 + value(seed, npix)[:, None] / 1000)
            ebv = np.cumsum(np.stack([value(seed + k + 1, npix) / 100 for k in range(nd)], axis=1), axis=1)
            ring = (dist, ebv)
            if nested:
                order = hp.nest2ring(ns, np.arange(npix))
                dist, ebv = dist[order], ebv[order]
            h = fits.PrimaryHDU(np.arange(npix))
            h.header["NSIDE"] = ns
            h.header["NESTED"] = nested
            fits.HDUList([h, fits.ImageHDU(dist), fits.ImageHDU(ebv)]).writeto(os.path.join(p, name), overwrite=True)
            self.d3[name] = ring
            seed += 10
        for d, alt, names in (("default", False, ("s1", "s2")), ("default", True, ("s1", "s2")), ("P", False, ("s1", "s2", "s3"))):
            p = os.path.join(root, "maps", "GalacticPlanePriorityMaps") if d == "default" else os.path.join(root, "gp" + d)
            os.makedirs(p, exist_ok=True)
            for f in BANDS7:
                cols = []
                for s in names:
                    m = value(seed, 12 * 64 * 64)
                    seed += 1
                    self.gp[d, alt, f, s] = m
                    cols.append(fits.Column(name=s, format="D", array=m))
                t = "alt_" if alt else ""
                fits.HDUList([fits.PrimaryHDU(), fits.BinTableHDU.from_columns(cols)]).writeto(os.path.join(p, f"priority_GalPlane_footprint_{t}map_data_{f}.fits"), overwrite=True)
        for d in ("default", "S"):
            p = os.path.join(root, "maps", "StarMaps") if d == "default" else os.path.join(root, "star" + d)
            os.makedirs(p, exist_ok=True)
            for band in "rg":
                for st in ("", "wdstars_"):
                    ns = 2 if d == "default" else 1
                    nb = 5 if band == "r" else 7
                    m = np.cumsum(np.stack([value(seed + k, 12 * ns * ns) for k in range(nb - 1)], axis=1), axis=1)
                    bins = 15.0 + np.arange(nb) + 0.01 * seed
                    np.savez(os.path.join(p, f"starDensity_{band}_{st}nside_64.npz"), starDensity=m, bins=bins)
                    self.star[d, band, st] = (m, bins)
                    seed += 11
        p = os.path.join(root, "maps", "TriMaps")
        os.makedirs(p, exist_ok=True)
        for band, ns, ext in (("r", 2, True), ("r", 4, True), ("r", 2, False), ("g", 2, True)):
            m = np.cumsum(np.stack([value(seed + k, 12 * ns * ns) for k in range(4)], axis=1), axis=1)
            bins = 14.0 + np.arange(5) + 0.01 * seed
            e = "_ext" if ext else ""
            np.savez(os.path.join(p, f"TRIstarDensity_{band}_nside_{ns}{e}.npz"), starDensity=m, bins=bins)
            self.tri[band, ns, ext] = (m, bins)
            seed += 11


def setup(ctx):
    f = Files(ctx.scratch)
    os.environ["RUBIN_SIM_DATA_DIR"] = ctx.scratch
    return f


def points(k):
    sel = [[0], [0, 1, 2], [4, 3, 2, 1, 0]][k]
    return np.array([POINTS[i][0] for i in sel]), np.array([POINTS[i][1] for i in sel])


def histories(alphabet, n):
    return itertools.chain.from_iterable(itertools.product(range(len(alphabet)), repeat=k) for k in range(1, n + 1))


# ---------------------------------------------------------------- functions
def dust2(ctx, first=None):
    F = setup(ctx)
    alphabet = [(d, ns, how, k) for d in ("A", "default") for ns in (2, 4) for how, k in (("near", 1), ("interp", 1), ("pix", 0), ("near", 0))]
    ctx.bounds = {"requests": alphabet, "length": ctx.pick(3, 4)}
    for seq in histories(alphabet, ctx.pick(3, 4)):
        if not ctx.case("dust", seq):
            continue
        for j in seq:
            d, ns, how, k = alphabet[j]
            m = F.dust[d, ns]
            kw = {} if d == "default" else {"map_path": os.path.join(F.root, "dustA")}
            ra, dec = points(k)
            if how == "pix":
                pix = np.array([3, 0, len(m) - 1, 3])
                ok, got = ctx.must(eb_vhp, ns, pixels=pix, what="dust at pixels", **kw)
                want = [float(m[p]) for p in pix]
            else:
                ok, got = ctx.must(eb_vhp, ns, ra=ra, dec=dec, interp=how == "interp", what="dust at positions", **kw)
                want = [(interp if how == "interp" else near)(m, a, b) for a, b in zip(ra, dec)]
            if ok:
                ctx.transitions += 1
                ctx.equal(np.asarray(got, float).tolist(), [float(w) for w in want], "dust values", request=alphabet[j])
        ctx.outcome(seq, trivial=len({alphabet[j][:2] for j in seq}) < 2)


D3 = [("a2.fits", 2), ("b2.fits", 2), ("n2.fits", 2), ("c4.fits", 4), ("c4.fits", 2), ("a2.fits", 4)]


def dust3(ctx, part=0):
    F = setup(ctx)
    alphabet = [(f, ns, how, k) for f, ns in D3 for how, k in (("near", 1), ("interp", 1), ("pix", 0))] + [("b2.fits", 2, "interp", 3), ("b2.fits", 2, "near", 3), ("missing.fits", 2, "near", 1)]
    n = ctx.pick(3, 4)
    ctx.bounds = {"requests": alphabet, "length": n}
    for q, seq in enumerate(histories(alphabet, n)):
        if q % 4 != part:
            continue
        if not ctx.case("dust3", seq):
            continue
        for j in seq:
            f, ns, how, k = alphabet[j]
            one3(ctx, F, f, ns, how, k)
        ctx.outcome(seq, trivial=len({alphabet[j][0] for j in seq}) < 2)


def one3(ctx, F, f, ns, how, k, path=False):
    name = os.path.join(F.root, "maps", "DustMaps3D", f) if path else f
    if f not in F.d3:
        ctx.raises((Exception,), quiet, ebv_3d_hp, ns, map_file=f, ra=np.array([1.0]), dec=np.array([0.5]), what="a map which does not exist")
        return
    dist, ebv = F.d3[f]
    mns = hp.npix2nside(len(dist))
    if how == "pix":
        pix = np.array([5, 0, 47, 5])
        if ns != mns:
            ctx.raises((Exception,), quiet, ebv_3d_hp, ns, map_file=name, pixels=pix, what="pixel numbers of another resolution")
            return
        ok, got = ctx.must(quiet, ebv_3d_hp, ns, map_file=name, pixels=pix, what="3d dust at pixels")
        want = dist[pix], ebv[pix]
    else:
        if k == 3:
            ra, dec = POINTS[1]
            ras, decs = [ra], [dec]
        else:
            ra, dec = points(k)
            ras, decs = ra, dec
        ok, got = ctx.must(quiet, ebv_3d_hp, ns, map_file=name, ra=ra, dec=dec, interp=how == "interp", what="3d dust at positions")
        if how == "interp":
            want = [np.array([[interp(a[:, i], r, d) for i in range(a.shape[1])] for r, d in zip(ras, decs)]) for a in (dist, ebv)]
        else:
            want = [np.array([near(a, r, d) for r, d in zip(ras, decs)]) for a in (dist, ebv)]
        if k == 3:
            want = [w[0] for w in want]
    if ok:
        ctx.transitions += 1
        for g, w, what in zip(got, want, ("distances", "extinctions")):
            ctx.equal(np.asarray(g, float).tolist(), np.asarray(w, float).tolist(), f"3d dust {what}", map=f, how=how, nside=ns)


def dust3_default(ctx):
    F = setup(ctx)
    ctx.bounds = {"default map of nside 64 and named maps": "all sequences of 3"}
    for seq in itertools.product(range(4), repeat=3):
        if not ctx.case("default", seq):
            continue
        for j in seq:
            if j == 0:
                dist, ebv = F.d3["merged_ebv3d_nside64_defaults.fits"]
                ra, dec = points(2)
                ok, got = ctx.must(quiet, ebv_3d_hp, 64, ra=ra, dec=dec, what="default map")
                if ok:
                    for g, w in zip(got, (dist, ebv)):
                        ctx.equal(np.asarray(g, float).tolist(), [near(w, r, d).tolist() for r, d in zip(ra, dec)], "default 3d map")
            elif j == 1:
                one3(ctx, F, "a2.fits", 2, "near", 1, path=True)
            elif j == 2:
                one3(ctx, F, "c4.fits", 2, "near", 1)
            else:
                ctx.raises((Exception,), quiet, ebv_3d_hp, 16, ra=np.array([1.0]), dec=np.array([0.5]), what="no default map of this resolution")
        ctx.outcome(seq, trivial=len(set(seq)) < 2)


def galplane(ctx):
    F = setup(ctx)
    alphabet = [(d, alt, how) for d, alt in (("default", False), ("default", True), ("P", False)) for how in ("near", "interp", "pix", "keys")]
    n = ctx.pick(2, 3)
    ctx.bounds = {"requests": alphabet, "length": n}
    ra, dec = points(1)
    pix = np.array([40000, 2, 2, 49151])
    cache = {}
    for d, alt, how in alphabet:
        mine = {gp_priority_map_components_to_keys(f, s): m for (dd, aa, f, s), m in F.gp.items() if (dd, aa) == (d, alt)}
        for kk, m in mine.items():
            cache[d, alt, how, kk] = [float(m[p]) for p in pix] if how == "pix" else [float((interp if how == "interp" else near)(m, a, b)) for a, b in zip(ra, dec)]
    for seq in histories(alphabet, n):
        if len(seq) == 3 and len({alphabet[j][:2] for j in seq}) < 2:
            continue
        if not ctx.case("galplane", seq):
            continue
        for j in seq:
            d, alt, how = alphabet[j]
            kw = {"use_alt_maps": alt} if alt else {}
            if d == "P":
                kw["map_path"] = os.path.join(F.root, "gpP")
            keys = sorted(kk for (dd, aa, hh, kk) in cache if (dd, aa, hh) == (d, alt, how))
            if how == "keys":
                ok, got = ctx.must(quiet, galplane_priority_map, get_keys=True, what="names of the maps", **kw)
                if ok:
                    ctx.equal(sorted(got), keys, "names of the maps", request=alphabet[j])
                continue
            a = {"pixels": pix} if how == "pix" else {"ra": ra, "dec": dec, "interp": how == "interp"}
            ok, got = ctx.must(quiet, galplane_priority_map, 64, what="priority maps", **a, **kw)
            if ok and ctx.equal(sorted(got), keys, "maps returned", request=alphabet[j]):
                ctx.transitions += 1
                for kk in keys:
                    ctx.equal(np.asarray(got[kk], float).tolist(), cache[d, alt, how, kk], f"priority {kk}", request=alphabet[j])
        ctx.outcome(seq, trivial=len({alphabet[j][:2] for j in seq}) < 2)


# ---------------------------------------------------------------- slicers
def visits(n=6):
    a = np.zeros(n, dtype=[("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float)])
    a["fieldRA"] = 360.0 * np.arange(n) / n
    a["fieldDec"] = np.linspace(-80, 80, n)
    return a


def visits_at(sl):
    """A visit at every second slice point."""
    a = np.zeros((int(sl.nslice) + 1) // 2, dtype=visits().dtype)
    a["fieldRA"] = np.degrees(sl.slice_points["ra"][::2])
    a["fieldDec"] = np.degrees(sl.slice_points["dec"][::2])
    return a


def mk_slicer(kind):
    if kind.startswith("hp"):
        return HealpixSlicer(nside=int(kind[2:]), use_camera=False, use_cache=False, verbose=False)
    if kind.startswith("sub"):
        ns = int(kind[3:])
        return HealpixSubsetSlicer(ns, np.array([1, 7, 12 * ns * ns - 2]), use_camera=False, use_cache=False, verbose=False)
    n = int(kind[3:])
    p = [POINTS[i % 5] for i in range(n)]
    p = [((r + 0.77 * (i // 5)) % (2 * math.pi), d) for i, (r, d) in enumerate(p)]
    return UserPointsSlicer(np.degrees([a for a, _ in p]), np.degrees([b for _, b in p]), use_camera=False, verbose=False)


GALPOLE = (math.radians(192.85948), math.radians(27.12825), math.radians(122.93192))
_tri = {}


def tri_pixel(ns, ra, dec):
    """Pixel (nested, galactic) whose centre is nearest to a position."""
    if ns not in _tri:
        ag, dg, lc = GALPOLE
        pts = []
        for p in range(12 * ns * ns):
            th, l = hp.pix2ang(ns, p, nest=True)
            b = math.pi / 2 - th
            sd = math.sin(dg) * math.sin(b) + math.cos(dg) * math.cos(b) * math.cos(lc - l)
            y = math.cos(b) * math.sin(lc - l)
            x = math.sin(b) * math.cos(dg) - math.cos(b) * math.sin(dg) * math.cos(lc - l)
            a = ag + math.atan2(y, x)
            d = math.asin(sd)
            pts.append((math.cos(d) * math.cos(a), math.cos(d) * math.sin(a), math.sin(d)))
        _tri[ns] = np.array(pts)
    v = np.array([math.cos(dec) * math.cos(ra), math.cos(dec) * math.sin(ra), math.sin(dec)])
    c = _tri[ns] @ v
    o = np.argsort(c)
    return int(o[-1]) if c[o[-1]] - c[o[-2]] > 1e-6 else None


RX = {"u": 4.8, "g": 3.6, "r": 2.7, "i": 2.0, "z": 1.6, "y": 1.3}


def dmag_dist(dmag, dist, ebv, band):
    m = [5 * math.log10(x) - 5 + RX[band] * e for x, e in zip(dist, ebv)]
    best = min(range(len(m)), key=lambda i: (abs(m[i] - dmag), i))
    far = 10 ** (0.2 * (dmag - RX[band] * ebv[-1]) + 1)
    return max(far, dist[best])


def at_dist(dist, ebv, goal):
    i = min(range(len(dist)), key=lambda i: (abs(dist[i] - goal), i))
    return ebv[i]


def expected(F, spec, kind, sid, ra, dec):
    """{key: value} the map adds at a slice point; None means not decided."""
    what = spec[0]
    hpns = int(kind[2:]) if kind.startswith("hp") else int(kind[3:]) if kind.startswith("sub") else None
    if what == "dust":
        _, d, ns, itp = spec
        if hpns:
            return {"ebv": F.dust[d, hpns][sid]}
        return {"ebv": (interp if itp else near)(F.dust[d, ns], ra, dec)}
    if what == "dust3":
        _, f, ns, itp, band, dpc, dmag = spec
        dist, ebv = F.d3[f]
        if hpns:
            x, e = dist[sid], ebv[sid]
        elif itp:
            x, e = [np.array([interp(a[:, i], ra, dec) for i in range(a.shape[1])]) for a in (dist, ebv)]
        else:
            x, e = near(dist, ra, dec), near(ebv, ra, dec)
        return {"ebv3d_dists": x, "ebv3d_ebvs": e, f"ebv3d_ebv_at_{dpc:.1f}": at_dist(x, e, dpc), f"ebv3d_dist_at_{dmag:.1f}": dmag_dist(dmag, x, e, band)}
    if what == "star":
        _, d, band, st = spec
        m, bins = F.star[d, band, st]
        lf = m[sid] if hpns == hp.npix2nside(len(m)) else near(m, ra, dec)
        return {f"starLumFunc_{band}": lf, f"starMapBins_{band}": bins}
    if what == "tri":
        _, band, ns, ext = spec
        m, bins = F.tri[band, ns, ext]
        p = tri_pixel(ns, ra, dec)
        return {f"starLumFunc_{band}": None if p is None else m[p], f"starMapBins_{band}": bins}
    if what == "gal":
        ag, dg, lc = GALPOLE
        sb = math.sin(dec) * math.sin(dg) + math.cos(dec) * math.cos(dg) * math.cos(ra - ag)
        b = math.asin(sb)
        l = (lc - math.atan2(math.cos(dec) * math.sin(ra - ag), math.sin(dec) * math.cos(dg) - math.cos(dec) * math.sin(dg) * math.cos(ra - ag))) % (2 * math.pi)
        return {"gall": l, "galb": b}
    if what == "gp":
        _, d, itp = spec
        out = {}
        for (dd, aa, f, s), m in F.gp.items():
            if (dd, aa) == (d, False):
                out[f"galplane_priority_{s}:{f}"] = m[sid] if hpns else (interp if itp else near)(m, ra, dec)
        return out


def build(F, spec):
    what = spec[0]
    if what == "dust":
        return M.DustMap(interp=spec[3], nside=spec[2], map_path=None if spec[1] == "default" else os.path.join(F.root, "dustA"))
    if what == "dust3":
        return M.DustMap3D(nside=spec[2], map_file=spec[1], interp=spec[3], filtername=spec[4], dist_pc=spec[5], d_mag=spec[6], r_x=dict(RX))
    if what == "star":
        return M.StellarDensityMap(startype="wdstars" if spec[3] else "allstars", filtername=spec[2], map_dir=None if spec[1] == "default" else os.path.join(F.root, "starS"))
    if what == "tri":
        return M.TrilegalDensityMap(filtername=spec[1], nside=spec[2], ext=spec[3])
    if what == "gal":
        return M.GalCoordsMap()
    if what == "gp":
        return quiet(M.GalacticPlanePriorityMap, interp=spec[2], map_path=None if spec[1] == "default" else os.path.join(F.root, "gpP"))


SPECS = [
    ("dust", "A", 2, False), ("dust", "default", 4, True), ("dust", "default", 2, False),
    ("dust3", "a2.fits", 2, False, "r", 3000, 15.2), ("dust3", "b2.fits", 2, True, "r", 3000, 15.2), ("dust3", "c4.fits", 4, True, "g", 500, 11.0), ("dust3", "n2.fits", 2, False, "u", 4.0, 4.0),
    ("star", "default", "r", ""), ("star", "default", "r", "wdstars_"), ("star", "S", "r", ""), ("star", "default", "g", ""),
    ("tri", "r", 2, True), ("tri", "r", 4, True), ("tri", "r", 2, False), ("tri", "g", 2, True), ("gal",),
]
SLICERS = ["hp2", "hp4", "sub2", "pts1", "pts2", "pts3", "pts5", "pts7", "pts8"]


def fits_in(spec, kind):
    """Maps in pixels come only in the resolution of the file."""
    if kind.startswith("pts"):
        return True
    ns = int(kind[2:] if kind.startswith("hp") else kind[3:])
    if spec[0] == "dust3":
        return {"a2.fits": 2, "b2.fits": 2, "n2.fits": 2, "c4.fits": 4}[spec[1]] == ns
    return True


def check_points(ctx, F, sl, kind, specs):
    """Iterate the slicer: every slice point carries the maps, in order of application."""
    sub = [1, 7, 12 * int(kind[3:]) ** 2 - 2] if kind.startswith("sub") else None
    n = 0
    if kind == "hp64":  # the whole map at once, and some slices
        for spec in specs:
            for (dd, aa, f, s), m in F.gp.items():
                if (dd, aa) == (spec[1], False):
                    ctx.equal(bool(np.array_equal(np.asarray(sl.slice_points[f"galplane_priority_{s}:{f}"], float), m)), True, f"priority map {s}:{f} over the slicer")
    for k in range(int(sl.nslice)):
        if sub is not None and k not in sub:
            continue
        if kind == "hp64" and k % 4999:
            continue
        s = sl[k] if hasattr(type(sl), "__getitem__") else sl._slice_sim_data(k)
        sp = s["slice_point"]
        sid = int(sp["sid"])
        want = {}
        for spec in specs:
            want.update(expected(F, spec, kind, sid, float(sp["ra"]), float(sp["dec"])))
        for key, w in want.items():
            if w is None:
                continue
            if not ctx.expect(key in sp, f"{key} is there", slicer=kind):
                continue
            tol = 1e-5 if key in ("gall", "galb") else 1e-9
            ctx.equal(np.asarray(sp[key], float).tolist(), np.asarray(w, float).tolist(), f"{key} at a slice point", rtol=tol, atol=tol if tol > 1e-6 else 1e-12, slicer=kind, sid=sid, maps=specs)
        n += 1
    return n


def singles(ctx, kind):
    F = setup(ctx)
    ctx.bounds = {"slicer": kind, "maps": SPECS}
    combos = [(a,) for a in SPECS] + list(itertools.permutations(SPECS, 2))
    for specs in combos:
        if not all(fits_in(s, kind) for s in specs):
            continue
        if not ctx.case(kind, specs):
            continue
        sl = mk_slicer(kind)
        ok, _ = ctx.must(quiet, lambda: sl.setup_slicer(visits(), maps=[build(F, s) for s in specs]), what="setting up with maps")
        if ok:
            n = check_points(ctx, F, sl, kind, specs)
            ctx.transitions += n
        ctx.outcome([kind, specs], trivial=len(specs) < 2)


def resetup(ctx, kind):
    """One slicer and map objects used again and again."""
    F = setup(ctx)
    pool = [s for s in SPECS if fits_in(s, kind)]
    ctx.bounds = {"slicer": kind, "maps": pool, "rounds": 3}
    for a, b in itertools.permutations(pool, 2):
        if not ctx.case(kind, a, b):
            continue
        sl, ma, mb = mk_slicer(kind), None, None
        ok, ms = ctx.must(quiet, lambda: (build(F, a), build(F, b)), what="maps")
        if not ok:
            continue
        for rnd, (spec, m) in enumerate(((a, ms[0]), (b, ms[1]), (a, ms[0]))):
            ok, _ = ctx.must(quiet, sl.setup_slicer, visits(6 + rnd), maps=[m], what="setting up again")
            if ok:
                ctx.transitions += check_points(ctx, F, sl, kind, [spec])
        ctx.outcome([kind, a, b], trivial=False)


def gpmaps(ctx, kind):
    F = setup(ctx)
    pool = [("gp", "default", False), ("gp", "P", False), ("gp", "P", True), ("dust", "default", 2, False)]
    ctx.bounds = {"slicer": kind, "maps": pool}
    for seq in itertools.product(pool, repeat=2):
        if kind.startswith("pts") is False and any(s[0] != "gp" for s in seq):
            continue
        if not ctx.case(kind, seq):
            continue
        for spec in seq:
            sl = mk_slicer(kind)
            ok, _ = ctx.must(quiet, lambda: sl.setup_slicer(visits(), maps=[build(F, spec)]), what="setting up with maps")
            if ok:
                ctx.transitions += check_points(ctx, F, sl, kind, [spec])
        ctx.outcome([kind, seq], trivial=False)


# ---------------------------------------------------------------- helpers
def dmag(ctx):
    F = setup(ctx)
    ctx.bounds = {"maps": list(F.d3)[:4], "dmag": [-5, 0, 3, 5, 8, 11.0, 15.2, 25], "bands": list("ugrizy"), "pixels": "first 6"}
    for name in list(F.d3)[:4]:
        dist, ebv = F.d3[name]
        for band, dm in itertools.product("ugrizy", [-5, 0, 3, 5, 8, 11.0, 15.2, 25]):
            if not ctx.case(name, band, dm):
                continue
            m = M.DustMap3D(r_x=dict(RX), filtername=band)
            other = M.DustMap3D(r_x=dict(RX), filtername="y" if band != "y" else "u")
            want = [dmag_dist(dm, dist[i], ebv[i], band) for i in range(6)]
            for rows in (6, 2, 1):
                for mm, kw in ((m, {}), (other, {"filtername": band})):
                    ok, got = ctx.must(mm.distance_at_dmag, dm, dist[:rows], ebv[:rows], what="distance at magnitude", **kw)
                    if ok:
                        ctx.equal(np.asarray(got).tolist(), want[:rows], "distance at magnitude over a map", rtol=1e-9)
            ok, got = ctx.must(m.distance_at_dmag, dm, dist[3], ebv[3], what="distance at magnitude at a point")
            if ok:
                ctx.equal(float(got), want[3], "distance at magnitude at a point", rtol=1e-9)
            ctx.outcome([name, band, dm, want[0]], trivial=False)
    vals = [0.0, 1.0, 2.5, 4.0]
    for x in itertools.product(vals, repeat=3):
        for goal in (-1.0, 0.4, 0.6, 2.5, 9.0):
            if not ctx.case("nearest", x, goal):
                continue
            y = [10.0, 20.0, 30.0]
            i = min(range(3), key=lambda k: (abs(x[k] - goal), k))
            ok, got = ctx.must(get_x_at_nearest_y, np.array(x), np.array(y), goal)
            if ok:
                ctx.equal([float(got[0]), float(got[1])], [x[i], y[i]], "nearest in one dimension")
            for rows in (1, 3):
                x2 = np.array([x] + [list(x[::-1])] * (rows - 1))
                y2 = np.array([y] * rows)
                ok, got = ctx.must(get_x_at_nearest_y, x2, y2, goal)
                if ok:
                    r = x[::-1]
                    i2 = min(range(3), key=lambda k: (abs(r[k] - goal), k))
                    ctx.equal([np.asarray(got[0]).tolist(), np.asarray(got[1]).tolist()], [[x[i]] + [r[i2]] * (rows - 1), [y[i]] + [y[i2]] * (rows - 1)], "nearest over a map")
            ctx.outcome([x, goal], trivial=False)


# ---------------------------------------------------------------- groups
class Key(BaseMetric):
    """One number made of what the maps put at the slice point."""

    def __init__(self, key, **kw):
        self.key = key
        super().__init__(col=["fieldRA"], metric_name=kw.pop("metric_name", "key"), units="", **kw)

    def run(self, data_slice, slice_point=None):
        return float(np.sum(np.asarray(slice_point[self.key], float)))


GROUPS = {
    "stars": [("star", "default", "r", ""), ("star", "default", "r", "wdstars_"), ("star", "S", "r", ""), ("star", "default", "g", ""), ("tri", "r", 2, True), ("tri", "r", 4, True)],
    "dust": [("dust", "A", 2, False), ("dust", "default", 2, False), ("dust", "default", 2, True), ("dust", "default", 4, False), ("dust3", "a2.fits", 2, False, "r", 3000, 15.2), ("dust3", "b2.fits", 2, False, "r", 3000, 15.2), ("dust3", "b2.fits", 2, False, "g", 3000, 15.2)],
}


def group(ctx, which, how, kind):
    F = setup(ctx)
    pool = GROUPS[which]
    n = ctx.pick(3, 4)
    ctx.bounds = {"maps": pool, "together": n, "slicer": kind, "given by": how}
    for specs in itertools.chain.from_iterable(itertools.permutations(pool, k) for k in range(1, n + 1)):
        if not all(fits_in(s, kind) for s in specs):
            continue
        if not ctx.case(which, how, kind, specs):
            continue
        bundles = {}
        for i, s in enumerate(specs):
            key = {"star": f"starLumFunc_{s[2]}", "tri": f"starLumFunc_{s[1]}", "dust": "ebv", "dust3": "ebv3d_dist_at_15.2"}[s[0]]
            if how == "metric":
                b = MetricBundle(Key(key, metric_name=f"m{i}", maps=[build(F, s)]), mk_slicer(kind), "", run_name="r", plot_funcs=[])
            elif how == "bundle":
                b = MetricBundle(Key(key, metric_name=f"m{i}"), mk_slicer(kind), "", run_name="r", maps_list=[build(F, s)], plot_funcs=[])
            else:  # the bundle's own choice goes before what the metric would take
                o = pool[0] if s[0] == pool[0][0] else s
                b = MetricBundle(Key(key, metric_name=f"m{i}", maps=[build(F, o)] if o[0] == s[0] and build(F, o).keynames == build(F, s).keynames else []), mk_slicer(kind), "", run_name="r", maps_list=build(F, s), plot_funcs=[])
            bundles[f"b{i}"] = b
        g = MetricBundleGroup(bundles, None, out_dir=ctx.scratch, results_db=None, verbose=False, save_early=False)
        ok, _ = ctx.must(quiet, g.run_current, "", sim_data=visits_at(mk_slicer(kind)), what="running the metrics")
        if not ok:
            continue
        for i, s in enumerate(specs):
            sl = mk_slicer(kind)
            sl.setup_slicer(visits_at(sl))
            mv = bundles[f"b{i}"].metric_values
            want, got = [], []
            for k, sp in enumerate(sl):
                if not len(sp["idxs"]):
                    want.append(None)
                else:
                    e = expected(F, s, kind, k, float(sl.slice_points["ra"][k]), float(sl.slice_points["dec"][k]))
                    e = e[bundles[f"b{i}"].metric.key]
                    if e is None:
                        continue
                    want.append(float(np.sum(e)))
                got.append(None if np.ma.getmaskarray(mv)[k] else float(mv.data[k]))
            ctx.expect(any(w is not None for w in want), "some slice has a value")
            ctx.equal(got, want, "metric values of a bundle run together with others", map=s, together=specs)
        ctx.outcome([which, how, specs], trivial=len(specs) < 2)


def density(ctx):
    """The star density metric: the map's cumulative counts at a magnitude, per square arcsecond."""
    F = setup(ctx)
    ctx.bounds = {"maps": "4 star maps", "magnitudes": [10, 17.3, 18, 30], "slicers": ["hp2", "pts1", "pts5"]}
    for kind in ("hp2", "pts1", "pts5"):
        for sp in [("star", "default", "r", ""), ("star", "default", "r", "wdstars_"), ("star", "S", "r", ""), ("star", "S", "g", "")]:
            for mag in (10, 17.3, 18.0, 30):
                if not ctx.case(kind, sp, mag):
                    continue
                sl = mk_slicer(kind)
                v = visits_at(sl)
                b = MetricBundle(StarDensityMetric(mag_limit=mag, filtername=sp[2]), sl, "", run_name="r", maps_list=[build(F, sp)], plot_funcs=[])
                g = MetricBundleGroup({"b": b}, None, out_dir=ctx.scratch, results_db=None, verbose=False, save_early=False)
                ok, _ = ctx.must(quiet, g.run_current, "", sim_data=v, what="star density")
                if not ok:
                    continue
                for k in range(int(sl.nslice)):
                    if np.ma.getmaskarray(b.metric_values)[k]:
                        continue
                    e = expected(F, sp, kind, k, float(sl.slice_points["ra"][k]), float(sl.slice_points["dec"][k]))
                    x, y = e[f"starMapBins_{sp[2]}"][1:], e[f"starLumFunc_{sp[2]}"]
                    if y is None:
                        continue
                    if mag <= x[0]:
                        w = 0.0 if mag < x[0] else float(y[0])
                    elif mag >= x[-1]:
                        w = float(y[-1]) if mag == x[-1] else None
                    else:
                        i = max(j for j in range(len(x)) if x[j] <= mag)
                        w = y[i] + (y[i + 1] - y[i]) * (mag - x[i]) / (x[i + 1] - x[i])
                    if w is not None and mag > x[0]:
                        ctx.equal(float(b.metric_values.data[k]), w / 3600**2, "star density", rtol=1e-9, magnitude=mag)
                ctx.outcome([kind, sp, mag], trivial=False)


UNITS = [Unit("dust2", dust2)]
UNITS += [Unit(f"dust3-{k}", dust3, part=k) for k in range(4)]
UNITS += [Unit("dust3-default", dust3_default), Unit("galplane", galplane), Unit("dmag", dmag), Unit("density", density)]
UNITS += [Unit(f"single-{k}", singles, kind=k) for k in SLICERS]
UNITS += [Unit(f"again-{k}", resetup, kind=k) for k in ("hp2", "pts1", "pts5", "pts7")]
UNITS += [Unit(f"gp-{k}", gpmaps, kind=k) for k in ("hp64", "pts1", "pts3")]
UNITS += [Unit(f"group-{w}-{h}-{k}", group, which=w, how=h, kind=k) for w in GROUPS for h in ("metric", "bundle", "both") for k in ("hp2", "pts3")]
