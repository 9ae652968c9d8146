"""S01: self-calibration, from stars and visits to zero points."""
import itertools
import os
import subprocess
import sys

import numpy as np

from mc.core import Unit

PROPERTY = "S01"
LEVEL = "exploration"
RULE = (
    "every subset of (star, patch) observations up to 4 stars by 3 patches solved by the real solver and compared with "
    "an independent fixpoint and dense least squares; every combination of visit centre, field radius, rotation, "
    "number of patches and offsets for a fixed dense set of stars; non-trivial = at least one observation survives"
)
ASSUMPTIONS = [
    "observation ids of visits are distinct; the number of patches is a square; a star is at most once in a visit",
    "the sense of the camera rotation is the one the code documents for rotSkyPos",
]

OBS = [("id", int), ("patch_id", int), ("observed_mag", float), ("mag_uncert", float)]


# ------------------------------------------------------------- solver
def cleaned(edges):
    """Observations left when stars seen once and patches with one star go."""
    e = list(edges)
    while True:
        ns, npch = {}, {}
        for s, p in e:
            ns[s] = ns.get(s, 0) + 1
        f = [(s, p) for s, p in e if ns[s] > 1]
        for s, p in f:
            npch[p] = npch.get(p, 0) + 1
        f = [(s, p) for s, p in f if npch[p] > 1]
        if f == e:
            return e
        e = f


def reference(edges, mags, errs):
    """Fitted magnitudes of the observations and of star pairs."""
    S = sorted({s for s, _ in edges})
    P = sorted({p for _, p in edges})
    a = np.zeros((len(edges), len(S) + len(P)))
    b = np.zeros(len(edges))
    for k, (s, p) in enumerate(edges):
        w = 1.0 / errs[(s, p)]
        a[k, S.index(s)] = w
        a[k, len(S) + P.index(p)] = w
        b[k] = mags[(s, p)] * w
    x = np.linalg.lstsq(a, b, rcond=None)[0]
    return {k: x[S.index(k[0])] + x[len(S) + P.index(k[1])] for k in edges}, S, P


def components(edges):
    comp = {}
    for s, p in edges:
        ks, kp = comp.setdefault(("s", s), {("s", s)}), comp.setdefault(("p", p), {("p", p)})
        u = ks | kp
        for k in u:
            comp[k] = u
    return comp


IDS = {
    "small": ([1, 2, 3, 4], [0, 1, 2, 3]),
    "sparse": ([7, 1000, 31, 5], [160, 33, 17, 32]),
    "zero": ([0, 5, -3, 9], [5, 0, 2, 1]),
    "large": ([0, 2**32, 2**33, 3 * 2**32], [0, 2**32, 2**33, 2**34]),
}


def solver(ctx, ids, part, parts):
    from rubin_sim.selfcal import LsqrSolver

    sid, pid = IDS[ids]
    ns, npch = ctx.pick((3, 3), (4, 3)) if ids != "small" else ctx.pick((4, 3), (4, 4))
    allp = [(s, p) for s in range(ns) for p in range(npch)]
    ctx.bounds.update(stars=ns, patches=npch)
    for mask in range(part, 1 << len(allp), parts):
        edges = [e for k, e in enumerate(allp) if mask >> k & 1]
        keep = cleaned(edges)
        if not keep:
            continue
        for noise in (0, 1):
            for order in ("asc", "desc", "mixed"):
                if not ctx.case(ids, [[*e] for e in edges], noise, order):
                    continue
                mags = {(s, p): 18.0 + 0.7 * s - 0.13 * p * p + noise * 0.01 * ((s * 5 + p * 3) % 4) for s, p in edges}
                errs = {(s, p): 0.01 + 0.004 * ((s + 2 * p) % 3) for s, p in edges}
                es = {"asc": edges, "desc": edges[::-1], "mixed": edges[1::2] + edges[::2]}[order]
                obs = np.array([(sid[s], pid[p], mags[(s, p)], errs[(s, p)]) for s, p in es], dtype=OBS)
                before = sorted(obs.tolist())

                def run():
                    sv = LsqrSolver(obs, atol=1e-13, btol=1e-13)
                    sv.run()
                    return sv.return_solution()

                ok, v = ctx.must(run, what="the solver")
                if not ok:
                    continue
                patches, stars = v
                want, S, P = reference(keep, mags, errs)
                ctx.equal(sorted(stars["id"].tolist()), sorted(sid[s] for s in S), "stars in the solution")
                ctx.equal(sorted(patches["patch_id"].tolist()), sorted(pid[p] for p in P), "patches in the solution")
                m = dict(zip(stars["id"].tolist(), stars["fit_mag"].tolist()))
                z = dict(zip(patches["patch_id"].tolist(), patches["zp"].tolist()))
                try:
                    got = {k: m[sid[k[0]]] + z[pid[k[1]]] for k in keep}
                except KeyError:
                    continue
                ctx.equal(got, want, "fitted magnitudes of the observations", rtol=0, atol=1e-6)
                if not noise:
                    comp = components(keep)
                    for a, b in itertools.combinations(S, 2):
                        if ("s", b) in comp[("s", a)]:
                            ctx.expect(abs(m[sid[a]] - m[sid[b]] - 0.7 * (a - b)) < 1e-6, "stars of one block are not recovered up to a constant", a=a, b=b, got=m)
                ctx.expect(sorted(obs.tolist()) == before, "the solver changed the observations it was given")
                ctx.state((len(S), len(P), len(keep), ids))
                ctx.outcome((len(S), len(P), noise))


def chains(ctx):
    """A block that can be solved with chains that fall apart one link per
    round, hung on it or on their own, numbered in either direction."""
    from rubin_sim.selfcal import LsqrSolver

    n = ctx.pick(9, 14)
    ctx.bounds["links"] = n
    for la, lb in itertools.product(range(n + 1), (0, 1, 2, 5)):
        for hung, first, rev in itertools.product((False, True), ("star", "patch"), (False, True)):
            if not ctx.case(la, lb, hung, first, rev):
                continue
            edges = [(0, 0), (0, 1), (1, 0), (1, 1)]
            top = [2, 2]
            for length in (la, lb):
                # a path alternating between stars and patches
                k = 0 if first == "star" else 1
                if hung:
                    node = [0, 0]
                else:
                    node = list(top)
                    top = [top[0] + 1, top[1] + 1]
                    if length:
                        edges.append(tuple(node))
                for _ in range(length):
                    node[k] = top[k]
                    top[k] += 1
                    edges.append(tuple(node))
                    k = 1 - k
            edges = list(dict.fromkeys(edges))
            ids = [list(range(1, t + 1)) for t in top]
            if rev:
                ids = [[1000 - x for x in i] for i in ids]
            obs = np.array([(ids[0][s], ids[1][p], 18.0 + s + 0.1 * p, 0.01) for s, p in edges], dtype=OBS)
            keep = cleaned(edges)

            def run():
                sv = LsqrSolver(obs)
                sv.run()
                return sv.return_solution()

            ok, v = ctx.must(run, what="the solver")
            if ok:
                ctx.equal(sorted(v[1]["id"].tolist()), sorted({ids[0][s] for s, _ in keep}), "stars in the solution")
                ctx.equal(sorted(v[0]["patch_id"].tolist()), sorted({ids[1][p] for _, p in keep}), "patches in the solution")
                ctx.outcome((la, lb, len(keep)))


# ------------------------------------------------------------- catalog
def vec(ra, dec):
    r, d = np.radians(ra), np.radians(dec)
    return np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)])


def star_table(centre, radius):
    """Stars on rings around a centre, found by rotating vectors (so rings
    cross the pole and RA 0), each with its own magnitude."""
    c = vec(*centre)
    up = np.array([0, 0, 1.0]) if abs(c[2]) < 0.999 else np.array([1.0, 0, 0])
    e = np.cross(up, c)
    e /= np.linalg.norm(e)
    n = np.cross(c, e)
    pts = [c * 1.0]
    for f in (0.21, 0.47, 0.76, 0.983, 0.9995, 1.0005, 1.13, 1.6):
        for k in range(13):
            th = 2 * np.pi * (k + 0.31) / 13
            t = np.radians(f * radius)
            pts.append(np.cos(t) * c + np.sin(t) * (np.cos(th) * e + np.sin(th) * n))
    pts.append(-c)
    pts = np.array(pts)
    # nudge the centre off the corner of four patches
    pts[0] = np.cos(1e-3) * c + np.sin(1e-3) * (0.6 * e + 0.8 * n)
    st = np.zeros(len(pts), dtype=[("id", int), ("rmag", float), ("imag", float), ("ra", float), ("decl", float), ("extra", float)])
    st["id"] = 1000 + 17 * ((np.arange(len(pts)) * 29) % 1009)
    st["ra"] = np.degrees(np.arctan2(pts[:, 1], pts[:, 0])) % 360.0
    st["decl"] = np.degrees(np.arcsin(np.clip(pts[:, 2], -1, 1)))
    st["rmag"] = 17 + 0.03 * np.arange(len(pts))
    st["imag"] = 19 - 0.01 * np.arange(len(pts))
    return st


def cell(st, v, n_patches, radius):
    """(x, y) cell of each star in the rotated tangent plane; None near an
    edge between cells."""
    c = vec(v["ra"], v["dec"])
    r, d = np.radians(v["ra"]), np.radians(v["dec"])
    east = np.array([-np.sin(r), np.cos(r), 0.0])
    north = np.array([-np.sin(d) * np.cos(r), -np.sin(d) * np.sin(r), np.cos(d)])
    out = []
    t = np.radians(v["rotSkyPos"])
    side = int(round(n_patches**0.5))
    for s in st:
        p = vec(s["ra"], s["decl"])
        cosc = p @ c
        x, y = (p @ east) / cosc, (p @ north) / cosc
        xr, yr = np.cos(t) * x + np.sin(t) * y, -np.sin(t) * x + np.cos(t) * y
        h = np.tan(np.radians(radius))
        fx, fy = (xr + h) / (2 * h) * side, (yr + h) / (2 * h) * side
        if any(abs(f - round(f)) < 1e-6 and 0 < round(f) < side for f in (fx, fy)):
            out.append(None)
        else:
            out.append((min(max(int(np.floor(fx)), 0), side - 1), min(max(int(np.floor(fy)), 0), side - 1)))
    return out


VDT = [("observationId", int), ("ra", float), ("dec", float), ("rotSkyPos", float), ("fiveSigmaDepth", float)]
CENTRES = {"plain": (40.0, -30.0), "ra0": (0.0, 5.0), "ra360": (359.9, -60.0), "pole": (120.0, -89.6), "exact": (10.0, 90.0)}


def visit_set(which, centre, radius):
    ra, dec = centre
    sgn = -1 if dec > 0 else 1
    rows = {
        "one": [(7, ra, dec, 0.0, 24.0)],
        "two": [(0, ra, dec, 30.0, 24.0), (1, ra, dec + sgn * radius * 0.4, 200.0, 22.5)],
        "three": [(41, ra, dec, 77.0, 23.0), (42, (ra + 180) % 360, -dec * 0.5, 10.0, 24.0), (5, ra, dec + sgn * 0.3 * radius, 0.0, 21.0)],
        "again": [(9, ra, dec, 350.0, 23.0), (10, ra, dec, 350.0, 25.0), (8, ra, dec, 91.0, 23.0)],
    }[which]
    return np.array(rows, dtype=VDT)


def mag_err(m, m5):
    from rubin_sim.maf.utils.astrometry_utils import m52snr

    return 2.5 * np.log10(1 + 1 / m52snr(m, m5))


def catalog(ctx, centre):
    from rubin_sim.selfcal import BaseOffset, NoOffset, OffsetSNR, generate_catalog

    class Shift(BaseOffset):
        def __init__(self, a, key):
            self.a, self.newkey = a, key

        def __call__(self, stars, visit, **kw):
            return self.a * (stars["id"] % 7) + 0.001 * visit["observationId"]

    class Seen(BaseOffset):
        """Records the offsets made so far."""

        newkey = "dmag_seen"

        def __call__(self, stars, visit, dmags=None, **kw):
            t = sum(np.asarray(x) for x in dmags.values()) if dmags else np.zeros(stars.size)
            return 0.5 * t

    c = CENTRES[centre]
    radii = ctx.pick((1.8, 0.6, 3.0), (1.8, 0.6, 3.0, 1.0, 1.75, 5.0))
    for radius in radii:
        st = star_table(c, radius)
        for vs in ("one", "two", "three", "again"):
            v = visit_set(vs, c, radius)
            for n_patches in (16, 1, 4, 25):
                for band in ("r", "i"):
                    offs = {
                        "none": [NoOffset()],
                        "shift": [Shift(0.01, "a")],
                        "two": [Shift(0.01, "a"), NoOffset(), Shift(-0.3, "b")],
                        "chain": [Shift(0.01, "a"), Seen(), Shift(0.2, "b")],
                    }
                    for on, off in offs.items():
                        if n_patches != 16 and on != "two":
                            continue
                        if not ctx.case(centre, radius, vs, n_patches, band, on):
                            continue
                        stars_in = st.copy()
                        ok, got = ctx.must(generate_catalog, v.copy(), stars_in, offsets=off, lsst_filter=band, n_patches=n_patches, radius_fov=radius, verbose=False, uncert_floor=0.004, what="generate_catalog")
                        if not ok:
                            continue
                        ctx.expect(stars_in.tobytes() == st.tobytes(), "generate_catalog changed the stars it was given")
                        check_catalog(ctx, got, st, v, n_patches, radius, band, on)


def check_catalog(ctx, got, st, v, n_patches, radius, band, on):
    by_id = {int(s["id"]): k for k, s in enumerate(st)}
    want, used = [], 0
    at = 0
    patches = {}
    for vi in v:
        sep = np.degrees(np.arccos(np.clip(vec(st["ra"], st["decl"]).T @ vec(vi["ra"], vi["dec"]), -1, 1)))
        inside = set(np.where(sep <= radius)[0].tolist())
        n = len(inside)
        rows = got[at : at + n]
        at += n
        ks = [by_id.get(int(i)) for i in rows["id"]]
        if not ctx.expect(None not in ks and set(ks) == inside and len(ks) == len(inside), "stars of a visit", visit=int(vi["observationId"]), want=sorted(int(st["id"][k]) for k in inside), got=sorted(rows["id"].tolist())):
            return
        if n == 0:
            continue
        a = 0.01 * (rows["id"] % 7) + 0.001 * vi["observationId"]
        b = {"two": -0.3, "chain": 0.2}.get(on, 0) * (rows["id"] % 7) + 0.001 * vi["observationId"]
        d = {"none": 0 * a, "shift": a, "two": a + b, "chain": 1.5 * a + b}[on]
        true = st[f"{band}mag"][ks]
        ctx.equal(rows[f"{band}mag"], true, "true magnitudes")
        ctx.equal(rows["ra"], st["ra"][ks], "positions")
        ctx.equal(rows["decl"], st["decl"][ks], "positions")
        ctx.equal(rows["observed_mag"], true + d, "observed magnitudes are not the true ones plus every offset")
        ctx.equal(rows["mag_uncert"], np.sqrt(mag_err(true + d, vi["fiveSigmaDepth"]) ** 2 + 0.004**2), "uncertainties")
        cells = cell(st[ks], vi, n_patches, radius)
        for k, cl, pid in zip(ks, cells, rows["patch_id"].tolist()):
            if cl is None:
                continue
            key = (int(vi["observationId"]), cl)
            patches.setdefault(pid, set()).add(key)
            used += 1
    ctx.expect(at == len(got), "rows for no visit", got=len(got), want=at)
    ctx.expect(all(len(k) == 1 for k in patches.values()), "one patch id for two parts of the sky or two visits", got={p: sorted(k) for p, k in patches.items() if len(k) > 1})
    cells = [k for s in patches.values() for k in s]
    ctx.expect(len(cells) == len(set(cells)), "two patch ids for one part of a visit")
    ctx.outcome((used, len(patches), on), trivial=not used)


def visit_rows(st, v, radius):
    """Index of the visit of each row of a catalog."""
    n = []
    for vi in v:
        sep = np.degrees(np.arccos(np.clip(vec(st["ra"], st["decl"]).T @ vec(vi["ra"], vi["dec"]), -1, 1)))
        n.append(int(np.sum(sep <= radius)))
    return np.repeat(np.arange(len(v)), n)


def noise(ctx):
    """The noise offset: reproducible, scaled by the error of the magnitude
    that reaches the detector, and no larger for brighter stars."""
    from rubin_sim.selfcal import BaseOffset, OffsetSNR, generate_catalog
    from rubin_sim.selfcal.offsets import OffsetSys

    class Shift(BaseOffset):
        newkey = "shift"

        def __init__(self, a):
            self.a = a

        def __call__(self, stars, visit, **kw):
            return np.full(stars.size, self.a)

    for cn, c in CENTRES.items():
        st = star_table(c, 1.8)
        for vs in ("one", "two", "three"):
            v = visit_set(vs, c, 1.8)
            for seed in (42, 1):
                for band in ("r", "i"):
                    kw = dict(lsst_filter=band, verbose=False, seed=seed, uncert_floor=0.0)
                    if not ctx.case(cn, vs, seed, band):
                        continue
                    base = generate_catalog(v, st, offsets=[OffsetSNR(band)], **kw)
                    again = generate_catalog(v, st, offsets=[OffsetSNR(band)], **kw)
                    ctx.expect(base.tobytes() == again.tobytes(), "the same seed gave another catalog")
                    other = generate_catalog(v, st, offsets=[OffsetSNR(band)], **{**kw, "seed": seed + 7})
                    ctx.expect(not np.array_equal(base["observed_mag"], other["observed_mag"]), "another seed gave the same catalog")
                    depth = v["fiveSigmaDepth"][visit_rows(st, v, 1.8)]
                    true = base[f"{band}mag"]
                    r0 = (base["observed_mag"] - true) / mag_err(true, depth)
                    for dm in (1.5, -0.7, 3.0):
                        x = generate_catalog(v, st, offsets=[Shift(dm), OffsetSNR(band)], **kw)
                        r = (x["observed_mag"] - true - dm) / mag_err(true + dm, depth)
                        ctx.equal(r, r0, "noise is not scaled by the error of the magnitude seen by the detector", rtol=1e-6, atol=1e-6, dm=dm)
                        y = generate_catalog(v, st, offsets=[OffsetSNR(band), Shift(dm)], **kw)
                        ctx.equal(y["observed_mag"] - dm, base["observed_mag"], "an offset after the noise changed the noise", rtol=0, atol=1e-9)
                    sy = [generate_catalog(v, st, offsets=[OffsetSys(e)], **kw)["observed_mag"] - true for e in (0.01, 0.03)]
                    ctx.equal(sy[1], 3 * sy[0], "systematic error does not scale", rtol=1e-6, atol=1e-9)
                    ctx.outcome(round(float(np.std(r0)), 3))


def edge(ctx):
    """Stars exactly on the edge of the field, at the four rotations."""
    from rubin_sim.selfcal import NoOffset, generate_catalog

    for radius in (1.8, 1.0, 3.5):
        for rot in (0.0, 90.0, 180.0, 270.0):
            for n_patches in (4, 16):
                if not ctx.case(radius, rot, n_patches):
                    continue
                v = np.array([(k, 0.0, 0.0, rot, 24.0) for k in range(3)], dtype=VDT)
                f = [1.0, 1 - 1e-15, 1 - 1e-12, 1 - 1e-9, 0.9]
                pos = [(r * radius % 360.0, 0.0) for x in f for r in (x, -x)] + [(0.0, r * radius) for x in f for r in (x, -x)]
                st = np.zeros(len(pos), dtype=[("id", int), ("rmag", float), ("ra", float), ("decl", float)])
                st["id"] = np.arange(len(pos))
                st["rmag"] = 20
                st["ra"], st["decl"] = np.array(pos).T
                ok, got = ctx.must(generate_catalog, v, st, offsets=[NoOffset()], n_patches=n_patches, radius_fov=radius, verbose=False, what="generate_catalog")
                if not ok:
                    continue
                n = len(got) // 3
                owner = {}
                for k in range(3):
                    for p in got["patch_id"][k * n : (k + 1) * n].tolist():
                        owner.setdefault(p, set()).add(k)
                ctx.expect(all(len(o) == 1 for o in owner.values()), "a patch id is shared by two visits", got={p: sorted(o) for p, o in owner.items() if len(o) > 1})
                ctx.expect(len(owner) <= 3 * n_patches, "more patches than the field is divided into", got=len(owner))
                ctx.outcome((n, len(owner)))


def pipeline(ctx):
    """Catalog to solution: an offset common to a patch never reaches stars."""
    from rubin_sim.selfcal import BaseOffset, LsqrSolver, generate_catalog

    class Grey(BaseOffset):
        newkey = "grey"

        def __init__(self, tab):
            self.tab = tab

        def __call__(self, stars, visit, **kw):
            return np.full(stars.size, self.tab[int(visit["observationId"]) % len(self.tab)])

    for cn, c in CENTRES.items():
        st = star_table(c, 1.8)
        for n_patches in (1, 4):
            for tab in itertools.product((0.0, 0.3, -1.0), repeat=3):
                if not ctx.case(cn, n_patches, list(tab)):
                    continue
                sgn = -1 if c[1] > 0 else 1
                v = np.array([(k, c[0], c[1] + sgn * 0.35 * k, 13.0 * k, 24.0) for k in range(6)], dtype=VDT)
                cat = generate_catalog(v, st, offsets=[Grey(tab)], n_patches=n_patches, verbose=False)
                s = LsqrSolver(cat.copy(), atol=1e-13, btol=1e-13)
                ok, _ = ctx.must(s.run, what="the solver")
                if not ok:
                    continue
                patches, stars = s.return_solution()
                true = dict(zip(st["id"].tolist(), st["rmag"].tolist()))
                # the graph is connected, so one constant remains
                d = np.array([m - true[i] for i, m in zip(stars["id"].tolist(), stars["fit_mag"].tolist())])
                ctx.expect(len(d) > 10 and np.ptp(d) < 1e-5, "magnitudes are not recovered up to one constant", spread=float(np.ptp(d)), n=len(d))
                z = {}
                of = dict(zip(cat["patch_id"].tolist(), visit_rows(st, v, 1.8).tolist()))
                for p, zp in zip(patches["patch_id"].tolist(), patches["zp"].tolist()):
                    z.setdefault(of[p], []).append(zp)
                want = {k: tab[k % 3] - tab[0] for k in z}
                got = {k: x[0] - z[0][0] for k, x in z.items()} if 0 in z else None
                ctx.equal(got, want, "zero points of the visits", rtol=0, atol=1e-5)
                ctx.expect(all(np.ptp(x) < 1e-5 for x in z.values()), "patches of one visit differ")
                ctx.outcome((cn, n_patches, len(d), len(patches)))


def metric(ctx):
    """The uniformity metric on a synthetic catalog of stars."""
    import contextlib
    import io

    import healpy as hp
    from astropy.table import Table

    from rubin_sim.maf.maf_contrib import PhotometricSelfCalUniformityMetric
    from rubin_sim.selfcal import OffsetSNR, generate_catalog
    from rubin_sim.selfcal.offsets import OffsetSys

    d = os.path.join(ctx.scratch, "data")
    os.makedirs(os.path.join(d, "maf"), exist_ok=True)
    os.environ["RUBIN_SIM_DATA_DIR"] = d
    os.environ["SIMS_DATA_DIR"] = d
    for cn in ("plain", "ra0", "pole"):
        c = CENTRES[cn]
        st = star_table(c, 1.8)
        for nans in ((), (0,), (3, 7, 20, 41)):
            for order in (1, -1):
                t = Table(st)[::order]
                t["rmag"][list(nans)] = np.nan
                t["dec"] = t["decl"]
                t.remove_column("decl")
                fn = os.path.join(d, "maf", "monster_stars_uniformity_i15-18_sampled.parquet")
                if os.path.exists(fn):
                    os.remove(fn)
                t.write(fn)
                for band in ("r", "i"):
                    for nv in (6, 12):
                        for nside in (8, 32):
                            if not ctx.case(cn, list(nans), order, band, nv, nside):
                                continue
                            sgn = -1 if c[1] > 0 else 1
                            v = np.array([(3 * k, c[0], c[1] + sgn * 0.2 * k, 13.0 * k, 24.0 - 0.1 * k) for k in range(nv)], dtype=VDT)
                            data = np.zeros(nv, dtype=[("observationId", int), ("fieldRA", float), ("fieldDec", float), ("fiveSigmaDepth", float), ("rotSkyPos", float), ("filter", "U1")])
                            for a, b in (("observationId", "observationId"), ("fieldRA", "ra"), ("fieldDec", "dec"), ("fiveSigmaDepth", "fiveSigmaDepth"), ("rotSkyPos", "rotSkyPos")):
                                data[a] = v[b]
                            def run():
                                with contextlib.redirect_stdout(io.StringIO()):
                                    m = PhotometricSelfCalUniformityMetric(nside_residual=nside, filter_name=band)
                                    return m, m.run(data)
                            ok, got = ctx.must(run, what="the metric")
                            if not ok:
                                continue
                            m, got = got
                            good = np.isfinite(np.asarray(t[f"{band}mag"]))
                            ts = t[good].as_array()
                            sub = np.zeros(len(ts), dtype=st.dtype)
                            for k in ("id", "rmag", "imag", "ra", "extra"):
                                sub[k] = ts[k]
                            sub["decl"] = ts["dec"]
                            cat = generate_catalog(v, sub, offsets=[OffsetSys(error_sys=0.03), OffsetSNR(lsst_filter=band)], lsst_filter=band, verbose=False)
                            e = [(int(r["id"]), int(r["patch_id"])) for r in cat]
                            keep = cleaned(e)
                            mags = {k: float(x) for k, x in zip(e, cat["observed_mag"])}
                            errs = {k: float(x) for k, x in zip(e, cat["mag_uncert"])}
                            comp = components(keep)
                            if len({frozenset(x) for x in comp.values()}) != 1:
                                continue
                            S = sorted({k[0] for k in keep})
                            P = sorted({k[1] for k in keep})
                            A = np.zeros((len(keep), len(S) + len(P)))
                            b = np.zeros(len(keep))
                            for i, k in enumerate(keep):
                                w = 1 / errs[k]
                                A[i, S.index(k[0])] = A[i, len(S) + P.index(k[1])] = w
                                b[i] = mags[k] * w
                            x = np.linalg.lstsq(A, b, rcond=None)[0]
                            true = {int(i): float(q) for i, q in zip(sub["id"], sub[f"{band}mag"])}
                            pos = {int(i): (float(q["ra"]), float(q["decl"])) for i, q in zip(sub["id"], sub)}
                            res = np.array([true[i] - x[k] for k, i in enumerate(S)])
                            res -= np.median(res)
                            pix = {}
                            for i, r in zip(S, res):
                                pix.setdefault(int(hp.ang2pix(nside, *pos[i], lonlat=True)), []).append(r)
                            want = np.full(hp.nside2npix(nside), hp.UNSEEN)
                            for p, r in pix.items():
                                want[p] = np.median(r)
                            um = np.asarray(got["uniformity_map"])
                            if not ctx.expect(set(np.where(um > hp.UNSEEN)[0]) == set(pix), "pixels with a residual"):
                                continue
                            ctx.equal(um, want, "map of residuals", rtol=0, atol=2e-5)
                            q = um[um > hp.UNSEEN]
                            sc = 1.4826022185056018 * float(np.median(np.abs(q - np.median(q))))
                            ctx.equal(m.reduce_scatter_full(got), 1000 * sc, "scatter", rtol=1e-6)
                            ctx.equal(float(m.reduce_outlier_frac_full(got)), float(np.mean(np.abs(q) > 4 * sc)), "fraction of outliers")
                            ctx.outcome((len(S), len(P), len(pix)))


def imports(ctx):
    """Each package imported first, and every ordered pair, in a new process."""
    names = ["maf", "moving_objects", "phot_utils", "satellite_constellations", "selfcal", "skybrightness", "sim_archive", "data"]
    jobs = []
    for a in names:
        for b in [None] + [x for x in names if x != a and ctx.thorough]:
            jobs.append((a, b))
    jobs += [("maf.metrics", None), ("maf.slicers", None), ("maf.utils", None), ("maf.db", None), ("maf.stackers", None), ("maf.plots", None), ("maf.batches", None), ("maf.maf_contrib", None), ("maf.run_comparison", None), ("selfcal.solver", None), ("maf.metric_bundles", None)]
    run = []
    for a, b in jobs:
        if not ctx.case(a, b):
            continue
        src = f"import rubin_sim.{a} as m\n" + (f"import rubin_sim.{b}\n" if b else "") + "bad=[n for n in getattr(m,'__all__',()) if not hasattr(m,n)]\nassert not bad, bad\n"
        run.append((a, b, subprocess.Popen([sys.executable, "-W", "ignore", "-c", src], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=os.environ)))
        if len(run) >= 6:
            finish(ctx, run)
            run = []
    finish(ctx, run)


def finish(ctx, run):
    for a, b, p in run:
        _, err = p.communicate()
        ctx.key = (a, b)
        ctx.expect(p.returncode == 0, f"import of rubin_sim.{a} in a new process failed", error=err.decode()[-400:])
        ctx.outcome((a, b, p.returncode))


UNITS = [Unit("imports", imports), Unit("chains", chains)]
UNITS += [Unit(f"solver-{i}-{k}", solver, ids=i, part=k, parts=2) for i in IDS for k in range(2)]
UNITS += [Unit(f"catalog-{c}", catalog, centre=c) for c in CENTRES]
UNITS += [Unit("metric", metric), Unit("noise", noise), Unit("edge", edge), Unit("pipeline", pipeline)]
