"""O01: Chebyshev fits of ephemerides and the values evaluated from them."""
import itertools
import os

import numpy as np
import pandas as pd

from mc import fakeoorb
from mc.core import Unit

fakeoorb.install()
from rubin_sim.moving_objects import ChebyFits, ChebyValues, Orbits, chebeval, chebfit  # noqa: E402
from rubin_sim.moving_objects.chebyshev_utils import make_cheb_matrix, make_cheb_matrix_only_x  # noqa: E402

PROPERTY = "O01"
LEVEL = "model_checking"
RULE = (
    "every set of moving objects, time span, sampling, tolerance, rounding and segment length of the alphabets is fitted "
    "and evaluated back at every sample, boundary and intermediate time; every short coefficient vector and every short "
    "data vector through the evaluation and the constrained fit; non-trivial = at least one segment"
)
ASSUMPTIONS = [
    "the ephemeris engine (pyoorb, not installed) is replaced by an analytic motion with the same interface",
    "all objects are fitted over one time span, as the code documents",
]

KEYS = ("ra", "dec", "geo_dist", "vmag", "elongation")
EPOCH = 60000.0
#          a     e    inc  Omega argPeri M
KINDS = {
    "slow": (0.2, 0.01, 50.0, 40.0, 0.3, 10.0),
    "wrap": (0.6, 0.05, 70.0, 359.2, 0.9, -20.0),
    "cross": (0.25, 0.02, 66.0, 358.7, 0.5, 8.0),
    "fast": (3.0, 1.5, 30.0, 100.0, 3.0, 150.0),
    "wiggly": (0.5, 0.8, 62.0, 200.0, 9.0, 30.0),
    "north": (0.3, 0.02, 132.0, 300.0, 0.5, 5.0),
    "nan": (0.1, 0.01, 55.0, 359.7, 0.4, 2.0),
    "wild": (1.0, 3.0, 58.0, 30.0, 90.0, 10.0),
}


def orbits_of(names, ids):
    rows = []
    for n, i in zip(names, ids):
        a, e, inc, om, w, m = KINDS[n]
        rows.append(dict(obj_id=i, a=a, e=e, inc=inc, Omega=om, argPeri=w, meanAnomaly=m, epoch=EPOCH, H=20.0 + len(n), g=0.15, sed_filename="C.dat"))
    o = Orbits()
    o.set_orbits(pd.DataFrame(rows))
    return o


def element(name):
    a, e, inc, om, w, m = KINDS[name]
    return np.array([1, a, e, np.radians(inc), np.radians(om), np.radians(w), np.radians(m), 3, EPOCH, 3, 20.0 + len(name), 0.15])


def truth(name, t, scale, code):
    return fakeoorb.truth(element(name), t, {"UTC": 1, "TT": 3, "TAI": 4}[scale], code, "N")


def sky(ra1, dec1, ra2, dec2):
    dra = (np.asarray(ra1) - ra2 + 180) % 360 - 180
    return np.hypot(dra * np.cos(np.radians(dec2)), np.asarray(dec1) - dec2) * 3600e3


def refeval(t, p, lo, hi):
    c = np.polynomial.Chebyshev(p, domain=[0.0, hi - lo])
    return c(np.asarray(t) - lo), c.deriv()(np.asarray(t) - lo)


def check_fit(ctx, cf, names, ids, cfg, failed_all=False):
    """Segments of one fit: tiling, tolerance, residuals, continuity."""
    t0, t1 = cfg["t_start"], cfg["t_start"] + cfg["t_span"]
    tol = cfg["tol"]
    co = cf.coeffs
    n = len(co["obj_id"])
    if not ctx.expect(all(len(co[k]) == n for k in co) and all(len(cf.resids[k]) == n for k in cf.resids), "coefficient and residual tables differ in length"):
        return
    if not ctx.equal([list(cf.resids[k]) for k in ("obj_id", "t_start", "t_end")], [list(co[k]) for k in ("obj_id", "t_start", "t_end")], "residuals belong to other segments"):
        return
    for name, i in zip(names, ids):
        segs = sorted((float(co["t_start"][k]), float(co["t_end"][k]), k) for k in range(n) if co["obj_id"][k] == i)
        fl = sorted((float(f[1]), float(f[2]), None) for f in cf.failed if f[0] is i or (not hasattr(f[0], "__len__") or isinstance(f[0], str)) and f[0] == i)
        ctx.expect(len(fl) == 0 or name in ("nan", "wild", "wiggly", "fast"), "a well behaved object could not be fitted", name=name, fl=fl)
        pieces = sorted(segs + fl, key=lambda s: s[:2])
        ends = [pieces[0][0] if pieces else None]
        # lengths are rounded to this many decimals: joints agree to the last one
        gap = 1e-7 if cfg["ndec"] == 0 else max(1e-9, 10.0 ** (1 - cfg["ndec"]))
        ok = bool(pieces) and abs(pieces[0][0] - t0) < 1e-7 and abs(pieces[-1][1] - t1) < max(1e-7, min(10.0 ** (1 - cfg["ndec"]), cfg["t_span"] / cfg["ngran"] / 2))
        for a, b in zip(pieces, pieces[1:]):
            ok = ok and abs(a[1] - b[0]) < gap
        ok = ok and all(p[1] > p[0] for p in pieces)
        if not ctx.expect(ok, "segments and failures of an object do not tile the time span", name=name, pieces=[p[:2] for p in pieces][:12], span=(t0, t1), ends=ends):
            return
        for a, b, k in segs:
            cols = {}
            ctx.expect(len(co["ra"][k]) == cfg["npos"] and len(co["dec"][k]) == cfg["npos"], "wrong number of position coefficients")
            for key in KEYS:
                cols[key] = np.asarray(co[key][k], float)
            samples = np.linspace(a, b, cfg["ngran"] + 1)
            tr = truth(name, samples, cfg["scale"], cfg["code"])
            ra, _ = refeval(samples, cols["ra"], a, b)
            dec, _ = refeval(samples, cols["dec"], a, b)
            res = sky(ra, dec, tr[:, 1], tr[:, 2])
            full = cfg["ndec"] > 0  # every segment has ngran + 1 samples
            ctx.expect(res.max() <= tol * (1.0001 if full else 1.3) + 0.02, "positions miss the tolerance at a sample", name=name, seg=(a, b), worst=res.max(), tol=tol)
            if full:
                ctx.expect(abs(res.max() - cf.resids["pos"][k]) <= 1e-3 * res.max() + 0.05, "the reported position residual is not that of the segment", name=name, seg=(a, b), got=cf.resids["pos"][k], want=res.max())
            for j, (key, col) in enumerate((("geo_dist", 8), ("vmag", 9), ("elongation", 6))):
                v, _ = refeval(samples, cols[key], a, b)
                r = np.abs(v - tr[:, col]).max()
                ctx.expect(not full or abs(r - cf.resids[key][k]) <= 1e-6 + 1e-3 * r, "the reported residual is not that of the segment", what=key, name=name, got=cf.resids[key][k], want=r)
                ctx.expect(r <= cfg["loose"], "the fitted curve does not follow the ephemeris", what=key, name=name, worst=r)
                ctx.expect(max(abs(v[0] - tr[0, col]), abs(v[-1] - tr[-1, col])) < 1e-6, "a segment does not start and end on the ephemeris", what=key, name=name)
            # the ends carry value and velocity of the ephemeris
            e2 = np.array([a, b])
            te = truth(name, e2, cfg["scale"], cfg["code"])
            ra, dra = refeval(e2, cols["ra"], a, b)
            dec, ddec = refeval(e2, cols["dec"], a, b)
            ctx.expect(sky(ra, dec, te[:, 1], te[:, 2]).max() < 0.01, "a segment does not start and end on the ephemeris", name=name, seg=(a, b), got=(ra, dec), want=(te[:, 1], te[:, 2]))
            ctx.expect(np.abs(dra * np.cos(np.radians(dec)) - te[:, 3]).max() < 1e-5 and np.abs(ddec - te[:, 4]).max() < 1e-5, "a segment does not start and end with the velocity of the ephemeris", name=name, seg=(a, b))


def check_values(ctx, cv, names, ids, cfg, segs, query=None, loose_pos=None, label=""):
    """get_ephemerides against the truth for every queried object and time."""
    t0, t1 = cfg["t_start"], cfg["t_start"] + cfg["t_span"]
    times = np.unique(np.concatenate([np.linspace(t0, t1, 9), [t0 + 1e-6, t1 - 1e-6], [s for i in segs for ab in segs[i] for s in ab]]))
    times = times[(times >= t0) & (times <= t1)][::-1].copy()
    who = sorted(set(ids)) if query is None else query
    keep = None if query is None else np.array(query)
    arg = None if query is None else keep
    before = None if keep is None else keep.copy()
    ok, e = ctx.must(cv.get_ephemerides, times, obj_ids=arg, what="get_ephemerides")
    if not ok:
        return
    if before is not None:
        ctx.equal(list(keep), list(before), "the caller's object ids changed")
    if not ctx.equal(sorted(e["obj_id"].tolist()), sorted(who), "objects returned"):
        return
    for r, oid in enumerate(e["obj_id"].tolist()):
        name = names[ids.index(oid)]
        tr = truth(name, times, cfg["scale"], cfg["code"])
        ctx.equal(e["time"][r], times, "times returned")
        cov = np.array([any(a - 1e-9 <= t <= b + 1e-9 for a, b in segs[oid]) for t in times])
        last = {max((b for _, b in segs[o]), default=None) for o in who}
        inner = np.array([any(a <= t < b - 1e-9 for a, b in segs[oid]) or (len(last) == 1 and t in last) for t in times])
        d = sky(e["ra"][r], e["dec"][r], tr[:, 1], tr[:, 2])
        lim = (loose_pos or cfg["tol"]) * 1.5 + 0.05
        ctx.expect(bool(np.all(d[inner] <= lim)), "the position evaluated is not the ephemeris", label=label, oid=oid, name=name, t=times[inner][int(np.argmax(np.nan_to_num(d[inner], nan=1e9)))] if inner.any() else None, off=np.nanmax(d[inner]) if inner.any() else None)
        ctx.expect(bool(np.all(np.isnan(e["ra"][r][~cov]))), "a value was returned where the fit failed", oid=oid)
        for key, col, lo in (("geo_dist", 8, cfg["loose"]), ("vmag", 9, cfg["loose"]), ("elongation", 6, cfg["loose"])):
            ctx.expect(bool(np.all(np.abs(e[key][r] - tr[:, col])[inner] <= lo * 1.5 + 1e-5)), "the value evaluated is not the ephemeris", what=key, oid=oid, name=name)
        big = max(1e-3, lim / 3600e3 * 100)
        ctx.expect(bool(np.all(np.abs(e["dradt"][r] - tr[:, 3])[inner] <= big)) and bool(np.all(np.abs(e["ddecdt"][r] - tr[:, 4])[inner] <= big)), "the velocity evaluated is not the ephemeris", oid=oid, name=name)


def segs_of(co, ids):
    return {i: [(float(a), float(b)) for o, a, b in zip(co["obj_id"], co["t_start"], co["t_end"]) if o == i] for i in ids}


SETS = [("slow",), ("wrap", "slow"), ("fast", "slow", "wrap"), ("wiggly", "slow"), ("nan", "slow", "north"), ("slow", "wiggly", "fast", "north"), ("cross",)]


def fits(ctx, k):
    sets = SETS[k::6]
    spans = [2.0, 5.0, 7.3, 30.0] if ctx.thorough else [2.0, 7.3, 11.0]
    starts = [60000.0, 60001.37]
    for names, ids_kind, t_start, t_span in itertools.product(sets, ("int", "str"), starts, spans):
        for tol, ngran, ndec, npos, length in itertools.product((2.5, 300.0, 6000.0), (64, 37), (10, 3, 0), (14, 9), (None, 1.0)):
            if ids_kind == "str" and (npos == 9 or ndec == 3):
                continue
            if ndec == 0 and t_span != int(t_span) or ndec == 0 and t_start != int(t_start):
                continue
            if not ctx.thorough and (ngran == 37) != (npos == 9) and tol != 2.5:
                continue
            ids = [7, 3, 11, 5][: len(names)] if ids_kind == "int" else ["S7", "b", "aa", "S1"][: len(names)]
            scale = "TAI" if ngran == 64 else "UTC"
            code = "I11" if npos == 14 else "807"
            cfg = dict(t_start=t_start, t_span=t_span, tol=tol, ngran=ngran, npos=npos, scale=scale, code=code, loose=0.01, ndec=ndec)
            if not ctx.case(list(names), ids_kind, t_start, t_span, tol, ngran, ndec, npos, length):
                continue
            orb = orbits_of(names, ids)
            ok, cf = ctx.must(ChebyFits, orb, t_start, t_span, time_scale=scale, obscode=code, sky_tolerance=tol, n_coeff_position=npos, ngran=ngran, n_decimal=ndec, what="ChebyFits")
            if not ok:
                continue
            ok, v = ctx.call(cf.calc_segment_length, length) if length is not None else ctx.call(cf.calc_segment_length)
            if not ok:
                ctx.expect(isinstance(v, ValueError) and ndec < 10, "the search for a segment length failed", error=repr(v))
                ctx.expect(sorted({str(f[0]) for f in cf.failed}) == sorted(map(str, ids)), "objects without a segment length are not recorded as failed", failed=cf.failed)
                ctx.outcome("no length", trivial=True)
                continue
            ctx.expect(cf.length > 0, "segment length", got=cf.length)
            ok, _ = ctx.must(cf.calc_segments, what="calc_segments")
            if not ok:
                continue
            ctx.state((names, len(cf.coeffs["obj_id"]), len(cf.failed), t_span, tol, ngran, ndec, npos, length))
            ctx.outcome((len(cf.coeffs["obj_id"]), len(cf.failed)))
            check_fit(ctx, cf, names, ids, cfg)
            segs = segs_of(cf.coeffs, ids)
            if not cf.coeffs["obj_id"]:
                continue
            snap = {k2: list(v2) for k2, v2 in cf.coeffs.items()}
            cv = ChebyValues()
            if not ctx.must(cv.set_coefficients, cf, what="set_coefficients")[0]:
                continue
            ctx.expect(list(cf.coeffs) == list(snap) and all(isinstance(cf.coeffs[q], list) and len(cf.coeffs[q]) == len(snap[q]) for q in snap), "set_coefficients changed the fit it was given")
            have = [i for i in ids if segs[i]]
            check_values(ctx, cv, [n for n, i in zip(names, ids) if i in have], have, cfg, segs, label="all")
            check_values(ctx, cv, names, ids, cfg, segs, query=have[::-1], label="reversed")
            check_values(ctx, cv, names, ids, cfg, segs, query=have[:1], label="first")
            if len(have) > 1:
                check_values(ctx, cv, names, ids, cfg, segs, query=have[-1:], label="last")


# ------------------------------------------------------------ files


def files(ctx):
    path = os.path.join(ctx.scratch, "cheb")
    os.makedirs(path, exist_ok=True)
    sets = [(("wrap", "slow"), [7, 3]), (("fast", "slow"), ["S7", "b"]), (("nan", "slow"), [1, 2]), (("north", "cross"), [9, 8])]
    for (first, second), append, pre, ndec in itertools.product(itertools.product(range(4), range(4)), (False, True), (False, True), (10, 3)):
        if not ctx.case(first, second, append, pre, ndec):
            continue
        c, r, f = (os.path.join(path, x) for x in ("coeff", "resid", "failed"))
        for x in (c, r, f):
            if os.path.exists(x):
                os.remove(x)
        cfg = dict(t_start=60000.0, t_span=6.0, tol=30.0, ngran=64, npos=14, scale="TAI", code="I11", loose=0.01)
        fits_ = []
        for w in (first, second):
            names, ids = sets[w]
            if w == first and fits_:
                ids = [i + 100 if isinstance(i, int) else i + "x" for i in ids]
            cf = ChebyFits(orbits_of(names, ids), 60000.0, 6.0, sky_tolerance=30.0, n_decimal=ndec)
            cf.calc_segment_length()
            cf.calc_segments()
            fits_.append((names, ids, cf))
        ok = True
        if pre or not append:
            ok, _ = ctx.must(fits_[0][2].write, c, r, f, what="write")
        ok2, _ = ctx.must(fits_[1][2].write, c, r, f, append=append, what="write (append)" if append else "write")
        if not (ok and ok2):
            continue
        expected = ([fits_[0]] if (append and pre) else []) + [fits_[1]]
        names = sum((list(x[0]) for x in expected), [])
        ids = sum((list(x[1]) for x in expected), [])
        cv = ChebyValues()
        cv.coeffs = {"stale": 1}
        ok, _ = ctx.must(cv.read_coefficients, c, what="read_coefficients")
        if not ok:
            continue
        if any(isinstance(i, str) for i in ids):
            ids = [str(i) for i in ids]
        allseg = {q: sum((list(x[2].coeffs[q]) for x in expected), []) for q in expected[0][2].coeffs}
        if any(isinstance(i, str) for i in allseg["obj_id"]):
            allseg["obj_id"] = [str(i) for i in allseg["obj_id"]]
        ctx.equal(cv.coeffs["obj_id"].tolist(), allseg["obj_id"], "object ids read back")
        for q in ("t_start", "t_end"):
            ctx.equal(cv.coeffs[q], np.array(allseg[q]), "times read back", rtol=0, atol=10.0**-ndec)
        for q, p in (("ra", 1e-13), ("dec", 1e-13), ("geo_dist", 1e-6), ("vmag", 1e-6), ("elongation", 1e-6)):
            ctx.equal(cv.coeffs[q], np.array(allseg[q]), "coefficients read back", rtol=p, atol=1e-15, what=q)
        segs = segs_of(cv.coeffs, ids)
        if ndec == 10:
            have = [i for i in ids if segs[i]]
            check_values(ctx, cv, [n for n, i in zip(names, ids) if i in have], have, cfg, segs, label="from file")
        rt = pd.read_table(r, sep=r"\s+")
        wantr = {q: sum((list(x[2].resids[q]) for x in expected), []) for q in expected[0][2].resids}
        ctx.equal([str(x) for x in rt.obj_id], [str(x) for x in wantr["obj_id"]], "residual file objects")
        for q, col in (("t_start", "t_start"), ("t_end", "t_end"), ("pos", "pos"), ("geo_dist", "geo_dist"), ("vmag", "vmag"), ("elong", "elongation")):
            ctx.equal(rt[q].to_numpy(), np.array(wantr[col]), "residual file", rtol=1e-10, what=q)
        ctx.equal(rt["length"].to_numpy(), np.array(wantr["t_end"]) - np.array(wantr["t_start"]), "residual file length", rtol=1e-8)
        wf = [" ".join(str(y) for y in x) for e in ([fits_[0]] if pre or not append else []) + [fits_[1]] for x in e[2].failed]
        if append and not pre:
            wf = [" ".join(str(y) for y in x) for x in fits_[1][2].failed]
        if not append and fits_[1][2].failed:
            wf = [" ".join(str(y) for y in x) for x in fits_[1][2].failed]
        got = open(f).read().splitlines() if os.path.exists(f) else []
        ctx.equal(got, wf, "failed file")
        ctx.outcome((len(cv.coeffs["obj_id"]), len(got)))


# ------------------------------------------------------------ evaluation of prepared segments


class Holder:
    pass


def segments(ctx):
    """Every placement of segments of three objects: which row, which time."""
    layouts = [
        [(0.0, 4.0)],
        [(0.0, 2.0), (2.0, 4.0)],
        [(0.0, 1.0), (1.0, 4.0)],
        [(2.0, 4.0), (0.0, 2.0)],
        [(0.0, 1.0), (3.0, 4.0)],
    ]
    times = [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 3.9, 4.0, 5.0]
    for lay in itertools.product(range(5), repeat=3):
        for ids, order in (([5, 2, 9], "byobj"), ([5, 2, 9], "bytime"), (["z", "aa", "m"], "byobj")):
            rows = []
            for o, (i, li) in enumerate(zip(ids, lay)):
                for s, (a, b) in enumerate(layouts[li]):
                    rows.append((i, a, b, o, s))
            if order == "bytime":
                rows.sort(key=lambda r: (r[1], r[3]))
            for query in (None, list(ids), ids[::-1], ids[1:2], [ids[2], ids[0]], ids[0]):
                for extrapolate in (False, True):
                    if not ctx.case(lay, order, ids, query, extrapolate):
                        continue
                    h = Holder()
                    h.coeffs = {
                        "obj_id": [r[0] for r in rows],
                        "t_start": [r[1] for r in rows],
                        "t_end": [r[2] for r in rows],
                    }
                    for q, key in enumerate(KEYS):
                        h.coeffs[key] = [[10.0 * (r[3] + 1) + r[4] + 100 * q, 0.5 + r[3], 0.25 * r[4]][: 2 if q > 2 else 3] for r in rows]
                    cv = ChebyValues()
                    cv.set_coefficients(h)
                    ctx.expect("meanRA" not in h.coeffs and isinstance(h.coeffs["ra"], list), "set_coefficients changed its argument")
                    arg = np.array(query) if isinstance(query, list) else query
                    keep = None if not isinstance(query, list) else arg.copy()
                    ok, e = ctx.must(cv.get_ephemerides, np.array(times), arg, extrapolate, what="get_ephemerides")
                    if not ok:
                        continue
                    if keep is not None:
                        ctx.equal(arg.tolist(), keep.tolist(), "the caller's ids changed")
                    who = sorted(ids) if query is None else (query if isinstance(query, list) else [query])
                    if not ctx.equal(sorted(e["obj_id"].tolist()), sorted(who), "objects returned"):
                        continue
                    for r, oid in enumerate(e["obj_id"].tolist()):
                        o = ids.index(oid)
                        for it, t in enumerate(times):
                            sel = [(a, b, s) for s, (a, b) in enumerate(layouts[lay[o]]) if a <= t < b]
                            if not sel and t == 4.0 or (not sel and t > 4.0 and extrapolate):
                                sel = [(a, b, s) for s, (a, b) in enumerate(layouts[lay[o]]) if b == 4.0]
                            if not sel and t < 0 and extrapolate:
                                sel = [(a, b, s) for s, (a, b) in enumerate(layouts[lay[o]]) if a == 0.0]
                            if not sel:
                                if -1 < t < 5:
                                    ctx.expect(np.isnan(e["ra"][r][it]), "a value where the object has no segment", t=t, oid=oid, got=e["ra"][r][it])
                                else:
                                    ctx.expect(np.isnan(e["ra"][r][it]) and np.isnan(e["vmag"][r][it]), "a value outside the range of the segments", t=t, oid=oid)
                                continue
                            a, b, s = sel[0]
                            val = {}
                            for q, key in enumerate(KEYS):
                                p = [10.0 * (o + 1) + s + 100 * q, 0.5 + o, 0.25 * s][: 2 if q > 2 else 3]
                                val[key] = refeval(t, p, a, b)
                            want = dict(ra=val["ra"][0], dec=val["dec"][0], dradt=val["ra"][1] * np.cos(np.radians(val["dec"][0])), ddecdt=val["dec"][1], geo_dist=val["geo_dist"][0], vmag=val["vmag"][0], elongation=val["elongation"][0])
                            for key, w in want.items():
                                if not ctx.equal(float(e[key][r][it]), float(w), "value of an object at a time", what=key, oid=oid, t=t):
                                    break
                    ctx.outcome((lay, str(query), extrapolate))
    # an unknown object is refused
    if ctx.case("unknown"):
        for bad in ([5, 77], [77], 77):
            ctx.raises(ValueError, cv.get_ephemerides, np.array([1.0]), bad, what="an unknown object")
        ctx.raises(IOError, cv.read_coefficients, os.path.join(ctx.scratch, "nowhere"), what="a missing file")
        for key in ("obj_id", "t_start", "t_end") + KEYS:
            h2 = Holder()
            h2.coeffs = {k: v for k, v in h.coeffs.items() if k != key}
            ctx.raises(ValueError, ChebyValues().set_coefficients, h2, what="missing coefficients")
        one = cv.get_ephemerides(1.0)
        ctx.equal(one["ra"].shape, (3, 1), "scalar time")


# ------------------------------------------------------------ chebyshev utilities


def evaluation(ctx):
    xs = np.array([-1.5, -1.0, -0.3, 0.0, 0.4, 1.0, 1.2])
    for n in range(1, 6 if not ctx.thorough else 8):
        for p in itertools.product((-1.0, 0.0, 2.0), repeat=n):
            if not ctx.case("eval", n, p):
                continue
            c = np.polynomial.Chebyshev(p, domain=[-1, 1])
            for lo, hi in ((-1.0, 1.0), (0.0, 4.0), (60000.0, 60002.5)):
                t = lo + (xs + 1) * (hi - lo) / 2
                out = (t < lo) | (t > hi)
                y, v = c(xs), (c.deriv()(xs) if n > 1 else np.zeros(7)) * 2 / (hi - lo)
                tol = 1e-9 if hi < 100 else 1e-6
                for vel, mask, pp in itertools.product((True, False), (True, False), (list(p), np.array(p))):
                    gy, gv = chebeval(t, pp, interval=(lo, hi), do_velocity=vel, mask=mask)
                    wy = np.where(out, np.nan, y) if mask else y
                    ctx.equal(np.asarray(gy, float) + 0 * t, wy, "chebeval value", rtol=tol, atol=tol)
                    if vel:
                        ctx.equal(np.asarray(gv, float) + 0 * t, np.where(out, np.nan, v) if mask else v, "chebeval velocity", rtol=tol * 10, atol=tol * 10)
                    else:
                        ctx.expect(gv is None, "velocity returned unasked")
                gy, gv = chebeval(float(t[3]), p, interval=[lo, hi])
                ctx.equal([float(gy), float(gv)], [float(y[3]), float(v[3])], "chebeval of a scalar", rtol=tol * 10, atol=tol * 10)
            ctx.outcome(p)
    if ctx.case("bad interval"):
        for iv in ((0.0,), (0.0, 1.0, 2.0)):
            ctx.raises(RuntimeError, chebeval, xs, [1.0], interval=iv)


def kkt(n_points, n_poly, x, dx):
    """Independent constrained least squares (null space method)."""
    s = np.linspace(-1, 1, n_points)
    T = np.polynomial.chebyshev.chebvander(s, n_poly - 1)
    D = np.column_stack([np.polynomial.Chebyshev.basis(k, domain=[-1, 1]).deriv()(s) if k else np.zeros(n_points) for k in range(n_poly)])
    if dx is None:
        A, b = T, x
        Cm, d = T[[0, -1]], x[[0, -1]]
    else:
        A, b = np.vstack([T, 0.4 * D]), np.concatenate([x, 0.4 * dx])
        Cm, d = np.vstack([T[[0, -1]], D[[0, -1]]]), np.concatenate([x[[0, -1]], dx[[0, -1]]])
    part = np.linalg.lstsq(Cm, d, rcond=None)[0]
    _, sv, vt = np.linalg.svd(Cm)
    N = vt[len(sv):].T
    if N.shape[1]:
        z = np.linalg.lstsq(A @ N, b - A @ part, rcond=None)[0]
        part = part + N @ z
    return part, T @ part, D @ part


def fitting(ctx):
    nmax = 6 if not ctx.thorough else 8
    for npts in range(3, nmax + 1):
        for n_poly in range(1, 2 * npts + 2):
            for vel in (False, True):
                for t0, ln in ((0.0, 2.0), (60000.0, 0.5)):
                    t = t0 + np.linspace(0, ln, npts)
                    bad = n_poly > npts or n_poly < 2 if not vel else n_poly > 2 * npts or n_poly < 4
                    singular = vel and n_poly > 2 * npts - 0
                    datas = list(itertools.product((0.0, 1.0), repeat=npts)) if npts <= 5 else [tuple(r) for r in np.eye(npts)]
                    for q, data in enumerate(datas):
                        if not ctx.case("fit", npts, n_poly, vel, t0, data):
                            continue
                        x = np.array(data)
                        dx = None if not vel else np.roll(x, 1) - 0.5
                        if bad:
                            ctx.raises(RuntimeError, chebfit, t, x, dxdt=dx, n_poly=n_poly, what="n_poly out of range")
                            continue
                        if singular:
                            continue
                        scale = ln / 2
                        want, wx, wd = kkt(npts, n_poly, x, None if dx is None else dx * scale)
                        mults = [(None, None)]
                        mults.append((np.zeros((n_poly, npts + 1)), np.zeros((n_poly, npts + 1))))
                        mults.append((np.zeros((n_poly + 1, npts)), np.zeros((n_poly + 1, npts))))
                        if vel:
                            mults.append(make_cheb_matrix(npts, n_poly))
                        else:
                            mults.append((make_cheb_matrix_only_x(npts, n_poly), None))
                        for mx, md in mults:
                            ok, got = ctx.must(chebfit, t, x, dxdt=dx, x_multiplier=mx, dx_multiplier=md, n_poly=n_poly, what="chebfit")
                            if not ok:
                                break
                            a, res, rms, mres = got
                            good = ctx.equal(a, want, "coefficients are not the constrained least squares fit", rtol=1e-5, atol=1e-6)
                            ctx.equal(res, x - wx, "residuals", rtol=1e-5, atol=1e-6)
                            ctx.equal([float(rms), float(mres)], [float(np.sqrt(np.sum((x - wx) ** 2) / (npts - 1))), float(np.abs(x - wx).max())], "rms and maximum residual", rtol=1e-5, atol=1e-6)
                            ctx.expect(abs(res[0]) < 1e-6 and abs(res[-1]) < 1e-6, "the fit does not pass through the end points")
                            if not good:
                                break
                        ctx.outcome(np.round(want, 6).tolist(), trivial=not x.any())


UNITS = [Unit(f"fits_{k}", fits, k=k) for k in range(6)] + [Unit("files", files), Unit("segments", segments), Unit("evaluation", evaluation), Unit("fitting", fitting)]
