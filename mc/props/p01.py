"""P01: a spectrum through every sequence of operations."""
import itertools
import os

import numpy as np

from mc.core import Unit
from rubin_sim.phot_utils import Bandpass, PhotometricParameters, Sed

PROPERTY = "P01"
LEVEL = "model_checking"
RULE = (
    "every sequence of operations of a finite menu on a real Sed from each starting spectrum, each step compared with "
    "an independent model of (wavelengths, flux), and after it every observer; non-trivial = a state not seen before"
)
ASSUMPTIONS = [
    "wavelengths increase; bandpasses are uniformly sampled",
    "the zero point of a magnitude is 3631 Jy",
]
C, NM, JY, H = 299792458.0, 1e-9, 1e23, 6.626068e-27
ZP = -2.5 * np.log10(3631.0)

# ---------------------------------------------------------------- model


def edges(w):
    e = np.empty(len(w) + 1)
    e[1:-1] = (w[1:] + w[:-1]) / 2
    e[0] = w[0] - (w[1] - w[0]) / 2
    e[-1] = w[-1] + (w[-1] - w[-2]) / 2
    return e


def rebin(new, old, f, fill=np.nan):
    """Mean over each new bin of the old piecewise constant spectrum."""
    eo, en = edges(old), edges(new)
    out = np.empty(len(new))
    for j in range(len(new)):
        if en[j] < eo[0] or en[j + 1] > eo[-1]:
            out[j] = fill
            continue
        ov = np.clip(np.minimum(eo[1:], en[j + 1]) - np.maximum(eo[:-1], en[j]), 0, None)
        k = ov > 0
        out[j] = float(np.sum(ov[k] * f[k]) / np.sum(ov[k]))
    return out


def near_edge(new, old, f=None):
    """A bin edge of the new grid within rounding of an end of the old one (or,
    where flux is undefined, of any edge of the old one)."""
    eo, en = edges(old), edges(new)
    if f is not None and not np.all(np.isfinite(f)) and np.any(np.abs(en[:, None] - eo[None, :]) < 1e-7):
        return True
    return bool(np.any(np.abs(en - eo[0]) < 1e-7) or np.any(np.abs(en - eo[-1]) < 1e-7))


def fnu_of(w, fl):
    return fl * w * w * NM / C * JY


def fl_of(w, fn):
    return fn / JY * C / NM / (w * w)


def dust_ab(w, law):
    x = 1000.0 / w
    a, b = np.zeros(len(w)), np.zeros(len(w))
    for i, v in enumerate(x):
        if 0.3 <= v < 1.1:
            a[i], b[i] = 0.574 * v**1.61, -0.527 * v**1.61
        elif 1.1 <= v < 3.3:
            y = v - 1.82
            if law == "ccm":
                ca = [1, 0.17699, -0.50447, -0.02427, 0.72085, 0.01979, -0.77530, 0.32999]
                cb = [0, 1.41338, 2.28305, 1.07233, -5.38434, -0.62251, 5.30260, -2.09002]
            else:
                ca = [1, 0.104, -0.609, 0.701, 1.137, -1.718, -0.827, 1.647, -0.505]
                cb = [0, 1.952, 2.908, -3.989, -7.985, 11.102, 5.491, -10.805, 3.347]
            a[i] = np.polyval(ca[::-1], y)
            b[i] = np.polyval(cb[::-1], y)
        elif 3.3 <= v < 8:
            fa = fb = 0.0
            if v >= 5.9:
                d = v - 5.9
                fa, fb = -0.04473 * d**2 - 0.009779 * d**3, 0.2130 * d**2 + 0.1207 * d**3
            a[i] = 1.752 - 0.316 * v - 0.104 / ((v - 4.67) ** 2 + 0.341) + fa
            b[i] = -3.090 + 1.825 * v + 1.206 / ((v - 4.62) ** 2 + 0.263) + fb
        elif 8 <= v <= 11:
            y = v - 8
            a[i] = -1.073 - 0.628 * y + 0.137 * y**2 - 0.070 * y**3
            b[i] = 13.670 + 4.257 * y - 0.420 * y**2 + 0.374 * y**3
    return a, b


def m_redshift(w, f, z, dim):
    if z < 0:
        return w / (1 - z), (f * (1 - z) if dim else f)
    return w * (1 + z), (f / (1 + z) if dim else f)


def m_dust(w, f, law, av, rv):
    a, b = dust_ab(w, law)
    return w, f * 10 ** (-0.4 * av * (a + b / rv))


def m_interp(w, f, at):
    return float(np.interp(at, w, f))


def grid(lo, hi, st):
    n = int(round((hi - lo) / st))
    return lo + st * np.arange(n + 1)


# ---------------------------------------------------------------- starts

W1 = np.array([500.0, 501, 502, 503, 504, 505, 506, 507, 508, 509, 510])
W2 = np.array([480.0, 490, 495, 500, 502, 505, 507, 512, 520, 535])
W3 = 100.0 + 50.0 * np.arange(12)
STARTS = {
    "fine": (W1, 1e-12 * (1 + 0.1 * np.arange(11) ** 2)),
    "uneven": (W2, 1e-13 * np.array([1, 5, 2, 0.0, 4, 4, 1, 7, 3, 2])),
    "wide": (W3, 1e-14 * (5 + np.cos(np.arange(12)))),
}
BPS = {
    "in": (grid(501, 507, 1.0), np.array([0, 0.2, 0.5, 0.9, 0.5, 0.2, 0])),
    "half": (grid(502, 506, 0.5), np.array([0.1, 0.2, 0.5, 0.9, 1, 0.9, 0.5, 0.2, 0.1])),
    "shifted": (grid(330, 345, 2.5), np.array([0, 0.3, 0.6, 1, 0.6, 0.3, 0])),
    "out": (grid(495, 515, 2.0), np.linspace(0.1, 0.9, 11)),
}
PPS = [PhotometricParameters(), PhotometricParameters(exptime=30.0, nexp=1, gain=1.7, effarea=3.0e5)]


def mutators():
    """name -> (apply to Sed, model (w, f) -> (w, f))"""
    ops = {}
    for z, dim in [(0.5, False), (-0.5, True), (0.25, True), (-0.25, False)]:
        ops[f"z{z}{'d' if dim else ''}"] = (
            lambda s, z=z, d=dim: s.redshift_sed(z, dimming=d),
            lambda w, f, z=z, d=dim: m_redshift(w, f, z, d),
        )
    for law in ("ccm", "odonnell"):
        setup = "setup_ccm_ab" if law == "ccm" else "setup_o_donnell_ab"
        for nm, kw, av, rv in [
            ("ebv", dict(ebv=0.3), 0.93, 3.1),
            ("av4", dict(a_v=0.8, r_v=4.0), 0.8, 4.0),
            ("avebv", dict(a_v=1.0, ebv=0.25), 1.0, 4.0),
            ("ebv4", dict(ebv=0.2, r_v=4.0), 0.8, 4.0),
            ("avonly", dict(a_v=0.5), 0.5, 3.1),
        ]:
            if law == "odonnell" and nm not in ("ebv", "ebv4"):
                continue
            ops[f"{law}:{nm}"] = (
                lambda s, st=setup, kw=kw: s.add_dust(*getattr(s, st)(), **kw),
                lambda w, f, l=law, a=av, r=rv: m_dust(w, f, l, a, r),
            )
    ops["x2"] = (lambda s: s.multiply_flux_norm(2.0), lambda w, f: (w, 2 * f))
    ops["sync"] = (lambda s: s.synchronize_sed(), lambda w, f: (w, f))
    for lo, hi, st in [(501.3, 508.3, 0.7), (502.0, 506.0, 0.1), (320.0, 350.0, 2.5)]:
        ops[f"resample{lo}-{st}"] = (
            lambda s, a=(lo, hi, st): s.resample_sed(wavelen_min=a[0], wavelen_max=a[1], wavelen_step=a[2]),
            lambda w, f, g=grid(lo, hi, st): (g, rebin(g, w, f)),
        )
    ops["regrid-sync"] = (
        lambda s: s.synchronize_sed(wavelen_min=503.0, wavelen_max=505.0, wavelen_step=0.4),
        lambda w, f, g=grid(503.0, 505.0, 0.4): (g, rebin(g, w, f)),
    )
    ops["same-grid"] = (lambda s: s.resample_sed(wavelen_match=s.wavelen.copy()), lambda w, f: (w, f))
    ops["forced"] = (lambda s: s.resample_sed(wavelen_match=s.wavelen.copy(), force=True), lambda w, f: (w, f))

    def m_norm(w, f, what):
        at = 0.4 * w[2] + 0.6 * w[3]
        g = f if what == "flambda" else fnu_of(w, f)
        v = m_interp(w, g, at)
        return w, f * (3.0 / v)

    for what in ("flambda", "fnu"):
        ops[f"norm-{what}"] = (
            lambda s, x=what: s.renormalize_sed(lambdanorm=0.4 * s.wavelen[2] + 0.6 * s.wavelen[3], normvalue=3.0, normflux=x),
            lambda w, f, x=what: m_norm(w, f, x),
        )

    def refill(s):
        w, fn = s.get_sed_fnu()
        s.clear_sed()
        s.set_sed(w, fnu=fn)

    ops["refill"] = (refill, lambda w, f: (w, f))
    return ops


def in_domain(name, w, f):
    """The menu entry is meaningful in this state."""
    if name.startswith("norm-"):
        at = 0.4 * w[2] + 0.6 * w[3]
        v = m_interp(w, f, at)
        return np.isfinite(v) and v != 0
    if name.startswith("resample") or name == "regrid-sync":
        g = {"regrid-sync": grid(503.0, 505.0, 0.4)}.get(name)
        if g is None:
            lo, st = name[8:].split("-")
            hi = {"501.3": 508.3, "502.0": 506.0, "320.0": 350.0}[lo]
            g = grid(float(lo), hi, float(st))
        return not near_edge(g, w, f)
    if name == "forced":
        return bool(np.all(np.isfinite(f)))
    return True


def check_state(ctx, s, w, f, after):
    scale = np.nanmax(np.abs(f)) if np.any(np.isfinite(f)) else 1.0
    ctx.equal(np.asarray(s.wavelen), w, f"wavelengths are wrong after {after}", rtol=1e-9)
    ctx.equal(np.asarray(s.flambda), f, f"flambda is wrong after {after}", rtol=1e-7, atol=1e-9 * scale)
    if s.fnu is not None:
        fn = fnu_of(w, f)
        sc = np.nanmax(np.abs(fn)) if np.any(np.isfinite(fn)) else 1.0
        ctx.equal(np.asarray(s.fnu), fn, f"fnu does not belong to flambda after {after}", rtol=1e-7, atol=1e-9 * sc)


def ref_flux(w, fn, bw, sb):
    if not (len(bw) == len(w) and np.all(np.abs(bw - w) <= 1e-10)):
        fn = rebin(bw, w, fn)
    phi = sb / bw
    phi = phi / np.trapezoid(phi, bw)
    return float(np.trapezoid(fn * phi, bw))


def observers(ctx, s, w, f, fresh_bp):
    """Every observer: its value, and that the spectrum is as before."""
    fn = fnu_of(w, f)
    # copies handed out are the caller's
    a, b = s.get_sed_flambda()
    check_pair(ctx, a, b, w, f, "get_sed_flambda")
    a += 1
    b += 1
    a, b = s.get_sed_fnu()
    check_pair(ctx, a, b, w, fn, "get_sed_fnu")
    a += 1
    b += 1
    check_state(ctx, s, w, f, "changing the arrays it handed out")
    bps = dict(BPS)
    # a bandpass with as many points and the same ends, but other points
    even = np.linspace(w[0], w[-1], len(w))
    if len(w) > 4 and np.max(np.abs(even - w)) > 1e-3:
        bps["same-ends"] = (even, 0.1 + 0.8 * (np.arange(len(w)) % 3 > 0))
    for name, (bw, sb) in bps.items():
        if near_edge(bw, w, f):
            continue
        bp = Bandpass(bw, sb)
        want = ref_flux(w, fn, bw, sb)
        ctx.equal(float(s.calc_flux(bp)), want, f"calc_flux through {name}", rtol=1e-7)
        if np.isfinite(want) and want > 1e-300:
            mag = -2.5 * np.log10(want / 3631.0)
            ctx.equal(float(s.calc_mag(bp)), mag, f"calc_mag through {name}", rtol=1e-9, atol=1e-7)
            ctx.equal(float(s.calc_flux_norm(mag - 1.5, bp)), 10**0.6, "calc_flux_norm", rtol=1e-6)
        elif want == 0:
            ctx.raises(ValueError, s.calc_mag, bp, what="the magnitude of no flux")
        for pp in PPS:
            g = fn if (len(bw) == len(w) and np.all(np.abs(bw - w) <= 1e-10)) else rebin(bw, w, fn)
            want = float(np.sum(g * sb / bw)) * (bw[1] - bw[0]) * pp.exptime * pp.nexp * pp.effarea / pp.gain / JY / H
            ctx.equal(float(s.calc_adu(bp, pp)), want, f"calc_adu through {name}", rtol=1e-7)
        g = f if (len(bw) == len(w) and np.all(np.abs(bw - w) <= 1e-10)) else rebin(bw, w, f)
        ctx.equal(float(s.calc_ergs(bp)), float(np.trapezoid(g * sb, bw)), f"calc_ergs through {name}", rtol=1e-7, atol=1e-25)
        ctx.equal(bp.wavelen, bw, "a bandpass was changed by measuring a spectrum")
        ctx.equal(bp.sb, sb, "a bandpass was changed by measuring a spectrum")
    check_state(ctx, s, w, f, "measuring it")


def check_pair(ctx, a, b, w, f, what):
    sc = np.nanmax(np.abs(f)) if np.any(np.isfinite(f)) else 1.0
    ctx.equal(np.asarray(a), w, f"wavelengths from {what}", rtol=1e-9)
    ctx.equal(np.asarray(b), f, f"flux from {what}", rtol=1e-7, atol=1e-9 * sc)


def array_forms(ctx, s, w, f):
    """The same operations on arrays given: arguments and the object unchanged."""
    fn = fnu_of(w, f)

    def go(what, call, want, first=w, second=f):
        a, b = first.copy(), second.copy()
        ok, got = ctx.must(call, a, b, what=what)
        ctx.equal(a, first, f"{what} changed the wavelengths it was given")
        ctx.equal(b, second, f"{what} changed the flux it was given")
        if ok:
            if isinstance(got, Sed):
                got = (got.wavelen, got.flambda)
            check_pair(ctx, got[0], got[1], want[0], want[1], what)
        check_state(ctx, s, w, f, f"{what} of other arrays")

    go("redshift_sed", lambda a, b: s.redshift_sed(0.5, wavelen=a, flambda=b), m_redshift(w, f, 0.5, False))
    go("redshift_sed dimming", lambda a, b: s.redshift_sed(-0.5, dimming=True, wavelen=a, flambda=b), m_redshift(w, f, -0.5, True))
    go("add_dust", lambda a, b: s.add_dust(*s.setup_ccm_ab(a), ebv=0.3, wavelen=a, flambda=b), m_dust(w, f, "ccm", 0.93, 3.1))
    go("flambda_tofnu", lambda a, b: s.flambda_tofnu(a, b), (w, fn))
    go("fnu_toflambda", lambda a, b: s.fnu_toflambda(a, b), (w, f), w, fn)
    go("multiply_flux_norm", lambda a, b: s.multiply_flux_norm(2.0, a, b), (w, 2 * fn), w, fn)
    g = grid(501.3, 508.3, 0.7)
    if not near_edge(g, w, f):
        go("resample_sed", lambda a, b: s.resample_sed(a, b, wavelen_match=g), (g, rebin(g, w, f)))
        go("resample_sed with a fill", lambda a, b: s.resample_sed(a, b, wavelen_match=g, fill=7.0), (g, rebin(g, w, f, 7.0)))
    at = 0.4 * w[2] + 0.6 * w[3]
    v = m_interp(w, f, at)
    if np.isfinite(v) and v != 0:
        go("renormalize_sed", lambda a, b: s.renormalize_sed(wavelen=a, flambda=b, lambdanorm=at, normvalue=3.0), (w, f * 3 / v))
        go("renormalize_sed from fnu", lambda a, b: s.renormalize_sed(wavelen=a, fnu=b, lambdanorm=at, normvalue=3.0), (w, f * 3 / v), w, fn)
        u = m_interp(w, fn, at)
        go("renormalize_sed of fnu", lambda a, b: s.renormalize_sed(wavelen=a, fnu=b, lambdanorm=at, normvalue=3.0, normflux="fnu"), (w, f * 3 / u), w, fn)
        go("renormalize_sed of fnu from flambda", lambda a, b: s.renormalize_sed(wavelen=a, flambda=b, lambdanorm=at, normvalue=3.0, normflux="fnu"), (w, f * 3 / u))
    ctx.raises(ValueError, s.redshift_sed, 0.1, wavelen=w, what="wavelengths without flux")
    ctx.raises(ValueError, s.flambda_tofnu, w, f[:-1], what="arrays of unequal length")
    # product of two spectra
    o = Sed(np.array(s.wavelen), np.arange(1.0, len(w) + 1))
    p = s.multiply_sed(o)
    check_pair(ctx, p.wavelen, p.flambda, w, f * np.arange(1.0, len(w) + 1), "multiply_sed")
    ow, of = grid(496.0, 512.0, 0.8), 1.0 + np.arange(21) % 4
    lo, hi = max(w[0], ow[0]), min(w[-1], ow[-1])
    if hi - lo > 2:
        st = (hi - lo) / 8
        g = grid(lo, hi, st)
        if not near_edge(g, w, f) and not near_edge(g, ow):
            o = Sed(ow.copy(), of.copy())
            ok, p = ctx.must(s.multiply_sed, o, wavelen_step=st, what="multiply_sed on two grids")
            if ok:
                check_pair(ctx, p.wavelen, p.flambda, g, rebin(g, w, f) * rebin(g, ow, of), "multiply_sed on two grids")
            check_pair(ctx, o.wavelen, o.flambda, ow, of, "the other spectrum after multiply_sed")
    check_state(ctx, s, w, f, "multiplying it into another")


def sequences(ctx, start, depth):
    ops = mutators()
    names = list(ops)
    w0, f0 = STARTS[start]
    ctx.bounds = {"operations": names, "depth": depth}
    for how in ("flambda", "fnu"):
        for n in range(depth + 1):
            for seq in itertools.product(names, repeat=n):
                w, f = w0.copy(), f0.copy()
                ok = True
                for nm in seq:
                    if not in_domain(nm, w, f):
                        ok = False
                        break
                    w, f = ops[nm][1](w, f)
                if not ok or not ctx.case(start, how, seq):
                    continue
                given_w, given_f = w0.copy(), (f0.copy() if how == "flambda" else fnu_of(w0, f0))
                s = Sed(given_w, **{how: given_f})
                given_w += 3
                given_f *= 7
                w, f = w0.copy(), f0.copy()
                check_state(ctx, s, w, f, "building it")
                good = True
                for nm in seq:
                    good, _ = ctx.must(ops[nm][0], s, what=nm)
                    if not good:
                        break
                    w, f = ops[nm][1](w, f)
                    ctx.transitions += 1
                    check_state(ctx, s, w, f, nm)
                if not good:
                    continue
                ctx.traces += 1
                if ctx.state((start, how, s.fnu is None, np.round(w, 6).tolist(), ["%.6g" % x for x in f])):
                    observers(ctx, s, w, f, None)
                    array_forms(ctx, s, w, f)
                    ctx.outcome([float(w[0]), float(w[-1]), float(np.nansum(f))])


def files(ctx):
    """Write and read back; the spectrum as it was."""
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    k = 0
    for start, header, regrid, pf in itertools.product(STARTS, (None, "made here\n", "# made here\n"), (None, (502.0, 506.0, 0.5)), (False, True)):
        if not ctx.case(start, header, regrid, pf):
            continue
        k += 1
        w, f = (x.copy() for x in STARTS[start])
        s = Sed(w.copy(), f.copy())
        fn = os.path.join(d, f"s{k}.dat")
        kw = {} if regrid is None else dict(wavelen_min=regrid[0], wavelen_max=regrid[1], wavelen_step=regrid[2])
        if regrid is not None and near_edge(grid(*regrid), w):
            continue
        if not ctx.must(s.write_sed, fn, print_header=header, print_fnu=pf, what="write_sed", **kw)[0]:
            continue
        check_state(ctx, s, w, f, "writing it")
        if regrid:
            g = grid(*regrid)
            w, f = g, rebin(g, w, f)
        rows = np.loadtxt(fn, ndmin=2)
        ctx.equal(rows[:, 0], w, "wavelengths in the file", rtol=1e-6)
        ctx.equal(rows[:, 1], f, "flambda in the file", rtol=1e-6, atol=0)
        if pf:
            ctx.equal(rows[:, 2], fnu_of(w, f), "fnu in the file", rtol=1e-6, atol=0)
        else:
            for again in range(2):
                r = Sed()
                if ctx.must(r.read_sed_flambda, fn, what="read_sed_flambda")[0]:
                    ctx.equal(r.wavelen, w, "wavelengths read", rtol=1e-6)
                    ctx.equal(r.flambda, f, "flambda read", rtol=1e-6, atol=0)
                    # what a reader does with its spectrum is not seen by the next
                    r.redshift_sed(1.0)
                    r.add_dust(*r.setup_ccm_ab(), ebv=1.0)
                    r.wavelen += 1
            with open(fn + ".fnu", "w") as fh:
                fh.write("# w fnu\n")
                for a, b in zip(w, fnu_of(w, f)):
                    fh.write(f"{a!r} {b!r}\n".replace("np.float64(", "").replace(")", ""))
            r = Sed()
            if ctx.must(r.read_sed_fnu, fn + ".fnu", what="read_sed_fnu")[0]:
                check_state(ctx, r, w, f, "read_sed_fnu")
        ctx.state((start, header, regrid, pf))
        ctx.outcome([start, len(w), float(np.nansum(f))])


def dust_everywhere(ctx):
    """Both laws at every wavelength of a grid with all the break points."""
    for law, fnname in (("ccm", "setup_ccm_ab"), ("odonnell", "setup_o_donnell_ab")):
        xs = sorted(set([0.3, 1.1, 3.3, 5.9, 8.0, 11.0] + [round(0.2 + 0.05 * i, 3) for i in range(220)]))
        w = np.array([1000.0 / x for x in xs if x != 1.1 and x != 3.3 and x != 0.3 and x != 11.0])
        a, b = dust_ab(w, law)
        for i in range(len(w)):
            if not ctx.case(law, float(w[i])):
                continue
            ga, gb = getattr(Sed(), fnname)(w[max(0, i - 1) : i + 2])
            j = i - max(0, i - 1)
            near = min(abs(1000.0 / w[i] - v) for v in (0.3, 1.1, 3.3, 8.0, 11.0))
            if near < 1e-9:
                continue
            ctx.equal(float(ga[j]), float(a[i]), f"a(x) of {law}", rtol=1e-9, atol=1e-9)
            ctx.equal(float(gb[j]), float(b[i]), f"b(x) of {law}", rtol=1e-9, atol=1e-9)
            ctx.state((law, i))
            ctx.outcome([law, float(ga[j]), float(gb[j])], trivial=float(ga[j]) == 0)


BP_OPS = {
    "resample-size7": dict(wavelen_min=502.0, wavelen_max=508.0, wavelen_step=1.0),
    "resample-7b": dict(wavelen_min=500.5, wavelen_max=503.5, wavelen_step=0.5),
    "resample-3": dict(wavelen_min=502.0, wavelen_max=506.0, wavelen_step=2.0),
}


def bandpass_history(ctx, depth):
    """A bandpass used, changed and used again: each flux is that of the curve it now is."""
    w, f = STARTS["fine"]
    fn = fnu_of(w, f)
    names = ["use", "phi", "set7", "set5", "times"] + list(BP_OPS)
    for n in range(1, depth + 1):
        for seq in itertools.product(names, repeat=n):
            if not ctx.case("bandpass", seq):
                continue
            bw, sb = BPS["in"]
            bp = Bandpass(bw.copy(), sb.copy())
            s = Sed(w.copy(), f.copy())
            for nm in seq:
                if nm == "use":
                    s.calc_flux(bp)
                elif nm == "phi":
                    bp.sb_tophi()
                elif nm == "set7":
                    bw, sb = grid(502, 508, 1.0), np.array([0.5, 0.1, 0.9, 0.3, 0.7, 0.2, 0.6])
                    bp.set_bandpass(bw.copy(), sb.copy())
                elif nm == "set5":
                    bw, sb = grid(503, 505, 0.5), np.array([0.0, 0.4, 0.8, 0.4, 0.0])
                    bp.set_bandpass(bw.copy(), sb.copy())
                elif nm == "times":
                    a, b = bp.multiply_throughputs(bw.copy(), np.linspace(0.2, 0.9, len(bw)))
                    ctx.equal(b, sb * np.linspace(0.2, 0.9, len(bw)), "product of curves", rtol=1e-9, atol=1e-12)
                else:
                    kw = BP_OPS[nm]
                    g = grid(kw["wavelen_min"], kw["wavelen_max"], kw["wavelen_step"])
                    bp.resample_bandpass(**kw)
                    sb, bw = np.interp(g, bw, sb, left=0, right=0), g
            ctx.equal(bp.wavelen, bw, "wavelengths of the bandpass", rtol=1e-9)
            ctx.equal(bp.sb, sb, "throughput of the bandpass", rtol=1e-7, atol=1e-9)
            if np.sum(sb) <= 0 or near_edge(bw, w, f):
                continue
            ctx.equal(float(s.calc_flux(bp)), ref_flux(w, fn, bw, sb), "flux through a bandpass with a history", rtol=1e-7)
            ctx.equal(float(np.trapezoid(bp.phi, bp.wavelen)), 1.0, "normalization of the response", rtol=1e-9)
            ctx.equal(bp.phi * bw * np.sum(sb), sb * np.sum(bp.phi * bw), "the response belongs to the throughput", rtol=1e-7, atol=1e-9)
            ctx.state((np.round(bw, 6).tolist(), np.round(sb, 6).tolist(), seq[-1]))
            ctx.outcome(float(s.calc_flux(bp)))


UNITS = []
for _s in STARTS:
    UNITS.append(Unit(f"seq_{_s}", sequences, start=_s, depth=3, tiers=("quick",)))
    UNITS.append(Unit(f"seq4_{_s}", sequences, start=_s, depth=4, tiers=("thorough",)))
UNITS += [Unit("bandpass", bandpass_history, depth=3, tiers=("quick",)), Unit("bandpass5", bandpass_history, depth=5, tiers=("thorough",))]
UNITS += [Unit("files", files), Unit("dust", dust_everywhere)]
