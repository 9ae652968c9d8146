"""P03: throughput curves and resampling."""
import gzip
import itertools
import os
from fractions import Fraction as Fr

import numpy as np

from mc.core import Unit
from mc.props.p01 import H, JY, fl_of, fnu_of, grid, rebin
from rubin_sim.phot_utils import Bandpass, PhotometricParameters, Sed
from rubin_sim.phot_utils.photometric_parameters import DustValues
from rubin_sim.phot_utils.sed_utils import get_imsim_flux_norm
from rubin_sim.phot_utils.spectral_resampling import spectres

PROPERTY = "P03"
LEVEL = "exploration"
RULE = (
    "every pair of short old and new wavelength grids with every assignment of flux, resampled and compared with exact "
    "rational overlaps; every layout of a throughput file (order of rows, comments, compression, duplicates); every pair "
    "and triple of component curves; non-trivial = flux in range or a curve accepted"
)
ASSUMPTIONS = ["wavelengths increase strictly after sorting", "throughputs are finite"]


def fedges(w):
    n = len(w)
    return [w[0] - (w[1] - w[0]) / 2] + [(w[i] + w[i + 1]) / 2 for i in range(n - 1)] + [w[-1] + (w[-1] - w[-2]) / 2]


def exact(new, old, f, e=None):
    eo, en = fedges(old), fedges(new)
    out, err = [], []
    for j in range(len(new)):
        if en[j] < eo[0] or en[j + 1] > eo[-1]:
            out.append(None)
            err.append(None)
            continue
        ov = [max(Fr(0), min(eo[i + 1], en[j + 1]) - max(eo[i], en[j])) for i in range(len(old))]
        t = sum(ov)
        out.append(sum(a * b for a, b in zip(ov, f)) / t)
        if e is not None:
            err.append(float(sum((a * b) ** 2 for a, b in zip(ov, e))) ** 0.5 / float(t))
    return out, err


def grids(starts, steps, lengths):
    for s in starts:
        for n in lengths:
            for d in itertools.product(steps, repeat=n - 1):
                w = [Fr(s)]
                for x in d:
                    w.append(w[-1] + x)
                yield w


def resampling(ctx, k):
    olds = list(grids([10], [Fr(1), Fr(2), Fr(1, 2)], ctx.pick((2, 3, 4), (2, 3, 4, 5))))
    news = list(grids([Fr(19, 2), Fr(10), Fr(41, 4), Fr(11)], [Fr(1, 4), Fr(1), Fr(3, 2)], (2, 3, 4)))
    news += list(grids([Fr(10)], [Fr(1), Fr(2), Fr(1, 2)], (2, 3, 4)))
    fluxes = [1, 0, 5]
    ctx.bounds = {"old grids": len(olds), "new grids": len(news)}
    for i, old in enumerate(olds):
        if i % 6 != k:
            continue
        n = len(old)
        fs = list(itertools.product(fluxes, repeat=n)) if n <= 3 else [tuple((3 * a * a + a * b) % 7 for a in range(n)) for b in range(4)] + [tuple(int(a == b) for a in range(n)) for b in range(n)]
        o = np.array([float(x) for x in old])
        es = [0.5 + a for a in range(n)]
        for new in news:
            nw = np.array([float(x) for x in new])
            if not ctx.case([str(x) for x in old], [str(x) for x in new]):
                continue
            ref = [exact(new, old, [Fr(x) for x in f], es) for f in fs]
            F = np.array(fs, dtype=float)
            before = (o.copy(), nw.copy(), F.copy())
            got = spectres(nw, o, F, fill=-9.0, verbose=False)
            want = np.array([[-9.0 if v is None else float(v) for v in r[0]] for r in ref])
            ctx.equal(np.asarray(got), want, "resampled flux of many spectra", rtol=1e-9)
            for b, a in zip(before, (o, nw, F)):
                ctx.expect(np.array_equal(a, b), "resampling changed its arguments")
            g1, e1 = spectres(nw, o, F[0], spec_errs=np.array(es), fill=-9.0, verbose=False)
            ctx.equal(np.asarray(g1), want[0], "resampled flux of one spectrum", rtol=1e-9)
            ctx.equal(np.asarray(e1), np.array([-9.0 if v is None else v for v in ref[0][1]]), "errors of a resampled spectrum", rtol=1e-9)
            s = Sed(o.copy(), F[-1].copy())
            s.resample_sed(wavelen_match=nw, force=True)
            ctx.equal(s.flambda, np.where(want[-1] == -9.0, np.nan, want[-1]), "Sed.resample_sed", rtol=1e-9)
            s = Sed(o.copy(), F[-1].copy())
            s.resample_sed(wavelen_match=nw)
            ctx.equal(s.wavelen, nw, "grid after Sed.resample_sed if needed", rtol=1e-9)
            ctx.equal(s.flambda, np.where(want[-1] == -9.0, np.nan, want[-1]), "Sed.resample_sed if needed", rtol=1e-9)
            if len(set(np.diff(nw))) == 1:
                s = Sed(o.copy(), F[-1].copy())
                s.resample_sed(wavelen_min=nw[0], wavelen_max=nw[-1], wavelen_step=nw[1] - nw[0])
                ctx.equal(s.wavelen, nw, "grid after Sed.resample_sed to limits and step", rtol=1e-9)
                ctx.equal(s.flambda, np.where(want[-1] == -9.0, np.nan, want[-1]), "Sed.resample_sed to limits and step", rtol=1e-9)
            ctx.state((i, str(new)))
            ctx.outcome(want[0].tolist() + want[-1].tolist(), trivial=bool(np.all(want == -9.0)))


ROWS = [(500.0, 0.1), (501.0, 0.5), (502.5, 0.7), (504.0, 0.2)]


def files(ctx):
    d = ctx.scratch
    os.makedirs(d, exist_ok=True)
    k = 0
    for perm in itertools.permutations(range(4)):
        for com, gz, ask in itertools.product(("", "# c 1 2\n", "$ c\n", "! c\n", "  # 9 9\n", "\n", "7\n"), (False, True), (False, True)):
            if not ctx.case(perm, com, gz, ask):
                continue
            k += 1
            fn = os.path.join(d, f"t{k}.dat")
            rows = [f"{ROWS[i][0]} {ROWS[i][1]} 99\n" for i in perm]
            text = com + rows[0] + rows[1] + com + rows[2] + rows[3]
            with (gzip.open(fn + ".gz", "wt") if gz else open(fn, "w")) as f:
                f.write(text)
            b = Bandpass(np.array([1.0, 2, 3]), np.array([1.0, 1, 1]))
            b.sb_tophi()
            ok, _ = ctx.must(b.read_throughput, fn + (".gz" if ask else ""), what="read_throughput")
            if ok:
                ctx.equal(b.wavelen, np.array([r[0] for r in ROWS]), "wavelengths read")
                ctx.equal(b.sb, np.array([r[1] for r in ROWS]), "throughput read")
                phi_of(ctx, b, b.wavelen, b.sb)
            ctx.state((perm, com, gz, ask))
            ctx.outcome(b.sb)
            os.remove(fn + (".gz" if gz else ""))
    for i, j in itertools.permutations(range(4), 2):
        if not ctx.case("dup", i, j):
            continue
        r = list(ROWS)
        r[i] = (r[j][0], 0.9)
        fn = os.path.join(d, "dup.dat")
        open(fn, "w").write("".join(f"{a} {b}\n" for a, b in r))
        ctx.raises(ValueError, Bandpass().read_throughput, fn, what="a repeated wavelength")
    ctx.case("missing")
    ctx.raises(IOError, Bandpass().read_throughput, os.path.join(d, "none.dat"), what="a missing file")
    # write and read back
    for vals, phi, head in itertools.product(itertools.product((0.0, 0.25, 1.0), repeat=4), (False, True), (None, "made here\n")):
        if not any(vals) or not ctx.case("write", vals, phi, head):
            continue
        w = np.array([500.0, 500.1, 500.2, 500.3])
        b = Bandpass(w.copy(), np.array(vals))
        fn = os.path.join(d, "w.dat")
        b.write_throughput(fn, print_header=head, write_phi=phi)
        r = Bandpass()
        r.read_throughput(fn)
        ctx.equal(r.wavelen, w, "wavelengths written and read", rtol=0, atol=0)
        ctx.equal(r.sb, np.array(vals), "throughput written and read", rtol=0, atol=0)
        if phi:
            p = np.array(vals) / w
            p = p / np.trapezoid(p, w)
            ctx.equal(np.loadtxt(fn)[:, 2], p, "phi written")
        ctx.state(("write", vals, phi, head))
    # lists of components
    comps = {
        "a": ([500.0, 505.0, 510.0], [0.0, 1.0, 0.5]),
        "b": ([495.0, 520.0], [0.5, 1.0]),
        "c": ([502.0, 503.0, 508.0], [0.9, 0.8, 0.7]),
    }
    for n, (w, s) in comps.items():
        open(os.path.join(d, n), "w").write("".join(f"{x} {y}\n" for x, y in zip(w, s)))
    for n in (1, 2, 3):
        for names in itertools.product(comps, repeat=n):
            for lo, hi, st in ((498.0, 512.0, 0.5), (500.0, 510.0, 0.1), (300, 1150, 5.0)):
                if not ctx.case("list", names, lo, hi, st):
                    continue
                b = Bandpass()
                if not ctx.must(b.read_throughput_list, list(names), root_dir=d, wavelen_min=lo, wavelen_max=hi, wavelen_step=st, what="read_throughput_list")[0]:
                    continue
                g = grid(lo, hi, st)
                want = np.ones(len(g))
                # a grid point on the end of a curve can fall either side by rounding
                safe = np.ones(len(g), bool)
                for c in names:
                    w, s = comps[c]
                    want = want * np.interp(g, w, s, left=0, right=0)
                    safe &= (np.abs(g - w[0]) > 1e-6) & (np.abs(g - w[-1]) > 1e-6)
                if ctx.equal(b.wavelen, g, "grid of a list of components", rtol=1e-9):
                    ctx.equal(b.sb[safe], want[safe], "product of components", rtol=1e-7, atol=1e-9)
                ctx.state(("list", names, lo))
                ctx.outcome(float(want.sum()))
            if n < 3 and ctx.case("aslist", names):
                b = Bandpass()
                ok, _ = ctx.must(b.read_throughput, [os.path.join(d, x) for x in names], what="read_throughput of a list")
                if ok:
                    c = Bandpass()
                    c.read_throughput_list([os.path.join(d, x) for x in names])
                    ctx.equal(b.wavelen, c.wavelen, "grid of a list")
                    ctx.equal(b.sb, c.sb, "throughput of a list")


CURVES = {
    "peak": (grid(500, 510, 1.0), np.array([0, 0.1, 0.3, 0.6, 0.9, 1, 0.8, 0.5, 0.2, 0.1, 0])),
    "box": (grid(502, 508, 1.0), np.array([0, 1, 1, 1, 1, 1, 0.0])),
    "slope": (grid(496, 514, 2.0), np.linspace(0, 0.9, 10) * np.array([1] * 9 + [0])),
    "fine": (grid(501, 506, 0.25), np.sin(np.linspace(0, np.pi, 21)).round(6)),
    "same-length": (grid(503, 513, 1.0), np.array([0, 0.5, 0.1, 0.7, 0.2, 0.9, 0.3, 0.8, 0.4, 0.6, 0])),
}


def phi_of(ctx, b, w, s):
    """The normalized response belongs to the curve as it now is (or is yet to be computed)."""
    if b.phi is None:
        b.sb_tophi()
    p = s / w
    ctx.equal(b.phi, p / np.trapezoid(p, w), "phi of an earlier curve kept", rtol=1e-9, atol=1e-15)


def curves(ctx):
    for a in CURVES:
        w, s = CURVES[a]
        if not ctx.case("one", a):
            continue
        gw, gs = w.copy(), s.copy()
        b = Bandpass(gw, gs)
        gw += 5
        gs += 5
        ctx.equal(b.wavelen, w, "the curve shares the caller's array")
        ctx.equal(b.sb, s, "the curve shares the caller's array")
        b.sb_tophi()
        ctx.equal(float(np.trapezoid(b.phi, w)), 1.0, "phi is not normalized")
        ctx.equal(b.phi * w / (s + (s == 0)), np.where(s == 0, 0, (b.phi * w / (s + (s == 0)))[np.argmax(s)]), "phi is not proportional to throughput over wavelength")
        ep, es = b.calc_eff_wavelen()
        ctx.equal(float(ep), float(np.sum(s) / np.sum(s / w)), "effective wavelength")
        ctx.equal(float(es), float(np.sum(s * w) / np.sum(s)), "effective wavelength of the throughput")
        x, y = b.get_bandpass()
        x += 1
        y += 1
        ctx.equal(b.wavelen, w, "get_bandpass gives copies")
        ctx.equal(b.sb, s, "get_bandpass gives copies")
        b2 = Bandpass(w, s)
        b2.sb_tophi()
        b2.set_bandpass(w + 1, s * 0.5)
        phi_of(ctx, b2, w + 1, s * 0.5)
        for lo, hi, st in ((499.0, 511.0, 0.5), (503.0, 505.0, 0.1), (495.0, 515.0, 4.0), (w[0] + 0.3, w[-1] + 0.3, w[1] - w[0])):
            if not ctx.case("resample", a, lo, hi, st):
                continue
            g = grid(lo, hi, st)
            safe = (np.abs(g - w[0]) > 1e-6) & (np.abs(g - w[-1]) > 1e-6)
            want = np.interp(g, w, s, left=0, right=0)
            rw, rs = b.resample_bandpass(w.copy(), s.copy(), wavelen_min=lo, wavelen_max=hi, wavelen_step=st)
            if ctx.equal(rw, g, "resampled grid"):
                ctx.equal(rs[safe], want[safe], "resampled throughput", rtol=1e-7, atol=1e-9)
            ctx.equal(b.sb, s, "resampling other arrays changed the curve")
            c = Bandpass(w, s)
            c.sb_tophi()
            c.resample_bandpass(wavelen_min=lo, wavelen_max=hi, wavelen_step=st)
            if ctx.equal(c.wavelen, g, "resampled grid"):
                ctx.equal(c.sb[safe], want[safe], "resampled throughput", rtol=1e-7, atol=1e-9)
            if np.sum(want) > 0:
                phi_of(ctx, c, c.wavelen, c.sb)
            ctx.state(("r", a, lo))
            ctx.outcome(want)
        ctx.raises(Exception, b.resample_bandpass, wavelen_min=900, wavelen_max=950, wavelen_step=1.0, what="resampling without overlap")
        ctx.raises(ValueError, b.set_bandpass, w, s[:-1], what="arrays of unequal length")
        # zeropoint: a flat source of that magnitude makes one count
        for kw in (dict(exptime=15.0, nexp=2), dict(exptime=1.0, nexp=1, gain=1.0), dict(exptime=30.0, nexp=1, effarea=5e3)):
            pp = PhotometricParameters(**kw)
            if not ctx.case("zp", a, kw):
                continue
            z = float(Bandpass(w, s).calc_zp_t(pp))
            n = np.sum(s / w) * (w[1] - w[0]) * 3631 * 10 ** (-0.4 * z) * pp.exptime * pp.nexp * pp.effarea / pp.gain / JY / H
            ctx.equal(float(n), 1.0, "counts of a source at the zeropoint", rtol=1e-6)
            ctx.state(("zp", a, str(kw)))
        # dust through this curve: bluer is redder, linear in the reference
        for rv, ebv in ((3.1, 1.0), (3.1, 0.5), (4.0, 1.0)):
            if not ctx.case("dust", a, rv, ebv):
                continue
            v = DustValues(r_v=rv, bandpass_dict={"q": Bandpass(w, s), "p": Bandpass(w + 200, s)}, ref_ebv=ebv)
            gw = np.arange(w[0], w[-1] + 1.0, 1.0)
            for key, off in (("q", 0.0), ("p", 200.0)):
                sed = Sed()
                sed.set_flat_sed(wavelen_min=w[0] + off, wavelen_max=w[-1] + off, wavelen_step=1.0)
                from mc.props.p01 import dust_ab, ref_flux

                aa, bb = dust_ab(sed.wavelen, "ccm")
                fn = 3631 * 10 ** (-0.4 * rv * ebv * (aa + bb / rv))
                want = -2.5 * np.log10(ref_flux(sed.wavelen, fn, w + off, s) / 3631.0)
                ctx.equal(float(v.ax1[key]), float(want), "extinction", rtol=1e-6, atol=1e-8)
                ctx.equal(float(v.r_x[key]), float(v.ax1[key]), "r_x")
            ctx.state(("dust", a, rv, ebv))
            ctx.outcome(float(v.ax1["q"]))


def pairs(ctx):
    for a, b in itertools.product(CURVES, repeat=2):
        if not ctx.case("multiply", a, b):
            continue
        (w, s), (ow, os_) = CURVES[a], CURVES[b]
        x = Bandpass(w, s)
        x.sb_tophi()
        gw, gs = ow.copy(), os_.copy()
        ok, got = ctx.must(x.multiply_throughputs, gw, gs, what="multiply_throughputs")
        if ok:
            safe = (np.abs(w - ow[0]) > 1e-6) & (np.abs(w - ow[-1]) > 1e-6) | (os_[0] == 0) & (np.abs(w - ow[0]) < 1e-6)
            ctx.equal(got[0], w, "wavelengths of a product")
            ctx.equal(np.asarray(got[1])[safe], (s * np.interp(w, ow, os_, left=0, right=0))[safe], "product of throughputs", rtol=1e-7, atol=1e-9)
        ctx.equal(gw, ow, "multiply_throughputs changed its argument")
        ctx.equal(gs, os_, "multiply_throughputs changed its argument")
        ctx.equal(x.sb, s, "multiply_throughputs changed the curve")
        ctx.state((a, b))
        ctx.outcome(s * np.interp(w, ow, os_, left=0, right=0))
    # many magnitudes at once
    for n in (1, 2, 3):
        for names in itertools.permutations([c for c in CURVES if c != "slope" and c != "fine"], n):
            if not ctx.case("many", names):
                continue
            bps = [Bandpass(*CURVES[c]) for c in names]
            phi, st = Sed().setup_phi_array(bps)
            lo = min(CURVES[c][0][0] for c in names)
            hi = max(CURVES[c][0][-1] for c in names)
            g = grid(lo, hi, st)
            for shape in (np.ones(len(g)), 1 + np.arange(len(g)) % 5):
                sed = Sed(g.copy(), fl_of(g, 3631.0 * shape))
                sed.flambda_tofnu()
                mags = sed.many_mag_calc(phi, st)
                want = []
                for c in names:
                    w, s = CURVES[c]
                    sb = np.interp(g, w, s, left=0, right=0)
                    p = sb / g
                    p = p / np.trapezoid(p, g)
                    want.append(-2.5 * np.log10(np.trapezoid(shape * p, g)))
                ctx.equal(np.asarray(mags), np.array(want), "many_mag_calc", rtol=1e-7, atol=1e-7)
                one = [float(sed.calc_mag(bp)) for bp in bps]
                ctx.equal(np.asarray(mags), np.array(one), "many magnitudes differ from one at a time", rtol=1e-7, atol=1e-7)
                for idx in itertools.permutations(range(n)):
                    sub = sed.many_mag_calc(phi, st, observed_bandpass_ind=list(idx))
                    ctx.equal(np.asarray(sub), np.asarray(mags)[list(idx)], "many_mag_calc of chosen bands")
            ctx.state(("many", names))
            ctx.outcome(want)
    # grids of many integer limits
    for lo in range(300, 330):
        for hi in range(lo + 1, lo + 40, 3):
            if not ctx.case("grid", lo, hi):
                continue
            n = (hi - lo) * 10 + 1
            w = np.arange(lo - 1.0, hi + 2.0, 1.0)
            s = Sed(w, np.ones(len(w)))
            s.resample_sed(wavelen_min=float(lo), wavelen_max=float(hi), wavelen_step=0.1)
            ctx.equal(len(s.wavelen), n, "number of wavelengths in a grid")
            ctx.equal(s.flambda, np.ones(len(s.flambda)), "a flat spectrum on a grid")
            bps = [Bandpass(grid(lo, hi, 0.1), np.ones(n)), Bandpass(grid(lo, hi, 0.1), np.linspace(0, 1, n))]
            ok, r = ctx.must(Sed().setup_phi_array, bps, what="setup_phi_array")
            if ok:
                ctx.equal(r[0].shape, (2, n), "shape of the phi array")
            ctx.state(("grid", lo, hi))
    # normalization at one wavelength
    for k in range(8):
        w = grid(480 + k, 530.0, 1.0 + k)
        f = 1e-13 * (1 + np.arange(len(w)) % 3)
        for mag in (18.0, 22.5):
            if not ctx.case("imsim", k, mag):
                continue
            c = float(get_imsim_flux_norm(Sed(w.copy(), f.copy()), mag))
            fn = np.interp(500.0, w, fnu_of(w, f)) * c
            ctx.equal(-2.5 * np.log10(fn / 3631.0), mag, "magnitude at 500 nm after normalizing", rtol=1e-7)
            ctx.state(("imsim", k, mag))
    ctx.case("imsim", "out")
    ctx.raises(RuntimeError, get_imsim_flux_norm, Sed(grid(600, 700, 10.0), np.ones(11)), 20.0, what="normalizing outside the spectrum")


UNITS = [Unit(f"resample_{k}", resampling, k=k) for k in range(6)] + [Unit("files", files), Unit("curves", curves), Unit("pairs", pairs)]
