"""P02: signal to noise, limiting depth and photometric parameters."""
import itertools

import numpy as np

from mc.core import Unit
from mc.props.p01 import C, H, JY, NM, fl_of, fnu_of, grid, rebin
from rubin_sim.phot_utils import Bandpass, PhotometricParameters, Sed
from rubin_sim.phot_utils import predicted_zeropoints as pz
from rubin_sim.phot_utils import signaltonoise as sn

PROPERTY = "P02"
LEVEL = "exploration"
RULE = (
    "the full product of detector parameters, exposures, sky, source, bandpass and seeing, each compared with an "
    "independent evaluation of the noise equation and with the identities that tie the functions together; every "
    "subset of overridden photometric parameters for every band; non-trivial = finite signal to noise"
)
ASSUMPTIONS = ["sources and sky cover the bandpass", "bandpasses are uniformly sampled"]

W = grid(490.0, 530.0, 1.0)
TOTAL = (grid(500.0, 520.0, 1.0), np.concatenate([np.linspace(0, 0.6, 11), np.linspace(0.5, 0, 10)]))
HARD = (TOTAL[0], np.concatenate([np.linspace(0.1, 0.9, 11), np.linspace(0.8, 0.1, 10)]))
GAINS = [1.0, 2.3, 0.4]
EXPS = [(15.0, 2), (30.0, 1), (1.0, 1)]
NOISE = [(8.8, 0.2, 0.0), (0.0, 0.0, 0.0), (5.0, 1.5, 4.0)]
SCALES = [(0.2, 3.2e5), (0.5, 1e4)]
SKYMAGS = [18.0, 22.0, 26.0]
SEEING = [0.5, 0.83, 2.0]


def adu(w, fn, bw, sb, pp):
    g = rebin(bw, w, fn)
    return float(np.sum(g * sb / bw)) * (bw[1] - bw[0]) * pp["exptime"] * pp["nexp"] * pp["effarea"] / pp["gain"] / JY / H


def norm_to(w, fn, mag, bw, sb):
    phi = sb / bw
    phi = phi / np.trapezoid(phi, bw)
    flux = np.trapezoid(rebin(bw, w, fn) * phi, bw)
    return fn * (3631.0 * 10 ** (-0.4 * mag) / flux)


SHAPES = {"flat": np.ones(len(W)), "red": np.linspace(1, 4, len(W)), "line": 1 + 5.0 * (np.abs(W - 511) < 2)}


def snr_ref(src, sky, pp, fwhm):
    s = adu(W, src, *TOTAL, pp)
    return s, s / np.sqrt(s / pp["gain"] + nonsource(sky, pp, fwhm))


def nonsource(sky, pp, fwhm):
    neff = 2.266 * (fwhm / pp["platescale"]) ** 2
    b = adu(W, sky, *HARD, pp) * pp["platescale"] ** 2
    inst = pp["nexp"] * (pp["readnoise"] ** 2 + pp["darkcurrent"] * pp["exptime"] + pp["othernoise"] ** 2) / pp["gain"] ** 2
    return neff * (b / pp["gain"] + inst)


def noise(ctx, gain):
    tot, hard = Bandpass(*TOTAL), Bandpass(*HARD)
    flat = np.ones(len(W))
    for (et, ne), (rn, dc, on), (ps, ea), ss in itertools.product(EXPS, NOISE, SCALES, (0.005, 0.0)):
        pp = dict(exptime=et, nexp=ne, effarea=ea, gain=gain, readnoise=rn, darkcurrent=dc, othernoise=on, platescale=ps, sigma_sys=ss)
        P = PhotometricParameters(**pp)
        inst = ne * (rn**2 + dc * et + on**2) / gain**2
        ctx.case("inst", pp)
        ctx.equal(float(sn.calc_instr_noise_sq(P)), inst, "instrumental noise")
        for skymag, skyshape, fwhm in itertools.product(SKYMAGS, ("flat", "red"), SEEING):
            if not ctx.case("snr", et, ne, rn, ps, ss, skymag, skyshape, fwhm):
                continue
            sky = norm_to(W, SHAPES[skyshape], skymag, *HARD)
            skyfl = fl_of(W, sky)
            S = Sed(W.copy(), skyfl.copy())
            ctx.equal(float(sn.calc_neff(fwhm, ps)), 2.266 * (fwhm / ps) ** 2, "neff")
            v = nonsource(sky, pp, fwhm)
            ctx.equal(float(sn.calc_total_non_source_noise_sq(S, hard, P, fwhm)), v, "noise without the source", rtol=1e-7)
            m5 = float(sn.calc_m5(S, tot, hard, P, fwhm))
            # a flat source of magnitude m5 has a signal to noise of five
            s, r = snr_ref(norm_to(W, flat, m5, *TOTAL), sky, pp, fwhm)
            ctx.equal(r, 5.0, "signal to noise of a source at m5", rtol=1e-6, m5=m5)
            gam = float(sn.calc_gamma(tot, m5, P))
            ctx.equal(gam, 0.04 - 1 / (s * gain), "gamma", rtol=1e-6, atol=1e-9)
            # sky counts that give this depth are the sky counts there are
            want = adu(W, sky, *HARD, pp) * ps * ps
            got = float(sn.calc_sky_counts_per_pixel_for_m5(m5, tot, P, fwhm))
            ctx.equal(got, want, "sky counts for a depth", rtol=1e-5, atol=1e-6 * (want + inst + s * s / 25))
            mags = [m5 - 5, m5 - 1.0, m5, m5 + 2.0]
            refs = []
            for shape in SHAPES:
                for m in mags:
                    src = norm_to(W, SHAPES[shape], m, *TOTAL)
                    o = Sed(W.copy(), fl_of(W, src))
                    cnt, want = snr_ref(src, sky, pp, fwhm)
                    got = float(sn.calc_snr_sed(o, tot, S, hard, P, fwhm))
                    ctx.equal(got, want, f"signal to noise of a {shape} source", rtol=1e-7)
                    err = float(sn.calc_mag_error_sed(o, tot, S, hard, P, fwhm))
                    ctx.equal(err, float(np.hypot(2.5 * np.log10(1 + 1 / want), ss)), "magnitude error from a spectrum", rtol=1e-7)
                    if shape == "flat":
                        refs.append(want)
                    ctx.equal(o.flambda, fl_of(W, src), "the source was changed", rtol=1e-12)
            ctx.equal(S.flambda, skyfl, "the sky was changed", rtol=1e-12)
            arr, g2 = sn.calc_snr_m5(np.array(mags), tot, m5, P)
            ctx.equal(np.asarray(arr), np.array(refs), "signal to noise from the depth, for an array", rtol=1e-6)
            ctx.equal(float(g2), gam, "gamma returned", rtol=1e-9)
            for i, m in enumerate(mags):
                one, _ = sn.calc_snr_m5(m, tot, m5, P, gamma=gam)
                ctx.equal(float(one), refs[i], "signal to noise from the depth", rtol=1e-6)
                e, _ = sn.calc_mag_error_m5(m, tot, m5, P)
                ctx.equal(float(e), float(np.hypot(2.5 * np.log10(1 + 1 / refs[i]), ss)), "magnitude error from the depth", rtol=1e-6)
                g3 = 0.5 * gam
                x = 10 ** (0.4 * (m - m5))
                one, gg = sn.calc_snr_m5(m, tot, m5, P, gamma=g3)
                ctx.equal(float(one), 1 / np.sqrt((0.04 - g3) * x + g3 * x * x), "signal to noise with a gamma given", rtol=1e-7)
                ctx.equal(float(gg), g3, "gamma given")
            # a sky scaled for a target depth gives that depth
            for target in (m5 - 0.7, m5 + 0.1):
                need = float(sn.calc_sky_counts_per_pixel_for_m5(target, tot, P, fwhm))
                if need <= 1e-6 * (s * s / 25):
                    continue
                T = sn.scale_sky_m5(target, S, tot, hard, P, fwhm)
                ctx.equal(float(sn.calc_m5(T, tot, hard, P, fwhm)), target, "depth with the sky scaled for it", atol=1e-6, rtol=0)
                ctx.equal(S.flambda, skyfl, "scale_sky_m5 changed its sky", rtol=1e-12)
                k = np.asarray(T.flambda) / skyfl
                ctx.equal(k / k[0], np.ones(len(k)), "the shape of the scaled sky", rtol=1e-9)
            ctx.state((gain, et, ne, rn, ps, ss, skymag, skyshape, fwhm))
            ctx.outcome([m5, refs])


def small(ctx):
    """Closed forms on grids of arguments, scalars and arrays alike."""
    f = np.linspace(0.1, 3, 30)
    for x in f:
        ctx.case("fwhm", float(x))
        ctx.equal(float(sn.fwhm_eff2_fwhm_geom(x)), 0.822 * x + 0.052, "fwhm_geom")
        ctx.equal(float(sn.fwhm_geom2_fwhm_eff(sn.fwhm_eff2_fwhm_geom(x))), float(x), "fwhm there and back")
        ctx.state(("f", float(x)))
    ctx.equal(sn.fwhm_geom2_fwhm_eff(f), (f - 0.052) / 0.822, "fwhm_eff of an array")
    snr = np.array([0.5, 1, 2, 5, 10, 100, 1e4])
    ctx.case("mag_error")
    ctx.equal(sn.mag_error_from_snr(snr), 2.5 * np.log10(1 + 1 / snr), "mag_error_from_snr")
    mags = np.array([15.0, 20, 22, 24, 24.5, 26])
    for m5, fw, nv, fl in itertools.product((22.0, 24.5), (0.5, 0.7, 1.4), (1, 2, 100), (0.0, 10, 25)):
        if not ctx.case("astrom", m5, fw, nv, fl):
            continue
        x = 10 ** (0.4 * (mags - m5))
        want = np.sqrt(fl**2 + (1000 * fw) ** 2 * (0.001 * x + 0.039 * x * x) / nv)
        ctx.equal(np.asarray(sn.calc_astrometric_error(mags, m5, fwhm_geom=fw, nvisit=nv, systematic_floor=fl)), want, "astrometric error of an array")
        for i, m in enumerate(mags):
            ctx.equal(float(sn.calc_astrometric_error(m, m5, fwhm_geom=fw, nvisit=nv, systematic_floor=fl)), float(want[i]), "astrometric error")
        ctx.state(("a", m5, fw, nv, fl))
        ctx.outcome(want)
    X, T = [1.0, 1.2, 2.0, 2.5], [1, 15.0, 30, 60]
    for v, b in itertools.product(("", "_itl", "_e2v"), "ugrizy"):
        fa = getattr(pz, "predicted_zeropoint" + v)
        fh = getattr(pz, "predicted_zeropoint_hardware" + v)
        z0, h0 = float(fa(b, 1.0)), float(fh(b))
        k = float(fa(b, 2.0)) - z0
        ctx.case("zp", v, b)
        ctx.expect(k < 0, "more air lets more light through", band=b)
        ctx.expect(h0 > z0, "the atmosphere adds light", band=b)
        for x, t in itertools.product(X, T):
            if not ctx.case("zp", v, b, x, t):
                continue
            ctx.equal(float(fa(b, x, t)), z0 + k * (x - 1) + 2.5 * np.log10(t), "zeropoint", rtol=1e-10)
            ctx.equal(float(fh(b, t)), h0 + 2.5 * np.log10(t), "hardware zeropoint", rtol=1e-10)
            ctx.state(("z", v, b, x, t))
            ctx.outcome(float(fa(b, x, t)))
        ctx.equal(np.asarray(fa(b, np.array(X), 30.0)), np.array([float(fa(b, x, 30.0)) for x in X]), "zeropoints of an array")


FIELDS = ["exptime", "nexp", "effarea", "gain", "readnoise", "darkcurrent", "othernoise", "platescale", "sigma_sys"]
DEFAULT = dict(exptime=15.0, nexp=2, effarea=np.pi * 321.15**2, gain=2.3, readnoise=8.8, darkcurrent=0.2, othernoise=0.0, platescale=0.2)
SYS = {"u": 0.0075, "g": 0.005, "r": 0.005, "i": 0.005, "z": 0.0075, "y": 0.0075, "any": 0.005, None: 0.005}
OTHER = dict(exptime=31.0, nexp=7, effarea=5.0, gain=0.0, readnoise=0.0, darkcurrent=3.0, othernoise=4.0, platescale=0.0, sigma_sys=0.0)


def params(ctx):
    for band in ["u", "g", "r", "i", "z", "y", "any", None, "ha", ""]:
        for k in range(2 ** len(FIELDS)):
            given = {n: OTHER[n] for i, n in enumerate(FIELDS) if k >> i & 1}
            if not ctx.case(band, sorted(given)):
                continue
            known = band in SYS
            if not known and len(given) < len(FIELDS):
                ctx.raises(RuntimeError, PhotometricParameters, bandpass=band, what="an unknown band without all parameters", **given)
                continue
            ok, p = ctx.must(PhotometricParameters, bandpass=band, what="PhotometricParameters", **given)
            if not ok:
                continue
            want = dict(DEFAULT, sigma_sys=SYS.get(band), **{}) if known else {}
            want.update(given)
            for n in FIELDS:
                ctx.equal(float(getattr(p, n)), float(want[n]), f"{n} of {band}", rtol=1e-9)
            ctx.equal(p.bandpass, band, "the band")
            if k in (0, 511, 21):
                for n in FIELDS + ["bandpass"]:
                    ctx.raises(RuntimeError, setattr, p, n, 5.0, what=f"setting {n}")
                    if n != "bandpass":
                        ctx.equal(float(getattr(p, n)), float(want[n]), f"{n} after a refused change", rtol=1e-9)
            ctx.state((band, k))
            ctx.outcome([band, [float(getattr(p, n)) for n in FIELDS]])


UNITS = [Unit(f"noise_{g}", noise, gain=g) for g in GAINS] + [Unit("small", small), Unit("params", params)]
