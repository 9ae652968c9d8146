"""Structured visit tables and the catalogue of metrics (no random numbers)."""
import os

import numpy as np

PHI = 0.6180339887498949
COLS = [
    ("observationId", int), ("observationStartMJD", float), ("night", int), ("band", "<U2"), ("filter", "<U2"),
    ("fieldRA", float), ("fieldDec", float), ("rotSkyPos", float), ("rotTelPos", float), ("seeingFwhmGeom", float),
    ("seeingFwhmEff", float), ("visitExposureTime", float), ("fiveSigmaDepth", float), ("numExposures", int),
    ("visitTime", float), ("slewTime", float), ("airmass", float), ("skyBrightness", float), ("ra_pi_amp", float),
    ("dec_pi_amp", float), ("ra_dcr_amp", float), ("dec_dcr_amp", float), ("HA", float), ("PA", float),
    ("paraAngle", float), ("zenithDistance", float), ("science_program", "<U20"), ("observation_reason", "<U20"),
    ("season", float), ("saturation_mag", float), ("proposalId", int), ("note", "<U12"), ("altitude", float),
    ("azimuth", float), ("moonDistance", float), ("expMJD", float), ("m5Optimal", float), ("coadd", float),
    ("clouds", float), ("scheduler_note", "<U20"),
]
RANGES = {
    "fieldRA": (55.0, 60.0), "fieldDec": (-25.0, -20.0), "rotSkyPos": (0.0, 360.0), "rotTelPos": (-80.0, 80.0),
    "seeingFwhmGeom": (0.6, 1.4), "seeingFwhmEff": (0.7, 1.6), "fiveSigmaDepth": (23.2, 25.4), "visitTime": (34.0, 40.0),
    "slewTime": (4.0, 12.0), "airmass": (1.0, 1.6), "skyBrightness": (19.5, 21.5), "ra_pi_amp": (-1.0, 1.0),
    "dec_pi_amp": (-0.6, 0.6), "ra_dcr_amp": (-0.9, 0.9), "dec_dcr_amp": (-0.9, 0.9), "HA": (-4.0, 4.0), "PA": (0.0, 360.0),
    "paraAngle": (-170.0, 170.0), "zenithDistance": (2.0, 50.0), "saturation_mag": (15.0, 17.0), "altitude": (40.0, 85.0),
    "azimuth": (0.0, 359.0), "moonDistance": (30.0, 120.0), "m5Optimal": (24.0, 25.0), "coadd": (1.0, 2.0), "clouds": (0.0, 1.0),
}
T0 = 61000.0


def make(times, bands, exptime=30.0, shift=0):
    """Visits at T0 + times (days) in the bands; other columns structured."""
    n = len(times)
    d = np.zeros(n, dtype=COLS)
    t = np.asarray(times, float)
    d["observationStartMJD"] = T0 + t
    d["expMJD"] = d["observationStartMJD"]
    d["night"] = np.floor(t + 0.5).astype(int) + 1
    d["band"] = [bands[i % len(bands)] for i in range(n)]
    d["filter"] = d["band"]
    for j, (k, (lo, hi)) in enumerate(sorted(RANGES.items())):
        d[k] = lo + (hi - lo) * ((np.arange(n) + 1 + shift) * PHI * (1 + 0.37 * j) % 1.0)
    d["observationId"] = (np.arange(n) * 7 + shift) % 1009 + 1
    d["visitExposureTime"] = exptime
    d["numExposures"] = 1 + np.arange(n) % 2
    d["proposalId"] = np.arange(n) % 3
    d["science_program"] = [("BLOCK-1", "BLOCK-2", "BLOCK-3")[i % 3] for i in range(n)]
    d["observation_reason"] = [("pairs", "ddf", "pairs")[i % 3] for i in range(n)]
    d["note"] = [("pair 15, a", "DD:x, 1", "pair, 2", "")[i % 4] for i in range(n)]
    d["scheduler_note"] = d["note"]
    d["season"] = np.floor(t / 365.25)
    return d


def slices(names=None):
    out = {}
    out["one"] = make([10.1], "r")
    out["two"] = make([10.1, 10.12], "ri")
    out["four"] = make([10.1, 11.15, 40.11, 40.13], "gri")
    out["fourband"] = make([3.1, 10.12, 10.14, 380.2], "r", shift=3)
    out["night"] = make([10.05, 10.0645, 10.09, 10.13, 10.22], "gzr", shift=1)
    out["years"] = make([5.1, 370.2, 400.3, 800.1, 1500.2], "rri", shift=2)
    out["pairs"] = make(sorted([4 * k + 0.1 for k in range(12)] + [4 * k + 0.1 + 0.015 + 0.002 * k for k in range(12)]), "grizyu", shift=5)
    out["cadence"] = make([1.5 * k + 0.1 + 0.003 * (k % 5) for k in range(90)], "ugrizy", shift=6)
    out["deep_r"] = make([2.2 * k + 0.1 + 0.004 * (k % 7) + (365 if k > 40 else 0) for k in range(80)], "r", shift=7)
    out["survey"] = make([11.3 * k + 0.12 + 0.005 * (k % 5) for k in range(300)], "rgiuzy", shift=8)
    out["bright"] = make([10.02, 10.05, 11.1, 12.2, 14.1], "ugriz", shift=9)
    out["bright"]["saturation_mag"][[1, 3]] = np.nan
    ex = make([9.1, 9.13, 12.1, 33.2, 34.1], "riu", shift=4)
    ex["visitExposureTime"] = [30, 15, 60, 5, 30]
    out["exptimes"] = ex
    out["slope"] = make([10.02, 10.05, 10.16, 10.19, 10.24], "grggr", shift=11)
    out["nights2"] = make([10.1, 10.12, 11.02, 11.09, 12.0], "rgrrg", shift=12)
    out["mixed6"] = make([9.1, 10.05, 10.09, 12.1, 12.13, 47.2], "grrigr", exptime=np.array([30.0, 15.0, 30.0, 60.0, 30.0, 20.0]), shift=14)
    out["six"] = make([5.1 + 3 * k + 0.01 * (k % 4) for k in range(36)], "ugrizy", shift=13)
    if names is not None:
        out = {k: out[k] for k in names}
    return out


def reorders(n, full=5):
    """All orders up to `full` visits; else a fixed family."""
    import itertools

    if n <= full:
        return [list(p) for p in itertools.permutations(range(n))]
    base = list(range(n))
    out = [base[::-1]]
    for k in sorted({1, n // 3, n // 2, n - 1}):
        out.append(base[k:] + base[:k])
    for i in (0, n // 2, n - 2):
        p = list(base)
        p[i], p[i + 1] = p[i + 1], p[i]
        out.append(p)
    out.append(base[::2] + base[1::2])
    out.append(base[::3] + base[1::3][::-1] + base[2::3])
    p = list(base)
    p[0], p[-1] = p[-1], p[0]
    out.append(p)
    return out


def slice_point(which=0):
    sp = {
        "sid": 3 + which, "nside": 16, "ra": (1.0, 2.2)[which], "dec": (-0.4, -0.7)[which], "ebv": (0.05, 0.12)[which],
        "gall": (1.2, 2.9)[which], "galb": (0.7, -0.2)[which], "peak_time": 8.0 + which, "crossing_time": (10.0, 25.0)[which],
        "impact_parameter": (0.1, 0.3)[which], "file_indx": which,
        "distance": (40.0, 90.0)[which], "start_time": 5.0, "visible_duration": 30.0, "visible_start_time": 5.0, "visible_end_time": 40.0,
        "outburst_params": {"amplitude": 5.0, "tau_rise": 2.0, "tau_decay": 20.0, "outburst_duration": 60.0, "abs_mag": {f: 6.0 + 0.3 * j for j, f in enumerate("ugrizy")}},
    }
    for f in "ugrizy":
        sp[f"starLumFunc_{f}"] = np.arange(12.0) * 10 * (1, 4000)[which]
        sp[f"starMapBins_{f}"] = np.arange(13.0) + 15.0
        sp[f"galplane_priority_galactic_plane_map:{f}"] = (0.8, 0.3)[which]
    sp["galplane_priority_galactic_plane_map:sum"] = (3.2, 1.4)[which]
    return sp


# metrics outside the claim: they hand on per-visit data, draw random numbers,
# or are run on something else than the visits of a slice
NOT_PER_SLICE = {
    "PassMetric", "IdentityMetric", "ApplyMappingMetric", "RadiusObsMetric", "FftMetric", "NightPointingMetric",
    "GRBTransientMetric", "VarDepth", "UseMetric",
    "AreaThresholdMetric", "FONv", "StaticProbesFoMEmulatorMetric",  # summary metrics
    "HourglassMetric", "PeriodicStarMetric",  # minutes per slice
}
# (constructor arguments); a metric not named here runs with its defaults
BINS = np.arange(0, 62, 5)
KW = {
    "AgeMetric": [dict(mjd=T0 + 30.0)],
    "SnrWeightedMetric": [dict(col="airmass")],
    "AccumulateCountMetric": [dict(bins=BINS)],
    "AccumulateM5Metric": [dict(bins=BINS)],
    "AccumulateMetric": [dict(col="airmass", bins=BINS), dict(col="airmass", bins=BINS, function=np.maximum)],
    "HistogramM5Metric": [dict(bins=BINS)],
    "HistogramMetric": [dict(bins=BINS), dict(col="airmass", statistic="max", bins=BINS)],
    "AccumulateUniformityMetric": [dict(bins=np.arange(0, 400))],
    "NlcPointsMetric": [dict(nside=16, ndpmin=0)],
    "Coaddm5Metric": [{}, dict(filter_name="r", filter_col="band")],
    "StringCountMetric": [dict(col="note"), dict(col="note", clip_end=True), dict(col="band", percent=True)],
    "CountSubsetMetric": [dict(col="band", subset="r")],
    "CountUniqueMetric": [dict(col="band"), dict(col="night")],
    "UniqueRatioMetric": [dict(col="band")],
    "CountBeyondThreshold": [dict(col="airmass", lower_threshold=1.2), dict(col="airmass", lower_threshold=1.1, upper_threshold=1.4)],
    "CountRatioMetric": [dict(col="airmass", norm_val=3.0)],
    "FracAboveMetric": [dict(col="airmass", cutoff=1.25)],
    "FracBelowMetric": [dict(col="airmass", cutoff=1.25)],
    "PercentileMetric": [dict(col="airmass", percentile=30)],
    "NoutliersNsigmaMetric": [dict(col="airmass", n_sigma=0.7), dict(col="airmass", n_sigma=-0.7)],
    "AngularSpreadMetric": [dict(col="rotSkyPos", period=360.0)],
    "MeanAngleMetric": [dict(col="rotSkyPos")], "RmsAngleMetric": [dict(col="rotSkyPos")], "FullRangeAngleMetric": [dict(col="rotSkyPos")],
    "KuiperMetric": [dict(col="rotSkyPos")],
    "ParallaxMetric": [{}, dict(normalize=True)],
    "GeneralUniformityMetric": [{}, dict(col="airmass", min_value=1.0, max_value=2.0)],
    "NRevisitsMetric": [{}, dict(d_t=40, normed=True)],
    "RapidRevisitUniformityMetric": [dict(min_nvisits=2, d_tmax=0.2)],
    "IntraNightGapsMetric": [{}, dict(reduce_func=np.max)],
    "InterNightGapsMetric": [{}, dict(reduce_func=np.max)],
    "VisitGapMetric": [{}, dict(reduce_func=np.max)],
    "TgapsMetric": [{}, dict(all_gaps=True), dict(bins=np.arange(0, 50, 2.0))],
    "TgapsPercentMetric": [dict(min_time=0.01, max_time=3.0), dict(min_time=0.01, max_time=3.0, all_gaps=True)],
    "NightgapsMetric": [{}, dict(all_gaps=True)],
    "GapsMetric": [{}, dict(time_scale=48.0)],
    "NightTimespanMetric": [{}, dict(percentile=20)],
    "PairMetric": [{}, dict(match_min=10, match_max=200)],
    "PairFractionMetric": [{}, dict(min_gap=5, max_gap=200)],
    "VisitGroupsMetric": [{}, dict(delta_t_min=0.005, delta_t_max=0.2, min_n_nights=1)],
    "MaxStateChangesWithinMetric": [{}, dict(timespan=100)],
    "NStateChangesFasterThanMetric": [{}, dict(cutoff=100)],
    "BruteOSFMetric": [{}, dict(maxgap=300.0)],
    "CountExplimMetric": [{}],
    "SeasonLengthMetric": [{}, dict(reduce_func=np.max)],
    "TdcMetric": [dict(mag_cuts={f: 20.0 for f in "ugrizy"}), {}],
    "CumulativeMetric": [{}, dict(interp_points=np.arange(0, 60, 7))],
    "TemplateTime": [dict(n_images_in_template=2)],
    "PhaseGapMetric": [{}, dict(n_periods=3, period_min=1.0, period_max=50.0, n_visits_min=2)],
    "PeriodicQualityMetric": [{}],
    "SNSNRMetric": [dict(coadd=False)],
    "NgalScaleMetric": [dict(m5min=20.0), dict(m5min=20.0, filtername="r"), dict(m5min=20.0, a_max=0.12, filtername="r")],
    "TransientMetric": [dict(survey_duration=1, trans_duration=20, **{f + "_peak": 20.0 for f in "ugrizy"})],
    "SingleLinearMultibandModelMetric": [dict(model_dict={"u": 0.5, "g": 1.0, "r": 0.25, "cst": 2.0}, n_filters=2), dict(model_dict={"g": 1.0, "r": -1.0}, n_filters=1, mean_depth={"g": 1.0, "r": 3.0})],
    "NestedLinearMultibandModelMetric": [dict(arr_of_model_dicts=[{"u": 0.5, "r": 1.0}, {"g": 1.0, "cst": 3.0}]), dict(arr_of_model_dicts=[{"u": 0.5, "r": 1.0}], mean_depth={"u": 20.0, "r": 1.0})],
    "ColorSlopeMetric": [{}, dict(color_length=2.0, slope_length=1.0)],
    "ColorSlope2NightMetric": [{}, dict(color_length=2.0, slope_length=10.0)],
    "TripletMetric": [{}, dict(DelMin=0.2, DelMax=90.0)],
    "TripletBandMetric": [{}, dict(DelMin=0.2, DelMax=500.0)],
    "MicrolensingMetric": [{}, dict(metric_calc="Npts")],
    "CrowdingM5Metric": [{}, dict(crowding_error=0.0006)],
    "CoaddM5PerNightMetric": [dict(bins=np.arange(22.0, 27.0, 0.3))],
    "PeriodicDetectMetric": [{}, dict(periods=5.0, amplitudes=0.5, star_mags=22.0)],
    "SurfaceBrightLimitMetric": [dict(zpt={f: 27.0 + 0.1 * j for j, f in enumerate("ugrizy")}, k_atm={f: 0.1 + 0.1 * j for j, f in enumerate("ugrizy")})],
    "RapidRevisitMetric": [dict(min_n1=1, min_n2=2, d_tpairs=0.1, d_tmax=0.2)],
    "GalPlaneFootprintMetric": [dict(science_map="galactic_plane_map")],
    "GalPlaneTimePerFilterMetric": [dict(science_map="galactic_plane_map")],
    "GalPlaneSeasonGapsTimescaleMetric": [dict(science_map="galactic_plane_map")],
    "GalPlaneVisitIntervalsTimescaleMetric": [dict(science_map="galactic_plane_map")],
    "KNePopMetric": [dict(mjd0=T0)], "TdePopMetric": [dict(mjd0=T0)], "TdePopMetricQuality": [dict(mjd0=T0)], "XRBPopMetric": [dict(mjd0=T0)],
}
ONE_BAND = {"ExgalM5", "SFUncertMetric", "TemplateTime", "SurfaceBrightLimitMetric"}  # meant for the visits of one band
SLOW = {"PeriodicStarModulationMetric"}


def data_dir(ctx):
    """Synthetic data directory: throughputs and transient light curves."""
    from mc.props.o03 import data_dir as base

    d = base(ctx)
    for sub in ("maf/bns", "maf/tde", "maf/xrb"):
        os.makedirs(os.path.join(d, sub), exist_ok=True)
    t = np.arange(0.2, 20.0, 0.2)
    for k in range(2):
        np.savetxt(os.path.join(d, "maf/bns", f"nsns_nph1_mejdyn0.{k}_mejwind0.1_phi30_20.dat"),
                   np.column_stack([t] + [-16.0 + 0.25 * k + 0.3 * j + 0.35 * t for j in range(6)]))
        with open(os.path.join(d, "maf/tde", f"tde{k}.dat"), "w") as f:
            for j, b in enumerate("ugrizy"):
                for x in np.arange(-30.0, 60.0, 2.0):
                    f.write(f"{x} {19.0 + 0.2 * j + 0.03 * abs(x) + 0.1 * k} {b}\n")
    return d


METRICS = """
AbsMaxMetric AbsMaxPercentMetric AbsMeanMetric AbsMedianMetric AccumulateCountMetric AccumulateM5Metric
AccumulateMetric AccumulateUniformityMetric AgeMetric AgnTimeLagMetric AngularSpreadMetric BDParallaxMetric
BinaryMetric BruteOSFMetric CampaignLengthMetric CoaddM5PerNightMetric Coaddm5Metric ColorSlope2NightMetric
ColorSlopeMetric CountBeyondThreshold CountExplimMetric CountMetric CountRatioMetric CountSubsetMetric
CountUniqueMetric CrowdingM5Metric CrowdingMagUncertMetric CumulativeMetric DcrPrecisionMetric
DepthLimitedNumGalMetric ExgalM5 ExgalM5WithCuts FilterPairTGapsMetric FracAboveMetric FracBelowMetric
FullRangeAngleMetric FullRangeMetric GalPlaneFootprintMetric GalPlaneSeasonGapsTimescaleMetric
GalPlaneTimePerFilterMetric GalPlaneVisitIntervalsTimescaleMetric GalaxyCountsMetricExtended GapsMetric
GeneralUniformityMetric HistogramM5Metric HistogramMetric InterNightGapsMetric IntraNightGapsMetric KNePopMetric
KuiperMetric MaxGapMetric MaxMetric MaxPercentMetric MaxStateChangesWithinMetric MeanAngleMetric
MeanCampaignFrequencyMetric MeanMetric MedianMetric MicrolensingMetric MinMetric MinTimeBetweenStatesMetric
MultibandExgalM5 NChangesMetric NRevisitsMetric NStateChangesFasterThanMetric NVisitsPerNightMetric
NestedLinearMultibandModelMetric NestedRIZExptimeExgalM5Metric NgalScaleMetric NightTimespanMetric NightgapsMetric
NlcPointsMetric NoutliersNsigmaMetric NstarsMetric OpenShutterFractionMetric OptimalM5Metric PairFractionMetric
PairMetric ParallaxCoverageMetric ParallaxDcrDegenMetric ParallaxMetric PercentileMetric PeriodicDetectMetric
PeriodicQualityMetric PeriodicStarModulationMetric PhaseGapMetric PrestoColorKNePopMetric ProperMotionMetric
RIZDetectionCoaddExposureTime RapidRevisitMetric RapidRevisitUniformityMetric RealMeanMetric RelRmsMetric
RmsAngleMetric RmsMetric RobustRmsMetric SFUncertMetric SNSLMetric SNSNRMetric SeasonLengthMetric
SingleLinearMultibandModelMetric SkySaturationMetric SnrWeightedMetric StarDensityMetric StringCountMetric SumMetric
SurfaceBrightLimitMetric TdcMetric TdePopMetric TdePopMetricQuality TemplateExistsMetric TemplateTime TgapsMetric
TgapsPercentMetric TransientMetric TripletBandMetric TripletMetric UniformityMetric UniqueRatioMetric VisitGapMetric
VisitGroupsMetric WeakLensingNvisits XRBPopMetric YearCoverageMetric
""".split()
