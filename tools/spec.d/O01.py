P = dict(
    id="O01",
    title="Chebyshev ephemerides reproduce the ephemeris within tolerance",
    statement="For every object, the segments fitted by ChebyFits tile the requested time span without gap or overlap, except for intervals listed as failed; in each segment the fitted position stays within the sky tolerance of the ephemeris at every sample, starts and ends exactly on it in value and velocity, and the reported residuals are those of the segment. Values evaluated from the coefficients, directly or after writing (or appending to) and reading a file, are those of the object asked for at the time asked for, NaN where there is no segment, for any order of objects, segments and times, without changing the fit or the caller's arguments. The Chebyshev fit is the constrained least squares solution and the evaluation the Chebyshev series and its derivative.",
    quantifier={"over": ["inputs", "operation sequences"], "text": "all combinations of objects, span, tolerance, sampling, rounding, number of coefficients and segment length in the alphabets; all placements of segments of three objects; all short coefficient and data vectors"},
    why_tests_cant="the tests need a real ephemeris engine and fit a few objects whose segments coincide; gaps and mixed-up objects need segments that differ",
    anchors={"files": ["rubin_sim/moving_objects/chebyshev_utils.py", "rubin_sim/moving_objects/cheby_fits.py", "rubin_sim/moving_objects/cheby_values.py"],
             "mechanism": [{"name": "fit", "where": "chebfit, make_cheb_matrix, make_cheb_matrix_only_x, ChebyFits.calc_segment_length, calc_segments, _subdivide_segment, write"},
                           {"name": "evaluation", "where": "chebeval, ChebyValues.set_coefficients, read_coefficients, get_ephemerides"}],
             "observe_at": ["ChebyFits.coeffs, resids, failed", "files written", "ephemerides returned"]},
    technique="explicit-state exhaustive exploration of fit configurations and segment layouts on the real code, against an analytic ephemeris and an independent constrained least squares model",
    level="model_checking",
    level_note="All configurations of the alphabets; the engine is replaced by an analytic motion, which the evidence lists as an assumption.",
    design="seven kinds of motion (slow, wrapping RA, fast, wiggly, high declination, undefined magnitude, too fast to fit) in six sets, times span, start, tolerance, sampling, decimals, coefficients and length; 125 segment layouts times queries; all 0/1 data vectors through the fit.",
)
