P = dict(
    id="P02",
    title="Signal to noise, limiting depth and magnitude errors obey the noise equation",
    statement="For every gain, exposure, read noise, dark current, platescale, sky brightness, seeing and source, the signal to noise and sky noise returned are those of the CCD equation, and calc_m5 is the magnitude at which a point source reaches signal to noise 5. Magnitude error, signal to noise, gamma and m5 convert into each other consistently, including the astrometric error and the seeing conversions. Photometric parameters hold the given values, or the documented default of the band for those not given, in any combination, and cannot be altered.",
    quantifier={"over": ["inputs"], "text": "the full product of gains, exposures, noise sets, scales, sky magnitudes, seeing, source and bandpass; all subsets of overridden parameters for every band"},
    why_tests_cant="tests evaluate the equation at the default gain and exposure, where several errors cancel",
    anchors={"files": ["rubin_sim/phot_utils/signaltonoise.py", "rubin_sim/phot_utils/photometric_parameters.py", "rubin_sim/phot_utils/predicted_zeropoints.py"],
             "mechanism": [{"name": "noise", "where": "calc_snr_sed, calc_m5, calc_sky_counts_per_pixel_for_m5, calc_total_non_source_noise_sq, calc_instr_noise_sq"},
                           {"name": "conversions", "where": "calc_snr_m5, calc_mag_error_m5, calc_mag_error_from_snr, mag_error_from_snr, calc_gamma, calc_astrometric_error, fwhm_eff2_fwhm_geom, calc_neff"},
                           {"name": "parameters", "where": "PhotometricParameters"}],
             "observe_at": ["return values"]},
    technique="exhaustive enumeration of the finite product of detector, sky and source parameters on the real functions, against an independent evaluation",
    level="exploration",
    level_note="The functions are stateless; the full product of the alphabets is covered.",
    design="about twenty thousand parameter combinations; the independent model sums photons per bin and adds noise terms; m5 is checked by feeding a source of that magnitude back.",
)
