P = dict(
    id="P01",
    title="A spectrum keeps its meaning through every sequence of operations",
    statement="After any sequence of setting, reading, unit conversion, redshifting, dimming, dust, resampling, scaling, renormalizing, multiplying and clearing, a Sed holds the wavelengths and flux densities that the operations define, in flambda and fnu consistently, and every observer (flux, magnitude, AB counts, flux norm, many-band and many-object forms) returns what those define, without changing the spectrum or the caller's arrays. The array forms give the same numbers as the single forms. A spectrum written to a file reads back the same to the written precision.",
    quantifier={"over": ["operation sequences", "inputs"], "text": "all sequences of operations of a menu (thorough: one longer) from every starting spectrum; both units; all dust laws and edges of their wavelength ranges"},
    why_tests_cant="tests perform one conversion at a time from a fresh object; stale fnu, shared arrays and grids left by earlier operations need sequences",
    anchors={"files": ["rubin_sim/phot_utils/sed.py", "rubin_sim/phot_utils/bandpass.py"],
             "mechanism": [{"name": "state", "where": "Sed.set_sed, flambda_tofnu, fnu_toflambda, resample_sed, redshift_sed, add_dust, multiply_sed, renormalize_sed, multiply_flux_norm, clear_sed"},
                           {"name": "observers", "where": "Sed.calc_flux, calc_mag, calc_adu, calc_flux_norm, many_flux_calc, many_mag_calc, setup_phi_array, write_sed, read_sed_flambda"}],
             "observe_at": ["Sed.wavelen, flambda, fnu and return values", "files written"]},
    technique="explicit-state exhaustive exploration: breadth-first over all operation sequences on the real Sed, each state compared with an independent model",
    level="model_checking",
    level_note="All sequences to depth 3 (thorough 4) from every starting spectrum; assumptions are listed in the evidence.",
    design="states are (wavelengths, flux, which units are held); the model integrates piecewise constant spectra exactly; after every step all observers are compared, and the arrays handed in are compared with copies.",
)
