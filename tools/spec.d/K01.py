P = dict(
    id="K01",
    title="Sky brightness of a point is the sum of its interpolated components",
    statement="SkyModel gives each point the sum of the components that are switched on, each interpolated linearly (in magnitude, or in log flux for spectra) between the template nodes around it, NaN outside the airmass limit or with the sun up, in the filters asked for; the value does not depend on the other points of the call, their order, the form or unit of the input, which of the three set methods gave the conditions, or what the object computed before. Magnitudes in user bandpasses are those of the spectrum returned, airmass over 3 counts as 3, and refused calls leave nothing stale to read. generate_sky saves every time or leaves it within dm of the interpolation of its neighbours, and recalc_mags changes the magnitudes only.",
    quantifier={"over": ["inputs", "histories"], "text": "all 256 sets of components; all ordered selections of up to 4 of 6 points at 4 airmass limits; the products of node and off-node conditions of each component; all input forms, times and ways to set them; all sequences of 3 of 13 operations on one object; ordered filter lists of up to 3"},
    why_tests_cant="the repository's tests need released data, compare the model with itself at one position and never mix usable and unusable points",
    anchors={"files": ["rubin_sim/skybrightness/sky_model.py", "rubin_sim/skybrightness/interp_components.py", "rubin_sim/skybrightness/twilight_func.py", "rubin_sim/skybrightness/utils.py", "rubin_sim/skybrightness/generate_hdf5.py"],
             "mechanism": [{"name": "setting", "where": "SkyModel.set_ra_dec_mjd, set_ra_dec_alt_az_mjd, set_params, _setup_point_grid"},
                           {"name": "sum", "where": "SkyModel._interp_sky, return_mags, return_wave_spec"},
                           {"name": "interpolation", "where": "BaseSingleInterp, Airglow, MoonInterp, ZodiacalInterp, TwilightInterp"},
                           {"name": "files", "where": "generate_sky, recalc_mags, load_spec_files"}],
             "observe_at": ["magnitudes and spectra returned", "get_computed_vals", "hdf5 and npz files"]},
    technique="exhaustive enumeration of component sets, point selections, condition products and operation sequences on the real model with synthetic templates, against a reference interpolation",
    level="exploration",
    level_note="Finite alphabets of conditions that include nodes, edges and values beyond the grids; histories complete to depth 3 (4 in the thorough tier).",
    design="template files whose values are known functions of the node (several files per component, moon pixels that stop below the horizon); a reference that interpolates them node by node and sums; the model is run for every set of components, every ordered selection of points (some over the limit or below the horizon), every form of input, and every sequence of settings, switches and refused calls on one object.",
)
