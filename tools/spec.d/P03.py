P = dict(
    id="P03",
    title="Throughputs and resampling conserve what the curves define",
    statement="Resampling a spectrum onto any grid gives the mean of the old spectrum over each new bin (so flux in range is conserved) with the fill value outside, and errors propagate as the weighted quadrature. A throughput file is read the same for any order of its rows, comments and compression, and the curve is sampled on the requested grid; a list of component files gives the product of the components. Products of curves and of a curve with a spectrum, the normalized response phi, zero points and effective wavelengths are those the curves define, for any grids, and leave their inputs unchanged.",
    quantifier={"over": ["inputs"], "text": "all pairs of short old and new grids with all flux assignments; all file layouts of the alphabet; all pairs and triples of component curves"},
    why_tests_cant="tests resample smooth curves between similar grids; edges, partial bins, different lengths and unordered files are combinations",
    anchors={"files": ["rubin_sim/phot_utils/bandpass.py", "rubin_sim/phot_utils/spectral_resampling.py", "rubin_sim/phot_utils/sed_utils.py"],
             "mechanism": [{"name": "resampling", "where": "spectral_resampling.spectres"},
                           {"name": "curves", "where": "Bandpass.read_throughput, read_throughput_list, set_bandpass, resample_bandpass, multiply_throughputs, sb_tophi, calc_zp_t, calc_zp_m, calc_eff_wavelen, write_throughput"}],
             "observe_at": ["arrays returned and held", "files read and written"]},
    technique="exhaustive enumeration of grids, files and component products on the real code, against exact rational arithmetic",
    level="exploration",
    level_note="All combinations of the alphabets; the overlap model is exact.",
    design="old grids of up to 5 points and new grids of up to 4 from a set of starts and steps with every 0/1/3 flux; files in every order of up to 4 rows with duplicates, comments, gzip.",
)
