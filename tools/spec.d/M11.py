P = dict(
    id="M11",
    title="Stackers add the value each column stands for and leave the visits alone",
    statement="Every stacker adds for each visit the value its column is defined as (galactic and ecliptic coordinates, healpixel, hour and parallactic angle, zenith distance, normalized airmass, parallax factors, DCR offsets and moments, saturation and five sigma depth, effective time, dates, overhead, labels, follow-up telescopes, depth on the meridian, NEO distance, nightly coadds, and magnitude, SNR and visibility of moving objects at any H), whatever the other visits and whichever stackers ran before. It needs no other columns than it asks for, keeps the number, order and other columns of the visits, does not change the data it was given, recomputes columns that are present only with override (or where the stacker always does), and works for a single visit and for none.",
    quantifier={"over": ["inputs", "configurations", "histories"], "text": "every sequence of up to 3 (thorough: 4) visits of an alphabet of 7 for 47 stacker configurations, every history of up to 3 (thorough: 4) runs of 12 stackers, every subset of present columns with and without override"},
    why_tests_cant="tests run each stacker on one random table; mixed bands, saturated skies, single visits and columns left by other stackers do not occur",
    anchors={"files": ["rubin_sim/maf/stackers/base_stacker.py", "rubin_sim/maf/stackers/general_stackers.py", "rubin_sim/maf/stackers/coord_stackers.py",
                       "rubin_sim/maf/stackers/date_stackers.py", "rubin_sim/maf/stackers/label_stackers.py", "rubin_sim/maf/stackers/mo_stackers.py",
                       "rubin_sim/maf/stackers/n_follow_stacker.py", "rubin_sim/maf/stackers/m5_optimal_stacker.py", "rubin_sim/maf/stackers/neo_dist_stacker.py",
                       "rubin_sim/maf/stackers/sn_stacker.py", "rubin_sim/maf/stackers/teff_stacker.py", "rubin_sim/maf/stackers/get_col_info.py"],
             "mechanism": [{"name": "columns added and present columns detected", "where": "BaseStacker._add_stacker_cols, BaseStacker.run"},
                           {"name": "per-band loops over masks of visits", "where": "_run of the stackers"}],
             "observe_at": ["structured array returned by run()", "ColInfo.get_data_source"]},
    technique="bounded exhaustive enumeration of visit sequences, stacker histories and present columns with a per-visit oracle",
    level="exploration",
    level_note="Sky positions computed by astropy are compared with low-precision formulas; which visits near the limit count as visible is random by design and only checked far from the limit and for repeatability; the sign of NEOHelioX is not claimed.",
    design="each added column is compared row by row with an oracle that sees one visit; since the oracle cannot see the other visits, agreement on every sequence shows independence of order and neighbours.",
)
