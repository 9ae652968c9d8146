P = dict(
    id="M01",
    title="Value slicers put every visit into exactly the bin containing its value",
    statement="For any set of visits, in any order, and any bin definition, a slicer that bins by column value puts each visit whose value lies in the binned range into exactly the one bin whose edges contain it (bins closed on the left, the overall range closed at the right end too), and visits outside the range into none; the number of slices matches the bin edges. Bins derived automatically from the data cover every visit. Cumulative movie slices contain every visit up to the right edge of the frame, the all-data slicer contains every visit once, and setting a slicer up again with other data leaves no trace of the earlier data.",
    quantifier={"over": ["inputs", "configurations"], "text": "all multisets and orders of visit values relative to the edges, all bin definitions (explicit edges, bin size with or without limits), 1 to 3 dimensions"},
    why_tests_cant="the tests draw one random sample per slicer with values that never sit on an edge and never in adversarial order or with empty/duplicate bins; membership must hold for every value position",
    anchors={"files": ["rubin_sim/maf/slicers/one_d_slicer.py", "rubin_sim/maf/slicers/nd_slicer.py", "rubin_sim/maf/slicers/movie_slicer.py", "rubin_sim/maf/slicers/uni_slicer.py", "rubin_sim/maf/slicers/hourglass_slicer.py"],
             "mechanism": [{"name": "searchsorted over the sorted column", "where": "setup_slicer / _slice_sim_data"}],
             "observe_at": ["slicer._slice_sim_data(islice)['idxs']", "slicer.nslice", "slicer.slice_points"]},
    technique="bounded exhaustive enumeration of visit-value sequences on the real slicers against a reference membership rule",
    level="exploration",
    level_note="Every value sequence up to 4-5 visits over an alphabet with points on, between and beyond the edges, for each bin definition in the menu. Larger tables only matter through order relative to edges.",
    design="all sequences (order and repetition) of visit values over alphabets on/between/outside the edges, explicit edges, automatic bins (bin size, limits, non-dividing ranges), integer columns, 2-D and 3-D products, movies (cumulative and not), re-setup of the same slicer object; reference: direct interval membership of each value. Tests use one random draw.",
)
