P = dict(
    id="S01",
    title="Self-calibration recovers magnitudes from any layout of visits and stars",
    statement="For any visits and stars the catalog has one row per visit and star within the field radius, with the true magnitude plus every configured offset, an uncertainty for that magnitude, and a patch id shared by exactly the stars of one cell of one visit (noise is reproducible from the seed and scaled to the magnitude that reaches the detector). From any set of observations, in any order and with any ids, the solver drops just the stars seen once and the patches with one star, until none is left, and its zero points and magnitudes are the weighted least squares solution: noise-free magnitudes are recovered up to a constant. Neither changes its inputs, the uniformity metric maps the residuals of that solution, and every package can be imported first.",
    quantifier={"over": ["inputs"], "text": "all sets of observations of up to 4 stars in up to 3 patches, all ids of the alphabet and three orders; all visit centres, radii, rotations, patch counts and offset chains of the alphabets"},
    why_tests_cant="the repository has no test of self-calibration; poles, other field radii, stars on the edge, disconnected sets of observations are combinations",
    anchors={"files": ["rubin_sim/selfcal/generate_catalog.py", "rubin_sim/selfcal/star_tools.py", "rubin_sim/selfcal/offsets.py", "rubin_sim/selfcal/solver.py", "rubin_sim/maf/maf_contrib/selfcal_uniformity_metric.py"],
             "mechanism": [{"name": "catalog", "where": "generate_catalog, stars_project, assign_patches, NoOffset, OffsetSys, OffsetSNR"},
                           {"name": "solver", "where": "LsqrSolver.clean_data, solve_matrix, return_solution"},
                           {"name": "metric", "where": "PhotometricSelfCalUniformityMetric.run"}],
             "observe_at": ["rows of the catalog", "arrays of zero points and magnitudes", "the metric value"]},
    technique="exhaustive enumeration of bipartite observation graphs and of visit layouts on the real code, against a fixpoint and dense least squares",
    level="exploration",
    level_note="All observation graphs within the bound; layouts from finite alphabets that include poles and RA 0.",
    design="all 4096 graphs of 4 stars by 3 patches (65536 of 4 by 4 in the thorough tier) with four id maps, with and without noise, in three orders; 106 stars on rings about five centres, with radii, rotations, patch counts and offset chains; every package imported first in a new process.",
)
