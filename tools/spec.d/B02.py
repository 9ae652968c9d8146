P = dict(
    id="B02",
    title="Moving-object results of splits join to the results of the whole population",
    statement="Calculating a moving-object batch on any split of a population's observations by object and joining the pieces gives, for every metric, the values, masks and description of one run over the whole population, and pieces about different objects or H values are refused. A constraint and choice of losses give a batch the values of a run over the selected observations with those losses. The completeness and the population fractions reported for a bundle are those of its own objects at its own H mark, whatever other bundles are summarised with it and in whatever order, and the commands (calc, join, fractions) give the same files and database rows for the joined and the whole population.",
    quantifier={"over": ["inputs", "operation sequences"], "text": "all 27 assignments of three observed objects (a fourth is never observed) to 3 splits x 6 batches x 3 constraints x own/cloned H, every joinable metric file; all 144 pairs of object lists and H grids; all ordered dicts of up to 3 of 7 discovery and 6 characterization bundles x given/own H mark; all 27 placements in the 10 splits of the commands x 2 population types"},
    why_tests_cant="the tests never join splits or summarise more than one bundle; joining depends on which objects are in which piece, and summaries on the other bundles of the dict",
    anchors={"files": ["rubin_sim/maf/batches/moving_objects_batch.py", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py", "rubin_sim/maf/run_moving_calc.py", "rubin_sim/maf/run_moving_join.py", "rubin_sim/maf/run_moving_fractions.py"],
             "mechanism": [{"name": "joining", "where": "read_and_combine, combine_subsets, run_moving_join"},
                           {"name": "summaries", "where": "run_completeness_summary, run_fraction_summary, make_completeness_bundle, run_moving_fractions"},
                           {"name": "calculation", "where": "quick_discovery_batch, discovery_batch, characterization_inner_batch, characterization_outer_batch, run_moving_calc"}],
             "observe_at": ["metric values and masks of the joined bundles and files", "completeness and fraction bundles", "summary statistics in the results database"]},
    technique="exhaustive enumeration of split assignments and of ordered bundle dicts on the real code, compared with the undivided run and with direct counts",
    level="exploration",
    level_note="Apparent magnitudes are two magnitudes from the limit, where the random draw of a detection cannot differ between a split and the whole; plots are made but their content is not compared.",
    design="a four-object population is calculated once per subset of objects; every assignment of objects to splits is assembled from those results, joined with read_and_combine / combine_subsets / run_moving_join and compared file by file with the undivided run (values, masks, constraint, label, plot dictionary), also after write and read; constraint and losses are compared with a run over pre-selected observations; the completeness and fraction summaries of each bundle are compared with direct counts and, for every ordered dict of bundles, with the summaries of each bundle alone, including the rows of the results database and the files written.",
)
