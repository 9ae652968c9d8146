P = dict(
    id="M13",
    title="Visits read and runs compared are exactly those asked for",
    statement="For any visit database, constraint, columns and kind of handle (path, URL, connection, engine, resource) get_sim_data returns exactly the rows that match, in the order and with the columns asked for, followed by the columns of the stackers, and announces an empty selection or a missing file without making one. Gathering any list of results directories gives one row per run and one column per summary, the last value winning and directories without results ignored and left alone, and the same table when read back from a file; any selection by run, family, metric and subset gives those values in the order asked. Normalization to any baseline is 1 for the baseline and follows the invert and magnitude flags whatever the order, orientation or duplicates of the table; downloads overwrite only when told to.",
    quantifier={"over": ["inputs", "histories"], "text": "all tables of subsets of five visits with the menus of constraints, columns and handles; all ordered triples of results directories; all selections of 3 runs, 3 metrics, 2 families, 2 subsets; all flags of up to 3 metrics"},
    why_tests_cant="tests read one file with a few constraints and need downloaded data for the rest, which does not exist offline",
    anchors={"files": ["rubin_sim/maf/utils/opsim_utils.py", "rubin_sim/maf/run_comparison/archive.py", "rubin_sim/maf/run_comparison/gather_summaries.py", "rubin_sim/maf/run_comparison/summary_plots.py", "rubin_sim/maf/run_comparison/radar_plot.py"],
             "mechanism": [{"name": "selection", "where": "get_sim_data, scale_benchmarks, calc_coadded_depth"},
                           {"name": "gathering", "where": "combine_result_dbs, gather_summaries, get_metric_summaries, get_metric_subsets, write_metric_subsets, get_runs, get_family_runs, download_runs"},
                           {"name": "normalization", "where": "normalize_metric_summaries, normalize_for_radar"}],
             "observe_at": ["arrays and tables returned", "files written"]},
    technique="exhaustive enumeration of small databases, selections, directory lists and flags on the real code, against list comprehensions",
    level="exploration",
    level_note="All combinations within the alphabets; normalization is checked against the formulas of its documentation.",
    design="the three table names; nine constraints; five column lists; six kinds of handle; seven kinds of results directory in all ordered lists of up to three; flags of every metric; baselines of one to three runs; existing files with and without clobber.",
)
