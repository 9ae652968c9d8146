P = dict(
    id="M08",
    title="A metric's value is a function of the visits in its slice, nothing else",
    statement="For each metric of the maf metrics and maf_contrib packages, the value for a slice does not depend on the order in which its visits are listed, on slices the same metric object was run on before, or on columns it does not declare; the columns it declares suffice to compute it. Running a metric leaves the visits (up to their order) and the slice point unchanged, and a metric told other names for its columns gives the same value.",
    quantifier={"over": ["inputs", "histories", "configurations"], "text": "123 metrics (over 170 metric/argument combinations), 17 slices of 1-300 visits, every order of slices of up to five visits (thorough: six) and a family of orders of larger ones, every history of three slices on one object, every renaming of one or all column arguments"},
    why_tests_cant="tests give each metric one small table, already sorted by time, with every column present, and run each object once; MAF runs one object over thousands of slices in database order with only the declared columns",
    anchors={"files": ["rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/utils/maf_utils.py"],
             "mechanism": [{"name": "sorting by time before differences, per-run local state", "where": "run() of each metric"},
                           {"name": "declared columns decide what is read from the database", "where": "BaseMetric.col_name_arr / col=[...] in each __init__"},
                           {"name": "metrics built on other metrics pass on column names", "where": "ExgalM5WithCuts, NestedRIZExptimeExgalM5Metric, GalaxyCountsMetricExtended, ..."}],
             "observe_at": ["value returned by run()", "arrays and dictionaries passed in"]},
    technique="bounded exhaustive exploration of orders of visits, histories of slices and column renamings on the real metric objects, against the value of a fresh object on the sorted table",
    level="model_checking",
    level_note="All orders up to five (six) visits and all histories of three slices from the alphabet; visit times distinct. Metrics that hand on per-visit data, draw random numbers or need data files that cannot be synthesised are outside (mc/visits.py).",
    design="each metric runs on the table in every order, on one object carried from slice to slice, and is compared with a fresh object given the sorted table; then with only its declared columns, with all other columns changed, and with its columns renamed.",
)
