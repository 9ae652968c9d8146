P = dict(
    id="M06",
    title="The results database is a faithful record of every history of updates",
    statement="After every sequence of recording metrics, displays, plots and summary values in a ResultsDb (through one handle, several handles or reopened files), each distinct metric (name, slicer, run, constraint, info label) has one id that never changes, re-recording it adds nothing, and every query returns exactly what was recorded for it: one current display, each plot file once, the summary values given. Values that are not numbers or name/value tables are not recorded, and an update interrupted by a storage failure leaves each record as it was before or after the update.",
    quantifier={"over": ["histories", "crash points", "inputs"], "text": "all operation sequences up to a depth over small alphabets of each record kind, live and reopened, and a failure at each SQL statement and commit of each update"},
    why_tests_cant="tests record one metric and read it back; identity, duplication and partial-update errors need particular histories or failures",
    anchors={"files": ["rubin_sim/maf/db/results_db.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
             "mechanism": [{"name": "metric identity look-up, replace-on-update of displays and plots, type-checked summary values", "where": "ResultsDb.update_metric/update_display/update_plot/update_summary_stat and get_*"}],
             "observe_at": ["answers of every ResultsDb query", "rows in the SQLite file"]},
    technique="explicit-state breadth-first model checking of operation histories on the real SQLite store in lock step with a reference model, with exhaustive SQL fault points",
    level="model_checking",
    level_note="Every history within the depth over the operation alphabets; every statement/commit fault of each update.",
    design="five alphabets (metrics, displays, plots, summary values, mixed) explored breadth-first on real database files, canonical state = all rows; after each transition every query is compared with a dictionary model; also every live sequence on one handle, two interleaved handles, MetricBundle-driven updates and every SQL statement failing.",
)
