P = dict(
    id="M04",
    title="Running bundles together gives what each gives alone, slice by slice",
    statement="For any set of metric bundles run as a group - sharing or not sharing slicers, constraints, stackers, maps, caches, from memory or from a database - each bundle's value at each slice is the metric evaluated on exactly the visits of that slice (after its own constraint and stackers), masked where there are no visits or the metric returned its bad value; no bundle influences another. Reductions and summary statistics are functions of exactly those values, and running the group again, in another order, or with caching on or off gives the same result. Two metrics with the same name never overwrite each other's result.",
    quantifier={"over": ["histories", "configurations", "inputs"], "text": "all ordered groups of up to 3 bundles from a catalogue, run orders, cache settings, and small visit tables"},
    why_tests_cant="tests run one or two groups; interference needs particular combinations (conflicting stackers, shared slicers, cached slices, in-place sorting metrics)",
    anchors={"files": ["rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
             "mechanism": [{"name": "compatibility grouping and per-slice evaluation with slice cache", "where": "MetricBundleGroup._find_compatible_lists/_run_compatible"}],
             "observe_at": ["bundle.metric_values", "bundle.summary_values", "MetricBundleGroup.bundle_dict"]},
    technique="bounded exhaustive enumeration of bundle groups and visit tables; differential against independent per-slice evaluation",
    level="exploration",
    level_note="Complete over the catalogue's ordered pairs and triples and all small visit tables; metrics and slicers themselves are decided by other properties.",
    design="a catalogue of bundles (shared/own slicers, cached, constraints, parameterised stackers that conflict, maps, vector and object metrics, metrics that sort their input in place, reductions, summaries); all ordered pairs/triples from memory and from SQLite; reference: evaluate the metric directly on the visits each slice contains.",
)
