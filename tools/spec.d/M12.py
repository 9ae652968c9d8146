P = dict(
    id="M12",
    title="Solar system metrics judge the detections of each object at each H",
    statement="For any set of observations of an object, in any row order, the moving object metrics give what they are defined as: counts, nights and arc of the detections, discovery opportunities (tracklets per night, nights per window) with the time, distance, position and velocity of the first one, trailed detections, activity coverage, colors, light curves and detection by earlier surveys, using only detections at or above the SNR limit (or flagged visible). The slicer gives each object its own observations that satisfy the constraint at each H value, and every bundle of a MoMetricBundleGroup gets the values, masks, child values and summaries it gets when run alone. The summaries are the completeness at or above the threshold per H (cloned H range or one H per object) or per time, its integral weighted by the H distribution, the number of objects, and the value at an H inside the range.",
    quantifier={"over": ["inputs", "configurations", "histories"], "text": "all subsets of grids of 12 times (nights and times of night, other times absent or undetected) in four row orders for 6 discovery definitions; every sequence of up to 4 (thorough: 5) observations for the counts and pairs; every combination of detections per band; every group of up to 3 (thorough: 4) of 8 bundles in every order"},
    why_tests_cant="tests use one table in time order with all detections consecutive; unsorted rows, undetected observations in between and groups of bundles with different stackers do not occur",
    anchors={"files": ["rubin_sim/maf/metrics/mo_metrics.py", "rubin_sim/maf/metrics/mo_summary_metrics.py", "rubin_sim/maf/slicers/mo_slicer.py",
                       "rubin_sim/maf/metric_bundles/mo_metric_bundle.py"],
             "mechanism": [{"name": "detections selected and sorted in time", "where": "_set_vis, DiscoveryMetric.run"},
                           {"name": "stackers run for compatible bundles only", "where": "MoMetricBundleGroup._run_compatible"},
                           {"name": "weights over H", "where": "integrate_over_h, MoCompletenessMetric.run"}],
             "observe_at": ["return values of run()", "metric_values, child_bundles and summary_values of the bundles", "slices of MoObjSlicer"]},
    technique="bounded exhaustive enumeration of observation sets, row orders and bundle groups with an oracle written from the definitions",
    level="exploration",
    level_note="DiscoveryNObsMetric (index difference, pinned by a test) is not claimed; tracklets are judged where the two readings of the time limits agree; the random visibility is replaced by an SNR limit; coverage of the orbit from the time of perihelion is a known finding.",
    design="the oracle for discoveries groups detections by night, decides each night and slides the window over the good nights; groups of bundles are compared with fresh runs of each bundle, whose counts are compared with a direct count.",
)
