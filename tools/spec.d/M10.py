P = dict(
    id="M10",
    title="Cadence metrics report the true gaps, nights, groups, seasons and changes",
    statement="For every set of visits in time, the metrics of gaps (between visits, within and between nights, all pairs, histograms and percentages), revisits and pairs, visits, depth and timespan per night, groups of visits with their windows and sequences of lunations, seasons (length, number, separation of nights, time-delay challenge) and state changes (number, shortest time, most within a timespan) return the value of their definition. With too few visits they return the bad value instead of failing.",
    quantifier={"over": ["inputs", "configurations"], "text": "every subset of up to 4 (thorough: 5) visits of a grid of nights and times within the night, with every assignment of bands, exposure times or depths from small menus, for several arguments of about 30 metrics"},
    why_tests_cant="tests use one regular cadence per metric; single visits, nights at the end of the range, gaps exactly at a limit and groups late in a lunation do not occur in it",
    anchors={"files": ["rubin_sim/maf/metrics/tgaps.py", "rubin_sim/maf/metrics/cadence_metrics.py", "rubin_sim/maf/metrics/season_metrics.py",
                       "rubin_sim/maf/metrics/visit_groups_metric.py", "rubin_sim/maf/metrics/technical_metrics.py"],
             "mechanism": [{"name": "differences of sorted times, first and last visit of each night by searchsorted", "where": "run() of the metrics"},
                           {"name": "lunation and window loops", "where": "VisitGroupsMetric.reduce_*"}],
             "observe_at": ["value returned by run() and the reduce functions"]},
    technique="bounded exhaustive enumeration of visit sets with an independent oracle for every metric",
    level="exploration",
    level_note="All subsets of the grid up to the stated size; nights increase with time and visit times are distinct; counting of visits closer than the minimum of VisitGroupsMetric only where documented (next to one pair).",
    design="times are exact binary fractions, so limits are met exactly where the definition is inclusive; each metric gets the visits in reversed order.",
)
