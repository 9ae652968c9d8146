P = dict(
    id="M09",
    title="Simple, vector and summary metrics return the statistic they name",
    statement="For every set of values, the metrics of one column (count, extremes, mean, median, rms, percentiles, fractions and counts beyond thresholds, outliers, unique values, text counts, angles) and the depth, histogram, accumulated, phase-gap, uniformity and area or footprint summary metrics return exactly the statistic they document. This includes slices of a single visit, equal values, empty bins, bins visited late, values on a bin edge or threshold, and no visits in the requested filter (bad value).",
    quantifier={"over": ["inputs", "configurations"], "text": "every sequence of up to 4 (thorough: 5) values over alphabets of 5-12 values per family of metrics, for a menu of arguments of each of about 60 metrics"},
    why_tests_cant="tests evaluate each metric on one random or linear array where bin edges, ties, late bins and single visits do not occur",
    anchors={"files": ["rubin_sim/maf/metrics/simple_metrics.py", "rubin_sim/maf/metrics/vector_metrics.py", "rubin_sim/maf/metrics/summary_metrics.py",
                       "rubin_sim/maf/metrics/area_summary_metrics.py", "rubin_sim/maf/metrics/string_count_metric.py", "rubin_sim/maf/metrics/phase_gap_metric.py",
                       "rubin_sim/maf/metrics/cadence_metrics.py", "rubin_sim/maf/metrics/coverage_metric.py", "rubin_sim/maf/metrics/optimal_m5_metric.py"],
             "mechanism": [{"name": "accumulated value at each bin edge by searchsorted", "where": "AccumulateMetric and subclasses"},
                           {"name": "rotation of angles to their smallest arc", "where": "_rotate_angles"},
                           {"name": "best area of a map", "where": "AreaSummaryMetric, FONv, FOArea"}],
             "observe_at": ["value returned by run() and the reduce functions"]},
    technique="bounded exhaustive enumeration of value sequences with an independent exact-arithmetic oracle for every metric",
    level="exploration",
    level_note="All sequences within the stated alphabets and lengths; values where a floating-point threshold is met exactly are skipped.",
    design="every sequence of small values is given to every metric of its family; the oracle uses Fractions and the written definition, not numpy.",
)
