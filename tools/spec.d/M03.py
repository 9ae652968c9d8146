P = dict(
    id="M03",
    title="Time slicers cover every visit exactly once in the right interval",
    statement="For visits in any time order, a time-interval slicer assigns each visit to exactly the interval of the night containing its start time and never loses or duplicates one; a visit slicer gives one slice per visit whose metadata describes that same visit; a block slicer groups consecutive visits with the same scheduler note separated by less than the allowed gap. Slice metadata (start time, duration, extra columns) always describes the visits in the slice, and setting a slicer up again with other visits leaves no trace of the earlier ones.",
    quantifier={"over": ["inputs"], "text": "all sequences of visit times (any order, repeats, boundary times) and notes up to the bound, all interval lengths in the menu"},
    why_tests_cant="tests use one sorted night without visits at boundaries; the statement is about every order and boundary position",
    anchors={"files": ["rubin_sim/maf/slicers/time_interval_slicers.py"],
             "mechanism": [{"name": "interval construction from dayobs boundaries", "where": "TimeIntervalSlicer/BlockIntervalSlicer/VisitIntervalSlicer.setup_slicer"}],
             "observe_at": ["slicer._slice_sim_data(islice)", "slicer.slice_points"]},
    technique="bounded exhaustive enumeration of visit-time/note sequences on the real slicers against reference intervals",
    level="exploration",
    level_note="All sequences up to 4 visits over times on and next to interval and day boundaries; block structure up to 4 visits (5 thorough).",
    design="all sequences of visit times over {on an edge, just before, just after, integer MJD, next day} and note labels, in every order; reference: integer division of the time since the start of the dayobs, and a direct grouping of consecutive visits.",
)
