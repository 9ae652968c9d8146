P = dict(
    id="A03",
    title="Archive searches return exactly the matching simulations",
    statement="sims_on_nights and sims_on_night_with_stats return a simulation if and only if its night window covers the requested nights, its telescope is the requested one, it carries all requested tags and it is younger than the maximum age, each with its own tags, comments, files and that night's statistics, for every spelling of the dates. The (day_obs, daily id) of a simulation numbers the simulations of its creation day (UTC-12h) in order of creation, and looking up such a pair returns that simulation.",
    quantifier={"over": ["inputs", "histories"], "text": "all combinations of night window, telescope, tag set and age in the archive, questioned with all combinations of nights, spellings, tags, telescope and age limit; all orders of adding simulations around the day boundary"},
    why_tests_cant="each test query has one expected answer in an archive of a few simulations; wrong joins show only with several tags, comments, files and windows at once",
    anchors={"files": ["rubin_sim/sim_archive/vseqmetadata.py", "rubin_sim/sim_archive/vseqschema.sql"],
             "mechanism": [{"name": "SQL of the searches", "where": "VisitSequenceArchiveMetadata.sims_on_nights, sims_on_night_with_stats, get_sim_uuid, daily id views"}],
             "observe_at": ["data frames returned"]},
    technique="explicit-state exhaustive exploration: every query of a finite menu in an archive holding every combination of attributes, on the real PostgreSQL server, against a set-comprehension model",
    level="model_checking",
    level_note="The full product of archive contents and queries within the alphabets.",
    design="one archive with the product of 8 windows, 2 telescopes, 4 tag sets, 3 ages; every query in the product of night pairs, tags, telescopes, ages; daily ids over all orders of creation.",
)
