P = dict(
    id="M07",
    title="The tracking database keeps one stable record per run directory",
    statement="After every sequence of registering, re-registering and removing runs in a TrackingDb, each MAF run directory has exactly one record, under an id that does not change when the run is registered again, carrying the details given in the latest registration, and other runs are unaffected; reusing another run's id or removing an unknown id is refused. add_run_to_database records a path that leads from the database to the run for every relative placement of database, run and working directory, and an interrupted registration leaves either the old or the new record.",
    quantifier={"over": ["histories", "crash points", "configurations"], "text": "all operation sequences up to a depth, all SQL fault points, all placements of database/run/working directory over a small tree"},
    why_tests_cant="the test registers one run twice; lost or duplicated records need removals, explicit ids, refused operations and failures in between",
    anchors={"files": ["rubin_sim/maf/db/tracking_db.py"],
             "mechanism": [{"name": "look-up by normalised directory, replace in one transaction", "where": "TrackingDb.add_run/delRun, add_run_to_database"}],
             "observe_at": ["rows of the runs table", "ids returned"]},
    technique="explicit-state breadth-first model checking of operation histories on the real SQLite store in lock step with a reference model, with exhaustive SQL fault points",
    level="model_checking",
    level_note="Every history within the depth over 11-14 operations; every statement fault; every placement of the small directory tree.",
    design="breadth-first search over add/re-add (normalised spellings, explicit and automatic ids, full and partial details)/delete; every live sequence of length 4; every statement failing; 768 placements for add_run_to_database.",
)
