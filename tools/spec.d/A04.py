P = dict(
    id="A04",
    title="The prenight index and the choice of simulation agree with the archive",
    statement="The prenight index of a night and telescope lists exactly the simulations covering that night, with the same content whether it comes from the database or from the bucket, and looking up a simulation by UUID or by (day, daily id) finds that one in either, for every spelling of the night. The simulation chosen for a range of nights is the most recently created one that covers every night of the range, carries all the requested tags, is of the requested telescope and is not older than the limit; it is an error if there is none. The visits fetched are exactly that simulation's visits in the requested nights, whichever file format holds them, and the caller's arguments are left as they were.",
    quantifier={"over": ["inputs", "histories"], "text": "all combinations of night window, telescope, tags and age in the archive; all ranges of nights, tags, telescopes, age limits and spellings of a night in the queries; all lists of up to 3 candidate simulations; all placements of visits on nights"},
    why_tests_cant="tests ask one question of one small index; the two sources, spellings and competing simulations multiply",
    anchors={"files": ["rubin_sim/sim_archive/prenightindex.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/future_vsarch.py"],
             "mechanism": [{"name": "index", "where": "get_prenight_index, get_prenight_index_from_bucket, get_prenight_index_from_database, get_sim_uuid, select_latest_prenight_sim"},
                           {"name": "fetching", "where": "sim_archive.fetch_sim_for_nights, fetch_latest_prenight_sim_for_nights, fetch_obsloctap_visits; future_vsarch"}],
             "observe_at": ["data frames and file names returned"]},
    technique="explicit-state exhaustive exploration on a real PostgreSQL server and real files: every query of a finite menu over every combination of archive contents, against set-comprehension models",
    level="model_checking",
    level_note="The full product of archive contents and queries within the alphabets; assumptions are listed in the evidence.",
    design="one archive with the product of 5 windows, telescopes, tags and ages; database and bucket indexes compared row by row; all candidate lists of up to 3 rows of 16 kinds for select_latest; visits files in both formats with every placement of up to 2 (thorough 4) visits on nights.",
)
