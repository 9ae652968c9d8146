P = dict(
    id="A05",
    title="Nights, hashes, statistics and data directories of simulations are faithful",
    statement="Every notation of a night means the same date, and every instant belongs to the night that began at the last 12h UTC, in conversions, statistics, metadata and archive paths alike. The hash of a visit table is a function of its content alone (the same in any process, different for any changed value, name, type or order), nightly statistics are those of exactly the visits of each night, conversion of a visit database to HDF5 and back loses nothing, and random overheads are reproducible from their seed and never below the minimum. The data directory of a simulation, made directly, by drive_sim or by the pre-night command, holds the files, checksums, nights, tags, label, arguments and starting scheduler of that simulation and of no other, leaves the caller's objects unchanged, and a scheduler snapshot is the one of the configuration, reference and visits asked for.",
    quantifier={"over": ["inputs", "histories"], "text": "all instants of a menu around the night boundary for 25 dates; all tables of up to 2 rows of 3 typed columns; all nights and values of up to 3 visits; all sequences of 3 overhead calls for 11 configurations; all inputs of a data directory with one deviation (two in the thorough tier) and all orders of 3 directories"},
    why_tests_cant="tests check one date, one overhead distribution and one directory; the almanac and the simulator they need are not there offline, and a hash that depends on memory addresses looks fine within one call",
    anchors={"files": ["rubin_sim/sim_archive/util.py", "rubin_sim/sim_archive/sim_archive.py", "rubin_sim/sim_archive/prenight.py", "rubin_sim/sim_archive/make_snapshot.py", "rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/vseqmetadata.py"],
             "mechanism": [{"name": "nights", "where": "dayobs_to_date, compute_nightly_stats, construct_base_resource_path, compute_sim_start_and_end, make_sim_data_dir"},
                           {"name": "content hash", "where": "compute_visits_sha256"},
                           {"name": "conversion", "where": "opsimdb_to_hdf5, hdf5_to_opsimdb"},
                           {"name": "overhead", "where": "AnomalousOverheadFunc"},
                           {"name": "directories", "where": "make_sim_data_dir, drive_sim, run_prenight_sim_cli"},
                           {"name": "snapshots", "where": "get_scheduler, get_scheduler_from_config, get_scheduler_instance_from_repo, save_scheduler"}],
             "observe_at": ["values returned", "files written"]},
    technique="exhaustive enumeration of notations, instants, small tables, call sequences and directory inputs on the real code, against calendar arithmetic, exact fractions and the files themselves",
    level="exploration",
    level_note="All elements of the stated alphabets; the simulator is a stand-in returning given visits, the almanac synthetic.",
    design="dates over month, year and leap boundaries with six instants each; 585 tables hashed, compared pairwise, and recomputed in two other processes; 47 databases converted both ways and over one another; statistics of up to three visits in three nights; 11 overhead configurations, three kinds of observation, three seeds; every start night and length of a 12-night almanac; git references of a local repository.",
)
