P = dict(
    id="A07",
    title="The prototype simulation archive keeps, finds and exchanges simulations intact",
    statement="Whatever is in the dated directory of the prototype archive, a transferred simulation gets the next free number there with every file intact and nothing else changed, and the check of a resource flags exactly the damaged files. Reading metadata gives exactly the simulations of the requested dates, the same with or without a compilation after any history of additions and (appending) compilations, and verification names exactly the simulations that differ; the latest simulation is the most recent one, by date and then number, that covers the nights with the tags and telescope asked for, and the visits fetched are those of the nights. Import into the database, export from it, and both in turn preserve label, tags, telescope, nights, creation time, files and visits.",
    quantifier={"over": ["histories", "inputs"], "text": "all sequences of 3 (4 thorough) archive operations of 7; all histories of 3 (4) additions and compilations for six kinds of metadata; all subsets of up to 3 of 11 simulations searched with all criteria; all ranges of five nights"},
    why_tests_cant="its tests are skipped or need credentials; numbering, caching and the choice of the latest depend on histories of the archive no sample covers",
    anchors={"files": ["rubin_sim/sim_archive/prototype.py", "rubin_sim/sim_archive/vseqmetadata.py"],
             "mechanism": [{"name": "numbering and transfer", "where": "_next_sim_date_and_index, transfer_archive_dir, check_opsim_archive_resource, make_sim_archive_cli"},
                           {"name": "metadata and its compilation", "where": "read_archived_sim_metadata, compile_sim_metadata, read_sim_metadata_from_hdf, verify_compiled_sim_metadata"},
                           {"name": "selection", "where": "find_latest_prenight_sim_for_nights, fetch_sim_for_nights"},
                           {"name": "exchange", "where": "export_sim_to_prototype_sim_archive, metadata_yaml_from_prototype, import_sim_from_yaml, import_sim_from_prototype_sim_archive"}],
             "observe_at": ["files of the archive", "dicts and tables returned", "rows of the database"]},
    technique="explicit enumeration of operation histories on the real archive code over a file store and a PostgreSQL server, against a reference model of the archive (a dict), plus exhaustive queries",
    level="model_checking",
    level_note="All histories and queries within the bounds; file:// archives only (no object store here).",
    design="transfers, foreign directories and files, and removals in all orders, each transfer compared byte for byte and each file damaged in turn; compilations after every prefix compared with a direct read for three windows; two-simulation archives with ten kinds of later change for verification; a real PostgreSQL server for import and export.",
)
