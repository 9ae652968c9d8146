P = dict(
    id="A02",
    title="Files archived with a visit sequence come back intact",
    statement="For every history of archiving visits and files of any type for several sequences, the file returned for a sequence and type is byte for byte the one added, with the sha256 and URL recorded for it, located under the sequence's own directory derived from telescope, creation day (UTC-12h) and UUID; duplicates are refused without touching the archived file and an update replaces exactly the named file. If any SQL statement or file operation of an addition fails, files archived before are still returned intact.",
    quantifier={"over": ["histories", "crash points"], "text": "all sequences of additions and updates up to a depth through the API and the command line, all SQL and file operation fault points, all creation times around the day boundary"},
    why_tests_cant="tests archive one file and read it back; overwriting another file or recording a wrong hash needs a second sequence, a duplicate or a failure",
    anchors={"files": ["rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/vseqmetadata.py"],
             "mechanism": [{"name": "location and registration of files", "where": "add_file, write_visits, construct_base_resource_path, get_file, get_visits"}],
             "observe_at": ["bytes in the archive directory", "registered hash and URL", "files fetched"]},
    technique="explicit-state breadth-first model checking of archiving histories on the real implementation (PostgreSQL and a directory archive) in lock step with a model of the bytes; exhaustive fault points",
    level="model_checking",
    level_note="Every history within the depth; every SQL statement and file write failing.",
    design="histories of add_file/write_visits for two sequences, three types and colliding contents, read back through API and CLI after every step; faults at each SQL statement, mkdir and write; creation times within an hour of the day boundary in several time scales for the path.",
)
