P = dict(
    id="A01",
    title="The visit sequence archive database faithfully records every history",
    statement="After every sequence of recording visit sequences, simulations, completed and mixed sequences, tagging, untagging, commenting, registering files and conda environments, inserting nightly statistics and updating URLs, the archive database holds exactly what the accepted operations said, attached to the right sequence, and every query of VisitSequenceArchiveMetadata and the archive command line returns that; refused operations change nothing. When any SQL statement or commit of an operation fails, the database holds the state before or after that operation, never part of it, and two users working at once lose nothing that was reported done.",
    quantifier={"over": ["histories", "crash points", "schedules"], "text": "all operation sequences up to a depth over small alphabets per part, all SQL statement and commit fault points, all interleavings of the transactions of pairs of operations"},
    why_tests_cant="the tests record one sequence of each kind and query it; duplicates, refused operations, partial records after failures and cross-talk between sequences need histories, faults and interleavings",
    anchors={"files": ["rubin_sim/sim_archive/vseqmetadata.py", "rubin_sim/sim_archive/vseqarchive.py", "rubin_sim/sim_archive/vseqschema.sql"],
             "mechanism": [{"name": "one transaction per operation; foreign keys; unique constraints", "where": "VisitSequenceArchiveMetadata"},
                           {"name": "command line", "where": "vseqarchive.vseqarchive click group"}],
             "observe_at": ["rows of every table through an independent connection", "public queries", "command output"]},
    technique="explicit-state breadth-first model checking of operation histories on the real implementation over a real PostgreSQL server in lock step with a reference model; exhaustive SQL fault points; controlled scheduler over transaction interleavings",
    level="model_checking",
    level_note="Every history within the depth; every statement and commit of every operation failing before or after it took effect; every transaction interleaving of every pair.",
    design="units records/tags/files/stats explore one part of the alphabet deeply, all mixes them; faults_before/faults_after inject an error at the n-th statement or commit for every n; races enumerates transaction interleavings of pairs; repeat runs each operation many times on a single handle (connections must come back to the pool); cli compares each command with the model.",
)
