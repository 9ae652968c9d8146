P = dict(
    id="B03",
    title="The simulation-processing commands report exactly the simulations given",
    statement="In any working directory, glance_dir, ddf_dir, scimaf_dir and metadata_dir process each simulation that is named or present once, with the chosen options, replace the earlier results of that simulation (or keep them with --no_clobber), leave simulations and other results alone, and track each run once. The scripts of generate_ss, whole or split and whatever else lies in the directory, run to the complete results of every population and simulation counted from that simulation's own start. The night report, the self-calibration and the tracking-database commands use exactly the visits, bands and runs that were asked for.",
    quantifier={"over": ["operation sequences", "inputs"], "text": "all reachable states of a working directory up to 4 operations (6 in thorough) over writing and replacing two simulations, an old result, and every form of the four commands; all simulations x stray databases x command/function x whole/split of generate_ss with each script executed by the real commands; 4 nights; 3 bands x earlier results x --no_clobber; combinations of results of three runs"},
    why_tests_cant="no test runs these commands; what they leave depends on what was in the directory before and on the order of commands",
    anchors={"files": ["rubin_sim/maf/glance_dir.py", "rubin_sim/maf/ddf_dir.py", "rubin_sim/maf/scimaf_dir.py", "rubin_sim/maf/metadata_dir.py", "rubin_sim/maf/generate_ss.py", "rubin_sim/maf/maf_night_report.py", "rubin_sim/maf/run_selfcal_metric.py", "rubin_sim/maf/make_fbs_tracking_db.py", "rubin_sim/moving_objects/make_lsst_obs.py"],
             "mechanism": [{"name": "directories", "where": "glance_dir, ddf_dir, scimaf_dir, metadata_dir, add_run_to_database"},
                           {"name": "solar system scripts", "where": "generate_ss, generate_ss_commands, make_lsst_obs, run_moving_calc, run_moving_join, run_moving_fractions"},
                           {"name": "single commands", "where": "maf_night_report, run_selfcal_metric, make_fbs_tracking_db"}],
             "observe_at": ["files of the working directory", "summary statistics and tracking rows in the databases", "metric files"]},
    technique="explicit-state search over a model of the working directory, each transition executed by the real command; exhaustive enumeration of generated scripts executed to the end",
    level="model_checking",
    level_note="The batches are replaced by one small metric each in the directory commands (B01 and B02 decide the batches), object positions by a rule in the solar-system scripts (O03 decides those); plots are not compared.",
    design="breadth-first search over (content of each simulation, content of each output directory, tracking rows): every transition copies the directory of the source state, runs the real command with its command line, and compares every file, the summary statistics and the tracking database with the model state; generate_ss is run by command and by function for every combination, every line of the scripts it writes is executed through the real argument parsers with positions and batches replaced by rules, and the values of every object, the completeness and its start time are compared with direct counts.",
)
