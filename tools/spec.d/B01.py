P = dict(
    id="B01",
    title="Each bundle of a batch uses the visits its label and constraint name",
    statement="Whatever extra constraint and label are given to a standard batch, every bundle in it selects exactly the visits that it would select without the constraint and that satisfy the constraint (also when the constraint contains 'or'), and the same metrics are made. The bands, DDF and year named in a bundle's label are those of its visits, no bundle is lost or shares its output file name with another, and the results are those of running the batch on a database that holds only these visits.",
    quantifier={"over": ["inputs"], "text": "33 batches x 7 constraints (none, empty, with 'or', on bands, nights and notes) x 2 labels, each bundle's selection evaluated on a database with all combinations of 6 bands, 7 nights and 12 notes; every runnable batch x 4 constraints and x 6 bands run on a 42-visit database and on the restricted one"},
    why_tests_cant="the tests build the batches and run them, but do not compare which visits each of the hundreds of bundles selects under each constraint",
    anchors={"files": ["rubin_sim/maf/batches/common.py", "rubin_sim/maf/batches/glance_batch.py", "rubin_sim/maf/batches/metadata_batch.py", "rubin_sim/maf/batches/time_batch.py", "rubin_sim/maf/batches/visitdepth_batch.py", "rubin_sim/maf/batches/srd_batch.py", "rubin_sim/maf/batches/ddf_batch.py", "rubin_sim/maf/batches/science_radar_batch.py", "rubin_sim/maf/batches/radar_limited.py", "rubin_sim/maf/batches/slew_batch.py", "rubin_sim/maf/batches/openshutter_batch.py", "rubin_sim/maf/batches/filterchange_batch.py", "rubin_sim/maf/batches/altaz_batch.py", "rubin_sim/maf/batches/info_batch.py"],
             "mechanism": [{"name": "constraints and labels per band", "where": "filter_list, combine_info_labels"},
                           {"name": "constraint of each bundle", "where": "every batch function's use of extraSql / extra_sql / sql_constraint"},
                           {"name": "names", "where": "standard_metrics, extended_metrics, standard_angle_metrics, make_bundles_dict_from_list"}],
             "observe_at": ["visits selected by MetricBundle.constraint", "info_label", "metric values and summary statistics"]},
    technique="exhaustive enumeration of batches x constraints x labels on the real code, each bundle's constraint evaluated by SQLite on a database of all combinations, and differential runs against restricted databases",
    level="exploration",
    level_note="Metrics whose downloaded light curves or templates are missing here are replaced by a count of visits; FBS column names only.",
    design="the constraint of every bundle is run as a query on a database in which band, night and note vary independently; the selection with a constraint must be the intersection of the selection without it and the constraint's; label words are read as sets of visits and compared; runnable batches are also run and compared value by value with a run on the restricted database.",
)
