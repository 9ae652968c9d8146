P = dict(
    id="M05",
    title="Saved metric results restore identically and JSON lists exactly the values",
    statement="For every slicer and every pattern of values, masks, bad values and data types, writing a metric result to disk and reading it back restores the values, the mask, the slicer (equal to the original, with the same slice points) and the descriptive header. Exporting to JSON lists exactly the unmasked values (with their bins or positions), and overwriting an existing file leaves only the new content.",
    quantifier={"over": ["inputs", "configurations", "histories"], "text": "all value/mask patterns over small slicers of each kind, all header combinations from a menu, write-overwrite-read sequences"},
    why_tests_cant="tests save one or two fully populated arrays; masks, single slices, objects and odd headers are the cases that break restoration",
    anchors={"files": ["rubin_sim/maf/slicers/base_slicer.py", "rubin_sim/maf/metric_bundles/metric_bundle.py"],
             "mechanism": [{"name": "npz with pickled header, data, mask, fill and slicer init", "where": "BaseSlicer.write_data/read_data/output_json; MetricBundle.write/read/load"}],
             "observe_at": ["files written", "values read back"]},
    technique="bounded exhaustive enumeration of value/mask patterns through real write/read round trips",
    level="exploration",
    level_note="All patterns over up to 4 slices per slicer kind and all header combinations in the menu.",
    design="for each slicer kind every assignment of {value, other value, NaN, masked} to its slices, dtypes float/int/object, headers with None/strings/lists; write, read by both APIs, compare; JSON compared with a direct listing.",
)
