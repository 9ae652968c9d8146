P = dict(
    id="M14",
    title="Slice points carry the values of the map that was asked for",
    statement="Every map adds to each slice point the value of its own file at that point: the pixel's value on a healpix slicer of its resolution, and otherwise the value of the pixel that holds the position or the interpolated one, as asked; derived values (extinction at a distance, distance at a magnitude difference, star density at a magnitude) follow from those. The answer depends on the request only, not on maps read before, failed requests, the number of points, or other maps and metrics in use at the same time.",
    quantifier={"over": ["histories", "inputs"], "text": "all sequences of up to 3 requests over map files, resolutions, look-up modes and failing requests; all ordered pairs of 16 maps on 9 slicers (1 to 192 points, as many points as bins) applied together or one after another to a reused slicer; all ordered choices of up to 3 metrics with their own maps in one group"},
    why_tests_cant="the tests need downloaded maps and check that keys exist; wrong values from a stale map appear only in particular sequences of requests",
    anchors={"files": ["rubin_sim/maf/maps/ebv_hp.py", "rubin_sim/maf/maps/ebv_3d_hp.py", "rubin_sim/maf/maps/dust_map.py", "rubin_sim/maf/maps/dust_map_3d.py", "rubin_sim/maf/maps/stellar_density_map.py", "rubin_sim/maf/maps/trilegal_map.py", "rubin_sim/maf/maps/galactic_plane_priority_maps.py", "rubin_sim/maf/maps/base_map.py", "rubin_sim/maf/metric_bundles/metric_bundle_group.py"],
             "mechanism": [{"name": "maps kept between calls", "where": "eb_vhp, ebv_3d_hp, galplane_priority_map"},
                           {"name": "values per slice point", "where": "DustMap.run, DustMap3D.run, StellarDensityMap.run, TrilegalDensityMap.run, GalacticPlanePriorityMap.run, BaseSpatialSlicer._slice_sim_data"},
                           {"name": "maps of a group", "where": "MetricBundleGroup._check_compatible, BaseMap.__eq__, MetricBundle"}],
             "observe_at": ["arrays returned", "slice_point dictionaries", "metric values"]},
    technique="exhaustive enumeration of request sequences and map/slicer/metric combinations on the real code with map files written for the check, against per-point look-ups in those files",
    level="exploration",
    level_note="Small map files with all pixels different; points on pixel edges are not compared.",
    design="map files (ring and nested, several resolutions, two places) are written with values that identify file and pixel; every request of every sequence is compared with its own file, so a stale or shared map shows at once; group runs compare each bundle with its own map.",
)
