P = dict(
    id="M02",
    title="Sky slicers return exactly the visits within the search radius",
    statement="For any pointings anywhere on the sky (poles, RA wrap, duplicates, degrees or radians, any column names) a healpix or user-point slicer returns for each slice point exactly the visits whose angular distance to that point is within the search radius, and the slice-point metadata carries that point's own identifier and position. Subset slicers give, for each selected pixel, what the full-sky slicer gives for it, and nothing elsewhere. Slicers compare equal only when they describe the same slice points, and re-using a slicer with other visits gives only the new visits.",
    quantifier={"over": ["inputs", "configurations"], "text": "all slice points x all small multisets of pointings from a sky alphabet x nside, radius, units, leaf size, cache settings, subsets"},
    why_tests_cant="tests check a few random fields away from the poles and the wrap at one nside; the neighbour search must be exact for every point/pointing pair",
    anchors={"files": ["rubin_sim/maf/slicers/base_spatial_slicer.py", "rubin_sim/maf/slicers/healpix_slicer.py", "rubin_sim/maf/slicers/healpix_subset_slicer.py", "rubin_sim/maf/slicers/user_points_slicer.py"],
             "mechanism": [{"name": "KD-tree on unit vectors with chord radius", "where": "_build_tree / _set_rad"}],
             "observe_at": ["slicer._slice_sim_data(islice)"]},
    technique="bounded exhaustive enumeration of pointing sets x slice points on the real slicers against an angular-distance reference",
    level="exploration",
    level_note="Complete over the pointing alphabet and all pixels at nside 1-4 (16 in thorough); pairs within 1e-7 deg of the radius are not decided. Camera footprint needs a data file and is off.",
    design="every slice point of nside 1/2/4 grids, subsets and user points against every multiset of pointings from an alphabet (poles, 0/360 wrap, on a point, 1e-4 deg inside/outside the radius); reference: haversine distance computed independently; plus equality and re-setup histories.",
)
