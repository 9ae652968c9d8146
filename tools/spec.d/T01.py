P = dict(
    id="T01",
    title="Satellite streaks and maps follow the true paths of the lit satellites",
    statement="A constellation has the satellites its shells ask for, with valid, distinct and reproducible elements of the right motion and spacing; positions, illumination and visibility at a time are those of the elements, whatever was asked before. check_pointings gives each visit the number and summed length of the paths, inside its field, of satellites that are lit and above the altitude limit at its start or end, independently of the other visits, the order of satellites, and how long the visit is. The observatory's maps of a night count the lit satellites above the limit in each pixel at each step of that night, and the avoidance basis function is the smoothed sum of those in its forecast window.",
    quantifier={"over": ["inputs", "histories"], "text": "all ordered choices of up to 3 of 5 shells; all sequences of 3 of 5 times; visits at 18 places around the path of each lit satellite, five visit times, two fields, alone, together and reversed, with one or all satellites; all mixes of 2 and 3 visits of a pool; all sets of tracks, steps, pixel sizes and limits of the observatory"},
    why_tests_cant="the one test needs a downloaded ephemeris and checks the size of the answer",
    anchors={"files": ["rubin_sim/satellite_constellations/sat_utils.py", "rubin_sim/satellite_constellations/model_observatory.py", "rubin_sim/satellite_constellations/basis_function.py"],
             "mechanism": [{"name": "elements", "where": "create_constellation, tle_from_orbital_parameters, satellite_mean_motion"},
                           {"name": "streaks", "where": "Constellation.check_pointings, _streak_length, paths_array, update_mjd"},
                           {"name": "maps", "where": "ModelObservatory._update_satellite_maps, mjd; SatelliteAvoidBasisFunction._calc_value"}],
             "observe_at": ["TLE strings", "arrays of lengths and counts", "conditions.satellite_maps", "basis function values"]},
    technique="exhaustive enumeration of shells, visit layouts, subsets and histories on the real code with a synthetic ephemeris file, against independent clipping of the paths",
    level="exploration",
    level_note="Visit layouts from finite alphabets around real crossings; grazing streaks (within 1% of the edge) are not compared.",
    design="an SPK file with the Sun is written for the check; satellites are propagated with skyfield outside the code under test, shadows decided from vectors, and paths clipped with a circle; the base class of the observatory is replaced by a recorder so that only the satellite part runs.",
)
