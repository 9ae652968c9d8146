P = dict(
    id="O02",
    title="Orbits are read, kept and handed to the ephemeris engine unchanged",
    statement="Orbits in COM, KEP or CAR format are read from a file or container with every element under its standard name, whatever alias, order, header style or delimiter the file uses, with the documented defaults for the optional columns; inconsistent formats, implausible epochs, negative inclinations and missing elements are refused, and the caller's data are left alone. Indexing, slicing, iterating and updating keep ids and elements together, and two sets are equal only if all their columns are. The engine receives exactly these elements in its units, its ephemerides come back under the right names by object or by time, and its errors are raised.",
    quantifier={"over": ["inputs"], "text": "all aliases singly and in pairs, header styles, delimiters, optional columns, formats and containers of the alphabets; all single-column differences; all engine modes, sites, time scales and groupings"},
    why_tests_cant="the tests read a few sample files of fixed layout and need the engine installed",
    anchors={"files": ["rubin_sim/moving_objects/orbits.py", "rubin_sim/moving_objects/ooephemerides.py"],
             "mechanism": [{"name": "orbits", "where": "Orbits.read_orbits, set_orbits, assign_sed, update_orbits, __eq__, __getitem__, __iter__"},
                           {"name": "engine", "where": "PyOrbEphemerides.set_orbits, generate_ephemerides, convert_from_oorb_elem, convert_orbit_format, propagate_orbits"}],
             "observe_at": ["Orbits.orbits and orb_format", "arrays passed to and returned from the engine"]},
    technique="exhaustive enumeration of file layouts, aliases, containers and engine calls on the real code against the written-down values",
    level="exploration",
    level_note="The full product of the alphabets; the engine is a stand-in that records what it is given.",
    design="three orbits written in every layout and read back; the stand-in engine computes motion from the packed elements, so wrong packing, units or order show in the result.",
)
