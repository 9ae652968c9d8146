P = dict(
    id="O03",
    title="Simulated observations of moving objects are the visits that contain them",
    statement="DirectObs.run returns, for each object, exactly the visits in whose field of view (circle, rectangle or camera footprint, pointing in degrees or radians, across RA 0) the object lies at the time of the visit, whether or not precomputed positions are used and whatever the order of the visits. Each row carries the ephemeris of that object at that visit, the visit's own columns, the colour of the object's SED in the visit's band and the trailing losses for its velocity, seeing and exposure time. The visits handed in are not changed.",
    quantifier={"over": ["inputs"], "text": "all combinations of object sets, visit orders, footprints, sizes, units, time scales, precomputed positions and time steps; all offsets of a grid around pointings including RA 0 and near the pole"},
    why_tests_cant="the tests of this module need the ephemeris engine and data files; the combinations of order, wrap and rough cuts are not sampled",
    anchors={"files": ["rubin_sim/moving_objects/base_obs.py", "rubin_sim/moving_objects/direct_obs.py"],
             "mechanism": [{"name": "field of view", "where": "BaseObs.sso_in_fov, _sso_in_circle_fov, _sso_in_rectangle_fov, sso_in_camera_fov"},
                           {"name": "run", "where": "DirectObs.run, BaseObs.generate_ephemerides, calc_trailing_losses, calc_colors"}],
             "observe_at": ["the structured array returned by run", "indices returned by sso_in_fov"]},
    technique="exhaustive enumeration of visit arrangements and pointings on the real code, against spherical geometry and an analytic ephemeris",
    level="exploration",
    level_note="The full product of the alphabets; engine, footprint, throughputs and SEDs are synthetic.",
    design="25 to 75 visits on, near and off the paths of up to 3 objects in four time orders; the expected set is computed visit by visit with an independent separation, rectangle and tangent-plane model.",
)
