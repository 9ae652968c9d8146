"""A stand-in for the pyoorb extension (not installed here): analytic motion.

Elements are read from the packed array the code under test builds, so that the
packing, units and order are part of what is observed.  KEP elements mean

    ra  = Omega + a*dt + e*sin(w*dt)        (degrees, dt in days)
    dec = inc - 60 + (M/100)*dt
    w   = argPeri (degrees, read as radians per day)

COM and CAR elements give other, equally simple, motions.
"""
import sys
import types

import numpy as np

SCALE = {1: 0.0, 2: 0.002, 3: 0.004, 4: 0.008}
SITE = {"I11": 0.0, "807": 0.003}
CALLS = []
FAIL = {"err": 0}


def truth(el, t, scale=4, obscode="I11", mode="N"):
    """Ephemeris of one packed orbit at times t: array (len(t), 11)."""
    t = np.asarray(t, float)
    dt = t - el[8] + SCALE[int(scale)] + SITE[obscode]
    kind = int(el[7])
    if kind == 3:
        a, e, inc, om, w, m = el[1], el[2], np.degrees(el[3]), np.degrees(el[4]), np.degrees(el[5]), np.degrees(el[6])
    elif kind == 2:
        a, e, inc, om, w, m = el[1], el[2], np.degrees(el[3]), np.degrees(el[4]), np.degrees(el[5]), el[6]
    else:
        a, e, inc, om, w, m = el[1], el[2], el[3] + 60, el[4], el[5], el[6]
    ra = om + a * dt + e * np.sin(w * dt)
    dra = a + e * w * np.cos(w * dt)
    dec = inc - 60 + m / 100 * dt
    ddec = np.full_like(dt, m / 100)
    if mode == "2":
        dec = dec + 0.3
    out = np.empty((len(dt), 11))
    out[:, 0] = t
    out[:, 1] = ra % 360.0
    out[:, 2] = dec
    out[:, 3] = dra * np.cos(np.radians(dec))
    out[:, 4] = ddec
    out[:, 5] = 10 + 0.1 * dt
    out[:, 6] = 100 + 0.5 * dt
    out[:, 7] = 3 + 0.001 * dt
    out[:, 8] = 2 + 0.01 * dt + 0.0001 * dt**2
    out[:, 9] = el[10] + el[11] + 0.02 * dt - 0.0003 * dt**2
    out[:, 10] = 0.0
    if om > 359.5 or (kind != 3 and om == -1):
        out[:, 9] = np.where(dt > 3.0, np.nan, out[:, 9])  # the magnitude is undefined after some time
    return out


class _Oorb:
    @staticmethod
    def oorb_init(ephemeris_fname=None, **kw):
        return 0

    @staticmethod
    def oorb_ephemeris_basic(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        CALLS.append((in_orbits.copy(), in_obscode, in_date_ephems.copy(), in_dynmodel))
        out = np.array([truth(o, in_date_ephems[:, 0], in_date_ephems[0, 1], in_obscode, in_dynmodel) for o in in_orbits])
        return out, FAIL["err"]

    @staticmethod
    def oorb_ephemeris_full(in_orbits, in_obscode, in_date_ephems, in_dynmodel):
        b, err = _Oorb.oorb_ephemeris_basic(in_orbits, in_obscode, in_date_ephems, in_dynmodel)
        n, k, _ = b.shape
        full = np.empty((n, k, 34))
        full[:, :, :10] = b[:, :, :10]
        for j in range(10, 34):
            full[:, :, j] = j * 100 + np.arange(n)[:, None] * 10 + np.arange(k)[None, :]
        return full, err

    @staticmethod
    def oorb_element_transformation(in_orbits, in_element_type):
        out = np.array(in_orbits, order="F")
        out[:, 7] = in_element_type
        out[:, 1:7] = out[:, 1:7] * 1.5 + in_element_type
        return out, FAIL["err"]

    @staticmethod
    def oorb_propagation(in_orbits, in_dynmodel, in_epoch):
        out = np.array(in_orbits, order="F")
        out[:, 6] = out[:, 6] + (in_epoch[0, 0] - out[:, 8]) * (0.01 if in_dynmodel == "N" else 0.02)
        out[:, 8] = in_epoch[0, 0]
        return out, FAIL["err"]


def install():
    m = types.ModuleType("pyoorb")
    m.pyoorb = _Oorb
    sys.modules["pyoorb"] = m
    import os

    os.environ.setdefault("OORB_DATA", "/nonexistent-oorb")
    import rubin_sim.moving_objects.ooephemerides as oe

    oe.oo = m
    oe.PYOORB_PRESENT = True
