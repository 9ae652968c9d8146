"""O02: orbits in, orbits out, and what is handed to the ephemeris engine."""
import itertools
import os

import numpy as np
import pandas as pd

from mc import fakeoorb
from mc.core import Unit

fakeoorb.install()
from rubin_sim.moving_objects import Orbits, PyOrbEphemerides  # noqa: E402

PROPERTY = "O02"
LEVEL = "exploration"
RULE = (
    "every orbit format with every alias of every column, header style, delimiter, order and subset of optional columns "
    "is read from a file; every container is set, indexed, iterated, compared and packed for the engine; non-trivial = "
    "orbits were accepted"
)
ASSUMPTIONS = ["the ephemeris engine (pyoorb, not installed) is replaced by a stand-in with the same interface", "one object per line; blank lines do not occur"]

ELEM = {
    "COM": ["q", "e", "inc", "Omega", "argPeri", "tPeri"],
    "KEP": ["a", "e", "inc", "Omega", "argPeri", "meanAnomaly"],
    "CAR": ["x", "y", "z", "xdot", "ydot", "zdot"],
}
ALT = {
    "obj_id": ["obj_id", "objid", "!!ObjID", "!!OID", "!!S3MID", "OID", "S3MID", "objid(int)", "full_name", "#name"],
    "e": ["e", "ecc"],
    "inc": ["inc", "i", "i(deg)", "incl"],
    "Omega": ["Omega", "omega", "node", "om", "node(deg)", "BigOmega", "Omega/node", "longNode"],
    "argPeri": ["argPeri", "argperi", "omega/argperi", "w", "argperi(deg)", "peri"],
    "tPeri": ["tPeri", "t_p", "timeperi", "t_peri", "T_peri"],
    "epoch": ["epoch", "t_0", "Epoch", "epoch_mjd"],
    "H": ["H", "magH", "magHv", "Hv", "H_v"],
    "g": ["g", "phaseV", "phase", "gV", "phase_g", "G"],
    "meanAnomaly": ["meanAnomaly", "meanAnom", "M", "ma"],
    "sed_filename": ["sed_filename", "sed"],
    "xdot": ["xdot", "xDot"],
    "ydot": ["ydot", "yDot"],
    "zdot": ["zdot", "zDot"],
}
VALS = [
    dict(q=1.1, a=2.5, e=0.1, inc=10.0, Omega=20.5, argPeri=30.0, tPeri=59500.0, meanAnomaly=40.0, x=1.0, y=-2.0, z=0.3, xdot=0.001, ydot=0.002, zdot=-0.003, epoch=59000.0, H=18.5, g=0.2, sed_filename="X.dat", obj_id=101),
    dict(q=0.7, a=1.5, e=0.5, inc=0.0, Omega=359.0, argPeri=180.0, tPeri=60500.0, meanAnomaly=0.0, x=-4.0, y=2.0, z=-0.3, xdot=-0.001, ydot=0.004, zdot=0.001, epoch=59001.0, H=25.0, g=0.15, sed_filename="Y.dat", obj_id=55),
    dict(q=4.5, a=5.0, e=0.05, inc=150.0, Omega=0.0, argPeri=0.5, tPeri=58000.0, meanAnomaly=300.0, x=0.5, y=0.5, z=0.5, xdot=0.01, ydot=0.02, zdot=0.03, epoch=59002.5, H=7.0, g=-0.1, sed_filename="X.dat", obj_id=7),
]


def semi(fmt, v):
    if fmt == "KEP":
        return v["a"]
    if fmt == "COM":
        return v["q"] / (1 - v["e"])
    return float(np.sqrt(v["x"] ** 2 + v["y"] ** 2 + v["z"] ** 2))


def check_orbits(ctx, o, fmt, rows, have, what):
    """The orbits held are the rows given, with the documented defaults."""
    if not ctx.equal(o.orb_format, fmt, "orbit format", what=what):
        return
    if not ctx.equal(len(o), len(rows), "number of orbits", what=what):
        return
    cols = ELEM[fmt] + ["epoch"]
    for c in cols:
        if not ctx.equal([float(x) for x in o.orbits[c]], [r[c] for r in rows], "orbital element", col=c, what=what):
            return
    ids = [r["obj_id"] for r in rows] if "obj_id" in have else list(range(len(rows)))
    ctx.equal([x for x in o.orbits["obj_id"]], ids, "object ids", what=what)
    for c, d in (("H", 20.0), ("g", 0.15)):
        ctx.equal([float(x) for x in o.orbits[c]], [r[c] if c in have else d for r in rows], "column or its default", col=c, what=what)
    seds = list(o.orbits["sed_filename"])
    if "sed_filename" in have:
        ctx.equal(seds, [r["sed_filename"] for r in rows], "SED names", what=what)
    else:
        for s, r in zip(seds, rows):
            a = semi(fmt, r)
            ctx.expect(s in ("C.dat", "S.dat") and (s == "S.dat" or a > 2) and (s == "C.dat" or a < 4), "SED type for the semi-major axis", a=a, got=s)
    ctx.equal(list(o.orbits.index), list(range(len(rows))), "row numbers", what=what)


def write(path, header, rows, delim=" ", pre=(), lead=""):
    with open(path, "w") as f:
        for p in pre:
            f.write(p + "\n")
        if header is not None:
            f.write(lead + delim.join(header) + "\n")
        for r in rows:
            f.write(delim.join(str(x) for x in r) + "\n")


def aliases(ctx, fmt):
    path = os.path.join(ctx.scratch, "orb.txt")
    base = ["obj_id"] + ELEM[fmt] + ["epoch", "H", "g", "sed_filename"]
    single = [(c, a) for c in base for a in ALT.get(c, [c])]
    pairs = list(itertools.combinations(single, 2)) if ctx.thorough else [(s, t) for s, t in itertools.combinations(single, 2) if s[0] in ("obj_id", "Omega", "inc") and t[0] != s[0]]
    combos = [(s,) for s in single] + [p for p in pairs if p[0][0] != p[1][0]]
    for combo in combos:
        m = dict(combo)
        for lead, pre in (("", ()), ("# ", ()), ("!! ", ("! a comment line of words",))):
            if not ctx.case(fmt, [list(c) for c in combo], lead, len(pre)):
                continue
            if lead and m.get("obj_id", "").startswith(("!!", "#")):
                continue
            header = [m.get(c, c) for c in base]
            write(path, header, [[v[c] for c in base] for v in VALS], pre=pre, lead=lead)
            o = Orbits()
            ok, _ = ctx.must(o.read_orbits, path, what="read_orbits")
            if ok:
                check_orbits(ctx, o, fmt, VALS, base, "file")
                ctx.outcome(combo)


def layouts(ctx, fmt):
    path = os.path.join(ctx.scratch, "orb.txt")
    elems = ELEM[fmt] + ["epoch"]
    for opt in itertools.product((0, 1), repeat=4):
        have = [c for c, k in zip(("obj_id", "H", "g", "sed_filename"), opt) if k]
        for order in range(4):
            base = (["obj_id"] if "obj_id" in have else []) + elems + [c for c in have if c != "obj_id"]
            base = [base, base[::-1], base[2:] + base[:2], elems + have][order]
            for delim, skip, form, n, extra, pre in itertools.product((" ", ",", "\t", "|"), (None, "set"), (None, "yes", "CART"), (1, 3), (0, 1), (0, 2)):
                if form == "CART" and fmt != "CAR":
                    continue
                if not ctx.thorough and (order in (1, 2) and (delim in "\t|" or extra)):
                    continue
                cols = list(base)
                if form:
                    cols.insert(1 if order == 0 else len(cols), "FORMAT")
                if extra:
                    cols += ["INDEX", "N_PAR", "MOID", "COMPCODE", "tmp"]
                # the header search looks for a number in the fourth column
                def cell(v, c):
                    if c == "FORMAT":
                        return fmt if form == "yes" else form
                    return v[c] if c in v else 5
                rows = [[cell(v, c) for c in cols] for v in VALS[:n]]
                if skip is None and not isinstance(rows[0][3], (int, float)):
                    continue
                if not ctx.case(fmt, opt, order, delim, skip, form, n, extra, pre):
                    continue
                pres = ["# made by hand", "# second"][:pre]
                write(path, cols, rows, delim=delim, pre=pres)
                o = Orbits()
                kw = {}
                if delim != " ":
                    kw["delim"] = delim
                if skip:
                    kw["skiprows"] = pre
                ok, _ = ctx.must(o.read_orbits, path, what="read_orbits", **kw)
                if ok:
                    check_orbits(ctx, o, fmt, VALS[:n], have, "file")
                    ctx.expect(not any(c in o.orbits for c in ("INDEX", "N_PAR", "MOID", "COMPCODE", "tmp", "FORMAT")), "bookkeeping columns kept", cols=list(o.orbits.columns))
                    ctx.outcome((opt, order, form, n))
    # headerless files
    des = ["obj_id", "FORMAT"] + ELEM[fmt] + ["H", "epoch"]
    for n, name, skip in itertools.product((1, 2, 3), (fmt,) + (("CART",) if fmt == "CAR" else ()), (None, -1)):
        if not ctx.case(fmt, "headerless", n, name, skip):
            continue
        rows = [[name if c == "FORMAT" else v[c] for c in des] + [1, 6, -1, "TEST"] for v in VALS[:n]]
        write(path, None, rows)
        o = Orbits()
        ok, _ = ctx.must(o.read_orbits, path, skiprows=skip, what="read_orbits (headerless)")
        if ok:
            check_orbits(ctx, o, fmt, VALS[:n], ["obj_id", "H"], "headerless")
    # refusals
    for bad in ("negative", "mixed", "wrongformat", "twonames", "epoch_low", "epoch_high", "noid_negative") + tuple("missing_" + c for c in elems):
        if not ctx.case(fmt, "refuse", bad):
            continue
        cols = ["obj_id"] + elems + ["H"]
        vals = [dict(v) for v in VALS]
        if bad in ("negative", "noid_negative"):
            if fmt == "CAR":
                continue
            vals[1]["inc"] = -0.5
            if bad == "noid_negative":
                cols.remove("obj_id")
        if bad == "mixed":
            cols = cols + ["FORMAT"]
            for v, f in zip(vals, (fmt, "XXX", fmt)):
                v["FORMAT"] = f
        if bad == "wrongformat":
            cols = cols + ["FORMAT"]
            for v in vals:
                v["FORMAT"] = {"COM": "KEP", "KEP": "CAR", "CAR": "COM"}[fmt]
        if bad == "twonames":
            cols = cols + ["magH"]
            for v in vals:
                v["magH"] = 1.0
        if bad.startswith("epoch_"):
            for v in vals:
                v["epoch"] = 2459000.5 if bad.endswith("high") else -30000.0
        if bad.startswith("missing_"):
            cols.remove(bad[8:])
        write(path, cols, [[v[c] for c in cols] for v in vals])
        o = Orbits()
        exc = (ValueError, KeyError) if bad.startswith("missing_") else ValueError
        ctx.raises(exc, o.read_orbits, path, what=bad)


def frame(fmt, n, have):
    cols = [c for c in ["obj_id"] if c in have] + ELEM[fmt] + ["epoch"] + [c for c in ("H", "g", "sed_filename") if c in have]
    return pd.DataFrame([{c: v[c] for c in cols} for v in VALS[:n]])


def containers(ctx, fmt):
    for opt in itertools.product((0, 1), repeat=4):
        have = [c for c, k in zip(("obj_id", "H", "g", "sed_filename"), opt) if k]
        for n, kind, form, idx in itertools.product((1, 2, 3), ("frame", "series", "array", "record", "recarray"), (None, fmt), (0, 1)):
            if kind in ("series", "record") and n > 1:
                continue
            if idx and kind not in ("frame", "series"):
                continue
            if not ctx.case(fmt, opt, n, kind, form, idx):
                continue
            df = frame(fmt, n, have)
            if form:
                df["FORMAT"] = form
            if idx:
                df.index = [9, 4, 6][:n]
                df["index"] = 1
            given = {"frame": lambda: df, "series": lambda: df.iloc[0], "array": lambda: np.array(df.to_records(index=False)), "recarray": lambda: df.to_records(index=False), "record": lambda: df.to_records(index=False)[0]}[kind]()
            keep = given.copy() if kind != "record" else None
            o = Orbits()
            ok, _ = ctx.must(o.set_orbits, given, what="set_orbits")
            if not ok:
                continue
            check_orbits(ctx, o, fmt, VALS[:n], have, kind)
            if kind == "frame":
                ctx.expect(given.equals(keep) and list(given.index) == list(keep.index), "the caller's DataFrame changed")
            elif kind == "series":
                ctx.expect(given.equals(keep), "the caller's Series changed")
            elif keep is not None:
                ctx.expect(np.array_equal(given, keep), "the caller's array changed")
            # parts
            one = list(o)
            ctx.equal(len(one), n, "iteration")
            for i in range(n):
                check_orbits(ctx, one[i], fmt, [dict(VALS[i], **{c: o.orbits[c].iloc[i] for c in ("obj_id", "H", "g", "sed_filename")})], ["obj_id", "H", "g", "sed_filename"], "iterated")
                check_orbits(ctx, o[i], fmt, [dict(VALS[i], **{c: o.orbits[c].iloc[i] for c in ("obj_id", "H", "g", "sed_filename")})], ["obj_id", "H", "g", "sed_filename"], "indexed")
                ctx.expect(o[i] == one[i], "an indexed and an iterated orbit differ")
            for a, b in itertools.combinations(range(n + 1), 2):
                part = o[a:b]
                check_orbits(ctx, part, fmt, [dict(VALS[i], **{c: o.orbits[c].iloc[i] for c in ("obj_id", "H", "g", "sed_filename")}) for i in range(a, b)], ["obj_id", "H", "g", "sed_filename"], "slice")
            ctx.expect(len(o) == n, "slicing changed the orbits")
            ctx.outcome((opt, n, kind))
    if ctx.case(fmt, "empty"):
        ctx.raises(ValueError, Orbits().set_orbits, frame(fmt, 3, ["obj_id"]).iloc[:0])
    # equality
    full = ["obj_id", "H", "g", "sed_filename"]
    ref = Orbits()
    ref.set_orbits(frame(fmt, 3, full))
    for i, col in itertools.product(range(3), full + ELEM[fmt] + ["epoch"]):
        if not ctx.case(fmt, "eq", i, col):
            continue
        df = frame(fmt, 3, full)
        df.loc[i, col] = "Z.dat" if col == "sed_filename" else df.loc[i, col] + 1
        o = Orbits()
        o.set_orbits(df)
        ctx.expect(not (ref == o) and not (o == ref) and ref != o, "orbits that differ compare equal", col=col, row=i)
    if ctx.case(fmt, "eq same"):
        o = Orbits()
        o.set_orbits(frame(fmt, 3, full))
        ctx.expect(ref == o and not (ref != o), "equal orbits compare different")
        for n in (1, 2):
            p = Orbits()
            p.set_orbits(frame(fmt, n, full))
            ctx.expect(not (ref == p), "orbits of another number compare equal")
        for f2 in ELEM:
            if f2 != fmt:
                p = Orbits()
                p.set_orbits(frame(f2, 3, full))
                ctx.expect(not (ref == p), "orbits of another format compare equal")
        ctx.expect(not (ref == 5), "orbits equal a number")


def engine(ctx, fmt):
    code = {"CAR": 1, "COM": 2, "KEP": 3}
    scales = {"UTC": 1, "UT1": 2, "TT": 3, "TAI": 4}
    full = ["obj_id", "H", "g", "sed_filename"]
    ang = {"KEP": (3, 4, 5, 6), "COM": (3, 4, 5), "CAR": ()}[fmt]
    packed = np.zeros((3, 12))
    for i, v in enumerate(VALS):
        packed[i, 0] = i + 1
        for j, c in enumerate(ELEM[fmt], 1):
            packed[i, j] = np.radians(v[c]) if j in ang else v[c]
        packed[i, 7], packed[i, 8], packed[i, 9], packed[i, 10], packed[i, 11] = code[fmt], v["epoch"], 3, v["H"], v["g"]
    times = np.array([59003.0, 59001.25, 59010.0])
    for n in (1, 2, 3):
        o = Orbits()
        o.set_orbits(frame(fmt, n, full))
        for first in (None, "COM", "KEP", "CAR"):
            if not ctx.case(fmt, "pack", n, first):
                continue
            pe = PyOrbEphemerides("nothing")
            if first:  # set again after other orbits
                other = Orbits()
                other.set_orbits(frame(first, 3, full))
                pe.set_orbits(other)
            ok, _ = ctx.must(pe.set_orbits, o, what="set_orbits")
            if not ok:
                continue
            for scale, site, mode, typ, byo, nt in itertools.product(scales, ("I11", "807"), ("nbody", "2body", "N", "2"), ("basic", "full"), (True, False), (1, 3, "scalar")):
                fakeoorb.CALLS.clear()
                t = float(times[1]) if nt == "scalar" else times[:nt]
                k = 1 if nt == "scalar" else nt
                tl = np.atleast_1d(t)
                ok, e = ctx.must(pe.generate_ephemerides, t, time_scale=scale, obscode=site, by_object=byo, eph_mode=mode, eph_type=typ, what="generate_ephemerides")
                if not ok:
                    continue
                m = "N" if mode in ("nbody", "N") else "2"
                got_elem = fakeoorb.CALLS[-1][0]
                ctx.equal(np.asarray(got_elem), packed[:n], "elements handed to the engine")
                ctx.equal([fakeoorb.CALLS[-1][1], fakeoorb.CALLS[-1][3]], [site, m], "site and mode handed to the engine")
                want = np.array([fakeoorb.truth(p, tl, scales[scale], site, m) for p in packed[:n]])  # n, k, 11
                if not ctx.equal(e["ra"].shape, (n, k) if byo else (k, n), "shape of the ephemerides"):
                    continue
                for q, c in enumerate(("time", "ra", "dec", "dradt", "ddecdt", "phase", "solarelon", "helio_dist", "geo_dist", "magV")):
                    ctx.equal(np.asarray(e[c]), want[:, :, q] if byo else want[:, :, q].T, "ephemeris column", col=c)
                vel = np.hypot(want[:, :, 3], want[:, :, 4])
                ctx.equal(np.asarray(e["velocity"]), vel if byo else vel.T, "velocity")
                if typ == "full":
                    for q, c in ((10, "pa"), (11, "topo_lon"), (12, "topo_lat"), (19, "topo_obj_alt"), (22, "lunar_phase"), (24, "helio_x"), (29, "helio_dz"), (32, "obs_helio_z"), (33, "trueAnom")):
                        w = q * 100 + np.arange(n)[:, None] * 10 + np.arange(k)[None, :]
                        ctx.equal(np.asarray(e[c]), (w if byo else w.T).astype(float), "ephemeris column", col=c)
            # back to a frame
            back = pe.convert_from_oorb_elem()
            for c in ELEM[fmt] + ["epoch", "H", "g"]:
                ctx.equal(back[c].to_numpy(), np.array([v[c] for v in VALS[:n]]), "element read back", col=c)
            o2 = Orbits()
            o2.set_orbits(frame(fmt, n, full))
            o2.update_orbits(back)
            check_orbits(ctx, o2, fmt, VALS[:n], full, "updated")
            o2.update_orbits(back.drop(columns=["H", "g"]))
            check_orbits(ctx, o2, fmt, VALS[:n], full, "updated without H and g")
            for i, single in enumerate(o):
                for part in (single, o[i]):
                    part.update_orbits(back.iloc[i : i + 1].reset_index(drop=True))
                    check_orbits(ctx, part, fmt, [VALS[i]], full, "one orbit updated")
            ctx.outcome((n, first))
            # conversion and propagation
            for to in code:
                q = PyOrbEphemerides("nothing")
                q.set_orbits(o)
                q.convert_orbit_format(to)
                ctx.equal(q.orb_format, to, "format after conversion")
                conv = packed[:n].copy()
                conv[:, 7] = code[to]
                conv[:, 1:7] = conv[:, 1:7] * 1.5 + code[to]
                ctx.equal(np.asarray(q.oorb_elem), conv, "elements after conversion")
                fr = q.convert_from_oorb_elem()
                for j, c in enumerate(ELEM[to], 1):
                    a = j in {"KEP": (3, 4, 5, 6), "COM": (3, 4, 5), "CAR": ()}[to]
                    ctx.equal(fr[c].to_numpy(), np.degrees(conv[:, j]) if a else conv[:, j], "converted element", col=c)
                o3 = Orbits()
                o3.set_orbits(frame(fmt, n, full))
                o3.update_orbits(fr)
                ctx.equal([o3.orb_format, list(o3.orbits.obj_id), list(o3.orbits.sed_filename), list(o3.orbits.H)], [to, [v["obj_id"] for v in VALS[:n]], [v["sed_filename"] for v in VALS[:n]], [v["H"] for v in VALS[:n]]], "orbits updated to another format")
                for mode in ("nbody", "2", "2body", "n"):
                    q2 = PyOrbEphemerides("nothing")
                    q2.set_orbits(o)
                    q2.propagate_orbits(59100.0, eph_mode=mode)
                    pr = packed[:n].copy()
                    pr[:, 6] += (59100.0 - pr[:, 8]) * (0.01 if mode in ("nbody", "n") else 0.02)
                    pr[:, 8] = 59100.0
                    ctx.equal(np.asarray(q2.oorb_elem), pr, "elements after propagation", mode=mode)
    if ctx.case(fmt, "errors"):
        o = Orbits()
        o.set_orbits(frame(fmt, 2, full))
        for what in ("basic", "full", "convert", "propagate"):
            pe = PyOrbEphemerides("nothing")
            pe.set_orbits(o)
            fakeoorb.FAIL["err"] = 3
            try:
                fn = {
                    "basic": lambda: pe.generate_ephemerides(times, eph_type="basic"),
                    "full": lambda: pe.generate_ephemerides(times, eph_type="full"),
                    "convert": lambda: pe.convert_orbit_format("CAR"),
                    "propagate": lambda: pe.propagate_orbits(59100.0),
                }[what]
                ctx.raises(RuntimeError, fn, what=f"an error of the engine ({what})")
            finally:
                fakeoorb.FAIL["err"] = 0
        ctx.raises(ValueError, pe.generate_ephemerides, times, eph_mode="3body")
        ctx.raises(ValueError, pe.generate_ephemerides, times, eph_type="huge")
        ctx.raises(ValueError, pe.generate_ephemerides, np.array([]))
        ctx.raises(ValueError, pe.propagate_orbits, 59100.0, eph_mode="x")


def seds(ctx):
    """The SED type is a repeatable function of semi-major axis."""
    for a in itertools.product((1.0, 1.99, 2.5, 3.0, 3.9, 4.01, 30.0), repeat=3):
        if not ctx.case(a):
            continue
        outs = []
        for fmt in ("KEP", "COM", "CAR"):
            df = frame(fmt, 3, ["obj_id"])
            if fmt == "KEP":
                df["a"] = a
            elif fmt == "COM":
                df["q"] = np.array(a) * (1 - df["e"].to_numpy())
            else:
                df["x"], df["y"], df["z"] = np.array(a) * 0.6, -np.array(a) * 0.0, np.array(a) * 0.8
            o, p = Orbits(), Orbits()
            o.set_orbits(df)
            p.set_orbits(df)
            s = list(o.orbits["sed_filename"])
            ctx.equal(list(p.orbits["sed_filename"]), s, "SED assignment is not repeatable")
            chance = np.random.RandomState(42).random_sample(3)
            for x, v, c in zip(s, a, chance):
                if v < 2:
                    ctx.equal(x, "S.dat", "type of an inner object")
                elif v > 4:
                    ctx.equal(x, "C.dat", "type of an outer object")
                elif abs(c - (0.5 * v - 1)) > 1e-9:
                    ctx.equal(x, "C.dat" if c <= 0.5 * v - 1 else "S.dat", "type in the transition")
            outs.append(tuple(s))
        ctx.outcome(outs)
    if ctx.case("far"):
        # over many draws the fraction of C types follows the probability
        for av, lo, hi in ((2.0, 0, 0.02), (3.0, 0.42, 0.58), (4.0, 0.98, 1.0), (3.5, 0.68, 0.82)):
            df = pd.concat([frame("KEP", 1, [])] * 600, ignore_index=True)
            df["a"] = av
            o = Orbits()
            o.set_orbits(df)
            f = float(np.mean(o.orbits["sed_filename"] == "C.dat"))
            ctx.expect(lo <= f <= hi, "fraction of C types", a=av, got=f)


UNITS = []
for _f in ELEM:
    UNITS += [Unit(f"aliases_{_f}", aliases, fmt=_f), Unit(f"layouts_{_f}", layouts, fmt=_f), Unit(f"containers_{_f}", containers, fmt=_f), Unit(f"engine_{_f}", engine, fmt=_f)]
UNITS.append(Unit("seds", seds))
