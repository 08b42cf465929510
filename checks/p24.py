"""P24: Printed representations recreate the object.

Oracle: round trip: the object evaluated from the representation is compared attribute by attribute with the original, and the summary with the record list of the generated file.
"""
import datetime
import math
import os
import shutil

import numpy
import numpy as np
import ocbpy
from hypothesis import strategies as st
from ocbpy import ocb_scaling

from lib import bnd, gen
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "correction and scaling functions are importable by name",
    "the representation is evaluated while the boundary file is unchanged, "
    "in a namespace with datetime, numpy, np, nan, inf and ocbpy",
    "objects as constructed: selections made later by calling methods are "
    "not part of the representation"]
SPACE = {"datetime": datetime, "numpy": numpy, "np": np, "ocbpy": ocbpy,
         "nan": math.nan, "inf": math.inf}
BASE = ["filename", "instrument", "hemisphere", "records", "min_fom",
        "max_fom"]
COLS = {"image": ["phi_cent", "r_cent", "r", "fom", "a", "r_err",
                  "num_sectors"],
        "ampere": ["phi_cent", "r_cent", "r", "fom", "x", "y"],
        "dmsp-ssj": ["phi_cent", "r_cent", "r", "fom", "x", "y", "sc", "x_1",
                     "y_1", "x_2", "y_2"]}


def same(one, two):
    if one is None or two is None:
        return one is None and two is None
    one, two = np.asarray(one), np.asarray(two)
    if one.dtype == object or two.dtype == object:
        return one.shape == two.shape and list(one.flat) == list(two.flat)
    return one.shape == two.shape and np.array_equal(one, two, equal_nan=(
        one.dtype.kind == "f" and two.dtype.kind == "f"))


@st.composite
def one_file(draw, cls=None, hemi=None, max_recs=6):
    """A boundary object and how it is constructed."""
    how = draw(st.sampled_from(["file"] * 8 + ["none", "none", "lost", "empty",
                                               "bad inst"]))
    case = draw(bnd.boundary(cls=cls, hemi=hemi, max_recs=max_recs,
                             small_corr=False))
    nrec = len(case["recs"])
    case["how"] = how
    case["order"] = draw(st.sampled_from(["sorted", "sorted", "mixed"]))
    if case["order"] == "mixed":
        case["order"] = draw(st.permutations(range(nrec)))
    else:
        case["order"] = list(range(nrec))
    case["lim"] = None
    if draw(st.integers(0, 2)) == 0 and case["mode"] != "array":
        times = sorted(r["time"] for r in case["recs"])
        edge = st.one_of(st.sampled_from(times), st.none(), gen.datetimes())
        lim = [draw(edge), draw(edge)]
        case["lim"] = lim if None in lim else sorted(lim)
    case["name"] = draw(st.sampled_from(
        ["b.txt", "b.txt", "my file's \"best\".ocb", "array.ocb", "back\\n",
         "b\u00e4nd.txt"]))
    case["noref"] = draw(st.integers(0, 6)) == 0
    case["kwonly"] = draw(st.integers(0, 5)) == 0
    return case


def build(case, where, ctx):
    """The object, and the indices of the records it holds."""
    cls = bnd.CLASSES[case["cls"]]
    recs = [case["recs"][i] for i in case["order"]]
    path = os.path.join(where, case["name"])
    kw = bnd.corr_kwargs(case)
    if case["kwonly"] and case["mode"] == "default":
        kw["rfunc_kwargs"] = {}
    kw["hemisphere"] = case["hemi"]
    if not case["noref"]:
        kw["boundary_lat"] = case["ref"]
    keep = list(range(len(recs)))
    if case["lim"] is not None:
        low, high = [None if t is None else gen.to_dt(t) for t in case["lim"]]
        kw.update(stime=low, etime=high)
        keep = [i for i, r in enumerate(recs) if (
            low is None or gen.to_dt(r["time"]) >= low) and (
                high is None or gen.to_dt(r["time"]) <= high)]
    how = case["how"]
    if how in ("none", "bad inst", "lost", "empty"):
        keep = []
        for key in ["rfunc", "rfunc_kwargs"]:
            if case["mode"] == "array":
                kw.pop(key, None)
    if how == "none":
        return cls(filename=None, instrument=case["fmt"], **kw), []
    if how == "bad inst":
        return cls(filename=path, instrument=None, **kw), []
    if how == "empty":
        with open(path, "w"):
            pass
    elif how == "file":
        bnd.write(dict(case, recs=recs), path)
    obj = cls(filename=path, instrument=case["fmt"], **kw)
    return obj, [recs[i] for i in keep]


def compare(new, old, fmt, label):
    require(type(new) is type(old), "{} class {} from {}", label, type(new),
            type(old))
    for name in BASE:
        require(getattr(new, name) == getattr(old, name),
                "{} {} is {!r} instead of {!r}", label, name,
                getattr(new, name), getattr(old, name))
    require(abs(new.boundary_lat - old.boundary_lat) <= 5.1e-7
            and new.boundary_lat * new.hemisphere > 0, "{} boundary latitude "
            "{} instead of {}", label, new.boundary_lat, old.boundary_lat)
    names = ["dtime", "phi_cent", "r_cent", "r", "fom", "rfunc",
             "rfunc_kwargs"]
    for name in names + (COLS[fmt] if old.records > 0 else []):
        one, two = getattr(new, name), getattr(old, name)
        require(same(one, two), "{} {} is {} instead of {}", label, name, one,
                two)


def records_check(obj, recs, label):
    require(obj.records == len(recs), "{} {} records instead of {}", label,
            obj.records, len(recs))
    if recs:
        require([gen.to_dt(r["time"]) for r in recs] == list(obj.dtime)
                and np.allclose([r["r"] for r in recs], obj.r, rtol=1.0e-9,
                                atol=0.0), "{} records {} {} instead of {}",
                label, obj.dtime, obj.r, recs)


def summary(text, obj, recs, label):
    """The readable summary of a boundary."""
    if obj.filename is None:
        require(text.startswith("No ") and "file specified" in text,
                "{} summary {}", label, text)
    elif not recs:
        require("No data loaded" in text and obj.filename in text,
                "{} summary {}", label, text)
    else:
        line = "{:d} records from {:} to {:}\n".format(
            len(recs), gen.to_dt(recs[0]["time"]), gen.to_dt(
                recs[-1]["time"]))
        require(obj.filename in text and line in text
                and obj.instrument.upper() in text
                and "{:.1f} degrees".format(obj.boundary_lat) in text,
                "{} summary {} of {}", label, text, recs)
        for i in {0, min(1, len(recs) - 1), -1, max(-2, -len(recs))}:
            line = "\n{:} {:.2f} {:.2f} {:.2f}\n".format(
                obj.dtime[i], obj.phi_cent[i], obj.r_cent[i], obj.r[i])
            require(line in text, "{} record {} in {}", label, line, text)


def bound_check(case, ctx):
    where = ctx.path("rep")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    obj, recs = build(case, where, ctx)
    records_check(obj, recs, case["cls"])
    text = repr(obj)
    new = eval(text, dict(SPACE))
    compare(new, obj, case["fmt"], case["cls"])
    require(repr(new) == text, "representation {} of {}", repr(new), text)
    summary(str(obj), obj, recs, case["cls"])
    require(str(new) == str(obj), "summary {} instead of {}", str(new),
            str(obj)) if len({str(s) for s in case["spec"] or []}
                             ) < 2 else None
    ctx.nontrivial(len(recs) > 1 or case["how"] != "file" or (
        case["lim"] is not None))
    ctx.tag("how: " + case["how"])
    ctx.tag("limited", case["lim"] is not None)
    ctx.tag("no records", not recs)
    ctx.tag("functions: " + case["mode"])


# ----------------------------------------------------------------------- dual
@st.composite
def dual_case(draw):
    if draw(st.integers(0, 3)) > 0:
        bound = draw(bnd.dual(max_recs=4))
        out = {"bound": bound, "pieces": None}
    else:
        hemi = draw(st.sampled_from([1, -1]))
        pieces = [draw(one_file(cls="EAB", hemi=hemi)), draw(one_file(
            cls="OCB", hemi=hemi))]
        pieces[0]["name"], pieces[1]["name"] = "e.txt", "o.txt"
        # The OCB reference latitude has to be poleward of that of the EAB
        for i, (low, high) in enumerate([(52.0, 63.9), (66.0, 84.0)]):
            pieces[i]["ref"] = draw(st.sampled_from([1.0, -1.0])) * draw(
                fl(low, high))
        out = {"bound": None, "pieces": pieces}
    out["delta"] = draw(st.sampled_from([60, 60, 1, 7, 600, 86400]))
    return out


def dual_check(case, ctx):
    where = ctx.path("rep")
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    if case["pieces"] is None:
        obj = bnd.make_dual(case["bound"], ctx, max_delta=case["delta"])
        fmts = case["bound"]["eab"]["fmt"], case["bound"]["ocb"]["fmt"]
    else:
        eab, _ = build(case["pieces"][0], where, ctx)
        ocb, _ = build(case["pieces"][1], where, ctx)
        obj = ocbpy.DualBoundary(eab=eab, ocb=ocb, max_delta=case["delta"])
        fmts = [p["fmt"] for p in case["pieces"]]
    text = repr(obj)
    new = eval(text, dict(SPACE))
    require(type(new) is type(obj) and new.records == obj.records
            and new.max_delta == obj.max_delta
            and new.hemisphere == obj.hemisphere, "{} from {}", repr(new),
            text)
    for name in ["dtime", "ocb_ind", "eab_ind"]:
        require(same(getattr(new, name), getattr(obj, name)), "{} is {} "
                "instead of {}", name, getattr(new, name), getattr(obj, name))
    compare(new.eab, obj.eab, fmts[0], "EAB")
    compare(new.ocb, obj.ocb, fmts[1], "OCB")
    require(repr(new) == text, "representation {} of {}", repr(new), text)
    line = str(obj)
    require("{:d} good boundary pairs".format(obj.records) in line
            and str(obj.eab) in line and str(obj.ocb) in line
            and "{:.1f} s".format(case["delta"]) in line, "summary {}", line)
    if obj.records > 0:
        require("pairs from {:} to {:}".format(obj.dtime[0], obj.dtime[-1])
                in line, "summary {}", line)
    ctx.nontrivial(obj.records > 0 or case["pieces"] is not None)
    ctx.tag("pairs", obj.records > 0)


# --------------------------------------------------------------------- vectors
VATTR = ["dat_ind", "ocb_ind", "lat", "lt", "height", "ocb_lat", "ocb_mlt",
         "r_corr", "vect_n", "vect_e", "vect_z", "vect_mag", "loc_coord",
         "vect_coord", "dat_name", "dat_units", "vshape", "ocb_n", "ocb_e",
         "ocb_z", "ocb_mag"]
FUNCS = {"none": None, "evar": ocb_scaling.normal_evar,
         "curl": ocb_scaling.normal_curl_evar,
         "circ": ocbpy.ocb_correction.circular}
words = st.sampled_from([None, "V", "array", "an array", "it's", '"E"', "m/s",
                         "numpy.array(1)", "\u00b5V", "a\nb", "back\\slash"])


@st.composite
def vect_case(draw):
    how = draw(st.sampled_from(["one", "dat", "dat", "dat", "ocb", "both"]))
    long = draw(st.integers(0, 19)) == 0
    num = 1 if how in ("one", "ocb") else (
        draw(st.sampled_from([1001, 1500])) if long else draw(
            st.integers(1, 6)))
    nind = {"one": 1, "dat": 1, "both": num, "ocb": draw(st.integers(1, 5))}[
        how]
    few = min(num, 6)
    comp = fl(-1.0e3, 1.0e3, special=[0, 1])
    out = {"how": how, "num": num, "nind": nind,
           "vals": {c: [draw(comp) for _ in range(few)] for c in "nez"},
           "lat": [draw(fl(50.0, 89.0)) for _ in range(few)],
           "lt": [draw(fl(0.0, 23.999)) for _ in range(few)],
           "height": [draw(st.sampled_from([350.0, 110.0, 123.456]))
                      for _ in range(few)],
           "flat": [c for c in ["n", "e", "z", "height", "lat", "lt"]
                    if draw(st.integers(0, 3)) == 0],
           "ints": draw(st.integers(0, 5)) == 0,
           "nan": draw(st.integers(0, 5)) == 0, "rot": draw(st.booleans()),
           "mag": draw(st.booleans()), "bound": draw(st.booleans()),
           "coord": draw(st.sampled_from(
               [["magnetic", "magnetic"], ["geodetic", "geodetic"],
                ["Geocentric", "Magnetic"]])),
           "name": draw(words), "units": draw(words),
           "func": draw(st.sampled_from(sorted(FUNCS)))}
    return out


def spread(vals, num):
    """num values, all different if there are many."""
    return np.array([vals[i % len(vals)] + 1.0e-7 * (i // len(vals))
                     for i in range(num)])


def pick(val, i):
    """The value of an element, shared or not."""
    return float(val) if np.ndim(val) == 0 else float(val[i])


def vect_summary(obj, case):
    """The readable summary names every location, value and index."""
    text = str(obj)
    for word in (case["name"], "({:s})".format(case["units"])
                 if case["units"] else None):
        require(word is None or word in text, "{} not in {}", word, text)
    require("Data Index {}".format(obj.dat_ind) in text
            and "Boundary Index {}".format(obj.ocb_ind) in text,
            "indices in {}", text)
    func = FUNCS[case["func"]]
    require(text.rstrip().endswith(
        "No magnitude scaling function provided" if func is None
        else "Scaling function: " + func.__name__), "function in {}", text)
    num = max(case["num"], case["nind"])
    # Blank lines carry no information
    rows = [r.strip() for r in text.split("\n") if r.strip() != ""]
    many = case["how"] != "one"
    places, values = [], []
    for i in range(num):
        dind = ", {:d}".format(int(pick(obj.dat_ind, i))) if many else ""
        bind = ", {:d}".format(int(pick(obj.ocb_ind, i))) if many else ""
        if i < case["num"]:
            places.append("{:s}: [{:.3f}, {:.3f}, {:.1f}{:s}]".format(
                obj.loc_coord, pick(obj.lat, i), pick(obj.lt, i),
                pick(obj.height, i), dind))
            values.append("{:s}: {:.3g} [{:.3g}, {:.3g}, {:.3g}]{:s}".format(
                obj.vect_coord, pick(obj.vect_mag, i), pick(obj.vect_n, i),
                pick(obj.vect_e, i), pick(obj.vect_z, i),
                dind.replace(",", "")))
        places.append("OCB: [{:.3f}, {:.3f}, N/A{:s}]".format(
            pick(obj.ocb_lat, i), pick(obj.ocb_mlt, i), bind))
        if not np.isnan(pick(obj.ocb_mag, i)):
            values.append("OCB: {:.3g} [{:.3g}, {:.3g}, {:.3g}]{:s}".format(
                pick(obj.ocb_mag, i), pick(obj.ocb_n, i), pick(obj.ocb_e, i),
                pick(obj.ocb_z, i), bind.replace(",", "")))
    starts = (obj.loc_coord + ": [", "OCB: [")
    found = [r for r in rows if r.startswith(starts)]
    require(found == places, "locations {} instead of {}", found, places)
    found = [r for r in rows if r.startswith((obj.vect_coord + ": ", "OCB: "))
             and not r.startswith(starts)]
    require(found == values, "values {} instead of {}", found, values)


def vect_check(case, ctx):
    num = case["num"]
    loc = () if case["how"] in ("one", "ocb") else (num,)
    out = () if case["how"] == "one" else (max(num, case["nind"]),)

    def value(key, vals):
        arr = spread(vals, num)
        if loc == () or key in case["flat"]:
            return float(arr[0])
        return arr

    vec = {c: value(c, case["vals"][c]) for c in "nez"}
    if case["nan"] and loc and "z" not in case["flat"]:
        vec["z"][0] = np.nan
    if case["ints"]:
        vec["e"] = 3 if np.ndim(vec["e"]) == 0 else np.arange(num)
    dat = np.arange(num) if loc else 2
    ind = (np.arange(case["nind"]) if case["how"] in ("ocb", "both") else 1)
    kw = {"vect_n": vec["n"], "vect_e": vec["e"], "vect_z": vec["z"],
          "height": value("height", case["height"]),
          "loc_coord": case["coord"][0], "vect_coord": case["coord"][1],
          "dat_name": case["name"], "dat_units": case["units"],
          "scale_func": FUNCS[case["func"]]}
    if case["mag"]:
        kw["vect_mag"] = np.sqrt(np.asarray(vec["n"]) ** 2 + np.asarray(
            vec["e"]) ** 2 + np.asarray(vec["z"]) ** 2)
    if case["bound"]:
        ref = np.arange(out[0] if out else 1)
        blat, bmlt, rcor = 60.0 + ref / 97.0, ref / 71.0, ref / 31.0
        kw["ocb_lat"], kw["ocb_mlt"], kw["r_corr"] = (
            (blat, bmlt, rcor) if out else (blat[0], bmlt[0], rcor[0]))
    obj = ocb_scaling.VectorData(dat, ind, value("lat", case["lat"]),
                                 value("lt", case["lt"]), **kw)
    text = repr(obj)
    new = eval(text, dict(SPACE))
    require(type(new) is type(obj), "class {}", type(new))
    for name in VATTR:
        one, two = getattr(new, name), getattr(obj, name)
        require((one is None and two is None) or (
            one == two if isinstance(two, str) else same(one, two)),
                "{} is {!r} instead of {!r}", name, one, two)
    require(new.scale_func is obj.scale_func, "function {} instead of {}",
            new.scale_func, obj.scale_func)
    require(repr(new) == text, "representation {} instead of {}", repr(new),
            text)
    line = str(obj)
    require(str(new) == line, "summary {} of {}", str(new), line)
    vect_summary(obj, case)
    if case["rot"]:
        shape = obj.ocb_n.shape
        for i, name in enumerate(["ocb_n", "ocb_e", "ocb_z"]):
            val = np.arange(1.0 * np.prod(shape)).reshape(shape)
            setattr(obj, name, 10.125 * val + 0.37 * (i + 1))
        mag = np.sqrt(obj.ocb_n ** 2 + obj.ocb_e ** 2 + obj.ocb_z ** 2)
        if case["nan"] and shape:
            mag[0] = np.nan
        obj.ocb_mag = mag
        vect_summary(obj, case)
    ctx.nontrivial(num > 1 or case["nind"] > 1)
    ctx.tag("shape: " + case["how"])
    ctx.tag("long arrays", num > 1000)


TARGETS = [
    Target("boundary", one_file(), bound_check, 1200,
           rule="several records, a time window, or no file or records"),
    Target("dual", dual_case(), dual_check, 400,
           rule="at least one pair, or parts constructed in other ways"),
    Target("vector", vect_case(), vect_check, 900,
           rule="more than one value or boundary index"),
]
