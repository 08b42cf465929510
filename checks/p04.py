"""P04: boundary files load completely, faithfully and in order.

Oracle: a direct model of the written file (rows, time window, column values, corrections) compared attribute by attribute with the loaded object.
"""
import datetime as dt
import math

import numpy as np
import ocbpy
from hypothesis import strategies as st
from ocbpy import ocb_correction

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "well-formed whitespace-separated files; IMAGE second-of-year values are "
    "not halfway between two seconds"]

LIMITS = {"image": (-math.inf, 5.0), "ampere": (0.15, math.inf),
          "dmsp-ssj": (3.0, math.inf)}


@st.composite
def row(draw, fmt):
    out = {"r": draw(fl(1.0, 40.0)), "fom": draw(st.one_of(
        fl(0.0, 8.0), st.sampled_from([5.0, 0.15, 3.0, 5.01, 0.149, 2.999])))}
    if fmt == "image":
        out.update(num=draw(st.integers(1, 24)), phi=draw(fl(0.0, 359.99)),
                   rc=draw(fl(0.0, 15.0)), a=draw(fl(-9.0, 9.0)),
                   r_err=draw(fl(0.0, 9.0)),
                   frac=draw(st.sampled_from([0.0, 0.0, 0.0, 0.25, -0.375])))
    else:
        out.update(x=draw(fl(-15.0, 15.0, special=[0.0])),
                   y=draw(fl(-15.0, 15.0, special=[0.0])))
    if fmt == "dmsp-ssj":
        out.update(sc=draw(st.integers(6, 19)))
        for key in ("x1", "y1", "x2", "y2"):
            out[key] = draw(fl(-40.0, 40.0))
    return out


@st.composite
def file_case(draw):
    fmt = draw(st.sampled_from(["image", "ampere", "dmsp-ssj"]))
    nrow = draw(st.sampled_from([1, 1, 2, 3, 5, 8]))
    base = gen.to_dt(draw(gen.datetimes()))
    if draw(st.integers(0, 3)) == 0:
        base = base.replace(month=12, day=31, hour=23, minute=59, second=30)
    if fmt == "ampere":
        base = base.replace(second=0)
    unit = 60 if fmt == "ampere" else 1
    times, now = [], base
    for _ in range(nrow):
        times.append(now)
        now += dt.timedelta(seconds=unit * draw(st.one_of(
            st.integers(0, 4), st.integers(1, 20000))))
    if draw(st.integers(0, 4)) == 0:
        times = times[::-1]
    rows = []
    for when in times:
        rec = draw(row(fmt))
        rec["time"] = when.isoformat()
        rows.append(rec)

    def bound():
        kind = draw(st.sampled_from(["none", "at", "near", "far"]))
        if kind == "none":
            return None
        when = times[draw(st.integers(0, nrow - 1))]
        if kind == "near":
            when += dt.timedelta(seconds=draw(st.sampled_from(
                [-1, 1, -1, 1, -0.5, 0.5, 1.0e-6])))
        elif kind == "far":
            when += dt.timedelta(seconds=draw(st.integers(-90000, 90000)))
        return when.isoformat()

    return {"fmt": fmt, "rows": rows, "stime": bound(), "etime": bound(),
            "cls": draw(st.sampled_from(["OCB", "EAB"])),
            "hemi": draw(st.sampled_from([1, -1])),
            "ref": draw(st.one_of(st.just("default"), fl(50.0, 85.0),
                                  fl(50.0, 85.0).map(lambda v: -v),
                                  st.integers(-80, -60))),
            "rfunc": draw(st.sampled_from(["default", "single", "array"])),
            "rkw": draw(st.sampled_from(["default", "single", "array"])),
            "seed": draw(st.integers(0, 50)),
            "upper": draw(st.booleans()), "mlts": draw(st.lists(
                fl(0.0, 23.9), min_size=1, max_size=3))}


def pick(case, ind):
    """Function and arguments of one record, and the reference spec."""
    names = ["circular", "elliptical", "harmonic"]
    kind = {"default": None, "single": names[case["seed"] % 3],
            "array": names[(case["seed"] + ind) % 3]}[case["rfunc"]]
    num = case["seed"] if case["rkw"] == "single" else case["seed"] + ind
    func = kind
    if kind is None:
        kind = ("elliptical" if case["cls"] == "OCB"
                and case["fmt"] == "ampere" else "circular")
    # One dict for records with different functions would not be callable
    given = case["rkw"] != "default" and not (
        case["rkw"] == "single" and case["rfunc"] == "array")
    if kind == "circular":
        kw = {"r_add": float(num % 7) - 2.0} if given else {}
        spec = ["circular", kw.get("r_add", 0.0)]
    elif kind == "elliptical":
        kw = {"method": ["median", "gaussian"][num % 2]} if given else {}
        spec = ["elliptical", kw.get("method", "median")]
    else:
        keys = sorted(geom.HARM)
        kw = {}
        spec = ["harmonic", "ampere", "median"]
        if given:
            spec = ["harmonic"] + list(keys[num % len(keys)])
            kw = {"instrument": spec[1], "method": spec[2]}
    return func, kw, spec


def object_array(vals):
    out = np.empty(len(vals), dtype=object)
    for i, val in enumerate(vals):
        out[i] = val
    return out


def expect_rows(case):
    stime = None if case["stime"] is None else gen.to_dt(case["stime"])
    etime = None if case["etime"] is None else gen.to_dt(case["etime"])
    return [r for r in case["rows"]
            if (stime is None or gen.to_dt(r["time"]) >= stime)
            and (etime is None or gen.to_dt(r["time"]) <= etime)], stime, etime


def write(case, path):
    if case["fmt"] == "image":
        with open(path, "w") as fh:
            for rec in case["rows"]:
                when = gen.to_dt(rec["time"])
                soy = (when - dt.datetime(when.year, 1, 1)).total_seconds()
                if soy + rec["frac"] < 0:
                    rec["frac"] = 0.0
                fh.write(" ".join([str(when.year), repr(soy + rec["frac"]),
                                   str(rec["num"])] + [
                    repr(rec[k]) for k in ("phi", "rc", "r", "a", "r_err",
                                           "fom")]) + "\n")
    elif case["fmt"] == "ampere":
        gen.write_ampere(path, case["rows"])
    else:
        gen.write_dmsp(path, case["rows"])


def compare(ocb, rows, fmt, tag=""):
    num = len(rows)
    require(ocb.records == num, "{}{} records instead of {}", tag, ocb.records,
            num)
    require(ocb.rec_ind < 0, "{}record {} is selected after loading", tag,
            ocb.rec_ind)
    require(len(ocb.dtime) == num and all(
        got == gen.to_dt(r["time"]) for got, r in zip(ocb.dtime, rows)),
        "{}times {} instead of {}", tag, ocb.dtime, [r["time"] for r in rows])
    names = {"r": "r", "fom": "fom"}
    if fmt == "image":
        names.update(phi_cent="phi", r_cent="rc", a="a", r_err="r_err",
                     num_sectors="num")
    elif fmt != "custom":
        names.update(x="x", y="y")
    if fmt == "dmsp-ssj":
        names.update(sc="sc", x_1="x1", y_1="y1", x_2="x2", y_2="y2")
    for attr, key in names.items():
        got = getattr(ocb, attr)
        require(np.shape(got) == (num,) and all(
            float(g) == float(r[key]) for g, r in zip(got, rows)),
            "{}column {} is {} instead of {}", tag, attr, got,
            [r[key] for r in rows])
    if fmt not in ("image", "custom"):
        require(np.shape(ocb.r_cent) == (num,) and np.shape(ocb.phi_cent)
                == (num,), "{}centre shapes", tag)
        for i, rec in enumerate(rows):
            rc = math.hypot(rec["x"], rec["y"])
            require(abs(ocb.r_cent[i] - rc) < 1e-9, "{}record {}: centre "
                    "co-latitude {} != {}", tag, i, ocb.r_cent[i], rc)
            # An angle too little below 360 to be told apart is rounded to it
            require(0.0 <= ocb.phi_cent[i] < 360.0 or (
                ocb.phi_cent[i] == 360.0 and rec.get("x", 0.0) < 0.0
                and rec["y"] < 0.0), "{}record {}: centre angle {}", tag, i,
                ocb.phi_cent[i])
            if rc > 0.0:
                phi = math.degrees(math.atan2(rec["y"], rec["x"])) + 90.0
                require(float(gen.ang_diff(ocb.phi_cent[i], phi, 360.0))
                        < 1e-9, "{}record {}: centre angle {} != {}", tag, i,
                        ocb.phi_cent[i], phi)


def file_check(case, ctx):
    path = ctx.path("b.txt")
    write(case, path)
    rows, stime, etime = expect_rows(case)
    kw = {"stime": stime, "etime": etime, "hemisphere": case["hemi"]}
    if case["seed"] % 2:
        # Leave out what has its default value
        kw = {k: v for k, v in kw.items() if v is not None and not (
            k == "hemisphere" and v == 1)}
    if case["ref"] != "default":
        kw["boundary_lat"] = case["ref"]
    picks = [pick(case, i) for i in range(len(rows))]
    first = pick(case, 0)
    mixed = case["rkw"] == "single" and case["rfunc"] == "array"
    if case["rfunc"] == "single":
        kw["rfunc"] = getattr(ocb_correction, first[0])
    elif case["rfunc"] == "array":
        kw["rfunc"] = object_array([getattr(ocb_correction, p[0])
                                    for p in picks])
    if case["rkw"] == "single" and not mixed:
        kw["rfunc_kwargs"] = first[1]
    elif case["rkw"] == "array":
        kw["rfunc_kwargs"] = object_array([p[1] for p in picks])
    inst = case["fmt"]
    if case["upper"] and (case["cls"] == "OCB" or "rfunc" in kw):
        inst = inst.upper()
    ocb = bnd.CLASSES[case["cls"]](filename=path, instrument=inst, **kw)
    compare(ocb, rows, case["fmt"])
    require(ocb.instrument == case["fmt"] and ocb.filename == path
            and ocb.hemisphere == case["hemi"], "settings {} {} {}",
            ocb.instrument, ocb.filename, ocb.hemisphere)
    ref = {"OCB": 74.0, "EAB": 64.0}[case["cls"]] if (
        case["ref"] == "default") else case["ref"]
    require(ocb.boundary_lat == case["hemi"] * abs(ref),
            "reference latitude {} from {} in hemisphere {}", ocb.boundary_lat,
            case["ref"], case["hemi"])

    corrections(ocb, case, rows, picks)

    # Quality limits of the instrument
    lo, hi = LIMITS[case["fmt"]]
    require(ocb.min_fom == lo and ocb.max_fom == hi, "merit limits {} {}",
            ocb.min_fom, ocb.max_fom)
    good = [i for i, r in enumerate(rows) if lo <= r["fom"] <= hi]
    got = ocbpy.cycle_boundary.retrieve_all_good_indices(ocb)
    require(list(got) == good, "good records {} instead of {}", got, good)
    ctx.nontrivial(len(rows) > 0)
    ctx.tag("format:" + case["fmt"])
    ctx.tag("class:" + case["cls"])
    ctx.tag("window cuts", 0 < len(rows) < len(case["rows"]))
    ctx.tag("window empty", len(rows) == 0)
    ctx.tag("single record file", len(case["rows"]) == 1)
    ctx.tag("rfunc:{} kwargs:{}".format(case["rfunc"], case["rkw"]))
    ctx.tag("poor merit", 0 < len(good) < len(rows))


def corrections(ocb, case, rows, picks):
    """Corrections, used through the public attributes."""
    first = pick(case, 0)
    require(np.shape(ocb.rfunc) == (len(rows),) and np.shape(ocb.rfunc_kwargs)
            == (len(rows),), "correction arrays of shape {} {}",
            np.shape(ocb.rfunc), np.shape(ocb.rfunc_kwargs))
    for i in range(len(rows)):
        func, kwargs, spec = picks[i] if case["rfunc"] == "array" or (
            case["rkw"] == "array") else first
        require(dict(ocb.rfunc_kwargs[i]) == kwargs, "record {}: arguments {} "
                "instead of {}", i, ocb.rfunc_kwargs[i], kwargs)
        for mlt in case["mlts"]:
            got = float(ocb.rfunc[i](mlt, **ocb.rfunc_kwargs[i]))
            exp = geom.corr(spec, mlt)
            require(abs(got - exp) < 1e-9, "record {}: correction {} instead "
                    "of {} ({})", i, got, exp, spec)


# ------------------------------------------------------- files of other layouts
@st.composite
def custom_case(draw):
    case = draw(file_case())
    case["cls"] = "OCB"
    case["hlines"] = draw(st.integers(0, 3))
    case["dfmt"] = draw(st.sampled_from([
        "%Y-%m-%d %H:%M:%S", "%d/%m/%Y %H:%M:%S", "%Y%j %H%M%S", "soy",
        "%Y-%m-%d %H:%M:%S.%f"]))
    case["order"] = draw(st.permutations(["r", "fom", "a", "b"]))
    case["xy"] = draw(st.booleans())
    for rec in case["rows"]:
        rec.update(phi=draw(fl(0.0, 359.9)), rc=draw(fl(0.0, 20.0)),
                   a=draw(fl(-5.0, 5.0)), b=draw(fl(-1e5, 1e5)),
                   x=draw(fl(-20.0, 20.0)), y=draw(fl(-20.0, 20.0)))
        if case["dfmt"].endswith("%f"):
            rec["time"] = (gen.to_dt(rec["time"]) + dt.timedelta(
                microseconds=draw(st.sampled_from(
                    [0, 1, 250000, 500000, 500001, 999999])))).isoformat()
    return case


def custom_check(case, ctx):
    path = ctx.path("b.txt")
    centre = ["x", "y"] if case["xy"] else ["phi", "rc"]
    keys = centre + list(case["order"])
    label = {"phi": "phi_cent", "rc": "r_cent"}
    cols = (["year", "soy"] if case["dfmt"] == "soy" else ["date", "time"])
    with open(path, "w") as fh:
        for i in range(case["hlines"]):
            fh.write("Header 1 2 line {} of 3\n".format(i))
        for rec in case["rows"]:
            when = gen.to_dt(rec["time"])
            if case["dfmt"] == "soy":
                stamp = "{} {}".format(when.year, int(
                    (when - dt.datetime(when.year, 1, 1)).total_seconds()))
            else:
                stamp = when.strftime(case["dfmt"])
            fh.write(" ".join([stamp] + [repr(rec[k]) for k in keys]) + "\n")
    rows, stime, etime = expect_rows(case)
    ocb = ocbpy.OCBoundary(filename=None, instrument="image",
                           hemisphere=case["hemi"])
    ocb.filename = path
    kw = {} if case["dfmt"] == "soy" else {"datetime_fmt": case["dfmt"]}
    ocb.load(hlines=case["hlines"], stime=stime, etime=etime, ocb_cols=" ".join(
        cols + [label.get(k, k) for k in keys]), **kw)
    compare(ocb, rows, "ampere" if case["xy"] else "custom")
    for key in [k for k in keys if k not in ("x", "y")]:
        got = getattr(ocb, label.get(key, key))
        require([float(g) for g in got] == [float(r[key]) for r in rows],
                "column {} is {} instead of {}", key, got,
                [r[key] for r in rows])
    ctx.nontrivial(len(rows) > 0)
    ctx.tag("times:" + case["dfmt"])
    ctx.tag("header lines", case["hlines"] > 0)


# ----------------------------------------------------------- refused settings
@st.composite
def refuse_case(draw):
    case = draw(bnd.boundary(specs=["default"]))
    case["what"] = draw(st.sampled_from(
        ["hemisphere", "rfunc_shape", "rfunc_type", "kwargs_shape",
         "kwargs_type", "instrument"]))
    case["size"] = draw(st.sampled_from([-1, 1, 2]))
    case["value"] = draw(st.integers(0, 4))
    return case


def refuse_check(case, ctx):
    path = bnd.write(case, ctx.path("b.txt"))
    num, what, val = len(case["recs"]), case["what"], case["value"]
    size = max(0, num + case["size"])
    kw = {"hemisphere": case["hemi"], "instrument": case["fmt"]}
    if what == "hemisphere":
        kw["hemisphere"] = [0, 2, -2, 1.5, 74][val]
    elif what == "rfunc_shape":
        kw["rfunc"] = object_array([ocb_correction.circular] * size)
    elif what == "rfunc_type":
        kw["rfunc"] = ["circular", 1, [ocb_correction.circular] * num, 2.5,
                       {"f": ocb_correction.circular}][val]
    elif what == "kwargs_shape":
        kw["rfunc_kwargs"] = object_array([{}] * size)
    elif what == "kwargs_type":
        kw["rfunc_kwargs"] = ["r_add", 1, [{}] * num, 2.5, ({},)][val]
    else:
        kw["instrument"] = ["imag", "dmsp", "ssj", "supermag", "amp"][val]
    ctx.nontrivial()
    ctx.tag(what)
    try:
        obj = bnd.CLASSES[case["cls"]](filename=path, **kw)
    except ValueError:
        return
    fail("{} accepted {} ({} records): {} records loaded", case["cls"], kw,
         num, obj.records)


# ------------------------------------------------------ loading several times
@st.composite
def again_case(draw):
    case = draw(file_case())
    for key in ("rfunc", "rkw"):
        case[key] = draw(st.sampled_from(["default", "single"]))
    if case["rfunc"] == "default":
        # The arguments would have to suit the default function
        case["rkw"] = "default"
    times = sorted(r["time"] for r in case["rows"])
    edge = st.one_of(st.none(), st.sampled_from(times))
    loads = draw(st.lists(st.tuples(edge, edge, st.sampled_from(
        ["none", "profile", "select", "limits"])), min_size=1, max_size=4))
    case["loads"] = [list(one) for one in loads]
    return case


def again_check(case, ctx):
    path = ctx.path("b.txt")
    write(case, path)
    kw = {"hemisphere": case["hemi"]}
    first = pick(case, 0)
    if case["rfunc"] == "single":
        kw["rfunc"] = getattr(ocb_correction, first[0])
    if case["rkw"] == "single":
        kw["rfunc_kwargs"] = first[1]
    rows, stime, etime = expect_rows(case)
    ocb = bnd.CLASSES[case["cls"]](filename=path, instrument=case["fmt"],
                                   stime=stime, etime=etime, **kw)
    compare(ocb, rows, case["fmt"])
    sizes = {len(rows)}
    for num, (low, high, use) in enumerate(case["loads"]):
        if use == "profile" and ocb.records > 0:
            ocb.get_aacgm_boundary_lat(np.array([1.0, 13.0]))
        elif use == "select":
            ocb.get_next_good_ocb_ind()
        hlines, cols, dfmt = ocb.inst_defaults()
        sub = dict(case, stime=low, etime=high)
        rows, stime, etime = expect_rows(sub)
        ocb.load(hlines=hlines, ocb_cols=cols, datetime_fmt=dfmt, stime=stime,
                 etime=etime)
        tag = "load {}: ".format(num + 2)
        compare(ocb, rows, case["fmt"], tag)
        corrections(ocb, case, rows, [pick(case, 0)] * len(rows))
        lo, hi = LIMITS[case["fmt"]]
        good = [i for i, r in enumerate(rows) if lo <= r["fom"] <= hi]
        got = ocbpy.cycle_boundary.retrieve_all_good_indices(ocb)
        require(list(got) == good, "{}good records {} instead of {}", tag,
                got, good)
        sizes.add(len(rows))
    ctx.nontrivial(len(sizes) > 1)
    ctx.tag("loads", len(case["loads"]) > 1)
    ctx.tag("rfunc:{} kwargs:{}".format(case["rfunc"], case["rkw"]))


# ----------------------------------------------------------- nothing to load
@st.composite
def nothing_case(draw):
    case = draw(file_case())
    case["why"] = draw(st.sampled_from(
        ["none", "number", "list", "missing", "folder", "empty name",
         "instrument", "columns"]))
    case["cols"] = draw(st.sampled_from(
        ["r_cent phi_cent r fom", "year r_cent phi_cent r fom",
         "soy r_cent phi_cent r fom", "date r_cent phi_cent r fom",
         "time r_cent phi_cent r fom", "soy date r_cent phi_cent r"]))
    return case


def state(ocb):
    return [ocb.records, ocb.rec_ind, ocb.dtime is None] + [
        None if getattr(ocb, key) is None else list(getattr(ocb, key))
        for key in ("dtime", "phi_cent", "r_cent", "r", "fom")]


def nothing_check(case, ctx):
    path = ctx.path("b.txt")
    write(case, path)
    why, inst = case["why"], case["fmt"]
    kw = {"hemisphere": case["hemi"]}
    if case["ref"] != "default":
        kw["boundary_lat"] = case["ref"]
    ctx.tag(why)
    ctx.nontrivial()
    cls = bnd.CLASSES[case["cls"]]
    if why == "columns":
        # Without times nothing is loaded and nothing changes
        rows, stime, etime = expect_rows(case)
        ocb = cls(filename=path, instrument=inst, stime=stime, etime=etime,
                  **kw)
        before = state(ocb)
        ocb.load(hlines=0, ocb_cols=case["cols"])
        require(state(ocb) == before, "columns {!r} changed the data",
                case["cols"])
        compare(ocb, rows, inst)
        return
    name = {"none": None, "number": 5, "list": [path], "missing": path + ".no",
            "folder": ctx.path(""), "empty name": "",
            "instrument": path}[why]
    if why == "instrument":
        if case["cls"] == "EAB":
            # There is no default correction for such an instrument
            cls = bnd.CLASSES["OCB"]
        inst = [None, 3, ["image"]][case["seed"] % 3]
    ocb = cls(filename=name, instrument=inst, **kw)
    require(ocb.records == 0 and ocb.dtime is None and ocb.filename is None,
            "{}: {} records at {} from {}", why, ocb.records, ocb.dtime,
            ocb.filename)
    for key in ("phi_cent", "r_cent", "r", "fom"):
        require(getattr(ocb, key) is None, "{}: {} is {}", why, key,
                getattr(ocb, key))
    ref = {"OCB": 74.0, "EAB": 64.0}[case["cls"]] if (
        case["ref"] == "default") else case["ref"]
    if why != "instrument":
        require(ocb.boundary_lat == case["hemi"] * abs(ref)
                and ocb.hemisphere == case["hemi"], "{}: reference latitude "
                "{} from {} in hemisphere {}", why, ocb.boundary_lat,
                case["ref"], case["hemi"])
    # There is nothing to convert with
    for out in ocb.normal_coord(case["hemi"] * np.array([75.0, 80.0]),
                                np.array([1.0, 13.0])):
        require(np.shape(out) == (2,) and np.all(np.isnan(out)),
                "{}: conversion gave {}", why, out)
    ocb.get_next_good_ocb_ind()
    require(ocb.rec_ind >= 0 and ocb.records == 0, "{}: record {} of {}", why,
            ocb.rec_ind, ocb.records)


TARGETS = [
    Target("nothing", nothing_case(), nothing_check, 150, rule="every case"),
    Target("formats", file_case(), file_check, 1500,
           rule="at least one record within the time window"),
    Target("layouts", custom_case(), custom_check, 500,
           rule="at least one record within the time window"),
    Target("again", again_case(), again_check, 600,
           rule="loads with different numbers of records"),
    Target("refused", refuse_case(), refuse_check, 300, rule="every case"),
]
