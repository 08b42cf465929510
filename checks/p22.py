"""P22: The default boundary file is a suitable one of highest priority.

Oracle: brute-force selection over the generated directory content, from the documented spans, names and instrument priority.
"""
import datetime as dt
import os
import shutil

import ocbpy
import ocbpy.boundaries
from hypothesis import strategies as st
from ocbpy.boundaries import files

from lib import bnd, gen
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "the boundary directory is a scratch directory that takes the place of "
    "the one of the package",
    "without a time limit in the south, where the documentation prefers "
    "AMPERE, no IMAGE file is present together with AMPERE files",
    "files of one instrument, hemisphere and boundary type are equally good "
    "if they all overlap the requested times"]
DAY = dt.timedelta(days=1)
SPAN = {"amp": (dt.datetime(2010, 1, 1), dt.datetime(2022, 1, 1)),
        "si12": (dt.datetime(2000, 5, 4), dt.datetime(2002, 11, 1)),
        "si13": (dt.datetime(2000, 5, 3), dt.datetime(2002, 11, 1)),
        "wic": (dt.datetime(2000, 5, 4), dt.datetime(2002, 11, 1)),
        "image": (dt.datetime(2000, 5, 3), dt.datetime(2002, 11, 1)),
        "dmsp-ssj": (dt.datetime(2010, 1, 1), None)}
ORDER = ["image", "amp", "si13", "si12", "wic", "dmsp-ssj"]
GROUP = {"ampere": ["amp"], "image": ["image", "si12", "si13", "wic"],
         "dmsp-ssj": ["dmsp-ssj"]}
LONG = {"amp": "ampere", "si12": "image", "si13": "image", "wic": "image"}
HEMI = {1: "north", -1: "south"}
STRAY = ["README.ocb", "readme.txt", "notes_north.ocb.bak", "setup.py",
         "image_north_circle.eabx", "plain.ocb", "some_text_file.eab",
         "amp_north_radii.txt", "foo_north_bad_date.ocb"]
CUSTOM = ["foo", "my-inst", "amp2", "pyro"]


def name_of(item):
    parts = [item["inst"], HEMI[item["hemi"]]]
    if item["inst"] in CUSTOM or item["dated"]:
        parts += [gen.to_dt(t).strftime("%Y%m%d") for t in item["days"]]
    if item["tail"]:
        parts.append(item["tail"])
    out = "_".join(parts)
    return (out.upper() if item["upper"] else out) + "." + item["ext"]


def span_of(item):
    if item["inst"] in CUSTOM:
        return tuple(gen.to_dt(t) for t in item["days"])
    low, high = SPAN[item["inst"]]
    if high is None:
        high = dt.datetime.today().replace(
            hour=0, minute=0, second=0, microsecond=0) + DAY
    return low, high


day = st.integers(0, 9000).map(
    lambda k: (dt.datetime(2000, 1, 1) + k * DAY).isoformat())


@st.composite
def entry(draw, hemi, bound):
    days = sorted([draw(day), draw(day)])
    return {"inst": draw(st.sampled_from(ORDER + ORDER + CUSTOM)),
            "hemi": hemi * draw(st.sampled_from([1, 1, 1, -1])), "days": days,
            "dated": draw(st.integers(0, 4)) == 0,
            "tail": draw(st.sampled_from(["circle", "radii", "", "v2"])),
            "upper": draw(st.integers(0, 9)) == 0,
            "ext": draw(st.sampled_from([bound] * 4 + ["eab", "OCB", "txt"])),
            "r": draw(fl(10.0, 30.0)), "folder": draw(st.integers(0, 14)) == 0}


EDGES = [t for pair in SPAN.values() for t in pair if t is not None]


@st.composite
def when(draw, items):
    if draw(st.integers(0, 4)) == 0:
        return draw(gen.datetimes(hi=dt.datetime(2024, 6, 1)))
    edges = EDGES + [span_of(it)[i] for it in items for i in (0, 1)
                     if it["inst"] in CUSTOM]
    return (draw(st.sampled_from(edges)) + dt.timedelta(seconds=draw(
        st.sampled_from([0, 1, -1, 86400, -86400, 10 ** 7])))).isoformat()


@st.composite
def dir_case(draw):
    hemi = draw(st.sampled_from([1, 1, -1]))
    bound = draw(st.sampled_from(["ocb", "ocb", "eab", "OCB"]))
    items = draw(st.lists(entry(hemi, bound), max_size=9))
    lim = [draw(when(items)) for _ in range(2)]
    lim.sort()
    none = draw(st.sampled_from(["", "", "", "s", "e", "se"]))
    for i, key in enumerate("se"):
        if key in none:
            lim[i] = None
    return {"items": items, "lim": lim,
            "stray": draw(st.lists(st.sampled_from(STRAY), max_size=3,
                                   unique=True)),
            "hemi": hemi, "bound": bound,
            "inst": draw(st.sampled_from(
                ["", "", "", "", "", "", "ampere", "image", "amp", "image", "si12", "si13", "wic",
                 "dmsp-ssj", "foo", "my-inst", "unknown"])),
            "give": draw(st.booleans())}


def records_of(item):
    """The boundaries of a file, in the format of its instrument."""
    low, high = span_of(item)
    kind = LONG.get(item["inst"], item["inst"])
    recs = []
    for i, time in enumerate([low + DAY, low + (high - low) / 2, high - DAY]):
        recs.append({"phi": 90.0, "rc": 2.0, "r": item["r"] + 0.5 * i,
                     "fom": 3.5, "time": time.replace(
                         second=0, microsecond=0).isoformat()})
    return {"fmt": kind, "recs": sorted(recs, key=lambda r: r["time"])}


def fill(case, ctx):
    """Create the directory, and give its files (no names that clash)."""
    root = ctx.path("pkg")
    shutil.rmtree(root, ignore_errors=True)
    where = os.path.join(root, "ocbpy", "boundaries")
    os.makedirs(where)
    present = {}
    for item in case["items"]:
        name = name_of(item)
        if name.lower() in [n.lower() for n in present]:
            continue
        path = os.path.join(where, name)
        if item["folder"]:
            os.mkdir(path)
            present[name] = None
            continue
        present[name] = item
        if item["inst"] in CUSTOM:
            with open(path, "w"):
                pass
        else:
            bnd.write(records_of(item), path)
    for name in case["stray"]:
        if name.lower() not in [n.lower() for n in present]:
            with open(os.path.join(where, name), "w") as fout:
                fout.write("text\n")
    return where, {n: i for n, i in present.items() if i is not None}


def dir_check(case, ctx):
    where, present = fill(case, ctx)
    bound = case["bound"].lower()
    listed = {n: i for n, i in present.items()
              if n.lower().endswith("." + bound)}
    lim = [None if t is None else gen.to_dt(t) for t in case["lim"]]
    insts = GROUP.get(case["inst"], [case["inst"]]) if case["inst"] else ORDER
    good = {}
    for name, item in listed.items():
        low, high = span_of(item)
        if item["hemi"] == case["hemi"] and item["inst"] in insts and (
                None in lim or (lim[0] <= high and low <= lim[1])):
            good[name] = ORDER.index(item["inst"]) if item[
                "inst"] in ORDER else 9
    best = [n for n, v in good.items() if v == min(good.values())]
    text = " for {} among {}".format(case, sorted(os.listdir(where)))
    text = text.replace("{", "(").replace("}", ")")
    with gen.moved_package(where):
        require(os.path.realpath(files.get_boundary_directory())
                == os.path.realpath(where), "directory {}",
                files.get_boundary_directory())
        info = files.get_boundary_files(bound=case["bound"])
        got = files.get_default_file(lim[0], lim[1], case["hemi"],
                                     case["inst"], bound=case["bound"])
        list_check(info, listed, case, text)
        if case["hemi"] < 0 and None in lim and not case["inst"] and len(
                {item["inst"] in GROUP["image"] for n, item in listed.items()
                 if n in good}) > 1:
            ctx.tag("documented preference depends")
            return
        require(len(got) == 2, "result {}", got)
        if not best:
            require(got[0] is None, "default file {} instead of none{}", got,
                    text)
            ctx.tag("no file")
        else:
            require(got[0] is not None and os.path.basename(got[0]) in best
                    and os.path.realpath(os.path.dirname(got[0]))
                    == os.path.realpath(where), "default file {} instead of "
                    "{}{}", got, best, text)
            item = listed[os.path.basename(got[0])]
            require(got[1] == LONG.get(item["inst"], item["inst"]),
                    "instrument {} for file {}{}", got[1], got[0], text)
            ctx.tag("default: " + item["inst"])
        known = case["inst"] not in ("unknown",) + tuple(CUSTOM)
        if case["give"] and known and (
                not best or listed[best[0]]["inst"] not in CUSTOM):
            object_check(case, lim, best, listed, bound, text, ctx)
    ctx.nontrivial(len(good) > 1 or (len(good) == 1 and len(listed) > 1))
    ctx.tag("open time range", None in lim)
    ctx.tag("other files", len(case["stray"]) > 0)
    ctx.tag("several of the best", len(best) > 1)


def list_check(info, listed, case, text):
    extra = [n for n in info if n not in listed and n not in case["stray"]]
    lost = [n for n in listed if n not in info]
    require(not extra and not lost, "listed {} too many, {} too few{}", extra,
            lost, text)
    for name in info:
        if name not in listed:
            require("etime" not in info[name], "file {} listed as {}{}", name,
                    info[name], text)
            continue
        item = listed[name]
        low, high = span_of(item)
        require(info[name]["instrument"] == item["inst"]
                and info[name]["hemisphere"] == item["hemi"]
                and info[name]["stime"] == low
                and info[name]["etime"] == high, "file {} listed as {}{}",
                name, info[name], text)


def object_check(case, lim, best, listed, bound, text, ctx):
    """The boundary object uses the default file."""
    cls = bnd.CLASSES[bound.upper()]
    obj = cls("default", instrument=case["inst"], hemisphere=case["hemi"],
              stime=lim[0], etime=lim[1])
    if not best:
        require(obj.filename is None and obj.records == 0, "file {} with {} "
                "records{}", obj.filename, obj.records, text)
        return
    name = os.path.basename(obj.filename)
    require(name in best, "object from file {} instead of {}{}", obj.filename,
            best, text)
    item = listed[name]
    require(obj.instrument == LONG.get(item["inst"], item["inst"]),
            "object for {} from file {}{}", obj.instrument, name, text)
    recs = [r for r in records_of(item)["recs"] if (
        lim[0] is None or gen.to_dt(r["time"]) >= lim[0]) and (
            lim[1] is None or gen.to_dt(r["time"]) <= lim[1])]
    require(obj.records == len(recs) and (not recs or gen.close(
        obj.r, [r["r"] for r in recs], 1.0e-9, 0.0)), "{} records {} instead "
        "of {}{}", obj.records, obj.r, recs, text)
    ctx.tag("object with records", len(recs) > 0)


TARGETS = [Target("directory", dir_case(), dir_check, 5000,
                  rule="more than one file of the boundary type, at least one "
                       "of which qualifies")]
