"""P20: Vorticity data load and convert to boundary coordinates faithfully.

Oracle: the generated cell table, brute-force matching to the nearest good boundary record, and the library's own single-location conversion for that record on a fresh boundary object.
"""
import datetime as dt
import math
import os

import numpy as np
from hypothesis import strategies as st
from ocbpy.instruments import vort

from lib import conv, gen
from lib.vlib import Target, require

ASSUMPTIONS = [
    "data sorted by time, boundary times strictly increasing",
    "block times are judged to half a second of the written hour of day, and "
    "exactly where that is a whole second",
    "the coordinate conversion itself is judged by P07 and P08, here against "
    "the same routine for one location at a time"]
LINES = [["R1BM1", "R1BM2", "R2BM1", "R2BM2", "AREA", "VORTICITY", "MLT"],
         ["GFLG", "CENTRE_GLAT", "CENTRE_GLON", "C1_GLAT", "C1_GLON",
          "C2_GLAT", "C2_GLON", "C3_GLAT", "C3_GLON", "C4_GLAT", "C4_GLON"],
         ["MFLG", "CENTRE_MLAT", "CENTRE_MLON", "C1_MLAT", "C1_MLON",
          "C2_MLAT", "C2_MLON", "C3_MLAT", "C3_MLON", "C4_MLAT", "C4_MLON"]]
NEED = ["YEAR", "MONTH", "DAY", "UTH", "VORTICITY", "MLT", "CENTRE_MLAT"]
EXTRA = [k for keys in LINES for k in keys
         if k not in NEED and k not in ("GFLG", "MFLG")]


@st.composite
def cell(draw, hemi=None):
    """The three lines of a cell; the unused values follow one number."""
    seed = draw(st.integers(0, 10 ** 6))
    sign = draw(st.sampled_from([1, 1, -1]) if hemi is None else
                st.sampled_from([hemi] * 7 + [-hemi, 0]))
    lines = [[draw(st.integers(0, 15)) for _ in range(4)]
             + ["{:.1f}".format((seed % 9999) / 1.3),
                "{:.7f}".format(draw(st.integers(-10 ** 6, 10 ** 6)) * 1e-7),
                "{:.4f}".format(draw(st.integers(0, 239999)) * 1e-4)]]
    for row in (0, 1):
        vals = [str(row)]
        for i in range(5):
            seed = (seed * 48271 + 11) % (2 ** 31 - 1)
            vals.append("{:.3f}".format(seed % 89000 / 1000.0))
            vals.append("{:.3f}".format(seed % 359000 / 1000.0 - 180.0))
        lines.append(vals)
    lat = "{:.3f}".format(draw(st.integers(50000, 89000)) / 1000.0)
    lines[2][1] = {1: lat, -1: "-" + lat, 0: "0.000"}[sign]
    return [[str(v) for v in line] for line in lines]


@st.composite
def block(draw, time, hemi=None, lo=0):
    """Cells at a time; the hour of day is written with some digits."""
    return {"time": time, "digits": draw(st.sampled_from([3, 4, 6, 9, 17])),
            "cells": draw(st.lists(cell(hemi), min_size=lo, max_size=3))}


FORM = {"head": st.lists(st.sampled_from(["# a b", "#", "# 1 2 3 4", "# 5"]),
                         max_size=2), "eol": st.booleans(),
        "gap": st.sampled_from([" ", "   ", "\t"]), "save": st.booleans()}


def hour_of(blk):
    time = gen.to_dt(blk["time"])
    hour = (time - dt.datetime(*time.timetuple()[:3])).total_seconds() / 3600.0
    if blk["digits"] == 17:
        return repr(hour)
    return "{:.{}f}".format(hour, blk["digits"])


def block_time(blk):
    """The time of a block to the second, and whether it is exact."""
    day = dt.datetime(*gen.to_dt(blk["time"]).timetuple()[:3])
    sec = float(hour_of(blk)) * 3600.0
    return day + dt.timedelta(seconds=round(sec)), abs(sec - round(sec)) < 0.01


def write(case, path):
    lines = list(case["head"])
    for blk in case["blocks"]:
        time = gen.to_dt(blk["time"])
        lines.append(case["gap"].join(["{:d}".format(v) for v in
                                       time.timetuple()[:3]] + [hour_of(blk)]))
        lines.append("{:d}".format(len(blk["cells"])))
        for rows in blk["cells"]:
            lines.extend(case["gap"].join(row) for row in rows)
    with open(path, "w") as fout:
        fout.write("\n".join(lines) + (
            "\n" if case["eol"] and lines else ""))
    return lines


def rows_of(case):
    out = []
    for blk in case["blocks"]:
        time, exact = block_time(blk)
        day = gen.to_dt(blk["time"])
        for rows in blk["cells"]:
            row = {"time": time, "exact": exact, "YEAR": day.year,
                   "MONTH": day.month, "DAY": day.day,
                   "UTH": float(hour_of(blk))}
            for keys, vals in zip(LINES, rows):
                row.update({k: float(v) for k, v in zip(keys, vals)})
            out.append(row)
    return out


# -------------------------------------------------------------------- loading
@st.composite
def load_case(draw):
    out = {key: draw(strat) for key, strat in FORM.items()}
    count = draw(st.integers(0, 4))
    times = sorted(draw(gen.datetimes()) for _ in range(count))
    out["blocks"] = [draw(block(t)) for t in times]
    out["kind"] = draw(st.sampled_from(
        ["file"] * 12 + ["missing", "empty", "noise", "noise", "noise"]))
    out["at"] = draw(st.integers(0, 100))
    out["how"] = draw(st.sampled_from(["drop", "add", "cut"]))
    return out


def load_check(case, ctx):
    path = ctx.path("vort_" + case["kind"] + ".txt")
    lines = write(case, path)
    where = " for file\n" + "\n".join(lines)
    rows = rows_of(case)
    if case["kind"] in ("missing", "empty"):
        if case["kind"] == "missing":
            os.remove(path)
        else:
            with open(path, "w"):
                pass
        require(vort.load_vorticity_ascii_data(path, case["save"]) is None,
                "data from a {} file", case["kind"])
        ctx.tag(case["kind"])
        return
    if case["kind"] == "noise":
        noise_check(case, lines, path, ctx)
        return
    out = vort.load_vorticity_ascii_data(path, save_all=case["save"])
    if not rows:
        require(out is None, "data {} without cells", out)
        return
    require(out is not None, "no data" + where.replace("{", "("))
    names = NEED + ["DATETIME"] + (EXTRA if case["save"] else [])
    require(sorted(out) == sorted(names), "data names {}{}", sorted(out), where)
    for key in names:
        require(len(out[key]) == len(rows), "{} values of {} for {} cells{}",
                len(out[key]), key, len(rows), where)
        for i, row in enumerate(rows):
            if key == "DATETIME":
                diff = abs((out[key][i] - row["time"]).total_seconds())
                require(diff <= (0.0 if row["exact"] else 1.0), "time {} "
                        "instead of {} for cell {}{}", out[key][i],
                        row["time"], i, where)
            else:
                require(out[key][i] == row[key], "{} {} instead of {} for "
                        "cell {}{}", key, out[key][i], row[key], i, where)
    ctx.nontrivial(len(rows) > 1)
    ctx.tag("block without cells", any(not b["cells"] for b in case["blocks"]))
    ctx.tag("all values", case["save"])
    ctx.tag("header", len(case["head"]) > 0)


def noise_check(case, lines, path, ctx):
    """A line with a wrong number of values is refused, not shifted."""
    nhead = len(case["head"])
    if len(lines) == nhead:
        return
    at = nhead + case["at"] % (len(lines) - nhead)
    vals = lines[at].split()
    if case["how"] == "add" or len(vals) == 1:
        vals.append("1")
    elif case["how"] == "drop":
        vals.pop()
    else:
        vals = vals[:1]
    lines[at] = " ".join(vals)
    with open(path, "w") as fout:
        fout.write("\n".join(lines))
    try:
        out = vort.load_vorticity_ascii_data(path, save_all=case["save"])
    except IOError:
        ctx.tag("damaged line refused")
        ctx.nontrivial()
        return
    require(False, "line {} accepted: {} from\n{}", at + 1, out,
            "\n".join(lines))


# ----------------------------------------------------------------- conversion
@st.composite
def conv_case(draw):
    out = {key: draw(strat) for key, strat in FORM.items()}
    src = draw(conv.source())
    times = draw(conv.data_times(src))
    if src["file"] and src["asked"] == 0:
        out["blocks"] = [draw(block(t, lo=1)) for t in times]
        for blk in out["blocks"]:
            for rows in blk["cells"]:
                rows[2][1] = rows[2][1].lstrip("-")
                if src["hemi"] < 0:
                    rows[2][1] = "-" + rows[2][1]
        if draw(st.booleans()) and len(out["blocks"][0]["cells"]) > 1:
            out["blocks"][0]["cells"][0][2][1] = "0.000"
    else:
        out["blocks"] = [draw(block(t, src["hemi"], lo=1 if i == 0 else 0))
                         for i, t in enumerate(times)]
    for blk in out["blocks"]:
        # Whole seconds, so that the matching is known
        blk["digits"] = max(blk["digits"], 6)
    out["src"] = src
    return out


def expected(case, ctx):
    """(row, [(lat, MLT, vorticity, as-is vorticity) per possible record])."""
    src = case["src"]
    hemi = src["hemi"] * (src["asked"] or 1)
    rows = [r for r in rows_of(case) if np.sign(r["CENTRE_MLAT"]) == hemi]
    fresh = conv.make(src, ctx)
    func = conv.scale_func(src)
    bound = src["bound"]["ocb"] if src["kind"] == "dual" else src["bound"]
    ref = 74.0 if src["file"] else abs(bound["ref"])
    want = []
    for row in rows:
        vals = []
        for ind in conv.matches(src, row["time"]):
            fresh.rec_ind = ind
            res = [float(v) for v in fresh.normal_coord(row["CENTRE_MLAT"],
                                                        row["MLT"])]
            opts = []
            for rec in (ind + src["extra"], ind):
                rad = bound["recs"][rec]["r"] + res[-1]
                opts.append(row["VORTICITY"] if func is None else func(
                    row["VORTICITY"], rad, 90.0 - ref))
            vals.append(res[:2] + opts)
        if vals:
            want.append((row, vals))
    return want, hemi, len(rows)


def conv_check(case, ctx):
    src = case["src"]
    path, outfile = ctx.path("vort.txt"), ctx.path("out.txt")
    lines = write(case, path)
    if os.path.exists(outfile):
        os.remove(outfile)
    want, hemi, nrow = expected(case, ctx)
    if src["file"] and hemi != src["hemi"]:
        return
    kwargs = conv.arguments(src, ctx)
    if src["asked"]:
        kwargs["hemisphere"] = hemi
    if case["save"]:
        kwargs["save_all"] = True
    vort.vort2ascii_ocb(path, outfile, **kwargs)
    where = " for {} and file\n{}".format(src, "\n".join(lines))
    got, names = [], None
    if os.path.exists(outfile):
        with open(outfile) as fin:
            got = fin.read().splitlines()
        require(len(got) > 0, "empty output{}", where)
        names = got.pop(0).lstrip("#").split()
        expect = ["DATE", "TIME", "OCB_LAT", "OCB_MLT", "NORM_VORT"] + (
            NEED + EXTRA if case["save"] else [])
        require(sorted(names) == sorted(expect), "header {}{}", names, where)
    require(len(got) == len(want), "{} lines instead of {}: {}{}", len(got),
            len(want), got, where)
    known = None
    for line, (row, vals) in zip(got, want):
        require(len(line.split()) == len(names), "line {!r}{}", line, where)
        item = dict(zip(names, line.split()))
        require(item["DATE"] + " " + item["TIME"] == str(row["time"]),
                "line {!r} for {}{}", line, row, where)
        for key in NEED + EXTRA if case["save"] else []:
            require(float(item[key]) == row[key], "{} {} instead of {}{}", key,
                    item[key], row[key], where)
        place = [v for v in vals if conv.near(item["OCB_LAT"], v[0], 2) and (
            conv.near(item["OCB_MLT"], v[1], 6) or gen.ang_diff(
                float(item["OCB_MLT"]), v[1], 24.0) < 1.0e-6)]
        require(len(place) > 0, "location {} {} instead of one of {} in "
                "{!r}{}", item["OCB_LAT"], item["OCB_MLT"], vals, line, where)
        if any(conv.near(item["NORM_VORT"], v[2], 6) for v in place):
            continue
        require(src["extra"] > 0 and any(
            conv.near(item["NORM_VORT"], v[3], 6) for v in place),
            "vorticity {} instead of one of {} in {!r}{}", item["NORM_VORT"],
            place, line, where)
        known = line
    if known is not None:
        ctx.known("dual-index", known + where)
    ctx.nontrivial(len(want) > 0)
    ctx.tag(src["kind"])
    ctx.tag("given as a file", src["file"])
    ctx.tag("object used before", src["start"] >= 0 and not src["file"])
    ctx.tag("some data not matched", len(want) < nrow)
    ctx.tag("south", hemi < 0)
    ctx.tag("undefined location", any(math.isnan(v[0][0]) for _, v in want))
    ctx.tag("several boundaries", len({conv.matches(src, r["time"])[0]
                                       for r, _ in want}) > 1)


# ------------------------------------------------------------ refused requests
refuse_case = st.fixed_dictionaries({
    "kind": st.sampled_from(["mixed", "missing", "empty", "name", "bare"]),
    "cells": st.lists(cell(1), min_size=2, max_size=3)})


def refuse_check(case, ctx):
    path, kind = ctx.path("ref_" + case["kind"] + ".txt"), case["kind"]
    outfile = ctx.path("ref_out.txt")
    if os.path.exists(outfile):
        os.remove(outfile)
    for i, rows in enumerate(case["cells"]):
        rows[2][1] = "-65.5" if i == 0 else "77.25"
    write({"head": [], "gap": " ", "eol": True, "blocks": [
        {"time": gen.T0.isoformat(), "digits": 3,
         "cells": [] if kind == "bare" else case["cells"]}]}, path)
    if kind == "missing":
        os.remove(path)
    elif kind == "empty":
        with open(path, "w"):
            pass
    exc = ValueError if kind in ("mixed", "bare") else IOError
    try:
        vort.vort2ascii_ocb(path, 1 if kind == "name" else outfile)
    except exc:
        require(not os.path.exists(outfile), "output for a {} request", kind)
        ctx.nontrivial()
        ctx.tag(kind)
        return
    require(False, "{} request accepted", kind)


PROBE = {
    "head": [], "eol": True, "gap": " ", "save": False, "blocks": [
        {"time": "2005-03-04T12:00:00", "digits": 9, "cells": [
            [["1", "2", "3", "4", "5000.0", "0.0100000", "3.5000"],
             ["0"] + ["60.0", "10.0"] * 5, ["1"] + ["75.0", "12.0"] * 5]]}],
    "src": {"kind": "dual", "start": -1, "extra": 1, "hemi": 1, "nrec": 1,
            "tol": 60, "scale": "default", "asked": 1, "file": False,
            "times": ["2005-03-04T12:00:00"], "bound": {
                "hemi": 1, "give": "objects", "ocb": {
                    "cls": "OCB", "hemi": 1, "fmt": "image", "ref": 74.0,
                    "mode": "default", "spec": None, "recs": [
                        {"phi": 0.0, "rc": 1.0, "r": 10.0, "fom": 1.0,
                         "time": "2005-03-04T11:50:00"},
                        {"phi": 0.0, "rc": 1.0, "r": 16.0, "fom": 1.0,
                         "time": "2005-03-04T12:00:00"}]},
                "eab": {"cls": "EAB", "hemi": 1, "fmt": "image", "ref": 64.0,
                        "mode": "default", "spec": None, "recs": [
                            {"phi": 0.0, "rc": 1.0, "r": 24.0, "fom": 1.0,
                             "time": "2005-03-04T12:00:00"}]}}}}

TARGETS = [
    Target("load", load_case(), load_check, 900,
           rule="more than one cell, or a damaged line"),
    Target("convert", conv_case(), conv_check, 1500, examples=[PROBE],
           rule="at least one line to be written"),
    Target("refused", refuse_case, refuse_check, 40, rule="every case"),
]
