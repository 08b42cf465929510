"""P19: SuperMAG data load and convert to boundary coordinates faithfully.

Oracle: the generated station table, brute-force matching to the nearest good boundary record, and the library's own single-location vector conversion for that record on a fresh boundary object.
"""
import datetime as dt
import math
import os

import numpy as np
from hypothesis import strategies as st
from ocbpy import ocb_scaling
from ocbpy.instruments import supermag

from lib import conv, gen
from lib.vlib import Target, require

ASSUMPTIONS = [
    "data sorted by time, boundary times strictly increasing",
    "the vector conversion itself is judged by P16, here against the same "
    "routine for one location at a time"]
FILL = 999999
COLS = ["BN", "BE", "BZ", "MLT", "MLAT", "DEC", "SZA"]
RULE = {"=": "=" * 41, "long": "=" * 80}


def value(lo, hi, fill=True):
    """A number with up to three decimals as written in the file, or fill."""
    def text(num):
        if fill and num % 31 == 30:
            return "999999" if num % 2 else "999999.0"
        if num % 5 == 4:
            return "{:d}".format(round(num / 1000.0))
        return "{:.3f}".format(num / 1000.0)
    return st.integers(int(lo * 1000), int(hi * 1000)).map(text)


@st.composite
def station(draw, hemi=None):
    lat = value(50.0, 89.0, fill=False)
    if hemi is None:
        sign = draw(st.sampled_from([1, 1, -1]))
    else:
        sign = draw(st.sampled_from([hemi] * 5 + [-hemi, 0]))
    mlat = draw(lat) if sign else "0.00"
    if sign < 0:
        mlat = "-" + mlat
    if draw(st.integers(0, 19)) == 0:
        mlat = str(FILL)
    return {"STID": draw(st.sampled_from(
        ["ALE", "THL", "T01", "B23", "SPA", "C1", "GDH9"])),
        "vals": [draw(value(-999.0, 999.0)) for _ in range(3)] + [
            draw(value(0.0, 23.9)), mlat, draw(value(-99.0, 99.0)),
            draw(value(0.0, 180.0))]}


@st.composite
def block(draw, time, hemi=None, empty=True):
    return {"time": time, "stations": draw(st.lists(
        station(hemi), min_size=0 if empty else 1, max_size=4)),
        "SML": draw(st.one_of(st.none(), st.integers(-999, 999))),
        "SMU": draw(st.one_of(st.none(), st.integers(-999, 999)))}


def write(case, path):
    """Blocks as a SuperMAG ASCII file."""
    lines = list(case["head"]) + [RULE[case["rule"]]]
    for blk in case["blocks"]:
        time = gen.to_dt(blk["time"])
        lines.append(case["sep"].join("{:d}".format(v) for v in list(
            time.timetuple()[:6]) + [len(blk["stations"])]))
        keys = ["SML", "SMU"] if case["swap"] else ["SMU", "SML"]
        for key in keys:
            if blk[key] is not None:
                lines.append("{:s} {:d}".format(key, blk[key]))
        for stat in blk["stations"]:
            lines.append(case["sep"].join([stat["STID"]] + stat["vals"]))
    with open(path, "w") as fout:
        fout.write("\n".join(lines) + ("\n" if case["eol"] else ""))
    return lines


def rows_of(case):
    """One entry per station and time, with fill values as NaN."""
    out = []
    for blk in case["blocks"]:
        for stat in blk["stations"]:
            row = {"time": gen.to_dt(blk["time"]), "STID": stat["STID"],
                   "NST": len(blk["stations"])}
            for key in ("SML", "SMU"):
                row[key] = FILL if blk[key] is None else blk[key]
            for key, text in zip(COLS, stat["vals"]):
                val = float(text)
                row[key] = math.nan if val == FILL else val
            out.append(row)
    return out


FORM = {"head": st.lists(st.text("ab <>*=, ", max_size=30).map(
    lambda s: s if s.count("=") < 40 else "x"), max_size=4),
    "rule": st.sampled_from(sorted(RULE)), "sep": st.sampled_from(["\t", " "]),
    "swap": st.booleans(), "eol": st.booleans()}


# -------------------------------------------------------------------- loading
@st.composite
def load_case(draw):
    out = {key: draw(strat) for key, strat in FORM.items()}
    count = draw(st.integers(0, 5))
    times = sorted(draw(gen.datetimes()) for _ in range(count))
    out["blocks"] = [draw(block(t)) for t in times]
    out["kind"] = draw(st.sampled_from(["file"] * 9 + ["norule", "missing",
                                                       "empty"]))
    return out


def load_check(case, ctx):
    path = ctx.path("smag_" + case["kind"] + ".txt")
    lines = write(case, path)
    if case["kind"] == "norule":
        with open(path, "w") as fout:
            fout.write("\n".join(["no rule"] + case["head"]))
    elif case["kind"] == "missing":
        os.remove(path)
    elif case["kind"] == "empty":
        with open(path, "w"):
            pass
    head, out = supermag.load_supermag_ascii_data(path)
    if case["kind"] != "file":
        require(out == {}, "data from a {} file: {}", case["kind"], out)
        ctx.tag(case["kind"])
        return
    where = " for file\n" + "\n".join(lines)
    nhead = len(case["head"]) + 1
    require([str(h).rstrip("\n") for h in head] == lines[:nhead],
            "header {}" + where.replace("{", "(").replace("}", ")"), head)
    rows = rows_of(case)
    for key, vals in out.items():
        require(len(vals) == len(rows), "{} entries of {} in {}{}",
                len(vals), len(rows), key, where)
    parts = ["YEAR", "MONTH", "DAY", "HOUR", "MIN", "SEC"]
    for i, row in enumerate(rows):
        require(out["DATETIME"][i] == row["time"] and [
            int(out[k][i]) for k in parts] == list(row["time"].timetuple()[:6]),
            "time {} instead of {} in entry {}{}", out["DATETIME"][i],
            row["time"], i, where)
        for key in COLS:
            have, want = float(out[key][i]), row[key]
            require(have == want or (math.isnan(have) and math.isnan(want)),
                    "{} {} instead of {} in entry {}{}", key, have, want, i,
                    where)
        for key in ("STID", "NST", "SML", "SMU"):
            require(out[key][i] == row[key], "{} {} instead of {} in entry "
                    "{}{}", key, out[key][i], row[key], i, where)
    ctx.nontrivial(len(rows) > 1)
    ctx.tag("time without stations", any(
        not b["stations"] for b in case["blocks"]))
    ctx.tag("fill values", any(math.isnan(r[k]) for r in rows for k in COLS))
    ctx.tag("index missing", any(r["SML"] == FILL for r in rows))


# ----------------------------------------------------------------- conversion
@st.composite
def conv_case(draw):
    out = {key: draw(strat) for key, strat in FORM.items()}
    src = draw(conv.source())
    times = draw(conv.data_times(src))
    hemi = src["hemi"]
    if src["file"] and src["asked"] == 0:
        # The hemisphere comes from the data
        out["blocks"] = [draw(block(t, empty=False)) for t in times]
        for blk in out["blocks"]:
            for stat in blk["stations"]:
                stat["vals"][4] = stat["vals"][4].lstrip("-")
                if hemi < 0 and stat["vals"][4] != str(FILL):
                    stat["vals"][4] = "-" + stat["vals"][4]
        stat = out["blocks"][0]["stations"][0]
        if stat["vals"][4] == str(FILL) or float(stat["vals"][4]) == 0.0:
            stat["vals"][4] = "{:d}".format(hemi * 70)
        if draw(st.booleans()):
            # A station at the equator does not decide
            out["blocks"][-1]["stations"].append(draw(station(hemi)))
            out["blocks"][-1]["stations"][-1]["vals"][4] = "0.00"
    else:
        out["blocks"] = [draw(block(t, hemi, i > 0)) for i, t in enumerate(
            times)]
        out["blocks"][0]["stations"] = out["blocks"][0]["stations"] or [
            draw(station(hemi))]
    out["src"] = src
    return out


NAMES = ["DATE", "TIME", "NST", "STID", "SML", "SMU", "SZA", "MLAT", "MLT",
         "BMAG", "BN", "BE", "BZ", "OCB_MLAT", "OCB_MLT", "OCB_BMAG", "OCB_BN",
         "OCB_BE", "OCB_BZ"]


def expected(case, ctx):
    """The lines to be written, as (row, [values per possible record])."""
    src = case["src"]
    hemi = src["hemi"] * (src["asked"] or 1)
    rows = [r for r in rows_of(case) if all(
        math.isfinite(r[k]) for k in ("BN", "BE", "BZ", "MLT", "MLAT"))
        and np.sign(r["MLAT"]) == hemi]
    fresh = conv.make(src, ctx)
    func = conv.scale_func(src)
    want = []
    for row in rows:
        found = conv.matches(src, row["time"])
        if not found:
            continue
        count = sum(r["time"] == row["time"] for r in rows)
        vals = []
        for ind in found:
            vdat = ocb_scaling.VectorData(
                0, ind, row["MLAT"], row["MLT"], vect_n=row["BN"],
                vect_e=row["BE"], vect_z=row["BZ"], scale_func=func)
            fresh.rec_ind = ind
            vdat.set_ocb(fresh)
            vals.append([float(v) for v in (
                vdat.ocb_lat, vdat.ocb_mlt, vdat.ocb_mag, vdat.ocb_n,
                vdat.ocb_e, vdat.ocb_z)])
        want.append((row, count, vals))
    return want, hemi


def conv_check(case, ctx):
    src = case["src"]
    path, outfile = ctx.path("smag.txt"), ctx.path("out.txt")
    lines = write(case, path)
    if os.path.exists(outfile):
        os.remove(outfile)
    want, hemi = expected(case, ctx)
    if src["file"] and hemi != src["hemi"]:
        return
    kwargs = conv.arguments(src, ctx)
    if src["asked"]:
        kwargs["hemisphere"] = hemi
    supermag.supermag2ascii_ocb(path, outfile, **kwargs)
    where = " for {} and file\n{}".format(
        {k: v for k, v in src.items()}, "\n".join(lines))
    got = []
    if os.path.exists(outfile):
        with open(outfile) as fin:
            got = fin.read().splitlines()
        require(got and got[0].lstrip("#").split() == NAMES, "header {}{}",
                got[:1], where)
        got = got[1:]
    require(len(got) == len(want), "{} lines instead of {}: {}{}", len(got),
            len(want), got, where)
    for line, (row, count, vals) in zip(got, want):
        item = dict(zip(NAMES, line.split()))
        require(len(item) == len(NAMES) == len(line.split()), "line {!r}{}",
                line, where)
        require(item["DATE"] + " " + item["TIME"] == str(row["time"])
                and item["STID"] == row["STID"] and int(item["NST"]) == count
                and int(item["SML"]) == row["SML"]
                and int(item["SMU"]) == row["SMU"], "line {!r} for {}{}", line,
                row, where)
        mag = math.sqrt(sum(row[k] ** 2 for k in ("BN", "BE", "BZ")))
        for key in ("SZA", "MLAT", "MLT", "BN", "BE", "BZ", "BMAG"):
            val = mag if key == "BMAG" else row[key]
            require(conv.near(item[key], val, 2), "{} {} instead of {} in "
                    "{!r}{}", key, item[key], val, line, where)
        names = NAMES[13:]
        good = any(all(conv.near(item[k], v, 2) or (
            k == "OCB_MLT" and gen.ang_diff(float(item[k]), v, 24.0) < 0.0051)
            for k, v in zip(names, opt)) for opt in vals)
        require(good, "boundary values {} instead of one of {} in {!r}{}",
                [item[k] for k in names], vals, line, where)
    ctx.nontrivial(len(want) > 0)
    ctx.tag(src["kind"])
    ctx.tag("given as a file", src["file"])
    ctx.tag("object used before", src["start"] >= 0 and not src["file"])
    ctx.tag("some data not matched", len(want) < len(rows_of(case)))
    ctx.tag("south", hemi < 0)
    lats = [r["MLAT"] for r in rows_of(case)]
    ctx.tag("hemisphere from southern data up to the equator",
            src["file"] and not src["asked"] and max(lats) == 0.0)
    ctx.tag("several boundaries", len({conv.matches(src, r["time"])[0]
                                       for r, _, _ in want}) > 1)


# ------------------------------------------------------------ refused requests
refuse_case = st.fixed_dictionaries({
    "kind": st.sampled_from(["mixed", "missing", "empty", "name"]),
    "lats": st.lists(st.integers(50, 89), min_size=2, max_size=4)})


def refuse_check(case, ctx):
    path, kind = ctx.path("ref_" + case["kind"] + ".txt"), case["kind"]
    outfile = ctx.path("ref_out.txt")
    if os.path.exists(outfile):
        os.remove(outfile)
    stats = [{"STID": "ALE", "vals": ["1", "2", "3", "4", str(
        v if i else -v), "0", "0"]} for i, v in enumerate(case["lats"])]
    blocks = [{"time": (gen.T0 + dt.timedelta(minutes=i)).isoformat(),
               "stations": [s], "SML": 1, "SMU": 2}
              for i, s in enumerate(stats)]
    write({"head": ["x"], "rule": "=", "sep": " ", "swap": True, "eol": True,
           "blocks": blocks}, path)
    if kind == "missing":
        os.remove(path)
    elif kind == "empty":
        with open(path, "w"):
            pass
    exc = ValueError if kind == "mixed" else IOError
    try:
        supermag.supermag2ascii_ocb(path, 1 if kind == "name" else outfile)
    except exc:
        require(not os.path.exists(outfile), "output for a {} request", kind)
        ctx.nontrivial()
        ctx.tag(kind)
        return
    require(False, "{} request accepted", kind)


TARGETS = [
    Target("load", load_case(), load_check, 1000,
           rule="more than one entry in the file"),
    Target("convert", conv_case(), conv_check, 1500,
           rule="at least one line to be written"),
    Target("refused", refuse_case, refuse_check, 40, rule="every case"),
]
