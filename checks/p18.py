"""P18: ASCII data files are loaded column by column without loss.

Oracle: the generated table itself (header lines, column names, typed values and row times), written to a file in a generated layout and read back.
"""
import datetime as dt
import os
import string
from unittest import mock

import numpy as np
from hypothesis import strategies as st
from ocbpy.instruments import general

from lib import gen
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "complete tables with unique column names; one value per cell that does "
    "not hold the delimiter, the comment character or outer blanks",
    "times of whole seconds (SOD: to a microsecond), date parts listed "
    "before time-of-day parts, as the format requires"]

# Layouts of the time columns: format and the columns of one time
LAYOUTS = {
    "none": (None, None),
    "one": ("%Y-%m-%dT%H:%M:%S",
            lambda t: [t.strftime("%Y-%m-%dT%H:%M:%S")]),
    "two": ("%Y-%m-%d %H:%M:%S",
            lambda t: [t.strftime("%Y-%m-%d"), t.strftime("%H:%M:%S")]),
    "packed": ("%Y%m%d %H%M%S",
               lambda t: [t.strftime("%Y%m%d"), t.strftime("%H%M%S")]),
    "six": ("%Y %m %d %H %M %S",
            lambda t: ["{:d}".format(v) for v in t.timetuple()[:6]]),
    "four": ("%Y %m %d %H:%M",
             lambda t: ["{:02d}".format(v) for v in t.timetuple()[:3]]
             + [t.strftime("%H:%M")]),
    "doy": ("%Y %j %H:%M:%S",
            lambda t: [str(t.year), t.strftime("%j"), t.strftime("%H:%M:%S")]),
    "soy": ("YEAR SOY",
            lambda t: [str(t.year), "{:.0f}".format(
                (t - dt.datetime(t.year, 1, 1)).total_seconds())]),
    "soylow": ("year soy",
               lambda t: [str(t.year), "{:.0f}".format(
                   (t - dt.datetime(t.year, 1, 1)).total_seconds())]),
    "sod": ("%Y-%m-%d SOD",
            lambda t: [t.strftime("%Y-%m-%d"), repr(float(
                (t - dt.datetime(*t.timetuple()[:3])).total_seconds()))]),
    "yyddd": ("YYDDD SOD",
              lambda t: ["{:02d}{:s}".format(t.year - 1900, t.strftime("%j")),
                         repr(float((t - dt.datetime(
                             *t.timetuple()[:3])).total_seconds()))]),
    "date": ("%Y-%m-%d", lambda t: [t.strftime("%Y-%m-%d")]),
}
# Precision of the layout, and the columns that may be asked for as integers
KEEP = {"date": "day", "four": "minute", "sod": "micro", "yyddd": "micro"}
INTS = {"six": [0, 1, 2, 3, 4, 5], "packed": [0, 1], "four": [0, 1, 2],
        "doy": [0, 1], "soy": [0, 1], "soylow": [0, 1]}
NAMES = ["datetime", "DATETIME", "DT", "dt"]
WORD = string.ascii_letters + string.digits + "_-+.:/()"


@st.composite
def table_case(draw):
    layout = draw(st.sampled_from(sorted(LAYOUTS)))
    ncol = draw(st.integers(1 if layout == "none" else 0, 6))
    nrow = draw(st.sampled_from([0, 1, 1, 2, 3, 5, 9]))
    kinds = [draw(st.sampled_from("fffiis")) for _ in range(ncol)]
    delim = draw(st.sampled_from([None, None, None, ",", ";", "\t"]))
    comment = draw(st.sampled_from([None, None, "#", "%", "!"]))
    hide = {comment or "#", delim}
    text = st.text("".join(c for c in WORD if c not in hide), min_size=1,
                   max_size=60 if draw(st.integers(0, 3)) == 0 else 8)
    if delim is not None and delim != "\t":
        text = st.one_of(text, st.tuples(text, text).map(" ".join))
    cell = {"f": st.one_of(fl(-1.0e5, 1.0e5, special=[0]),
                           st.floats(allow_nan=False, width=64).map(float),
                           st.none()),
            "i": st.integers(-10 ** 9, 10 ** 9), "s": text}
    rows = [[draw(cell[k]) for k in kinds] for _ in range(nrow)]
    lo, hi = dt.datetime(1971, 1, 1), dt.datetime(2049, 12, 31, 23, 59, 59)
    if layout == "yyddd":
        lo = dt.datetime(1970, 1, 1)
    times = [gen.to_dt(draw(gen.datetimes(lo, hi))) for _ in range(nrow)]
    keep = KEEP.get(layout, "second")
    if keep == "micro":
        times = [t.replace(microsecond=draw(st.sampled_from(
            [0, 500000, 250000, 123456]))) for t in times]
    elif keep == "day":
        times = [t.replace(hour=0, minute=0, second=0) for t in times]
    elif keep == "minute":
        times = [t.replace(second=0) for t in times]
    ntime = 0 if layout == "none" else len(LAYOUTS[layout][1](lo))
    names = draw(st.lists(st.one_of(
        st.text(string.ascii_letters + "_123", min_size=1, max_size=8),
        st.sampled_from(NAMES + ["YEAR", "B_N"])), unique=True,
        min_size=ncol + ntime, max_size=ncol + ntime))
    order = draw(st.permutations(list(range(ncol + ntime))))
    junk = st.text(string.ascii_letters + "=# %,;-", max_size=12)
    nhead = draw(st.sampled_from([1, 1, 2, 3]))
    given_header = draw(st.integers(0, 3)) == 0
    if given_header:
        nhead = draw(st.sampled_from([0, 0, 1, 3]))
    return {"layout": layout, "kinds": kinds, "rows": rows,
            "times": [t.isoformat() for t in times], "names": names,
            "order": order, "delim": delim, "comment": comment,
            "head": [draw(junk) for _ in range(nhead)],
            "given": draw(st.lists(junk, max_size=2)) if given_header else None,
            "lead": draw(st.sampled_from(["", "", "#", "# ", "c"])),
            "noise": draw(st.lists(st.sampled_from(
                ["", "", "", "blank", "full", "tail"]), min_size=1,
                max_size=5)),
            "timeint": draw(st.integers(0, 2)) == 0,
            "maxlen": draw(st.sampled_from([None, None, None, 4, 12, 80])),
            "negative": draw(st.booleans()), "eol": draw(st.booleans()),
            "split": draw(st.booleans()),
            "pad": draw(st.sampled_from([" ", "  ", " \t"]))}


def cell_text(val):
    if isinstance(val, str):
        return val
    if val is None:
        return "nan"
    return repr(val)


def table_check(case, ctx):
    fmt, make = LAYOUTS[case["layout"]]
    comment = case["comment"] or "#"
    delim = case["delim"]
    times = [gen.to_dt(t) for t in case["times"]]
    ncol, order = len(case["kinds"]), case["order"]
    where = {col: place for place, col in enumerate(order)}
    sep = case["pad"] if delim is None else delim

    # Write the file
    total = len(order)
    nameline = sep.join(case["names"])
    lead = comment if case["lead"] == "c" else case["lead"]
    lines = list(case["head"])
    if case["given"] is None:
        lines[-1] = lead + nameline
        header = None
    else:
        header = case["given"] + [lead + nameline]
    expect_head = ([] if header is None else list(header)) + [
        line.strip() for line in lines]
    filled = []
    for num, (row, time) in enumerate(zip(case["rows"], times)):
        cells = [cell_text(v) for v in row] + ([] if make is None
                                               else make(time))
        filled.append([cells[col] for col in order])
        noise = case["noise"][num % len(case["noise"])]
        if noise == "blank":
            lines.append("")
        elif noise == "full":
            lines.append(comment + " 1 2 3")
        line = sep.join(filled[-1])
        if noise == "tail" and delim is None:
            line += " " + comment + " 4 5"
        lines.append(line)
    if total == 1 and delim is not None:
        ctx.tag("delimiter without neighbours")
    path = ctx.path("table.txt")
    with open(path, "w") as fout:
        fout.write("\n".join(lines) + ("\n" if case["eol"] else ""))

    if os.path.getsize(path) == 0:
        ctx.tag("empty file")
        return

    # Load it
    gft = {}
    if case["comment"] is not None:
        gft["comments"] = case["comment"]
    if delim is not None:
        gft["delimiter"] = delim
    ints = [where[i] for i, k in enumerate(case["kinds"]) if k == "i"]
    strs = [where[i] for i, k in enumerate(case["kinds"]) if k == "s"]
    tcols = [where[ncol + i] for i in range(total - ncol)]
    asint = [tcols[i] for i in INTS.get(case["layout"], [])
             if case["timeint"]]
    if case["negative"]:
        ints = [i - total if i % 2 else i for i in ints]
        strs = [i - total for i in strs]
    kwargs = {"gft_kwargs": gft}
    if delim is not None or case["split"]:
        kwargs["hsplit"] = delim
    if ints or asint:
        kwargs["int_cols"] = ints + asint
    if strs:
        kwargs["str_cols"] = strs
    if fmt is not None:
        kwargs["datetime_cols"] = tcols
        kwargs["datetime_fmt"] = fmt
    if case["maxlen"] is not None:
        kwargs["max_str_length"] = case["maxlen"]
    if header is not None:
        kwargs["header"] = header
    before = repr(kwargs)
    out_head, out = general.load_ascii_data(
        path, len(case["head"]), **kwargs)
    require(repr(kwargs) == before, "arguments changed from {} to {}", before,
            kwargs)

    # Compare
    layout = "{} file {!r} loaded with {}".format(
        case["layout"], "\n".join(lines), before)
    require(list(out_head) == expect_head, "header {} instead of {} for {}",
            out_head, expect_head, layout)
    free = [n for n in NAMES if n not in case["names"]]
    want = [case["names"][i] for i in range(total)]
    tname = free[0] if fmt is not None and free else None
    if tname is not None:
        want = want + [tname]
    require(sorted(out) == sorted(want), "columns {} instead of {} for {}",
            sorted(out), sorted(want), layout)
    limit = 50 if case["maxlen"] is None else case["maxlen"]
    for place, col in enumerate(order):
        # The header names the columns in file order
        vals = out[case["names"][place]]
        require(len(vals) == len(times), "{} values of {} rows in column {} "
                "for {}", len(vals), len(times), place, layout)
        for row, (have, cells) in enumerate(zip(vals, filled)):
            text = cells[place]
            if col < ncol:
                raw, kind = case["rows"][row][col], case["kinds"][col]
                if kind == "s":
                    # Longer strings may be cut, at no less than the maximum
                    ok = isinstance(have, str) and (
                        have == raw or (len(raw) > limit and len(
                            have) >= limit and raw.startswith(have)))
                elif kind == "i":
                    ok = isinstance(have, (int, np.integer)) and have == raw
                else:
                    ok = isinstance(have, (float, np.floating)) and (
                        have == raw if raw is not None else have != have)
            else:
                ok = time_cell(have, text, place in asint)
            require(ok, "{!r} instead of {!r} in column {} row {} for {}",
                    have, text, place, row, layout)
    if tname is not None:
        got = list(out[tname])
        require(len(got) == len(times), "{} times of {} rows for {}",
                len(got), len(times), layout)
        for have, time in zip(got, times):
            require(isinstance(have, dt.datetime) and abs(
                have - time) <= dt.timedelta(microseconds=1), "time {!r} "
                "instead of {} for {}", have, time, layout)
    ctx.nontrivial(len(times) > 0)
    ctx.tag("layout " + case["layout"])
    ctx.tag("one row", len(times) == 1)
    ctx.tag("no rows", len(times) == 0)
    ctx.tag("delimiter " + repr(delim))
    ctx.tag("header given", header is not None)
    ctx.tag("all time names in use", fmt is not None and tname is None)


def time_cell(have, text, asint):
    """The columns that hold times keep their own value."""
    if isinstance(have, str):
        return have == text
    if isinstance(have, (int, np.integer)):
        return have == int(text)
    return have == float(text) and not asint


# ------------------------------------------------------------- unreadable files
bad_case = st.fixed_dictionaries({
    "kind": st.sampled_from(["missing", "directory", "empty", "big", "fine",
                             "nohead"]),
    "hlines": st.integers(0, 3), "given": st.lists(
        st.text("ab ", max_size=4), max_size=2),
    "size": st.sampled_from([2.1e9, 3.0e9, 1.0e12])})


def bad_check(case, ctx):
    path, kind = ctx.path("bad_" + case["kind"]), case["kind"]
    size = None
    if kind == "directory":
        os.makedirs(path, exist_ok=True)
    elif kind != "missing":
        with open(path, "w") as fout:
            fout.write("" if kind == "empty" else "1 2\n3 4\n")
        if kind == "big":
            size = int(case["size"])
    kwargs = {"header": list(case["given"])} if case["given"] else {}
    if kind in ("fine", "nohead"):
        require(general.test_file(path) is True, "readable file refused")
        ctx.tag("readable")
        if kind == "nohead":
            head, out = general.load_ascii_data(path, 0)
            require(list(head) == [] and out == {}, "{} and {} without a "
                    "header", head, out)
        ctx.nontrivial(kind == "nohead")
        return
    if size is None:
        flag = general.test_file(path)
        head, out = general.load_ascii_data(path, case["hlines"], **kwargs)
    else:
        # A stand-in for the size, so that no such file is needed
        real = os.stat(path)

        def stat_like(name, *args, **kws):
            return os.stat_result(tuple(real)[:6] + (size,) + tuple(real)[7:])
        with mock.patch("os.path.getsize", lambda name: size), \
                mock.patch("os.stat", stat_like):
            flag = general.test_file(path)
            head, out = general.load_ascii_data(path, case["hlines"], **kwargs)
    if flag is not False:
        fail("{} file accepted", kind)
    require(list(head) == case["given"] and out == {}, "{} and {} for a {} "
            "file", head, out, kind)
    ctx.nontrivial()
    ctx.tag(kind)


TARGETS = [
    Target("tables", table_case(), table_check, 6000,
           rule="at least one data row"),
    Target("unreadable", bad_case, bad_check, 120,
           rule="a file that cannot be used, or one without a header"),
]
