"""P13: time inputs are parsed to the right instant.

Oracle: the generated datetime itself (round trip through every accepted decomposition), and ValueError for input broken on purpose.
"""
import datetime as dt

import numpy as np
from hypothesis import strategies as st
from ocbpy import ocb_time

from lib import gen
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "times from 1950 to 2049 in the C locale",
    "fractional seconds of day are kept to within two microseconds",
    "characters after a complete time string (such as fractions of seconds) "
    "are ignored, as the library's tests require"]

LO, HI = dt.datetime(1950, 1, 1), dt.datetime(2049, 12, 31, 23, 59, 59)
DATE_FMTS = ["%Y-%m-%d", "%Y%m%d", "%d/%m/%Y", "%d %b %Y", "%B %d %Y", "%Y %j",
             "%Y-%j", "%y%m%d", "%j.%Y", "%a %d %b %Y", "%m-%d-%y", "%y %j",
             "%A, %d %B, %Y", "%Y %m %d", "%x"]
TIME_FMTS = ["%H:%M:%S", "%H%M%S", "%H-%M-%S", "%I:%M:%S %p", "%H %M %S",
             "%H:%M:%S.%f", "%S_%M_%H", "%X"]


@st.composite
def times(draw):
    """Instants, with plenty of year ends, leap days and day ends."""
    kind = draw(st.sampled_from(["any", "any", "any", "edge", "leap"]))
    if kind == "any":
        return draw(gen.datetimes(LO, HI))
    year = draw(st.one_of(st.integers(1950, 2049), st.integers(1950, 2049),
                          st.integers(2050, 2149)))
    if kind == "leap":
        year = draw(st.sampled_from([y for y in range(1952, 2149, 4)
                                     if y != 2100]))
        base = dt.datetime(year, 2, 28) + dt.timedelta(
            days=draw(st.integers(0, 2)))
    else:
        base = draw(st.sampled_from([dt.datetime(year, 1, 1),
                                     dt.datetime(year, 12, 31),
                                     dt.datetime(year, 12, 30)]))
    sec = draw(st.sampled_from([0, 1, 59, 60, 3599, 3600, 43200, 86399, 86340,
                                45296]))
    return (base + dt.timedelta(seconds=sec)).isoformat()


# ------------------------------------------------------------- seconds of year
@st.composite
def soy_case(draw):
    return {"time": draw(times()), "frac": draw(st.sampled_from(
        [0.0, 0.0, 0.25, -0.25, 0.49, -0.49, 0.001, -0.001])),
        "type": draw(st.sampled_from(["int", "float", "np.int64",
                                      "np.float64", "np.int32"]))}


def soy_check(case, ctx):
    want = gen.to_dt(case["time"])
    soy = (want - dt.datetime(want.year, 1, 1)).total_seconds()
    frac = case["frac"]
    if "int" in case["type"]:
        frac = 0.0
    kind = {"int": int, "float": float, "np.int64": np.int64,
            "np.float64": np.float64, "np.int32": np.int32}[case["type"]]
    year = np.int64(want.year) if case["type"] == "np.int64" else want.year
    val = kind(soy + frac)
    if soy + frac < -0.49:
        return
    for name, got in (
            ("year_soy_to_datetime", ocb_time.year_soy_to_datetime(year, val)),
            ("convert_time", ocb_time.convert_time(year=year, soy=val)),
            ("convert_time with other input", ocb_time.convert_time(
                year=year, soy=val, yyddd=None, date=None, tod=None,
                datetime_fmt="YEAR SOY"))):
        require(got == want, "{}({}, {!r}) gave {}, expected {}", name, year,
                val, got, want)
    ctx.nontrivial()
    ctx.tag("fraction", frac != 0.0)
    ctx.tag("last day of the year", (want.month, want.day) == (12, 31))
    ctx.tag("leap year", want.year % 4 == 0)


# -------------------------------------------------------- year and day of year
@st.composite
def yyddd_case(draw):
    return {"time": draw(times()),
            "tail": draw(st.sampled_from(["", "", ".0", ".75"])),
            "how": draw(st.sampled_from(["sod", "tod", "date"])),
            "late": draw(st.integers(0, 5)) == 0,
            "micro": draw(st.one_of(st.just(0), st.integers(0, 999999))),
            "stype": draw(st.sampled_from(["int", "float", "np"])),
            "sfmt": draw(st.sampled_from([None, "YYDDD SOD", "yyddd sod",
                                          "YYDDD", "%Y-%m-%d SOD"])),
            "tfmt": draw(st.sampled_from(TIME_FMTS)),
            "prefix": draw(st.sampled_from(["", "YYDDD ", "yyddd ",
                                            "%Y-%m-%d ", "default"]))}


def close_instants(got, want, micros=2):
    return abs((got - want).total_seconds()) <= micros * 1.0e-6


def yyddd_check(case, ctx):
    want = gen.to_dt(case["time"])
    midnight = want.replace(hour=0, minute=0, second=0)
    yyddd = "{:02d}{:03d}".format(want.year - 1900,
                                  want.timetuple().tm_yday) + case["tail"]
    got = ocb_time.yyddd_to_date(yyddd)
    require(got == midnight, "yyddd_to_date({!r}) gave {}, expected {}", yyddd,
            got, midnight)
    if case["how"] == "date":
        got = ocb_time.convert_time(yyddd=yyddd)
        require(got == midnight, "convert_time(yyddd={!r}) gave {}", yyddd,
                got)
    elif case["how"] == "sod":
        if case["late"]:
            # Counted on from the day before
            midnight -= dt.timedelta(days=1)
            yyddd = "{:02d}{:03d}".format(
                midnight.year - 1900, midnight.timetuple().tm_yday) + (
                    case["tail"])
        sod = (want - midnight).total_seconds()
        if case["stype"] == "int":
            sod = int(sod)
        else:
            want = want.replace(microsecond=case["micro"])
            sod = sod + case["micro"] * 1.0e-6
            sod = np.float64(sod) if case["stype"] == "np" else sod
        kw = {} if case["sfmt"] is None else {"datetime_fmt": case["sfmt"]}
        got = ocb_time.convert_time(yyddd=yyddd, sod=sod, **kw)
        require(close_instants(got, want), "convert_time(yyddd={!r}, "
                "sod={!r}, {}) gave {}, expected {}", yyddd, sod, kw, got,
                want)
        ctx.tag("fraction of a second", want.microsecond > 0)
    else:
        fmt = case["tfmt"]
        if case["prefix"] == "default":
            fmt, kw = "%H:%M:%S", {}
        else:
            kw = {"datetime_fmt": case["prefix"] + fmt}
        if "%f" in fmt:
            want = want.replace(microsecond=case["micro"])
        tod = want.strftime(fmt)
        got = ocb_time.convert_time(yyddd=yyddd, tod=tod, **kw)
        require(got == want, "convert_time(yyddd={!r}, tod={!r}, {}) gave {}, "
                "expected {}", yyddd, tod, kw, got, want)
        ctx.tag("prefix:" + case["prefix"])
    ctx.nontrivial()
    ctx.tag(case["how"])
    ctx.tag("two-digit year", want.year < 2000)


# ------------------------------------------------------- date and time strings
@st.composite
def text_case(draw):
    return {"time": draw(times()), "dfmt": draw(st.sampled_from(DATE_FMTS)),
            "tfmt": draw(st.sampled_from(TIME_FMTS)),
            "how": draw(st.sampled_from(["separate", "combined", "date",
                                         "sod", "default", "trailing"])),
            "sep": draw(st.sampled_from(["T", "/", "_", " ", ", "])),
            "micro": draw(st.one_of(st.just(0), st.integers(0, 999999))),
            "extra": draw(st.sampled_from(["", " %H:%M:%S", " SOD", " sod"])),
            "tail": draw(st.sampled_from([".5", ".000001", "Z", ".999999",
                                          "UT"]))}


def text_check(case, ctx):
    want = gen.to_dt(case["time"])
    dfmt, tfmt = case["dfmt"], case["tfmt"]
    if ("%y" in dfmt or "%x" in dfmt) and not (
            1969 <= want.year <= 2068):
        want = want.replace(year=2000)
    how, kw = case["how"], {}
    if how == "default":
        date, tod = str(want).split(" ")
        got = ocb_time.convert_time(date=date, tod=tod)
        require(got == want, "convert_time(date={!r}, tod={!r}) gave {}", date,
                tod, got)
        got = ocb_time.convert_time(date=str(want))
        require(got == want, "convert_time(date={!r}) gave {}", str(want), got)
        want = want.replace(hour=0, minute=0, second=0)
        got = ocb_time.convert_time(date=date)
        require(got == want, "convert_time(date={!r}) gave {}", date, got)
    elif how == "separate":
        if "%f" in tfmt:
            want = want.replace(microsecond=case["micro"])
        kw = {"date": want.strftime(dfmt), "tod": want.strftime(tfmt),
              "datetime_fmt": dfmt + " " + tfmt}
    elif how == "trailing":
        kw = {"date": want.strftime(dfmt),
              "tod": want.strftime("%H:%M:%S") + case["tail"],
              "datetime_fmt": dfmt + " %H:%M:%S"}
    elif how == "combined":
        if "%f" in tfmt:
            want = want.replace(microsecond=case["micro"])
        fmt = dfmt + case["sep"] + tfmt
        kw = {"date": want.strftime(fmt), "datetime_fmt": fmt}
    else:
        midnight = want.replace(hour=0, minute=0, second=0)
        kw = {"date": midnight.strftime(dfmt),
              "datetime_fmt": dfmt + case["extra"]}
        if how == "sod":
            want = want.replace(microsecond=case["micro"])
            kw["sod"] = (want - midnight).total_seconds()
        else:
            want = midnight
    if kw:
        got = ocb_time.convert_time(**kw)
        require(close_instants(got, want, 2 if how == "sod" else 0),
                "convert_time({}) gave {}, expected {}", kw, got, want)
    ctx.nontrivial()
    ctx.tag(how)
    ctx.tag("day of year", "%j" in dfmt)
    ctx.tag("leap day", (want.month, want.day) == (2, 29))


# --------------------------------------------------------------- hours of day
@st.composite
def hour_case(draw):
    return {"time": draw(times()), "micro": draw(st.one_of(
        st.just(0), st.sampled_from([1, 500000, 999999]),
        st.integers(0, 999999)))}


def hour_check(case, ctx):
    when = gen.to_dt(case["time"]).replace(microsecond=case["micro"])
    uth = ocb_time.datetime2hr(when)
    midnight = when.replace(hour=0, minute=0, second=0, microsecond=0)
    require(0.0 <= uth < 24.0, "datetime2hr({}) is {}", when, uth)
    back = midnight + dt.timedelta(microseconds=round(uth * 3.6e9))
    require(back == when, "datetime2hr({}) is {!r}, which is {}", when, uth,
            back)
    ctx.nontrivial(when != midnight)
    ctx.tag("microseconds", case["micro"] > 0)


# ------------------------------------------------------------- format lengths
PARTS = ["%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%j", "%y", "%b", "%B",
         "%a", "%A", "%I", "%p", "%c", "%x", "%X"]
EXACT = {"%Y", "%m", "%d", "%H", "%M", "%S", "%f", "%j", "%y", "%b", "%a",
         "%I", "%p"}


@st.composite
def len_case(draw):
    parts = draw(st.permutations(PARTS))[:draw(st.integers(1, 7))]
    seps = [draw(st.sampled_from(["", "-", ":", " ", "T", ", ", " UT "]))
            for _ in parts]
    return {"fmt": "".join(p + s for p, s in zip(parts, seps)),
            "parts": parts, "times": draw(st.lists(times(), min_size=1,
                                                   max_size=4))}


def len_check(case, ctx):
    fmt = case["fmt"]
    got = ocb_time.get_datetime_fmt_len(fmt)
    for text in case["times"]:
        size = len(gen.to_dt(text).strftime(fmt))
        require(got >= size, "{} characters for {!r}, {!r} needs {}", got, fmt,
                gen.to_dt(text).strftime(fmt), size)
        if set(case["parts"]) <= EXACT:
            require(got == size, "{} characters for {!r}, {!r} needs {}", got,
                    fmt, gen.to_dt(text).strftime(fmt), size)
            ctx.tag("fixed width")
    ctx.nontrivial()


# ---------------------------------------------------- incomplete and malformed
@st.composite
def bad_case(draw):
    kind = draw(st.sampled_from(
        ["incomplete", "type", "short", "day", "soy", "month", "monthday",
         "hour", "minute", "second", "format", "letters", "leap", "extra",
         "nan"]))
    return {"kind": kind, "time": draw(times()),
            "keys": draw(st.lists(st.sampled_from(["year", "soy", "sod",
                                                   "tod"]), max_size=3,
                                  unique=True)),
            "num": draw(st.integers(0, 60)),
            "word": draw(st.text("abcxyz-: ", min_size=1, max_size=8)),
            "how": draw(st.sampled_from(["tod", "sod", "none"]))}


def bad_check(case, ctx):
    when, kind, num = gen.to_dt(case["time"]), case["kind"], case["num"]
    date, tod = str(when).split(" ")
    doy = "{:03d}".format(when.timetuple().tm_yday)
    yy = "{:02d}".format(when.year - 1900)
    kw, func = {}, ocb_time.convert_time
    if kind == "incomplete":
        vals = {"year": when.year, "soy": 1000, "sod": 30.5, "tod": tod}
        keys = [k for k in case["keys"]
                if not (k == "soy" and "year" in case["keys"])]
        kw = {k: vals[k] for k in keys}
    elif kind == "type":
        kw = {"yyddd": [int(yy + doy), float(yy + doy), [yy + doy],
                        b"99001"][num % 4]}
    elif kind == "short":
        kw = {"yyddd": ["", doy, "1", yy, "."][num % 5]}
    elif kind == "day":
        kw = {"yyddd": yy + ["000", "367", "400", "999", "36a"][num % 5]}
    elif kind == "soy":
        kw = {"year": when.year,
              "soy": [-1.0, -86400.0, 366 * 86400 + 1.0, 4.0e7][num % 4]}
    elif kind == "month":
        kw = {"date": "{:d}-{:d}-{:d}".format(when.year, 13 + num, when.day)}
    elif kind == "monthday":
        day = [0, 32, 40, 99, 35][num % 5]
        if when.month in (4, 6, 9, 11):
            day = [31, 32, 0][num % 3]
        kw = {"date": "{:d}-{:d}-{:d}".format(when.year, when.month, day)}
    elif kind == "leap":
        year = when.year + 1 if when.year % 4 == 0 else when.year
        kw = {"date": "{:d}-02-29".format(year)}
    elif kind == "hour":
        kw = {"date": date, "tod": "{:d}:10:10".format(24 + num)}
    elif kind == "minute":
        kw = {"date": date, "tod": "10:{:d}:10".format(60 + num % 40)}
    elif kind == "second":
        kw = {"date": date, "tod": "10:10:{:d}".format(60 + num % 40)}
    elif kind == "format":
        kw = [{"date": date, "tod": tod.replace(":", "-")},
              {"date": date.replace("-", "/"), "tod": tod},
              {"date": date[:7], "tod": tod}, {"date": date, "tod": tod[:5]},
              {"date": date[5:]}, {"date": date, "tod": ""}][num % 6]
    elif kind == "letters":
        kw = [{"date": case["word"]}, {"date": date, "tod": case["word"]},
              {"yyddd": case["word"]}][num % 3]
    elif kind == "extra":
        kw = {"date": date + "  x y"[num % 3:]}
        kw["tod"] = tod
    elif kind == "nan":
        kw = {"date": date, "sod": float("nan")}
    if kind in ("type", "short", "day", "month", "monthday", "leap"):
        if case["how"] == "tod":
            kw["tod"] = tod
        elif case["how"] == "sod":
            kw["sod"] = 5.5
    try:
        out = func(**kw)
    except ValueError:
        ctx.nontrivial()
        ctx.tag(kind)
        return
    fail("convert_time({}) gave {}", kw, out)


TARGETS = [
    Target("second_of_year", soy_case(), soy_check, 3000, rule="every case"),
    Target("day_of_year", yyddd_case(), yyddd_check, 4000, rule="every case"),
    Target("strings", text_case(), text_check, 5000, rule="every case"),
    Target("hours", hour_case(), hour_check, 2500, rule="not midnight"),
    Target("lengths", len_case(), len_check, 1500, rule="every case"),
    Target("malformed", bad_case(), bad_check, 2500, rule="refused input"),
]
