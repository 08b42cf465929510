"""P14: angle, hour and local-time conversions are exact and cyclic.

Oracle: range, congruence modulo the period, inverse and idempotence relations.
"""
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st

from lib.gen import ang_diff, fl, same_bits
from lib.vlib import Target, require
from ocbpy import ocb_time

ASSUMPTIONS = ["values up to 300 periods from the range (wrapping steps one "
               "period at a time)", "round-off tolerance 1e-9 relative to the "
               "largest magnitude involved"]

FORM = st.sampled_from(["array", "list", "scalar", "0d", "int", "intarray",
                        "2d", "f32"])


def build(vals, form):
    """Input object, and its float elements, for a form."""
    if form in ("scalar", "0d", "int"):
        vals = vals[:1]
    if form in ("int", "intarray"):
        vals = [float("nan") if v is None else float(int(v)) for v in vals]
        vals = [0.0 if math.isnan(v) else v for v in vals]
    vals = [float("nan") if v is None else v for v in vals]
    if form == "array":
        return np.array(vals, float), np.array(vals, float)
    if form == "f32":
        arr = np.array(vals, np.float32)
        return arr, arr.astype(float)
    if form == "list":
        return list(vals), np.array(vals, float)
    if form == "scalar":
        return vals[0], np.array(vals[0])
    if form == "0d":
        return np.array(vals[0]), np.array(vals[0])
    if form == "int":
        return int(vals[0]), np.array(vals[0])
    if form == "intarray":
        return np.array(vals).astype(int), np.array(vals, float)
    arr = np.array(vals + vals).reshape(2, -1)
    return arr, arr.astype(float)


def call(func, inp, *args, **kwargs):
    keep = np.array(inp, copy=True) if isinstance(inp, np.ndarray) else (
        list(inp) if isinstance(inp, list) else inp)
    out = func(inp, *args, **kwargs)
    if isinstance(inp, np.ndarray):
        require(same_bits(inp, keep), "input array was altered: {} -> {}",
                keep, inp)
    elif isinstance(inp, list):
        require(np.array_equal(inp, keep, equal_nan=True),
                "input list was altered")
    return np.asarray(out)


def tol_of(form, scale):
    return (3.0e-6 if form == "f32" else 1.0e-12) * max(1.0, scale)


def check_range(out, vals, lo, hi, period, tol, what):
    require(out.shape == vals.shape, "{}: shape {} for input shape {}", what,
            out.shape, vals.shape)
    nan = np.isnan(vals)
    require(np.array_equal(np.isnan(out.astype(float)), nan),
            "{}: NaN does not propagate: {} -> {}", what, vals, out)
    ok = out[~nan].astype(float) if out.shape else (
        np.array([]) if nan else np.array([float(out)]))
    val = vals[~nan] if vals.shape else (
        np.array([]) if nan else np.array([float(vals)]))
    require(bool(np.all((ok >= lo) & (ok < hi))),
            "{}: output outside [{}, {}): {} -> {}", what, lo, hi, val, ok)
    require(bool(np.all(ang_diff(ok, val, period) <= tol)),
            "{}: output differs by other than multiples of {}: {} -> {}",
            what, period, val, ok)


# ------------------------------------------------------------------ fix_range
@st.composite
def fix_case(draw):
    lo = draw(st.sampled_from([0.0, -180.0, -12.0, 1.5, -0.25, 100.0, 0, -180]))
    width = draw(st.sampled_from([24.0, 360.0, 1.0, 0.5, 2 * math.pi, 540.0,
                                  24, 360, 7]))
    period = draw(st.sampled_from([None, None, "width", "less", "any"]))
    per = {None: None, "width": width, "less": width / 2.0,
           "any": width * draw(st.sampled_from([0.99, 0.95, 0.75, 0.3]))}[period]
    step = per if per is not None else width
    hi = lo + width
    val = st.one_of(
        fl(lo - 30 * step, hi + 30 * step), fl(lo, hi),
        st.sampled_from([lo, hi, 0.0, -0.0]),
        st.integers(-5, 5).map(lambda k: float(lo + k * step)),
        st.floats(-1e-9, 1e-9, allow_nan=False).map(lambda e: float(lo + e)),
        st.floats(-1e-9, 1e-9, allow_nan=False).map(lambda e: float(hi + e)),
        st.none())
    return {"lo": lo, "hi": hi, "per": per, "form": draw(FORM),
            "vals": draw(st.lists(val, min_size=1, max_size=6))}


def fix_check(case, ctx):
    inp, vals = build(case["vals"], case["form"])
    lo, hi, per = case["lo"], case["hi"], case["per"]
    step = per if per is not None else hi - lo
    kw = {} if per is None else {"val_range": per}
    out = call(ocb_time.fix_range, inp, lo, hi, **kw)
    tol = tol_of(case["form"], float(np.nanmax(np.abs(np.append(vals, [lo, hi])))))
    if case["form"] == "f32":
        if np.any(np.abs(vals - lo) < 1e-3) or np.any(np.abs(vals - hi) < 1e-3):
            return
    check_range(out, vals, lo, hi, step, tol, "fix_range")
    inside = (vals >= lo) & (vals < hi)
    require(bool(np.all(np.abs(out[inside].astype(float) - vals[inside])
                        <= 0.01 * tol)),
            "fix_range changed values already in range: {} -> {}", vals, out)
    again = call(ocb_time.fix_range, out, lo, hi, **kw)
    require(np.allclose(again, out, rtol=0.0, atol=0.01 * tol, equal_nan=True),
            "fix_range is not idempotent: {} -> {}", out, again)
    ctx.nontrivial(bool(np.any(~inside & ~np.isnan(vals))))
    ctx.tag("wrapped", bool(np.any(~inside & ~np.isnan(vals))))
    ctx.tag("nan", bool(np.any(np.isnan(vals))))
    ctx.tag("form:" + case["form"])


@st.composite
def bad_range_case(draw):
    lo = draw(st.integers(-50, 50))
    return {"lo": lo, "hi": draw(st.integers(lo - 100, lo)),
            "per": draw(st.sampled_from([None, 0, -1, 0.0, -24.0])),
            "ok_order": draw(st.booleans()),
            "val": draw(st.integers(-100, 100))}


def bad_range_check(case, ctx):
    lo, hi, per = case["lo"], case["hi"], case["per"]
    if case["ok_order"]:
        lo, hi = hi - 1, lo
        if per is None:
            per = 0
    elif per is not None:
        per = 5
    ctx.nontrivial()
    ctx.tag("bad period" if case["ok_order"] else "empty range")
    try:
        out = ocb_time.fix_range(case["val"], lo, hi, val_range=per)
    except ValueError:
        return
    require(False, "fix_range({}, {}, {}, {}) = {} instead of a ValueError",
            case["val"], lo, hi, per, out)


# ----------------------------------------------------------- unit conversions
@st.composite
def unit_case(draw):
    hours = st.one_of(fl(-240.0, 240.0), fl(0.0, 24.0),
                      st.integers(-20, 20).map(lambda k: 12.0 * k),
                      st.floats(-1e-12, 1e-12, allow_nan=False), st.none())
    return {"vals": draw(st.lists(hours, min_size=1, max_size=6)),
            "form": draw(FORM),
            "func": draw(st.sampled_from(["deg2hr", "hr2deg", "hr2rad",
                                          "rad2hr"])),
            "range": draw(st.sampled_from([None, "180", "360", "wide",
                                           "narrow"]))}


def unit_check(case, ctx):
    func, rng, form = case["func"], case["range"], case["form"]
    inp, vals = build(case["vals"], form)
    if form == "f32":
        return
    kw = {}
    if func == "deg2hr":
        expect, lo, hi, per = vals / 15.0, 0.0, 24.0, 24.0
    elif func == "rad2hr":
        expect, lo, hi, per = vals * (12.0 / math.pi), 0.0, 24.0, 24.0
    elif func == "hr2rad":
        expect, lo, hi, per = vals * (math.pi / 12.0), 0.0, 2 * math.pi, 2 * math.pi
        if rng in ("180", "narrow"):
            kw = {"max_range": math.pi}
            lo, hi = -math.pi, math.pi
    else:
        expect, lo, hi, per = vals * 15.0, -180.0, 360.0, 360.0
        if rng == "180":
            kw = {"min_deg": -180.0, "max_deg": 180.0}
            hi = 180.0
        elif rng == "360":
            kw = {"min_deg": 0.0, "max_deg": 360.0}
            lo = 0.0
        elif rng == "narrow":
            kw = {"min_deg": 0.0, "max_deg": 180.0}
            lo, hi = -180.0, 180.0
    out = call(getattr(ocb_time, func), inp, **kw)
    tol = 1.0e-10
    check_range(out, expect, lo, hi, per, tol, func)
    inverse = {"deg2hr": "hr2deg", "hr2deg": "deg2hr", "hr2rad": "rad2hr",
               "rad2hr": "hr2rad"}[func]
    iper = {"deg2hr": 360.0, "hr2deg": 24.0, "hr2rad": 24.0,
            "rad2hr": 2 * math.pi}[func]
    back = np.asarray(getattr(ocb_time, inverse)(out))
    ok = ~np.isnan(vals)
    require(bool(np.all(ang_diff(back[ok], vals[ok], iper) <= 1e-9)),
            "{}({}) does not undo {}: {} -> {}", inverse, out, func, vals, back)
    ctx.nontrivial(bool(np.any(np.abs(vals) > 0)))
    ctx.tag(func)
    ctx.tag("form:" + form)
    ctx.tag("beyond one period", bool(np.any(np.abs(expect) > per)))


# ------------------------------------------------------- solar local time
@st.composite
def slt_case(draw):
    return {"vals": draw(st.lists(st.one_of(
        fl(-360.0, 720.0), fl(0.0, 24.0), st.integers(-12, 24).map(
            lambda k: 30.0 * k)), min_size=1, max_size=6)),
        "form": draw(FORM.filter(lambda f: f != "f32")),
        "sec": draw(st.integers(0, 86399)),
        "us": draw(st.sampled_from([0, 0, 1, 500000, 999999])),
        "day": draw(st.integers(0, 20000)),
        "dir": draw(st.sampled_from(["glon2slt", "slt2glon"]))}


def slt_check(case, ctx):
    dtime = dt.datetime(1970, 1, 1) + dt.timedelta(
        days=case["day"], seconds=case["sec"], microseconds=case["us"])
    uth = (case["sec"] + case["us"] * 1.0e-6) / 3600.0
    got = ocb_time.datetime2hr(dtime)
    require(abs(got - uth) < 1e-11 and 0.0 <= got < 24.0,
            "datetime2hr({}) = {}, not {}", dtime, got, uth)
    inp, vals = build(case["vals"], case["form"])
    if case["dir"] == "glon2slt":
        out = call(ocb_time.glon2slt, inp, dtime)
        check_range(out, vals / 15.0 + uth, 0.0, 24.0, 24.0, 1e-9, "glon2slt")
        back, per = ocb_time.slt2glon(out, dtime), 360.0
        lo, hi = -180.0, 360.0
    else:
        out = call(ocb_time.slt2glon, inp, dtime)
        check_range(out, 15.0 * (vals - uth), -180.0, 360.0, 360.0, 1e-8,
                    "slt2glon")
        back, per = ocb_time.glon2slt(out, dtime), 24.0
        lo, hi = 0.0, 24.0
    back = np.asarray(back)
    require(back.shape == vals.shape and bool(
        np.all((back >= lo) & (back < hi) & (ang_diff(back, vals, per) <= 1e-8))),
        "inverse of {} at {}: {} -> {} -> {}", case["dir"], dtime, vals, out, back)
    ctx.nontrivial(uth > 0)
    ctx.tag(case["dir"])
    ctx.tag("form:" + case["form"])


TARGETS = [
    Target("fix_range", fix_case(), fix_check, 4000,
           rule="some value needs wrapping"),
    Target("fix_range_errors", bad_range_case(), bad_range_check, 400,
           rule="every case"),
    Target("units", unit_case(), unit_check, 4000, rule="some non-zero value"),
    Target("solar_time", slt_case(), slt_check, 3000,
           rule="time of day after midnight"),
]
