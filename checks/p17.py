"""P17: electric-field scaling laws and haversine helpers hold.

Oracle: the exact rational scaling law, its metamorphic relations (identity, linearity, swap, composition), and sin^2(x/2) with its inverse from the standard library.
"""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from ocbpy import ocb_scaling

from lib import gen
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = ["scaled and unscaled radii are finite and above 0.01 degrees",
               "relative round-off tolerance 1e-12 (1e-6 for 32-bit floats)"]
FUNCS = {"evar": (ocb_scaling.normal_evar, 1),
         "curl": (ocb_scaling.normal_curl_evar, 2)}


@st.composite
def scale_case(draw):
    val = st.one_of(fl(-2000.0, 2000.0, special=[0, 1, -1]),
                    st.floats(-1.0e12, 1.0e12, allow_nan=False),
                    st.sampled_from([1e-9, -1e-9, 1e-30, None]))
    rad = st.one_of(fl(5.0, 45.0, special=[16, 10]), st.floats(0.01, 180.0))
    npts = draw(st.integers(1, 5))
    out = {key: [draw(strat) for _ in range(npts)] for key, strat in
           (("val", val), ("unscaled", rad), ("scaled", rad))}
    if draw(st.integers(0, 5)) == 0:
        out["scaled"] = list(out["unscaled"])
    out["form"] = draw(st.sampled_from(["array", "scalar", "0d", "int", "2d",
                                        "f32"]))
    out["mix"] = {k: draw(st.integers(0, 3)) == 0 for k in
                  ("val", "unscaled", "scaled")}
    out["func"] = draw(st.sampled_from(["evar", "curl"]))
    return out


def as_arg(vals, form, single):
    vals = [math.nan if v is None else v for v in vals]
    if form == "int":
        vals = [0 if math.isnan(v) else int(v) or 1 for v in vals]
        return vals[0] if single else np.array(vals)
    if form == "scalar" or single:
        return vals[0]
    if form == "0d":
        return np.array(vals[0])
    if form == "2d":
        return np.array([vals, vals[::-1]])
    return np.array(vals, np.float32 if form == "f32" else float)


def exact(val, unscaled, scaled, power):
    if math.isnan(val):
        return math.nan
    return float(Fraction(val) * (Fraction(unscaled) / Fraction(scaled))
                 ** power)


def scale_check(case, ctx):
    func, power = FUNCS[case["func"]]
    form = case["form"]
    args = [as_arg(case[k], form, case["mix"][k]) for k in
            ("val", "unscaled", "scaled")]
    keep = [np.array(a, copy=True) for a in args]
    got = func(*args)
    require(all(gen.same_bits(np.array(a), k) for a, k in zip(args, keep)),
            "input was altered")
    full = np.broadcast_arrays(*[np.asarray(a, float) for a in args])
    require(np.shape(got) == full[0].shape, "output of shape {} for input of "
            "shape {}", np.shape(got), full[0].shape)
    rtol = 1.0e-6 if form == "f32" else 1.0e-12
    want = np.array([exact(*[float(f[i]) for f in full], power)
                     for i in np.ndindex(full[0].shape)]).reshape(
                         full[0].shape)
    # Products of 32-bit values may leave the range of normal numbers
    tiny = 1.0e-30 if form == "f32" else 1.0e-290
    require(gen.close(got, want, tiny, rtol), "{} gives {} instead of {}",
            func.__name__, got, want)
    same = func(args[0], args[1], args[1])
    require(gen.close(same, np.broadcast_to(np.asarray(args[0], float),
                                            np.shape(same)), tiny, rtol),
            "{} with equal radii gives {} for {}", func.__name__, same,
            args[0])
    back = func(got, args[2], args[1])
    require(gen.close(back, full[0], 10.0 * tiny, 4.0 * rtol), "{} with "
            "swapped radii gives {} for {}", func.__name__, back, full[0])
    if form != "f32":
        for fac in (-1.0, 2.0, -0.375):
            lin = func(fac * np.asarray(args[0]), args[1], args[2])
            require(gen.close(lin, fac * want, tiny, rtol), "{} of {} times "
                    "the value is {}, not {}", func.__name__, fac, lin,
                    fac * want)
    ctx.nontrivial(bool(np.any((full[1] != full[2]) & (full[0] != 0.0)
                               & ~np.isnan(full[0]))))
    ctx.tag(case["func"] + " " + form)


# ------------------------------------------------------------------- haversines
@st.composite
def hav_case(draw):
    ang = st.one_of(fl(-math.pi, math.pi), fl(-20.0, 20.0),
                    st.floats(-1.0e3, 1.0e3), st.sampled_from(
                        [0.0, math.pi, -math.pi, math.pi / 2, 2 * math.pi,
                         1e-9, -1e-9, 1e-6, 3e-8, None]))
    return {"ang": draw(st.lists(ang, min_size=1, max_size=6)),
            "form": draw(st.sampled_from(["array", "list", "scalar", "0d",
                                          "int", "2d"]))}


def wrap(vals, form):
    vals = [math.nan if v is None else float(v) for v in vals]
    if form == "int":
        val = 0 if math.isnan(vals[0]) else int(vals[0])
        return val, np.array(float(val))
    if form == "scalar":
        return vals[0], np.array(vals[0])
    if form == "0d":
        return np.array(vals[0]), np.array(vals[0])
    if form == "list":
        return vals, np.array(vals)
    if form == "2d":
        arr = np.array([vals, vals[::-1]])
        return arr, arr.copy()
    return np.array(vals), np.array(vals)


def hav_check(case, ctx):
    arg, full = wrap(case["ang"], case["form"])
    keep = np.array(arg, copy=True)
    got = ocb_scaling.hav(arg)
    require(gen.same_bits(np.array(arg), keep), "input was altered")
    require(np.shape(got) == full.shape, "haversine of shape {} for {}",
            np.shape(got), full.shape)
    want = np.vectorize(lambda x: math.sin(0.5 * x) ** 2, otypes=[float])(full)
    require(gen.close(got, want, 1.0e-13), "haversine {} instead of {} for {}",
            got, want, full)
    # No digits are lost for small angles
    small = np.abs(full) <= math.pi
    require(gen.close(np.asarray(got)[small], want[small], 1.0e-290, 1.0e-12),
            "haversine {} instead of {} for {}", got, want, full)
    fin = np.asarray(got)[~np.isnan(full)]
    require(bool(np.all((fin >= 0.0) & (fin <= 1.0))), "haversine {} outside "
            "0 to 1", got)
    require(gen.close(ocb_scaling.hav(-full), got, 0.0), "haversine is not "
            "even at {}", full)
    for turn in (2.0 * math.pi, -4.0 * math.pi):
        require(gen.close(ocb_scaling.hav(full + turn), got, 1.0e-12),
                "haversine is not periodic at {}", full)
    # The inverse recovers the angle within half a turn
    base = np.abs((full + math.pi) % (2.0 * math.pi) - math.pi)
    back = ocb_scaling.archav(got)
    require(np.shape(back) == full.shape, "inverse of shape {} for {}",
            np.shape(back), full.shape)
    tol = np.where(base < 1.0e-7, 2.1e-8, 1.0e-12
                   + 2.0e-15 / np.maximum(np.abs(np.sin(base)), 1.0e-7)
                   + 1.0e-14 * np.abs(full))
    with np.errstate(invalid="ignore"):
        good = np.isnan(full) & np.isnan(back) | (np.abs(back - base) <= tol)
    require(bool(np.all(good)), "inverse haversine {} instead of {}", back,
            base)
    ctx.nontrivial(bool(np.any(base > 1.0e-7)))
    ctx.tag("form:" + case["form"])


@st.composite
def inv_case(draw):
    val = st.one_of(fl(0.0, 1.0, special=[0, 1]), fl(-1.0, 1.0), st.floats(
        0.0, 1.0), st.floats(1e-20, 1e-10), st.sampled_from(
            [0.0, 1.0, 0.5, 5e-17, -5e-17, 9e-17, -9e-17, 1.1e-16, -1.1e-16,
             -1e-15, 1e-15, -1e-3, -0.5, None, -0.0]))
    return {"hav": draw(st.lists(val, min_size=1, max_size=6)),
            "form": draw(st.sampled_from(["array", "list", "scalar", "0d",
                                          "int", "2d"]))}


def inv_check(case, ctx):
    arg, full = wrap(case["hav"], case["form"])
    keep = np.array(arg, copy=True)
    with np.errstate(all="ignore"):
        got = ocb_scaling.archav(arg)
    require(gen.same_bits(np.array(arg), keep), "input was altered")
    require(np.shape(got) == full.shape, "angle of shape {} for {}",
            np.shape(got), full.shape)
    for idx in np.ndindex(full.shape):
        val, out = full[idx], float(np.asarray(got)[idx])
        if math.isnan(val) or val <= -1.0001e-16:
            require(math.isnan(out), "angle {} for {}", out, val)
        elif abs(val) < 0.9999e-16:
            require(out == 0.0, "angle {} for {}", out, val)
        elif val > 0.0:
            want = 2.0 * math.atan2(math.sqrt(val), math.sqrt(1.0 - val))
            if abs(val - 1.0e-16) < 1.0e-19 and out == 0.0:
                continue
            # The inverse sine is ill-conditioned next to one
            tol = 1.0e-12 * want + min(5.0e-8, 1.0e-15 / math.sqrt(
                max(1.0 - val, 1.0e-16))) * (val > 0.5)
            require(0.0 <= out <= math.pi and abs(out - want) <= tol,
                    "angle {} instead of {} for {}", out, want, val)
    ctx.nontrivial(bool(np.any(full != 0.0)))
    ctx.tag("negative", bool(np.any(full < 0.0)))
    ctx.tag("form:" + case["form"])


TARGETS = [
    Target("scaling", scale_case(), scale_check, 6000,
           rule="a finite non-zero value with different radii"),
    Target("haversine", hav_case(), hav_check, 4000,
           rule="an angle that is not a multiple of a full turn"),
    Target("inverse", inv_case(), inv_check, 4000, rule="a non-zero value"),
]
