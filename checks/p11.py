"""P11: satellite-track masking keeps only data close to a boundary crossing.

Oracle: independent distance-to-line geometry per location; one-at-a-time, reordering and crossing-swap relations.
"""
import math

import numpy as np
import ocbpy
from hypothesis import strategies as st

from lib import gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "two distinct crossings, each poleward of the equatorward allowance; "
    "locations within 1e-7 degrees of a limit may go either way"]
EDGE = 1.0e-7


@st.composite
def track_case(draw):
    hemi = draw(st.sampled_from([1, -1]))
    kind = draw(st.sampled_from(["any", "any", "any", "flat", "vertical",
                                 "pole", "steep", "mirror"]))
    rad = draw(fl(2.0, 35.0)), draw(fl(2.0, 35.0))
    ang = draw(fl(0.0, 360.0)), draw(fl(0.0, 360.0))
    c = [[r * math.cos(math.radians(a)), r * math.sin(math.radians(a))]
         for r, a in zip(rad, ang)]
    if kind == "flat":
        c[1][1] = c[0][1]
    elif kind == "vertical":
        c[1][0] = c[0][0]
    elif kind == "pole":
        c[1] = [-0.5 * c[0][0], -0.5 * c[0][1]]
    elif kind == "steep":
        c[1][0] = c[0][0] + draw(st.sampled_from([-0.01, 0.02, 0.3]))
    elif kind == "mirror":
        c[1] = [-c[0][0], c[0][1]]
    if math.hypot(c[0][0] - c[1][0], c[0][1] - c[1][1]) < 0.5:
        c[1] = [c[0][0] - 7.0, c[0][1] + 3.0]
    case = {"hemi": hemi, "c": c,
            "hnum": draw(st.sampled_from(["int", "float"]))}
    lims = {}
    for name, hi in (("del_x", 6.0), ("del_y", 6.0), ("past_bound", 20.0)):
        if draw(st.integers(0, 3)) > 0:
            lims[name] = draw(fl(0.0, hi, special=[0, 1, 2]))
    case["lims"] = lims
    pts = []
    dx, dy = lims.get("del_x", 1.0), lims.get("del_y", 1.0)
    for _ in range(draw(st.integers(1, 8))):
        where = draw(st.sampled_from(["track", "track", "track", "crossing",
                                      "anywhere", "beyond", "other", "nan",
                                      "mirrored"]))
        frac = {"track": draw(fl(0.0, 1.0)), "crossing": draw(
            st.sampled_from([0.0, 1.0, 0.01, 0.99])),
            "beyond": draw(st.sampled_from([-1, 1])) * draw(fl(0.0, 1.5))
            + 0.5}.get(where, 0.3)
        px = c[0][0] + frac * (c[1][0] - c[0][0])
        py = c[0][1] + frac * (c[1][1] - c[0][1])
        # Distances relative to the limits, on either side
        px += draw(st.sampled_from([-1, 1])) * draw(
            st.sampled_from([0.0, 0.5, 0.9, 1.1, 2.0])) * dx
        py += draw(st.sampled_from([-1, 1])) * draw(
            st.sampled_from([0.0, 0.5, 0.9, 1.1, 2.0])) * dy
        lat = hemi * (90.0 - math.hypot(px, py))
        mlt = math.degrees(math.atan2(py, px)) / 15.0 + 6.0
        if where == "anywhere":
            lat, mlt = hemi * draw(fl(40.0, 89.9)), draw(fl(0.0, 24.0))
        elif where == "other":
            lat = -lat
        elif where == "nan":
            lat = None
        elif where == "mirrored":
            mlt = draw(st.sampled_from([12.0 - mlt, -mlt, mlt + 12.0]))
        if draw(st.booleans()):
            mlt %= 24.0
        pts.append([lat, mlt])
    case["pts"] = pts
    case["form"] = draw(st.sampled_from(
        ["array", "array", "array", "list", "scalar", "2d", "mixmlt",
         "mixlat", "intlat"]))
    case["perm"] = draw(st.permutations(list(range(len(pts)))))
    return case


def verdict(case, lat, mlt):
    """(answer, distance to the nearest deciding limit, other-band answer)."""
    if math.isnan(lat) or math.isnan(mlt):
        return False, 1.0, False
    hemi, (c1, c2) = case["hemi"], case["c"]
    dx = case["lims"].get("del_x", 1.0)
    dy = case["lims"].get("del_y", 1.0)
    past = case["lims"].get("past_bound", 5.0)
    colat = 90.0 - hemi * lat
    ang = math.radians(15.0 * (mlt - 6.0))
    px, py = colat * math.cos(ang), colat * math.sin(ang)
    r1 = math.hypot(px - c1[0], py - c1[1])
    r2 = math.hypot(px - c2[0], py - c2[1])
    near = c1 if r1 <= r2 else c2
    low = hemi * lat - (90.0 - math.hypot(*near) - past)
    gaps = [abs(low)]
    if abs(r1 - r2) < EDGE and (low >= 0) != (
            hemi * lat - (90.0 - math.hypot(*(c2 if near is c1 else c1)) - past)
            >= 0):
        gaps.append(0.0)
    lx, ly = c2[0] - c1[0], c2[1] - c1[1]
    cross = (py - c1[1]) * lx - (px - c1[0]) * ly
    allow = abs(lx) * dy + abs(ly) * dx
    gaps.append(abs(abs(cross) - allow) / (abs(lx) + abs(ly)))
    band = abs(cross) <= allow
    # The listed finding: a rising line narrows the band
    as_is = band
    if lx * ly > 0.0:
        allow2 = abs(lx) * dy - abs(ly) * dx
        as_is = abs(cross) <= allow2
        gaps.append(abs(abs(cross) - allow2) / (abs(lx) + abs(ly)))
    return band and low >= 0.0, min(gaps), as_is and low >= 0.0


def call(case, lat, mlt, swap=False):
    c1, c2 = case["c"][::-1] if swap else case["c"]
    hemi = float(case["hemi"]) if case["hnum"] == "float" else case["hemi"]
    return ocbpy.cycle_boundary.satellite_track(
        lat, mlt, c1[0], c1[1], c2[0], c2[1], hemi, **case["lims"])


def track_check(case, ctx):
    lat = np.array([geom.NAN if p[0] is None else p[0] for p in case["pts"]])
    mlt = np.array([p[1] for p in case["pts"]])
    form = case["form"]
    args = [lat, mlt]
    if form == "list":
        args = [list(lat), list(mlt)]
    elif form == "scalar":
        args = [float(lat[0]), float(mlt[0])]
        lat, mlt = lat[:1], mlt[:1]
    elif form == "2d":
        args = [np.stack([lat, lat[::-1]]), np.stack([mlt, mlt[::-1]])]
        lat, mlt = args[0].copy(), args[1].copy()
    elif form == "mixmlt":
        args[1] = float(mlt[0])
        mlt = np.full(lat.shape, mlt[0])
    elif form == "mixlat":
        args[0] = float(lat[0])
        lat = np.full(mlt.shape, lat[0])
    elif form == "intlat":
        lat = np.where(np.isnan(lat), 0.0, np.round(lat))
        args[0] = lat.astype(int)
    keep = [np.array(v, copy=True) for v in args]
    got = call(case, *args)
    require(all(gen.same_bits(np.array(a), b) for a, b in zip(args, keep)),
            "input was altered")
    want_shape = () if form == "scalar" else lat.shape
    require(np.shape(got) == want_shape, "mask of shape {} for {} locations",
            np.shape(got), want_shape)
    got = np.atleast_1d(got)
    require(got.dtype == bool, "mask of type {}", got.dtype)
    judged, usable, excluded, finding = 0, 0, 0, None
    for idx in np.ndindex(lat.shape):
        want, gap, as_is = verdict(case, float(lat[idx]), float(mlt[idx]))
        if gap < EDGE:
            continue
        judged += 1
        usable += want
        excluded += not want
        if bool(got[idx]) != want:
            if bool(got[idx]) == as_is:
                finding = (lat[idx], mlt[idx], bool(got[idx]))
            else:
                fail("({}, {}) gave {}, expected {}", lat[idx], mlt[idx],
                     bool(got[idx]), want)
        alone = call(case, np.array([lat[idx]]), np.array([mlt[idx]]))
        require(bool(alone[0]) == bool(got[idx]), "({}, {}) alone gave {}, "
                "with the others {}", lat[idx], mlt[idx], alone, got[idx])
    if finding is not None:
        ctx.known("positive-slope", str(finding))
    sure = [i for i in np.ndindex(lat.shape)
            if verdict(case, float(lat[i]), float(mlt[i]))[1] >= EDGE]
    swapped = np.atleast_1d(call(case, *args, swap=True))
    bad = [i for i in sure if swapped[i] != got[i]]
    require(not bad, "the order of the crossings changed {}", bad)
    if lat.ndim == 1:
        perm = [i for i in case["perm"] if i < lat.size]
        shuffled = call(case, lat[perm], mlt[perm])
        require(bool(np.all(shuffled == got[perm])),
                "reordered locations gave another answer")
    slope = (case["c"][1][0] - case["c"][0][0]) * (
        case["c"][1][1] - case["c"][0][1])
    ctx.nontrivial(usable > 0 or excluded > 0)
    ctx.tag("usable", usable > 0)
    ctx.tag("excluded", excluded > 0)
    ctx.tag("both", usable > 0 and excluded > 0)
    ctx.tag("slope " + ("rising" if slope > 0 else "falling" if slope < 0
                        else "along an axis"))
    ctx.tag("form:" + form)
    ctx.tag("south", case["hemi"] < 0)


@st.composite
def bad_case(draw):
    return {"which": draw(st.sampled_from(["del_x", "del_y", "past_bound",
                                           "hemi"])),
            "val": draw(st.sampled_from([-0.001, -1.0, -5.0, -1e-6])),
            "hemi": draw(st.sampled_from([0, 2, -2, 0.5, 10])),
            "lat": draw(fl(50.0, 89.0)), "mlt": draw(fl(0.0, 24.0))}


def bad_check(case, ctx):
    kw, hemi = {}, 1
    if case["which"] == "hemi":
        hemi = case["hemi"]
    else:
        kw[case["which"]] = case["val"]
    try:
        out = ocbpy.cycle_boundary.satellite_track(
            np.array([case["lat"]]), np.array([case["mlt"]]), 10.0, 1.0, -8.0,
            4.0, hemi, **kw)
    except ValueError:
        ctx.nontrivial()
        return
    fail("hemisphere {} and limits {} gave {}", hemi, kw, out)


RISING = {"hemi": 1, "hnum": "int", "c": [[-10.0, -5.0], [10.0, 6.0]],
          "lims": {}, "form": "array", "perm": [0],
          "pts": [[90.0 - math.hypot(10.0, 5.0),
                   math.degrees(math.atan2(-5.0, -10.0)) / 15.0 + 6.0],
                  [79.5, 12.4], [88.8, 10.0]]}
STEEP = dict(RISING, c=[[-2.0, -12.0], [3.0, 12.0]],
             pts=[[90.0 - math.hypot(2.0, 12.0),
                   math.degrees(math.atan2(-12.0, -2.0)) / 15.0 + 6.0]])

TARGETS = [
    Target("track", track_case(), track_check, 4000, examples=[RISING, STEEP],
           rule="a location away from the limits"),
    Target("settings", bad_case(), bad_check, 100, rule="refused settings"),
]
