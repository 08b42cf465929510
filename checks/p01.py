"""P01: boundary-normalised coordinates follow the planar geometry.

Oracle: independent scalar re-derivation of the geometry; AACGMV2 called directly for geographic input.
"""
import math

import aacgmv2
import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "corrected boundary radius above 1 degree; AACGMV2 itself is trusted for "
    "geographic input (heights 0-1500 km)",
    "tolerance 1e-8 degrees relative to the co-latitude (AACGM), 1e-6 "
    "(geographic)"]


def compare(case, ind, out, lat, mlt, tol, what):
    """Compare (lat, mlt, r_corr) output with the reference, element-wise."""
    require(len(out) == 3, "{}: {} outputs", what, len(out))
    olat, omlt, orc = [np.asarray(o, float) for o in out]
    require(olat.shape == lat.shape and omlt.shape == lat.shape,
            "{}: output shapes {}, {} for input shape {}", what, olat.shape,
            omlt.shape, lat.shape)
    orc = np.broadcast_to(orc, lat.shape)
    rec, spec = case["recs"][ind], bnd.spec_of(case, ind)
    good = 0
    for idx in np.ndindex(lat.shape):
        exp, xn, yn, rcor = geom.normal(rec, spec, case["hemi"], case["ref"],
                                        float(lat[idx]), float(mlt[idx]))
        glat, gmlt, grc = float(olat[idx]), float(omlt[idx]), float(orc[idx])
        if math.isnan(exp):
            require(math.isnan(glat) and math.isnan(gmlt),
                    "{}: location ({}, {}) is not in the hemisphere but gave "
                    "({}, {})", what, lat[idx], mlt[idx], glat, gmlt)
            continue
        if rec["r"] + rcor < 1.0:
            continue
        good += 1
        colat = math.hypot(xn, yn)
        require(abs(grc - rcor) <= tol, "{}: r_corr {} != {} at MLT {}", what,
                grc, rcor, mlt[idx])
        require(abs(glat - exp) <= tol * (1.0 + colat),
                "{}: latitude {} != {} at ({}, {})", what, glat, exp, lat[idx],
                mlt[idx])
        require(0.0 <= gmlt < 24.0, "{}: MLT {} outside [0, 24)", what, gmlt)
        gx, gy = geom.polar(90.0 - case["hemi"] * glat, gmlt)
        require(math.hypot(gx - xn, gy - yn) <= 10 * tol * (1.0 + colat),
                "{}: location ({}, {}) gave ({}, {}), expected x={}, y={}",
                what, lat[idx], mlt[idx], glat, gmlt, xn, yn)
    return good


@st.composite
def mag_case(draw):
    case = draw(bnd.boundary(step=0))
    case["ind"] = draw(st.integers(0, len(case["recs"]) - 1))
    case["walk"] = draw(st.lists(st.integers(0, len(case["recs"]) - 1),
                                 max_size=3))
    case["pts"] = draw(bnd.points(case["hemi"]))
    case["form"] = draw(st.sampled_from(bnd.FORMS))
    case["height"] = draw(st.sampled_from(["default", "array"]))
    case["other"] = draw(st.integers(-3, 5))
    return case


def mag_check(case, ctx):
    ocb = bnd.make(case, ctx.path("b.txt"))
    require(ocb.records == len(case["recs"]), "{} records loaded from {}",
            ocb.records, len(case["recs"]))
    lat, lt, flat, flt = bnd.as_form(case["pts"], case["form"])
    keep = [np.array(lat), np.array(lt)]
    kw = {}
    if case["height"] == "array":
        kw["height"] = np.full(flat.shape, 200.0)

    # No record is selected
    bad = case["other"] if (case["other"] < 0 or case["other"]
                            >= ocb.records) else -1
    ocb.rec_ind = bad
    for out in ocb.normal_coord(lat, lt, **kw):
        require(np.shape(out) == flat.shape and np.all(np.isnan(out)),
                "record index {} gave {}", bad, out)

    ocb.rec_ind = case["ind"]
    out = ocb.normal_coord(lat, lt, **kw)
    num = compare(case, case["ind"], out, flat, flt, 1.0e-8, "normal_coord")
    require(gen.same_bits(np.array(lat), keep[0])
            and gen.same_bits(np.array(lt), keep[1]), "input was altered")
    require(ocb.rec_ind == case["ind"], "record index changed")

    # Each element on its own
    for idx in list(np.ndindex(flat.shape))[:3]:
        one = ocb.normal_coord(float(flat[idx]), float(flt[idx]))
        compare(case, case["ind"], one, np.array(flat[idx]),
                np.array(flt[idx]), 1.0e-8, "scalar normal_coord")

    # Other records of the same object
    for ind in case.get("walk", []):
        ocb.rec_ind = ind
        compare(case, ind, ocb.normal_coord(lat, lt), flat, flt, 1.0e-8,
                "normal_coord of another record")
    ctx.nontrivial(num > 0 and case["recs"][case["ind"]]["rc"] > 0)
    ctx.tag("form:" + case["form"])
    ctx.tag("{}/{}".format(case["cls"], case["fmt"]))
    ctx.tag("correction:" + bnd.spec_of(case, case["ind"])[0])
    ctx.tag("south", case["hemi"] < 0)
    ctx.tag("mixed hemispheres", 0 < num < flat.size)


@st.composite
def geo_case(draw):
    case = draw(bnd.boundary())
    case["ind"] = draw(st.integers(0, len(case["recs"]) - 1))
    case["pts"] = [[p[0], p[1]] for p in draw(bnd.points(
        case["hemi"], other=False, lat_lo=50.0, max_size=4))
        if abs(p[0]) >= 50.0] or [[case["hemi"] * 70.0, 5.0]]
    if draw(st.booleans()):
        case["pts"].append([-case["hemi"] * 70.0, 7.0])
    case["form"] = draw(st.sampled_from(["array", "scalar", "list"]))
    case["coords"] = draw(st.sampled_from(["geodetic", "geocentric"]))
    case["trace"] = draw(st.sampled_from(
        [None, None, "ALLOWTRACE", "TRACE"]))
    case["spell"] = gen.spelled(draw)
    case["height"] = draw(st.one_of(st.none(), fl(0.0, 1500.0)))
    case["harr"] = draw(st.booleans())
    return case


def aacgm(case, ind, lat, slt, height):
    """AACGM latitude and MLT at the record time, via AACGMV2 directly."""
    dtime = gen.to_dt(case["recs"][ind]["time"])
    uth = dtime.hour + dtime.minute / 60.0 + dtime.second / 3600.0
    lon = ((slt - uth) * 15.0 + 180.0) % 360.0 - 180.0
    method = (case["trace"] or "ALLOWTRACE") + (
        "|GEOCENTRIC" if case["coords"] == "geocentric"
                             else "")
    alat, _, amlt = aacgmv2.get_aacgm_coord_arr(
        np.atleast_1d(lat), np.atleast_1d(lon), np.atleast_1d(height), dtime,
        method)
    return alat, amlt


def geo_check(case, ctx):
    ocb = bnd.make(case, ctx.path("b.txt"))
    ocb.rec_ind = case["ind"]
    lat, lt, flat, flt = bnd.as_form(case["pts"], case["form"])
    height = 350.0 if case["height"] is None else case["height"]
    hts = np.full(flat.shape, height)
    kw = {} if case["height"] is None else {
        "height": hts + gen.uneven(flat.size, 10.0).reshape(flat.shape)
        if case["harr"] else height}
    if kw and case["harr"]:
        hts = np.array(kw["height"])
    dtime = gen.to_dt(case["recs"][case["ind"]]["time"])
    bnd.tracing(case, flat, gen.slt2lon(flt, dtime), hts, dtime)
    if case["trace"] is not None:
        kw["method"] = case["trace"]
    keep = [np.array(lat), np.array(lt)]
    out = ocb.normal_coord(lat, lt,
        coords=gen.spell(case["coords"], case["spell"]), **kw)
    require(gen.same_bits(np.array(lat), keep[0])
            and gen.same_bits(np.array(lt), keep[1]), "input was altered")
    alat, amlt = aacgm(case, case["ind"], flat, flt, hts)
    num = compare(case, case["ind"],
                  [np.atleast_1d(np.squeeze(o)) if flat.shape == () else o
                   for o in out], alat, amlt,
                  1.0e-4 if case["trace"] == "TRACE" else 1.0e-6,
                  case["coords"])
    ctx.nontrivial(num > 0)
    ctx.tag(case["coords"])
    ctx.tag("form:" + case["form"])
    ctx.tag("height array", case["harr"])
    ctx.tag("method:" + str(case["trace"]))


TARGETS = [
    Target("magnetic", mag_case(), mag_check, 2400,
           rule="an in-hemisphere location about an offset centre"),
    Target("geographic", geo_case(), geo_check, 900,
           rule="an in-hemisphere location"),
]
