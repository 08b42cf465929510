"""P02: reverting boundary coordinates undoes normalising them.

Oracle: round trips through the two library conversions, and an independent inverse of the planar geometry followed by AACGMV2 for geographic output.
"""
import math

import aacgmv2
import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "corrected boundary radius above 1 degree",
    "AACGMV2's own inverse is trusted: geographic output is compared exactly "
    "with AACGMV2 applied to the reference AACGM location, and the geographic "
    "round trip only to 0.5 degrees"]


def plane_close(hemi, lat, mlt, xp, yp, tol):
    gx, gy = geom.polar(90.0 - hemi * lat, mlt)
    return math.hypot(gx - xp, gy - yp) <= tol


@st.composite
def case_mag(draw):
    case = draw(bnd.boundary(step=0))
    case["ind"] = draw(st.integers(0, len(case["recs"]) - 1))
    case["before"] = draw(st.one_of(st.none(), st.integers(
        0, len(case["recs"]) - 1)))
    case["pts"] = draw(bnd.points(case["hemi"], other=draw(st.booleans())))
    case["form"] = draw(st.sampled_from(bnd.FORMS))
    case["height"] = draw(st.sampled_from(["default", "array", "scalar"]))
    case["bad"] = draw(st.sampled_from([-1, -2, 3, 7]))
    return case


def check_mag(case, ctx):
    ocb = bnd.make(case, ctx.path("b.txt"))
    lat, lt, flat, flt = bnd.as_form(case["pts"], case["form"])
    hemi, ind = case["hemi"], case["ind"]
    rec, spec = case["recs"][ind], bnd.spec_of(case, ind)
    if case.get("before") is not None:
        # The object was used with another record
        ocb.rec_ind = case["before"]
        ocb.revert_coord(*ocb.normal_coord(lat, lt))
    ocb.rec_ind = ind
    olat, omlt, orc = ocb.normal_coord(lat, lt)
    kw = {}
    if case["height"] == "array":
        kw["height"] = np.full(np.shape(olat), 200.0)
    elif case["height"] == "scalar":
        kw["height"] = 110.0

    # The boundary location itself, in the forms of the input
    keep = [np.array(v, copy=True) for v in (olat, omlt, orc)]
    args = [olat, omlt, orc]
    if case["form"] == "list":
        args = [list(olat), list(omlt), list(np.broadcast_to(orc, flat.shape))]
    lat2, lt2 = ocb.revert_coord(*args, **kw)
    for val, old in zip((olat, omlt, orc), keep):
        require(gen.same_bits(np.array(val), old), "revert_coord altered its "
                "input: {} -> {}", old, val)
    require(ocb.rec_ind == ind, "record index changed")
    require(np.shape(lat2) == flat.shape and np.shape(lt2) == flat.shape,
            "output shapes {} {} for input shape {}", np.shape(lat2),
            np.shape(lt2), flat.shape)
    lat2, lt2 = np.asarray(lat2, float), np.asarray(lt2, float)
    folat, fomlt, forc = [np.broadcast_to(np.asarray(v, float), flat.shape)
                          for v in (olat, omlt, orc)]
    anyhere = bool(np.any(np.sign(folat) == hemi))
    good, away = 0, 0
    for idx in np.ndindex(flat.shape):
        if math.isnan(folat[idx]) or not anyhere:
            require(math.isnan(lat2[idx]) and math.isnan(lt2[idx]),
                    "{} {} reverted to {} {}", folat[idx], fomlt[idx],
                    lat2[idx], lt2[idx])
            continue
        if rec["r"] + geom.corr(spec, flt[idx]) < 1.0:
            continue
        if np.sign(folat[idx]) != hemi:
            away += 1
            continue
        good += 1
        xp, yp = geom.polar(90.0 - hemi * flat[idx], flt[idx])
        tol = 1.0e-8 * (10.0 + math.hypot(xp, yp))
        require(0.0 <= lt2[idx] < 24.0, "local time {} outside [0, 24)",
                lt2[idx])
        require(plane_close(hemi, lat2[idx], lt2[idx], xp, yp, tol),
                "({}, {}) -> ({}, {}, {}) -> ({}, {})", flat[idx], flt[idx],
                folat[idx], fomlt[idx], forc[idx], lat2[idx], lt2[idx])
        require(abs(lat2[idx] - flat[idx]) <= tol, "latitude {} came back as "
                "{}", flat[idx], lat2[idx])
        one = ocb.revert_coord(float(folat[idx]), float(fomlt[idx]),
                               float(forc[idx]))
        require(np.shape(one[0]) == () and np.shape(one[1]) == ()
                and plane_close(hemi, float(one[0]), float(one[1]), xp, yp,
                                tol),
                "scalar ({}, {}, {}) -> {}, not ({}, {})", folat[idx],
                fomlt[idx], forc[idx], one, flat[idx], flt[idx])

    # Other hemisphere only, and no selected record
    out = ocb.revert_coord(np.full(3, -70.0 * hemi), np.arange(3.0))
    require(all(np.shape(o) == (3,) and np.all(np.isnan(o)) for o in out),
            "other hemisphere gave {}", out)
    out = ocb.revert_coord(-70.0 * hemi, 3.0)
    require(all(np.shape(o) == () and np.isnan(o) for o in out),
            "other hemisphere gave {}", out)
    ocb.rec_ind = case["bad"]
    for out in ocb.revert_coord(*args):
        require(np.shape(out) == flat.shape and np.all(np.isnan(out)),
                "record {} of {} gave {}", case["bad"], ocb.records, out)
    ctx.nontrivial(good > 0 and rec["rc"] > 0.0)
    ctx.tag("form:" + case["form"])
    ctx.tag("{}/{}".format(case["cls"], case["fmt"]))
    ctx.tag("correction:" + spec[0])
    ctx.tag("south", hemi < 0)
    ctx.tag("beyond the equator", away > 0)


@st.composite
def case_inv(draw):
    case = draw(bnd.boundary())
    case["ind"] = draw(st.integers(0, len(case["recs"]) - 1))
    case["pts"] = draw(bnd.points(case["hemi"], other=False))
    case["form"] = draw(st.sampled_from(
        ["array", "list", "scalar", "0d", "int", "intarray", "2d", "mixlat",
         "mixlt"]))
    case["rc"] = draw(st.sampled_from(["default", "scalar", "array", "own"]))
    case["rcval"] = draw(fl(-5.0, 6.0))
    return case


def check_inv(case, ctx):
    """From boundary coordinates: the reference inverse, and back again."""
    ocb = bnd.make(case, ctx.path("b.txt"))
    olat, omlt, flat, fmlt = bnd.as_form(case["pts"], case["form"])
    hemi, ind = case["hemi"], case["ind"]
    rec, spec = case["recs"][ind], bnd.spec_of(case, ind)
    if np.any(flat == 0.0):
        return
    ocb.rec_ind = ind
    uniform = spec[0] == "circular"
    kw, rcor = {}, np.zeros(flat.shape)
    if case["rc"] == "scalar":
        kw, rcor = {"r_corr": case["rcval"]}, np.full(flat.shape,
                                                      case["rcval"])
    elif case["rc"] == "array":
        rcor = case["rcval"] + gen.uneven(flat.size, 0.125).reshape(flat.shape)
        kw = {"r_corr": rcor.copy()}
    elif case["rc"] == "own" and uniform:
        kw, rcor = {"r_corr": spec[1]}, np.full(flat.shape, float(spec[1]))
    if np.any(rec["r"] + rcor < 1.0):
        return
    keep = [np.array(olat), np.array(omlt)]
    lat, lt = ocb.revert_coord(olat, omlt, **kw)
    require(gen.same_bits(np.array(olat), keep[0])
            and gen.same_bits(np.array(omlt), keep[1]), "input was altered")
    require(np.shape(lat) == flat.shape and np.shape(lt) == flat.shape,
            "output shapes {}, {} for input {}", np.shape(lat), np.shape(lt),
            flat.shape)
    lat, lt = np.asarray(lat, float), np.asarray(lt, float)
    for idx in np.ndindex(flat.shape):
        exp, xp, yp = geom.revert(rec, hemi, case["ref"], flat[idx], fmlt[idx],
                                  rcor[idx])
        tol = 1.0e-8 * (10.0 + math.hypot(xp, yp))
        require(0.0 <= lt[idx] < 24.0 and abs(lat[idx] - exp) <= tol
                and plane_close(hemi, lat[idx], lt[idx], xp, yp, tol),
                "boundary location ({}, {}) with correction {} reverts to "
                "({}, {}), not {} (x={}, y={})", flat[idx], fmlt[idx],
                rcor[idx], lat[idx], lt[idx], exp, xp, yp)
    back = 0
    if uniform and np.all(rcor == spec[1]):
        out = ocb.normal_coord(lat, lt)
        for idx in np.ndindex(flat.shape):
            if np.sign(lat[idx]) != hemi:
                continue
            back += 1
            xn, yn = geom.polar(90.0 - hemi * flat[idx], fmlt[idx])
            tol = 1.0e-7 * (10.0 + math.hypot(xn, yn))
            require(plane_close(hemi, float(np.asarray(out[0])[idx]),
                                float(np.asarray(out[1])[idx]), xn, yn, tol),
                    "boundary location ({}, {}) -> ({}, {}) -> {}", flat[idx],
                    fmlt[idx], lat[idx], lt[idx], out)
    ctx.nontrivial(rec["rc"] > 0.0)
    ctx.tag("r_corr:" + case["rc"])
    ctx.tag("normalised again", back > 0)
    ctx.tag("form:" + case["form"])


@st.composite
def case_geo(draw):
    case = draw(bnd.boundary(rlo=12.0))
    case["ind"] = draw(st.integers(0, len(case["recs"]) - 1))
    case["pts"] = [[case["hemi"] * lat, mlt] for lat, mlt in draw(st.lists(
        st.tuples(fl(58.0, 89.5), fl(0.0, 23.99)), min_size=1, max_size=4))]
    case["form"] = draw(st.sampled_from(["array", "scalar", "0d"]))
    case["coords"] = draw(st.sampled_from(["geodetic", "geocentric"]))
    case["trace"] = draw(st.sampled_from(
        [None, None, "ALLOWTRACE", "TRACE"]))
    case["spell"] = gen.spelled(draw)
    case["height"] = draw(st.sampled_from([None, "scalar", "array"]))
    case["hval"] = draw(fl(0.0, 1200.0))
    return case


def check_geo(case, ctx):
    ocb = bnd.make(case, ctx.path("b.txt"))
    lat, lt, flat, flt = bnd.as_form(case["pts"], case["form"])
    hemi, ind = case["hemi"], case["ind"]
    rec, spec = case["recs"][ind], bnd.spec_of(case, ind)
    dtime = gen.to_dt(rec["time"])
    if any(rec["r"] + geom.corr(spec, t) < 1.0 for t in np.arange(0, 24, .5)):
        return
    ocb.rec_ind = ind
    kw, hts = {}, np.full(flat.shape, 350.0)
    if case["height"] == "scalar":
        kw, hts = {"height": case["hval"]}, np.full(flat.shape, case["hval"])
    elif case["height"] == "array":
        hts = case["hval"] + gen.uneven(flat.size, 25.0).reshape(flat.shape)
        kw = {"height": hts.copy()}
    bnd.tracing(case, flat, gen.slt2lon(flt, dtime), hts, dtime)
    if case["trace"] is not None:
        kw["method"] = case["trace"]
    olat, omlt, orc = [np.asarray(v, float).reshape(flat.shape) for v in
                       ocb.normal_coord(lat, lt,
        coords=gen.spell(case["coords"], case["spell"]), **kw)]
    keep = [v.copy() for v in (olat, omlt, orc)]
    glat, glt = ocb.revert_coord(olat, omlt, orc,
        coords=gen.spell(case["coords"], case["spell"]), **kw)
    for val, old in zip((olat, omlt, orc), keep):
        require(gen.same_bits(val, old), "revert_coord altered its input")
    glat = np.asarray(glat, float).reshape(flat.shape)
    glt = np.asarray(glt, float).reshape(flat.shape)
    method = (case["trace"] or "ALLOWTRACE") + "|A2G" + ("|GEOCENTRIC" if case["coords"]
                                 == "geocentric" else "")
    good, looked = 0, 0
    for idx in np.ndindex(flat.shape):
        if math.isnan(olat[idx]) or np.sign(olat[idx]) != hemi:
            continue
        alat, xp, yp = geom.revert(rec, hemi, case["ref"], olat[idx],
                                   omlt[idx], orc[idx])
        if np.sign(alat) != hemi or abs(alat) < 40.0:
            continue
        amlt = math.degrees(math.atan2(yp, xp)) / 15.0 % 24.0
        lon = aacgmv2.convert_mlt([amlt], dtime, m2a=True)
        elat, elon, _ = aacgmv2.convert_latlon_arr(
            np.array([alat]), np.asarray(lon), np.array([hts[idx]]), dtime,
            method)
        uth = dtime.hour + dtime.minute / 60.0 + dtime.second / 3600.0
        elt = (float(elon[0]) / 15.0 + uth) % 24.0
        if math.isnan(elat[0]):
            continue
        looked += 1
        tol = bnd.inverse_tol(case, alat, float(np.ravel(lon)[0]), hts[idx],
                              dtime, method, 1.0e-6)
        slack = tol / max(1.0e-3, math.cos(math.radians(elat[0])))
        require(abs(glat[idx] - elat[0]) <= tol
                and float(gen.ang_diff(glt[idx], elt, 24.0)) <= slack,
                "{} height {}: boundary location ({}, {}, {}) reverts to "
                "({}, {}), not ({}, {})", case["coords"], hts[idx], olat[idx],
                omlt[idx], orc[idx], glat[idx], glt[idx], elat[0], elt)
        require(0.0 <= glt[idx] < 24.0, "local time {} outside [0, 24)",
                glt[idx])
        # Round trip, to the accuracy of AACGM's inverse
        aa, bb = math.radians(glat[idx]), math.radians(flat[idx])
        dl = math.radians(15.0 * (glt[idx] - flt[idx]))
        dist = math.degrees(math.acos(max(-1.0, min(1.0, math.sin(aa)
                            * math.sin(bb) + math.cos(aa) * math.cos(bb)
                            * math.cos(dl)))))
        good += 1
        require(dist < 0.5, "{} ({}, {}) came back as ({}, {})",
                case["coords"], flat[idx], flt[idx], glat[idx], glt[idx])
    ctx.nontrivial(good > 0)
    ctx.tag(case["coords"])
    ctx.tag("height:" + str(case["height"]))
    ctx.tag("method:" + str(case["trace"]))
    ctx.tag("form:" + case["form"])
    ctx.tag("south", hemi < 0)


TARGETS = [
    Target("round_trip", case_mag(), check_mag, 2000,
           rule="an in-hemisphere location about an offset centre"),
    Target("inverse", case_inv(), check_inv, 1500,
           rule="an offset centre"),
    Target("geographic", case_geo(), check_geo, 700,
           rule="a location was recovered in geographic coordinates"),
]
