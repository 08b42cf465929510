"""P08: dual-boundary coordinates scale each region between its boundaries.

Oracle: independent scalar re-derivation of the three-region mapping; AACGMV2 called directly for geographic input.
"""
import math

import aacgmv2
import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "scalar or one-dimensional input; the OCB lies inside the EAB and both "
    "enclose the magnetic pole",
    "AACGMV2 itself is trusted for geographic input"]
FORMS = ["array", "array", "list", "scalar", "0d", "intarray", "int", "mixlat",
         "mixlt", "height", "mixheight"]


@st.composite
def mag_case(draw):
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    case["ind"] = draw(st.integers(0, nrec - 1))
    case["pts"] = draw(bnd.dual_points(case, case["ind"]))
    case["form"] = draw(st.sampled_from(FORMS))
    case["prior"] = draw(bnd.prior(nrec))
    case["over"] = draw(st.booleans())
    case["bad"] = draw(st.sampled_from([-1, -3, nrec, nrec + 2]))
    return case


def judge(case, out, lat, mlt, tol, what, ctx=None):
    """Compare the four outputs with the reference, element by element."""
    require(len(out) == 4, "{}: {} outputs", what, len(out))
    vals = []
    for val in out:
        require(np.shape(val) == lat.shape, "{}: output shape {} for input "
                "shape {}", what, np.shape(val), lat.shape)
        vals.append(np.asarray(val, float))
    regions = set()
    for idx in np.ndindex(lat.shape):
        la, ml = float(lat[idx]), float(mlt[idx])
        blat, bmlt, olat, rcor = [float(v[idx]) for v in vals]
        if math.isnan(la) or np.sign(la) != case["hemi"]:
            require(math.isnan(blat) and math.isnan(bmlt) and math.isnan(olat),
                    "{}: ({}, {}) is not in the hemisphere but gave {}", what,
                    la, ml, (blat, bmlt, olat, rcor))
            continue
        ref = bnd.dual_ref(case, case["ind"], la, ml)
        colat = math.hypot(ref["x"], ref["y"])
        near = tol * (1.0 + colat)
        require(abs(olat - ref["olat"]) <= near and abs(rcor - ref["rcorr"])
                <= tol, "{}: OCB latitude and correction ({}, {}) instead of "
                "({}, {}) at ({}, {})", what, olat, rcor, ref["olat"],
                ref["rcorr"], la, ml)
        gx, gy = geom.polar(90.0 - case["hemi"] * olat, bmlt)
        require(0.0 <= bmlt < 24.0 and math.hypot(
            gx - ref["x"], gy - ref["y"]) <= 10 * near, "{}: MLT {} at "
            "({}, {}), expected that of x={}, y={}", what, bmlt, la, ml,
            ref["x"], ref["y"])
        # Within round-off of a boundary either region gives the same answer
        slack = near * 10 + (1e-5 if ref["gap"] < 10 * tol else 0.0)
        require(abs(blat - ref["blat"]) <= slack, "{}: latitude {} instead of "
                "{} at ({}, {}) in the {} region (boundaries at {}, {})", what,
                blat, ref["blat"], la, ml, ref["region"], ref["ob"], ref["eb"])
        regions.add(ref["region"])
    return regions


def inputs(case):
    """Arguments, keyword arguments, and the flat arrays they stand for."""
    form, kw = case["form"], {}
    base = {"height": "array", "mixheight": "scalar"}.get(form, form)
    lat, lt, flat, flt = bnd.as_form(case["pts"], base)
    if form == "height":
        kw["height"] = 100.0 + gen.uneven(flat.size, 50.0)
    elif form == "mixheight":
        # One location and several heights
        kw["height"] = np.array([250.0, 100.0, 400.0])
        flat, flt = np.full(3, flat), np.full(3, flt)
    return lat, lt, kw, flat, flt


def mag_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    nrec = len(case["ocb"]["recs"])
    require(dual.records == nrec, "{} pairs instead of {}", dual.records, nrec)
    lat, lt, kw, flat, flt = inputs(case)
    keep = [np.array(lat), np.array(lt)]
    dual.rec_ind = case["bad"]
    for out in dual.normal_coord(lat, lt, **kw):
        require(np.shape(out) == flat.shape and np.all(np.isnan(out)),
                "pair {} of {} gave {}", case["bad"], dual.records, out)
    bnd.apply_prior(dual, case["prior"], case)
    dual.rec_ind = case["ind"]
    before = bnd.stored(dual)
    out = dual.normal_coord(lat, lt, overwrite=case["over"], **kw)
    regions = judge(case, out, flat, flt, 1.0e-8, "normal_coord")
    require(gen.same_bits(np.array(lat), keep[0])
            and gen.same_bits(np.array(lt), keep[1]), "input was altered")
    if not case["over"]:
        bad = bnd.survived(before, bnd.stored(dual))
        require(not bad, "stored boundary values changed: {}", bad)
    require(dual.rec_ind == case["ind"]
            and dual.ocb.rec_ind == dual.ocb_ind[case["ind"]]
            and dual.eab.rec_ind == dual.eab_ind[case["ind"]],
            "the selected pair changed")
    for idx in list(np.ndindex(flat.shape))[:3]:
        one = dual.normal_coord(float(flat[idx]), float(flt[idx]))
        judge(case, one, np.array(flat[idx]), np.array(flt[idx]), 1.0e-8,
              "scalar normal_coord")
    ctx.nontrivial(bool(regions - {"cap"}))
    for reg in regions:
        ctx.tag(reg)
    ctx.tag("several regions", len(regions) > 1)
    ctx.tag("form:" + case["form"])
    ctx.tag("south", case["hemi"] < 0)
    ctx.tag("stored before", case["prior"] is not None)
    ctx.tag("non-circular", bnd.spec_of(case["ocb"], case["ind"])[0]
            != "circular")


@st.composite
def geo_case(draw):
    case = draw(bnd.dual())
    case["ind"] = draw(st.integers(0, len(case["ocb"]["recs"]) - 1))
    case["pts"] = [[case["hemi"] * v[0], v[1]] for v in draw(st.lists(
        st.tuples(st.one_of(fl(55.0, 89.5), fl(72.0, 88.0)), fl(0.0, 23.9)), min_size=1, max_size=4))]
    if draw(st.integers(0, 3)) == 0:
        case["pts"].append([-70.0 * case["hemi"], 3.0])
    case["form"] = draw(st.sampled_from(["array", "scalar", "0d"]))
    case["coords"] = draw(st.sampled_from(["geodetic", "geocentric"]))
    case["trace"] = draw(st.sampled_from(
        [None, None, "ALLOWTRACE", "TRACE"]))
    case["spell"] = gen.spelled(draw)
    case["height"] = draw(st.sampled_from([None, "scalar", "array"]))
    case["hval"] = draw(fl(0.0, 1200.0))
    case["prior"] = draw(bnd.prior(len(case["ocb"]["recs"])))
    return case


def geo_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    dual.rec_ind = case["ind"]
    bnd.apply_prior(dual, case["prior"], case)
    before = bnd.stored(dual)
    lat, lt, flat, flt = bnd.as_form(case["pts"], case["form"])
    kw, hts = {}, np.full(flat.shape, 350.0)
    if case["height"] == "scalar":
        kw, hts = {"height": case["hval"]}, np.full(flat.shape, case["hval"])
    elif case["height"] == "array":
        hts = case["hval"] + gen.uneven(flat.size, 20.0).reshape(flat.shape)
        kw = {"height": hts.copy()}
    dtime = gen.to_dt(case["ocb"]["recs"][case["ind"]]["time"])
    bnd.tracing(case, flat, gen.slt2lon(flt, dtime), hts, dtime)
    if case["trace"] is not None:
        kw["method"] = case["trace"]
    keep = [np.array(lat), np.array(lt)]
    out = dual.normal_coord(lat, lt,
        coords=gen.spell(case["coords"], case["spell"]), **kw)
    require(gen.same_bits(np.array(lat), keep[0])
            and gen.same_bits(np.array(lt), keep[1]), "input was altered")
    dtime = gen.to_dt(case["ocb"]["recs"][case["ind"]]["time"])
    uth = dtime.hour + dtime.minute / 60.0 + dtime.second / 3600.0
    lon = ((flt - uth) * 15.0 + 180.0) % 360.0 - 180.0
    alat, _, amlt = aacgmv2.get_aacgm_coord_arr(
        np.atleast_1d(flat), np.atleast_1d(lon), np.atleast_1d(hts), dtime,
        (case["trace"] or "ALLOWTRACE") + ("|GEOCENTRIC" if case["coords"] == "geocentric"
                        else ""))
    regions = judge(case, out, alat.reshape(flat.shape),
                    amlt.reshape(flat.shape),
                    1.0e-4 if case["trace"] == "TRACE" else 1.0e-6,
                    case["coords"])
    bad = bnd.survived(before, bnd.stored(dual))
    require(not bad, "stored boundary values changed: {}", bad)
    ctx.nontrivial(bool(regions))
    for reg in regions:
        ctx.tag(reg)
    ctx.tag(case["coords"])
    ctx.tag("form:" + case["form"])
    ctx.tag("height:" + str(case["height"]))
    ctx.tag("method:" + str(case["trace"]))


TARGETS = [
    Target("magnetic", mag_case(), mag_check, 1500,
           rule="a location equatorward of the OCB"),
    Target("geographic", geo_case(), geo_check, 500,
           rule="an in-hemisphere location"),
]
