"""P10: dual-boundary radii used for scaling match each region.

Oracle: independent re-derivation of the reference and actual widths per region; finite differences of normal_coord for the slope.
"""
import math

import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "scalar or one-dimensional input with one AACGM MLT per boundary "
    "location (as normal_coord returns); the radius correction may be a "
    "scalar",
    "exactly on a reference latitude either adjacent region is accepted"]


@st.composite
def r_case(draw):
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    case["ind"] = draw(st.integers(0, nrec - 1))
    case["pts"] = draw(bnd.dual_points(case, case["ind"], other=False))
    case["form"] = draw(st.sampled_from(["array", "array", "list", "scalar",
                                         "0d", "one", "scalar_corr",
                                         "scalar_bmlt"]))
    case["prior"] = draw(bnd.prior(nrec))
    case["over"] = draw(st.booleans())
    case["source"] = draw(st.sampled_from(["reference", "normal_coord"]))
    case["bad"] = draw(st.sampled_from([-1, -3, nrec, nrec + 2]))
    case["corr"] = draw(fl(-2.0, 2.0))
    return case


def expected(case, ref, rcor):
    """Acceptable (scaled, unscaled) pairs of a location."""
    orec = case["ocb"]["recs"][case["ind"]]
    oref, eref = abs(case["ocb"]["ref"]), abs(case["eab"]["ref"])
    ob, eb = abs(ref["ob"]), abs(ref["eb"])
    pairs = {"cap": (90.0 - oref, orec["r"] + rcor),
             "oval": (oref - eref, ob - eb), "sub": (eref, eb)}
    good = [ref["region"]]
    blat = abs(ref["blat"])
    if abs(blat - oref) < 1.0e-7:
        good = ["cap", "oval"]
    elif abs(blat - eref) < 1.0e-7:
        good = ["oval", "sub"]
    return good, [pairs[name] for name in good]


def r_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    nrec = len(case["ocb"]["recs"])
    require(dual.records == nrec, "{} pairs instead of {}", dual.records, nrec)
    pts = case["pts"]
    if case["form"] in ("scalar", "0d", "one"):
        pts = pts[:1]
    alat = np.array([p[0] for p in pts])
    amlt = np.array([p[1] for p in pts])
    refs = [bnd.dual_ref(case, case["ind"], la, ml)
            for la, ml in zip(alat, amlt)]
    if case["source"] == "normal_coord":
        dual.rec_ind = case["ind"]
        blat, bmlt, _, rcor = [np.array(v) for v in
                               dual.normal_coord(alat, amlt)]
        bad = [i for i in range(blat.size) if math.isnan(blat[i])]
        require(not bad, "normal_coord gave NaN at {}", [pts[i] for i in bad])
    else:
        blat = np.array([r["blat"] for r in refs])
        bmlt = np.array([math.degrees(math.atan2(r["y"], r["x"])) / 15.0 % 24.0
                         for r in refs])
        rcor = np.array([r["rcorr"] for r in refs])
    form = case["form"]
    args = [blat, bmlt, amlt, rcor]
    if form in ("scalar", "0d"):
        args = [float(v[0]) for v in args]
        if form == "0d":
            args = [np.array(v) for v in args]
    elif form == "list":
        args = [list(v) for v in args]
    elif form == "scalar_corr":
        args[3] = case["corr"]
        rcor = np.full(blat.shape, case["corr"])
    elif form == "scalar_bmlt":
        args[1] = float(bmlt[0])
    keep = [np.array(v, copy=True) for v in args]
    shape = np.shape(args[0])

    dual.rec_ind = case["bad"]
    scaled, unscaled = dual.calc_r(*args)
    require(np.shape(unscaled) == shape and np.all(np.isnan(unscaled)),
            "pair {} of {}: unscaled radius {}", case["bad"], nrec, unscaled)

    bnd.apply_prior(dual, case["prior"], case)
    dual.rec_ind = case["ind"]
    before = bnd.stored(dual)
    scaled, unscaled = dual.calc_r(*args, overwrite=case["over"])
    require(all(gen.same_bits(np.array(a), b) for a, b in zip(args, keep)),
            "input was altered")
    if not case["over"]:
        bad = bnd.survived(before, bnd.stored(dual))
        require(not bad, "stored boundary values changed: {}", bad)
    require(dual.rec_ind == case["ind"]
            and dual.ocb.rec_ind == dual.ocb_ind[case["ind"]]
            and dual.eab.rec_ind == dual.eab_ind[case["ind"]],
            "the selected pair changed")
    require(np.shape(scaled) == shape and np.shape(unscaled) == shape,
            "shapes {} and {} for input of shape {}", np.shape(scaled),
            np.shape(unscaled), shape)
    regions = set()
    svals, uvals = np.atleast_1d(scaled), np.atleast_1d(unscaled)
    for i, ref in enumerate(refs):
        good, pairs = expected(case, ref, float(rcor[i]))
        got = (float(svals[i]), float(uvals[i]))
        require(any(abs(got[0] - p[0]) < 1.0e-8 and abs(got[1] - p[1]) < 1.0e-7
                    for p in pairs), "radii {} at boundary latitude {}, MLT {} "
                "({} region), expected {}", got, blat[i], amlt[i],
                "/".join(good), pairs)
        require(got[0] > 0.0 and got[1] > 0.0, "non-positive radii {}", got)
        regions.add(ref["region"])
        if len(good) == 1 and good[0] != "cap":
            require(abs(got[0] / got[1] - ref["slope"]) < 1.0e-6, "ratio {} of "
                    "the radii is not the slope {}", got[0] / got[1],
                    ref["slope"])
    for i in range(min(2, len(pts))):
        one = dual.calc_r(float(blat[i]), float(bmlt[i]), float(amlt[i]),
                          float(rcor[i]))
        require(np.shape(one[0]) == () and np.shape(one[1]) == (),
                "scalar input gave shapes {}", [np.shape(v) for v in one])
        require(abs(one[0] - svals[i]) < 1.0e-9
                and abs(one[1] - uvals[i]) < 1.0e-9, "{} alone gave {}, "
                "instead of {}", [blat[i], bmlt[i], amlt[i]], one,
                (svals[i], uvals[i]))
    # Local slope of the mapping itself
    for i, ref in enumerate(refs[:2]):
        if ref["region"] != "cap" and ref["gap"] > 0.1 and abs(alat[i]) < 88.0:
            step = 0.01
            lats = np.array([alat[i] - step, alat[i] + step])
            vals = dual.normal_coord(lats, np.full(2, amlt[i]))[0]
            slope = (vals[1] - vals[0]) / (2.0 * step)
            require(abs(slope - svals[i] / uvals[i]) < 1.0e-4, "the mapping "
                    "has slope {} at ({}, {}), the radii {} / {}", slope,
                    alat[i], amlt[i], svals[i], uvals[i])
            ctx.tag("slope measured")
    ctx.nontrivial(bool(regions - {"cap"}))
    for reg in regions:
        ctx.tag(reg)
    ctx.tag("several regions", len(regions) > 1)
    ctx.tag("form:" + form)
    ctx.tag("south", case["hemi"] < 0)
    ctx.tag("references of mixed sign",
            case["ocb"]["ref"] * case["eab"]["ref"] < 0)
    ctx.tag("stored before", case["prior"] is not None)


TARGETS = [Target("radii", r_case(), r_check, 1600,
                  rule="a location equatorward of the OCB")]
