"""P09: reverting dual-boundary coordinates undoes normalising them.

Oracle: round trips through the two library conversions, and an independent inverse of the three-region mapping followed by AACGMV2 for geographic output.
"""
import math

import aacgmv2
import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "scalar or one-dimensional input; the OCB lies inside the EAB and both "
    "enclose the magnetic pole",
    "AACGMV2's own inverse is trusted: geographic output is compared with "
    "AACGMV2 applied to the reference AACGM location"]
FORMS = ["array", "array", "list", "scalar", "0d"]


def close_xy(hemi, lat, mlt, elat, emlt, tol):
    gx, gy = geom.polar(90.0 - hemi * lat, mlt)
    ex, ey = geom.polar(90.0 - hemi * elat, emlt)
    return math.hypot(gx - ex, gy - ey) <= tol


def shaped(vals, form):
    vals = np.array(vals, float)
    if form == "scalar":
        return float(vals[0])
    if form == "0d":
        return np.array(vals[0])
    return list(vals) if form == "list" else vals


@st.composite
def mag_case(draw):
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    case["ind"] = draw(st.integers(0, nrec - 1))
    case["pts"] = draw(bnd.dual_points(case, case["ind"],
                                       other=draw(st.booleans())))
    case["form"] = draw(st.sampled_from(FORMS))
    case["prior"] = draw(bnd.prior(nrec))
    case["over"] = draw(st.booleans())
    case["height"] = draw(st.sampled_from([None, "scalar", "array"]))
    case["bad"] = draw(st.sampled_from([-1, nrec, nrec + 3]))
    return case


def mag_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    hemi, k = case["hemi"], case["ind"]
    dual.rec_ind = k
    pts, form = case["pts"], case["form"]
    if form in ("scalar", "0d"):
        pts = pts[:1]
    lat = np.array([geom.NAN if p[0] is None else p[0] for p in pts])
    mlt = np.array([p[1] for p in pts])
    blat, bmlt, olat, rcor = dual.normal_coord(lat, mlt)
    refs = [bnd.dual_ref(case, k, la, ml) if np.sign(la) == hemi else None
            for la, ml in zip(lat, mlt)]
    args = [shaped(v, form) for v in (blat, bmlt)]
    rarg, marg = shaped(rcor, form), shaped(mlt, form)
    kw = {"is_ocb": False, "overwrite": case["over"]}
    if case["height"] == "scalar":
        kw["height"] = 200.0
    elif case["height"] == "array" and form in ("array", "list"):
        kw["height"] = 100.0 + gen.uneven(lat.size, 60.0)
    bnd.apply_prior(dual, case["prior"], case)
    before = bnd.stored(dual)
    keep = [np.array(v, copy=True) for v in args + [rarg, marg]]

    def unchanged():
        for val, old in zip(args + [rarg, marg], keep):
            require(gen.same_bits(np.array(val), old), "input was altered: {} "
                    "-> {}", old, val)

    # The MLT is needed once a location is equatorward of the OCB
    low = [r is not None and r["region"] != "cap" and r["gap"] > 1e-6
           for r in refs]
    allcap = all(r is not None and r["region"] == "cap" and r["gap"] > 1e-6
                 for r in refs)
    if any(low):
        try:
            out = dual.revert_coord(*args, r_corr=rarg, **kw)
        except ValueError:
            pass
        else:
            fail("no MLT was given for {} but the answer is {}", args, out)
    elif allcap:
        out = dual.revert_coord(*args, r_corr=rarg, **kw)
        one = dual.ocb.revert_coord(*args, r_corr=rarg)
        require(gen.close(out[0], one[0], 1e-9) and gen.close(
            out[1], one[1], 1e-9), "polar cap {} reverts to {}, the OCB to {}",
            args, out, one)

    out = dual.revert_coord(*args, r_corr=rarg, aacgm_mlt=marg, **kw)
    unchanged()
    shape = () if form in ("scalar", "0d") else lat.shape
    require(np.shape(out[0]) == shape and np.shape(out[1]) == shape,
            "output shapes {} {}", np.shape(out[0]), np.shape(out[1]))
    rlat, rmlt = np.atleast_1d(out[0]), np.atleast_1d(out[1])
    regions = set()
    for i, ref in enumerate(refs):
        if ref is None:
            require(math.isnan(rlat[i]), "location {} {} outside the "
                    "hemisphere came back as {} {}", lat[i], mlt[i], rlat[i],
                    rmlt[i])
            continue
        regions.add(ref["region"])
        tol = 1.0e-7 * (10.0 + abs(90.0 - abs(lat[i]))) + (
            1e-4 if ref["gap"] < 1e-6 else 0.0)
        require(abs(rlat[i] - lat[i]) <= tol and close_xy(
            hemi, rlat[i], rmlt[i], lat[i], mlt[i], tol),
            "({}, {}) in the {} region -> ({}, {}, {}) -> ({}, {})", lat[i],
            mlt[i], ref["region"], blat[i], bmlt[i], rcor[i], rlat[i], rmlt[i])
        require(0.0 <= rmlt[i] < 24.0, "MLT {}", rmlt[i])
        one = dual.revert_coord(float(blat[i]), float(bmlt[i]),
                                r_corr=float(rcor[i]), is_ocb=False,
                                aacgm_mlt=float(mlt[i]))
        require(np.shape(one[0]) == () and close_xy(
            hemi, float(one[0]), float(one[1]), lat[i], mlt[i], tol),
            "alone, ({}, {}) comes back as {}", lat[i], mlt[i], one)
    if not case["over"]:
        bad = bnd.survived(before, bnd.stored(dual))
        require(not bad, "stored boundary values changed: {}", bad)
    require(dual.rec_ind == k and dual.ocb.rec_ind == dual.ocb_ind[k]
            and dual.eab.rec_ind == dual.eab_ind[k],
            "the selected pair changed")

    # OCB coordinates are reverted as by the OCB itself
    oarg = shaped(olat, form)
    mine = dual.revert_coord(oarg, args[1], r_corr=rarg)
    theirs = dual.ocb.revert_coord(oarg, args[1], r_corr=rarg)
    require(gen.close(mine[0], np.reshape(theirs[0], np.shape(mine[0])), 1e-9)
            and gen.close(mine[1], np.reshape(theirs[1], np.shape(mine[1])),
                          1e-9), "OCB coordinates revert to {}, not {}", mine,
            theirs)
    # Without a selected pair
    dual.rec_ind = case["bad"]
    for val in dual.revert_coord(*args, r_corr=rarg, aacgm_mlt=marg, **kw):
        require(np.shape(val) == shape and np.all(np.isnan(val)),
                "pair {} of {} gave {}", case["bad"], dual.records, val)
    ctx.nontrivial(bool(regions - {"cap"}))
    for reg in regions:
        ctx.tag(reg)
    ctx.tag("several regions", len(regions) > 1)
    ctx.tag("form:" + form)
    ctx.tag("south", hemi < 0)
    ctx.tag("stored before", case["prior"] is not None)


@st.composite
def inv_case(draw):
    """From boundary coordinates, with geographic output too."""
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    case["ind"] = draw(st.integers(0, nrec - 1))
    case["pts"] = draw(bnd.dual_points(case, case["ind"], other=False,
                                       edges=False, max_size=5))
    case["form"] = draw(st.sampled_from(FORMS))
    case["coords"] = draw(st.sampled_from(["magnetic", "geodetic",
                                           "geocentric"]))
    case["spell"] = gen.spelled(draw)
    case["height"] = draw(st.sampled_from([None, "scalar", "array", "array"]))
    case["trace"] = draw(st.sampled_from([None, None, "ALLOWTRACE", "TRACE"]))
    case["hval"] = draw(fl(0.0, 900.0))
    case["prior"] = draw(bnd.prior(nrec))
    return case


def inv_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    hemi, k = case["hemi"], case["ind"]
    dual.rec_ind = k
    bnd.apply_prior(dual, case["prior"], case)
    before = bnd.stored(dual)
    form = case["form"]
    pts = [p for p in case["pts"] if abs(p[0]) > 45.0]
    if not pts:
        return
    if form in ("scalar", "0d"):
        pts = pts[:1]
    refs = [bnd.dual_ref(case, k, la, ml) for la, ml in pts]
    if any(r["gap"] < 1e-6 for r in refs):
        return   # round-off decides the region
    blat = [r["blat"] for r in refs]
    bmlt = [math.degrees(math.atan2(r["y"], r["x"])) / 15.0 % 24.0
            for r in refs]
    rcor = [r["rcorr"] for r in refs]
    mlt = [p[1] for p in pts]
    kw, hts = {}, np.full(len(pts), 350.0)
    if case["height"] == "scalar":
        kw, hts = {"height": case["hval"]}, np.full(len(pts), case["hval"])
    elif case["height"] == "array" and form in ("array", "list"):
        hts = case["hval"] + gen.uneven(len(pts), 75.0)
        kw = {"height": hts.copy()}
    bnd.tracing(case, [p[0] for p in pts], None, hts, None, magnetic=True)
    if case["trace"] is not None:
        kw["method"] = case["trace"]
    out = dual.revert_coord(
        shaped(blat, form), shaped(bmlt, form), r_corr=shaped(rcor, form),
        is_ocb=False, aacgm_mlt=shaped(mlt, form),
        coords=gen.spell(case["coords"], case["spell"]), **kw)
    bad = bnd.survived(before, bnd.stored(dual))
    require(not bad, "stored boundary values changed: {}", bad)
    glat, glt = np.atleast_1d(out[0]), np.atleast_1d(out[1])
    dtime = gen.to_dt(case["ocb"]["recs"][k]["time"])
    uth = dtime.hour + dtime.minute / 60.0 + dtime.second / 3600.0
    seen = 0
    for i, (la, ml) in enumerate(pts):
        if case["coords"] == "magnetic":
            tol = 1.0e-7 * (100.0 - abs(la))
            require(abs(glat[i] - la) <= tol and close_xy(
                hemi, glat[i], glt[i], la, ml, tol), "boundary location "
                "({}, {}) reverts to ({}, {}), not ({}, {})", blat[i], bmlt[i],
                glat[i], glt[i], la, ml)
            seen += 1
            continue
        method = (case["trace"] or "ALLOWTRACE") + "|A2G" + ("|GEOCENTRIC" if case["coords"]
                                     == "geocentric" else "")
        lon = aacgmv2.convert_mlt([ml], dtime, m2a=True)
        elat, elon, _ = aacgmv2.convert_latlon_arr(
            np.array([la]), np.asarray(lon), np.array([hts[i]]), dtime, method)
        if math.isnan(elat[0]):
            continue
        seen += 1
        elt = (float(elon[0]) / 15.0 + uth) % 24.0
        tol = bnd.inverse_tol(case, la, float(np.ravel(lon)[0]), hts[i],
                              dtime, method, 2.0e-6)
        slack = tol / max(1.0e-3, math.cos(math.radians(elat[0])))
        require(abs(glat[i] - elat[0]) <= tol and float(gen.ang_diff(
            glt[i], elt, 24.0)) <= slack and 0.0 <= glt[i] < 24.0,
            "{} at height {}: boundary location ({}, {}) in the {} region "
            "reverts to ({}, {}), not ({}, {})", case["coords"], hts[i],
            blat[i], bmlt[i], refs[i]["region"], glat[i], glt[i], elat[0], elt)
    regions = {r["region"] for r in refs}
    ctx.nontrivial(seen > 0 and bool(regions - {"cap"}))
    ctx.tag(case["coords"])
    ctx.tag("several regions", len(regions) > 1)
    ctx.tag("several regions, geographic", len(regions) > 1
            and case["coords"] != "magnetic")
    ctx.tag("height:" + str(case["height"]))
    ctx.tag("method:" + str(case["trace"]))
    ctx.tag("form:" + form)


@st.composite
def mix_case(draw):
    """Boundary locations of which some parts are shared by all of them."""
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    case["ind"] = draw(st.integers(0, nrec - 1))
    oref, eref = abs(case["ocb"]["ref"]), abs(case["eab"]["ref"])
    lat = st.one_of(fl(oref, 89.9), fl(eref, oref), fl(40.0, eref),
                    st.integers(45, 89))
    hour = st.one_of(fl(0.0, 23.999), st.integers(0, 23))
    num = draw(st.integers(1, 5))
    case["vals"] = {
        "lat": draw(st.lists(lat, min_size=num, max_size=num)),
        "mlt": draw(st.lists(hour, min_size=num, max_size=num)),
        "amlt": draw(st.lists(hour, min_size=num, max_size=num)),
        "rcorr": draw(st.lists(st.one_of(fl(-2.0, 2.0), st.integers(-1, 2)),
                               min_size=num, max_size=num))}
    # Either the latitudes or the local times have the full size
    one = draw(st.sampled_from([[], ["lat"], ["mlt"], ["amlt"], ["mlt", "amlt"],
                                ["lat", "amlt"], ["lat", "mlt"]]))
    case["one"] = one + (["rcorr"] if draw(st.booleans()) else [])
    case["heights"] = "lat" in one and "mlt" in one or draw(st.booleans())
    case["form"] = draw(st.sampled_from(["float", "0d", "int", "list"]))
    case["skip"] = draw(st.booleans())
    return case


def mix_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    hemi, k, form = case["hemi"], case["ind"], case["form"]
    dual.rec_ind = k
    num = len(case["vals"]["lat"])
    args, flat = {}, {}
    for key, vals in case["vals"].items():
        vals = [v * hemi if key == "lat" else v for v in vals]
        if form == "int" and key != "rcorr":
            vals = [int(v) for v in vals]
        if key in case["one"]:
            vals = [vals[0]] * num
            args[key] = np.array(vals[0]) if form == "0d" else vals[0]
        else:
            args[key] = list(vals) if form == "list" else np.array(vals)
        flat[key] = [float(v) for v in vals]
    oref, eref = abs(case["ocb"]["ref"]), abs(case["eab"]["ref"])
    kw = {"r_corr": args["rcorr"]}
    if case["heights"]:
        kw["height"] = 100.0 + gen.uneven(num, 40.0)
    if all(abs(v) >= oref for v in flat["lat"]) and case["skip"]:
        ctx.tag("no MLT given")
    else:
        kw["aacgm_mlt"] = args["amlt"]
    keep = {key: np.array(val, copy=True) for key, val in args.items()}
    out = dual.revert_coord(args["lat"], args["mlt"], is_ocb=False, **kw)
    for key, val in args.items():
        require(gen.same_bits(np.array(val), keep[key]),
                "input was altered: {} -> {}", keep[key], val)
    require(np.shape(out[0]) == (num,) and np.shape(out[1]) == (num,),
            "output shapes {} {} for {} locations", np.shape(out[0]),
            np.shape(out[1]), num)
    orec, erec = case["ocb"]["recs"][k], case["eab"]["recs"][k]
    regions = set()
    for i in range(num):
        blat, bmlt, amlt, rcor = [flat[key][i] for key in (
            "lat", "mlt", "amlt", "rcorr")]
        ob = geom.boundary_lat(orec, bnd.spec_of(case["ocb"], k), 1, amlt)[0]
        eb = geom.boundary_lat(erec, bnd.spec_of(case["eab"], k), 1, amlt)[0]
        alat = abs(blat)
        if alat >= oref:
            reg = "cap"
            lat, xp, yp = geom.revert(orec, hemi, oref, blat, bmlt, rcor)
        else:
            reg = "oval" if alat >= eref else "sub"
            lat = hemi * (ob - (oref - alat) * (ob - eb) / (oref - eref)
                          if reg == "oval" else alat * eb / eref)
            xp, yp = geom.polar(90.0 - hemi * lat, amlt)
        regions.add(reg)
        gx, gy = geom.polar(90.0 - hemi * float(out[0][i]), float(out[1][i]))
        require(abs(out[0][i] - lat) <= 1e-6 and math.hypot(gx - xp, gy - yp)
                <= 1e-6 and 0.0 <= out[1][i] < 24.0, "({}, {}) with AACGM MLT "
                "{} in the {} region reverts to ({}, {}), not latitude {}, x "
                "{}, y {}", blat, bmlt, amlt, reg, out[0][i], out[1][i], lat,
                xp, yp)
    ctx.nontrivial(bool(regions - {"cap"}) and bool(case["one"]))
    for reg in regions:
        ctx.tag(reg)
    ctx.tag("several regions", len(regions) > 1)
    ctx.tag("form:" + form)
    for key in case["one"]:
        ctx.tag("shared:" + key)


TARGETS = [
    Target("broadcast", mix_case(), mix_check, 700,
           rule="a location equatorward of the OCB, some values shared"),
    Target("round_trip", mag_case(), mag_check, 1300,
           rule="a location equatorward of the OCB"),
    Target("inverse", inv_case(), inv_check, 1200,
           rule="a location equatorward of the OCB was compared"),
]
