"""P03: the boundary latitude profile is where the boundary really is.

Oracle: independent ray/circle intersection, a model of the stored lists over sequences of requests, and the relation to normal_coord.
"""
import math

import aacgmv2
import numpy as np
from hypothesis import strategies as st

from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "corrected boundary radius above 1 degree; MLT within [-24, 48)",
    "directions within 1e-6 of tangency to the boundary circle are not judged"]


def mlt_values(max_size=5):
    val = st.one_of(fl(0.0, 23.999), fl(-24.0, 47.999),
                    st.sampled_from([0.0, 24.0, -0.25, 47.75, -24.0, 12.0, 6.0]))
    return st.lists(val, min_size=1, max_size=max_size)


@st.composite
def request(draw, nrec):
    return {"mlt": draw(mlt_values()),
            "form": draw(st.sampled_from(["array", "array", "list", "scalar",
                                          "int", "0d"])),
            "who": draw(st.one_of(
                st.none(), st.integers(0, nrec - 1),
                st.lists(st.integers(0, nrec - 1), min_size=1, max_size=nrec,
                         unique=True))),
            "warr": draw(st.booleans()),
            "omit": draw(st.booleans()),
            "over": draw(st.booleans()), "lon": draw(st.booleans())}


@st.composite
def one_case(draw):
    # offset centres may leave the pole outside the boundary
    case = draw(bnd.boundary(max_recs=4, rlo=4.0, rhi=30.0, rcmax=15.0,
                             step=0))
    case["reqs"] = draw(st.lists(request(len(case["recs"])), min_size=1,
                                 max_size=4))
    return case


def as_mlt(req):
    vals = [float(v) for v in req["mlt"]]
    if req["form"] == "scalar":
        return vals[0], np.array(vals[0])
    if req["form"] == "int":
        return int(vals[0]), np.array(float(int(vals[0])))
    if req["form"] == "0d":
        return np.array(vals[0]), np.array(vals[0])
    if req["form"] == "list":
        return list(vals), np.array(vals)
    return np.array(vals), np.array(vals)


def who_of(req, nrec):
    if req["who"] is None:
        return None, list(range(nrec))
    if isinstance(req["who"], int):
        return req["who"], [req["who"]]
    return (np.array(req["who"]) if req["warr"] else list(req["who"]),
            list(req["who"]))


def check_record(ocb, case, i, mlt, tag, seen):
    """The values stored for one record are those of these MLTs."""
    got = np.asarray(ocb.aacgm_boundary_lat[i], float)
    gmlt = np.asarray(ocb.aacgm_boundary_mlt[i], float)
    require(got.shape == mlt.shape and gmlt.shape == mlt.shape,
            "{}: shapes {} {} for MLT shape {}", tag, got.shape, gmlt.shape,
            mlt.shape)
    require(bool(np.all((gmlt >= 0.0) & (gmlt < 24.0)
                        & (gen.ang_diff(gmlt, mlt, 24.0) < 1e-9))),
            "{}: stored MLT {} for requested {}", tag, gmlt, mlt)
    rec, spec = case["recs"][i], bnd.spec_of(case, i)
    for idx in np.ndindex(mlt.shape):
        if rec["r"] + geom.corr(spec, mlt[idx] % 24.0) < 1.0:
            continue
        exp, marg = geom.boundary_lat(rec, spec, case["hemi"], mlt[idx] % 24.0)
        if abs(marg) < 1e-6:
            continue
        if math.isnan(exp):
            seen.add("none")
            require(math.isnan(got[idx]), "{}: latitude {} at MLT {} where the "
                    "boundary does not reach", tag, got[idx], mlt[idx])
        else:
            seen.add("found")
            require(abs(got[idx] - exp) < 1e-7, "{}: latitude {} at MLT {}, "
                    "not {}", tag, got[idx], mlt[idx], exp)


def snapshot(ocb):
    out = {}
    for key in ("aacgm_boundary_lat", "aacgm_boundary_mlt",
                "aacgm_boundary_lon"):
        if hasattr(ocb, key):
            out[key] = [None if v is None else np.array(v, copy=True)
                        for v in getattr(ocb, key)]
    return out


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return np.array_equal(a, b, equal_nan=True)


def apply_check(ocb, case, request_, before, who, mlt, tag, seen):
    """Compare the lists after a request with the model's expectation."""
    require(len(ocb.aacgm_boundary_lat) == ocb.records
            and len(ocb.aacgm_boundary_mlt) == ocb.records,
            "{}: {} latitudes for {} records", tag,
            len(ocb.aacgm_boundary_lat), ocb.records)
    for i in range(ocb.records):
        old = before.get("aacgm_boundary_lat", [None] * ocb.records)[i]
        if i in who and (old is None or request_["over"]):
            check_record(ocb, case, i, mlt, "{} record {}".format(tag, i), seen)
            if request_["lon"]:
                lon = np.asarray(ocb.aacgm_boundary_lon[i], float)
                dtime = gen.to_dt(case["recs"][i]["time"])
                exp = np.asarray(aacgmv2.convert_mlt(
                    np.atleast_1d(mlt % 24.0), dtime, m2a=True))
                require(lon.size == exp.size and bool(np.all(gen.ang_diff(
                    lon.reshape(-1), exp, 360.0) < 1e-6)),
                    "{} record {}: longitudes {}, not {}", tag, i, lon, exp)
            continue
        for key in ("aacgm_boundary_lat", "aacgm_boundary_mlt",
                    "aacgm_boundary_lon"):
            if not hasattr(ocb, key):
                continue
            was = before.get(key, [None] * ocb.records)[i]
            require(same(getattr(ocb, key)[i], was), "{}: {} of record {} "
                    "changed: {} -> {}", tag, key, i, was, getattr(ocb, key)[i])


def one_check(case, ctx):
    ocb = bnd.make(case, ctx.path("b.txt"))
    ocb.rec_ind = 0
    seen, blocked = set(), False
    for num, req in enumerate(case["reqs"]):
        inp, mlt = as_mlt(req)
        rinp, who = who_of(req, ocb.records)
        before = snapshot(ocb)
        keep = np.array(inp, copy=True)
        rkeep = None if rinp is None else np.array(rinp, copy=True)
        kw = {"overwrite": req["over"], "set_lon": req["lon"]}
        if req["omit"]:
            # Leave out what has its default value
            kw = {k: v for k, v in kw.items() if v != (k == "set_lon")}
        if rinp is not None or not req["omit"]:
            kw["rec_ind"] = rinp
        ocb.get_aacgm_boundary_lat(inp, **kw)
        require(gen.same_bits(np.array(inp), keep) and (
            rkeep is None or np.array_equal(rkeep, rinp)),
            "request {} altered its input: {} -> {}", num, keep, inp)
        blocked |= not req["over"] and any(
            before.get("aacgm_boundary_lat", [None] * ocb.records)[i]
            is not None for i in who)
        apply_check(ocb, case, req, before, who, mlt,
                    "request {}".format(num), seen)
        require(ocb.rec_ind == 0, "record index changed")

    # The boundary lies on the boundary: normalise the stored locations
    for i in range(ocb.records):
        if ocb.aacgm_boundary_lat[i] is None:
            continue
        ocb.rec_ind = i
        rec, spec = case["recs"][i], bnd.spec_of(case, i)
        lat = np.atleast_1d(np.asarray(ocb.aacgm_boundary_lat[i], float))
        mlt = np.atleast_1d(np.asarray(ocb.aacgm_boundary_mlt[i], float))
        olat = np.atleast_1d(ocb.normal_coord(lat, mlt)[0])
        for la, ml, out in zip(lat, mlt, olat):
            if (not math.isnan(la) and np.sign(la) == case["hemi"]
                    and rec["r"] + geom.corr(spec, ml) >= 1.0
                    and geom.boundary_lat(rec, spec, 1, ml)[1] > 1e-3):
                require(abs(abs(out) - abs(case["ref"])) < 1e-6,
                        "boundary location ({}, {}) has boundary latitude {}, "
                        "not {}", la, ml, out, case["ref"])
    ctx.nontrivial("found" in seen and any(r["rc"] > 0 for r in case["recs"]))
    ctx.tag("pole outside boundary", "none" in seen)
    ctx.tag("overwrite blocked", blocked)
    ctx.tag("requests:{}".format(len(case["reqs"])))
    ctx.tag("several records", ocb.records > 1)
    ctx.tag("south", case["hemi"] < 0)


@st.composite
def dual_case(draw):
    case = draw(bnd.dual())
    nrec = len(case["ocb"]["recs"])
    reqs = draw(st.lists(request(nrec), min_size=1, max_size=3))
    case["reqs"] = reqs
    return case


def dual_check(case, ctx):
    dual = bnd.make_dual(case, ctx)
    nrec = len(case["ocb"]["recs"])
    require(dual.records == nrec, "{} pairs, not {}", dual.records, nrec)
    seen = set()
    for num, req in enumerate(case["reqs"]):
        inp, mlt = as_mlt(req)
        rinp, who = who_of(req, nrec)
        before = {k: snapshot(getattr(dual, k)) for k in ("ocb", "eab")}
        keep = np.array(inp, copy=True)
        kw = {"overwrite": req["over"], "set_lon": req["lon"]}
        if req["omit"]:
            # Leave out what has its default value
            kw = {k: v for k, v in kw.items() if v != (k == "set_lon")}
        if rinp is not None or not req["omit"]:
            kw["rec_ind"] = rinp
        dual.get_aacgm_boundary_lats(inp, **kw)
        require(gen.same_bits(np.array(inp), keep), "input was altered")
        for key in ("ocb", "eab"):
            # Without indices, all locations of each boundary are calculated
            inds = (range(getattr(dual, key).records) if rinp is None
                    else [bnd.pos(case[key], k) for k in who])
            apply_check(getattr(dual, key), bnd.full(case[key]), req,
                        before[key], inds, mlt, "request {} {}".format(
                            num, key), seen)
    ctx.nontrivial("found" in seen)
    ctx.tag("pairs:{}".format(nrec))


TARGETS = [
    Target("single", one_case(), one_check, 2400,
           rule="a boundary with an offset centre has a latitude there"),
    Target("dual", dual_case(), dual_check, 1000,
           rule="a latitude was computed"),
]
