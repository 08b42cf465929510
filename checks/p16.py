"""P16: vector data objects give correctly rotated, scaled boundary vectors.

Oracle: per element, reference boundary coordinates, spherical bearing of the boundary centre, plane rotation and the scaling function on the corrected and reference radii.
"""
import logging
import math

import aacgmv2
import numpy as np
import ocbpy
from hypothesis import strategies as st
from ocbpy import ocb_scaling
from ocbpy import ocb_time

from checks.p15 import bearing, rotate
from lib import bnd, gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "one-dimensional or scalar data, and an object that has no boundary "
    "coordinates from an earlier assignment",
    "data not at the AACGM pole nor within 0.05 degrees of the boundary centre",
    "geographic input is compared to 1e-4, the accuracy of the AACGM library"]


def shifted(val, unscaled, scaled):
    """A scaling function that is not linear in the value."""
    return val * unscaled - 0.25 * scaled


SCALES = {"none": None, "evar": ocb_scaling.normal_evar,
          "curl": ocb_scaling.normal_curl_evar, "shifted": shifted}
FORMULA = {"none": lambda v, u, s: v, "evar": lambda v, u, s: v * u / s,
           "curl": lambda v, u, s: v * u * u / (s * s), "shifted": shifted}


# ------------------------------------------------------------- boundary vectors
@st.composite
def vec_case(draw, geo=False):
    kind = draw(st.sampled_from(["OCB", "EAB", "OCB", "EAB", "dual", "dual"]))
    if kind == "dual":
        bound = draw(bnd.dual())
        nrec, hemi = len(bound["ocb"]["recs"]), bound["hemi"]
    else:
        bound = draw(bnd.boundary(cls=kind, small_corr=True, rlo=12.0,
                                  rcmax=8.0))
        nrec, hemi = len(bound["recs"]), bound["hemi"]
    how = draw(st.sampled_from(["one", "dat", "dat", "ocb", "both", "both"]))
    npts = 1 if how in ("one", "ocb") else draw(st.integers(1, 5))
    if kind == "dual" and not geo:
        pts = [draw(bnd.dual_points(bound, 0, max_size=1, edges=False))[0]
               for _ in range(npts)]
    else:
        pts = [draw(bnd.points(hemi, max_size=1, lat_lo=50.0))[0]
               for _ in range(npts)]
    if geo:
        # Away from the poles, where directions are ill-defined
        pts = [[None if p[0] is None else max(-80.0, min(80.0, p[0])),
                p[1] % 24.0] for p in pts]
    elif draw(st.integers(0, 9)) == 0:
        # In line with the boundary centre
        rec = (bound["ocb"] if kind == "dual" else bound)["recs"][0]
        pts[0][1] = rec["phi"] / 15.0 + draw(st.sampled_from([0.0, 12.0]))
    nidx = {"one": 1, "dat": 1, "both": npts,
            "ocb": draw(st.integers(1, 4))}[how]
    inds = [draw(st.integers(0, nrec - 1)) for _ in range(nidx)]
    comp = st.one_of(fl(-100.0, 100.0, special=[0, 1, -1]),
                     st.sampled_from([0.0, 5.0, -5.0]),
                     st.sampled_from([0.0, 5.0, -5.0, None])).map(
                         lambda v: 0.0 if v is not None and abs(v) < 1.0e-6
                         else v)
    vec = {c: [draw(comp) for _ in range(npts)] for c in "nez"}
    coords = draw(st.sampled_from(
        [["magnetic", "geodetic"], ["magnetic", "geocentric"],
         ["geodetic", "geodetic"], ["geocentric", "geocentric"],
         ["geodetic", "magnetic"], ["geocentric", "magnetic"]]
        if geo else [["magnetic", "magnetic"]]))
    given_coord = None
    if not geo and draw(st.integers(0, 5)) == 0:
        given_coord = draw(st.lists(st.booleans(), min_size=1, max_size=5))
    return {"kind": kind, "bound": bound, "how": how, "pts": pts,
            "inds": inds, "vec": vec, "flat": {
                c: draw(st.integers(0, 4)) == 0 for c in
                ("n", "e", "z", "lat", "lt", "height")},
            "coords": coords, "given": given_coord,
            "spell": gen.spelled(draw),
            "height": [draw(st.sampled_from([350.0, 110.0, 800.0]))
                       for _ in range(npts)],
            "scale": draw(st.sampled_from(sorted(SCALES))),
            "when": draw(st.sampled_from(["init", "assign"])),
            "start": draw(st.integers(-1, nrec - 1)),
            "setter": draw(st.integers(0, 4)) == 0,
            "omit": draw(st.booleans()),
            "lists": draw(st.booleans()),
            "trace": draw(st.sampled_from([None, None, "ALLOWTRACE",
                                           "TRACE"]))}


def reference(case, lat, mlt, ind):
    """(boundary lat, x, y or None, mlt, r_corr, edge gap, rec, ref lat)."""
    bound, hemi = case["bound"], case["bound"]["hemi"]
    if case["kind"] == "dual":
        rec, ref = bound["ocb"]["recs"][ind], bound["ocb"]["ref"]
        spec = bnd.spec_of(bound["ocb"], ind)
    else:
        rec, ref = bound["recs"][ind], bound["ref"]
        spec = bnd.spec_of(bound, ind)
    olat, xn, yn, rcor = geom.normal(rec, spec, hemi, ref, lat, mlt)
    out = {"lat": olat, "rcorr": rcor, "rec": rec, "ref": ref, "gap": 90.0,
           "mlt": (math.degrees(math.atan2(yn, xn)) / 15.0) % 24.0
           if olat == olat else geom.NAN, "rad": math.hypot(xn, yn)}
    if case["kind"] == "dual" and olat == olat:
        dual = bnd.dual_ref(bound, ind, lat, mlt)
        out.update(lat=dual["blat"], gap=dual["gap"])
    return out


def make(case, ctx):
    if case["kind"] == "dual":
        obj = bnd.make_dual(case["bound"], ctx)
        times = obj.ocb.dtime
    else:
        obj = bnd.make(case["bound"], ctx.path("b.txt"))
        times = obj.dtime
    return obj, times


def slope_of(scale, val, unscaled, scaled, delta):
    """Change of the scaled value within delta of the value."""
    func = FORMULA[scale]
    mid = func(val, unscaled, scaled)
    return max(abs(func(val + delta, unscaled, scaled) - mid),
               abs(func(val - delta, unscaled, scaled) - mid)
               ) + 1.0e-9 * abs(mid) + 1.0e-12


def southern(lat, lt, pla, plt):
    """Bearing from north of the pole when taken in the other hemisphere."""
    a, b = math.radians(lat), math.radians(pla)
    dl = math.radians((plt - lt) * 15.0)
    side = math.sin(dl) * math.cos(b)
    front = math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(dl)
    return math.atan2(side, front), math.hypot(side, front)


def to_mag(case, pos, time, hemi):
    """Magnetic location and vector of element pos at a time (geo input)."""
    loc, vco = case["coords"]
    lat, lt = [math.nan if v is None else v for v in case["use"]["loc"][pos]]
    height = case["use"]["height"][pos]
    vec = [case["use"]["vec"][c][pos] for c in "nez"]
    ext = "|GEOCENTRIC" if "geocentric" in (loc, vco) else ""
    trace = case["trace"] or "ALLOWTRACE"
    if loc == "magnetic":
        mlat, mlt = lat, lt
        lon = float(np.ravel(aacgmv2.convert_mlt(lt, time, m2a=True))[0])
        glat, glon, _ = aacgmv2.convert_latlon(
            lat, lon, height, time, "A2G|" + trace + ext)
        glt = float(ocb_time.glon2slt(glon, time))
    else:
        glat, glt = lat, lt
        mlat, _, mlt = aacgmv2.get_aacgm_coord(
            lat, float(ocb_time.slt2glon(lt, time)), height, time,
            trace + ext)
    if vco == "magnetic":
        return mlat, mlt, vec
    if math.isnan(mlat) or math.isnan(glat):
        return mlat, mlt, [math.nan] * 3
    plat, plon, _ = aacgmv2.convert_latlon(hemi * 90.0, 0.0, height, time,
                                           "A2G|" + trace + ext)
    plt = float(ocb_time.glon2slt(plon, time))
    if glat * hemi <= 0.0:
        return mlat, mlt, None
    beta, tol, inline = bearing(glat, glt, plat, plt)
    if beta is None or tol > 1.0e-6 or inline:
        return mlat, mlt, None
    north, east = rotate(vec[0], vec[1], beta)
    return mlat, mlt, [north, east, vec[2]]


def vec_check(case, ctx):
    how, hemi = case["how"], case["bound"]["hemi"]
    geo = case["coords"] != ["magnetic", "magnetic"]
    obj, times = make(case, ctx)
    if case["kind"] == "dual":
        nrec = len(case["bound"]["ocb"]["recs"])
        require(obj.records == nrec, "{} dual records instead of {}",
                obj.records, nrec)
        times = [gen.to_dt(r["time"]) for r in case["bound"]["ocb"]["recs"]]
    obj.rec_ind = case["start"]
    npts = len(case["pts"])
    many = how in ("dat", "both")

    # The input values and the arguments that carry them
    cols = {"lat": [p[0] for p in case["pts"]],
            "lt": [p[1] for p in case["pts"]], "height": case["height"]}
    cols.update(case["vec"])
    args, use = {}, {}
    for name, vals in cols.items():
        vals = [math.nan if v is None else float(v) for v in vals]
        if not many:
            args[name], use[name] = vals[0], vals[:1]
        elif case["flat"][name]:
            args[name], use[name] = vals[0], [vals[0]] * npts
        else:
            args[name] = list(vals) if case["lists"] else np.array(vals)
            use[name] = vals
    case["use"] = {"loc": list(zip(use["lat"], use["lt"])), "vec": use,
                   "height": use["height"]}
    dat_ind = list(range(npts)) if many else 0
    if many and not case["lists"]:
        dat_ind = np.array(dat_ind)
    inds = list(case["inds"]) if how in ("ocb", "both") else case["inds"][0]
    pairs = {"one": [(0, case["inds"][0])],
             "dat": [(i, case["inds"][0]) for i in range(npts)],
             "ocb": [(0, k) for k in case["inds"]],
             "both": list(zip(range(npts), case["inds"]))}[how]
    shape = () if how == "one" else (len(pairs),)
    if case["coords"][0] == "magnetic" or case["coords"][1] != "magnetic":
        case["trace"] = None   # the magnetic pole itself is not traced
    for pos, ind in pairs:
        bnd.tracing(case, use["lat"][pos], gen.slt2lon(
            use["lt"][pos], times[ind]), use["height"][pos], times[ind])

    # The expected locations and vectors
    refs = []
    for pos, ind in pairs:
        if geo:
            mlat, mlt, vec = to_mag(case, pos, times[ind], hemi)
        else:
            mlat, mlt = case["use"]["loc"][pos]
            vec = [use[c][pos] for c in "nez"]
        ref = reference(case, mlat, mlt, ind)
        ref.update(at=mlat, lt=mlt, vec=vec)
        refs.append(ref)

    kwargs = {"vect_n": args["n"], "vect_e": args["e"], "vect_z": args["z"],
              "height": args["height"],
              "loc_coord": gen.spell(case["coords"][0], case.get("spell", "lower")),
              "vect_coord": gen.spell(case["coords"][1], case.get("spell", "lower"))}
    if case["omit"]:
        # Inputs with their default value may be left out
        defaults = {"vect_n": 0.0, "vect_e": 0.0, "vect_z": 0.0,
                    "height": 350.0, "loc_coord": "magnetic",
                    "vect_coord": "magnetic"}
        kwargs = {k: v for k, v in kwargs.items()
                  if np.ndim(v) > 0 or v != defaults[k]}
    scale = SCALES[case["scale"]]
    if case["when"] == "init":
        kwargs["scale_func"] = scale
    given = case["given"] is not None and how != "dat"
    if given:
        hide = [case["given"][i % len(case["given"])]
                for i in range(len(refs))]
        vals = {"ocb_lat": [r["lat"] for r in refs],
                "ocb_mlt": [r["mlt"] for r in refs],
                "r_corr": [r["rcorr"] for r in refs]}
        for name, val in vals.items():
            val = [math.nan if h else v for h, v in zip(hide, val)]
            kwargs[name] = val[0] if shape == () else np.array(val)
        given = not all(math.isnan(v) for v in np.ravel(kwargs["ocb_lat"]))
        if given:
            for ref, hid in zip(refs, hide):
                if hid:
                    ref.update(lat=math.nan, mlt=math.nan, rcorr=math.nan)
    if case["setter"] and not given and case["given"] is None:
        vdat = ocb_scaling.VectorData(dat_ind, 0, args["lat"], args["lt"],
                                      **kwargs)
        vdat.ocb_ind = np.asarray(inds)
    else:
        vdat = ocb_scaling.VectorData(dat_ind, inds, args["lat"], args["lt"],
                                      **kwargs)
    norm = [math.sqrt(sum(use[c][i] ** 2 for c in "nez"))
            for i in range(npts if many else 1)]
    require(gen.close(vdat.vect_mag, norm if many else norm[0], 0.0, 1.0e-12),
            "vector magnitude {} instead of {}", vdat.vect_mag, norm)
    later = {"scale_func": scale} if case["when"] == "assign" else {}
    if case["trace"] is not None:
        later["trace_method"] = case["trace"]
    vdat.set_ocb(obj, **later)

    # Cycling through the boundary does not reach the vector data
    had = np.array(vdat.ocb_ind, copy=True)
    obj.rec_ind += 1
    require(np.array_equal(had, vdat.ocb_ind), "boundary index {} instead of "
            "{} after cycling", vdat.ocb_ind, had)

    for name in ("ocb_lat", "ocb_mlt", "r_corr", "ocb_n", "ocb_e", "ocb_z",
                 "ocb_mag"):
        val = np.asarray(getattr(vdat, name))
        require(val.shape == shape or (
            val.shape == () and name in ("ocb_lat", "ocb_mlt", "r_corr")
            and np.isnan(val)), "{} of shape {}, expected {}", name, val.shape,
            shape)
    got = {name: np.broadcast_to(getattr(vdat, name), shape) for name in
           ("ocb_lat", "ocb_mlt", "r_corr", "ocb_n", "ocb_e", "ocb_z",
            "ocb_mag")}
    judge(case, refs, got, shape, geo, ctx)
    ctx.tag(how + " " + case["kind"])
    ctx.tag("scale:" + case["scale"])
    ctx.tag("coordinates {} and {}".format(*case["coords"]))
    ctx.tag("south", hemi < 0)
    ctx.tag("given boundary coordinates", given)


def judge(case, refs, got, shape, geo, ctx):
    hemi = case["bound"]["hemi"]
    judged, found = 0, {}
    for k, ref in enumerate(refs):
        idx = () if shape == () else (k,)
        val = {name: float(arr[idx]) for name, arr in got.items()}
        comp = [val["ocb_n"], val["ocb_e"], val["ocb_z"]]
        where = "element {} at {}, record {} with vector {}".format(
            k, (ref["at"], ref["lt"]), ref["rec"], ref["vec"])
        eps = 1.0e-4 if geo else 1.0e-6
        near = ref["gap"] < (1.0e-2 if geo else 1.0e-6) or (
            geo and ref["at"] * hemi < 1.0)
        if near and not math.isnan(ref["at"]):
            continue
        require(abs(val["ocb_lat"] - ref["lat"]) <= eps * max(
            1.0, 1.0 if ref["lat"] != ref["lat"] else abs(ref["lat"]) / 45.0)
            or (math.isnan(val["ocb_lat"]) and math.isnan(ref["lat"])),
            "boundary latitude {} instead of {} for {}", val["ocb_lat"],
            ref["lat"], where)
        if math.isnan(ref["lat"]):
            require(all(math.isnan(v) for v in comp + [val["ocb_mag"]]),
                    "boundary vector {} without boundary coordinates for {}",
                    comp, where)
            continue
        require(gen.ang_diff(val["ocb_mlt"], ref["mlt"], 24.0) * max(
            ref["rad"], 1.0e-9) < 10.0 * eps, "boundary MLT {} instead of {} "
            "for {}", val["ocb_mlt"], ref["mlt"], where)
        require(abs(val["r_corr"] - ref["rcorr"]) <= eps, "radius correction "
                "{} instead of {} for {}", val["r_corr"], ref["rcorr"], where)
        mag = math.sqrt(sum(v * v for v in comp))
        require(abs(mag - val["ocb_mag"]) <= 1.0e-9 * mag or (
            math.isnan(mag) and math.isnan(val["ocb_mag"])),
            "magnitude {} of {} for {}", val["ocb_mag"], comp, where)
        if ref["vec"] is None:
            continue
        vn, ve, vz = ref["vec"]
        unscaled, scaled = ref["rec"]["r"] + ref["rcorr"], 90.0 - abs(
            ref["ref"])
        if math.isnan(vn) or math.isnan(ve):
            require(math.isnan(comp[0]) or math.isnan(comp[1]),
                    "boundary vector {} for {}", comp, where)
            continue
        pla, plt = 90.0 - ref["rec"]["rc"], ref["rec"]["phi"] / 15.0
        beta, tol, inline = bearing(ref["at"], ref["lt"], hemi * pla, plt)
        if beta is None:
            continue
        horiz = math.hypot(vn, ve)
        spread = 2.0 * tol + 5.0e-8
        if geo:
            # Rotation and radius follow the accuracy of the location
            dist = max(math.radians(90.0 - abs(ref["at"])), 1.0e-3)
            cond = dist * separation(ref["at"], ref["lt"], hemi * pla, plt)
            spread += 1.0e-5 / max(cond, 1.0e-4)
        func, scale = FORMULA[case["scale"]], case["scale"]

        def agrees(want, spread=spread):
            for have, exp, size in zip(comp, want, (horiz, horiz, abs(vz))):
                lim = func(exp, unscaled, scaled)
                if math.isnan(exp):
                    if not math.isnan(have):
                        return False
                    continue
                allow = slope_of(scale, exp, unscaled, scaled,
                                 size * spread + 1.0e-12)
                if geo:
                    allow += 1.0e-4 * (abs(lim) + size)
                if not abs(have - lim) <= allow:
                    return False
            return True

        judged += 1
        true = list(rotate(vn, ve, beta)) + [vz]
        if agrees(true):
            ctx.tag("rotated noticeably", abs(beta) > 1.0e-3 and horiz > 0)
            continue
        sout, front = southern(ref["at"], ref["lt"], pla, plt)
        if inline and (agrees([vn, ve, vz]) or agrees([-vn, -ve, vz])):
            found["aligned-poles"] = where
        elif hemi < 0 and agrees(
                list(rotate(vn, ve, sout)) + [vz],
                spread + min(1.0, 1.0e-7 / max(
                    front * math.cos(math.radians(ref["at"])), 1.0e-9))):
            found["southern-pole"] = where
        else:
            fail("boundary vector {} instead of {} for {}", comp,
                 [func(v, unscaled, scaled) for v in true], where)
    for key, where in found.items():
        ctx.known(key, where)
    ctx.nontrivial(judged > 0)


def separation(lat, lt, pla, plt):
    """Distance in radians between two locations of one hemisphere."""
    aa, bb = math.radians(abs(lat)), math.radians(abs(pla))
    dl = math.radians((plt - lt) * 15.0)
    return math.acos(max(-1.0, min(1.0, math.sin(aa) * math.sin(bb) + math.cos(
        aa) * math.cos(bb) * math.cos(dl))))


# --------------------------------------------------------- changed attributes
@st.composite
def change_case(draw):
    kind = draw(st.sampled_from(["OCB", "EAB", "dual"]))
    if kind == "dual":
        bound = draw(bnd.dual())
        nrec = len(bound["ocb"]["recs"])
    else:
        bound = draw(bnd.boundary(cls=kind, small_corr=True, rlo=12.0,
                                  rcmax=8.0))
        nrec = len(bound["recs"])
    hemi = bound["hemi"]
    num = draw(st.sampled_from([None, None, 2, 3, 4]))
    rec = st.integers(0, nrec - 1)
    some = st.one_of(rec, st.lists(rec, min_size=1, max_size=5)) if (
        num is None) else st.one_of(
            rec, st.lists(rec, min_size=num, max_size=num),
            st.lists(rec, min_size=1, max_size=5))

    def column(vals):
        """Shared or one for each."""
        if num is None:
            return vals
        return st.one_of(vals, st.lists(vals, min_size=num, max_size=num))

    comp = st.sampled_from([0.0, 1.0, -3.0, 40.0, -7.5])
    lat = (fl(52.0, 88.0).map(lambda v: hemi * v))
    ops = st.one_of(
        st.tuples(st.just("ocb_ind"), some),
        st.tuples(st.just("ocb_ind"), some),
        st.tuples(st.just("lat"), column(lat)),
        st.tuples(st.just("lt"), column(fl(0.0, 23.99))),
        st.tuples(st.just("height"), column(fl(80.0, 900.0))),
        st.tuples(st.sampled_from(["vect_n", "vect_e", "vect_z"]),
                  comp if num is None else st.lists(
                      comp, min_size=num, max_size=num)),
        st.tuples(st.just("dat_ind"), st.integers(0, 9) if num is None
                  else st.permutations(range(num))),
        st.tuples(st.just("set"), st.sampled_from(sorted(SCALES))),
        st.tuples(st.just("set"), st.just("none")))
    start = {"lat": draw(column(lat)), "lt": draw(column(fl(0.0, 23.99))),
             "height": 350.0, "dat_ind": 0 if num is None else list(
                 range(num)), "ocb_ind": draw(rec)}
    for name in ("vect_n", "vect_e", "vect_z"):
        start[name] = draw(column(comp))
    return {"kind": kind, "bound": bound, "num": num, "start": start,
            "ops": draw(st.lists(ops, min_size=1, max_size=8)),
            "prior": draw(st.booleans())}


RESULTS = ["ocb_lat", "ocb_mlt", "r_corr", "ocb_n", "ocb_e", "ocb_z",
           "ocb_mag", "vect_mag", "unscaled_r", "scaled_r"]


def fresh(state, scale=None):
    kwargs = {k: state[k] for k in ("height", "vect_n", "vect_e", "vect_z")}
    return ocb_scaling.VectorData(
        state["dat_ind"], state["ocb_ind"], state["lat"], state["lt"],
        scale_func=scale, **kwargs)


def change_check(case, ctx):
    obj, _ = make(case, ctx)
    num, state = case["num"], dict(case["start"])
    vdat = fresh(state)
    if case["prior"]:
        vdat.set_ocb(obj)
    assigned = sets = 0
    for name, val in [tuple(o) for o in case["ops"]] + [("set", "none")]:
        if name == "set":
            vdat.ocb_lat, vdat.ocb_mlt, vdat.r_corr = [math.nan] * 3
            vdat.dat_ind = state["dat_ind"]  # New components, new magnitude
            vdat.scale_func = SCALES[val]
            vdat.set_ocb(obj)
            new = fresh(state, SCALES[val])
            new.set_ocb(obj)
            for res in RESULTS:
                one, two = getattr(vdat, res), getattr(new, res)
                same = np.shape(one) == np.shape(two) or (
                    np.all(np.isnan(one)) and np.all(np.isnan(two)))
                require(same and np.allclose(
                    np.broadcast_to(one, np.shape(two)) if np.ndim(one) == 0
                    else one, two, rtol=1.0e-9, atol=1.0e-9, equal_nan=True),
                        "{} {} after {} changes instead of {}", res, one,
                        assigned, two)
            sets += assigned > 0
            continue
        if name == "ocb_ind" and num is not None and np.ndim(val) and len(
                val) != num:
            try:
                vdat.ocb_ind = np.array(val)
            except ValueError:
                ctx.tag("refused")
            else:
                fail("boundary indices {} taken for {} vectors", val, num)
            vdat.ocb_ind = np.asarray(state["ocb_ind"])
            continue
        setattr(vdat, name, val)
        state[name] = val
        assigned += 1
        if name in ("ocb_ind", "dat_ind"):
            shape = np.shape(state["ocb_ind"]) if num is None else (num,)
            for res in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag"):
                old = getattr(vdat, res)
                require((old.shape == shape or shape == ()) and np.all(
                    np.isnan(old)),
                        "{} {} of earlier indices after {} = {}", res, old,
                        name, val)
        elif num is not None and name in ("lat", "lt", "height"):
            require(np.array_equal(getattr(vdat, name), np.broadcast_to(
                val, (num,))), "{} {} after assigning {}", name,
                getattr(vdat, name), val)
    ctx.nontrivial(sets > 0)
    ctx.tag("kind: " + case["kind"])
    ctx.tag("index shape changed", len({np.shape(v) for o, v in case["ops"]
                                        if o == "ocb_ind"}) > 1)


# ----------------------------------------------------------- shape inconsistency
@st.composite
def shape_case(draw):
    size = st.sampled_from([None, None, 1, 2, 3, 4])
    base = draw(size)
    out = {}
    for name in ("dat", "lat", "lt", "n", "e", "z"):
        out[name] = draw(st.one_of(st.just(base), st.just(base),
                                   st.just(base), st.none(), size))
    ind = draw(st.one_of(st.just(base), st.none(), size))
    out["ind"] = ind
    for name in ("olat", "omlt", "rcor"):
        out[name] = draw(st.one_of(st.just(ind), st.just(ind), st.none(),
                                   size if ind is not None else st.none()))
    coords = st.sampled_from(["magnetic"] * 6 + [
        "geodetic", "geocentric", "Magnetic", "GEODETIC", "geographic", "mag"])
    out["loc"], out["vco"] = draw(coords), draw(coords)
    return out


def consistent(case):
    dat, ind = case["dat"], case["ind"]
    for name in ("lat", "lt", "n", "e", "z"):
        if case[name] is not None and case[name] != dat:
            return False
    if ind is not None and any(case[k] not in (None, ind) for k in
                               ("olat", "omlt", "rcor")):
        return False
    if dat is not None and ind is not None and dat != ind:
        return False
    loc, vco = case["loc"].lower(), case["vco"].lower()
    good = ("magnetic", "geodetic", "geocentric")
    return loc in good and vco in good and (
        loc == vco or "magnetic" in (loc, vco))


def shape_check(case, ctx):
    def arg(name, val):
        size = case[name]
        return val if size is None else np.full(size, val)

    expect = consistent(case)
    try:
        vdat = ocb_scaling.VectorData(
            arg("dat", 1), arg("ind", 0), arg("lat", 75.0), arg("lt", 4.5),
            vect_n=arg("n", 3.0), vect_e=arg("e", 4.0), vect_z=arg("z", 12.0),
            ocb_lat=arg("olat", 80.0), ocb_mlt=arg("omlt", 5.0),
            r_corr=arg("rcor", 0.5), loc_coord=case["loc"],
            vect_coord=case["vco"])
    except ValueError as err:
        require(not expect, "consistent input refused: {}", err)
        ctx.tag("refused")
        ctx.nontrivial()
        return
    require(expect, "inconsistent input accepted, with magnitude {}",
            vdat.vect_mag)
    dshape = () if case["dat"] is None else (case["dat"],)
    ishape = () if case["ind"] is None else (case["ind"],)
    for name in ("lat", "lt", "height"):
        require(getattr(vdat, name).shape == dshape, "{} of shape {} for data "
                "of shape {}", name, getattr(vdat, name).shape, dshape)
    require(vdat.vect_mag.shape == dshape and bool(np.all(
        vdat.vect_mag == 13.0)), "magnitude {}", vdat.vect_mag)
    for name in ("ocb_n", "ocb_e", "ocb_z", "ocb_mag"):
        val = getattr(vdat, name)
        require(val.shape == max(dshape, ishape) and bool(np.all(np.isnan(
            val))), "{} starts as {}", name, val)
    ctx.nontrivial()
    ctx.tag("accepted")


# ---------------------------------------------------------- given magnitudes
@st.composite
def mag_case(draw):
    how = draw(st.sampled_from(["one", "dat", "dat", "dat", "ocb", "both"]))
    num = draw(st.integers(2, 5)) if how in ("dat", "both") else 1
    comp = fl(-50.0, 50.0, special=[0, 3, -4])
    return {"how": how, "num": num,
            "vec": [[draw(comp) for _ in range(3)] for _ in range(num)],
            "off": [draw(st.sampled_from([0.0, 0.0, 1.0e-9, 5.0e-4, -5.0e-4,
                                          2.0e-3, -2.0e-3, 7.0, -3.0, None]))
                    for _ in range(num)],
            "one": draw(st.booleans()), "flat": draw(st.booleans()),
            "lists": draw(st.booleans())}


class Messages(logging.Handler):
    """Collects what the package logs."""

    def __enter__(self):
        self.text = ""
        self.level_before = ocbpy.logger.level
        ocbpy.logger.setLevel(logging.WARNING)
        ocbpy.logger.addHandler(self)
        return self

    def emit(self, record):
        self.text += record.getMessage() + "\n"

    def __exit__(self, *args):
        ocbpy.logger.removeHandler(self)
        ocbpy.logger.setLevel(self.level_before)


def mag_check(case, ctx):
    many = case["how"] in ("dat", "both")
    num = case["num"]
    vec = np.array(case["vec"], dtype=float)
    if many and case["flat"]:
        vec = np.full(vec.shape, vec[0])
    norm = np.sqrt(np.sum(vec * vec, axis=1))
    off = [math.nan if v is None else v for v in case["off"]]
    if case["one"]:
        given = np.full(num, norm[0] + off[0])
    else:
        given = norm + np.array(off)
    args = [vec[0, i] if not many or case["flat"] else (
        list(vec[:, i]) if case["lists"] else vec[:, i]) for i in range(3)]
    mag = given[0] if case["one"] or not many else (
        list(given) if case["lists"] else given)
    dat = list(range(num)) if many else 0
    ind = {"one": 0, "dat": 0, "both": [0] * num, "ocb": [0, 0, 0]}[case["how"]]
    lat, lt = ([70.0] * num, [1.0] * num) if many else (70.0, 1.0)
    with Messages() as logged:
        vdat = ocb_scaling.VectorData(
            dat, ind, lat, lt, vect_n=args[0], vect_e=args[1], vect_z=args[2],
            vect_mag=mag)
    text = logged.text
    want = norm if np.all(np.isnan(given)) else given
    want = want if many else want[0]
    require(vdat.vect_mag.shape == np.shape(want) and np.allclose(
        vdat.vect_mag, want, rtol=1.0e-12, atol=0.0, equal_nan=True), "magnitude {} instead of {}",
        vdat.vect_mag, want)
    gap = np.nanmax(np.append(np.abs(given - norm), 0.0))
    if not 0.9e-3 < gap < 1.1e-3:
        require(("inconsistent" in text) == (gap > 1.0e-3),
                "messages {!r} for magnitude {} and components {}", text,
                given, vec)
    ctx.nontrivial(gap > 0.0)
    ctx.tag("inconsistent", gap > 1.0e-3)
    ctx.tag("some missing", bool(np.isnan(given).any()))


SOUTH = {"kind": "OCB", "how": "one", "pts": [[-70.0, 3.0]], "inds": [0],
         "vec": {"n": [10.0], "e": [5.0], "z": [1.0]},
         "flat": {c: False for c in ("n", "e", "z", "lat", "lt", "height")},
         "coords": ["magnetic", "magnetic"], "given": None, "height": [350.0],
         "scale": "evar", "when": "assign", "start": 0, "setter": False,
         "omit": False, "lists": False,
         "bound": {"cls": "OCB", "hemi": -1, "fmt": "image", "ref": 74.0,
                   "mode": "default", "spec": None, "recs": [
                       {"phi": 120.0, "rc": 5.0, "r": 16.0, "fom": 1.0,
                        "time": "2005-03-04T12:00:00"}]}}
LINE = dict(SOUTH, pts=[[86.0, 8.0]], bound=dict(SOUTH["bound"], hemi=1))

TARGETS = [
    Target("vectors", vec_case(), vec_check, 1800, examples=[SOUTH, LINE],
           rule="at least one element with boundary coordinates, a finite "
                "vector, and a well-conditioned direction"),
    Target("geographic", vec_case(geo=True), vec_check, 450,
           rule="at least one element with boundary coordinates, a finite "
                "vector, and a well-conditioned direction"),
    Target("magnitudes", mag_case(), mag_check, 400,
           rule="a given magnitude that differs from the norm"),
    Target("changes", change_case(), change_check, 500,
           rule="an attribute is assigned before a boundary is"),
    Target("shapes", shape_case(), shape_check, 800, rule="every case"),
]
