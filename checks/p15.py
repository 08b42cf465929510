"""P15: vector re-orientation is the rigid rotation towards the new pole.

Oracle: independent spherical bearing of the destination pole and plane rotation of the components, per element.
"""
import math

import numpy as np
from hypothesis import strategies as st
from ocbpy import vectors

from lib import gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "data and destination pole in the same hemisphere, data not at the base "
    "pole nor within 0.05 degrees of the destination pole",
    "north is the direction of the hemisphere's own pole",
    "the tolerance follows the conditioning of the half-angle formula"]


# --------------------------------------------------------------- pole locations
@st.composite
def loc_case(draw):
    phi = st.one_of(fl(0.0, 360.0, special=[0, 90, 180, 270]),
                    fl(-720.0, 1080.0))
    pts = draw(st.lists(st.tuples(phi, fl(0.0, 40.0, special=[0])),
                        min_size=1, max_size=6))
    return {"pts": [list(p) for p in pts], "form": draw(st.sampled_from(
        ["array", "list", "scalar", "0d", "int", "mixphi", "mixr"]))}


def loc_check(case, ctx):
    phi = np.array([p[0] for p in case["pts"]])
    rad = np.array([p[1] for p in case["pts"]])
    form = case["form"]
    if form == "int":
        phi, rad = np.round(phi), np.round(rad)
    args = {"array": [phi, rad], "list": [list(phi), list(rad)],
            "scalar": [float(phi[0]), float(rad[0])],
            "0d": [np.array(phi[0]), np.array(rad[0])],
            "int": [int(phi[0]), int(rad[0])],
            "mixphi": [float(phi[0]), rad], "mixr": [phi, float(rad[0])]}[form]
    keep = [np.array(a, copy=True) for a in args]
    plt, pla = vectors.get_pole_loc(*args)
    require(all(gen.same_bits(np.array(a), b) for a, b in zip(args, keep)),
            "input was altered")
    require(np.shape(plt) == keep[0].shape and np.shape(pla) == keep[1].shape,
            "shapes {}, {} for input {}, {}", np.shape(plt), np.shape(pla),
            keep[0].shape, keep[1].shape)
    if form in ("scalar", "0d", "int"):
        require(isinstance(plt, float) and isinstance(pla, float),
                "types {} and {} for scalars", type(plt), type(pla))
    require(bool(np.all(np.asarray(plt) >= 0.0) and np.all(
        np.asarray(plt) < 24.0)), "pole local time {}", plt)
    require(bool(np.all(gen.ang_diff(np.asarray(plt) * 15.0, keep[0], 360.0)
                        < 1.0e-9)), "pole local time {} for {} degrees", plt,
            keep[0])
    require(gen.close(pla, 90.0 - keep[1], 1.0e-12), "pole latitude {} for "
            "co-latitude {}", pla, keep[1])
    ctx.nontrivial()
    ctx.tag("form:" + form)


# ------------------------------------------------------------- vectors and poles
@st.composite
def vec_case(draw):
    hemi = draw(st.sampled_from([1, -1]))
    one = {"lt": fl(0.0, 24.0, special=[0, 6, 12, 18]),
           "lat": st.one_of(fl(40.0, 89.5), fl(60.0, 89.0), fl(1.0, 89.9)),
           "plt": fl(0.0, 23.999, special=[0, 6, 12, 18]),
           "pla": st.one_of(fl(60.0, 90.0), fl(75.0, 90.0, special=[90]),
                            fl(45.0, 89.9))}
    comp = st.one_of(fl(-100.0, 100.0, special=[0, 1, -1]),
                     st.floats(1.0e-9, 1.0e4), st.floats(-1.0e4, -1.0e-9),
                     st.sampled_from([0.0, 1.0e-6, -1.0e-6, 5.0, -5.0])).map(
                         lambda v: 0.0 if abs(v) < 1.0e-9 else v)
    for key in ("n", "e", "z"):
        one[key] = comp
    size = draw(st.integers(1, 6))
    elems = []
    for _ in range(size):
        elem = {k: draw(v) for k, v in one.items()}
        line = draw(st.sampled_from(["any"] * 12 + ["same", "opposite",
                                                    "near", "quarter"]))
        if line == "same":
            elem["lt"] = elem["plt"]
        elif line == "opposite":
            elem["lt"] = elem["plt"] + 12.0
        elif line == "near":
            elem["lt"] = elem["plt"] + draw(st.sampled_from(
                [1e-7, -1e-7, 12.0 + 1e-7, 12.0 - 1e-7, 1e-3, 12.001]))
        elif line == "quarter":
            elem["lt"] = elem["plt"] + draw(st.sampled_from([6.0, -6.0, 18.0]))
        elems.append(elem)
    # Arrays or scalars for the data, the vector and the pole
    mix = {k: draw(st.sampled_from(["array", "array", "scalar"]))
           for k in ("lt", "lat", "plt", "pla", "n", "e", "z")}
    form = draw(st.sampled_from(["array", "array", "scalar", "mixed", "2d",
                                 "pole", "list", "column"]))
    if form == "pole":
        mix = {k: "scalar" if k in ("plt", "pla") else "array" for k in mix}
    nan = draw(st.sampled_from([None] * 5 + ["n", "e", "z", "lt", "lat", "plt",
                                             "pla"]))
    return {"hemi": hemi, "elems": elems, "mix": mix, "form": form, "nan": nan,
            "nanpos": draw(st.integers(0, 5)),
            "gap": draw(st.integers(1, 3)),
            "both": draw(st.integers(0, 3)) == 0,
            "quads": draw(st.sampled_from(["given", "auto", "auto_pole",
                                           "auto_vect", "partial"]))}


def unwrap(case):
    """Arguments in the chosen form and the arrays they stand for."""
    vals = {k: np.array([e[k] for e in case["elems"]]) for k in
            case["elems"][0]}
    side = np.full(len(case["elems"]), case["hemi"])
    if case["both"] and case["form"] in ("array", "list", "2d", "column"):
        side[1::2] *= -1   # each element has its own hemisphere
    for key in ("lat", "pla"):
        vals[key] = side * vals[key]
    if case["nan"] is not None:
        arr = vals[case["nan"]]
        arr[case["nanpos"] % arr.size] = np.nan
    form = case["form"]
    if form == "scalar":
        args = {k: float(v[0]) for k, v in vals.items()}
    elif form in ("mixed", "pole"):
        args = {k: float(v[0]) if case["mix"][k] == "scalar" else v.copy()
                for k, v in vals.items()}
    elif form == "2d":
        args = {k: np.stack([v, v[::-1]]) for k, v in vals.items()}
    elif form == "column":
        args = {k: v[:, None].copy() for k, v in vals.items()}
    elif form == "list":
        args = {k: list(v) for k, v in vals.items()}
    else:
        args = {k: v.copy() for k, v in vals.items()}
    names = list(args)
    full = dict(zip(names, [np.array(v, float) for v in np.broadcast_arrays(
        *[args[k] for k in names])]))
    return args, full


def bearing(lat, lt, pla, plt):
    """(bearing of the pole in rad, its tolerance, exactly in line)."""
    beta = geom.spherical_angle(lat, lt, pla, plt)
    aa, bb = math.radians(abs(lat)), math.radians(abs(pla))
    dl = math.radians((plt - lt) * 15.0)
    dist = math.acos(max(-1.0, min(1.0, math.sin(aa) * math.sin(bb) + math.cos(
        aa) * math.cos(bb) * math.cos(dl))))
    cond = math.cos(aa) * math.sin(dist)
    if dist < math.radians(0.05) or math.cos(aa) < 1.0e-4:
        return None, None, None
    err = 1.0e-15 / cond
    tol = 1.0e-10 + min(4.0 * math.sqrt(err), 40.0 * err / max(
        1.0e-9, abs(math.sin(beta))))
    off = (plt - lt) % 12.0
    return beta, tol, (min(off, 12.0 - off) < 1.0e-9
                       or abs(math.sin(beta)) < 1.0e-6)


def rotate(n, e, beta):
    return (n * math.cos(beta) + e * math.sin(beta),
            -n * math.sin(beta) + e * math.cos(beta))


def vec_check(case, ctx):
    args, full = unwrap(case)
    shape = full["n"].shape
    keep = {k: np.array(v, copy=True) for k, v in args.items()}
    angle = vectors.calc_vec_pole_angle(args["lt"], args["lat"], args["plt"],
                                        args["pla"])
    ashape = np.broadcast_shapes(*[np.shape(args[k]) for k in
                                   ("lt", "lat", "plt", "pla")])
    require(np.shape(angle) == ashape, "pole angle of shape {}, expected {}",
            np.shape(angle), ashape)
    pquad = vectors.define_pole_quadrants(args["lt"], args["plt"], angle)
    vquad = vectors.define_vect_quadrants(args["n"], args["e"])
    how = case["quads"]
    give = {"vect": vquad, "pole": pquad}
    for key, val in give.items():
        if how in ("auto", "auto_" + key):
            give[key] = 0
        elif how == "partial" and np.ndim(val) > 0:
            # Only some of the quadrants are known
            val = np.array(val)
            val.reshape(-1)[:: case["gap"]] = 0
            give[key] = val
    got = vectors.adjust_vector(
        args["lt"], args["lat"], args["n"], args["e"], args["z"],
        give["vect"], args["plt"], args["pla"], angle, give["pole"])
    require(all(gen.same_bits(np.array(args[k]), keep[k]) for k in keep),
            "input was altered")
    require(len(got) == 3 and all(np.shape(v) == shape for v in got),
            "components of shape {}, expected {}", [np.shape(v) for v in got],
            shape)
    angle = np.broadcast_to(angle, shape)
    pquad = np.broadcast_to(pquad, shape)
    vquad = np.broadcast_to(vquad, shape)
    judged, finding = 0, None
    for idx in np.ndindex(shape):
        val = {k: float(v[idx]) for k, v in full.items()}
        out = [float(np.asarray(v)[idx]) for v in got]
        where = "{} (pole angle {})".format(val, angle[idx])
        loc_nan = any(math.isnan(val[k]) for k in ("lt", "lat", "plt", "pla"))
        if math.isnan(val["n"]) or math.isnan(val["e"]):
            require(vquad[idx] == 0, "vector quadrant {} for NaN", vquad[idx])
        elif val["n"] != 0.0 and val["e"] != 0.0:
            want = {(1, 1): 1, (1, -1): 2, (-1, -1): 3, (-1, 1): 4}[
                (int(np.sign(val["n"])), int(np.sign(val["e"])))]
            require(vquad[idx] == want, "vector quadrant {} instead of {} for "
                    "{}", vquad[idx], want, where)
        else:
            require(vquad[idx] in [1, 2, 3, 4], "vector quadrant {} for {}",
                    vquad[idx], where)
        if loc_nan:
            require(math.isnan(angle[idx]), "pole angle {} for {}",
                    angle[idx], where)
            require(all(math.isnan(v) for v in out), "vector {} for {}", out,
                    where)
            continue
        beta, tol, inline = bearing(val["lat"], val["lt"], val["pla"],
                                    val["plt"])
        if beta is None:
            continue
        want = math.degrees(abs(beta))
        if abs(angle[idx] - want) > math.degrees(tol):
            as_is = 180.0 if abs(val["lat"]) > abs(val["pla"]) else 0.0
            if inline and abs(angle[idx] - as_is) < 1.0e-6:
                finding = "pole angle {} for {}".format(angle[idx], where)
            else:
                fail("pole angle {} instead of {} for {}", angle[idx], want,
                     where)
        elif abs(math.sin(beta)) > 1.0e-6 and abs(math.cos(beta)) > 1.0e-6:
            quad = {(1, 1): 1, (1, -1): 2, (-1, -1): 3, (-1, 1): 4}[
                (int(np.sign(math.cos(beta))), int(np.sign(math.sin(beta))))]
            require(pquad[idx] == quad, "pole quadrant {} instead of {} for "
                    "{}", pquad[idx], quad, where)
        else:
            require(pquad[idx] in [1, 2, 3, 4], "pole quadrant {} for {}",
                    pquad[idx], where)
        if math.isnan(val["n"]) or math.isnan(val["e"]):
            # An undefined vector stays undefined
            require(math.isnan(out[0]) or math.isnan(out[1]), "vector {} for "
                    "{}", out, where)
            continue
        want_z = val["z"]
        require(out[2] == want_z or (math.isnan(out[2]) and math.isnan(want_z)),
                "vertical component {} instead of {} for {}", out[2], want_z,
                where)
        mag = math.hypot(val["n"], val["e"])
        want_n, want_e = rotate(val["n"], val["e"], beta)
        allow = mag * (2.0 * tol + 5.0e-8) + 1.0e-13
        judged += 1
        if not (abs(out[0] - want_n) <= allow
                and abs(out[1] - want_e) <= allow):
            sign = -1.0 if (angle[idx] < 1.0e-6 and val["lat"] >= val["pla"]
                            ) else 1.0
            if (inline and not 1.0e-6 < angle[idx] < 180.0 - 1.0e-6
                    and abs(out[0] - sign * val["n"]) <= allow
                    and abs(out[1] - sign * val["e"]) <= allow):
                finding = "vector {} for {}".format(out[:2], where)
            else:
                fail("vector {} instead of {} for {}", out[:2],
                     (want_n, want_e), where)
        require(abs(math.hypot(out[0], out[1]) - mag) <= 1.0e-7 * mag + 1e-13,
                "horizontal magnitude {} instead of {} for {}",
                math.hypot(out[0], out[1]), mag, where)
        ctx.tag("quadrants {} and {}".format(int(vquad[idx]),
                                             int(pquad[idx])))
        ctx.tag("in line", inline)
        ctx.tag("horizontal magnitude zero", mag == 0.0)
    if finding is not None:
        ctx.known("aligned-poles", finding)
    ctx.nontrivial(judged > 0)
    ctx.tag("form:" + case["form"])
    ctx.tag("quadrants " + how)
    ctx.tag("south", case["hemi"] < 0)
    ctx.tag("both hemispheres", case["both"])
    ctx.tag("with NaN", case["nan"] is not None)


# ------------------------------------------------------------ azimuths and signs
@st.composite
def sign_case(draw):
    size = draw(st.integers(1, 6))
    # Directions at least 0.01 degrees away from the quadrant edges
    ang = st.tuples(st.integers(-2, 1), st.integers(10, 89990)).map(
        lambda t: 90.0 * t[0] + t[1] / 1000.0)
    return {"alpha": [draw(ang) for _ in range(size)],
            "beta": [draw(ang) for _ in range(size)],
            "form": draw(st.sampled_from(["array", "scalar", "pole", "vect",
                                          "shared", "0d"])),
            "quads": draw(st.sampled_from(["none", "given", "some"])),
            "signs": draw(st.lists(st.sampled_from([1, -1]), min_size=size,
                                   max_size=size)),
            "which": draw(st.sampled_from(["both", "north", "east"]))}


def quadrant(ang):
    return {0: 1, -1: 2, -2: 3, 1: 4}[math.floor(ang / 90.0)]


def sign_check(case, ctx):
    alpha, beta = np.array(case["alpha"]), np.array(case["beta"])
    form = case["form"]
    if form in ("scalar", "0d"):
        alpha, beta = np.array(alpha[0]), np.array(beta[0])
    elif form == "shared":
        # The same angles in different quadrants
        alpha = alpha[0] * np.array(case["signs"])
        beta = beta[0] * np.array(case["signs"][::-1])
    elif form == "pole":
        beta = np.array(beta[0])
    elif form == "vect":
        alpha = np.array(alpha[0])
    quad = np.vectorize(quadrant)
    pquad, vquad = quad(beta), quad(alpha)
    naz, pang = np.abs(alpha), np.abs(beta)
    args = [pquad, vquad, naz, pang]
    if form == "scalar":
        args = [int(pquad), int(vquad), float(naz), float(pang)]
    elif form == "shared":
        args = [pquad, vquad, float(naz[0]), float(pang[0])]
    dest = vectors.calc_dest_polar_angle(*args)
    diff = np.broadcast_to((alpha - beta + 180.0) % 360.0 - 180.0, np.shape(
        alpha + beta))
    require(np.shape(dest) == diff.shape, "azimuth of shape {}, expected {}",
            np.shape(dest), diff.shape)
    require(gen.close(dest, np.abs(diff), 1.0e-9), "azimuth {} instead of {} "
            "for vectors at {} and poles at {}", dest, np.abs(diff), alpha,
            beta)
    kw = {"north": case["which"] in ("both", "north"),
          "east": case["which"] in ("both", "east")}
    more = {key: val for key, val in kw.items() if val}
    if case["quads"] != "none":
        # Which elements have which combination of quadrants
        more["quads"] = {o: {v: (pquad == o) & (vquad == v) for v in range(
            1, 5)} for o in range(1, 5 if case["quads"] == "given" else 3)}
    signs = vectors.calc_dest_vec_sign(*args, **more)
    for name, comp in (("north", np.cos(np.radians(diff))),
                       ("east", np.sin(np.radians(diff)))):
        got = np.broadcast_to(signs[name], diff.shape)
        for idx in np.ndindex(diff.shape):
            if kw[name] and abs(comp[idx]) > 1.0e-6:
                require(got[idx] == np.sign(comp[idx]), "{} sign {} for a "
                        "vector {} degrees from the pole direction", name,
                        got[idx], diff[idx])
    for bad in ((0, vquad, naz, pang), (pquad, 0, naz, pang),
                (5, vquad, naz, pang)):
        for func in (vectors.calc_dest_polar_angle,
                     vectors.calc_dest_vec_sign):
            try:
                func(*bad)
            except ValueError:
                continue
            fail("{} accepted undefined quadrants", func.__name__)
    ctx.nontrivial()
    ctx.tag("form:" + form)
    ctx.tag("quads:" + case["quads"])
    for idx in np.ndindex(diff.shape):
        ctx.tag("quadrants {} and {}".format(
            np.broadcast_to(vquad, diff.shape)[idx],
            np.broadcast_to(pquad, diff.shape)[idx]))


def line_elem(**kw):
    return dict({"lt": 6.0, "lat": 85.0, "plt": 6.0, "pla": 75.0, "n": 3.0,
                 "e": 1.0, "z": 2.0}, **kw)


LINE = {"hemi": 1, "mix": {}, "form": "array", "nan": None, "nanpos": 0, "both": False,
        "quads": "auto", "elems": [line_elem(), line_elem(lt=18.0)]}
LINE_S = dict(LINE, hemi=-1, form="scalar", elems=[line_elem(lat=65.0)])

TARGETS = [
    Target("pole_location", loc_case(), loc_check, 1500, rule="every case"),
    Target("rotation", vec_case(), vec_check, 6000, examples=[LINE, LINE_S],
           rule="a finite vector away from both poles"),
    Target("signs", sign_case(), sign_check, 2500, rule="every case"),
]
