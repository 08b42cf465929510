"""P25: results do not depend on what was done before.

Oracle: differential; every operation of a generated history is repeated, on newly made objects, in a process that has done nothing else, and other objects are compared with snapshots taken before the operation.
"""
import datetime as dt
import json
import math

import numpy as np
import ocbpy
from hypothesis import strategies as st
from ocbpy import cycle_boundary
from ocbpy import ocb_correction
from ocbpy import ocb_scaling
from ocbpy import ocb_time
from ocbpy import vectors

from lib import bnd, gen, vlib, zygote
from lib.gen import fl
from lib.vlib import Target, require

ASSUMPTIONS = [
    "the state documented to carry over is the selected record, the boundary "
    "latitudes stored for a record, the loaded data and the pairing of a dual "
    "boundary; dual boundaries do not share their single boundaries",
    "AACGMV2's memory of earlier dates is reset before every operation"]
CRITERIA = [{}, {}, {"r": ["min", 14.0]}, {"r": ["min", 18.0]}, {"r_cent": ["maxeq", 4.0]},
            {"phi_cent": ["max", 180.0], "r": ["mineq", 11.0]},
            {"nothing": ["min", 3.0]}]
KEYS = ("dtime", "phi_cent", "r_cent", "r", "fom")


# -------------------------------------------------------------- the operations
def build(spec, paths, shared=None):
    """An object with the settings and the state of a description."""
    bound = spec["bound"]
    if spec["kind"] == "dual":
        bound = dict(bound, give="objects")
        parts = []
        for name, path in zip(("ocb", "eab"), paths):
            part = dict(bound[name], decoy=None)
            parts.append(bnd.make(part, path, **(shared or {}).get(name, {})))
        obj = ocbpy.DualBoundary(ocb=parts[0], eab=parts[1],
                                 hemisphere=bound["hemi"])
        if spec.get("pair") is not None:
            pair(obj, spec["pair"])
    else:
        obj = bnd.make(dict(bound, decoy=None), paths[0],
                       **window(spec), **(shared or {}).get("one", {}))
    if spec.get("ind") is not None:
        obj.rec_ind = spec["ind"]
    return obj


def window(spec):
    if spec.get("window") is None:
        return {}
    return {"stime": gen.to_dt(spec["window"][0]),
            "etime": gen.to_dt(spec["window"][1])}


def criteria(which):
    return {key: tuple(val) for key, val in which.items()}


def selection(arg):
    """Criteria with the limits of the figure of merit."""
    out = criteria(arg["crit"])
    out.update({key: arg[key] for key in ("min_merit", "max_merit")
                if arg[key] is not None})
    return out


def pair(obj, how):
    okw, ekw = criteria(how["ocb"]), criteria(how["eab"])
    keep = [dict(okw), dict(ekw)]
    obj.set_good_ind(ocb_min_merit=how["merit"], ocb_kwargs=okw,
                     eab_kwargs=ekw)
    require([okw, ekw] == keep, "the criteria {} were altered to {}", keep,
            [okw, ekw])


def operate(obj, op):
    """The result of an operation on an object, or of a function."""
    name, arg = op["op"], op.get("arg")
    if name == "next":
        if hasattr(obj, "get_next_good_ind"):
            obj.get_next_good_ind()
        else:
            obj.get_next_good_ocb_ind(**selection(arg))
        return []
    if name == "good":
        obj = getattr(obj, "ocb", obj)
        return cycle_boundary.retrieve_all_good_indices(obj, **selection(arg))
    if name == "pair":
        pair(obj, arg)
        return [obj.records, obj.ocb_ind, obj.eab_ind, obj.dtime]
    if name == "load":
        hlines, cols, dfmt = obj.inst_defaults()
        obj.load(hlines=hlines, ocb_cols=cols, datetime_fmt=dfmt,
                 **window({"window": arg}))
        return []
    if name == "show":
        str(obj)
        return repr(obj)
    if name == "match":
        times = [gen.to_dt(t) for t in arg["times"]]
        return cycle_boundary.match_data_ocb(
            obj, times, idat=0, max_tol=arg["tol"])
    if name == "norm":
        return list(obj.normal_coord(
            np.array(arg["lat"]), np.array(arg["lt"]), coords=arg["coords"],
            height=arg["height"]))
    if name == "revert":
        kw = {"r_corr": arg["rcorr"], "coords": arg["coords"],
              "height": arg["height"]}
        if hasattr(obj, "calc_r"):
            kw.update(is_ocb=False, aacgm_mlt=np.array(arg["lt"]))
        return list(obj.revert_coord(np.array(arg["lat"]), np.array(arg["lt"]),
                                     **kw))
    if name == "radii":
        return list(obj.calc_r(np.array(arg["lat"]), np.array(arg["lt"]),
                               np.array(arg["lt"]), arg["rcorr"]))
    if name == "profile":
        mlt = np.array(arg["mlt"])
        if hasattr(obj, "get_aacgm_boundary_lats"):
            obj.get_aacgm_boundary_lats(mlt, rec_ind=arg["rec"],
                                        overwrite=True, set_lon=arg["lon"])
        else:
            obj.get_aacgm_boundary_lat(mlt, rec_ind=arg["rec"],
                                       overwrite=arg["over"],
                                       set_lon=arg["lon"])
        return []
    if name == "vector":
        scale = {"none": None, "evar": ocb_scaling.normal_evar,
                 "curl": ocb_scaling.normal_curl_evar}[arg["scale"]]
        vec = np.array(arg["vec"])
        vdat = ocb_scaling.VectorData(
            np.arange(len(arg["lat"])), np.array(arg["inds"]),
            np.array(arg["lat"]), np.array(arg["lt"]), vect_n=vec[:, 0],
            vect_e=vec[:, 1], vect_z=vec[:, 2], loc_coord=arg["coords"],
            vect_coord=arg["coords"])
        vdat.set_ocb(obj, scale_func=scale)
        return [vdat.ocb_lat, vdat.ocb_mlt, vdat.r_corr, vdat.vect_mag,
                vdat.ocb_n, vdat.ocb_e, vdat.ocb_z, vdat.ocb_mag]
    if name == "corr":
        func, kw = bnd.func_of(arg["spec"])
        mlt = arg["mlt"][0] if arg["one"] else np.array(arg["mlt"])
        if arg["bare"]:
            return func(mlt)
        return func(mlt, **kw)
    if name == "time":
        val = gen.to_dt(arg["time"])
        lon = np.array(arg["lon"])
        return [ocb_time.convert_time(
            date=val.strftime(arg["fmt"][0]), tod=val.strftime(arg["fmt"][1]),
            datetime_fmt=" ".join(arg["fmt"])), ocb_time.convert_time(
                year=val.year, soy=arg["soy"]), ocb_time.glon2slt(lon, val),
            ocb_time.slt2glon(lon / 15.0, val), ocb_time.fix_range(
                lon, *arg["range"]), ocb_time.get_datetime_fmt_len(
                    arg["fmt"][0])]
    if name == "track":
        return cycle_boundary.satellite_track(
            np.array(arg["lat"]), np.array(arg["lt"]), *arg["xy"],
            arg["hemi"], **arg["kw"])
    val = np.array(arg["val"])
    return [vectors.define_vect_quadrants(val, val[::-1]),
            vectors.get_pole_loc(abs(val) * 60.0, 3.0), vectors.calc_vec_pole_angle(val % 24.0, arg["lat"], 3.0, 80.0),
            ocb_scaling.hav(val), ocb_scaling.archav(np.sin(val) ** 2),
            ocb_scaling.normal_evar(val, 15.0, 16.0),
            ocb_scaling.normal_curl_evar(val, 15.0, 16.0)]


def attempt(obj, op):
    vlib.fresh_aacgm()
    try:
        return ["value", operate(obj, op)]
    except vlib.Violation:
        raise
    except Exception as exc:
        return ["raised", type(exc).__name__]


def state(obj):
    """The state of an object that other operations rely on."""
    if obj is None:
        return None
    out = {"ind": obj.rec_ind, "records": obj.records}
    if hasattr(obj, "calc_r"):
        out.update(ocb=state(obj.ocb), eab=state(obj.eab), pairs=[
            np.array(obj.ocb_ind), np.array(obj.eab_ind), list(obj.dtime)])
        return out
    out.update({key: np.array(getattr(obj, key), copy=True) for key in KEYS})
    out.update(limits=[obj.min_fom, obj.max_fom], ref=obj.boundary_lat,
               hemi=obj.hemisphere, corr=[
                   [ff.__name__, sorted(kw.items())]
                   for ff, kw in zip(obj.rfunc, obj.rfunc_kwargs)])
    for key in ("lat", "mlt", "lon"):
        vals = getattr(obj, "aacgm_boundary_" + key, None)
        out[key] = None if vals is None else [
            None if v is None else np.array(v, copy=True) for v in vals]
    return out


STORED = ("lat", "mlt", "lon")


def alone(spec, paths, op):
    """In a process of its own: the operation on a new object."""
    obj = None if spec is None else build(spec, paths)
    out = attempt(obj, op)
    return out + [state(obj)]


# ------------------------------------------------------------------ comparison
def differ(one, two, tol, where=""):
    """Where two results differ, or None."""
    if isinstance(one, dict) and isinstance(two, dict):
        if sorted(one) != sorted(two):
            return "{}: {} and {}".format(where, sorted(one), sorted(two))
        pairs = [(key, one[key], two[key]) for key in one]
    elif isinstance(one, (list, tuple)) and isinstance(two, (list, tuple)):
        if len(one) != len(two):
            return "{}: {} and {}".format(where, one, two)
        pairs = [(i, a, b) for i, (a, b) in enumerate(zip(one, two))]
    else:
        if one is None or two is None or isinstance(one, str):
            same = type(one) is type(two) and one == two
        else:
            val, new = np.asarray(one), np.asarray(two)
            same = val.shape == new.shape
            if same and (val.dtype == object or new.dtype == object):
                same = np.array_equal(val, new)
            elif same and val.dtype.kind in "fiub":
                same = gen.close(val, new, tol, tol)
            elif same:
                same = np.array_equal(val, new)
        return None if same else "{}: {} and {}".format(where, one, two)
    for key, val, new in pairs:
        found = differ(val, new, tol, "{}[{}]".format(where, key))
        if found is not None:
            return found
    return None


def kept(before, after):
    """A stored boundary location that was there and changed, or None."""
    for key in STORED:
        for i, val in enumerate(before[key] or []):
            if val is not None and (
                    after[key] is None or after[key][i] is None
                    or not np.array_equal(val, after[key][i],
                                          equal_nan=True)):
                return "{} of record {}: {} and {}".format(
                    key, i, val, after[key] and after[key][i])
    return None


def bare(stat):
    """A state without the stored boundary locations."""
    if stat is None:
        return None
    return {key: bare(val) if isinstance(val, dict) else val
            for key, val in stat.items() if key not in STORED}


# ------------------------------------------------------------------- histories
@st.composite
def pools(draw):
    """Values that operations of a history share, and repeat."""
    locs = []
    for _ in range(2):
        num = draw(st.integers(1, 3))
        locs.append({"lat": draw(st.lists(st.one_of(
            fl(60.0, 88.0), st.sampled_from([70.0, 75.0, 80.0])),
            min_size=num, max_size=num)), "lt": draw(st.lists(st.one_of(
                fl(0.0, 23.9), st.sampled_from([0.0, 6.0, 12.0])),
                min_size=num, max_size=num))})
    return {"locs": locs, "lons": [
        draw(st.lists(fl(-180.0, 359.0), min_size=1, max_size=3))
        for _ in range(2)], "times": draw(st.lists(
            gen.datetimes(), min_size=1, max_size=2))}


@st.composite
def location(draw, hemi, pool, coords):
    loc = draw(st.sampled_from(pool["locs"]))
    return {"lat": [hemi * v for v in loc["lat"]], "lt": loc["lt"],
            "coords": coords, "height": draw(st.sampled_from([350.0, 110.0])),
            "rcorr": draw(st.sampled_from([0.0, 1.0, -1.5]))}


@st.composite
def operation(draw, sources, objs, pool):
    """One operation; the result depends on the selected record."""
    which = draw(st.integers(0, len(objs) - 1))
    kind = draw(st.sampled_from(["object"] * 9 + ["function"]))
    if kind == "function":
        name = draw(st.sampled_from(["corr", "time", "track", "math"]))
        lon = draw(st.sampled_from(pool["lons"]))
        mlt = draw(st.sampled_from(pool["locs"]))["lt"]
        half = draw(st.integers(0, 1))
        arg = {"corr": {
            "spec": draw(bnd.corr_spec()), "mlt": mlt,
            "one": draw(st.booleans()), "bare": draw(st.booleans())},
            "time": {"time": (gen.to_dt(draw(st.sampled_from(pool["times"])))
                              + dt.timedelta(hours=half)).isoformat(),
                     "lon": lon,
                     "fmt": draw(st.sampled_from(
                         [["%Y-%m-%d", "%H:%M:%S"], ["%Y%m%d", "%H%M%S"],
                          ["%y%j", "%H:%M"]])),
                     "soy": draw(st.integers(0, 31000000)),
                     "range": draw(st.sampled_from(
                         [[0.0, 360.0], [-180.0, 180.0], [0.0, 24.0]]))},
            "track": {"lat": [70.0, 75.0, 80.0], "lt": [v % 24.0 for v in (
                lon * 3)[:3]], "xy": draw(st.sampled_from(
                    [[-8.0, 10.0, 9.0, 3.0], [15.0, 1.0, -14.0, 2.5]])),
                "hemi": 1, "kw": draw(st.sampled_from(
                    [{}, {"del_x": 4.0}, {"del_y": 5.0, "past_bound": 2.0}]))},
            "math": {"val": [v / 60.0 for v in lon],
                     "lat": [70.0] * len(lon)}}[name]
        return {"on": None, "op": name, "arg": arg}
    src = sources[objs[which]]
    dual = src["kind"] == "dual"
    bound = src["bound"]
    recs = bound["ocb"]["recs"] if dual else bound["recs"]
    names = ["norm"] * 4 + ["revert"] * 3 + ["select"] * 4 + [
        "profile", "profile", "next", "good", "match", "vector", "show"]
    names += ["radii", "radii", "pair"] if dual else ["load", "profile"]
    name = draw(st.sampled_from(names))
    coords = draw(st.sampled_from(["magnetic"] * 3 + ["geodetic",
                                                      "geocentric"]))
    if name == "select":
        arg = draw(st.one_of(st.integers(0, len(recs) - 1),
                             st.integers(-1, len(recs))))
    elif name in ("next", "good"):
        arg = {"crit": draw(st.sampled_from(CRITERIA)),
               "min_merit": draw(st.sampled_from([None, None, 0.0, 2.0])),
               "max_merit": draw(st.sampled_from([None, None, 4.0, 9.0]))}
    elif name in ("norm", "revert", "radii"):
        arg = draw(location(bound["hemi"], pool, coords))
    elif name == "vector":
        arg = draw(location(bound["hemi"], pool, coords))
        num = len(arg["lat"])
        arg["vec"] = [[draw(fl(-50.0, 50.0)) for _ in "nez"]
                      for _ in range(num)]
        arg["inds"] = [draw(st.integers(0, len(recs) - 1))
                       for _ in range(num)]
        arg["scale"] = draw(st.sampled_from(["none", "evar", "curl"]))
    elif name == "profile":
        lon = draw(st.integers(0, 3)) == 0
        arg = {"mlt": draw(st.sampled_from(
            [[0.0, 6.0, 12.0], [3.5], pool["locs"][0]["lt"]])),
            "rec": draw(st.one_of(st.none(), st.integers(0, len(recs) - 1))),
            "over": lon or dual or draw(st.booleans()), "lon": lon}
    elif name == "match":
        arg = {"tol": draw(st.sampled_from([0, 60, 300])), "times": [
            (gen.to_dt(recs[0]["time"]) + dt.timedelta(seconds=s)).isoformat()
            for s in sorted(draw(st.lists(st.integers(-400, 1500), min_size=1,
                                          max_size=4)))]}
    elif name == "pair":
        arg = {"ocb": draw(st.sampled_from(CRITERIA)),
               "eab": draw(st.sampled_from(CRITERIA)),
               "merit": draw(st.sampled_from([None, None, 0.5, 2.0]))}
    elif name == "load":
        ends = sorted(draw(st.lists(st.integers(0, len(recs) - 1), min_size=2,
                                    max_size=2)))
        arg = draw(st.sampled_from([None, [recs[k]["time"] for k in ends]]))
    else:
        arg = None
    return {"on": which, "op": name, "arg": arg}


@st.composite
def similar(draw, old, sources, objs, pool):
    """The operation with another argument, or on another object."""
    op = json.loads(json.dumps(old))
    arg = op["arg"]
    others = [i for i, k in enumerate(objs) if op["on"] is not None
              and sources[k]["kind"] == sources[objs[op["on"]]]["kind"]]
    if len(others) > 1 and draw(st.booleans()):
        op["on"] = draw(st.sampled_from(others))
        if op["op"] != "vector":
            return op
    if op["op"] == "select":
        op["arg"] = draw(st.integers(0, 2))
    elif op["op"] in ("next", "good"):
        arg["crit"] = {key: [how, val + 1.5]
                       for key, (how, val) in arg["crit"].items()}
        arg["max_merit"] = draw(st.sampled_from([None, 4.0]))
    elif op["op"] in ("norm", "revert", "radii", "vector"):
        what = draw(st.sampled_from(["height", "coords", "rcorr", "last",
                                     "first"]))
        if what == "height":
            arg["height"] = 700.0
        elif what == "coords":
            arg["coords"] = draw(st.sampled_from(
                ["magnetic", "geodetic", "geocentric"]))
        elif what == "rcorr":
            arg["rcorr"] += 0.5
        elif what == "last":
            arg["lt"][-1] = (arg["lt"][-1] + 1.0) % 24.0
        else:
            arg["lat"][0] -= math.copysign(3.0, arg["lat"][0])
    elif op["op"] == "profile":
        arg["mlt"] = [v + 0.5 for v in arg["mlt"]]
        arg["rec"] = draw(st.sampled_from([arg["rec"], 0, 1]))
    elif op["op"] == "match":
        arg["tol"] += 60
    elif op["op"] == "corr":
        arg["bare"] = not arg["bare"]
    elif op["op"] == "time":
        arg["soy"] = (arg["soy"] + 86400) % 31000000
        arg["time"] = (gen.to_dt(arg["time"]) + dt.timedelta(
            seconds=draw(st.sampled_from([1020, 20])))).isoformat()
    elif op["op"] == "track":
        arg["kw"] = {"del_x": 9.0}
    return op


@st.composite
def history(draw):
    sources = []
    for _ in range(draw(st.integers(1, 2))):
        if draw(st.integers(0, 4)) < 2:
            sources.append({"kind": "dual", "bound": draw(bnd.dual())})
        else:
            sources.append({"kind": "single", "bound": draw(bnd.boundary(
                small_corr=True, rlo=12.0, rcmax=8.0))})
    # Objects of the same file and the same keyword arguments may be several
    objs = list(range(len(sources)))
    if draw(st.booleans()):
        objs.append(draw(st.integers(0, len(sources) - 1)))
    pool = draw(pools())
    ops = [draw(operation(sources, objs, pool))]
    for _ in range(draw(st.integers(1, 11))):
        # Often the same again, or almost, after something else
        old = draw(st.sampled_from(ops))
        ops.append(draw(st.one_of(
            operation(sources, objs, pool), operation(sources, objs, pool),
            st.just(old), similar(old, sources, objs, pool))))
    num = min(len(src["bound"]["ocb"]["recs"] if src["kind"] == "dual"
                  else src["bound"]["recs"]) for src in sources)
    return {"sources": sources, "objs": objs, "ops": ops,
            "start": [draw(st.integers(-1 if draw(st.integers(0, 7)) == 0
                                       else 0, num - 1)) for _ in objs]}


def history_check(case, ctx):
    zygote.start(alone)
    live, specs, paths, stored = [], [], [], []
    shared = {}
    for src in case["objs"]:
        spec = {"kind": case["sources"][src]["kind"],
                "bound": case["sources"][src]["bound"]}
        if src not in shared:
            parts = {"ocb": spec["bound"]["ocb"], "eab": spec["bound"]["eab"]
                     } if spec["kind"] == "dual" else {"one": spec["bound"]}
            shared[src] = {key: bnd.corr_kwargs(val)
                           for key, val in parts.items()}
        paths.append([ctx.path("a{}.txt".format(src)),
                      ctx.path("b{}.txt".format(src))])
        live.append(build(spec, paths[-1], shared[src]))
        live[-1].rec_ind = case["start"][len(live) - 1]
        spec["ind"] = live[-1].rec_ind
        specs.append(spec)
        stored.append(state(live[-1]))
    given = {src: repr(val) for src, val in shared.items()}
    seen, asked = 0, set()
    for num, op in enumerate(case["ops"]):
        on = op["on"]
        label = "operation {} ({}{})".format(num + 1, op["op"], "" if on is None
                                           else " on object {}".format(on))
        spec = None if on is None else specs[on]
        if op["op"] == "select":
            live[on].rec_ind = op["arg"]
            spec["ind"] = live[on].rec_ind
            stored[on] = state(live[on])
            check_others(live, stored, on, label)
            continue
        if op["op"] == "load" and spec["bound"]["mode"] == "array":
            op = dict(op, arg=None)
        if op["op"] == "load" and op["arg"] is None and (
                spec["bound"]["mode"] == "array"
                and spec.get("window") is not None):
            continue
        if op["op"] == "profile" and op["arg"]["rec"] is not None:
            op = dict(op, arg=dict(op["arg"], rec=min(
                op["arg"]["rec"], live[on].records - 1)))
            if op["arg"]["rec"] < 0:
                continue
        if op["op"] == "vector":
            if live[on].records == 0:
                continue
            op = dict(op, arg=dict(op["arg"], inds=[
                min(k, live[on].records - 1) for k in op["arg"]["inds"]]))
        # Made anew, in a process of its own
        want = zygote.call(spec, None if on is None else paths[on], op)
        require(want[0] != "died", "{}: no answer when it is the first", label)
        before = None if on is None else stored[on]
        got = attempt(None if on is None else live[on], op)
        tol = 1.0e-9
        require(got[0] == want[0], "{}: {} at first, here {}", label, want[:2],
                got)
        diff = differ(want[1], got[1], tol, "result")
        require(diff is None, "{} gives another result after other operations "
                "than at first; {}\n{}", label, diff, op)
        if on is not None:
            after = state(live[on])
            diff = differ(bare(want[2]), bare(after), tol, "state")
            require(diff is None, "{} leaves another state after other "
                    "operations than at first; {}\n{}", label, diff, op)
            judge_stored(op, before, after, want[2], label)
            spec["ind"] = live[on].rec_ind
            stored[on] = after
            if op["op"] == "load":
                spec["window"] = op["arg"]
            elif op["op"] == "pair":
                spec["pair"] = op["arg"]
        check_others(live, stored, on, label)
        for src, val in shared.items():
            require(repr(val) == given[src], "{}: the arguments {} became {}",
                    label, given[src], val)
        seen += num > 0 and informative(got)
        asked.add(on)
        ctx.tag("op:" + op["op"])
        ctx.tag("raised " + got[1] if got[0] == "raised" else "answered")
    ctx.nontrivial(seen > 1)
    ctx.tag("several objects", len(asked - {None}) > 1)
    ctx.tag("objects of the same arguments",
            len(set(case["objs"])) < len(case["objs"]))


def informative(got):
    """Whether a result is more than NaN."""
    if got[0] == "raised":
        return False
    if not isinstance(got[1], list):
        return True
    vals = [v for v in got[1] if isinstance(v, np.ndarray)
            and v.dtype.kind == "f"]
    return not vals or not all(np.all(np.isnan(v)) for v in vals)


def judge_stored(op, before, after, want, label):
    """The boundary locations stored by an operation and before it."""
    if "ocb" in after:
        for name in ("ocb", "eab"):
            judge_stored(op, before[name], after[name], want[name], label)
        return
    if op["op"] == "load":
        require(all(after[key] is None for key in STORED),
                "{}: boundary locations of other data are left", label)
        return
    if op["op"] == "profile":
        for key in STORED:
            for i, val in enumerate(want[key] or []):
                if val is None:
                    continue
                old = None if before["lat"] is None else before["lat"][i]
                if op["arg"]["over"] or old is None:
                    diff = differ(val, after[key][i], 1.0e-9)
                    require(diff is None, "{}: boundary {} of record {} {} "
                            "after other operations", label, key, i, diff)
        requested = {i for i, val in enumerate(want["lat"] or [])
                     if val is not None}
        if op["arg"]["over"]:
            # Those of other records are left
            before = {key: None if before[key] is None else [
                None if i in requested else val for i, val in
                enumerate(before[key])] for key in STORED}
    bad = kept(before, after)
    require(bad is None, "{}: a stored boundary changed; {}", label, bad)


def check_others(live, stored, on, label):
    for i, obj in enumerate(live):
        if i != on:
            diff = differ(stored[i], state(obj), 0.0, "state")
            require(diff is None, "{} changed object {}: {}", label, i, diff)


TARGETS = [Target("history", history(), history_check, 500,
                  rule="two or more operations after the first one that did not just give NaN")]
