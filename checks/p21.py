"""P21: Pysat instruments gain correct boundary data and metadata.

Oracle: brute-force matching of each sample to the nearest good boundary record, and the library's own single-location conversion and vector scaling for that record on a fresh boundary object, located by dimension name.
"""
import copy
import itertools
import math
import os
import shutil
import warnings

import numpy as np
from hypothesis import strategies as st

from lib import bootstrap, bnd, conv, gen
from lib.gen import fl
from lib.vlib import VERIF, Target, require

import ocbpy  # noqa: E402
from ocbpy import ocb_scaling

ASSUMPTIONS = [
    "data sorted by time, boundary times strictly increasing",
    "missing data are NaN, only the boundary MLT is judged where the local "
    "time is missing; when one of the named variables is missing at a "
    "sample, the other outputs there may be NaN or the value expected",
    "data without some of the dimensions of the output lack trailing ones "
    "(anything else is refused by the code)",
    "the conversion and the vector scaling themselves are judged by P07, P08 "
    "and P16, here against the same routines for one location at a time"]
SIZES = {"x": 2, "y": 2, "z": 3, "mlat": 2, "mlt": 3}
SCALES = {"none": None, "evar": ocb_scaling.normal_evar,
          "curl": ocb_scaling.normal_curl_evar, "given": None}
PARTS = ["ocb_n", "ocb_e", "ocb_z", "ocb_mag", "unscaled_r", "scaled_r"]
_PYSAT = {}


def pysat_mods(ctx):
    """Pysat, with a home of its own."""
    if not _PYSAT:
        import os
        import tempfile
        home = tempfile.mkdtemp(prefix="pysat_", dir=ctx.scratch)
        bootstrap.prepare_pysat(home)
        import pandas
        import pysat
        import xarray
        from ocbpy.instruments import pysat_instruments
        _PYSAT.update(pysat=pysat, pd=pandas, xr=xarray, os=os,
                      mod=pysat_instruments)
    return _PYSAT


# ------------------------------------------------------------------ instruments
LOC = [("time",), ("time",), ("time",), ("x",), ("time", "x"), ("x", "time"),
       ("time", "y"), ("y", "time", "x")]


@st.composite
def layout(draw):
    """Dimensions of the location, heights and data of a dataset."""
    if draw(st.integers(0, 3)) == 0:
        return {"pandas": True, "lat": ["time"], "lt": ["time"], "h": ["time"],
                "data": [["time"]] * 5, "coords": [], "aux": False,
                "high": draw(st.sampled_from(["none", "scalar", "var",
                                              "array"]))}
    kind = draw(st.sampled_from(["any", "any", "model", "model", "grid"]))
    if kind == "any":
        lat, lt = draw(st.sampled_from(LOC)), draw(st.sampled_from(LOC))
    elif kind == "model":
        lat = ("mlat",)
        lt = draw(st.sampled_from([("time",), ("time", "y"), ("y", "time"),
                                   ("time", "mlat")]))
    else:
        lat, lt = ("mlat",), ("mlt",)
    use = draw(st.sampled_from(["none", "none", "none", "scalar", "var", "var",
                                "array"]))
    high = () if use != "var" else draw(st.sampled_from(
        [("time",), lat, lt, ("z",), ("z", "time")]))
    dims = ["time"]
    for dim in itertools.chain(lt, lat, high):
        if dim not in dims:
            dims.append(dim)
    nloc = len(dims)
    extra = draw(st.sampled_from([[], [], ["x"], ["y"], ["y", "z"],
                                  ["z", "x"]]))
    extra = [d for d in extra if d not in dims]
    data = []
    for _ in range(5):
        cut = draw(st.integers(1, nloc))
        full = dims + extra
        keep = full if draw(st.integers(0, 3)) else full[:cut]
        data.append(draw(st.permutations(list(keep))))
    return {"high": use, "pandas": False, "lat": list(lat), "lt": list(lt),
            "h": list(high), "data": data, "aux": draw(st.booleans()),
            "coords": [d for d in dims + extra if draw(st.booleans())]}


@st.composite
def add_case(draw):
    src = draw(conv.source())
    src["tol"] = draw(st.one_of(st.sampled_from(
        [None, 0, 30, 60, 300, 45.0]), st.integers(1, 400)))
    src["file"] = (src["kind"] == "dual" and src["bound"]["give"] == "files"
                   ) or (src["kind"] != "dual" and draw(
                       st.integers(0, 3)) == 0)
    if src["file"] and src["kind"] == "dual":
        src["file"] = draw(st.booleans())
    if src["kind"] == "dual":
        src["lo"] = src["hi"] = src["crit"] = None
    else:
        src["crit"] = src["crit"] and draw(st.sampled_from(
            [None, src["crit"]]))
    src["named"] = src["file"] and draw(st.integers(0, 2)) == 0
    if src["named"]:
        suit_default(src)
        src["word"] = draw(st.sampled_from(["lower", "lower", "upper"]))
    hemi = src["hemi"]
    lats = fl(52.0, 89.0).map(lambda v: v * hemi)
    if src["file"] and src["asked"] == 0:
        # The hemisphere comes from the data, where they are not equatorial
        lats = st.one_of(lats, lats, lats, lats, st.sampled_from(
            [None, 0.0, 0.0]))
    else:
        lats = st.one_of(lats, lats, lats, lats, st.sampled_from(
            [None, 0.0, -70.0 * hemi]))
    lts = st.one_of(fl(0.0, 23.999), fl(0.0, 23.999), fl(0.0, 23.999),
                    st.sampled_from([0.0, 6.0, 18.0, None, 25.5, -3.0]))
    return {"src": src, "times": draw(conv.data_times(src, max_size=4)),
            "layout": draw(layout()), "seed": draw(st.integers(0, 10 ** 6)),
            "lats": draw(st.lists(lats, min_size=1, max_size=5)),
            "lts": draw(st.lists(lts, min_size=1, max_size=5)),
            "holes": draw(st.sampled_from([0, 0, 0, 7, 3])),
            "evar": draw(st.lists(st.sampled_from(["v", "u"]), max_size=2,
                                  unique=True)),
            "curl": draw(st.lists(st.sampled_from(["v", "u"]), max_size=1,
                                  unique=True)),
            "spot": draw(st.integers(0, 2)),
            "vect": draw(st.one_of(st.none(), st.sampled_from(
                ["none", "evar", "curl", "given"]))),
            "parts": draw(st.sampled_from([["n", "e"], ["n", "e", "z"],
                                           ["e"], ["z", "n"]])),
            "spell": gen.spelled(draw), "coords": draw(st.sampled_from(
                [["magnetic", "magnetic"]] * 4 + [["geodetic", "geodetic"],
                                                  ["geodetic", "magnetic"],
                                                  ["geocentric"] * 2])),
            "omit": draw(st.booleans()),
            "meta": draw(st.booleans()), "twice": draw(st.integers(0, 5)) == 0}


def numbers(seed, count):
    out = []
    for _ in range(count):
        seed = (seed * 48271 + 11) % (2 ** 31 - 1)
        out.append(seed)
    return seed, out


def arrays(case):
    """Name: (dims, array) of all variables, and the sizes of the dims."""
    lay = case["layout"]
    size = dict(SIZES, time=len(case["times"]))
    seed, out = case["seed"], {}
    for name, dims in ([("mlat", lay["lat"]), ("mlt", lay["lt"]),
                        ("alt", lay["h"] or ["time"])]
                       + list(zip(["v", "u", "vn", "ve", "vz"], lay["data"]))):
        shape = [size[d] for d in dims]
        seed, nums = numbers(seed, int(np.prod(shape)))
        if name in ("mlat", "mlt"):
            pool = case["lats" if name == "mlat" else "lts"]
            vals = [pool[(v >> 7) % len(pool)] for v in nums]
            vals = [math.nan if v is None else v for v in vals]
            if dims == [name] and not all(v == v for v in vals):
                good = 55.0 * case["src"]["hemi"] if name == "mlat" else 5.0
                vals = [good if v != v else v for v in vals]
        elif name == "alt":
            vals = [[110.0, 350.0, 800.0][(v >> 5) % 3] for v in nums]
        else:
            vals = [math.nan if case["holes"] and (v >> 9) % case["holes"] == 0
                    else (v % 20001 - 10000) / 100.0 for v in nums]
        out[name] = (list(dims), np.array(vals, float).reshape(shape))
    return out, size


def instrument(case, data, size, mods):
    """The pysat Instrument of a case."""
    pysat, pd, xr = mods["pysat"], mods["pd"], mods["xr"]
    index = pd.DatetimeIndex([gen.to_dt(t) for t in case["times"]],
                             name="time")
    inst = pysat.Instrument()
    if case["layout"]["pandas"]:
        inst.data = pd.DataFrame({k: v[1] for k, v in data.items()},
                                 index=index)
    else:
        coords = {"time": index}
        for dim in case["layout"]["coords"]:
            if dim not in ("time", "mlat", "mlt"):
                coords[dim] = np.arange(size[dim]) * 10.0
        dset = xr.Dataset({k: (v[0], v[1].copy()) for k, v in data.items()},
                          coords=coords)
        if case["layout"]["aux"]:
            dset = dset.set_coords(["mlat"])
        inst.pandas_format = False
        inst.data = dset
    inst.meta = pysat.Meta()
    if case["meta"]:
        lab = inst.meta.labels
        for i, name in enumerate(data):
            inst.meta[name] = {lab.units: "unit{:d}".format(i),
                               lab.name: "Long " + name,
                               lab.desc: "About " + name,
                               lab.fill_val: -99.0, lab.min_val: -i - 1.0,
                               lab.max_val: i + 1.0}
    return inst


# -------------------------------------------------------------------- boundary
def paths(src, ctx):
    return {"OCB": ctx.path("b_ocb.txt"), "EAB": ctx.path("b_eab.txt")}


SHORT = {"image": "image", "ampere": "amp", "dmsp-ssj": "dmsp-ssj"}
FROM = {"image": gen.dt.datetime(2001, 6, 1),
        "ampere": gen.dt.datetime(2015, 6, 1),
        "dmsp-ssj": gen.dt.datetime(2015, 6, 1)}


def suit_default(src):
    """Shift the times to where the default files have boundaries."""
    bounds = [src["bound"]] if src["kind"] != "dual" else [
        src["bound"]["ocb"], src["bound"]["eab"]]
    if len(bounds) > 1 and len({FROM[b["fmt"]] for b in bounds}) > 1:
        src["named"] = False
        return
    first = gen.to_dt(src["times"][0])
    shift = (FROM[bounds[0]["fmt"]] - gen.dt.datetime(
        first.year, first.month, first.day))

    def move(text):
        return (gen.to_dt(text) + shift).isoformat()

    for bound in bounds:
        for rec in bound["recs"]:
            rec["time"] = move(rec["time"])
    src["times"] = [move(t) for t in src["times"]]


class default_files:
    """A directory of default files, with the boundaries of the source."""

    def __init__(self, src, ctx):
        self.src, self.ctx = src, ctx

    def __enter__(self):
        self.moved = None
        if not self.src["named"]:
            return
        root = self.ctx.path("pkg")
        shutil.rmtree(root, ignore_errors=True)
        where = os.path.join(root, "ocbpy", "boundaries")
        os.makedirs(where)
        kind, bound = self.src["kind"], self.src["bound"]
        for ext in ["ocb", "eab"] if kind == "dual" else [kind.lower()]:
            one = bound[ext] if kind == "dual" else bound
            bnd.write(one, os.path.join(where, "{}_{}_circle.{}".format(
                SHORT[one["fmt"]], "north" if self.src["hemi"] > 0 else
                "south", ext)))
        self.moved = gen.moved_package(where)
        self.moved.__enter__()

    def __exit__(self, *args):
        if self.moved is not None:
            self.moved.__exit__()


def default_obj(src, ctx):
    """The object a file request stands for."""
    where = paths(src, ctx)
    if src["kind"] == "dual":
        return bnd.make_dual(src["bound"], ctx)
    bnd.write(src["bound"], where[src["kind"]])
    return bnd.CLASSES[src["kind"]](
        where[src["kind"]], instrument=src["bound"]["fmt"],
        hemisphere=src["hemi"])


def arguments(src, ctx):
    """(keyword arguments, fresh boundary object, reference latitude)"""
    if not src["file"]:
        plain = dict(src, file=False)
        kwargs = conv.arguments(dict(plain, scale="none"), ctx)
        kwargs.pop("scale_func")
        bound = src["bound"]["ocb"] if src["kind"] == "dual" else src["bound"]
        return kwargs, conv.make(plain, ctx), abs(bound["ref"])
    fresh = default_obj(src, ctx)
    if src["kind"] == "dual":
        pair = src["bound"]
        kwargs = {"ocbfile": "dual", "ocb_filename": ctx.path("o.txt"),
                  "eab_filename": ctx.path("e.txt"),
                  "ocb_instrument": pair["ocb"]["fmt"],
                  "eab_instrument": pair["eab"]["fmt"],
                  "eab_lat": pair["eab"]["ref"], "ocb_lat": pair["ocb"]["ref"],
                  "max_delta": 60}
        for name in ("ocb", "eab"):
            for key, val in bnd.corr_kwargs(pair[name]).items():
                kwargs[name + "_" + key] = val
        if pair["ocb"]["fmt"] == pair["eab"]["fmt"]:
            kwargs["instrument"] = kwargs.pop("ocb_instrument")
            kwargs.pop("eab_instrument")
        ref = abs(pair["ocb"]["ref"])
        if src["named"]:
            kwargs.pop("ocb_filename")
            kwargs.pop("eab_filename")
            kwargs["ocbfile"] = getattr("dual", src["word"])()
    else:
        kwargs = {"ocbfile": paths(src, ctx)[src["kind"]],
                  "instrument": src["bound"]["fmt"]}
        for key, name in (("lo", "min_merit"), ("hi", "max_merit")):
            if src[key] is not None:
                kwargs[name] = src[key]
        if src["crit"] is not None:
            kwargs["r"] = tuple(src["crit"])
        ref = {"OCB": 74.0, "EAB": 64.0}[src["kind"]]
        if src["named"]:
            kwargs["ocbfile"] = getattr(src["kind"], src["word"])()
    if src["tol"] is not None:
        kwargs["max_sdiff"] = src["tol"]
    return kwargs, fresh, ref


def file_reach(src, times):
    """Whether a file request reads all records (else array settings fail)."""
    tol = 60 if src["tol"] is None else src["tol"]
    first, last = gen.to_dt(times[0]), gen.to_dt(times[-1])
    have = [gen.to_dt(t) for t in src["times"]]
    slack = gen.dt.timedelta(seconds=tol + 1)
    return all(first - slack <= t <= last + slack for t in have)


def same(have, want, period=None):
    if math.isnan(have) or math.isnan(want):
        return math.isnan(have) and math.isnan(want)
    if period is not None:
        return gen.ang_diff(have, want, period) < 1.0e-7
    return abs(have - want) <= 1.0e-7 * max(1.0, abs(want))


# --------------------------------------------------------------------- the check
def add_check(case, ctx):
    mods = pysat_mods(ctx)
    src, hemi = case["src"], case["src"]["hemi"] * (case["src"]["asked"] or 1)
    if src["file"] and hemi != src["hemi"]:
        return
    if src["file"] and src["kind"] == "dual" and "array" in (
            src["bound"]["ocb"]["mode"], src["bound"]["eab"]["mode"]):
        # The settings of each record are only for those that are read
        return
    data, size = arrays(case)
    inst = instrument(case, data, size, mods)
    before = inst.data.copy(deep=True)
    kwargs, fresh, ref_lat = arguments(src, ctx)
    name = {"OCB": "ocb", "EAB": "eab", "dual": "dualb"}[src["kind"]]
    if src["asked"]:
        kwargs["hemisphere"] = hemi
    elif src["file"] and not (np.nanmax(np.abs(data["mlat"][1])) > 0.0):
        return
    vect = case["vect"]
    evar = [k for k in case["evar"] if k not in case["curl"]]
    kwargs.update(evar_names=list(evar), curl_evar_names=list(case["curl"]))
    if case.get("omit"):
        for key in ("evar_names", "curl_evar_names"):
            if not kwargs[key] and vect != key.split("_")[0]:
                kwargs.pop(key)
    func = None
    if vect is not None:
        part = {"vect_" + p: "v" + p for p in case["parts"]}
        part.update(dat_name="Speed", dat_units="m/s")
        func = SCALES[vect]
        if vect == "evar":
            kwargs["evar_names"].insert(case["spot"], "w")
        elif vect == "curl":
            kwargs["curl_evar_names"].insert(case["spot"], "w")
        elif vect == "given":
            func = ocb_scaling.normal_evar
            part["scale_func"] = func
        else:
            part["scale_func"] = None
        kwargs["vector_names"] = {"w": part}
    loc, vco = case["coords"]
    how = case.get("spell", "lower")
    if not (case.get("omit") and loc == "magnetic" and how == "lower"):
        kwargs["loc_coord"] = gen.spell(loc, how)
    if not (case.get("omit") and vco == "magnetic" and how == "lower"):
        kwargs["vect_coord"] = gen.spell(vco, how)
    if case["layout"]["pandas"]:
        locdims = ["time"]
    else:
        locdims = ["time"]
        for dim in data["mlt"][0] + data["mlat"][0] + (
                data["alt"][0] if case["layout"]["high"] == "var" else []):
            if dim not in locdims:
                locdims.append(dim)
    harr = None
    if case["layout"]["high"] == "scalar":
        kwargs["height"] = 500.0
    elif case["layout"]["high"] == "var":
        kwargs["height_name"] = "alt"
    elif case["layout"]["high"] == "array":
        shape = [size[d] for d in locdims]
        _, nums = numbers(case["seed"] + 1, int(np.prod(shape)))
        harr = np.array([[110.0, 350.0, 800.0][v % 3] for v in nums]).reshape(
            shape)
        kwargs["height"] = harr.copy()
    given = {k: copy.deepcopy(kwargs[k]) for k in kwargs if k.endswith("names")}
    where = " for {} with {}".format(case, data)
    where = where.replace("{", "(").replace("}", ")")

    def run():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with default_files(src, ctx):
                mods["mod"].add_ocb_to_data(inst, "mlat", "mlt", **kwargs)

    run()
    if case["twice"]:
        first = inst.data.copy(deep=True)
        run()
        require(first.equals(inst.data), "another result the second time"
                + where)
    for key, val in given.items():
        require(kwargs[key] == val, "input {} changed to {}{}", key,
                kwargs[key], where)
    if harr is not None:
        require(np.array_equal(harr, kwargs["height"]), "heights changed")

    # The existing data are those of before
    old, new = list(before), [k for k in inst.data if k not in before]
    if case["layout"]["pandas"]:
        require(before.equals(inst.data[old]), "existing data changed" + where)
    else:
        require(before.identical(inst.data.drop_vars(new)), "existing data "
                "changed to {}{}", inst.data, where)

    base = ["mlat_" + name, "mlt_" + name, "r_corr_" + name]
    scal = {"{}_{}".format(k, name): (k, ff) for keys, ff in
            ((evar, SCALES["evar"]), (case["curl"], SCALES["curl"]))
            for k in keys}
    vnames = {}
    if vect is not None:
        for part in PARTS:
            if name == "ocb" and part.endswith("_r"):
                vnames["w_" + part] = part
            else:
                vnames["w_{}_{}".format(name, part.replace("ocb_", ""))] = part
    reads = src["file"] and src["kind"] != "dual"
    tol = 60 if src["tol"] is None else int(src["tol"])
    if src["file"]:
        # The times outside of the data are not read
        lim = [gen.to_dt(case["times"][i]) for i in (0, -1)]
        span = gen.dt.timedelta(seconds=tol + 1)
        have = [i for i, t in enumerate(src["times"])
                if lim[0] - span <= gen.to_dt(t) <= lim[1] + span]
        if not have and not new:
            ctx.tag("no boundary read")
            return
    require(sorted(new) == sorted(base + list(scal) + list(vnames)),
            "new data {}{}", new, where)
    judged = judge(case, src, inst, data, size, fresh, ref_lat, hemi, harr,
                   locdims, base, scal, vnames, func, new, tol, where, ctx)
    meta_check(case, inst, data, base, scal, vnames, name, where)
    notes_check(case, inst, base, scal, vnames, name, func, where)
    ctx.nontrivial(judged > 0)
    ctx.tag(src["kind"] + (" given as a file" if src["file"] else ""))
    ctx.tag("default files", src["named"])
    ctx.tag("pandas" if case["layout"]["pandas"] else "xarray {:d}-D".format(
        inst.data[base[0]].ndim))
    ctx.tag("vectors", vect is not None)
    ctx.tag("scaled variables", len(scal) > 0)
    ctx.tag("coordinates " + loc)
    ctx.tag("missing data", case["holes"] > 0)
    ctx.tag("south", hemi < 0)
    ctx.tag("height " + case["layout"]["high"])
    ctx.tag("criteria", reads and src["crit"] is not None)


def judge(case, src, inst, data, size, fresh, ref_lat, hemi, harr, locdims,
          base, scal, vnames, func, new, tol, where, ctx):
    """Compare every sample of every output to the expected value."""
    src = dict(src, tol=tol)
    times = [gen.to_dt(t) for t in case["times"]]
    found = {t: conv.matches(src, gen.to_dt(t)) for t in case["times"]}
    pandas = case["layout"]["pandas"]
    outs, dims = {}, None
    for key in new:
        col = inst.data[key]
        outs[key] = np.asarray(col.values, float)
        mine = ["time"] if pandas else list(col.dims)
        require(dims is None or mine == dims, "dimensions {} and {}{}", dims,
                mine, where)
        dims = mine
    want_dims = {"time"}.union(*[set(v[0]) for k, v in data.items() if k in (
        ["mlat", "mlt"] + [s[0] for s in scal.values()]
        + (["alt"] if case["layout"]["high"] == "var" else [])
        + (["v" + p for p in case["parts"]] if vnames else []))])
    require(set(dims) == want_dims, "dimensions {} instead of {}{}", dims,
            want_dims, where)
    used = [s[0] for s in scal.values()] + (
        ["v" + p for p in case["parts"]] if vnames else [])
    judged, cache, vcache = 0, {}, {}
    for idx in np.ndindex(*[size[d] for d in dims]):
        pos = dict(zip(dims, idx))

        def at(key):
            return float(data[key][1][tuple(pos[d] for d in data[key][0])])

        lat, lt = at("mlat"), at("mlt")
        high = {"none": 350.0, "scalar": 500.0}.get(case["layout"]["high"])
        if high is None:
            high = at("alt") if harr is None else float(
                harr[tuple(pos[d] for d in locdims)])
        have = {key: float(arr[idx]) for key, arr in outs.items()}
        text = case["times"][pos["time"]]
        inds = found[text]
        spot = "at {} ({}, {}, {} km)".format(pos, lat, lt, high)
        if not inds or not np.sign(lat) == hemi:
            for key, val in have.items():
                require(math.isnan(val), "{} is {} {}, no boundary or other "
                        "hemisphere{}", key, val, spot, where)
            continue
        lacks = any(math.isnan(at(k)) for k in used)
        if math.isnan(lt):
            require(math.isnan(have[base[1]]), "MLT {} {}{}", have[base[1]],
                    spot, where)
            continue
        problems = []
        for ind in inds:
            want = expected(case, src, fresh, ind, lat, lt, high, at,
                                  ref_lat, base, scal, vnames, func, cache,
                                  vcache)
            bad = []
            for key, val in want.items():
                if math.isnan(want[base[1]]) and key not in base[:2]:
                    # Location without magnetic coordinates
                    continue
                if vnames.get(key, "").endswith("_r") and math.isnan(have[key]):
                    continue
                if not same(have[key], val, 24.0 if key == base[1] else None):
                    if not (lacks and math.isnan(have[key])):
                        bad.append((key, have[key], val))
            if not bad:
                problems = []
                break
            problems.append(bad)
        require(not problems, "output, instead of expected value {} {} at "
                "time {} with boundaries {}{}", problems, spot, times[
                    pos["time"]], inds, where)
        judged += not math.isnan(have[base[0]])
    ctx.tag("some samples without boundary", any(
        not v for v in found.values()) and any(found.values()))
    return judged


def expected(case, src, fresh, ind, lat, lt, high, at, ref_lat, base, scal,
             vnames, func, cache, vcache):
    """Values of all outputs for one sample and boundary record."""
    loc, vco = case["coords"]
    if (ind, lat, lt, high) not in cache:
        fresh.rec_ind = ind
        res = [float(v) for v in fresh.normal_coord(
            lat, lt, coords=loc, height=high)]
        if len(res) == 4:
            res = res[:2] + res[3:]
        cache[(ind, lat, lt, high)] = res
    res = cache[(ind, lat, lt, high)]
    want = dict(zip(base, res))
    bound = src["bound"]["ocb"] if src["kind"] == "dual" else src["bound"]
    rad = bound["recs"][ind + src["extra"]]["r"] + res[2]
    for key, (var, ff) in scal.items():
        want[key] = float(ff(at(var), rad, 90.0 - ref_lat))
    if vnames:
        vec = {"vect_" + p: at("v" + p) for p in case["parts"]}
        mark = (ind, lat, lt, high) + tuple(sorted(vec.items()))
        if any(math.isnan(v) for v in vec.values()):
            mark = None
        if mark is None or mark not in vcache:
            vdat = ocb_scaling.VectorData(
                0, ind, lat, lt, loc_coord=loc, vect_coord=vco, height=high,
                scale_func=func, **vec)
            vdat.set_ocb(fresh)
            vals = {part: float(np.ravel(getattr(vdat, part))[0])
                    for part in PARTS}
            vcache[mark] = vals
        vals = vcache[mark]
        for key, part in vnames.items():
            want[key] = vals[part]
    return want


def meta_check(case, inst, data, base, scal, vnames, name, where):
    lab = inst.meta.labels
    parents = {base[0]: "mlat", base[1]: "mlt", base[2]: None}
    parents.update({k: v[0] for k, v in scal.items()})
    for key in vnames:
        parents[key] = "v" + case["parts"][0]
    for key, parent in parents.items():
        require(key in inst.meta.data.index, "no metadata for {}{}", key,
                where)
        item = inst.meta[key]
        require(math.isnan(item[lab.fill_val]), "fill value {} of {}",
                item[lab.fill_val], key)
        require(len(item[lab.notes]) > 0, "no notes for {}", key)
        if not case["meta"] or parent is None:
            continue
        if key in vnames and "_" + name not in key:
            # The radii of the open-closed boundary
            continue
        orig = inst.meta[parent]
        for what in (lab.units, lab.min_val, lab.max_val):
            require(item[what] == orig[what], "{} {} of {} instead of {}",
                    what, item[what], key, orig[what])
        require(orig[lab.desc] in item[lab.desc], "description {!r} of {}",
                item[lab.desc], key)
        if key not in vnames:
            require(orig[lab.name] in item[lab.name], "name {!r} of {}",
                    item[lab.name], key)
            require(item[lab.name].startswith(name.upper()), "name {!r}",
                    item[lab.name])
        else:
            require("scaled using" in item[lab.notes], "notes {!r} of {}",
                    item[lab.notes], key)


def notes_check(case, inst, base, scal, vnames, name, func, where):
    """The notes tell which boundaries were used."""
    src, lab = case["src"], inst.meta.labels
    if src["kind"] == "dual":
        parts = [(src["bound"][k], k[0] + ".txt", "." + k)
                 for k in ("ocb", "eab")]
    else:
        low = src["kind"].lower()
        parts = [(src["bound"], "b_" + low + ".txt" if src["file"] else
                  "b.txt", "." + low)]
    for key in base + list(scal) + list(vnames):
        notes = inst.meta[key][lab.notes]
        rest, last = notes, len(parts) - 1
        for i, (bound, file, ext) in enumerate(parts):
            if src["named"]:
                file = ext
            require(rest.find(file) >= 0, "file {} not in order in the notes "
                    "{!r} of {}{}", file, notes, key, where)
            head, rest = rest.split(file, 1)
            require(bound["fmt"] in head, "instrument {} not before {} in the "
                    "notes {!r} of {}{}", bound["fmt"], file, notes, key,
                    where)
            ref = 74.0 if src["file"] and src["kind"] == "OCB" else (
                64.0 if src["file"] and src["kind"] == "EAB"
                else abs(bound["ref"]))
            text = " {:.2f}".format(src["hemi"] * ref)
            until = rest if i == last else rest.split(parts[i + 1][1])[0] if (
                not src["named"]) else rest.split(parts[i + 1][2])[0]
            require(text in until, "latitude {} not after {} in the notes "
                    "{!r} of {}{}", text, file, notes, key, where)
        if key in vnames and "_" + name in key:
            text = "None" if func is None else func.__name__
            require("scaled using " + text in notes, "function {} not in the "
                    "notes {!r} of {}{}", text, notes, key, where)


# ------------------------------------------------------- metadata of a variable
@st.composite
def meta_case(draw):
    bname = draw(st.sampled_from(["ocb", "eab", "dualb"]))
    root = draw(st.sampled_from(["v", "v_x", "mlat", "dens"]))
    attr = draw(st.sampled_from(["", "", "_n", "_mag", "_scaled_r"]))
    return {"name": root + "_" + bname + attr, "root": root, "bname": bname,
            "parent": draw(st.sampled_from([root, root, "v", "vx",
                                            "nothing"])),
            "known": draw(st.lists(st.sampled_from(
                ["v", "v_x", "mlat", "dens", "vx"]), unique=True)),
            "held": draw(st.booleans()),
            "overwrite": draw(st.sampled_from([None, False, True])),
            "notes": draw(st.sampled_from([None, "", "from here", "a: b"])),
            "isvector": draw(st.sampled_from([None, False, True])),
            "lim": [draw(fl(-100.0, 0.0)), draw(fl(0.0, 100.0))]}


LONGNAME = {"ocb": "Open Closed", "eab": "Equatorward", "dualb": "Dual"}


def item_of(inst, name):
    item = inst.meta[name]
    return {k: item[k] for k in inst.meta.data.columns}


def equal_items(one, two):
    return list(one) == list(two) and all(
        one[k] == two[k] or (one[k] != one[k] and two[k] != two[k])
        for k in one)


def one_meta_check(case, ctx):
    mods = pysat_mods(ctx)
    inst = mods["pysat"].Instrument()
    inst.meta = mods["pysat"].Meta()
    lab, name = inst.meta.labels, case["name"]
    names = case["known"] + ([name] if case["held"] else [])
    for i, key in enumerate(names):
        inst.meta[key] = {lab.units: "unit{:d}".format(i),
                          lab.name: "Long " + key, lab.desc: "About " + key,
                          lab.notes: "old " + key, lab.fill_val: -99.0,
                          lab.min_val: case["lim"][0] - i,
                          lab.max_val: case["lim"][1] + i}
    before = {key: item_of(inst, key) for key in names}
    kwargs = {k: case[k] for k in ("overwrite", "notes", "isvector")
              if case[k] is not None}
    where = " for {} of {}".format(name, case).replace("{", "(").replace(
        "}", ")")
    mods["mod"].add_ocb_to_metadata(inst, name, case["parent"], **kwargs)
    require(sorted(inst.meta.data.index) == sorted(set(names + [name])),
            "metadata of {}{}", list(inst.meta.data.index), where)
    for key in names:
        if key != name or not case["overwrite"]:
            require(equal_items(item_of(inst, key), before[key]), "metadata of "
                    "{} changed to {}{}", key, item_of(inst, key), where)
    ctx.nontrivial()
    ctx.tag("held before", case["held"])
    if case["held"] and not case["overwrite"]:
        return
    item, held = inst.meta[name], case["parent"] in case["known"]
    require(item[lab.notes] == (case["notes"] or ""), "notes {!r}{}",
            item[lab.notes], where)
    require(math.isnan(item[lab.fill_val]), "fill value {}{}",
            item[lab.fill_val], where)
    require(case["bname"].upper() in item[lab.name], "name {!r}{}",
            item[lab.name], where)
    require(LONGNAME[case["bname"]] in item[lab.desc], "description {!r}{}",
            item[lab.desc], where)
    if held:
        orig = before[case["parent"]]
        for key in (lab.units, lab.min_val, lab.max_val):
            require(item[key] == orig[key], "{} {} instead of {}{}", key,
                    item[key], orig[key], where)
        require(orig[lab.desc] in item[lab.desc], "description {!r}{}",
                item[lab.desc], where)
        if not case["isvector"]:
            require(orig[lab.name] in item[lab.name], "name {!r}{}",
                    item[lab.name], where)
    else:
        require(item[lab.min_val] == -math.inf and item[lab.max_val]
                == math.inf, "limits {} to {}{}", item[lab.min_val],
                item[lab.max_val], where)
    if case["isvector"] or not held:
        require(case["root"].replace("_", " ") in item[lab.name], "name {!r}"
                "{}", item[lab.name], where)
    ctx.tag("parent known", held)
    ctx.tag("vector", bool(case["isvector"]))


# ------------------------------------------------------------ refused requests
KINDS = ["lat", "lt", "evar", "curl", "vector", "scale", "instrument", "mixed",
         "type", "records", "height"]
refuse_case = st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "pandas": st.booleans(),
    "bound": bnd.boundary(cls="OCB", hemi=1, fmts=("image",),
                          specs=("default",), max_recs=2)})


def refuse_check(case, ctx):
    mods, kind = pysat_mods(ctx), case["kind"]
    times = [r["time"] for r in case["bound"]["recs"]]
    times = sorted((times * 2)[:2])
    spec = {"times": times, "meta": False, "seed": 5, "holes": 0,
            "lats": [70.0], "lts": [8.0], "layout": {
                "pandas": case["pandas"], "lat": ["time"], "lt": ["time"],
                "h": ["time"], "data": [["time"]] * 5, "coords": [],
                "aux": False}}
    data, size = arrays(spec)
    if kind == "mixed":
        data["mlat"][1][0] = -65.0
    inst = instrument(spec, data, size, mods)
    before = inst.data.copy(deep=True)
    obj = bnd.make(case["bound"], ctx.path("r_ocb.txt"))
    kwargs = {"mlat_name": "mlat", "mlt_name": "mlt", "ocb": obj,
              "max_sdiff": 60, "evar_names": ["v"]}
    target = inst
    if kind in ("lat", "lt"):
        kwargs["m" + kind + "_name"] = "nothing"
    elif kind == "evar":
        kwargs["evar_names"] = ["v", "nothing"]
    elif kind == "curl":
        kwargs["curl_evar_names"] = ["u", "nothing"]
    elif kind == "vector":
        kwargs["vector_names"] = {"w": {"vect_n": "vn", "vect_e": "nothing",
                                        "scale_func": None}}
    elif kind == "scale":
        kwargs["vector_names"] = {"w": {"vect_n": "vn", "vect_e": "ve"}}
    elif kind == "instrument":
        target = before
    elif kind == "mixed":
        kwargs.pop("ocb")
        kwargs.update(ocbfile=ctx.path("r_ocb.txt"), instrument="image")
    elif kind == "type":
        kwargs.pop("ocb")
        bnd.write(case["bound"], ctx.path("nothing.txt"))
        kwargs.update(ocbfile=ctx.path("nothing.txt"), instrument="image")
    elif kind == "height":
        kwargs["height"] = np.full((len(times), 3), 200.0)
    elif kind == "records":
        with open(ctx.path("n_ocb.txt"), "w"):
            pass
        kwargs["ocb"] = ocbpy.OCBoundary(None)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mods["mod"].add_ocb_to_data(target, **kwargs)
        done = True
    except ValueError:
        done = False
    require(done == (kind == "records"), "{} request {}", kind,
            "accepted" if done else "refused")
    require(before.equals(inst.data) and list(before) == list(inst.data),
            "data changed by a {} request", kind)
    ctx.nontrivial()
    ctx.tag(kind)


TARGETS = [
    Target("add", add_case(), add_check, 1200,
           rule="at least one sample with boundary coordinates"),
    Target("metadata", meta_case(), one_meta_check, 300, rule="every case"),
    Target("refused", refuse_case, refuse_check, 60, rule="every case"),
]
