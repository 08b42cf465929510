"""Generated boundaries and data times for the file converters (P19, P20)."""
import datetime as dt
import math

from hypothesis import strategies as st
from ocbpy import ocb_scaling

from lib import bnd, gen
from lib.vlib import require

LIM = {"image": (-math.inf, 5.0), "dmsp-ssj": (3.0, math.inf),
       "ampere": (0.15, math.inf)}
SCALES = {"none": None, "evar": ocb_scaling.normal_evar,
          "curl": ocb_scaling.normal_curl_evar}


@st.composite
def source(draw):
    """A boundary (or dual pair), selection criteria, and how it is given."""
    kind = draw(st.sampled_from(["OCB", "OCB", "EAB", "dual", "dual"]))
    out = {"kind": kind, "start": -1, "extra": 0}
    if kind == "dual":
        bound = draw(bnd.dual())
        bound["ocb"]["pad"] = None
        out["extra"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        nrec = len(bound["ocb"]["recs"])
        for _ in range(out["extra"]):
            # Open-closed boundaries without a counterpart
            first = bound["ocb"]["recs"][0]
            rec = draw(bnd.record(rlo=8.0, rhi=20.0, rcmax=6.0))
            rec["fom"] = bnd.GOOD_FOM[bound["ocb"]["fmt"]]
            rec["time"] = (gen.to_dt(first["time"]) - dt.timedelta(
                minutes=draw(st.integers(4, 12)))).isoformat()
            bound["ocb"]["recs"].insert(0, rec)
            if bound["ocb"]["spec"] is not None:
                bound["ocb"]["spec"].insert(0, bound["ocb"]["spec"][0])
        times = [r["time"] for r in bound["ocb"]["recs"][out["extra"]:]]
    else:
        bound = draw(bnd.boundary(cls=kind, small_corr=True, rlo=12.0,
                                  rcmax=8.0, max_recs=5))
        if draw(st.booleans()):
            # Some records are poor
            for rec in bound["recs"]:
                rec["fom"] = draw(st.sampled_from([0.1, 0.2, 3.5, 3.5, 4.9,
                                                   6.0]))
        nrec = len(bound["recs"])
        times = [r["time"] for r in bound["recs"]]
        out["lo"] = draw(st.sampled_from([None, None, None, 0.15, 3.5]))
        out["hi"] = draw(st.sampled_from([None, None, None, 3.5, 5.5]))
        out["crit"] = draw(st.sampled_from([None, None, None, ["min", 20.0],
                                            ["maxeq", 25.0]]))
    out.update(bound=bound, times=times, hemi=bound["hemi"], nrec=nrec)
    out["start"] = draw(st.sampled_from([-1, -1, -1, 0, nrec - 1, nrec]))
    out["tol"] = draw(st.one_of(st.sampled_from(
        [None, 0, 30, 60, 120, 300, 600]), st.integers(1, 650)))
    out["scale"] = draw(st.sampled_from(["default", "none", "evar", "curl"]))
    out["asked"] = draw(st.sampled_from([0, 0, 0, 1, 1, 1, 1, -1]))
    # Given as a file: default settings, an OCB, and no criteria on merit
    out["file"] = kind == "OCB" and draw(st.integers(0, 3)) == 0
    return out


@st.composite
def data_times(draw, src, max_size=5):
    """Non-decreasing ISO times, many of them near the boundaries."""
    tol = 600 if src["tol"] is None else src["tol"]
    base = gen.to_dt(src["times"][0])
    sec = [int((gen.to_dt(t) - base).total_seconds()) for t in src["times"]]
    mids = [(a + b) // 2 for a, b in zip(sec[:-1], sec[1:])] or sec
    step = st.sampled_from([0, 0, 1, -1, tol, -tol, tol + 1, -tol - 1, 25, -25])
    val = st.one_of(
        st.tuples(st.sampled_from(sec), step).map(sum),
        st.tuples(st.sampled_from(sec), step).map(sum),
        st.tuples(st.sampled_from(mids), st.sampled_from([0, 1, -1])).map(sum),
        st.integers(-900, sec[-1] + 900))
    secs = sorted(draw(st.lists(val, min_size=1 + draw(st.integers(0, 2)),
                                max_size=max_size)))
    return [(base + dt.timedelta(seconds=s)).isoformat() for s in secs]


def good_records(src):
    """Indices (of the dual pairs or records) that pass the criteria."""
    if src["kind"] == "dual":
        return list(range(src["nrec"]))
    lo, hi = LIM[src["bound"]["fmt"]]
    lo = lo if src["lo"] is None else src["lo"]
    hi = hi if src["hi"] is None else src["hi"]
    out = []
    for i, rec in enumerate(src["bound"]["recs"]):
        ok = lo <= rec["fom"] <= hi
        if src["crit"] is not None:
            oper, lim = src["crit"]
            ok = ok and (rec["r"] > lim if oper == "min" else rec["r"] <= lim)
        if ok:
            out.append(i)
    return out


def matches(src, when):
    """Acceptable boundary indices for a data time: all that are closest."""
    tol = 600 if src["tol"] is None else src["tol"]
    dist = {i: abs((gen.to_dt(src["times"][i]) - when).total_seconds())
            for i in good_records(src)}
    near = min(dist.values()) if dist else math.inf
    return [i for i, v in sorted(dist.items()) if v == near and near <= tol]


def make(src, ctx):
    """The object under test."""
    if src["kind"] == "dual":
        obj = bnd.make_dual(src["bound"], ctx)
        require(obj.records == src["nrec"] and list(obj.ocb_ind) == [
            i + src["extra"] for i in range(src["nrec"])],
            "pairs {} instead of {} from {}", obj.ocb_ind, src["nrec"],
            src["extra"])
        return obj
    if src["file"]:
        import ocbpy
        bnd.write(src["bound"], ctx.path("b.txt"))
        return ocbpy.OCBoundary(ctx.path("b.txt"),
                                instrument=src["bound"]["fmt"],
                                hemisphere=src["hemi"])
    return bnd.make(src["bound"], ctx.path("b.txt"))


def arguments(src, ctx):
    """Keyword arguments of the converters for the source."""
    kwargs = {}
    if src["file"]:
        bnd.write(src["bound"], ctx.path("b.txt"))
        kwargs.update(ocbfile=ctx.path("b.txt"),
                      instrument=src["bound"]["fmt"])
    else:
        kwargs["ocb"] = make(src, ctx)
        kwargs["ocb"].rec_ind = min(src["start"], src["nrec"])
    if src["tol"] is not None:
        kwargs["max_sdiff"] = src["tol"]
    if src["scale"] != "default":
        kwargs["scale_func"] = SCALES[src["scale"]]
    if src["kind"] != "dual":
        if src["lo"] is not None:
            kwargs["min_merit"] = src["lo"]
        if src["hi"] is not None:
            kwargs["max_merit"] = src["hi"]
        if src["crit"] is not None:
            kwargs["r"] = tuple(src["crit"])
    return kwargs


def scale_func(src):
    return SCALES["curl" if src["scale"] == "default" else src["scale"]]


def near(text, want, digits):
    """A printed number agrees with the value to the written precision."""
    have = float(text)
    if math.isnan(have) or math.isnan(want):
        return math.isnan(have) and math.isnan(want)
    return abs(have - want) <= 0.5001 * 10.0 ** -digits + 1.0e-9 * max(
        1.0, abs(want)) and len(text.split(".")[-1]) >= digits
