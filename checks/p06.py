"""P06: data are matched to the closest good boundary within tolerance.

Oracle: brute-force nearest good record per data time, compared with the whole history of matches made while walking through generated time series.
"""
import datetime as dt
import math

import numpy as np
from hypothesis import strategies as st
from ocbpy import cycle_boundary

from lib import bnd, gen
from lib.vlib import Target, require

ASSUMPTIONS = ["strictly increasing boundary times, non-decreasing data times",
               "whole-second tolerances"]
LIM = {"image": (-math.inf, 5.0), "dmsp-ssj": (3.0, math.inf),
       "ampere": (0.15, math.inf)}
FOMS = {"image": [1.0, 4.5, 5.0, 6.0], "dmsp-ssj": [2.0, 3.0, 4.5, 6.0],
        "ampere": [0.1, 0.15, 2.0, 4.5]}
START = dt.datetime(2003, 5, 5, 23, 50)


@st.composite
def data_times(draw, btimes, tol):
    """Seconds since START, non-decreasing, many near the boundary times."""
    last = btimes[-1] if btimes else 100
    near = st.tuples(st.sampled_from(btimes or [0]), st.sampled_from(
        [0, 0, 1, -1, tol, -tol, tol + 1, -tol - 1, tol / 2.0, -tol / 2.0,
         tol + 0.25, -tol - 0.25, tol + 1.0e-6, -tol - 1.0e-6, 1.0e-6]))
    val = st.one_of(near.map(lambda p: p[0] + p[1]), near.map(
        lambda p: p[0] + p[1]), st.integers(-300, int(last) + 300),
        st.integers(0, int(last)).map(lambda k: k + 0.5))
    if len(btimes) > 1:
        # Midpoints (ties) between neighbours
        mids = [(a + b) / 2.0 for a, b in zip(btimes[:-1], btimes[1:])]
        val = st.one_of(val, st.sampled_from(mids), st.tuples(
            st.sampled_from(mids), st.sampled_from([-0.5, 0.5, 1.0e-6, -1.0e-6])).map(sum))
    return sorted(float(v) for v in draw(st.lists(val, max_size=12)))


@st.composite
def steps(draw, nmax, lo=1):
    out, now = [], 0
    for _ in range(draw(st.integers(1, nmax))):
        out.append(now)
        now += draw(st.one_of(st.integers(lo, 30 + lo), st.integers(lo, 400)))
    return out


@st.composite
def one_case(draw):
    fmt = draw(st.sampled_from(["image", "dmsp-ssj"]))
    tol = draw(st.one_of(st.sampled_from([0, 1, 10, 60, 60, 120, 600]),
                         st.integers(2, 700)))
    btimes = draw(steps(10))
    recs = [{"fom": draw(st.sampled_from(FOMS[fmt][:] + FOMS[fmt][1:3] * 2)),
             "r": draw(st.sampled_from([10.0, 12.0, 14.0]))} for _ in btimes]
    return {"fmt": fmt, "tol": tol, "btimes": btimes, "recs": recs,
            "dtimes": draw(data_times(btimes, tol)),
            "array": draw(st.booleans()),
            "cls": draw(st.sampled_from(["OCB", "EAB"])),
            "lo": draw(st.sampled_from([None, None, None, 2.0, 4.5])),
            "hi": draw(st.sampled_from([None, None, None, 4.5, 6.0])),
            "crit": draw(st.sampled_from([None, None, ["min", 10.0],
                                          ["maxeq", 12.0], ["equal", 12.0]])),
            "start": draw(st.sampled_from([-1, -1, -1, 0, 1, 3])),
            "idat": draw(st.sampled_from([0, 0, 0, 1, 3])),
            "deftol": draw(st.booleans())}


def walk(ocb, times, tol, start, kwargs, defaults=False):
    """The documented loop; returns the matches and the final data index.

    With defaults, the tolerance and the first data index are left out.

    """
    matches, idat = [], start
    count = len(times)
    guard = 0
    while idat is not None and idat < count and ocb.rec_ind < ocb.records:
        guard += 1
        require(guard <= count + 2, "the walk does not move on")
        opts = dict(kwargs)
        if idat > 0 or not defaults:
            opts["idat"] = idat
        if not defaults:
            opts["max_tol"] = tol
        new = cycle_boundary.match_data_ocb(ocb, times, **opts)
        if new is None:
            return matches, None
        require(new >= idat, "data index went back from {} to {}", idat, new)
        idat = new
        if idat < count and ocb.rec_ind < ocb.records:
            matches.append((int(idat), int(ocb.rec_ind)))
            idat += 1
    # Past the end of either series, nothing moves any more
    if idat is not None:
        past = ocb.rec_ind >= ocb.records
        new = cycle_boundary.match_data_ocb(ocb, times, idat=idat, max_tol=tol,
                                            **kwargs)
        require(new == idat and past == (ocb.rec_ind >= ocb.records), "data "
                "index {} and record {} of {} after the end at {}", new,
                ocb.rec_ind, ocb.records, idat)
    return matches, idat


def judge(matches, times, btimes, good, tol, first_idat, ctx):
    """Compare the matches with the nearest good records."""
    got = dict(matches)
    require(len(got) == len(matches) and [m[0] for m in matches] == sorted(got),
            "matches out of order: {}", matches)
    skipped, ties = 0, 0
    for i, when in enumerate(times):
        if i < first_idat:
            require(i not in got, "data {} before the start was matched", i)
            continue
        dist = {g: abs((btimes[g] - when).total_seconds()) for g in good}
        near = min(dist.values()) if dist else math.inf
        if near > tol:
            skipped += 1
            require(i not in got, "data {} at {} matched with record {} at {}, "
                    "nearest good record is {} s away (tolerance {})", i, when,
                    got.get(i), btimes[got.get(i, 0)], near, tol)
            continue
        require(i in got, "data {} at {} not matched although a good record is "
                "{} s away (tolerance {}); matches {}", i, when, near, tol,
                matches)
        require(got[i] in dist, "data {} matched with record {}, which is not "
                "good ({})", i, got[i], good)
        require(dist[got[i]] == near, "data {} at {} matched with record {} at "
                "{}, but the closest good record is {} s away", i, when, got[i],
                btimes[got[i]], near)
        ties += sum(1 for v in dist.values() if v == near) > 1
    ctx.tag("data without a boundary", skipped > 0)
    ctx.tag("tie", ties > 0)
    return len(got)


def one_check(case, ctx):
    btimes = [START + dt.timedelta(seconds=s) for s in case["btimes"]]
    times = [START + dt.timedelta(seconds=s) for s in case["dtimes"]]
    rows = [dict(r, time=t.isoformat(), phi=10.0, rc=1.0)
            for r, t in zip(case["recs"], btimes)]
    ocb = bnd.make({"fmt": case["fmt"], "recs": rows, "cls": case["cls"],
                    "hemi": 1, "ref": 74.0, "spec": None}, ctx.path("b.txt"))
    lo, hi = LIM[case["fmt"]]
    kw = {}
    if case["lo"] is not None:
        lo = kw["min_merit"] = case["lo"]
    if case["hi"] is not None:
        hi = kw["max_merit"] = case["hi"]
    if case["crit"] is not None:
        kw["r"] = tuple(case["crit"])
    good = []
    for i, row in enumerate(rows):
        ok = lo <= row["fom"] <= hi
        if case["crit"] is not None:
            oper, lim = case["crit"]
            ok = ok and {"min": row["r"] > lim, "maxeq": row["r"] <= lim,
                         "equal": row["r"] == lim}[oper]
        if ok:
            good.append(i)
    if case["start"] >= 0:
        # A good record that is already selected
        if case["start"] >= len(good):
            return
        ocb.rec_ind = good[case["start"]]
        good = good[case["start"]:]
    tol = 60 if case["deftol"] else case["tol"]
    given = np.array(times, dtype=object) if case["array"] else list(times)
    keep = list(times)
    first = min(case["idat"], len(times))
    matches, last = walk(ocb, given, tol, first, kw, case["deftol"])
    num = judge(matches, times, btimes, good, tol, first, ctx)
    require(list(given) == keep, "data times were altered")
    require(last is None or last >= len(times) or ocb.rec_ind >= ocb.records,
            "the walk ended at data {} record {}", last, ocb.rec_ind)
    ctx.nontrivial(num > 0 and len(good) > 1)
    ctx.tag("some records are poor", len(good) < len(rows))
    ctx.tag("criterion", case["crit"] is not None)
    ctx.tag("already selected", case["start"] >= 0)
    ctx.tag("one record serves several data", num > len({m[1] for m in
                                                         matches}))


# ---------------------------------------------------------------- dual boundary
@st.composite
def dual_case(draw):
    tol = draw(st.one_of(st.sampled_from([10, 60, 60, 120, 600]),
                         st.integers(2, 700)))
    otimes = draw(steps(7, lo=150))
    recs = []
    for _ in otimes:
        recs.append({"off": draw(st.sampled_from([0, 0, 20, -20, 40])),
                     "ofom": draw(st.sampled_from([3.0, 4.0, 4.0, 5.0, 6.0])),
                     "efom": draw(st.sampled_from([2.0, 3.0, 4.0, 4.0, 5.0])),
                     "orad": draw(st.sampled_from([10.0, 12.0])),
                     "erad": draw(st.sampled_from([12.0, 14.0]))})
    return {"tol": tol, "otimes": otimes, "recs": recs,
            "dtimes": draw(data_times(otimes, tol)),
            "lo": draw(st.sampled_from([None, None, 3.0, 4.0])),
            "hi": draw(st.sampled_from([None, None, 4.0, 5.0])),
            "crit": draw(st.sampled_from([None, None, ["mineq", 12.0],
                                          ["max", 13.0]])),
            "start": draw(st.sampled_from([-1, 0, 0, 1]))}


def dual_check(case, ctx):
    import ocbpy
    otimes = [START + dt.timedelta(seconds=s) for s in case["otimes"]]
    times = [START + dt.timedelta(seconds=s) for s in case["dtimes"]]
    orows = [{"fom": r["ofom"], "r": r["orad"], "phi": 5.0, "rc": 1.0,
              "time": t.isoformat()} for r, t in zip(case["recs"], otimes)]
    erows = [{"fom": r["efom"], "r": r["erad"] + 8.0, "phi": 5.0, "rc": 1.0,
              "time": (t + dt.timedelta(seconds=r["off"])).isoformat()}
             for r, t in zip(case["recs"], otimes)]
    # one criterion applies to both boundaries
    for erow, rec in zip(erows, case["recs"]):
        erow["r"] = rec["erad"]
    base = {"hemi": 1, "spec": None}
    ocb = bnd.make(dict(base, fmt="image", recs=orows, cls="OCB", ref=74.0),
                   ctx.path("o.txt"))
    eab = bnd.make(dict(base, fmt="dmsp-ssj", recs=erows, cls="EAB", ref=64.0),
                   ctx.path("e.txt"))
    dual = ocbpy.DualBoundary(ocb=ocb, eab=eab, hemisphere=1)
    kw = {}
    (olo, ohi), (elo, ehi) = LIM["image"], LIM["dmsp-ssj"]
    if case["lo"] is not None:
        olo = elo = kw["min_merit"] = case["lo"]
    if case["hi"] is not None:
        ohi = ehi = kw["max_merit"] = case["hi"]
    if case["crit"] is not None:
        kw["r"] = tuple(case["crit"])

    def meets(val):
        if case["crit"] is None:
            return True
        return val >= 12.0 if case["crit"][0] == "mineq" else val < 13.0

    pairs = [i for i, r in enumerate(case["recs"])
             if olo <= r["ofom"] <= ohi and elo <= r["efom"] <= ehi
             and meets(r["orad"]) and meets(r["erad"])]
    start = case["start"]
    plain = [i for i, r in enumerate(case["recs"])
             if r["ofom"] <= 5.0 and r["efom"] >= 3.0]
    require(list(dual.ocb_ind) == plain and list(dual.eab_ind) == plain,
            "pairs {} {} instead of {}", dual.ocb_ind, dual.eab_ind, plain)
    if dual.records == 0:
        return
    if kw:
        start = 0   # selection criteria re-pair the records
    elif start >= dual.records:
        start = 0
    dual.rec_ind = start
    count, idat, matches = len(times), 0, []
    while idat is not None and idat < count and dual.rec_ind < dual.records:
        new = cycle_boundary.match_data_ocb(dual, list(times), idat=idat,
                                            max_tol=case["tol"], **dict(kw))
        require(new is None or new >= idat, "data index went back")
        idat = new
        if idat is not None and idat < count and dual.rec_ind < dual.records:
            require(dual.ocb.rec_ind == dual.ocb_ind[dual.rec_ind]
                    and dual.eab.rec_ind == dual.eab_ind[dual.rec_ind],
                    "boundaries out of step with pair {}", dual.rec_ind)
            require(dual.ocb_ind[dual.rec_ind] == dual.eab_ind[dual.rec_ind],
                    "pair {} joins {} and {}", dual.rec_ind,
                    dual.ocb_ind[dual.rec_ind], dual.eab_ind[dual.rec_ind])
            matches.append((int(idat), int(dual.ocb_ind[dual.rec_ind])))
            idat += 1
    good = pairs[max(start, 0):]
    num = judge(matches, times, otimes, good, case["tol"], 0, ctx)
    ctx.nontrivial(num > 0 and len(good) > 1)
    ctx.tag("re-selected", bool(kw))
    ctx.tag("some pairs are poor", len(pairs) < len(case["recs"]))


TARGETS = [
    Target("walk", one_case(), one_check, 5000,
           rule="some data matched and more than one good record"),
    Target("dual", dual_case(), dual_check, 2000,
           rule="some data matched and more than one good pair"),
]
