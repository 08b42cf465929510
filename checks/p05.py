"""P05: quality selection visits exactly the acceptable records in order.

Oracle: a model that filters the written rows by inclusive merit limits and the custom criteria, over histories of steps, listings and re-selections.
"""
import math

import numpy as np
from hypothesis import strategies as st
from ocbpy import cycle_boundary

from lib import bnd, gen
from lib.vlib import Target, require

ASSUMPTIONS = ["starting index from -1 (before the first record) upwards",
               "numeric, datetime and integer attributes in the criteria"]
GRID = {"image": [0.0, 1.0, 4.75, 5.0, 5.25, 9.0],
        "ampere": [0.0, 0.125, 0.15, 0.25, 1.0, 3.0],
        "dmsp-ssj": [0.0, 2.75, 3.0, 3.25, 5.0, 9.0]}
OPS = ["min", "mineq", "max", "maxeq", "equal"]
UNKNOWN = ("unknown_thing", "unknown_other", "rec_indices")


@st.composite
def criteria(draw, fmt, recs):
    names = ["r", "r_cent", "phi_cent", "fom", "dtime", "unknown_thing",
             "unknown_other", "rec_indices"]
    names += {"image": ["num_sectors", "a"], "ampere": ["x"],
              "dmsp-ssj": ["sc", "x_1"]}[fmt]
    out = {}
    for name in draw(st.lists(st.sampled_from(names), max_size=4,
                              unique=True)):
        oper = draw(st.sampled_from(OPS + ["min", "max"]))
        if name == "dtime":
            val = draw(st.sampled_from(recs))["time"]
        elif name in UNKNOWN:
            val = 1.0
        elif name in ("x", "r_cent", "phi_cent") and fmt != "image":
            val = draw(st.sampled_from([-3.0, 0.5, 4.0, 95.0, 180.5]))
        else:
            key = {"r": "r", "fom": "fom", "r_cent": "rc", "phi_cent": "phi",
                   "num_sectors": "num", "a": "a", "sc": "sc",
                   "x_1": "x1"}[name]
            val = draw(st.sampled_from(recs))[key]
            if isinstance(val, float) and math.isnan(val):
                val = 1.0
        out[name] = [oper, val]
    return out


@st.composite
def select_case(draw):
    fmt = draw(st.sampled_from(["image", "ampere", "dmsp-ssj"]))
    nrec = draw(st.integers(1, 10))
    start = gen.to_dt("2005-03-01T00:00:00")
    recs = []
    fom = st.sampled_from(GRID[fmt] + ([None] if draw(st.booleans()) else []))
    for i in range(nrec):
        recs.append({
            "time": (start + gen.dt.timedelta(minutes=2 * i)).isoformat(),
            "r": draw(st.sampled_from([10.0, 12.5, 15.0, 20.0])),
            "rc": draw(st.sampled_from([0.0, 1.0, 2.5])),
            "phi": draw(st.sampled_from([0.0, 90.0, 200.0])),
            "num": draw(st.integers(1, 3)), "sc": draw(st.integers(16, 18)),
            "a": draw(st.sampled_from([-1.0, 0.0, 2.0])),
            "x1": draw(st.sampled_from([-20.0, 1.0])), "fom": draw(fom)})
    limit = st.one_of(st.none(), st.none(), st.sampled_from(GRID[fmt]))
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        ops.append({"do": draw(st.sampled_from(["step", "step", "walk", "list",
                                                "select"])),
                    "at": draw(st.integers(-1, nrec + 2)),
                    "lo": draw(limit), "hi": draw(limit),
                    "crit": draw(criteria(fmt, [r for r in recs if r["fom"]
                                                is not None] or [
                        dict(recs[0], fom=1.0)]))})
    return {"fmt": fmt, "recs": recs, "ops": ops,
            "cls": draw(st.sampled_from(["OCB", "EAB"]))}


def accepted(ocb, case, oper, vals):
    """Indices that satisfy the limits and criteria."""
    dlo, dhi = {"image": (-math.inf, 5.0), "ampere": (0.15, math.inf),
                "dmsp-ssj": (3.0, math.inf)}[case["fmt"]]
    lo = dlo if oper["lo"] is None else oper["lo"]
    hi = dhi if oper["hi"] is None else oper["hi"]
    good = []
    for i, rec in enumerate(vals):
        ok = lo <= rec["fom"] <= hi
        for name, (kind, lim) in oper["crit"].items():
            if name in UNKNOWN:
                continue
            val = rec[name]
            lim = gen.to_dt(lim) if name == "dtime" else lim
            ok = ok and {"min": val > lim, "mineq": val >= lim,
                         "max": val < lim, "maxeq": val <= lim,
                         "equal": val == lim}[kind]
        if ok:
            good.append(i)
    return good


def select_check(case, ctx):
    rows = [dict(r, fom=math.nan if r["fom"] is None else r["fom"])
            for r in case["recs"]]
    bcase = {"fmt": case["fmt"], "recs": rows, "cls": case["cls"], "hemi": 1,
             "ref": 70.0, "spec": None, "mode": "default"}
    ocb = bnd.make(bcase, ctx.path("b.txt"))
    num = len(rows)
    vals = []
    for rec in rows:
        val = {"r": rec["r"], "fom": rec["fom"], "num_sectors": rec["num"],
               "sc": rec["sc"], "a": rec["a"], "x_1": rec["x1"],
               "dtime": gen.to_dt(rec["time"])}
        val["x"], val["y"] = bnd.xy_of(rec)
        if case["fmt"] == "image":
            val["r_cent"], val["phi_cent"] = rec["rc"], rec["phi"]
        else:
            val["r_cent"] = math.hypot(val["x"], val["y"])
            val["phi_cent"] = (math.degrees(math.atan2(val["y"], val["x"]))
                               + 90.0) % 360.0
        vals.append(val)

    cur = ocb.rec_ind
    partial, moved = False, False
    for k, oper in enumerate(case["ops"]):
        kw = {name: (c[0], gen.to_dt(c[1]) if name == "dtime" else c[1])
              for name, c in oper["crit"].items()}
        given = dict(kw)
        if oper["lo"] is not None:
            kw["min_merit"] = oper["lo"]
        if oper["hi"] is not None:
            kw["max_merit"] = oper["hi"]
        keep = dict(kw)
        good = accepted(ocb, case, oper, vals)
        partial |= 0 < len(good) < num
        tag = "operation {} {}".format(k, oper)
        if oper["do"] == "select":
            ocb.rec_ind = cur = oper["at"]
        elif oper["do"] == "list":
            got = cycle_boundary.retrieve_all_good_indices(ocb, **kw)
            require(isinstance(got, list) and got == good,
                    "{}: listed {} instead of {}", tag, got, good)
            require(ocb.rec_ind == cur, "{}: listing moved the record from {} "
                    "to {}", tag, cur, ocb.rec_ind)
        elif oper["do"] == "step":
            ocb.get_next_good_ocb_ind(**kw)
            later = [i for i in good if i > cur]
            moved = moved or bool(later)
            if later:
                require(ocb.rec_ind == later[0], "{}: stepped from {} to {} "
                        "instead of {}", tag, cur, ocb.rec_ind, later[0])
            else:
                require(ocb.rec_ind >= num, "{}: stepped from {} to {} with no "
                        "good record left", tag, cur, ocb.rec_ind)
            cur = ocb.rec_ind
        else:
            ocb.rec_ind = -1
            seen = []
            for _ in range(num + 2):
                ocb.get_next_good_ocb_ind(**kw)
                if ocb.rec_ind >= num:
                    break
                seen.append(int(ocb.rec_ind))
            require(seen == good, "{}: visited {} instead of {}", tag, seen,
                    good)
            cur = ocb.rec_ind
        require(kw == keep and all(kw[n] == given[n] for n in given),
                "{}: the criteria were altered", tag)
    require(np.array_equal(ocb.fom, [v["fom"] for v in vals], equal_nan=True)
            and ocb.records == num, "the records were altered")
    ctx.nontrivial(partial)
    ctx.tag("step to a later record", moved)
    ctx.tag("criteria", any(o["crit"] for o in case["ops"]))
    ctx.tag("two criteria", any(len(o["crit"]) > 1 for o in case["ops"]))
    ctx.tag("unknown attribute", any("unknown_thing" in o["crit"]
                                     for o in case["ops"]))
    ctx.tag("undefined merit", any(r["fom"] is None for r in case["recs"]))
    for oper in case["ops"]:
        ctx.tag(oper["do"])
        for crit in oper["crit"].values():
            ctx.tag("criterion " + crit[0])


TARGETS = [Target("selection", select_case(), select_check, 6000,
                  rule="an operation accepts some but not all records")]
