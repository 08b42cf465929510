"""P07: dual boundary records are valid OCB/EAB pairs kept in step.

Oracle: validity predicate over the pairing (exact pairs where unambiguous) and a model of the selected records over histories of selections, steps and re-pairings.
"""
import datetime as dt
import math

import ocbpy
from hypothesis import strategies as st

from lib import bnd
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = ["strictly increasing times in each boundary file",
               "which of several candidates within the limit is paired is not "
               "judged (only soundness, order and single use of each EAB)"]
LIM = {"image": (-math.inf, 5.0), "dmsp-ssj": (3.0, math.inf),
       "ampere": (0.15, math.inf)}
FOMS = {"image": [1.0, 4.0, 5.0, 6.0], "dmsp-ssj": [2.0, 3.0, 4.0, 6.0],
        "ampere": [0.1, 0.15, 2.0, 4.0]}
START = dt.datetime(2004, 12, 31, 23, 50)


@st.composite
def series(draw, fmt, spread):
    unit = 60 if fmt == "ampere" else 1
    out, now = [], draw(st.integers(0, 3)) * 60 // unit * unit
    for _ in range(draw(st.integers(1, 8))):
        out.append({"t": now, "fom": draw(st.sampled_from(
            FOMS[fmt] + FOMS[fmt][1:3])), "r": draw(st.sampled_from(
                [12.0, 14.0, 16.0]))})
        lo = max(unit, spread)
        now += draw(st.integers(0, 4)) * 60 + lo
        now = -(-now // unit) * unit
    return out


@st.composite
def criteria(draw):
    out = {}
    if draw(st.booleans()):
        out["lo"] = draw(st.sampled_from([2.0, 3.0, 4.0]))
    if draw(st.booleans()):
        out["hi"] = draw(st.sampled_from([4.0, 5.0, 6.0]))
    if draw(st.booleans()):
        out["r"] = draw(st.sampled_from([["min", 12.0], ["max", 16.0],
                                         ["equal", 14.0], ["mineq", 14.0],
                                         ["maxeq", 14.0]]))
    return out


@st.composite
def pair_case(draw):
    ofmt = draw(st.sampled_from(["image", "dmsp-ssj", "ampere"]))
    efmt = draw(st.sampled_from(["image", "dmsp-ssj", "ampere"]))
    delta = draw(st.one_of(st.sampled_from([1, 30, 60, 60, 90, 300]),
                           st.integers(1, 700)))
    spread = draw(st.sampled_from([1, 60, 2 * delta + 1, 3 * delta]))
    ocb = draw(series(ofmt, spread))
    if draw(st.booleans()):
        eab = draw(series(efmt, spread))
    else:
        # EABs close to the OCBs, some missing
        eab, last = [], -10 ** 9
        for rec in ocb:
            off = draw(st.sampled_from([0, 0, 1, -1, delta, -delta, delta + 1,
                                        -delta - 1, delta // 2]))
            unit = 60 if efmt == "ampere" else 1
            now = (rec["t"] + off) // unit * unit
            if now > last and draw(st.integers(0, 5)) > 0:
                last = now
                eab.append({"t": now, "fom": draw(st.sampled_from(
                    FOMS[efmt] + FOMS[efmt][1:3])),
                    "r": draw(st.sampled_from([12.0, 14.0, 16.0]))})
        if not eab:
            eab = draw(series(efmt, spread))
    ops = draw(st.lists(st.one_of(
        st.integers(-3, 10).map(lambda k: ["select", k]),
        st.just(["step"]), st.just(["step"]),
        st.just(["iterate"]),
        st.tuples(criteria(), criteria()).map(lambda c: ["repair", c[0], c[1]]),
        st.sampled_from([1, 45, 60, 120, 400]).map(lambda d: ["limit", d])),
        min_size=1, max_size=6))
    give = draw(st.sampled_from(["objects", "files", "files", "ocb object",
                                 "eab object"]))
    lims = {}
    if give != "objects" and draw(st.integers(0, 2)) == 0:
        secs = [r["t"] for r in ocb + eab]
        for key in ("stime", "etime"):
            if draw(st.booleans()):
                lims[key] = draw(st.sampled_from(secs)) + draw(
                    st.sampled_from([0, 0, 1, -1, 45, -45]))
    return {"ofmt": ofmt, "efmt": efmt, "delta": delta, "ocb": ocb, "eab": eab,
            "ops": ops, "hemi": draw(st.sampled_from([1, -1])),
            "give": give, "lims": lims, "given": draw(st.booleans())}


def limited(case):
    """The case with the rows within the time limits of files it loads."""
    lo = case["lims"].get("stime", -math.inf)
    hi = case["lims"].get("etime", math.inf)
    out = dict(case)
    for key in ("ocb", "eab"):
        if case["give"] in ("files", {"ocb": "eab object",
                                      "eab": "ocb object"}[key]):
            out[key] = [r for r in case[key] if lo <= r["t"] <= hi]
    return out


def ok_rows(rows, fmt, crit):
    lo, hi = LIM[fmt]
    lo, hi = crit.get("lo", lo), crit.get("hi", hi)
    good = []
    for i, row in enumerate(rows):
        ok = lo <= row["fom"] <= hi
        if "r" in crit:
            oper, lim = crit["r"]
            val = row["r"]
            ok = ok and {"min": val > lim, "max": val < lim,
                         "equal": val == lim, "mineq": val >= lim,
                         "maxeq": val <= lim}[oper]
        if ok:
            good.append(i)
    return good


def judge_pairs(dual, case, ocrit, ecrit, tag):
    """The pairing is valid; returns whether it was unambiguous."""
    ocb, eab, delta = case["ocb"], case["eab"], case["delta"]
    good_o = ok_rows(ocb, case["ofmt"], ocrit)
    good_e = ok_rows(eab, case["efmt"], ecrit)
    pairs = list(zip([int(i) for i in dual.ocb_ind],
                     [int(i) for i in dual.eab_ind]))
    require(dual.records == len(pairs) == len(dual.dtime)
            == len(dual.ocb_ind) == len(dual.eab_ind),
            "{}: {} records, {} times, indices {} {}", tag, dual.records,
            len(dual.dtime), dual.ocb_ind, dual.eab_ind)
    for k, (io, ie) in enumerate(pairs):
        require(io in good_o, "{}: pair {} uses OCB {}, good are {}", tag, k,
                io, good_o)
        require(ie in good_e, "{}: pair {} uses EAB {}, good are {}", tag, k,
                ie, good_e)
        gap = abs(ocb[io]["t"] - eab[ie]["t"])
        require(gap <= delta, "{}: pair {} is {} s apart, limit {}", tag, k,
                gap, delta)
        require(dual.dtime[k] == START + dt.timedelta(seconds=ocb[io]["t"]),
                "{}: pair {} time {} is not that of its OCB", tag, k,
                dual.dtime[k])
    for (o1, e1), (o2, e2) in zip(pairs[:-1], pairs[1:]):
        require(o1 <= o2 and e1 < e2, "{}: pairs out of order or EAB used "
                "twice: {}", tag, pairs)
    edges = [(o, e) for o in good_o for e in good_e
             if abs(ocb[o]["t"] - eab[e]["t"]) <= delta]
    clear = len({o for o, _ in edges}) == len(edges) == len(
        {e for _, e in edges})
    if clear:
        require(pairs == edges, "{}: pairs {} instead of {}", tag, pairs,
                edges)
    return clear, len(pairs), len(good_o) < len(ocb) or len(good_e) < len(eab)


def in_step(dual, case, want, tag):
    """Both boundaries are at the records of the selected pair."""
    require(dual.rec_ind == want, "{}: pair index {} instead of {}", tag,
            dual.rec_ind, want)
    nocb, neab = len(case["ocb"]), len(case["eab"])
    if 0 <= want < dual.records:
        require(dual.ocb.rec_ind == dual.ocb_ind[want]
                and dual.eab.rec_ind == dual.eab_ind[want],
                "{}: pair {} ({}, {}) but records {} {} are selected", tag,
                want, dual.ocb_ind[want], dual.eab_ind[want],
                dual.ocb.rec_ind, dual.eab.rec_ind)
    elif want < 0:
        require(dual.ocb.rec_ind < 0 and dual.eab.rec_ind < 0,
                "{}: pair {} but records {} {} are selected", tag, want,
                dual.ocb.rec_ind, dual.eab.rec_ind)
    else:
        require(dual.ocb.rec_ind >= nocb and dual.eab.rec_ind >= neab,
                "{}: pair {} of {} but records {} of {}, {} of {} are selected",
                tag, want, dual.records, dual.ocb.rec_ind, nocb,
                dual.eab.rec_ind, neab)


def pair_check(case, ctx):
    rows = {}
    for key, fmt in (("ocb", case["ofmt"]), ("eab", case["efmt"])):
        rows[key] = {"fmt": fmt, "cls": key.upper(), "hemi": case["hemi"],
                     "ref": 74.0 if key == "ocb" else 64.0, "spec": None,
                     "recs": [{"time": (START + dt.timedelta(
                         seconds=r["t"])).isoformat(), "fom": r["fom"],
                         "r": r["r"], "phi": 3.0, "rc": 1.0}
                         for r in case[key]]}
    kws = {"max_delta": case["delta"]}
    if case["delta"] == 60 and not case["given"]:
        kws = {}
    if case["hemi"] < 0 or case["given"]:
        kws["hemisphere"] = case["hemi"]
    for key in ("ocb", "eab"):
        path = ctx.path(key + ".txt")
        if case["give"] in ("objects", key + " object"):
            kws[key] = bnd.make(rows[key], path)
        else:
            bnd.write(rows[key], path)
            kws[key + "_filename"] = path
            kws[key + "_instrument"] = rows[key]["fmt"]
            if case["given"]:
                kws[key + "_lat"] = rows[key]["ref"]
    for key, sec in case["lims"].items():
        kws[key] = START + dt.timedelta(seconds=sec)
    dual = ocbpy.DualBoundary(**kws)
    case = limited(case)
    for key in ("ocb", "eab"):
        obj = getattr(dual, key)
        require(obj.records == len(case[key]) and all(
            obj.dtime[i] == START + dt.timedelta(seconds=r["t"])
            for i, r in enumerate(case[key])), "{}: {} records at {} instead "
            "of {}", key, obj.records, obj.dtime, case[key])
        require(obj.hemisphere == case["hemi"]
                and obj.boundary_lat == case["hemi"] * rows[key]["ref"],
                "{}: hemisphere {}, reference latitude {}", key,
                obj.hemisphere, obj.boundary_lat)
    require(dual.max_delta == case["delta"], "limit {} instead of {}",
            dual.max_delta, case["delta"])
    require(dual.hemisphere == case["hemi"], "hemisphere {}", dual.hemisphere)
    clear, npair, poor = judge_pairs(dual, case, {}, {}, "after loading")
    want = 0
    in_step(dual, case, want, "after loading")
    most = npair
    for num, oper in enumerate(case["ops"]):
        tag = "operation {} {}".format(num, oper)
        if oper[0] == "select":
            want = oper[1]
            dual.rec_ind = want
        elif oper[0] == "step":
            dual.get_next_good_ind()
            if dual.records > 0 and want < dual.records:
                want += 1
            elif dual.records == 0:
                want = dual.rec_ind
                require(want < 0 or want >= 0 and dual.ocb.rec_ind >= len(
                    case["ocb"]), "{}: a record is selected without pairs", tag)
        elif oper[0] == "iterate":
            dual.rec_ind = -1
            seen = []
            for _ in range(dual.records + 2):
                dual.get_next_good_ind()
                if not 0 <= dual.rec_ind < dual.records:
                    break
                seen.append((int(dual.ocb.rec_ind), int(dual.eab.rec_ind)))
            require(seen == list(zip([int(i) for i in dual.ocb_ind],
                                     [int(i) for i in dual.eab_ind])),
                    "{}: visited {}", tag, seen)
            want = dual.records if dual.records > 0 else dual.rec_ind
        elif oper[0] == "limit":
            # A changed time limit takes effect when pairing again
            dual.max_delta = oper[1]
            case["delta"] = oper[1]
            dual.set_good_ind()
            now, npair, pr = judge_pairs(dual, case, {}, {}, tag)
            clear, poor = clear and now, poor or pr
            most = max(most, npair)
            want = 0
        else:
            kws = {}
            for key, crit in (("ocb", oper[1]), ("eab", oper[2])):
                kws[key + "_min_merit"] = crit.get("lo")
                kws[key + "_max_merit"] = crit.get("hi")
                if "r" in crit:
                    kws[key + "_kwargs"] = {"r": tuple(crit["r"])}
            dual.set_good_ind(**kws)
            now, npair, pr = judge_pairs(dual, case, oper[1], oper[2], tag)
            clear, poor = clear and now, poor or pr
            most = max(most, npair)
            want = 0
        in_step(dual, case, want, tag)
    ctx.nontrivial(most > 1)
    ctx.tag("unambiguous", clear and most > 0)
    ctx.tag("ambiguous", not clear)
    ctx.tag("no pairs", npair == 0)
    ctx.tag("poor records", poor)
    ctx.tag("time limits", bool(case["lims"]))
    ctx.tag("given:" + case["give"])
    for oper in case["ops"]:
        ctx.tag(oper[0])


@st.composite
def refuse_case(draw):
    what = draw(st.sampled_from(["hemisphere", "latitude", "delta"]))
    hi = draw(fl(55.0, 85.0))
    return {"what": what, "hi": hi, "lo": draw(fl(45.0, hi)),
            "signs": [draw(st.sampled_from([1, -1])) for _ in range(2)],
            "objs": draw(st.sampled_from([[], ["ocb"], ["eab"],
                                          ["ocb", "eab"]])),
            "same": draw(st.booleans()), "hemi": draw(
                st.sampled_from([1, -1])),
            "delta": draw(st.sampled_from([0, -1, -60, 0.0, -0.5])),
            "file": draw(st.booleans())}


def refuse_check(case, ctx):
    hemi = case["hemi"]
    kw = {"hemisphere": hemi, "eab_filename": None, "ocb_filename": None,
          "eab_instrument": "", "ocb_instrument": ""}
    if case["what"] == "delta":
        kw["max_delta"] = case["delta"]
    elif case["what"] == "latitude":
        lo = case["hi"] if case["same"] else case["lo"]
        lats = {"eab": case["signs"][0] * case["hi"],
                "ocb": case["signs"][1] * lo}
        rec = {"time": "2002-02-02T02:02:00", "fom": 4.0, "r": 15.0,
               "phi": 1.0, "rc": 1.0}
        for key, lat in lats.items():
            if key in case["objs"]:
                # The reference latitude is that of an object
                ctx.tag("latitude of objects")
                if case["file"]:
                    kw[key] = bnd.make({"fmt": "image", "cls": key.upper(),
                                        "hemi": hemi, "ref": lat,
                                        "spec": None, "recs": [rec]},
                                       ctx.path(key))
                else:
                    kw[key] = bnd.CLASSES[key.upper()](
                        filename=None, instrument="image", hemisphere=hemi,
                        boundary_lat=lat)
            else:
                kw[key + "_lat"] = lat
    else:
        rec = {"time": "2002-02-02T02:02:00", "fom": 4.0, "r": 15.0,
               "phi": 1.0, "rc": 1.0}
        kw = {}
        for key, sgn in (("ocb", hemi), ("eab", -hemi)):
            if case["file"]:
                kw[key] = bnd.make({"fmt": "image", "cls": key.upper(),
                                    "hemi": sgn, "ref": 70.0, "spec": None,
                                    "recs": [rec]}, ctx.path(key))
            else:
                kw[key] = bnd.CLASSES[key.upper()](
                    filename=None, instrument="image", hemisphere=sgn)
    ctx.nontrivial()
    ctx.tag(case["what"])
    try:
        ocbpy.DualBoundary(**kw)
    except ValueError:
        return
    fail("DualBoundary accepted {}", {k: str(v)[:60] for k, v in kw.items()})


TARGETS = [
    Target("pairs", pair_case(), pair_check, 5000,
           rule="more than one pair at some point of the history"),
    Target("refused", refuse_case(), refuse_check, 200, rule="every case"),
]
