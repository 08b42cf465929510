"""P12: radius-correction functions are the documented functions of MLT.

Oracle: independent scalar evaluation of the published formulas and coefficients; periodicity and element-independence relations.
"""
import math

import numpy as np
from hypothesis import strategies as st
from ocbpy import ocb_correction as oc

from lib import gen, geom
from lib.gen import fl
from lib.vlib import Target, fail, require

ASSUMPTIONS = [
    "MLT within a few hundred hours of zero",
    "the published coefficients are those of the references cited by the "
    "module, transcribed into lib/geom.py"]

SPECS = ([["elliptical", "ampere", m] for m in ("median", "gaussian")]
         + [["harmonic"] + list(k) for k in sorted(geom.HARM)])


@st.composite
def value_case(draw):
    kind = draw(st.sampled_from(["circular"] + ["other"] * 4))
    if kind == "circular":
        spec = ["circular", draw(st.one_of(
            st.none(), fl(-30.0, 30.0, special=[0, 1, -1])))]
    else:
        spec = list(draw(st.sampled_from(SPECS)))
    mlt = st.one_of(fl(0.0, 24.0, special=[0, 6, 12, 18, 24]),
                    fl(0.0, 24.0), fl(-48.0, 72.0), fl(-200.0, 200.0),
                    st.none())
    return {"spec": spec, "mlt": draw(st.lists(mlt, min_size=1, max_size=8)),
            "form": draw(st.sampled_from(
                ["array", "list", "scalar", "0d", "2d", "intarray", "int",
                 "empty", "column"])),
            "turns": draw(st.integers(-4, 4)),
            "defaults": draw(st.booleans()),
            "case": draw(st.sampled_from(["lower", "lower", "upper",
                                          "title"]))}


def caller(case):
    """The function under test with its keyword arguments bound."""
    spec = case["spec"]
    if spec[0] == "circular":
        kw = {} if spec[1] is None else {"r_add": spec[1]}
        return lambda mlt: oc.circular(mlt, **kw)
    word = {"lower": str.lower, "upper": str.upper,
            "title": str.title}[case["case"]]
    kw = {"instrument": word(spec[1]), "method": word(spec[2])}
    if case["defaults"]:
        # Drop the arguments that have these values by default
        if spec[1] == "ampere":
            del kw["instrument"]
            if spec[2] == "median":
                del kw["method"]
    func = {"elliptical": oc.elliptical, "harmonic": oc.harmonic}[spec[0]]
    return lambda mlt: func(mlt, **kw)


def expected(spec, mlt):
    if spec[0] == "circular":
        return 0.0 if spec[1] is None else spec[1]
    if spec[0] == "elliptical":
        return geom.corr(["elliptical", spec[2]], mlt)
    return geom.corr(spec, mlt)


def value_check(case, ctx):
    func = caller(case)
    mlt = np.array([geom.NAN if v is None else v for v in case["mlt"]])
    form = case["form"]
    if form in ("int", "intarray"):
        mlt = np.where(np.isnan(mlt), 3.0, np.round(mlt))
    arg = {"array": mlt, "list": list(mlt), "scalar": float(mlt[0]),
           "0d": np.array(mlt[0]), "2d": np.stack([mlt, mlt[::-1]]),
           "intarray": mlt, "int": mlt[0], "empty": mlt[:0],
           "column": mlt[:, None]}[form]
    if form == "intarray":
        arg = mlt.astype(int)
    elif form == "int":
        arg = int(mlt[0])
    keep = np.array(arg, copy=True)
    got = func(arg)
    require(gen.same_bits(np.array(arg), keep), "input was altered")
    require(np.shape(got) == keep.shape, "{}: shape {} for MLT of shape {}",
            case["spec"], np.shape(got), keep.shape)
    vals = np.asarray(got, float)
    for idx in np.ndindex(keep.shape):
        hour = float(keep[idx])
        want = expected(case["spec"], hour)
        val = float(vals[idx])
        require(abs(val - want) < 1.0e-9 or (math.isnan(val)
                                             and math.isnan(want)),
                "{} at MLT {}: {} instead of {}", case["spec"], hour, val,
                want)
        if not math.isnan(hour):
            alone = func(hour)
            require(np.shape(alone) == () and abs(float(alone) - val) < 1e-12,
                    "{} at MLT {} alone: {}, with others {}", case["spec"],
                    hour, alone, val)
            turned = float(func(hour + 24.0 * case["turns"]))
            require(abs(turned - val) < 1.0e-9, "{} at MLT {} + {} days: {} "
                    "instead of {}", case["spec"], hour, case["turns"], turned,
                    val)
    ctx.nontrivial(keep.size > 0 and bool(np.any(np.isfinite(keep))))
    ctx.tag("/".join(str(v) for v in case["spec"][:1] + (
        case["spec"][1:] if case["spec"][0] != "circular" else [])))
    ctx.tag("form:" + form)
    ctx.tag("beyond one day", bool(np.any((keep < 0) | (keep >= 24))))


WORDS = ["", "median", "gaussian", "ocb", "eab", "mean", "image", "ampere",
         "si12", "wic", "medians", "none", "gauss"]


@st.composite
def bad_case(draw):
    func = draw(st.sampled_from(["elliptical", "harmonic"]))
    word = st.one_of(st.sampled_from(WORDS), st.text(max_size=6))
    inst, meth = draw(word), draw(word)
    if draw(st.booleans()):
        inst = draw(st.sampled_from(["ampere", "si12", "si13", "wic"]))
    return {"func": func, "inst": inst, "meth": meth}


def bad_check(case, ctx):
    low = (case["inst"].lower(), case["meth"].lower())
    if case["func"] == "elliptical":
        good = low[0] == "ampere" and low[1] in geom.ELL
    else:
        good = low in geom.HARM
    try:
        out = getattr(oc, case["func"])(6.0, instrument=case["inst"],
                                        method=case["meth"])
    except ValueError:
        require(not good, "{} refused", case)
        ctx.nontrivial()
        ctx.tag("known instrument", low[0] in ("ampere", "si12", "si13",
                                               "wic"))
        return
    if not good:
        fail("{} gave {}", case, out)


TARGETS = [
    Target("values", value_case(), value_check, 6000,
           rule="at least one finite MLT"),
    Target("unknown", bad_case(), bad_check, 600, rule="refused settings"),
]
