"""Strategies and file writers shared by the checks (cases are JSON-able)."""
import datetime as dt
import math
import os
import sys

import numpy as np
from hypothesis import strategies as st

T0 = dt.datetime(2000, 1, 1)


def fl(lo, hi, special=()):
    """Floats in [lo, hi]: uniform-ish grid, full-precision, and specials."""
    span = hi - lo
    opts = [st.integers(0, 10 ** 6).map(lambda k: lo + span * (k / 1.0e6)),
            st.floats(lo, hi, allow_nan=False, allow_infinity=False)]
    if math.ceil(lo) <= math.floor(hi):
        opts.append(st.integers(math.ceil(lo), math.floor(hi)).map(float))
    if special:
        opts.append(st.sampled_from([float(s) for s in special]))
    return st.one_of(*opts)


def datetimes(lo=dt.datetime(2000, 1, 1), hi=dt.datetime(2014, 12, 31)):
    """Whole-second datetimes as ISO strings."""
    total = int((hi - lo).total_seconds())
    return st.integers(0, total).map(
        lambda s: (lo + dt.timedelta(seconds=s)).isoformat())


def spelled(draw):
    """How the name of a coordinate system is written; any case is fine."""
    return draw(st.sampled_from(["lower"] * 4 + ["title", "upper"]))


def spell(name, how):
    return getattr(name, how)()


def to_dt(text):
    return dt.datetime.fromisoformat(text)


def num(val):
    """Exact text of a float for a data file."""
    return repr(float(val))


def write_image(path, recs):
    """recs: dicts with time (iso), phi, rc, r, fom."""
    with open(path, "w") as fh:
        for rec in recs:
            dtime = to_dt(rec["time"])
            soy = (dtime - dt.datetime(dtime.year, 1, 1)).total_seconds()
            fh.write("{:d} {:.0f} {:d} {:s} {:s} {:s} {:s} {:s} {:s}\n".format(
                dtime.year, soy, int(rec.get("num", 10)), num(rec["phi"]),
                num(rec["rc"]), num(rec["r"]), num(rec.get("a", 0.5)),
                num(rec.get("r_err", 0.25)), num(rec["fom"])))
    return path


def write_ampere(path, recs):
    """recs: dicts with time (whole minutes), r, x, y, fom."""
    with open(path, "w") as fh:
        for rec in recs:
            dtime = to_dt(rec["time"])
            fh.write("{:s} {:s} {:s} {:s} {:s}\n".format(
                dtime.strftime("%Y%m%d %H:%M"), num(rec["r"]), num(rec["x"]),
                num(rec["y"]), num(rec["fom"])))
    return path


def write_dmsp(path, recs):
    with open(path, "w") as fh:
        fh.write("#sc date time r x y fom x_1 y_1 x_2 y_2\n")
        for rec in recs:
            dtime = to_dt(rec["time"])
            fh.write("{:d} {:s} {:s} {:s} {:s} {:s} {:s} {:s} {:s} {:s}\n".format(
                int(rec["sc"]), dtime.strftime("%Y-%m-%d %H:%M:%S"),
                num(rec["r"]), num(rec["x"]), num(rec["y"]), num(rec["fom"]),
                num(rec["x1"]), num(rec["y1"]), num(rec["x2"]),
                num(rec["y2"])))
    return path


# ------------------------------------------------------------ arrays and forms
FORMS = ["array", "list", "scalar", "0d", "int", "2d"]


def ang_diff(a, b, period):
    """Smallest absolute difference of cyclic values."""
    d = np.abs(np.asarray(a, float) - np.asarray(b, float)) % period
    return np.minimum(d, period - d)


def same_bits(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and bool(
        np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))


def close(a, b, atol, rtol=0.0):
    """Elementwise closeness; NaN equals NaN."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    both = np.isnan(a) & np.isnan(b)
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.abs(b)
    return bool(np.all(ok | both | (a == b)))


def uneven(num, step):
    """Values from 0 to 6 steps, in no order, for per-element settings."""
    return step * ((5.0 * np.arange(num) + 2.0) % 7.0 + 0.01 * np.arange(num))


class moved_package:
    """The package looks as if its boundary directory is `where`.

    Covers the ways in which the code may find it: the file or path of the
    package, of its `boundaries` folder, or of any module in there.

    """

    def __init__(self, where):
        self.where, self.held = where, []

    def __enter__(self):
        root = os.path.dirname(self.where)
        for name, mod in list(sys.modules.items()):
            if name.split(".")[0] != "ocbpy" or mod is None or getattr(
                    mod, "__file__", None) is None:
                continue
            base = os.path.basename(mod.__file__)
            if name.startswith("ocbpy.boundaries"):
                path = os.path.join(self.where, base)
            elif name == "ocbpy":
                path = os.path.join(root, base)
            else:
                continue
            self.held.append((mod, mod.__file__))
            mod.__file__ = path

    def __exit__(self, *args):
        for mod, path in self.held:
            mod.__file__ = path
        self.held = []


def slt2lon(slt, dtime):
    """Longitude at a solar local time."""
    uth = dtime.hour + dtime.minute / 60.0 + dtime.second / 3600.0
    return ((np.asarray(slt, float) - uth) * 15.0 + 180.0) % 360.0 - 180.0
