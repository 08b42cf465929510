"""P23: DMSP SSJ passes are selected and converted to correct boundary files.

Oracle: the generated pass tables and archive contents: crossing by crossing AACGM positions and the circle through them, a brute-force selection of archive members, and a model of the download outcomes (the downloader runs with its network access replaced by a local stand-in).
"""
import datetime as dt
import hashlib
import io
import math
import os
import shutil
import sys
from unittest import mock
import zipfile

import aacgmv2
import numpy as np
import ocbpy
import ocbpy.boundaries
from hypothesis import strategies as st
import requests

from lib import gen
from lib.gen import fl
from lib.vlib import Target, fail, require

try:
    import zenodo_get
except ImportError:
    zenodo_get = None
from ocbpy.boundaries import dmsp_ssj_files as ssj

ASSUMPTIONS = [
    "the network is replaced: requests.get and wget.download of the "
    "downloader are local stand-ins that serve a generated archive or fail",
    "input files of one call are in one directory and hold numeric tables; "
    "crossings lie poleward of 50 degrees geocentric latitude, where AACGM "
    "coordinates are defined",
    "AACGM coordinates of a single location are right (aacgmv2)"]
NAME = "dmsp-f{:02d}_ssj_precipitating-electrons-ions_{:s}_{:s}_boundaries.csv"
COLS = ["UTSecond Pass Start", "UTSecond Pass End", "hemisphere"] + [
    "UTSec " + b for b in ["EQ1", "PO1", "PO2", "EQ2"]] + ["FOM"] + [
        "{:s} {:s}".format(p, b) for p in
        ["SC_GEOCENTRIC_LAT", "SC_GEOCENTRIC_LON", "mlat", "mlt"]
        for b in ["EQ1", "PO1", "PO2", "EQ2"]]
BAD = ["missing", "folder", "no rows", "columns", "comments", "blank"]
SATS = [16, 17, 18]
DAY = dt.timedelta(days=1)


def day_of(num):
    return dt.datetime(2010, 1, 1) + num * DAY


def name_of(item):
    return NAME.format(item["sat"], day_of(item["day"]).strftime("%Y%m%d"),
                       item.get("ver", "v1.1.2"))


@st.composite
def a_pass(draw):
    hemi = draw(st.sampled_from([1, -1]))
    whole = draw(st.booleans())
    start = draw(st.integers(0, 83000))
    sec = fl(0.0, 3000.0)
    secs = sorted(start + (math.floor(draw(sec)) if whole else round(
        draw(sec), 3)) for _ in range(4))
    return {"hemi": hemi, "secs": secs,
            "fom": round(draw(fl(-1.0, 6.0, special=[3, 0])), 3),
            "lat": [round(hemi * draw(fl(50.0, 89.9)), 3) for _ in range(4)],
            "lon": [round(draw(fl(0.0, 360.0)), 3) for _ in range(4)]}


@st.composite
def csv_file(draw, bad=True):
    return {"sat": draw(st.sampled_from(SATS)),
            "day": draw(st.integers(0, 1800)),
            "passes": draw(st.lists(a_pass(), min_size=1, max_size=4)),
            "notes": draw(st.integers(0, 4)),
            "order": draw(st.sampled_from(["", "", "mix"])),
            "bad": draw(st.sampled_from([""] * 9 + BAD)) if bad else ""}


@st.composite
def format_case(draw):
    items = draw(st.lists(csv_file(), min_size=1, max_size=4,
                          unique_by=lambda f: (f["sat"], f["day"])))
    return {"files": items, "folder": draw(st.sampled_from(
        ["data", "data", "my-files", "dmsp-f16_ssj"])),
        "form": draw(st.sampled_from(["list", "list", "array", "str"])),
        "alt": draw(st.sampled_from([None, None, 830.0, 300.0, 700])),
        "method": draw(st.sampled_from([None, None, None,
                                        "ALLOWTRACE", "GEOCENTRIC"])),
        "mix": draw(st.permutations(range(len(COLS))))}


def text_of(item, mix):
    """The content of a pass file."""
    cols = list(COLS)
    if item["order"] == "mix":
        cols = [COLS[i] for i in mix]
    lines = ["# note {:d}, for UTSec EQ1".format(i)
             for i in range(item["notes"])]
    if item["bad"] == "comments":
        return "".join(line + "\n" for line in lines)
    if item["bad"] == "blank":
        return ""
    lines.append(",".join(cols))
    if item["bad"] != "no rows":
        for row in item["passes"]:
            vals = {"UTSecond Pass Start": row["secs"][0],
                    "UTSecond Pass End": row["secs"][3],
                    "hemisphere": row["hemi"], "FOM": row["fom"]}
            for i, b in enumerate(["EQ1", "PO1", "PO2", "EQ2"]):
                vals["UTSec " + b] = row["secs"][i]
                vals["SC_GEOCENTRIC_LAT " + b] = row["lat"][i]
                vals["SC_GEOCENTRIC_LON " + b] = row["lon"][i]
                vals["mlat " + b] = -row["lat"][i]
                vals["mlt " + b] = 1.0 + i
            cells = ["{}".format(vals[c]) for c in cols]
            if item["bad"] == "columns":
                cells = cells[:-1]
            lines.append(",".join(cells))
    return "".join(line + "\n" for line in lines)


def expected(items, alt, method):
    """Records of each boundary and hemisphere, in order."""
    out = {(h, b): [] for h in [1, -1] for b in ["ocb", "eab"]}
    for item in items:
        for row in item["passes"]:
            for b, pair in [("ocb", (1, 2)), ("eab", (0, 3))]:
                time = day_of(item["day"]) + dt.timedelta(seconds=0.5 * (
                    row["secs"][pair[0]] + row["secs"][pair[1]]))
                xy = []
                for i in pair:
                    mlat, _, mlt = aacgmv2.get_aacgm_coord(
                        row["lat"][i], row["lon"][i], alt, time, method=method)
                    ang = math.radians(15.0 * (mlt - 6.0))
                    rad = 90.0 - abs(mlat)
                    xy += [rad * math.cos(ang), rad * math.sin(ang)]
                out[(row["hemi"], b)].append({
                    "sc": item["sat"], "time": time, "vals": [
                        0.5 * math.hypot(xy[0] - xy[2], xy[1] - xy[3]),
                        0.5 * (xy[0] + xy[2]), 0.5 * (xy[1] + xy[3]),
                        row["fom"]] + xy})
    return out


def judge_files(got, items, want, where, ctx):
    """Compare the boundary files with the expected records."""
    base = "dmsp-ssj_{:s}_{:s}_{:s}_{:s}.{:s}"
    files = {}
    for key in want:
        files[key] = os.path.join(where, base.format(
            "north" if key[0] == 1 else "south",
            day_of(items[0]["day"]).strftime("%Y%m%d"),
            day_of(items[-1]["day"]).strftime("%Y%m%d"), "v1.1.2", key[1]))
    require(isinstance(got, list) and sorted(str(f) for f in got)
            == sorted(files.values()), "boundary files {} instead of {}",
            got, sorted(files.values()))
    for key, name in files.items():
        require(os.path.isfile(name), "no file {}", name)
        with open(name) as fin:
            lines = fin.read().splitlines()
        require(lines and lines[0].split() == [
            "#sc", "date", "time", "r", "x", "y", "fom", "x_1", "y_1", "x_2",
            "y_2"], "header of {} is {}", name, lines[:1])
        require(len(lines) == 1 + len(want[key]), "{} lines for {} passes of "
                "{}", len(lines) - 1, len(want[key]), key)
        for line, rec in zip(lines[1:], want[key]):
            cells = line.split()
            require(len(cells) == 11, "line {!r}", line)
            time = dt.datetime.strptime(" ".join(cells[1:3]),
                                        "%Y-%m-%d %H:%M:%S")
            require(int(cells[0]) == rec["sc"] and -1.0 < (
                time - rec["time"]).total_seconds() < 1.0, "{} line {!r} for "
                "spacecraft {} at {}", key, line, rec["sc"], rec["time"])
            require(np.allclose([float(c) for c in cells[3:]], rec["vals"],
                                rtol=0.0, atol=6.0e-4, equal_nan=True), "{} line "
                    "{!r} instead of {}", key, line, rec["vals"])
        if np.all(np.isfinite([rec["vals"] for rec in want[key]])):
            load_check(name, key, want[key], ctx)


def load_check(name, key, recs, ctx):
    cls = ocbpy.OCBoundary if key[1] == "ocb" else ocbpy.EABoundary
    obj = cls(name, instrument="dmsp-ssj", hemisphere=key[0])
    require(obj.records == len(recs), "{} records loaded from {} lines of {}",
            obj.records, len(recs), key)
    if not recs:
        ctx.tag("no passes for a boundary file")
        return
    for i, rec in enumerate(recs):
        rad, x, y, fom = rec["vals"][:4]
        require(abs((obj.dtime[i] - rec["time"]).total_seconds()) < 1.0
                and abs(obj.r[i] - rad) < 6.0e-4
                and abs(obj.fom[i] - fom) < 6.0e-4, "loaded record {} {} {} "
                "{} of {}", i, obj.dtime[i], obj.r[i], obj.fom[i], rec)
        ang = math.radians(obj.phi_cent[i] - 90.0)
        require(abs(obj.r_cent[i] * math.cos(ang) - x) < 1.2e-3
                and abs(obj.r_cent[i] * math.sin(ang) - y) < 1.2e-3,
                "loaded centre {} {} of {}", obj.phi_cent[i], obj.r_cent[i],
                rec)
        require(np.allclose([obj.x_1[i], obj.y_1[i], obj.x_2[i], obj.y_2[i]],
                            rec["vals"][4:], rtol=0.0, atol=6.0e-4),
                "loaded crossings of {}", rec)


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


def format_check(case, ctx):
    where = os.path.join(fresh(ctx.path("ssj")), case["folder"])
    os.makedirs(where)
    paths = []
    items = case["files"]
    for item in items:
        path = os.path.join(where, name_of(item))
        paths.append(path)
        if item["bad"] == "folder":
            os.mkdir(path)
        elif item["bad"] != "missing":
            with open(path, "w") as fout:
                fout.write(text_of(item, case["mix"]))
    arg = {"list": list(paths), "array": np.array(paths),
           "str": paths[0] if len(paths) == 1 else list(paths)}[case["form"]]
    kw, alt, method = {}, 830.0, "GEOCENTRIC|ALLOWTRACE"
    if case["alt"] is not None:
        kw["ref_alt"] = alt = case["alt"]
    if case["method"] is not None:
        kw["method"] = method = case["method"]
    there = [it for it in items if it["bad"] not in ["missing", "folder"]]
    ctx.tag("file that cannot be used", any(it["bad"] for it in items))
    if not there:
        try:
            ssj.format_ssj_boundary_files(arg, **kw)
        except ValueError:
            return
        fail("no error without any input file")
    got = ssj.format_ssj_boundary_files(arg, **kw)
    good = [it for it in there if not it["bad"]]
    judge_files(got, there, expected(good, alt, method), where, ctx)
    for item, path in zip(items, paths):
        if item["bad"] not in ["missing", "folder"]:
            with open(path) as fin:
                require(fin.read() == text_of(item, case["mix"]),
                        "input file {} altered", path)
    ctx.nontrivial(sum(len(it["passes"]) for it in good) > 1)
    ctx.tag("single pass file", any(len(it["passes"]) == 1 for it in good))
    ctx.tag("several files", len(good) > 1)
    ctx.tag("other settings", len(kw) > 0)


# ------------------------------------------------------------------ selection
limit = st.one_of(st.none(), st.tuples(
    st.integers(-3, 13), st.sampled_from([0, 0, 0, 1, 43200])).map(list))
member = st.fixed_dictionaries({
    "sat": st.sampled_from(SATS), "day": st.integers(0, 10),
    "ver": st.sampled_from(["v1.1.2", "v1.1.2", "v1.0.0"])})


def time_of(lim):
    if lim is None:
        return None
    return day_of(lim[0]) + dt.timedelta(seconds=lim[1])


def chosen(items, case):
    low, high = time_of(case["lim"][0]), time_of(case["lim"][1])
    sats = SATS if case["sats"] is None else case["sats"]
    return [it for it in items if it["sat"] in sats
            and (low is None or day_of(it["day"]) >= low)
            and (high is None or day_of(it["day"]) < high)]


pick_case = st.fixed_dictionaries({
    "items": st.lists(member, min_size=1, max_size=8),
    "lim": st.tuples(limit, limit).map(list),
    "sats": st.lists(st.sampled_from(SATS), max_size=3, unique=True)})


def pick_check(case, ctx):
    low, high = time_of(case["lim"][0]), time_of(case["lim"][1])
    want = chosen(case["items"], case)
    for item in case["items"]:
        got = ssj.evaluate_dmsp_boundary_file(name_of(item), low, high,
                                              case["sats"])
        require(bool(got) == (item in want), "file {} for {} to {} and {}: {}",
                name_of(item), low, high, case["sats"], got)
    ctx.nontrivial(0 < len(want) < len(case["items"]))
    ctx.tag("open time range", None in case["lim"])


# ------------------------------------------------------------------- fetching
ZIP = "dmsp_ssj_auroral_boundary_identification_2010-2014_v1.0.0.zip"
FAULTS = ["checksum", "download", "doi", "record", "timeout", "no files",
          "no archive", "lost archive"]


@st.composite
def fetch_case(draw):
    whole = draw(st.booleans())
    items = draw(st.lists(member, min_size=1, max_size=7, unique_by=lambda f: (
        f["sat"], f["day"], f["ver"])))
    sats = draw(st.sampled_from([None, None, "list", "list", "bad", "scalar"]))
    if sats == "list":
        sats = draw(st.lists(st.sampled_from(SATS), max_size=3, unique=True))
    elif sats == "bad":
        sats = draw(st.permutations([16, draw(st.sampled_from([15, 19, -47]))]))
    elif sats == "scalar":
        sats = 17
    lim = draw(st.tuples(limit, limit).map(list))
    if draw(st.integers(0, 4)) == 0:
        lim = [None, None]
    return {"items": items, "sats": sats, "lim": lim,
            "dir": draw(st.sampled_from(["scratch"] * 6 + [
                "default", "default", "missing"])),
            "rm": draw(st.sampled_from([None, True, False])),
            "fault": draw(st.sampled_from([""] * 2 * len(FAULTS) + FAULTS)),
            "doi": draw(st.sampled_from([None, None, "10.1/other"])),
            "there": draw(st.booleans()), "old": draw(st.booleans()),
            "format": whole, "passes": [draw(a_pass()) for _ in range(2)]}


class Reply:
    def __init__(self, url, good, data=None):
        self.url, self.ok, self.data = url, good, data

    def json(self):
        return self.data


def member_text(case, i):
    item = case["items"][i]
    return text_of({"passes": case["passes"][:1 + i % 2], "bad": "",
                    "notes": 2, "order": "", "sat": item["sat"]}, [])


def archive_bytes(case):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as zref:
        for i, item in enumerate(case["items"]):
            zref.writestr(name_of(item), member_text(case, i))
    return out.getvalue()


class Network:
    """Local stand-in for the network access of the downloader."""

    def __init__(self, case, data):
        self.case, self.data = case, data
        self.dois, self.loads = [], 0

    def get(self, url, **kwargs):
        fault = self.case["fault"]
        if fault == "timeout":
            raise requests.exceptions.ConnectTimeout("no network")
        if "doi.org" in url:
            self.dois.append(url.split("doi.org/")[-1])
            return Reply("https://zenodo.org/records/3373812", fault != "doi")
        files = [{"key": ZIP, "size": len(self.data), "checksum":
                  "md5:" + hashlib.md5(self.data).hexdigest()}]
        if fault == "no archive":
            files[0]["key"] = "README.md"
        elif fault == "no files":
            files = []
        return Reply(url, fault != "record", {"files": files, "metadata": {
            "title": "Boundaries", "publication_date": "2019-08-20",
            "doi": "10.5281/zenodo.3373812"}})

    def load(self, url, *args, **kwargs):
        self.loads += 1
        if self.case["fault"] == "download":
            raise OSError("connection reset")
        name = url.split("?")[0].split("/")[-1]
        print("100% [....]")
        with open(name, "wb") as fout:
            fout.write(self.data[:-1] if self.case["fault"] == "checksum"
                       else self.data)
        return name


def lost_archive(args):
    """Downloader that reports success, without the archive."""
    with open(os.path.join(args[args.index("-o") + 1], "md5sums.txt"),
              "w") as fout:
        fout.write("0  {:s}\n".format(ZIP))
    print("Link: https://zenodo.org/records/1/files/{:s} size: 1 MB\n"
          "Checksum is correct. (0)".format(ZIP), file=sys.stderr)


def fetch_check(case, ctx):
    root = fresh(ctx.path("fetch"))
    where = os.path.join(root, "ocbpy", "boundaries")
    os.makedirs(where)
    data = archive_bytes(case)
    before = set()
    if case["there"] and case["fault"] != "no archive":
        with open(os.path.join(where, ZIP), "wb") as fout:
            fout.write(data if case["fault"] == "" else data[:-2])
        before.add(ZIP)
    if case["old"]:
        with open(os.path.join(where, "image_north_circle.ocb"), "w") as fout:
            fout.write("text\n")
        before.add("image_north_circle.ocb")
    kw = {"stime": time_of(case["lim"][0]), "etime": time_of(case["lim"][1])}
    if case["dir"] != "default":
        kw["out_dir"] = where if case["dir"] == "scratch" else os.path.join(
            root, "nowhere")
    if case["rm"] is not None:
        kw["rm_temp"] = case["rm"]
    sats = case["sats"]
    if case["format"]:
        sats, func = None, ssj.fetch_format_ssj_boundary_files
    else:
        func = ssj.fetch_ssj_boundary_files
        kw["sat_nums"] = sats
        if case["doi"] is not None:
            kw["doi"] = case["doi"]
    pick = chosen(case["items"], dict(case, sats=None if sats == 17 else sats))

    net = Network(case, data)
    streams, cwd = (sys.stdout, sys.stderr), os.getcwd()
    moved = gen.moved_package(where)
    got, err = None, None
    patches = [mock.patch.object(zenodo_get.zget.requests, "get", net.get),
               mock.patch.object(zenodo_get.zget.wget, "download", net.load),
               mock.patch.object(zenodo_get.zget.time, "sleep")]
    if case["fault"] == "lost archive":
        for mod in [zenodo_get, ssj]:
            if callable(getattr(mod, "zenodo_get", None)):
                patches.append(mock.patch.object(mod, "zenodo_get",
                                                 lost_archive))
    moved.__enter__()
    try:
        for item in patches:
            item.start()
        got = func(**kw)
    except (Exception, SystemExit) as exc:
        err = exc
    finally:
        for item in reversed(patches):
            item.stop()
        moved.__exit__()
        after, sys.stdout, sys.stderr = (
            sys.stdout, sys.stderr), streams[0], streams[1]
        os.chdir(cwd)
    require(after[0] is streams[0] and after[1] is streams[1],
            "output streams not restored")
    require(os.path.isdir(where), "directory removed")
    now = set(os.listdir(where))

    # Refused or impossible requests
    wrong = None
    if sats == 17:
        wrong = TypeError
    elif sats is not None and any(s not in SATS for s in sats):
        wrong = ValueError
    elif case["dir"] == "missing":
        wrong = ValueError
    if wrong is not None:
        require(isinstance(err, wrong), "{!r} instead of {} for {}", err,
                wrong.__name__, kw)
        require(now == before and not net.dois and not net.loads
                and os.listdir(root) == ["ocbpy"], "files {} after refusal",
                now)
        ctx.tag("refused")
        return
    fault = case["fault"]
    if fault and not (fault == "lost archive" and case["there"]):
        need = {"checksum": IOError, "doi": ValueError, "no files": IOError,
                "timeout": IOError, "no archive": IOError,
                "lost archive": IOError}.get(fault, Exception)
        require(isinstance(err, need), "{!r} instead of {} for download "
                "problem {}", err, need.__name__, fault)
        require(not any(n.endswith((".csv", ".ocb.tmp", ".eab")) for n in now)
                and before - now <= {ZIP}, "files {} after download problem "
                "{}", now, fault)
        ctx.tag("download problem: " + fault)
        ctx.nontrivial()
        return
    if fault:  # A damaged archive with a correct checksum
        require(err is not None, "damaged archive accepted")
        return

    if net.dois:
        require(net.dois == [case["doi"] if case["doi"] is not None and not
                             case["format"] else "10.5281/zenodo.3373811"],
                "archives {} requested", net.dois)
    keep = case["rm"] is False
    csv = {name_of(it) for it in pick}
    if case["format"] and not pick:
        require(isinstance(err, ValueError), "{!r} instead of ValueError "
                "without files", err)
        require(now - {ZIP} == before - {ZIP} and (ZIP in now) == keep,
                "files {} without a match", now)
        return
    if err is not None:
        raise err
    ctx.tag("archive was there", case["there"])
    ctx.tag("all files", len(pick) == len(case["items"]))
    ctx.nontrivial(len(pick) > 0)
    if case["format"]:
        # The names are taken from the first and last file of the archive
        items = [dict(it, passes=case["passes"][:1 + case["items"].index(
            it) % 2]) for it in pick]
        if all(it["ver"] == "v1.1.2" for it in items):
            judge_files(got, items, expected(
                items, 830.0, "GEOCENTRIC|ALLOWTRACE"), where, ctx)
        made = {os.path.basename(f) for f in got}
        require(len(made) == 4 and now == (before - {ZIP}) | made | (
            csv | {ZIP} if keep else set()), "files {} with {} fetched",
            now, csv)
        return
    require(sorted(got) == sorted(os.path.join(where, n) for n in csv),
            "files {} instead of {}", got, csv)
    require(now == (before - {ZIP}) | csv | ({ZIP} if keep else set()),
            "files {} with {} fetched, clean-up {}", now, csv, case["rm"])
    for i, item in enumerate(case["items"]):
        if item in pick:
            with open(os.path.join(where, name_of(item))) as fin:
                require(fin.read() == member_text(case, i), "content of {}",
                        name_of(item))


TARGETS = [
    Target("format", format_case(), format_check, 700,
           rule="at least two passes to format"),
    Target("select", pick_case, pick_check, 2000,
           rule="some files are selected and some are not"),
    Target("fetch", fetch_case(), fetch_check, 1200,
           rule="files were fetched or the download failed"),
]
