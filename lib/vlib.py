"""Driver: runs a property's targets with Hypothesis over several processes."""
import datetime as dt
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_SCALE = 2       # quick cases, relative to the counts of the targets
CASE_CPU_S = 20.0    # CPU seconds one (millisecond) case may take: termination
SHRINK_S = 40.0      # wall seconds spent shrinking one failure


class Violation(AssertionError):
    """The property does not hold for a case."""


class Hang(BaseException):
    """Raised by the watchdog inside a case."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


def require(cond, msg, *args):
    if not cond:
        fail(msg, *args)


class Target:
    """One generated check: a strategy for JSON-able cases and a check function."""

    def __init__(self, name, strategy, func, quick, thorough=None, rule="",
                 examples=()):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.examples = list(examples)


class Ctx:
    """Passed to every check function, to classify the case."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.tags = []
        self.trivial = True
        self.knowns = []

    def nontrivial(self, flag=True):
        if flag:
            self.trivial = False

    def tag(self, label, flag=True):
        if flag:
            self.tags.append(str(label))

    def known(self, key, detail=""):
        """The case shows the listed known finding `key` (and nothing else)."""
        self.knowns.append((key, detail))

    def path(self, name):
        return os.path.join(self.scratch, name)


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


class Rec:
    def __init__(self):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.tags = {}
        self.knowns = {}
        self.fails = []
        self.first_fail_t = None


def _alarm(signum, frame):
    raise Hang()


def fresh_aacgm():
    """Let AACGMV2 forget the date of the coefficients it used last.

    AACGMV2 keeps the sub-solar longitude of a time, calculated with the
    coefficients of any date up to 30 days away that it had loaded before.

    """
    import aacgmv2
    aacgmv2.convert_mlt([0.0], dt.datetime(1980, 1, 1))


def run_case(target, case, ctx):
    """Run one case under the watchdog; exceptions of the code are violations."""
    if "aacgmv2" in getattr(target.func, "__globals__", {}):
        fresh_aacgm()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        target.func(json.loads(json.dumps(case)), ctx)
    except Hang:
        raise Violation("no answer within {:g} CPU seconds".format(CASE_CPU_S))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0.0)


def _seed(base, name, shard):
    text = "{}:{}:{}".format(base, name, shard).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:8], "big")


def fresh_cases():
    """Let Hypothesis follow only some cases by up to five variations of them.

    By default five of six cases repeat parts of the case before; with the
    few hundred cases of a shard, that leaves rare classes out altogether.
    """
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    orig = getattr(ConjectureRunner, "generate_mutations_from", None)
    if orig is None or getattr(orig, "rare", False):
        return

    def vary(self, data):
        if self.random.random() < 0.08:
            orig(self, data)

    vary.rare = True
    ConjectureRunner.generate_mutations_from = vary


def run_shard(target, count, seed, shard, scratch):
    import hypothesis
    fresh_cases()
    from hypothesis import HealthCheck, Phase, settings
    rec = Rec()
    os.makedirs(scratch, exist_ok=True)

    def record(case):
        ctx = Ctx(scratch)
        rec.evals += 1
        try:
            run_case(target, case, ctx)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception as exc:
            text = "{}: {}".format(type(exc).__name__, exc)
            if not isinstance(exc, Violation):
                text += "\n" + "".join(traceback.format_exc())
            rec.fails.append((len(canon(case)), case, text))
            raise
        for key, detail in ctx.knowns:
            rec.knowns.setdefault(key, detail)
        for tag in ctx.tags:
            rec.tags[tag] = rec.tags.get(tag, 0) + 1
        if not ctx.trivial:
            dig = hashlib.sha1(canon(case).encode()).digest()[:10]
            if dig not in rec.distinct:
                rec.distinct.add(dig)
                if len(rec.samples) < 2:
                    rec.samples.append(case)

    if shard == 0:
        for case in target.examples:
            try:
                record(case)
            except Exception:
                break

    if not rec.fails and count > 0:
        @hypothesis.seed(_seed(seed, target.name, shard))
        @settings(max_examples=count, database=None, deadline=None,
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))
        @hypothesis.given(target.strategy)
        def body(case):
            if rec.first_fail_t is not None and (
                    time.monotonic() - rec.first_fail_t > SHRINK_S):
                return
            try:
                record(case)
            except hypothesis.errors.HypothesisException:
                raise
            except Exception:
                if rec.first_fail_t is None:
                    rec.first_fail_t = time.monotonic()
                raise

        try:
            body()
        except Exception:
            if not rec.fails:
                raise

    out = {"target": target.name, "shard": shard, "evals": rec.evals,
           "distinct": rec.distinct, "samples": rec.samples,
           "tags": rec.tags, "knowns": rec.knowns, "fail": None}
    if rec.fails:
        # Prefer the smallest case that fails on its own
        tried = 0
        for _, case, text in sorted(rec.fails, key=lambda x: x[0]):
            tried += 1
            try:
                run_case(target, case, Ctx(scratch))
            except Exception:
                out["fail"] = {"case": case, "message": text, "mode": "case"}
                break
            if tried > 20:
                break
        if out["fail"] is None:
            _, case, text = rec.fails[0]
            out["fail"] = {"case": case, "message": text, "mode": "shard",
                           "shard": shard, "count": count, "seed": seed}
    return out


def _worker(job):
    modname, tname, count, seed, shard, scratch = job
    devnull = open(os.devnull, "w")
    sys.stdout, sys.stderr = devnull, devnull
    try:
        target = {t.name: t for t in importlib.import_module(modname).TARGETS}[tname]
        return run_shard(target, count, seed, shard, scratch)
    except BaseException:
        return {"target": tname, "shard": shard,
                "error": traceback.format_exc()}


def known_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.isfile(path):
        with open(path) as fh:
            for line in fh:
                if line.startswith("known: property={} ".format(pid)):
                    rest = line.split(" ", 2)[2].strip()
                    key = rest.split()[0].split("=", 1)[1]
                    keys[key] = rest
    return keys


def quiet_ocbpy():
    import logging
    import warnings
    import ocbpy
    ocbpy.logger.handlers = [logging.NullHandler()]
    ocbpy.logger.propagate = False
    ocbpy.logger.setLevel(logging.CRITICAL + 10)
    warnings.simplefilter("ignore")
    repo = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
    if not os.path.realpath(ocbpy.__file__).startswith(repo + os.sep):
        raise RuntimeError("ocbpy was imported from " + ocbpy.__file__)


def main(pid, tier, seed, scratch, replay=None, only=None):
    t_start = time.time()
    modname = "checks." + pid.lower()
    mod = importlib.import_module(modname)
    quiet_ocbpy()
    if hasattr(mod, "setup"):
        mod.setup(scratch)

    if replay is not None:
        with open(replay) as fh:
            data = json.load(fh)
        target = {t.name: t for t in mod.TARGETS}[data["target"]]
        if data.get("mode") == "shard":
            out = run_shard(target, data["count"], data["seed"],
                            data["shard"], scratch)
            if out["fail"] is None:
                print("replay: the property held")
                return 0
            text = out["fail"]["message"]
        else:
            try:
                run_case(target, data["case"], Ctx(scratch))
                print("replay: the property held")
                return 0
            except Exception as exc:
                text = "{}: {}".format(type(exc).__name__, exc)
        print(text)
        print("VIOLATION property={} replay={}".format(pid, replay))
        return 1

    ncpu = max(1, min(8, os.cpu_count() or 1))
    jobs = []
    for target in mod.TARGETS:
        if only is not None and target.name not in only:
            continue
        total = target.quick * QUICK_SCALE if tier == "quick" else target.thorough
        nshard = max(1, min(8, total // 20))
        for shard in range(nshard):
            count = total // nshard + (1 if shard < total % nshard else 0)
            jobs.append((modname, target.name, count, seed, shard,
                         os.path.join(scratch, "w-{}-{}".format(target.name, shard))))
    # Long targets first, deterministic result order
    results = []
    with mp.get_context("fork").Pool(ncpu, maxtasksperchild=None) as pool:
        for res in pool.imap(_worker, jobs, chunksize=1):
            results.append(res)

    errors = [r for r in results if "error" in r]
    if errors:
        for err in errors[:3]:
            print("HARNESS ERROR in {} shard {}\n{}".format(
                err["target"], err["shard"], err["error"]))
        if not any(r.get("fail") for r in results if "error" not in r):
            return 2
        results = [r for r in results if "error" not in r]

    evals = sum(r["evals"] for r in results)
    per_target = {}
    for res in results:
        info = per_target.setdefault(res["target"], {
            "evaluations": 0, "distinct": set(), "classes": {}, "samples": []})
        info["evaluations"] += res["evals"]
        info["distinct"] |= res["distinct"]
        if len(info["samples"]) < 2:
            info["samples"] += res["samples"][:2 - len(info["samples"])]
        for tag, num in res["tags"].items():
            info["classes"][tag] = info["classes"].get(tag, 0) + num
    samples = [{"target": name, "case": case} for name, info in
               per_target.items() for case in info["samples"][:1]][:10]
    distinct = sum(len(info["distinct"]) for info in per_target.values())

    # Violations
    violations = []
    for res in results:
        if res["fail"] is not None:
            violations.append((res["target"], res["fail"]))
    listed = known_findings(pid)
    knowns = {}
    for res in results:
        for key, detail in res["knowns"].items():
            knowns.setdefault(key, (res["target"], detail))
    for key, (tname, detail) in sorted(knowns.items()):
        if key in listed:
            print("KNOWN-FINDING: property={} {}".format(pid, listed[key]))
        else:
            violations.append((tname, {"case": None, "mode": "known",
                                       "message": "unlisted finding {}: {}".format(
                                           key, detail)}))

    targets_meta = {t.name: t for t in mod.TARGETS}
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct,
            "rule": "Hypothesis-generated cases, one seed per shard derived "
                    "from VERIF_SEED; non-trivial per target: " + "; ".join(
                        "{}: {}".format(n, targets_meta[n].rule)
                        for n in per_target),
            "samples": samples,
            "targets": {n: {"evaluations": i["evaluations"],
                            "distinct_nontrivial": len(i["distinct"]),
                            "classes": dict(sorted(i["classes"].items()))}
                        for n, i in per_target.items()},
            "known_findings_seen": sorted(knowns)},
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(violations)}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write("\n")

    seen = set()
    for tname, info in violations:
        if tname in seen:
            continue
        seen.add(tname)
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "{}-{}.json".format(pid, tname))
        with open(rpath, "w") as fh:
            json.dump(dict(info, property=pid, target=tname), fh, indent=1,
                      default=str)
            fh.write("\n")
        print("--- {}\n{}".format(tname, info["message"][:3000]))
        print("case: {}".format(canon(info["case"])[:2000]))
        print("VIOLATION property={} replay={}".format(pid, rpath))
    print("{} {} seed={} evaluations={} distinct_nontrivial={} wall={:.1f}s "
          "violations={}".format(pid, tier, seed, evals, distinct,
                                 time.time() - t_start, len(violations)))
    return 1 if violations else 0
