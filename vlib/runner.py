"""Property runner: drives Hypothesis, shrinks, writes replay and evidence.

A check module defines PROPERTY, ASSUMPTIONS and SUBS, a list of Sub objects.
Every sub-check is a strategy that produces a JSON-able case and a function
fn(case, rec) that raises Violation (or lets the code under test raise) when
the case breaks the property.
"""
from . import env  # noqa: F401  (must be first)

import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import signal
import sys
import tempfile
import time
import traceback

from hypothesis import HealthCheck, Phase, given, seed, settings
from hypothesis.errors import UnsatisfiedAssumption  # noqa: F401

CASE_TIMEOUT = 150.
SHRINK_BUDGET = 40.
UNUSABLE = (LookupError, TypeError, ValueError, ArithmeticError)
WORKERS = min(8, os.cpu_count() or 1)


class Violation(AssertionError):
    """The code under test broke the property."""


class Skip(Exception):
    """The generated case is outside of the stated domain."""


class Stop(BaseException):
    pass


class CaseTimeout(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough, rule, shards=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


class Rec:
    """What the check function says about one case."""

    def __init__(self):
        self.nontrivial = False
        self.tags = {}

    def nt(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    def tag(self, name, cond=True):
        if cond:
            self.tags[name] = self.tags.get(name, 0) + 1


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def canon(case):
    return json.dumps(case, sort_keys=True, default=_default)


def _alarm(*_):
    raise CaseTimeout()


def in_repo(tb):
    root = os.path.realpath(env.REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def run_case(sub, case):
    """Returns (status, message, rec): status in ok/skip/violation/hang."""
    rec = Rec()
    # processor time, so that a busy machine makes no difference
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_TIMEOUT)
    signal.setitimer(signal.ITIMER_REAL, 4 * CASE_TIMEOUT)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            sub.fn(json.loads(canon(case)), rec)
        return "ok", "", rec
    except Skip:
        return "skip", "", rec
    except Violation as e:
        return "violation", str(e), rec
    except CaseTimeout:
        return "hang", "no result within %g s" % CASE_TIMEOUT, rec
    except Exception as e:
        if in_repo(e.__traceback__):
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return ("violation", "raised %s: %s (%s:%s in %s)" %
                    (type(e).__name__, e, os.path.basename(tail.filename),
                     tail.lineno, tail.name), rec)
        if isinstance(e, UNUSABLE):
            # what the code under test returned is not of the expected form
            tail = traceback.extract_tb(e.__traceback__)[-1]
            return ("violation", "unusable result: %s: %s (%s:%s)" %
                    (type(e).__name__, e, os.path.basename(tail.filename),
                     tail.lineno), rec)
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_item(sub, n_examples, seed_value, deadline):
    out = {"sub": sub.name, "evals": 0, "skipped": 0, "late": 0, "nontrivial": set(),
           "distinct": set(), "samples": [], "tags": {}, "failure": None, "error": None}
    t0 = time.time()
    state = {"best": None, "first_fail": None}

    @seed(seed_value)
    @settings(max_examples=n_examples, deadline=None, database=None,
              suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink),
              report_multiple_bugs=False, print_blob=False)
    @given(sub.strategy)
    def prop(case):
        now = time.time()
        if state["first_fail"] is None:
            if now > deadline:
                out["late"] += 1
                return
        elif now - state["first_fail"] > SHRINK_BUDGET:
            raise Stop()
        status, msg, rec = run_case(sub, case)
        if status == "skip":
            out["skipped"] += 1
            return
        out["evals"] += 1
        key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
        out["distinct"].add(key)
        for t, v in rec.tags.items():
            out["tags"][t] = out["tags"].get(t, 0) + v
        if rec.nontrivial:
            if key not in out["nontrivial"] and len(out["samples"]) < 3 and \
                    len(out["nontrivial"]) % 7 == 3:
                out["samples"].append(json.loads(canon(case)))
            out["nontrivial"].add(key)
        if status in ("violation", "hang"):
            size = len(canon(case))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, json.loads(canon(case)), msg)
            if state["first_fail"] is None:
                state["first_fail"] = now
            if status == "hang":
                raise Stop()
            raise Violation(msg)

    try:
        prop()
    except Stop:
        pass
    except BaseException as e:  # noqa
        if state["best"] is None:
            out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    if state["best"] is not None:
        out["failure"] = {"sub": sub.name, "case": state["best"][1], "message": state["best"][2]}
    out["wall"] = time.time() - t0
    return out


_MODULE = None


def _worker(args):
    idx, n, sd, deadline = args
    return run_item(_MODULE.SUBS[idx], n, sd, deadline)


def plan(module, tier, seed_value):
    items = []
    for i, sub in enumerate(module.SUBS):
        total = sub.quick if tier == "quick" else sub.thorough
        shards = sub.shards or (4 if tier == "quick" else 16)
        shards = max(1, min(shards, total))
        per = -(-total // shards)
        for s in range(shards):
            items.append((i, per, (seed_value * 1000003 + i * 1009 + s) % (2 ** 31)))
    return items


def main(module, argv=None):
    import argparse
    global _MODULE
    _MODULE = module
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="run one sub-check")
    ap.add_argument("--scale", type=float, default=1.)
    a = ap.parse_args(argv)
    pid = module.PROPERTY
    tier = "thorough" if a.tier == "thorough" else "quick"
    if a.replay:
        data = json.load(open(a.replay))
        sub = [s for s in module.SUBS if s.name == data["sub"]][0]
        status, msg, _ = run_case(sub, data["case"])
        print("replay %s/%s: %s %s" % (pid, sub.name, status, msg))
        if status in ("violation", "hang"):
            print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(a.replay)))
            return 1
        return 0
    try:
        sd = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        sd = 1
    t0 = time.time()
    if a.only:
        module.SUBS = [s for s in module.SUBS if s.name == a.only]
    for s in module.SUBS:
        s.quick = max(1, int(s.quick * a.scale))
        s.thorough = max(1, int(s.thorough * a.scale))
    deadline = t0 + (300. if tier == "quick" else 3 * 3600.)
    work = [it + (deadline,) for it in plan(module, tier, sd)]
    # anything deterministic the module wants to validate about its own oracle
    if hasattr(module, "selftest"):
        module.selftest()
    ctx = multiprocessing.get_context("fork")
    results = []
    with tempfile.TemporaryDirectory(prefix="verif-run-", ignore_cleanup_errors=True) as scratch:
        # every file a case writes is below this directory, also those of workers that are stopped early
        tempfile.tempdir = scratch
        with ctx.Pool(WORKERS) as pool:
            for r in pool.imap_unordered(_worker, work, chunksize=1):
                results.append(r)
                if r["error"] or r["failure"]:
                    break
            pool.terminate()
            pool.join()
        tempfile.tempdir = None
    return finish(module, pid, tier, sd, results, t0)


def finish(module, pid, tier, sd, results, t0):
    errors = [r for r in results if r["error"]]
    fails = [r["failure"] for r in results if r["failure"]]
    per = {}
    nontrivial, distinct, evals, skipped, late = set(), set(), 0, 0, 0
    samples = []
    for sub in module.SUBS:
        rs = [r for r in results if r["sub"] == sub.name]
        nt = set().union(*[r["nontrivial"] for r in rs]) if rs else set()
        ds = set().union(*[r["distinct"] for r in rs]) if rs else set()
        tags = {}
        for r in rs:
            for k, v in r["tags"].items():
                tags[k] = tags.get(k, 0) + v
        per[sub.name] = {"evaluations": sum(r["evals"] for r in rs),
                         "distinct": len(ds), "distinct_nontrivial": len(nt),
                         "outside_domain": sum(r["skipped"] for r in rs),
                         "not_run_for_time": sum(r["late"] for r in rs),
                         "rule": sub.rule, "seen": tags,
                         "cpu_s": round(sum(r.get("wall", 0) for r in rs), 1)}
        evals += per[sub.name]["evaluations"]
        skipped += per[sub.name]["outside_domain"]
        late += per[sub.name]["not_run_for_time"]
        nontrivial |= {(sub.name, k) for k in nt}
        for r in rs[:2]:
            for s in r["samples"][:2]:
                samples.append({"sub": sub.name, "case": s})
    violations = []
    seen = set()
    rdir = os.path.join(env.VERIF, "replays")
    for f in sorted(fails, key=lambda f: len(canon(f["case"]))):
        if f["sub"] in seen:
            continue
        seen.add(f["sub"])
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%s.json" % (
            pid, f["sub"], hashlib.sha1(canon(f["case"]).encode()).hexdigest()[:8]))
        with open(path, "w") as fh:
            json.dump({"property": pid, "sub": f["sub"], "message": f["message"],
                       "case": f["case"]}, fh, indent=1, default=_default)
        violations.append({"sub": f["sub"], "message": f["message"][:500], "replay": path})
    samples = samples[:8]
    ev = {"property": pid, "tier": tier, "seed": sd, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontrivial),
                       "rule": " | ".join("%s: %s" % (s.name, s.rule) for s in module.SUBS),
                       "samples": [canon(s)[:1500] for s in samples],
                       "per_subcheck": per},
          "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    if violations:
        ev["violation_details"] = violations
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=_default)
    for name, p in per.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d outside domain, %d late, %.1fs cpu" % (
            pid, name, p["evaluations"], p["distinct_nontrivial"], p["outside_domain"],
            p["not_run_for_time"], p["cpu_s"]))
    if violations:
        for v in violations:
            print("  %s: %s" % (v["sub"], v["message"][:400]))
            print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        return 1
    if errors:
        sys.stderr.write("harness error in %s/%s\n%s\n" % (pid, errors[0]["sub"], errors[0]["error"]))
        return 2
    starved = [n for n, p in per.items() if p["evaluations"] == 0]
    if starved:
        sys.stderr.write("harness error: no case evaluated in %s\n" % starved)
        return 2
    print("%s held on %d cases (%d distinct non-trivial) in %.1f s" % (
        pid, evals, len(nontrivial), time.time() - t0))
    return 0
