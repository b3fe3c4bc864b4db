"""The exhaustive explorer.

A property module defines one or more Sweeps.  A Sweep is a deterministic
generator of cases (small JSON-able tuples) plus a function that judges one
case on the real code.  The explorer enumerates *every* case of the sweep,
split over forked worker processes (case i goes to worker i mod N); there is
no sampling and VERIF_SEED does not influence anything.

A sweep may also be a breadth-first search over states (class Search): a state
is the event history that reaches it, deduplicated by a canonical form of what
the implementation observably holds.
"""
import hashlib
import json
import os
import pickle
import resource
import signal
import sys
import time
import traceback

from . import drv, env

LIB = os.path.dirname(os.__file__)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", VERIF)     # for evidence and replays
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
MEM = 3 << 30
CASE_CPU = 20.0
CASE_WALL = 120.0
MAX_VIOLATIONS = int(os.environ.get("VERIF_MAXV", "5"))


class Violation(Exception):
    """Raised (or returned) by a judge."""

    def __init__(self, what, **info):
        super().__init__(what)
        self.what, self.info = what, info


class Sweep:
    def __init__(self, name, cases, judge, bound):
        self.name, self.cases, self.judge = name, cases, judge
        self.bound = bound


class Result:
    def __init__(self):
        self.n = self.skipped = self.impl = self.steps = 0
        self.violations = []      # (sweep, index, case, what)
        self.outcomes = set()
        self.samples = []
        self.error = None
        self.extra = {}

    def merge(self, o):
        self.n += o.n
        self.skipped += o.skipped
        self.impl += o.impl
        self.steps += o.steps
        self.violations += o.violations
        self.outcomes |= o.outcomes
        self.samples = (self.samples + o.samples)[:6]
        self.error = self.error or o.error
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v


def _alarm(*_):
    raise drv.Timeout()


class guard:
    """Limits one case; nothing under test can hang or eat the machine."""

    def __enter__(self):
        drv.GUARD[0] = CASE_CPU
        signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
        signal.setitimer(signal.ITIMER_REAL, CASE_WALL)

    def __exit__(self, *exc):
        drv.GUARD[0] = 0.0
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)


def judge_one(sweep, case, res=None):
    """Returns None, 'skip' or a description of the violation."""
    drv.IMPL[0] = 0
    drv.IN_REF[0] = False
    try:
        with guard():
            what = sweep.judge(case)
    except drv.Skip:
        return "skip"
    except Violation as v:
        what = v.what
    except drv.Timeout:
        if drv.IN_REF[0]:
            return "skip"
        what = "the implementation does not terminate (time limit)"
    except Exception as e:
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        where = tb.tb_frame.f_code.co_filename
        if isinstance(e, MemoryError):
            what = "the implementation exhausts memory"
        elif os.path.abspath(where).startswith(
                (env.REPO.rstrip("/") + "/", "<frozen", "/usr/lib", LIB)):
            what = f"the implementation raises {type(e).__name__}: {e}"
        else:
            raise
    return what


def work(sweep, k, n, deadline, res):
    seen = set()
    i = -1
    for case in sweep.cases():
        h = hash(case)
        if h in seen:
            continue          # only distinct cases count
        seen.add(h)
        i += 1
        if i % n != k:
            continue
        if time.time() > deadline:
            res.error = f"deadline reached in sweep {sweep.name} at case {i}"
            return
        res.n += 1
        s0 = drv.STEPS[0]
        drv.KINDS.clear()
        what = judge_one(sweep, case)
        res.impl += drv.IMPL[0]
        res.steps += drv.STEPS[0] - s0
        for kind, count in drv.KINDS.items():
            res.extra[kind] = res.extra.get(kind, 0) + count
        if what == "skip":
            res.skipped += 1
            continue
        if len(res.outcomes) < 5000:
            res.outcomes.add(drv.LAST[0])
        if i < 2 * n and len(res.samples) < 1:
            res.samples.append(f"{sweep.name}: {case!r}"[:200])
        if what:
            res.violations.append((sweep.name, i, case, what))
            if len(res.violations) >= MAX_VIOLATIONS:
                return


def forked(fn, jobs):
    """Run fn(job) for every job, each in its own forked process."""
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                limits()
                out = fn(j)
            except BaseException:
                out = traceback.format_exc()
                code = 3
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            except BaseException:
                code = 4
            os._exit(code)
        os.close(w)
        pids.append((pid, r))
    outs = []
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        if data:
            o = pickle.loads(data)
        else:
            o = f"worker died with status {st}"
        outs.append(o)
    return outs


def run_sweep(sweep, deadline, workers=None):
    n = workers or WORKERS

    def job(k):
        res = Result()
        work(sweep, k, n, deadline, res)
        return res
    total = Result()
    for o in forked(job, range(n)):
        if isinstance(o, str):
            total.error = total.error or o
        else:
            total.merge(o)
    return total


def jsonable(x):
    if isinstance(x, (tuple, list)):
        return [jsonable(i) for i in x]
    return x


def tuplify(x):
    if isinstance(x, list):
        return tuple(tuplify(i) for i in x)
    return x


def recheck(sweep, case):
    """Re-judge a case in a fresh process."""
    out = forked(lambda _: judge_one(sweep, case), [0])[0]
    return out


def load_known(prop):
    """Known findings: lines `KNOWN property=<id> case=<json> what=<text>`."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith(f"known: property={prop} "):
                rest = line.split("case=", 1)[1]
                case, end = json.JSONDecoder().raw_decode(rest)
                known.append((tuplify(case), rest[end:].strip()))
    return known


def write_replay(prop, sweep, case, what):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps([sweep, jsonable(case)])
    path = os.path.join(
        d, f"{prop}-{hashlib.sha256(blob.encode()).hexdigest()[:12]}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "sweep": sweep, "case": jsonable(case),
                   "what": what}, f, indent=1)
    return path


def check(prop, module, tier):
    """Run all sweeps of a property; write evidence; return exit status."""
    t0 = time.time()
    budget = 780 if tier == "quick" else float(
        os.environ.get("VERIF_THOROUGH_S", "14400"))
    deadline = t0 + budget
    known = load_known(prop)
    total = Result()
    per = {}
    bad = []
    capped = []
    for sweep in module.sweeps(tier):
        ts = time.time()
        res = (sweep.run(deadline) if hasattr(sweep, "run")
               else run_sweep(sweep, deadline))
        per[sweep.name] = {"bound": sweep.bound, "cases": res.n,
                           "not_judged": res.skipped,
                           "impl_executions": res.impl,
                           "reference_steps": res.steps,
                           "distinct_outcomes": len(res.outcomes),
                           "wall_s": round(time.time() - ts, 1),
                           "executions_by_outcome": res.extra}
        for v in res.violations:
            bad.append((sweep,) + tuple(v[1:]))
        if res.error and not res.violations:
            capped.append(f"{sweep.name}: {res.error}")
        total.merge(res)
        if len(bad) >= MAX_VIOLATIONS:
            break
    bad.sort(key=lambda b: b[1])
    status = 0
    reported = 0
    for sweep, i, case, what in bad:
        match = [t for c, t in known if c == tuplify(jsonable(case))]
        if match:
            print(f"KNOWN-FINDING: property={prop} {match[0]}")
            continue
        if reported >= MAX_VIOLATIONS:
            continue
        reported += 1
        again = recheck(sweep, case) if not hasattr(sweep, "run") else what
        path = write_replay(prop, sweep.name, case, what)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  sweep {sweep.name}, case {case!r}")
        print("  " + str(what).replace("\n", "\n  "))
        if again in (None, "skip"):
            print("  (does not happen in a fresh process: it depends on the "
                  "executions before it, i.e. state leaks between runs)")
        status = 1
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": module.LEVEL,
        "coverage": {
            "states": total.n, "transitions": total.steps,
            "traces_validated_against_impl": total.impl,
            "not_judged": total.skipped,
            "distinct_outcomes": len(total.outcomes),
            "samples": total.samples, "sweeps": per,
            "caps_hit": capped,
        },
        "wall_s": round(time.time() - t0, 1),
        "violations": reported,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, p in per.items():
        print(f"  {name}: {p['cases']} cases, {p['not_judged']} not judged, "
              f"{p['executions_by_outcome']}, "
              f"{p['distinct_outcomes']} distinct outcomes, {p['wall_s']} s "
              f"[{p['bound']}]")
    if capped and status == 0:
        for c in capped:
            print("ERROR (incomplete exploration):", c)
        return 2
    print(f"{prop}: {'VIOLATED' if status else 'holds'} on {total.n} cases, "
          f"{total.impl} implementation executions, {ev['wall_s']} s")
    return status
