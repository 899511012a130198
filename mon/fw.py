"""Monitor framework: seeded workers, recorded events, verdicts, evidence, replay.

A check module provides
    PROPERTY  "C01"
    RULE      text for the evidence: how cases are made, what makes one non-trivial
    gen(rng, ctx)         -> iterator of JSON-able cases (one worker's share)
    check(ctx, case)      -> runs the real code on the case under the monitor;
                             reports with ctx.violation(mechanism, text)
    REQUIRE   {"counter": minimum}: what must have been observed for a verdict
    SIZES     {"quick": n, "thorough": n}: cases per worker (gen may use ctx.size)
Optional: fixed() -> list of cases that are always run first (by worker 0),
          WORKERS {"quick": n, "thorough": n}, ASSUMPTIONS [...],
          finish(ctx) -> run once per worker after the cases.
"""

import argparse
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("HTTPLINT_REPO", "/repo"))
EVIDENCE = os.environ.get("HTTPLINT_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known-findings.txt")

CASE_CPU_LIMIT = 20  # seconds of CPU for one case; normal cases take milliseconds
MAX_VIOLATIONS = 12  # per worker; enough to describe, no need to flood


class CaseTimeout(BaseException):
    "One case used more CPU than CASE_CPU_LIMIT."


class HarnessError(Exception):
    "The harness, not the code under test, went wrong."


def _jd(obj):
    return json.dumps(obj, sort_keys=True, ensure_ascii=True, default=repr)


def digest(obj):
    return hashlib.sha1(_jd(obj).encode()).hexdigest()[:16]


def from_target(exc):
    "Did this exception arise inside httplint (or a library it called)?"
    tb = exc.__traceback__
    root = os.path.join(REPO, "httplint")
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root + os.sep):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    "Innermost httplint function the exception passed through: a stable mechanism key."
    tb = exc.__traceback__
    root = os.path.join(REPO, "httplint") + os.sep
    out = "?"
    while tb is not None:
        filename = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if filename.startswith(root):
            out = f"{filename[len(root):]}:{tb.tb_frame.f_code.co_name}"
        tb = tb.tb_next
    return out


class Ctx:
    def __init__(self, prop, tier, seed, worker, workers, size):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.worker = worker
        self.workers = workers
        self.size = size
        self.thorough = tier == "thorough"
        self.counters = {}
        self.kinds = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known_hits = {}
        self.evaluations = 0
        self.timeouts = 0
        self.case = None
        self._mechs = set()
        self.known = {}
        self.inconclusive = []

    # -- observation -----------------------------------------------------------
    def count(self, name, by=1):
        self.counters[name] = self.counters.get(name, 0) + by

    def seen(self, kind, value):
        "Record a distinct observed value (states seen) under a kind."
        self.kinds.setdefault(kind, set()).add(value)

    def distinct_case(self, key):
        "Count the current case as non-trivial, distinct by key."
        self.distinct.add(digest(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    # -- verdicts --------------------------------------------------------------
    def violation(self, mech, text, case=None):
        """
        mech: short stable key of what is broken (used for known findings);
        text: what was observed and what was expected.
        """
        if mech in self.known:
            self.known_hits[mech] = self.known_hits.get(mech, 0) + 1
            return
        self.count("violations_seen")
        if mech in self._mechs or len(self.violations) >= MAX_VIOLATIONS:
            return
        self._mechs.add(mech)
        self.violations.append(
            {
                "property": self.prop,
                "mechanism": mech,
                "text": text,
                "case": case if case is not None else self.case,
            }
        )

    def expect(self, cond, mech, text):
        self.count("assertions")
        if not cond:
            self.violation(mech, text() if callable(text) else text)
        return bool(cond)


def _alarm(signum, frame):
    raise CaseTimeout()


# Raised when an observed value lacks an expected member or is of another type. (The likes of AttributeError
# and ImportError rather say that a name that the check uses has gone, which isn't an observation.)
UNREADABLE = (KeyError, IndexError, TypeError, ValueError)


def run_case(mod, ctx, case):
    ctx.case = case
    ctx.evaluations += 1
    limit = getattr(mod, "CASE_CPU_LIMIT", CASE_CPU_LIMIT)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        mod.check(ctx, case)
    except CaseTimeout:
        ctx.timeouts += 1
        if getattr(mod, "TIMEOUT_IS_VIOLATION", False):
            ctx.violation("cpu-time", f"one case used more than {limit}s of CPU")
        else:
            ctx.inconclusive.append(f"a case used more than {limit}s of CPU: {_jd(case)[:300]}")
    except HarnessError:
        raise
    except Exception as exc:  # pylint: disable=broad-except
        if not from_target(exc):
            if not isinstance(exc, UNREADABLE):
                raise
            ctx.violation(
                f"unreadable:{type(exc).__name__}:{where(exc)}",
                "what the code under test produced isn't of the kind that the check compares: "
                + "".join(traceback.format_exception(exc))[-700:],
            )
            return
        ctx.violation(
            f"exception:{type(exc).__name__}:{where(exc)}",
            "the code under test raised instead of answering: "
            + "".join(traceback.format_exception(exc))[-700:],
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    ctx.case = None


def load_findings(prop):
    known, fixed = {}, []
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding="utf-8") as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("known: "):
                    fields = line[len("known: "):].split(" ", 2)
                    if fields[0] == f"property={prop}":
                        assert fields[1].startswith("key=")
                        known[fields[1][4:]] = fields[2]
                elif line.startswith("fixed: "):
                    fixed.append(line)
    return known, fixed


def worker_main(modname, tier, seed, idx, workers, conn):
    result = {"worker": idx, "error": None}
    mod = None
    ctx = None
    try:
        sys.setrecursionlimit(1000)
        mod = importlib.import_module(modname)
        size = mod.SIZES[tier]
        ctx = Ctx(mod.PROPERTY, tier, seed, idx, workers, size)
        ctx.known, _ = load_findings(mod.PROPERTY)
        rng = random.Random(f"{mod.PROPERTY}/{tier}/{seed}/{idx}")
        budget = float(os.environ.get("VERIF_BUDGET_S", "600" if tier == "quick" else "2400"))
        start = time.monotonic()
        if hasattr(mod, "fixed"):
            for i, case in enumerate(mod.fixed()):
                if i % workers == idx:
                    run_case(mod, ctx, case)
        for case in mod.gen(rng, ctx):
            run_case(mod, ctx, case)
            if time.monotonic() - start > budget:
                # a guard for a badly overloaded machine, not part of the verdict
                ctx.count("stopped_by_budget")
                break
        if hasattr(mod, "finish"):
            mod.finish(ctx)
    except BaseException as exc:  # pylint: disable=broad-except
        result["error"] = "".join(traceback.format_exception(exc))[-3000:]
    if ctx is not None:
        result.update(
            counters=ctx.counters,
            kinds={k: sorted(map(str, v)) for k, v in ctx.kinds.items()},
            distinct=sorted(ctx.distinct),
            samples=ctx.samples,
            violations=ctx.violations,
            known_hits=ctx.known_hits,
            evaluations=ctx.evaluations,
            timeouts=ctx.timeouts,
            inconclusive=ctx.inconclusive,
        )
    conn.send(result)
    conn.close()


def verify_target():
    import httplint  # pylint: disable=import-outside-toplevel

    path = os.path.realpath(httplint.__file__)
    if not path.startswith(REPO + os.sep):
        raise HarnessError(f"httplint was imported from {path}, not from {REPO}")


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("property")
    parser.add_argument("--replay")
    parser.add_argument("--tier")
    parser.add_argument("--seed", type=int)
    args = parser.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.monotonic()
    modname = f"mon.checks.{args.property.lower()}"
    mod = importlib.import_module(modname)
    verify_target()

    if args.replay:
        with open(args.replay, encoding="utf-8") as fh:
            payload = json.load(fh)
        ctx = Ctx(mod.PROPERTY, tier, seed, 0, 1, 1)
        run_case(mod, ctx, payload["case"])
        for v in ctx.violations:
            print(f"VIOLATION property={mod.PROPERTY} replay={args.replay}")
            print(f"  {v['mechanism']}: {v['text']}")
        sys.exit(1 if ctx.violations else 0)

    workers = getattr(mod, "WORKERS", {}).get(tier, min(8, os.cpu_count() or 4))
    known, _fixed = load_findings(mod.PROPERTY)
    mp = multiprocessing.get_context("fork")
    procs = []
    for idx in range(workers):
        parent, child = mp.Pipe(False)
        proc = mp.Process(target=worker_main, args=(modname, tier, seed, idx, workers, child))
        proc.start()
        child.close()
        procs.append((proc, parent))
    results = []
    errors = []
    for idx, (proc, conn) in enumerate(procs):
        try:
            results.append(conn.recv())
        except EOFError:
            errors.append(f"worker {idx} died")
        proc.join()

    total = {
        "evaluations": 0, "timeouts": 0, "counters": {}, "kinds": {}, "distinct": set(),
        "samples": [], "violations": [], "known_hits": {}, "inconclusive": [],
    }
    for res in results:
        if res["error"]:
            errors.append(res["error"])
        if "counters" not in res:
            continue
        total["evaluations"] += res["evaluations"]
        total["timeouts"] += res["timeouts"]
        total["distinct"].update(res["distinct"])
        total["samples"].extend(res["samples"])
        total["violations"].extend(res["violations"])
        total["inconclusive"].extend(res["inconclusive"])
        for k, v in res["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        for k, v in res["known_hits"].items():
            total["known_hits"][k] = total["known_hits"].get(k, 0) + v
        for k, v in res["kinds"].items():
            total["kinds"].setdefault(k, set()).update(v)

    unmet = []
    for name, minimum in getattr(mod, "REQUIRE", {}).items():
        if name.startswith("kind:"):
            have = len(total["kinds"].get(name[5:], ()))
        elif name == "distinct":
            have = len(total["distinct"])
        else:
            have = total["counters"].get(name, 0)
        if have < minimum:
            unmet.append(f"{name}: observed {have}, needs {minimum}")

    replays = os.path.join(EVIDENCE, "replay")
    os.makedirs(replays, exist_ok=True)
    for name in os.listdir(replays):
        if name.startswith(f"{mod.PROPERTY}-"):
            os.unlink(os.path.join(replays, name))
    seen, violations = set(), []
    for v in total["violations"]:
        if v["mechanism"] in seen:
            continue
        seen.add(v["mechanism"])
        path = os.path.join(replays, f"{mod.PROPERTY}-{len(violations) + 1}.json")
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(dict(v, seed=seed, tier=tier), fh, indent=1, default=repr)
        violations.append((path, v))

    coverage = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": len(total["distinct"]),
        "rule": mod.RULE,
        "samples": total["samples"][:8] or ["none"],
        "observed": dict(sorted(total["counters"].items())),
        "distinct_values_seen": {k: len(v) for k, v in sorted(total["kinds"].items())},
        "values_seen": {k: sorted(v)[:400] for k, v in sorted(total["kinds"].items())},
        "required_minimums": getattr(mod, "REQUIRE", {}),
        "cases_over_cpu_limit": total["timeouts"],
        "known_findings_reproduced": total["known_hits"],
        "workers": workers,
    }
    evidence = {
        "property": mod.PROPERTY,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{mod.PROPERTY}.json"), "w", encoding="utf-8") as fh:
        json.dump(evidence, fh, indent=1, default=repr)

    print(
        f"{mod.PROPERTY} tier={tier} seed={seed}: {total['evaluations']} cases,"
        f" {len(total['distinct'])} distinct non-trivial, {evidence['wall_s']}s"
    )
    for key, what in known.items():
        if key in total["known_hits"]:
            print(f"KNOWN-FINDING: property={mod.PROPERTY} {what}")
    for path, v in violations:
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        print(f"  {v['mechanism']}: {v['text'][:1500]}")
    if violations:
        sys.exit(1)
    problems = errors + total["inconclusive"] + unmet
    if problems:
        for problem in problems[:10]:
            print(f"INCONCLUSIVE property={mod.PROPERTY} {problem}")
        sys.exit(2)
    sys.exit(0)


