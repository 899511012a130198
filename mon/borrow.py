"""The messages that other checks make, as cases for drive.run; those know each field's particulars."""

import copy
import importlib
import json

from mon import drive

MODULES = [
    f"c{n:02}" for n in (8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 30, 31, 32, 33, 34, 35, 36, 37, 24)
]
MAX_SIZE = 60000
SMALL = 8000  # for checks that lint each message many times


class Stop(BaseException):
    "The message has been seen; it doesn't need to be linted."


class Stub:
    "Stands in for fw.Ctx; nothing is decided with it."

    prop = tier = case = None
    seed = 0
    thorough = False

    def __init__(self, size, worker, workers):
        self.size, self.worker, self.workers = size, worker, workers
        self.counters, self.kinds = {}, {}

    def count(self, *args):
        pass

    seen = distinct_case = sample = violation = count

    def expect(self, cond, *args):
        return bool(cond)


def pool(rng, ctx, each, skip=()):
    "Yield (name of the check, case) for about `each` cases of each check."
    for name in MODULES:
        if name in skip:
            continue
        try:
            mod = importlib.import_module(f"mon.checks.{name}")
        except ModuleNotFoundError:
            continue
        stub = Stub(each, ctx.worker, ctx.workers)
        chosen = []
        made = (c for i, c in enumerate(mod.fixed()) if i % ctx.workers == ctx.worker) if hasattr(mod, "fixed") else ()
        for source in (made, mod.gen(rng, stub)):
            kept = []
            for i, case in enumerate(source):
                if i < each:
                    kept.append(case)
                elif rng.randrange(i + 1) < each:
                    kept[rng.randrange(each)] = case
            chosen += kept
        for case in chosen:
            for found in messages(mod, stub, case, rng.choice([1, 1, 1, 2, 3])):
                yield name, found


def messages(mod, stub, case, nth):
    real, found = drive.run, []

    def record(given):
        found.append(copy.deepcopy(given))
        if len(found) >= nth:
            raise Stop
        return real(given)

    drive.run = record
    try:
        mod.check(stub, case)
    except Stop:
        pass
    except Exception:  # pylint: disable=broad-except
        pass  # it's for the check itself to report
    finally:
        drive.run = real
    for given in found[-1:]:
        try:
            if len(json.dumps(given)) < MAX_SIZE and (given.get("req") or given.get("resp")):
                yield given
        except (TypeError, ValueError):
            pass


_POOLS = {}


def some(rng, ctx, each=30, skip=()):
    "A case that another check made, or two of them in one; the pool is made once."
    key = (each, skip)
    if key not in _POOLS:
        _POOLS[key] = [case for _, case in pool(rng, ctx, each, skip) if len(json.dumps(case)) < SMALL]
    case = whole(rng.choice(_POOLS[key]))
    if rng.random() < 0.3:
        other = whole(rng.choice(_POOLS[key]))
        for kind in case:
            lines = other.get(kind, {}).get("h", [])
            if len(lines) < 200:
                case[kind]["h"] = case[kind]["h"] + lines
    return case


def whole(case):
    out = {}
    for kind in ("req", "resp"):
        if case.get(kind) is not None:
            out[kind] = {k: v for k, v in copy.deepcopy(case[kind]).items() if v is not None}
            out[kind]["h"] = [list(line) for line in out[kind].get("h", ())]
            if out[kind].get("tr"):
                out[kind]["tr"] = [list(line) for line in out[kind]["tr"]]
    return out
