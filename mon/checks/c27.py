"""C27: results outlive their linters, survive pickling, and linters leave nothing behind."""

import copy
import gc
import json
import os
import pickle
import subprocess
import sys
import tempfile
import tracemalloc
import weakref

from httplint.i18n import set_locale
from httplint.message import HttpMessageLinter

from mon import borrow, drive
from mon import gen as g
from mon.stages import shows

PROPERTY = "C27"
RULE = (
    "exchanges of any fields, content and trailers, with notes and caching looked at before and not; pickled (each protocol), copied and deep copied alone and as a pair, read in the same and in new processes; "
    "then dropped while their notes and values are kept, with live objects and traced memory counted; distinct by exchange"
)
SIZES = {"quick": 550, "thorough": 8000}
REQUIRE = {
    "pickled": 2000, "deepcopied": 1000, "pairs": 800, "processes": 6, "elsewhere": 200, "dropped": 3000, "kept_notes": 5000, "growth": 8, "trailers": 200, "storable": 300, "large": 8,
    "kind:note": 180, "kind:field": 90, "distinct": 2500,
}
CASE_CPU_LIMIT = 60
LANGS = ["en", "fr", "ja", "es"]
READER = """
import json, pickle, sys
from httplint.i18n import set_locale
from mon.stages import shows
out = []
for lang, blob in pickle.load(open(sys.argv[1], "rb")):
    with set_locale(lang):
        out.append(shows(pickle.loads(blob)))
json.dump(out, sys.stdout)
"""


def gen(rng, ctx):
    batch = []
    for i in range(ctx.size):
        case = borrow.some(rng, ctx) if rng.random() < 0.4 else g.exchange(rng)
        yield {"k": "one", "case": case, "proto": rng.choice([0, 1, 2, 3, 4, 5]), "lang": rng.choice(LANGS), "how": rng.choice(["pickle", "pickle", "deepcopy", "copy"]), "look": rng.random() < 0.5}
        batch.append(case)
        if len(batch) == 40 and i < (8000 if ctx.thorough else 330):
            yield {"k": "process", "cases": batch, "lang": rng.choice(LANGS)}
        if len(batch) == 40:
            batch = []
    yield {"k": "large", "n": rng.choice([500, 3000])}
    for _ in range(3 if ctx.thorough else 1):
        yield {"k": "growth", "seed": rng.random(), "n": 400 if ctx.thorough else 150}


def ran(case):
    return [linter for linter in drive.run(case) if linter is not None]


def other_of(linter):
    return linter.request if hasattr(linter, "request") else linter.response


def alive():
    return sum(isinstance(obj, HttpMessageLinter) for obj in gc.get_objects() if not isinstance(obj, weakref.ProxyTypes))


def one(ctx, case):
    linters = ran(case["case"])
    if case["look"]:
        for linter in linters:
            shows(linter)
    with set_locale(case["lang"]):
        before = [shows(linter) for linter in linters]
    ctx.count("pairs", len(linters) == 2)
    for linter, seen in zip(linters, before):
        for note in drive.all_notes(linter):
            ctx.seen("note", type(note).__name__)
        for name in linter.headers.parsed:
            if name in {n.lower() for n in g.NAMES}:
                ctx.seen("field", name)
        ctx.count("trailers", bool(linter.trailers.text))
        ctx.count("storable", bool(seen.get("caching")) and ["store_shared", True] in seen["caching"])
        if case["how"] == "pickle":
            ctx.count("pickled")
        elif case["how"] == "deepcopy":
            ctx.count("deepcopied")
        else:
            ctx.count("copied")
        try:
            if case["how"] == "pickle":
                again = pickle.loads(pickle.dumps(linter, case["proto"]))
            else:
                again = copy.deepcopy(linter) if case["how"] == "deepcopy" else copy.copy(linter)
        except Exception as why:  # pylint: disable=broad-except
            ctx.violation(f"failed:{case['how']}", f"{case['how']} of a linter raised {type(why).__name__}: {why}")
            return
        with set_locale(case["lang"]):
            got = shows(again)
        ctx.expect(got == seen, f"differs:{case['how']}", lambda: f"after {case['how']}: " + first_difference(seen, got))
        for name in ("method", "uri", "iri", "version", "status_code", "status_code_str", "status_phrase", "base_uri", "start_time", "no_content", "character_encoding", "transfer_length", "is_head_response"):
            if hasattr(linter, name):
                ctx.expect(getattr(linter, name) == getattr(again, name, "(none)"), f"attribute:{name}", lambda: f"{name} is {getattr(again, name, '(none)')!r} after {case['how']}, not {getattr(linter, name)!r}")
        if len(linters) == 2:
            other = other_of(again)
            mine = linters[1] if linter is linters[0] else linters[0]
            ctx.expect(other is not None, "unrelated", lambda: f"the related message is lost by {case['how']}")
            if other is not None:
                with set_locale(case["lang"]):
                    ctx.expect(shows(other) == before[linters.index(mine)], "related-differs", lambda: f"the related message is different after {case['how']}")
                if case["how"] != "copy":
                    ctx.expect(other_of(other) is again, "related-other", lambda: f"the message related to the related message is another one after {case['how']}")
        del again
        with set_locale(case["lang"]):
            ctx.expect(shows(linter) == seen, f"changed-by:{case['how']}", lambda: f"{case['how']} changed the linter: " + first_difference(seen, shows(linter)))
    # the notes and values stay usable when the linters are gone
    kept = [(list(drive.all_notes(linter)), linter.headers.parsed, linter.headers.text) for linter in linters]
    refs = [weakref.ref(linter) for linter in linters]
    linter = mine = other = None
    linters.clear()
    gc.collect()
    ctx.count("dropped", len(refs))
    ctx.expect(all(ref() is None for ref in refs), "kept-alive", "a linter that nothing refers to is still alive after a garbage collection (with its notes and parsed values in use)")
    with set_locale(case["lang"]):
        for (notes, values, _), seen in zip(kept, before):
            texts = {json.dumps([str(n.summary), str(n.detail)]) for n in notes}
            ctx.count("kept_notes", len(notes))
            wanted = {json.dumps([str(s), str(d)]) for _, s, d in seen["notes"]}
            ctx.expect(wanted <= texts, "orphans", lambda: f"notes read differently when their linter is gone: {sorted(wanted - texts)[:1]}")
            ctx.expect(json.loads(json.dumps([[k, drive.norm(v)] for k, v in values.items()], default=repr)) == seen["headers"], "orphan-values", "values read differently when their linter is gone")
    ctx.distinct_case(case["case"])


def first_difference(old, new):
    for key in old:
        if old[key] != new.get(key):
            if isinstance(old[key], list):
                for x, y in zip(old[key], new[key]):
                    if x != y:
                        return f"{key}: {str(x)[:300]} became {str(y)[:300]}"
            return f"{key}: {str(old[key])[:300]} became {str(new.get(key))[:300]}"
    return "?"


def check(ctx, case):
    if case["k"] == "one":
        one(ctx, case)
    elif case["k"] == "process":
        linters = [linter for one_case in case["cases"] for linter in ran(one_case)]
        with set_locale(case["lang"]):
            before = [shows(linter) for linter in linters]
        try:
            blobs = [(case["lang"], pickle.dumps(linter)) for linter in linters]
        except Exception as why:  # pylint: disable=broad-except
            ctx.violation("failed:pickle", f"pickling a linter raised {type(why).__name__}: {why}")
            return
        with tempfile.NamedTemporaryFile() as fh:
            pickle.dump(blobs, fh)
            fh.flush()
            env = dict(os.environ, PYTHONHASHSEED=str(len(blobs)))
            done = subprocess.run([sys.executable, "-c", READER, fh.name], env=env, capture_output=True, timeout=300, check=False)
        ctx.count("processes")
        if not ctx.expect(done.returncode == 0, "elsewhere-failed", lambda: "a new process couldn't read pickled linters: " + done.stderr.decode()[-600:]):
            return
        for old, new in zip(before, json.loads(done.stdout)):
            ctx.count("elsewhere")
            ctx.expect(old == new, "elsewhere", lambda: "in a new process: " + first_difference(old, new))
        ctx.distinct_case(["process", len(blobs), case["lang"]])
    elif case["k"] == "large":
        n = case["n"]
        linter = drive.response([[f"x-{i}", "a"] for i in range(n)] + [["Set-Cookie", f"a{i}=b"] for i in range(n)] + [["Link", "<a>; rel=b"]] * n, tr=[[f"y-{i}", "a"] for i in range(n)])
        data = pickle.dumps(linter)
        again = pickle.loads(data)
        ctx.count("large")
        ctx.expect(drive.notes_of(again) == drive.notes_of(linter), "large", "the notes of a large message differ once pickled")
        ctx.expect(drive.norm(again.headers.parsed) == drive.norm(linter.headers.parsed), "large-values", "the values of a large message differ once pickled")
        copy.deepcopy(linter)
        ctx.distinct_case(["large", n])
    else:
        import random  # pylint: disable=import-outside-toplevel

        r = random.Random(case["seed"])

        def some(exchanges):
            for exchange in exchanges:
                for linter in ran(exchange):
                    for note in list(drive.all_notes(linter))[:40]:
                        str(note.detail)

        fixed = [g.exchange(r) for _ in range(case["n"])]
        some(fixed)
        some(fixed)
        gc.collect()
        count = alive()
        grown = []
        tracemalloc.start()
        try:
            some(fixed)
            for segment in [fixed] + [None] * 7:
                gc.collect()
                base = tracemalloc.get_traced_memory()[0]
                some(segment or [g.exchange(r) for _ in range(case["n"] // 3)])
                gc.collect()
                grown.append(tracemalloc.get_traced_memory()[0] - base)
        finally:
            tracemalloc.stop()
        ctx.count("growth")
        ctx.seen("growth_kb", grown[0] // 1024)
        fresh = sorted(grown[1:])[3]  # libraries load things once; a leak is in most segments
        ctx.seen("fresh_growth_kb", fresh // 1024)
        ctx.expect(alive() <= count, "alive", lambda: f"{alive() - count} linters are alive after exchanges were dropped")
        ctx.expect(grown[0] < 100_000, "growth", lambda: f"{grown[0]} bytes are held after {case['n']} exchanges were linted again and dropped")
        ctx.expect(fresh < 100_000, "growth-fresh", lambda: f"{fresh} bytes are held after {case['n'] // 3} further exchanges were dropped (the median of {grown[1:]})")
        ctx.distinct_case(["growth", case["seed"]])
