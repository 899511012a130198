"""C25: what a linter shows depends only on its own message and those it's related to."""

import copy
import gc
import json
import os
import random
import select
import subprocess
import sys
import threading

from mon import borrow, drive, fw, stages
from mon import gen as g

PROPERTY = "C25"
RULE = (
    "batches of exchanges that have much in common (the same URI, or fields with other values, repeated or left out; bodies cut differently); each is linted alone in a process that has linted nothing, then again in one that has linted thousands, with the others in one thread "
    "with their operations interleaved at random, in as many threads switching every few bytecodes, and in new processes with other hash seeds, in another order; distinct by the batch"
)
SIZES = {"quick": 70, "thorough": 900}
REQUIRE = {
    "interleaved": 1000, "context_switches": 6000, "threaded": 1000, "thread_switches": 300, "processes": 16, "other_hash": 250, "fresh": 1500, "looked_again": 1000, "notes": 15000, "kind:note": 200,
    "kind:hashseed": 12, "distinct": 300,
}
CASE_CPU_LIMIT = 120
ASSUMPTIONS = ["a thread switch is observed when two operations in a row in the log are by different threads"]


class Fresh:
    "A process that has linted nothing, whose children lint one exchange each."

    def __init__(self):
        down, up = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(down[1])
                os.close(up[0])
                self.serve(os.fdopen(down[0], "r"), os.fdopen(up[1], "w"))
            finally:
                os._exit(0)  # pylint: disable=protected-access
        os.close(down[0])
        os.close(up[1])
        self.ask_, self.answer = os.fdopen(down[1], "w"), os.fdopen(up[0], "r")

    @staticmethod
    def serve(asked, answers):
        for line in asked:
            pid = os.fork()
            if pid == 0:
                try:
                    answers.write(json.dumps(stages.Exchange(json.loads(line)).run().shows()) + "\n")
                except BaseException as exc:  # pylint: disable=broad-except
                    answers.write(json.dumps({"failed": repr(exc)}) + "\n")
                answers.flush()
                os._exit(0)  # pylint: disable=protected-access
            os.waitpid(pid, 0)

    def lint(self, case):
        self.ask_.write(json.dumps(case) + "\n")
        self.ask_.flush()
        if not select.select([self.answer], [], [], 100)[0]:
            return {"failed": "no answer in 100 seconds"}
        return json.loads(self.answer.readline())


_FRESH = []


def fresh():
    if not _FRESH:
        _FRESH.append(Fresh())
    return _FRESH[0]


def related(r, case):
    "A case with much in common with another."
    other = copy.deepcopy(case)
    for msg in other.values():
        for key, kind in (("h", None), ("tr", None)):
            lines = msg.get(key) or []
            for line in lines:
                p = r.random()
                if p < 0.25 and line[0] in g.FIELDS:
                    line[1] = g.to_latin1(g.FIELDS[line[0]][1](r))
                elif p < 0.35:
                    line[1] = g.to_latin1(g.mutate(r, line[1]))
                elif p < 0.4:
                    line[1] = g.to_latin1(line[1].swapcase())
            if lines and r.random() < 0.3:
                lines.insert(r.randint(0, len(lines)), list(r.choice(lines)))
            if lines and r.random() < 0.4:
                lines.pop(r.randrange(len(lines)))
            if r.random() < 0.3:
                r.shuffle(lines)
        if msg.get("body") and r.random() < 0.5:
            msg["body"] = g.chunk(r, "".join(msg["body"]))
        if r.random() < 0.2:
            msg["body"] = g.chunk(r, g.body(r))
        if r.random() < 0.2:
            msg["t"] = g.start_time(r)
        if "u" in msg and r.random() < 0.2:
            msg["u"] = r.choice([msg["u"].swapcase(), msg["u"].lower(), msg["u"] + "x", msg["u"][:-1]])
        if "m" in msg and r.random() < 0.2:
            msg["m"] = r.choice([msg["m"].swapcase(), r.choice(g.METHODS)])
        if "s" in msg and r.random() < 0.2:
            msg["s"] = r.choice(g.STATUSES)
    return other


def gen_exchange(r, ctx):
    case = borrow.some(r, ctx) if r.random() < 0.4 else g.exchange(r, 10, r.choice([0.02, 0.1, 0.3]))
    if r.random() < 0.6:
        # cases with sets and dictionaries in what they show
        kind = r.choice([k for k in ("req", "resp") if k in case])
        for _ in range(r.randint(1, 3)):
            name, value = r.choice([
                ("Vary", "b, a, c, User-Agent, Host, d, a"), ("Vary", "Accept-Encoding, Accept-CH, x, Y, x"), ("Cache-Control", "public, private, no-store, max-age=1, max-age=2, s-maxage=3, x, X"), ("Content-Language", "en, fr, en, fr, de"),
                ("Accept-CH", "a, b, c"), ("Content-Security-Policy", "default-src *; default-src 'self'; img-src http://a 'unsafe-inline'; img-src x; report-to a; script-src 'unsafe-eval'"),
                ("Transfer-Encoding", "gzip, foo, bar, chunked, baz"), ("Content-Encoding", "foo, bar, gzip, br"), ("Set-Cookie", "a=b; Secure; Foo; Bar; Baz; Comment=x; Version=1"), ("Set-Cookie", "a=c; HttpOnly; HttpOnly; Path=/"),
                ("Clear-Site-Data", '"x", "y", "cookies", "z"'), ("Permissions-Policy", "a=*, b=(x y z), c=foo"), ("Referrer-Policy", "foo, bar, unsafe-url, origin"), ("Accept", "a/b;q=2, c/d;q=x, e/f;q=3"),
                ("Link", "<a>; rel=preload; rel=prefetch, <b>; rev=x; anchor=y"), ("Allow", "GET, POST, FOO"), ("TE", "a, b, c"), ("Trailer", "a, b, content-length, host"), ("Connection", "a, b, close"),
                ("NEL", '{"a": 1, "b": 2}'), ("Report-To", '{"b": 1, "a": 2}'), ("Strict-Transport-Security", "max-age=1; x; y; max-age=2; preload"),
            ]) if r.random() < 0.7 else g.field(r, g.RES if kind == "resp" else g.REQ, 0.1)[:2]
            case[kind]["h"].append([name, value])
    return case


def gen(r, ctx):
    fresh()
    for i in range(ctx.size):
        first = gen_exchange(r, ctx)
        n = r.randint(1, 4)
        batch = [first] + [related(r, first) if r.random() < 0.8 else gen_exchange(r, ctx) for _ in range(n)]
        if r.random() < 0.3:
            batch.append(copy.deepcopy(first))
        yield {"batch": batch, "order": r.randrange(2**32), "kind": "near"}
        if i % (ctx.size // (12 if ctx.thorough else 3)) == 0:
            # starting a process is slow, so many at once
            yield {"batch": [gen_exchange(r, ctx) for _ in range(60 if ctx.thorough else 25)], "order": r.randrange(2**32), "kind": "process", "hash": r.randint(1, 2**32 - 1)}


def differs(a, b, path=""):
    "Where two shows differ, and what they are there."
    if type(a) is type(b) and isinstance(a, dict) and a.keys() == b.keys():
        for k in a:
            if a[k] != b[k]:
                return differs(a[k], b[k], f"{path}.{k}")
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differs(x, y, f"{path}[{i}]")
    return f"{path}: {str(a):.300} and {str(b):.300}"


def compare(ctx, alone, got, mech, batch, i):
    return ctx.expect(alone == got, mech, lambda: f"exchange {json.dumps(batch[i])[:600]} shows differently: {differs(alone, got)}")


def check(ctx, case):
    batch, r = case["batch"], random.Random(case["order"])
    alone, kept = [fresh().lint(one) for one in batch], []
    for one, shown in zip(batch, alone):
        if isinstance(shown, dict):
            ctx.violation("fresh-failed", f"linting in a new process failed: {shown['failed']}: {json.dumps(one)[:600]}")
            return
    for i, one in enumerate(batch):
        exchange = stages.Exchange(one).run()
        ctx.expect(exchange.intact, "input-changed", lambda: f"the given fields were changed: {json.dumps(one)[:600]}")
        ctx.count("fresh")
        compare(ctx, alone[i], exchange.shows(), "fresh", batch, i)
        kept.append(exchange)
    for shown in alone:
        for linter in shown:
            for note in linter["notes"] if linter else []:
                ctx.count("notes")
                ctx.seen("note", note[0][1])
    ctx.distinct_case(batch)
    ctx.sample([len(batch), [n[0][1] for n in (alone[0][1] or alone[0][0])["notes"]][:8]])

    if case["kind"] == "process":
        order = list(range(len(batch)))
        r.shuffle(order)
        env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]))
        done = subprocess.run([sys.executable, "-m", "mon.stages"], input=json.dumps([batch[i] for i in order]), capture_output=True, text=True, env=env, timeout=300, check=False)
        if done.returncode:
            # in this process the same was linted
            ctx.violation("process-failed", f"linting in another process failed: {done.stderr[-600:]}")
            return
        # anything that the code printed comes before; only the last line is ours
        for i, shown in zip(order, json.loads(done.stdout.splitlines()[-1])):
            ctx.count("other_hash")
            compare(ctx, alone[i], shown, "process", batch, i)
        ctx.count("processes")
        ctx.seen("hashseed", case["hash"])
        return

    # interleaved in one thread
    exchanges = [stages.Exchange(one) for one in batch]
    running = [(i, e.steps()) for i, e in enumerate(exchanges)]
    last = None
    while running:
        i, steps = r.choice(running)
        ctx.count("context_switches", i != last)
        last = i
        try:
            next(steps)
        except StopIteration:
            running.remove((i, steps))
    for i, exchange in enumerate(exchanges):
        ctx.count("interleaved")
        compare(ctx, alone[i], exchange.shows(), "interleaved", batch, i)

    # in threads
    exchanges = [stages.Exchange(one) for one in batch]
    log, failed, shown = [], [], [None] * len(batch)
    barrier = threading.Barrier(len(batch))

    def work(i):
        try:
            barrier.wait(60)
            for _ in exchanges[i].steps():
                log.append(i)
            shown[i] = exchanges[i].shows()
            log.append(i)
        except BaseException as exc:  # pylint: disable=broad-except
            failed.append((i, exc))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(batch))]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(300)
    finally:
        sys.setswitchinterval(interval)
    if any(thread.is_alive() for thread in threads):
        ctx.violation("deadlock", f"threads that lint at the same time don't finish: {json.dumps(batch)[:800]}")
        return
    for i, exc in failed:
        if isinstance(exc, threading.BrokenBarrierError):
            raise fw.HarnessError("threads didn't start")
        ctx.violation("thread-exception", f"linting in threads raised {exc!r}: {json.dumps(batch[i])[:600]}")
    if failed:
        return
    ctx.count("thread_switches", sum(a != b for a, b in zip(log, log[1:])))
    for i in range(len(batch)):
        ctx.count("threaded")
        compare(ctx, alone[i], shown[i], "threaded", batch, i)

    # what was shown at first, still is
    for i, exchange in enumerate(kept):
        ctx.count("looked_again")
        compare(ctx, alone[i], exchange.shows(), "looked-again", batch, i)
    # and linters that are gone had nothing to do with it
    del exchanges, kept
    if r.random() < 0.1:
        gc.collect()
        i = r.randrange(len(batch))
        compare(ctx, alone[i], stages.Exchange(batch[i]).run().shows(), "linted-again", batch, i)
