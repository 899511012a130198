"""C29: linting uses time and memory in proportion to the message."""

import gzip
import resource
import time
import tracemalloc
import zlib

import brotli

from mon import abnf as a
from mon import drive
from mon import gen as g
from httplint.message import HttpResponseLinter

PROPERTY = "C29"
RULE = (
    "values of 8000 bytes pumped from parts of valid values and from pairs of delimiters in every field, lists of as many members, thousands of lines, toplines, "
    "content in chunks of one byte for each coding and parse state, and long content with memory traced; distinct by what is pumped where"
)
SIZES = {"quick": 600, "thorough": 25000}
REQUIRE = {"pumped": 15000, "rendered": 40, "lines": 60, "topline": 40, "tiny": 12, "long": 12, "stacked": 8, "kind:field": 108, "kind:state": 12, "kind:held": 12, "distinct": 10000}
CASE_CPU_LIMIT = 25
TIMEOUT_IS_VIOLATION = True
ASSUMPTIONS = [
    "CPU time, not wall clock; the limits are at least ten times what the slowest input needs now",
    "quadratic time is tolerated within one field value of at most 8000 bytes",
]
LIMIT = 5  # seconds of CPU for one field value
KEEP = 3_000_000  # bytes
SIZE = 8000
ATOMS = ["a", "1", ".", "-", " ", "\t", "(", ")", "<", ">", '"', "\\", "/", ":", "@", "%", "=", ";", ",", "a ", "( ", "()", "a=", "a=a;", "a=a,", "; ", "/a", "%20", "1.", "a:", "::", "a@", "&", " ;", " ,",
         ", ", ",\t", " \t", "(a)", "(a) ", '"a"', '"a" ', "a/b ", "x-", "a-", "a.b ", "[", "{", "[]", "a\\", "\\\\", "<a>;", "<a>,", "*", "\xc3\xa9", "'", "=a", "==", ":a", ";a", "(\\", "a,", "\"\\\"", "0", "_", "?", "#", "!"]
PREFIXES = ["", "", "a", "a ", "a=", "a/1 ", "<", "http://", "1.1 a ", "a/b;", "(", '"', "bytes=", "a@", "a b", '<a>;a="', "[", "{", '"a', "a, ", " ", "\xe9"]
SUFFIXES = ["\x00", "", "!", '"', ")", "a", "<", ",", ";", "@", "="]
TINY = 60_000


def pump(r, name):
    if r.random() < 0.5:
        prefix, atom, suffix = r.choice(PREFIXES), r.choice(ATOMS), r.choice(SUFFIXES)
        if r.random() < 0.3:
            atom += r.choice(ATOMS)
    else:
        valid = ""
        while not valid:
            valid = g.to_latin1(g.FIELDS[name][1](r))
        start = r.randrange(len(valid))
        end = min(len(valid), start + r.choice([1, 1, 2, 3, 5, 10]))
        prefix, atom, suffix = valid[:start], valid[start:end], valid[end:] + r.choice(SUFFIXES)
        if r.random() < 0.3:
            suffix = r.choice(SUFFIXES)
    return prefix, atom, suffix


def gen(rng, ctx):
    every = [n for i, n in enumerate(g.NAMES) if i % ctx.workers == ctx.worker]
    tiny = ["plain", "text", "html", "json", "gzip", "br", "name", "comment", "extra", "members", "stored", "png"]
    for name in every:
        for atom in ATOMS:
            for _ in range(8 if ctx.thorough else 1):
                valid = g.to_latin1(g.FIELDS[name][1](rng))
                for prefix in ("", valid, valid[: rng.randint(1, max(1, len(valid) - 1))] if rng.random() < 0.3 else None):
                    if prefix is not None:
                        yield {"k": "pump", "name": name, "pump": (prefix, atom, rng.choice(SUFFIXES[:3])), "render": False, "size": SIZE, "alone": True}
    for i in range(ctx.size):
        pick = i % 30
        if pick == 7:
            yield {"k": "lines", "name": rng.choice(g.NAMES + ["x-a", "", "x-%d"]), "n": rng.choice([3000, 6000]), "same": rng.random() < 0.5, "seed": rng.random(), "trailers": rng.random() < 0.3}
        elif pick == 17:
            yield {"k": "topline", "part": rng.choice(["m", "u", "v", "s", "p", "base"]), "pump": pump(rng, rng.choice(["Location", "Link", "From"]))}
        elif pick == 19 and i < 30 * (48 if ctx.thorough else 3):
            yield {"k": "tiny", "state": tiny[(ctx.worker + 8 * (i // 30)) % len(tiny)]}
        elif pick == 21 and i < 30 * (48 if ctx.thorough else 3):
            yield {"k": "long", "state": tiny[(ctx.worker + 8 * (i // 30)) % len(tiny)], "mb": 48 if ctx.thorough else 24}
        elif pick == 23 and i < 60:
            yield {"k": "stacked", "coding": rng.choice(["gzip", "br", "both"]), "n": rng.choice([600, 1200, 2000])}
        else:
            name = every[i % len(every)] if pick % 2 else rng.choice(g.NAMES)
            yield {"k": "pump", "name": name, "pump": pump(rng, name), "render": rng.random() < 0.04, "size": SIZE, "alone": rng.random() < 0.9}


def used(fn):
    start = time.thread_time()
    out = fn()
    return out, time.thread_time() - start


def linter(headers=()):
    out = HttpResponseLinter()
    out.process_response_topline(b"HTTP/1.1", b"200", b"OK")
    out.process_headers([(drive.b(n), drive.b(v)) for n, v in headers])
    return out


def content(state, r_bytes):
    "-> header fields, content"
    if state == "plain":
        return [], r_bytes
    if state == "text":
        return [["Content-Type", "text/plain; charset=utf-8"]], b"h\xc3\xa9" * (len(r_bytes) // 3)
    if state == "html":
        return [["Content-Type", "text/html; charset=shift_jis"]], b"<p>" * (len(r_bytes) // 3)
    if state == "json":
        return [["Content-Type", "application/json"]], b"[" * len(r_bytes)
    if state == "png":
        return [["Content-Type", "image/png"]], b"\x89PNG\r\n\x1a\n" + r_bytes
    if state == "gzip":
        return [["Content-Encoding", "gzip"]], gzip.compress(r_bytes, 1)
    if state == "stored":
        return [["Content-Encoding", "gzip, gzip"]], gzip.compress(gzip.compress(r_bytes, 0), 0)
    if state == "br":
        return [["Content-Encoding", "br"]], brotli.compress(r_bytes, quality=1)
    if state == "name":
        return [["Content-Encoding", "gzip"]], b"\x1f\x8b\x08\x08\0\0\0\0\0\xff" + b"n" * len(r_bytes)
    if state == "comment":
        return [["Content-Encoding", "gzip"]], b"\x1f\x8b\x08\x1c\0\0\0\0\0\xff\xff\xff" + b"x" * 65535 + b"name\0" + b"c" * len(r_bytes)
    if state == "extra":
        return [["Content-Encoding", "gzip"]], b"\x1f\x8b\x08\x04\0\0\0\0\0\xff\xff\xff" + b"x" * 65535 + gzip.compress(b"a")[10:] * 1
    if state == "members":
        return [["Content-Encoding", "gzip"]], gzip.compress(b"") * (len(r_bytes) // 20)
    raise AssertionError(state)


def noise(n):
    out = b""
    seed = b"seed"
    while len(out) < n:
        seed = zlib.compress(seed + bytes([len(out) % 251]))[-64:] + seed[:32]
        out += (seed * 16) if len(out) > 4096 else seed
    return out[:n]


NOISE = noise(1 << 17)


def check(ctx, case):
    kind = case["k"]
    if kind == "pump":
        name = case["name"]
        prefix, atom, suffix = case["pump"]
        value = prefix + atom * (case["size"] // len(atom)) + suffix
        pairs = [[name, value]]
        if not case["alone"]:
            pairs += [["Cache-Control", "max-age=60"], ["Content-Type", "text/html"], ["Vary", "*"]]
        ask = drive.request if g.FIELDS[name][0] == g.REQ else drive.response
        got, cpu = used(lambda: ask(pairs))
        ctx.count("pumped")
        ctx.seen("tenths_of_seconds", int(cpu * 10))
        ctx.seen("field", name)
        ctx.expect(cpu < LIMIT, f"cpu:{name.lower()}", lambda: f"a {len(value)} byte {name} ({prefix!r} + {atom!r}... + {suffix!r}) took {cpu:.1f}s of CPU")
        if case["render"]:
            notes = list(drive.all_notes(got))[:120]
            _, cpu = used(lambda: [(n.summary, n.detail) for n in notes])
            ctx.count("rendered")
            ctx.expect(cpu < 2 * LIMIT, f"cpu-render:{name.lower()}", lambda: f"{len(notes)} notes on {value[:60]!r}... in {name} took {cpu:.1f}s of CPU to render")
        ctx.distinct_case([name, case["pump"]])
    elif kind == "lines":
        import random  # pylint: disable=import-outside-toplevel

        r = random.Random(case["seed"])
        name = case["name"]
        make = g.FIELDS[name][1] if name in g.FIELDS else (lambda r: "a")
        vals = [g.to_latin1(make(r))[:200] for _ in range(1 if case["same"] else 300)]
        def pairs(n):
            return [[name % i if "%d" in name else name, vals[i % len(vals)]] for i in range(n)]
        ask = drive.request if name in g.FIELDS and g.FIELDS[name][0] == g.REQ else drive.response
        n = case["n"]
        if case["trailers"]:
            got, cpu = used(lambda: ask([], tr=pairs(n)))
        else:
            got, cpu = used(lambda: ask(pairs(n)))
        ctx.count("lines")
        ctx.expect(cpu < 2 * LIMIT, f"cpu-lines:{name.lower()}", lambda: f"{n} lines of {name!r} took {cpu:.1f}s of CPU")
        section = got.trailers if case["trailers"] else got.headers
        ctx.expect(len(section.text) == n, "lines-lost", lambda: f"{n} lines of {name!r} are {len(section.text)} in text")
        ctx.distinct_case(["lines", name, n])
    elif kind == "topline":
        prefix, atom, suffix = case["pump"]
        value = prefix + atom * (SIZE // len(atom)) + suffix
        if case["part"] in "mu":
            _, cpu = used(lambda: [n.detail for n in drive.all_notes(drive.request([], **{case["part"]: value}))])
        else:
            _, cpu = used(lambda: [n.detail for n in drive.all_notes(drive.response([["Location", "/a"], ["Link", "<b>; rel=c"]], **{case["part"]: value}))])
        ctx.count("topline")
        ctx.expect(cpu < LIMIT, f"cpu-topline:{case['part']}", lambda: f"a topline with {value[:60]!r}... as {case['part']} took {cpu:.1f}s of CPU")
        ctx.distinct_case([case["part"], case["pump"]])
    elif kind == "tiny":
        fields, data = content(case["state"], NOISE[:TINY])
        if case["state"] == "comment":
            first, data = data[:65000], data[65000:]
        else:
            first = b""
        got = linter(fields)
        got.feed_content(first)

        def feed():
            for i in range(len(data)):
                got.feed_content(data[i : i + 1])
            got.finish_content(True)

        _, cpu = used(feed)
        ctx.count("tiny")
        ctx.seen("state", case["state"])
        ctx.expect(cpu < 2 * LIMIT, f"cpu-tiny:{case['state']}", lambda: f"{len(data)} one byte chunks ({case['state']}) took {cpu:.1f}s of CPU")
        ctx.expect(got.content_length == len(first) + len(data), "tiny-length", lambda: f"{got.content_length} counted of {len(first) + len(data)}")
        ctx.distinct_case(["tiny", case["state"]])
    elif kind == "long":
        fields, data = content(case["state"], NOISE)
        head = {"gzip": 0, "br": 0, "name": 10, "comment": 12 + 65535 + 5, "extra": 0, "stored": 0, "png": 8}.get(case["state"], 0)
        got = linter(fields)
        total = case["mb"] << 20
        if case["state"] == "gzip":
            packer = zlib.compressobj(1, zlib.DEFLATED, 31)
        elif case["state"] == "br":
            packer = brotli.Compressor(quality=1)
        else:
            packer = None
        fed = 0
        start_cpu = time.thread_time()
        tracemalloc.start()
        try:
            got.feed_content(data[:head])
            body = data[head:] or NOISE
            base = tracemalloc.get_traced_memory()[0]
            peak = held = 0
            while fed < total:
                if packer is None:
                    piece = body[: 1 << 16]
                elif case["state"] == "gzip":
                    piece = packer.compress(NOISE)
                else:
                    piece = packer.process(NOISE)
                fed += max(len(piece), 4096)
                tracemalloc.reset_peak()
                got.feed_content(piece)
                now, top = tracemalloc.get_traced_memory()
                peak = max(peak, top - now)
                held = max(held, now - base)
                if held > 8 * KEEP:
                    break
            got.finish_content(True)
        finally:
            tracemalloc.stop()
        cpu = time.thread_time() - start_cpu
        ctx.count("long")
        ctx.seen("held", case["state"])
        ctx.expect(held < KEEP, f"held:{case['state']}", lambda: f"{held} bytes were held after {fed} bytes of content ({case['state']})")
        ctx.expect(peak < 12_000_000, f"peak:{case['state']}", lambda: f"{peak} bytes were used for one chunk ({case['state']})")
        ctx.expect(cpu < 3 * LIMIT, f"cpu-long:{case['state']}", lambda: f"{fed} bytes of content ({case['state']}) took {cpu:.1f}s of CPU")
        ctx.distinct_case(["long", case["state"]])
        ctx.count("largest_rss_mb", 0)
        ctx.seen("rss_mb", resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 65536 * 64)
    elif kind == "stacked":
        data = b"hello"
        codings = []
        for i in range(case["n"]):
            coding = case["coding"] if case["coding"] != "both" else ("gzip", "br")[i % 2]
            data = gzip.compress(data, 1, mtime=0) if coding == "gzip" else brotli.compress(data, quality=0)
            codings.append(coding)

        def whole():
            got = linter([["Content-Encoding", ", ".join(codings)]])
            for i in range(0, len(data), 4096):
                got.feed_content(data[i : i + 4096])
            got.finish_content(True)
            return got

        got, cpu = used(whole)
        ctx.count("stacked")
        ctx.expect(cpu < 2 * LIMIT, "cpu-stacked", lambda: f"{case['n']} codings took {cpu:.1f}s of CPU")
        ctx.expect(got.decoded.length == 5, "stacked", lambda: f"{case['n']} codings decode to {got.decoded.length} bytes, not 5")
        ctx.distinct_case(["stacked", case["n"], case["coding"]])
