"""C04: content accounting doesn't depend on how the content was chunked, and matches what was fed."""

import gzip
import hashlib
import zlib

import brotli

from mon import drive
from mon import gen as g

PROPERTY = "C04"
RULE = (
    "one message (fields, content of up to 8 MB, optional content codings) fed under several chunkings (whole, bytes, up to 20000 even ones, random cuts, "
    "empty chunks); accounting is compared with an independent computation and between chunkings; non-trivial: at least "
    "two different chunkings of non-empty content; distinct by content, fields and codings"
)
SIZES = {"quick": 900, "thorough": 15000}
REQUIRE = {"chunkings": 6000, "encoded": 400, "over_sample": 60, "no_content": 100, "kind:coding": 4, "big": 50, "damaged": 150, "lengths": 4000, "incomplete": 500}
SAMPLE = 8192
VOLATILE = {"BAD_ZLIB", "BAD_BROTLI", "BAD_GZIP"}


def chunkings(r, data, thorough):
    yield "whole", [data]
    if len(data) <= 400:
        yield "bytes", [data[i:i + 1] for i in range(len(data))]
    for _ in range(4 if thorough else 3):
        cuts = sorted(r.randint(0, len(data)) for _ in range(r.randint(1, 6)))
        out, last = [], 0
        for cut in cuts + [len(data)]:
            out.append(data[last:cut])  # some of these are empty
            last = cut
        yield "cuts", out
    near = r.randint(SAMPLE - 3, SAMPLE + 3)
    if len(data) > near:
        yield "sample-edge", [data[:near], data[near:]]
    n = r.choice([1, 2, 3, 9, 10, 11, 1024, 4096])
    if len(data) / n <= (400 if r.random() < 0.9 else 20000):
        yield "even", [data[i:i + n] for i in range(0, len(data), n)]


def encode(data, codings):
    for coding in codings:
        if coding in ("gzip", "x-gzip"):
            data = gzip.compress(data, mtime=0)
        elif coding == "br":
            data = brotli.compress(data, quality=5)
    return data


def state(linter):
    return {
        "content_length": linter.content_length,
        "content_hash": linter.content_hash,
        "decoded_length": linter.decoded.length,
        "decoded_hash": linter.decoded.hash,
        "content_sample": linter.content_sample,
        "complete": linter.complete,
        "character_encoding": linter.character_encoding,
        "decode_ok": linter.decoded.decode_ok,
        "notes": sorted(map(repr, drive.notes_of(linter))),
    }


def check(ctx, case):
    rawdata = case["data"].encode("latin-1")
    r = __import__("random").Random(case["seed"])
    if case["big"]:
        ctx.count("big")
        rawdata = (r.randbytes(case["big"]) if case["noise"] else (rawdata or b"x") * (case["big"] // (len(rawdata) or 1) + 1))[:case["big"]]
    codings = case["codings"]
    if codings:
        decoded = [c for c in codings if c in ("gzip", "x-gzip", "br")]
        wire = encode(rawdata, decoded)
        ctx.count("encoded")
        ctx.seen("coding", ",".join(codings))
        if case["damage"] is not None and wire and decoded:
            at = int(case["damage"] * len(wire))
            wire = wire[:at] + bytes([wire[at] ^ 0x55]) + wire[at + 1:]
            rawdata = None  # what's decoded depends on the fault
            ctx.count("damaged")
    else:
        wire = rawdata
    msg = dict(case["msg"])
    if case["cl"] is not None:
        msg["h"] = msg["h"] + [["Content-Length", str(len(wire) + case["cl"])]]
    kind = case["kind"]
    no_content = msg.get("nc", False)
    status = msg.get("s", "200")
    allowed = kind == "req" or not (msg.get("head") or status in ("204", "304") or (status.isdigit() and len(status) < 20 and 100 <= int(status) <= 199))
    correct = None
    if case["cl"] is not None and len(wire) + case["cl"] >= 0:
        correct = [] if no_content or not allowed else ["CL_INCORRECT" if case["cl"] else "CL_CORRECT"]
    states = []
    for label, chunks in chunkings(r, wire, ctx.thorough):
        msg["body"] = [c.decode("latin-1") for c in chunks]
        linter = (drive.make_request if kind == "req" else drive.make_response)(msg)
        seen = [bytearray(), bytearray()]
        if rawdata is not None:
            for sink in seen:
                linter.decoded.processors.append(sink.extend)
        drive.feed(linter, msg)
        if correct is not None:
            ctx.count("lengths", bool(correct))
            ctx.count("incomplete", bool(correct) and not msg["complete"])
            said = [n for n in drive.names(linter) if n in ("CL_CORRECT", "CL_INCORRECT")]
            ctx.expect(said == correct, "content-length-note", lambda: f"{label}: {said}, not {correct}: {len(wire)} bytes, {[[n, v] for n, v in msg['h'] if n[:1] in 'cC']!r:.400}, complete {msg['complete']}, {msg.get('tr')!r:.400}")
        if rawdata is None:
            ctx.expect(linter.content_length == len(wire), "content-length", lambda: f"{label}: content_length {linter.content_length}, {len(wire)} bytes of damaged content were fed")
            ctx.expect(linter.complete == msg["complete"], "complete", lambda: f"complete is {linter.complete}")
            if not no_content:
                ctx.expect(linter.content_hash == hashlib.md5(wire).digest(), "content-hash", lambda: f"{label}: content_hash isn't the digest of the damaged content")
            continue
        got = state(linter)
        ctx.expect(
            all(bytes(sink) == (b"" if no_content else rawdata) for sink in seen),
            "processors",
            lambda: f"{label}: what processors of decoded content were given isn't the content: {[len(sink) for sink in seen]} bytes of {len(rawdata)}",
        )
        states.append((label, got))
        ctx.count("chunkings")
        ctx.expect(
            got["content_length"] == len(wire),
            "content-length",
            lambda: f"{label}: content_length {got['content_length']}, {len(wire)} bytes were fed",
        )
        ctx.expect(got["complete"] == msg["complete"], "complete", lambda: f"complete is {got['complete']}")
        if no_content:
            ctx.count("no_content")
            ctx.expect(
                got["content_sample"] == b"" and got["decoded_length"] == 0,
                "no-content",
                lambda: f"{label}: content was examined although no_content was set: {got}",
            )
            ctx.expect(
                not {n[1] for n in drive.notes_of(linter)}
                & {"CL_CORRECT", "CL_INCORRECT", "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "CONTENT_TYPE_MISMATCH",
                   "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_UNDECODABLE"} - VOLATILE,
                "no-content-notes",
                lambda: f"{label}: notes about content although no_content was set: {drive.names(linter)}",
            )
        else:
            ctx.expect(
                got["content_hash"] == hashlib.md5(wire).digest(),
                "content-hash",
                lambda: f"{label}: content_hash isn't the digest of the content",
            )
            ctx.expect(
                got["decoded_length"] == len(rawdata),
                "decoded-length",
                lambda: f"{label}: decoded length {got['decoded_length']}, {len(rawdata)} expected, codings {codings}",
            )
            ctx.expect(
                got["decoded_hash"] == hashlib.md5(rawdata).digest(),
                "decoded-hash",
                lambda: f"{label}: decoded hash isn't the digest of the decoded content, codings {codings}",
            )
            ctx.expect(
                got["content_sample"] == rawdata[:SAMPLE],
                "sample",
                lambda: f"{label}: content_sample isn't the first {SAMPLE} bytes: {len(got['content_sample'])}",
            )
            if len(rawdata) > SAMPLE:
                ctx.count("over_sample")
        first = states[0][1]
        for key, val in got.items():
            ctx.expect(
                val == first[key],
                f"chunking:{key}",
                lambda: f"{key} depends on chunking: {states[0][0]} {first[key]!r:.400}, {label} {val!r:.400}",
            )
    if wire and (rawdata is None or len(states) > 1):
        ctx.distinct_case([case["data"], case["big"], codings, msg["h"], kind])
        ctx.sample({"codings": codings, "wire_bytes": len(wire), "chunkings": [s[0] for s in states]})


def content(r):
    pick = r.random()
    if pick < 0.15:
        return r.choice(["", "a", "\x00", "\xff"])
    if pick < 0.5:
        return g.body(r)
    if pick < 0.8:
        return "".join(chr(r.randrange(256)) for _ in range(r.randint(1, 300)))
    text = r.choice(["<p>hello w\xc3\xb6rld ", "caf\xe9 ", "\xe3\x81\x82", '{"a": "\xc3\xa9"}', "abc"])
    n = r.choice([SAMPLE - 1, SAMPLE, SAMPLE + 1, SAMPLE + 2, 2 * SAMPLE, 20000])
    return (text * (n // len(text) + 1))[:n]


def gen(rng, ctx):
    for _ in range(ctx.size):
        kind = rng.choice([g.REQ, g.RES, g.RES])
        msg = g.message(rng, kind, 3, 0.1)
        skip = {"content-encoding", "content-length"}
        msg["h"] = [h for h in msg["h"] if h[0].strip().lower() not in skip]
        codings = rng.choice([[]] * 3 + [["gzip"], ["br"], ["x-gzip"], ["identity"], ["gzip", "br"], ["br", "gzip"], ["gzip", "gzip"], ["foo"], ["GZIP"]])
        if rng.random() < 0.3:
            msg["h"].append(["Content-Type", rng.choice(["text/html", "text/plain; charset=utf-8", "application/json", "image/png", "text/html; charset=iso-8859-1", "text/plain; charset=shift_jis"])])
        wire_codings = codings
        if codings:
            msg["h"].append(["Content-Encoding", ", ".join(codings)])
            wire_codings = [c.lower() for c in codings]
        yield {
            "kind": kind, "msg": msg, "data": content(rng), "codings": wire_codings, "seed": rng.randrange(2 ** 30),
            "damage": rng.random() if rng.random() < 0.15 else None,
            "cl": rng.choice([None, 0, 0, 1, -1]), "noise": rng.random() < 0.5,
            "big": rng.choice([65535, 65536, 65537, 100000, 1048575, 1048576, 1048577, 3000000, 8400000]) if rng.random() < 0.02 else 0,
        }
