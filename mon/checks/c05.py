"""C05: content codings are decoded as their formats define, faults are reported, and work is bounded."""

import gzip
import hashlib
import re
import os
import resource
import struct
import zlib

import brotli

from mon import drive
from mon import gen as g

PROPERTY = "C05"
RULE = (
    "gzip streams with every combination of optional header fields, brotli streams, stacked codings, codings that aren't "
    "decoded, corrupted and truncated streams, decompression bombs; expected output and fault from zlib/brotli driven "
    "independently; non-trivial: the stream has at least one decoded coding; distinct by wire bytes"
)
SIZES = {"quick": 900, "thorough": 15000}
REQUIRE = {"good": 2000, "faults": 400, "kind:outcome": 5, "kind:gzip_flags": 16, "bombs": 4, "passthrough": 300, "members": 300, "samples_shown": 200}
LIMIT = 100 * 1024 * 1024
FAULTS = {"BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"}


def gzip_stream(data, flags=0, extra=b"", name=b"", comment=b"", level=6, mtime=0):
    "A gzip member, written from RFC 1952."
    out = b"\x1f\x8b\x08" + bytes([flags]) + struct.pack("<I", mtime) + b"\x00\xff"
    if flags & 4:
        out += struct.pack("<H", len(extra)) + extra
    if flags & 8:
        out += name + b"\0"
    if flags & 16:
        out += comment + b"\0"
    if flags & 2:
        out += struct.pack("<H", zlib.crc32(out) & 0xFFFF)
    comp = zlib.compressobj(level, zlib.DEFLATED, -15)
    body = comp.compress(data) + comp.flush()
    return out, out + body + struct.pack("<II", zlib.crc32(data), len(data) & 0xFFFFFFFF)


def run(wire, coding, chunk=None, status="200"):
    chunk = chunk or max(1, len(wire))
    linter = drive.make_response({"s": status, "v": "1.1"})
    linter.process_headers([(b"Content-Encoding", coding.encode("latin-1"))])
    for i in range(0, len(wire), chunk):
        linter.feed_content(wire[i:i + chunk])
    linter.finish_content(True)
    return linter, [n for n in drive.names(linter) if n in FAULTS]


def expect_good(ctx, wire, coding, data, chunk, label):
    linter, faults = run(wire, coding, chunk)
    ctx.count("good")
    ctx.expect(not faults, f"false-fault:{label}", lambda: f"{label}: {faults} for a valid {coding} stream {wire[:60]!r}")
    ctx.expect(
        linter.decoded.length == len(data) and linter.decoded.hash == hashlib.md5(data).digest(),
        f"decoded:{label}",
        lambda: f"{label}: {coding} decoded to {linter.decoded.length} bytes, {len(data)} expected; chunk {chunk}",
    )
    ctx.expect(
        linter.content_sample == data[:8192], f"sample:{label}", lambda: f"{label}: sample {linter.content_sample[:40]!r}"
    )


def ref_inflate(wire, header):
    "-> (decoded prefix, fault) for a whole deflate stream after its header"
    dec = zlib.decompressobj(-15)
    out = b""
    try:
        for i in range(header, len(wire)):
            out += dec.decompress(wire[i:i + 1])
    except zlib.error:
        return out, True
    return out, False


def ref_brotli(wire):
    dec = brotli.Decompressor()
    out = b""
    try:
        for i in range(len(wire)):
            out += dec.process(wire[i:i + 1])
    except brotli.error:
        return out, True
    return out, False


def rss():
    "resident memory now, in MB"
    with open("/proc/self/statm", encoding="ascii") as fh:
        return int(fh.read().split()[1]) * os.sysconf("SC_PAGE_SIZE") / 2 ** 20


def display(data):
    "How the start of some bytes is shown: printable characters, and the rest in hex."
    out = ""
    for c in data[:200].decode("utf-8", "backslashreplace")[:40]:
        out += c if c.isprintable() else "\\x" + c.encode("utf-8").hex()
    return out


def from_content(shown, wire, chunk):
    "Whether what's shown is how some of the content starts."
    ends = [lambda i: (i // chunk + 1) * chunk, lambda i: len(wire)] + [lambda i, n=n: i + n for n in range(1, 41)]
    return any(shown == display(wire[i:end(i)]) for end in ends for i in range(len(wire)))


def bomb(ctx, case):
    kind, size = case["bomb"], case["size"]
    block = b"\0" * (1 << 20)
    if kind in ("gzip", "gzip,gzip"):
        comp = zlib.compressobj(9, zlib.DEFLATED, 31)
        wire = b"".join(comp.compress(block) for _ in range(size)) + comp.flush()
        if kind == "gzip,gzip":
            wire = gzip.compress(wire, 9)
    else:
        comp = brotli.Compressor(quality=1)
        wire = b"".join(comp.process(block) for _ in range(size)) + comp.finish()
        if kind == "gzip,br":
            wire = brotli.compress(gzip.compress(b"\0" * (size << 20), 9))
    before = max(rss(), resource.getrusage(resource.RUSAGE_SELF).ru_maxrss / 1024)
    linter, faults = run(wire, kind, case.get("chunk"))
    grown = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss / 1024 - before
    ctx.count("bombs")
    ctx.seen("outcome", f"bomb {kind}")
    over = size * (1 << 20) > LIMIT
    if over:
        ctx.expect(
            faults == ["DECOMPRESSION_LIMIT"], f"bomb-note:{kind}", lambda: f"{size}MB {kind}: notes {faults}"
        )
        ctx.expect(
            linter.decoded.length <= LIMIT,
            f"bomb-length:{kind}",
            lambda: f"{size}MB {kind}: {linter.decoded.length} bytes were processed, the limit is {LIMIT}",
        )
        ctx.expect(
            linter.decoded.length >= LIMIT - (8 << 20),
            f"bomb-early:{kind}",
            lambda: f"{size}MB {kind}: stopped at {linter.decoded.length} bytes, the limit is {LIMIT}",
        )
    else:
        ctx.expect(not faults, f"bomb-false:{kind}", lambda: f"{size}MB {kind}: notes {faults}")
        ctx.expect(
            linter.decoded.length == size << 20, f"bomb-short:{kind}", lambda: f"{size}MB {kind}: {linter.decoded.length}"
        )
    ctx.expect(
        grown < 60, f"bomb-memory:{kind}", lambda: f"{size}MB {kind} ({len(wire)} bytes) grew memory by {grown:.0f}MB"
    )
    ctx.distinct_case(case)


def check(ctx, case):
    if "bomb" in case:
        bomb(ctx, case)
        return
    data = case["data"].encode("latin-1")
    what, chunk = case["what"], case["chunk"]
    if what == "members":
        parts = [data] + [p.encode("latin-1") for p in case.get("more", [case["data"]])]
        wire = b""
        for i, part in enumerate(parts):
            flags = (case.get("flags", 0) >> i) & 31
            wire += gzip_stream(part, flags, b"ab", b"name", b"comment")[1]
        ctx.count("members")
        expect_good(ctx, wire + b"\0" * case.get("pad", 0), case.get("coding", "gzip"), b"".join(parts), chunk, "members")
        ctx.distinct_case(wire.decode("latin-1"))
        return
    if what == "pass":
        linter, faults = run(data, case["coding"], chunk)
        ctx.count("passthrough")
        ctx.expect(
            not faults and linter.decoded.length == len(data) and linter.decoded.hash == hashlib.md5(data).digest(),
            "passthrough",
            lambda: f"{case['coding']} content that isn't decoded changed: {faults} {linter.decoded.length}",
        )
        return
    if what == "gzip":
        header, wire = gzip_stream(
            data, case["flags"], case["extra"].encode("latin-1"), case["name"].encode("latin-1"),
            case["comment"].encode("latin-1"), case["level"], case["mtime"],
        )
        ctx.seen("gzip_flags", case["flags"])
        coding = case["coding"]
    else:
        header, wire, coding = b"", brotli.compress(data, quality=case["level"]), case["coding"]
    ctx.distinct_case(wire.decode("latin-1"))
    expect_good(ctx, wire, coding, data, chunk, what)
    if case["stack"]:
        inner, names = wire, [coding]
        for layer in case["stack"]:
            inner = gzip.compress(inner, mtime=0) if layer == "gzip" else brotli.compress(inner, quality=1)
            names.append(layer)
        expect_good(ctx, inner, ", ".join(names), data, chunk, "stack")
    # faults
    pos, byte = case["pos"], case["byte"]
    bad = bytearray(wire)
    at = int(pos * len(bad))
    if case["cut"]:
        bad = bad[:at]
    elif bad[at] == byte:
        return
    else:
        bad[at] = byte
    bad = bytes(bad)
    linter, faults = run(bad, coding, chunk)
    ctx.count("faults")
    if what == "gzip":
        if len(bad) < 10:
            want, ref = [], b""
        elif bad[:2] != b"\x1f\x8b" or bad[2] != 8:
            want, ref = ["BAD_GZIP"], b""
        elif at < len(header) and not case["cut"]:
            return  # where the deflate data starts depends on the damaged field
        elif len(bad) < len(header):
            want, ref = [], b""
        else:
            ref, fault = ref_inflate(bad, len(header))
            want = ["BAD_ZLIB"] if fault else []
    else:
        ref, fault = ref_brotli(bad)
        want = ["BAD_BROTLI"] if fault else []
    ctx.seen("outcome", f"{what} {want}")
    ctx.expect(
        faults == want,
        f"fault:{what}:{'+'.join(want) or 'none'}",
        lambda: f"{what} {'cut' if case['cut'] else 'damaged'} at {at} of {len(wire)}: notes {faults}, expected {want}; wire {bad[:60]!r}",
    )
    got = linter.content_sample
    ctx.expect(
        ref[: len(got)] == got if len(ref) <= 8192 else True,
        f"fault-prefix:{what}",
        lambda: f"{what}: after a fault the sample {got[:60]!r} isn't a prefix of what can be decoded {ref[:60]!r}",
    )
    ctx.expect(
        linter.decoded.length <= len(ref),
        f"fault-length:{what}",
        lambda: f"{what}: decoded {linter.decoded.length} bytes; only {len(ref)} can be",
    )
    for note in linter.notes:
        if type(note).__name__ in ("BAD_ZLIB", "BAD_BROTLI"):
            shown = note.vars.get("chunk_sample")
            ctx.count("samples_shown")
            ctx.expect(
                isinstance(shown, str) and from_content(shown, bad, chunk or len(bad)),
                f"chunk-sample:{what}",
                lambda: f"{what}: the erroneous chunk is shown as {shown!r}, which isn't part of the content {bad[:60]!r}",
            )
            length = re.sub("[^0-9]", "", str(note.vars.get("ok_zlib_len" if what == "gzip" else "ok_brotli_len")))
            ctx.expect(
                length == str(linter.decoded.length),
                f"decompressed-shown:{what}",
                lambda: f"{what}: {length} bytes are said to be decompressed before the fault; {linter.decoded.length} were",
            )
    if not want:
        ctx.expect(
            linter.decoded.length == len(ref),
            f"cut-length:{what}",
            lambda: f"{what}: decoded {linter.decoded.length} of {len(ref)} bytes without reporting a fault",
        )
    ctx.sample({"what": what, "wire": len(wire), "damage": at, "outcome": want})


def fixed():
    yield {"bomb": "gzip", "size": 101}
    yield {"bomb": "gzip", "size": 101, "chunk": 400}
    yield {"bomb": "br", "size": 400}
    yield {"bomb": "gzip", "size": 100}
    yield {"bomb": "br", "size": 100}
    yield {"bomb": "gzip,gzip", "size": 130}
    yield {"bomb": "gzip", "size": 300, "chunk": 4096}
    yield {"bomb": "br", "size": 120, "chunk": 1000}
    yield {"bomb": "gzip,br", "size": 103}
    yield {"what": "members", "data": "hello, world", "chunk": None}
    yield {"what": "members", "data": "hello, world", "chunk": 3}


def gen(rng, ctx):
    for i in range(ctx.size):
        pick = rng.random()
        if pick < 0.3:
            data = "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 60)))
        elif pick < 0.6:
            data = rng.choice(["abc", "<p>hello</p>\n", "\x00", "caf\xe9 "]) * rng.randint(0, 300)
        elif pick < 0.95:
            data = g.body(rng)
        else:
            data = ("".join(chr(rng.randrange(256)) for _ in range(97)) * 200)[: rng.choice([8191, 8192, 8193, 15000])]
        chunk = rng.choice([None, 1, 2, 5, 9, 10, 11, 64, 1000])
        if chunk and len(data) > 2000 and chunk < 9:
            chunk = 100
        what = rng.choice(["gzip", "gzip", "gzip", "br", "br", "pass", "members"])
        case = {"what": what, "data": data, "chunk": chunk}
        if what == "members":
            case.update(
                more=["".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 40))) for _ in range(g.many(rng, rng.randint(1, 4), 0.03))],
                flags=rng.randrange(4096), pad=rng.choice([0, 0, 1, 8, 9, 10, 20]), coding=rng.choice(["gzip", "x-gzip", "GZIP"]),
            )
        elif what == "pass":
            case["coding"] = rng.choice(["identity", "deflate", "zstd", "compress", "foo", "gzipx", "xgzip", "dcb", "identity, foo"])
        else:
            case.update(
                level=rng.choice([0, 1, 6, 9]), stack=[rng.choice(["gzip", "br"]) for _ in range(rng.choice([0, 0, 1, 2]))],
                pos=rng.random(), byte=rng.randrange(256), cut=rng.random() < 0.4,
                coding=rng.choice(["gzip", "gzip", "x-gzip", "GZip"]) if what == "gzip" else rng.choice(["br", "br", "Br"]),
            )
            if rng.random() < 0.2:
                case["pos"] = rng.random() * 0.01
        if what == "gzip":
            case.update(
                flags=rng.randrange(32), extra=rng.choice(["", "x", "\x00\x01", "y" * 300]), name=rng.choice(["", "a.txt", "\xe9"]),
                comment=rng.choice(["", "hello", "\xff" * 20]), mtime=rng.choice([0, 1700000000]),
            )
        yield case
