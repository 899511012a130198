"""C01: linting never fails, whatever the message and lifecycle."""

import encodings.aliases
import io
import sys

from mon import borrow, drive
from mon import gen as g

PROPERTY = "C01"
RULE = (
    "messages and exchanges with plausible, mutated and hostile fields, toplines, bodies, trailers, times; "
    "every result attribute and every note's summary/detail is read; non-trivial: at least one field or body "
    "byte was processed; distinct by case"
)
SIZES = {"quick": 1500, "thorough": 20000}
REQUIRE = {"messages": 2000, "notes_rendered": 20000, "kind:note": 250, "kind:field": 110}
TIMEOUT_IS_VIOLATION = True


def read_everything(ctx, linter):
    for note in drive.all_notes(linter):
        summary, detail = note.summary, note.detail
        str(note)
        ctx.count("notes_rendered")
        ctx.seen("note", type(note).__name__)
        if not isinstance(summary, str) or not isinstance(str(detail), str):
            ctx.violation("note-not-text", f"{type(note).__name__} did not render to text")
    for section in (linter.headers, linter.trailers):
        for name, val in section.parsed.items():
            ctx.seen("field", name)
            drive.norm(val)
    repr(linter)
    linter.decoded.length, linter.decoded.hash, linter.content_hash, linter.content_sample


def check(ctx, case):
    # nothing may be written to the standard streams by linting
    out, err = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = buf = io.StringIO()
    try:
        linters = drive.linters(case)
        for linter in linters:
            read_everything(ctx, linter)
    finally:
        sys.stdout, sys.stderr = out, err
    ctx.expect(not buf.getvalue(), "writes-to-stdio", lambda: f"linting printed {buf.getvalue()[:200]!r}")
    ctx.count("messages", len(linters))
    if any(m and (m.get("h") or m.get("body")) for m in (case.get("req"), case.get("resp"))):
        ctx.distinct_case(case)
    ctx.sample(case)


# what Python has a codec for, whether it's for text or not
CODECS = sorted(set(encodings.aliases.aliases.values()) | {"undefined", "idna", "punycode", "unicode_escape", "raw_unicode_escape", "utf-8-sig", "mbcs", "oem", "a\0b", "\0", "../x", "a" * 300, "caf\xe9", "utf-8\0"})


def gen(rng, ctx):
    # one hostile value in every known field, then whole messages
    for i, name in enumerate(g.NAMES + g.EXTRA_NAMES):
        if i % ctx.workers != ctx.worker:
            continue
        for _ in range(60 if ctx.thorough else 12):
            kind = g.FIELDS[name][0] if name in g.FIELDS else rng.choice([g.REQ, g.RES])
            if kind == g.BOTH:
                kind = rng.choice([g.REQ, g.RES])
            val = g.FIELDS[name][1](rng) if name in g.FIELDS else "x"
            val = g.mutate(rng, val) if rng.random() < 0.5 else g.hostile_value(rng)
            msg = g.message(rng, kind, 1)
            msg["h"].append([name, g.to_latin1(val)])
            yield {kind: msg}
    # the words of each known field in every combination and with every type
    for i, name in enumerate(g.NAMES):
        if i % ctx.workers != ctx.worker:
            continue
        for _ in range(6000 if ctx.thorough else 700):
            kind = g.FIELDS[name][0] if g.FIELDS[name][0] != g.BOTH else rng.choice([g.REQ, g.RES])
            yield {kind: {"h": [[name, g.to_latin1(g.worded(rng, name))] for _ in range(rng.choice([1, 1, 1, 2]))], "body": [], "t": g.start_time(rng)}}
    # content that is sniffed in each way
    for _ in range(400 if ctx.thorough else 60):
        kind = rng.choice(["unknown/unknown", "application/unknown", "*/*", "text/html", "image/png", "image/", "audio/mpeg", "video/webm", "text/plain; charset=" + rng.choice(["utf-8", "rot13", "idna", "punycode", "utf-7", "zlib", "undefined"])])
        start = rng.choice(["\x1aE\xdf\xa3\x01B\x82\x84webm", "\x1aE\xdf\xa3", "\xff\xfb\x90\x44", "ID3\x03", "\0\0\0\x18ftypmp42", "OggS\0", "<!-- ", "<rss", "<rdf:RDF ", "\xef\xbb\xbf<feed", "\x89PNG\r\n\x1a\n", "PK\3\4", "caf\xe9"])
        body = start + "".join(chr(rng.randrange(256)) for _ in range(rng.choice([0, 3, 50, 9000])))
        yield {"resp": {"h": [["Content-Type", kind]], "body": g.chunk(rng, body) if len(body) < 1000 else [body]}}
    for i, charset in enumerate(CODECS):
        if i % ctx.workers == ctx.worker:
            for body in ("caf\xe9 " * 20, "\xff\xfe\x80abc", "xn--\x80.\xe9", "\\u12\x80", "A" * 8191 + "\xe9"):
                yield {"resp": {"h": [["Content-Type", f"text/plain; charset={charset}"]], "body": [body]}}
    for _ in range(ctx.size):
        yield g.exchange(rng)
    for _ in range(ctx.size // 4):
        case = borrow.some(rng, ctx)
        for msg in case.values():
            for line in msg["h"]:
                if rng.random() < 0.3:
                    line[1] = g.to_latin1(g.mutate(rng, line[1]))
        yield case

