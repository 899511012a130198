"""C15: integers and ranges in fields are read exactly, and nothing else is read as one."""

import re

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C15"
RULE = (
    "non-negative integers (1-1000 digits, leading zeros, each limit and its neighbours) and near-integers (signs, fractions, exponents, separators, "
    "inner white space, superscript digits, quotes) in Age, Content-Length, Access-Control-Max-Age, HSTS's max-age and each Cache-Control directive with one; "
    "ranges and near-ranges in Range and Content-Range; distinct by field and value"
)
SIZES = {"quick": 12000, "thorough": 150000}
STATUSES = ["100", "103", "201", "202", "203", "204", "205", "207", "226", "300", "301", "302", "304", "307", "308", "400", "404", "405", "412", "415", "417", "426", "451", "499", "500", "503", "599"]
CC = ["max-age", "s-maxage", "stale-if-error", "stale-while-revalidate", "min-fresh", "max-stale", "pre-check", "post-check"]
REQUIRE = {
    "integer": 15000, "not_integer": 15000, "kind:field": 7, "kind:directive": 8, "kind:why": 14, "limit": 300, "range": 5000, "not_range": 3000,
    "content_range": 3000, "not_content_range": 3000, "backwards": 1000,
}
SIMPLE = {
    # field: (notes for what's not an integer, limit, note above it)
    "Age": ({"AGE_NOT_INT", "AGE_NEGATIVE"}, 2**31, "AGE_LARGE"),
    "Content-Length": ({"CL_BAD_SYNTAX"}, 2**63 - 1, "CL_TOO_LARGE"),
    "Access-Control-Max-Age": ({"CORS_MAX_AGE_INVALID", "CORS_MAX_AGE_NEGATIVE"}, None, None),
}
LIMITS = [2**31, 2**63 - 1, 2**31 - 1, 2**32, 2**63, 2**64, 31536000]
BAD_CR = {"CONTENT_RANGE_MISSING_UNIT", "CONTENT_RANGE_MISSING_SLASH", "CONTENT_RANGE_INVALID_ASTERISK", "RANGE_MISSING_HYPHEN", "RANGE_INVALID_INTEGER"}
TOKEN = r"[!#$%&'*+\-.^_`|~0-9A-Za-z]+"
INT = re.compile(r"[0-9]+")


def good(r):
    pick = r.random()
    if pick < 0.2:
        return str(max(0, r.choice(LIMITS) + r.randint(-2, 2)))
    if pick < 0.3:
        return "0" * r.randint(0, 4) + str(r.randint(0, 9999))
    if pick < 0.32:
        return a.chars(r, "0123456789", 100, 1000) or "0"
    return a.chars(r, "0123456789", 1, r.choice([1, 2, 3, 6, 10, 12, 25]))


def bad(r):
    "-> (why, text)"
    n = good(r)
    i = r.randint(0, len(n))
    why = r.choice(["minus", "plus", "zero", "fraction", "exponent", "underscore", "space", "nbsp", "super", "hex", "quote", "comma", "letters", "empty",
                    "ctl", "semicolon", "minus_after", "double"])
    return why, {
        "minus": "-" + n, "plus": "+" + n, "zero": "-" + "0" * r.randint(1, 3), "fraction": n + "." + r.choice(["", "0", "5"]), "exponent": n + "e" + r.choice("0123"),
        "underscore": n[:i] + "_" + n[i:], "space": n + r.choice(" \t") + n, "nbsp": r.choice(["\xa0" + n, n + "\xa0", n + "\x85", n[:i] + "\xa0" + n[i:]]),
        "super": n[:i] + r.choice("\xb2\xb3\xb9\xbc\xbd") + n[i:], "hex": r.choice(["0x" + n, n + "h", "0b1", "0o7"]), "quote": r.choice([f"'{n}'", f'"{n}', f'{n}"', "`" + n]),
        "comma": n + "," + n, "letters": a.simple_token(r), "empty": "", "ctl": r.choice(["\x1f" + n, n + "\x0b", n + "\x1c", n + "\x7f"]),
        "semicolon": n + ";" + n, "minus_after": n + "-", "double": "--" + n,
    }[why]


def integer(r):
    if r.random() < 0.5:
        return "good", good(r)
    return bad(r)


def rng(r, sep="-"):
    x, y = good(r), good(r)
    if r.random() < 0.6:
        x, y = sorted((str(r.randint(0, 3000)), str(r.randint(0, 3000))), key=int)
    if r.random() < 0.15:
        y = str(int(x) + r.randint(-1, 1)).replace("-", "")
    return x, y


def gen(rng_, ctx):
    for _ in range(ctx.size):
        yield case_of(rng_)


def case_of(r):
    what = r.choice(["simple", "simple", "cc", "cc", "hsts", "range", "range", "crange", "crange"])
    if what == "simple":
        why, text = integer(r)
        return {"what": what, "name": r.choice(sorted(SIMPLE)), "text": text, "why": why, "pad": [a.ows(r), a.ows(r)]}
    if what == "cc":
        out = []
        for d in r.sample(CC, r.randint(1, 4)):
            why, text = integer(r)
            if set(text) & set(',"'):
                why, text = "good", good(r)
            out.append([d, why, text if r.random() < 0.95 else None, r.random() < 0.1])
        return {"what": what, "dirs": out, "kind": r.choice(["req", "resp"])}
    if what == "hsts":
        why, text = integer(r)
        if set(text) & set(';"'):
            why, text = "good", good(r)
        return {"what": what, "text": text, "why": why, "quoted": r.random() < 0.2, "pad": [r.choice(["", "", " "]), r.choice(["", "", " ", "\t"])],
                "rest": r.choice(["", "; includeSubDomains", "; preload", ";", "; foo=5"])}
    if what == "range":
        unit = "bytes" if r.random() < 0.8 else r.choice(["items", "Bytes", "x-y", "", "by tes", "bytes ", "b(", "bytes\xa0"])
        specs = []
        for _ in range(g.many(r, r.randint(1, 4))):
            x, y = rng(r)
            p = r.random()
            spec = x + "-" + y if p < 0.5 else x + "-" if p < 0.65 else "-" + y if p < 0.8 else x + "-" + y
            if r.random() < 0.15:
                spec = r.choice([bad(r)[1] + "-" + y, x + "-" + bad(r)[1], "-", x, "", x + "--" + y, x + " - " + y, x + "-" + y + "/", bad(r)[1]])
            specs.append((a.ows(r) if specs else "") + spec + (a.ows(r) if r.random() < 0.3 else ""))
        text = unit + "=" + ",".join(specs)
        if r.random() < 0.05:
            text = text.replace("=", r.choice(["", " ", ":", "=="]), 1)
        return {"what": what, "text": text}
    x, y = rng(r)
    z = str(int(y) + r.choice([-1, 0, 1, 1, 1, 2, 500])).replace("-", "") if r.random() < 0.8 else good(r)
    if r.random() < 0.15:
        x, y, z = [bad(r)[1] if r.random() < 0.4 else v for v in (x, y, z)]
    body = r.choice([f"{x}-{y}", f"{x}-{y}", f"{x}-{y}", "*", f"{x}", f"{x}-", f"-{y}"] if r.random() < 0.6 else [f"{x}-{y}"])
    length = z if r.random() < 0.8 else r.choice(["*", "*", "*", "", "**", z + "/" + z])
    text = r.choice(["bytes", "bytes", "bytes", "items"]) + r.choice([" "] * 20 + ["", "  ", "=", "\t", ": "]) + body + r.choice(["/"] * 20 + ["", " ", "//", " / "]) + length
    if r.random() < 0.05:
        text = r.choice([text.split(" ", 1)[-1], text.split("/")[0], "bytes", "0-1", "*/*", "bytes *"])
    return {"what": what, "text": text, "status": r.choice(["206", "206", "416", "416", "200", r.choice(STATUSES)])}


def one(ctx, name, text, notes, value, names, valid, limit, big):
    if valid:
        ctx.count("integer")
        ctx.expect(value == int(text) and not isinstance(value, bool), f"value:{name}", lambda: f"{name}: {text!r:.80} was read as {value!r:.80}")
        ctx.expect(not notes & names, f"false:{name}", lambda: f"{name}: {text!r:.80} was reported: {notes & names}")
        if limit is not None:
            if abs(int(text) - limit) < 3:
                ctx.count("limit")
            ctx.expect((big in notes) == (int(text) > limit), f"limit:{name}", lambda: f"{name}: {text!r:.80} has notes {sorted(notes)}")
    else:
        ctx.count("not_integer")
        ctx.expect(bool(notes & names), f"missed:{name}", lambda: f"{name}: {text!r:.80} isn't an integer, but notes are {sorted(notes)}")
        ctx.expect(value is None, f"novalue:{name}", lambda: f"{name}: {text!r:.80} isn't an integer, but was read as {value!r:.80}")


def check(ctx, case):
    what = case["what"]
    ctx.distinct_case(case)
    ctx.sample(case)
    if what == "simple":
        name, text = case["name"], case["text"]
        ctx.seen("field", name)
        ctx.seen("why", case["why"])
        linter = drive.response([[name, case["pad"][0] + text + case["pad"][1]]])
        bad_notes, limit, big = SIMPLE[name]
        one(ctx, name, text, set(drive.names(linter, "field-" + name.lower())), drive.parsed(linter, name.lower()), bad_notes, bool(INT.fullmatch(text)), limit, big)
    elif what == "hsts":
        text = case["text"]
        ctx.seen("field", what)
        sent = f'"{text}"' if case["quoted"] else text
        linter = drive.response([["Strict-Transport-Security", "max-age" + case["pad"][0] + "=" + case["pad"][1] + sent + case["rest"]]])
        value = drive.parsed(linter, "strict-transport-security")["max-age"]
        names = {"HSTS_BAD_MAX_AGE"}
        one(ctx, "HSTS", text, {type(n).__name__ for n in drive.all_notes(linter)}, value, names, bool(INT.fullmatch(text)), None, None)
    elif what == "cc":
        lines = [(d.upper() if up else d) + ("" if t is None else "=" + t) for d, _, t, up in case["dirs"]]
        msg = {"h": [["Cache-Control", ", ".join(lines)]]}
        linter = drive.run({case["kind"]: msg})[0 if case["kind"] == "req" else 1]
        values = dict(drive.parsed(linter, "cache-control"))
        notes = {}
        for note in linter.notes:
            if "directive" in note.vars:
                notes.setdefault(note.vars["directive"], set()).add(type(note).__name__)
        for d, why, t, _ in case["dirs"]:
            ctx.seen("directive", d)
            ctx.seen("why", why)
            if t is None and d == "max-stale":
                ctx.expect(values.get(d, 0) is None and "CC_BAD_VALUE_TYPE" not in notes.get(d, ()), "max-stale", "max-stale can be without a value")
                continue
            text = (t or "").strip(" \t")
            valid = bool(INT.fullmatch(text))
            limit, big = (None, None) if valid and int(text) == 2**31 else (2**31, "CC_MAX_AGE_TOO_LARGE")
            one(ctx, "Cache-Control", text, notes.get(d, set()), values.get(d), {"CC_BAD_VALUE_TYPE"}, valid, limit, big)
        ctx.seen("field", "cc")
    elif what == "range":
        judge_range(ctx, case["text"])
    else:
        judge_content_range(ctx, case["text"], case["status"])


def judge_range(ctx, text):
    unit, eq, rest = text.partition("=")
    specs = [s.strip(" \t") for s in rest.split(",")]
    if eq and re.fullmatch(TOKEN, unit) and rest and ("" in specs or rest[0] in " \t"):
        return  # how much of the #rule to allow is up to the recipient
    pairs = [re.fullmatch(r"([0-9]*)-([0-9]*)", s) for s in specs]
    valid = bool(eq and re.fullmatch(TOKEN, unit)) and all(p and p.group(0) != "-" for p in pairs)
    if not valid and unit.lower() != "bytes" and re.fullmatch(TOKEN, unit) and eq:
        return  # other units can have other kinds of range
    linter = drive.request([["Range", text]])
    notes = set(drive.names(linter, "field-range"))
    value = drive.parsed(linter, "range")
    ctx.seen("field", "range")
    ctx.expect(("RANGE_BAD_SYNTAX" in notes) == (not valid), "range-syntax", lambda: f"Range: {text!r:.200} has notes {sorted(notes)}")
    if valid:
        ctx.count("range")
        want = [tuple(int(g) if g else None for g in p.groups()) for p in pairs]
        ctx.expect(
            value is not None and value.unit == unit and [tuple(p) for p in value.ranges] == want, "range-value", lambda: f"Range: {text!r:.200} was read as {value!r:.300}"
        )
        back = any(x is not None and y is not None and x > y for x, y in want)
        ctx.count("backwards", back)
        ctx.expect(("RANGE_INVALID" in notes) == back, "range-order", lambda: f"Range: {text!r:.200} has notes {sorted(notes)}")
    else:
        ctx.count("not_range")
        ctx.expect(value is None, "range-novalue", lambda: f"Range: {text!r:.200} isn't one, but was read as {value!r:.300}")


def judge_content_range(ctx, text, status):
    m = re.fullmatch(rf"({TOKEN}) (?:([0-9]+)-([0-9]+)|\*)/([0-9]+|\*)", text)
    if m and m.group(2) is None and m.group(4) == "*":
        m = None
    if not m and not re.match(r"(bytes|items)( |$)", text) and " " in text:
        return  # more than one thing could be said of it
    linter = drive.response([["Content-Range", text]], s=status)
    notes = set(drive.names(linter, "field-content-range"))
    value = drive.parsed(linter, "content-range")
    ctx.seen("field", "content-range")
    where = lambda: f"Content-Range: {text!r:.200} in a {status} has notes {sorted(notes)}, value {value!r:.200}"
    ctx.expect(("CONTENT_RANGE_MEANINGLESS" in notes) == (status not in ("206", "416")), "crange-status", where)
    ctx.expect(bool(notes & BAD_CR) == (not m), "crange-syntax", where)
    if not m:
        ctx.count("not_content_range")
        ctx.expect(value is None, "crange-novalue", where)
        return
    ctx.count("content_range")
    first, last, length = [int(g) if g and g != "*" else None for g in m.groups()[1:]]
    ctx.expect(
        value is not None and (value.unit, value.first_byte_pos, value.last_byte_pos, value.complete_length) == (m.group(1), first, last, length), "crange-value", where
    )
    wrong = first is not None and (first > last or (length is not None and last >= length))
    ctx.count("backwards", wrong)
    ctx.expect(("RANGE_INVALID" in notes) == wrong, "crange-order", where)
    ctx.expect(("CONTENT_RANGE_UNKNOWN_LENGTH" in notes) == (length is None), "crange-unknown", where)
    ctx.expect(("CONTENT_RANGE_UNSATISFIED_BAD_SC" in notes) == (first is None and status == "206"), "crange-206", where)
