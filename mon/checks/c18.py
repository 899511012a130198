"""C18: Structured Fields are read as RFC 9651 says."""

import re

from mon import abnf as a
from mon import drive
from mon import gen as g
from mon import sf

PROPERTY = "C18"
RULE = (
    "items, lists and dictionaries of every bare type, inner lists and parameters, at the limits of numbers and lengths; plausible values of each field; and the same "
    "after edits of one to three characters, divided into lines, with duplicate keys, in each field that is a Structured Field; distinct by field and value"
)
SIZES = {"quick": 5000, "thorough": 70000}
FIELDS = {
    "Accept-CH": "list", "Accept-Query": "list", "Available-Dictionary": "item", "Cache-Group-Invalidation": "list", "Cache-Groups": "list", "Cache-Status": "list",
    "CDN-Cache-Control": "dict", "Cross-Origin-Embedder-Policy": "item", "Cross-Origin-Embedder-Policy-Report-Only": "item", "Cross-Origin-Opener-Policy": "item",
    "Cross-Origin-Opener-Policy-Report-Only": "item", "Deprecation": "item", "Permissions-Policy": "dict", "Proxy-Status": "list", "Reporting-Endpoints": "dict",
    "Speculation-Rules": "list", "Use-As-Dictionary": "dict",
}
REQUIRE = {"pointed": 3000, "good": 10000, "bad": 8000, "kind:field": len(FIELDS), "kind:bad_in": len(FIELDS), "kind:type": 9, "duplicates": 1000, "lines": 3000, "inner": 1500}
GENERIC = {"STRUCTURED_FIELD_PARSE_ERROR", "DUPLICATE_KEY"}
# notes about other things that are on these fields
OTHER = {"FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "CORS_PREFLIGHT_ONLY"}
CHARS = "".join(chr(c) for c in range(32, 127)) + '\t\x00\x1f\x7f\x80\xa0\xe9\xff()";,=:?@%*-.\\'


def number(r):
    return r.choice(["0", "-0", "00", "-1", "999999999999999", "1000000000000000", "-999999999999999", "123456789012.5", "1234567890123.5", "1.2345", "1.", ".5", "-.5", "-", "0.000", "-0.0", "1.5.5", "+1", "1e5"])


def value(r, kind):
    p = r.random()
    if p < 0.1:
        bare = number(r) if r.random() < 0.7 else "@" + number(r)
        return {"item": bare, "list": bare + ", a;b=" + bare, "dict": "a=" + bare + ";c=" + bare}[kind]
    if p < 0.13:
        return r.choice(["", " ", ",", "()", "(", "a=()", "a, b", "a=1, b", "?2", "?", "@", ":", "::", "%", '%"', '%"%ff"', '%"%e4"', '%"%C3%a9"', '"', '"\\a"', "a;", "a; b", "a ;b", "a;b =1", "a=", "a= 1", "( a)", "(a  b )", "(a\tb)", "(a,b)"])
    text = {"item": a.sf_item, "list": a.sf_list, "dict": a.sf_dict}[kind](r)
    if p < 0.25 and kind == "dict":  # duplicates
        key = a.sf_key(r)
        text = f"{key}={a.sf_item(r)}, {text}, {key}" + r.choice(["", "=" + a.sf_item(r)])
    elif p < 0.25:
        key = a.sf_key(r)
        text += f";{key}=1;{key}" + r.choice(["", "=" + a.sf_bare(r)])
    return text


def edit(r, text):
    for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
        i = r.randint(0, len(text))
        p = r.random()
        if p < 0.4:
            text = text[:i] + r.choice(CHARS) + text[i:]
        elif p < 0.7:
            text = text[:i] + text[i + 1 :]
        elif p < 0.9:
            text = text[:i] + r.choice(CHARS) + text[i + 1 :]
        else:
            text = text[:i] + text[i : i + 3].swapcase() + text[i + 3 :]
    return text


def gen(r, ctx):
    for _ in range(ctx.size):
        field = r.choice(sorted(FIELDS))
        kind = FIELDS[field]
        p = r.random()
        if p < 0.25 and field in g.FIELDS:
            text = g.to_latin1(g.FIELDS[field][1](r))
        else:
            text = value(r, kind)
        if r.random() < 0.35:
            text = g.to_latin1(edit(r, text))
        lines = [text]
        if r.random() < 0.2 and "," in text:
            cut = r.choice([i for i, c in enumerate(text) if c == ","])
            lines = [text[:cut], text[cut + 1 :]]
        elif r.random() < 0.05:
            lines.append(value(r, kind))
        yield {"field": field, "lines": [a.ows(r) + x + a.ows(r) if r.random() < 0.2 else x for x in lines]}


def types(val):
    if isinstance(val, tuple) and len(val) == 2 and isinstance(val[0], str):
        yield val[0]
    elif isinstance(val, dict):
        for v in val.values():
            yield from types(v)
    elif isinstance(val, (list, tuple)):
        if isinstance(val, tuple) and isinstance(val[0], list):
            yield "inner"
        for v in val:
            yield from types(v)


def check(ctx, case):
    field, lines = case["field"], case["lines"]
    kind = FIELDS[field]
    text = ", ".join(x.strip(" \t") for x in lines)
    try:
        want, dups = sf.parse(text, kind)
    except sf.Undecided:
        ctx.count("undecided")
        return
    except sf.Bad:
        want = None
    msg = {"h": [[field, x] for x in lines], "t": 1700000000.0}
    linter = drive.run({"req": msg})[0] if field == "Available-Dictionary" else drive.run({"resp": msg})[1]
    got = drive.parsed(linter, field.lower())
    names = drive.names(linter, "field-" + field.lower())
    ctx.distinct_case([field, lines])
    ctx.sample([field, lines])
    ctx.seen("field", field)
    ctx.count("lines", len(lines) > 1)
    if want is None:
        ctx.count("bad")
        ctx.seen("bad_in", field)
        ctx.expect(names.count("STRUCTURED_FIELD_PARSE_ERROR") == 1, "missed", lambda: f"{field}: {text!r:.300} isn't a {kind}, but has notes {names}")
        for note in linter.notes:
            if type(note).__name__ == "STRUCTURED_FIELD_PARSE_ERROR" and note.vars["context"]:
                shown = re.match(r"\n\n    (.*)\n    ( *)\^\Z", str(note.vars["context"]), re.S)
                ctx.count("pointed")
                ctx.expect(
                    bool(shown) and (shown[1] in text if len(shown[2]) < len(shown[1]) else text.endswith(shown[1]) and len(shown[2]) == len(shown[1])), "pointed",
                    lambda: f"{field}: {text!r:.300} is said to have its problem at {note.vars['context']!r}",
                )
        ctx.expect(got is None, "bad-value", lambda: f"{field}: {text!r:.300} isn't a {kind}, but was read as {got!r:.300}")
        extra = set(names) - GENERIC - OTHER
        ctx.expect(not extra, "bad-evaluated", lambda: f"{field}: {text!r:.300} isn't a {kind}, but it also has notes {sorted(extra)}")
        return
    ctx.count("good")
    for t in types(want):
        ctx.seen("type", t)
        ctx.count("inner", t == "inner")
    ctx.expect("STRUCTURED_FIELD_PARSE_ERROR" not in names, "false", lambda: f"{field}: {text!r:.300} is a {kind}, but was reported")
    shown = None if got is None else sf.norm(got, kind)
    if field == "Accept-Query":  # its media types are case-insensitive
        shown, want = [[((v[0], v[1].lower()) if isinstance(v, tuple) and v[0] in ("string", "token") else v, p) for v, p in x] for x in (shown, want)]
    ctx.expect(shown == want, "value", lambda: f"{field}: {text!r:.300} was read as {shown!r:.300}, not {want!r:.300}")
    ctx.count("duplicates", len(dups))
    reported = sorted(n.vars["key"] for n in linter.notes if type(n).__name__ == "DUPLICATE_KEY")
    ctx.expect(reported == sorted(k for _, k in dups), "duplicates", lambda: f"{field}: {text!r:.300} has duplicates {dups}, but those reported are {reported}")
