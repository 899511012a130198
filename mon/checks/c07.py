"""C07: fields are recognised by name, whatever its case; nothing else is."""

import httplint

from mon import drive
from mon import gen as g
from mon.data.fields import ALIASES, FIELDS, UNNECESSARY

PROPERTY = "C07"
RULE = (
    "each supported field name (and alias) in random cases and white space, and names one edit away from a supported one or "
    "taken from the implementation's own vocabulary, some with characters that aren't ASCII, with valid and mutated values; distinct by name as sent"
)
SIZES = {"quick": 1500, "thorough": 20000}

KNOWN = sorted(FIELDS) + sorted(ALIASES) + UNNECESSARY
LOWER = {n.lower() for n in KNOWN}
REQUIRE = {"cases_compared": 4000, "near_misses": 2000, "tokens": 1000, "not_tokens": 500, "not_ascii": 200, "kind:known": len(KNOWN), "descriptions": 4000}
NOT_TOKEN = list(' ()<>@,;:\\"/[]?={}\0\x7f\x01') + ["\t", " b", ": x"]
TCHAR = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~")
INTERNAL = [
    "accept_encoding", "from_field", "from-field", "content_length", "x_pad", "utils", "tests", "finder", "deprecated", "unnecessary", "__init__", "parsers",
    "__doc__", "__name__", "sys", "re", "cors", "section", "HttpField", "syntax", "..age", ".age", "age.", "parsers.age", "a", "-", "_", "content--type",
    "connectiox-", "set_cookie", "tests-", "description", "json-field", "list_field",
]
BASE = {
    "resp": [["Date", "Tue, 14 Nov 2023 22:13:20 GMT"], ["Cache-Control", "max-age=60"], ["Content-Type", "text/html"]],
    "req": [["User-Agent", "x/1"], ["Host", "www.example.com"], ["Accept", "*/*"]],
}


def fold(note):
    "A note, without regard to case; notes about encoding show the name as sent."
    if note[1] in ("FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING"):
        note = note[:2]
    return repr(note).lower()


def lint(kind, lines):
    msg = {"h": lines, "t": 1700000000.0}
    return drive.run({kind: msg})[0 if kind == "req" else 1]


def described(ctx, name):
    try:
        return httplint.get_field_description(name)
    except Exception as why:  # pylint: disable=broad-except
        ctx.violation("description-raises", f"describing {name!r} raises {why!r}")
        return None


def snap(linter, name):
    key = name.encode("latin-1").decode("ascii", "replace").strip().lower()
    out = {
        "known": key in linter.headers.parsed,
        "parsed": repr(drive.norm(linter.headers.parsed.get(key))),
        "notes": sorted(fold(n) for n in drive.notes_of(linter)),
        "others": {k: repr(drive.norm(v)) for k, v in linter.headers.parsed.items() if k != key},
    }
    if linter.message_type == "response":
        c = linter.caching
        out["caching"] = (c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared)
    return out


def check(ctx, case):
    kind, name = case["kind"], case["name"]
    ctx.distinct_case([case["wire"], case["values"][:1]])
    ctx.sample(case)
    base = BASE[kind]
    if case["known"]:
        ctx.seen("known", name)
        want = snap(lint(kind, base + [[name, v] for v in case["values"]]), name)
        linter = lint(kind, base + [[w, v] for w, v in zip(case["wire"], case["values"])])
        got = snap(linter, name)
        ctx.count("cases_compared")
        for key in want:
            ctx.expect(
                want[key] == got[key], f"{key}:{name}",
                lambda: f"{case['wire']!r} and {name!r} differ in {key}: {got[key]!r:.400} against {want[key]!r:.400}",
            )
        # The field is recognised, and shown by its usual name
        if name in FIELDS and name not in ("Cteonnt-Length",):
            for note in drive.all_notes(linter):
                field_name = note.vars.get("field_name")
                if isinstance(field_name, str) and field_name.lower().strip() == name.lower() and note.subject != f"field-{name.lower()}":
                    if type(note).__name__ in ("FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING"):
                        continue
                    ctx.expect(
                        field_name == name, f"shown:{name}", lambda: f"{case['wire']!r} shown as {field_name!r} in {type(note).__name__}"
                    )
        text = described(ctx, name)
        ctx.count("descriptions")
        ctx.expect(bool(text), f"description:{name}", lambda: f"no description of {name!r}")
        for wire in case["wire"]:
            other = described(ctx, wire.strip())
            ctx.expect(
                (other or "").lower() == (text or "").lower(), f"description-case:{name}", lambda: f"description of {wire!r}: {other!r}, not {text!r}"
            )
            ctx.expect("%(" not in (other or ""), f"description-placeholder:{name}", lambda: f"description of {wire!r} has a placeholder: {other!r:.200}")
    else:
        wire = case["wire"][0]
        ctx.count("near_misses")
        want = snap(lint(kind, base), wire)
        linter = lint(kind, base + [[wire, v] for v in case["values"]])
        got = snap(linter, wire)
        notes = [
            fold(n) for n in drive.notes_of(linter)
            if n[1] not in ("FIELD_NAME_BAD_SYNTAX", "FIELD_NAME_ENCODING", "FIELD_VALUE_ENCODING", "FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE")
        ]
        ctx.expect(
            sorted(notes) == want["notes"], "near-miss-notes",
            lambda: f"{wire!r} isn't a supported field, but changes notes: {[n for n in notes if n not in want['notes']]!r:.500}",
        )
        bad = [n.subject for n in linter.notes if type(n).__name__ == "FIELD_NAME_BAD_SYNTAX"]
        token = wire.strip(" \t")
        ctx.count("not_ascii", not token.isascii())
        if token == token.strip():
            valid = bool(token) and not set(token) - TCHAR
            ctx.count("tokens" if valid else "not_tokens")
            lines = [] if valid else [f"offset-{len(base) + i}" for i in range(len(case["values"]))]
            ctx.expect(bad == lines, "name-syntax", lambda: f"{wire!r} is {'' if valid else 'not '}a field name; the lines reported are {bad}")
        for key in ("others", "caching"):
            ctx.expect(got.get(key) == want.get(key), f"near-miss-{key}", lambda: f"{wire!r} isn't a supported field, but changes {key}")
        text = described(ctx, wire.strip())
        ctx.count("descriptions")
        ctx.expect(text is None, "near-miss-description", lambda: f"{wire!r} isn't a supported field, but is described as {text!r:.200}")


def value(r, name):
    spec = g.FIELDS.get(name)
    val = spec[1](r) if spec else r.choice(["foo", "1", "foo, bar", "*", '"x"', "a=b"])
    if r.random() < 0.2:
        val = g.mutate(r, val)
    return g.to_latin1(val)


def recase(r, name):
    pick = r.random()
    if pick < 0.2:
        name = name.lower()
    elif pick < 0.4:
        name = name.upper()
    else:
        name = "".join(r.choice([c.lower(), c.upper()]) for c in name)
    if r.random() < 0.2:
        name = r.choice(["", " ", "\t"]) + name + r.choice(["", " ", "\t", "  "])
    return name


def near(r):
    while True:
        name = r.choice(KNOWN)
        pick = r.random()
        i = r.randrange(len(name))
        if pick < 0.2:
            out = name[:i] + name[i + 1:]
        elif pick < 0.4:
            out = name[:i] + r.choice("abcxyz-_.0") + name[i:]
        elif pick < 0.55:
            out = name.replace("-", r.choice(["_", "", "--", ".", " "]))
        elif pick < 0.65:
            out = r.choice(["X-", "Sec-", "Proxy-", "_", "."]) + name
        elif pick < 0.75:
            out = name + r.choice(["s", "-", "_", "\0", ":", ".py", "-Report-Only", "2"])
        else:
            out = r.choice(INTERNAL)
        if r.random() < 0.25:  # not a token
            i = r.randrange(len(out) + 1)
            out = out[:i] + r.choice(NOT_TOKEN) + out[i:]
        elif r.random() < 0.1:
            out = r.choice([out, name])
            i = r.randrange(len(out) + 1)
            out = out[:i] + r.choice(["\xe9", "\x80", "\xf7", "\xc3\xa9", "\xad", "\xe9\xe8"]) + out[i:]
        if out.strip().lower() not in LOWER and out:
            return recase(r, out)


def gen(rng, ctx):
    for i in range(ctx.size):
        j = i * ctx.workers + ctx.worker
        if rng.random() < 0.6:
            name = KNOWN[j % len(KNOWN)]
            context = FIELDS.get(name, ("qr",))[0]
            kind = {"q": "req", "r": "resp"}[rng.choice(context)]
            values = [value(rng, name) for _ in range(rng.choice([1, 1, 2]))]
            yield {"kind": kind, "name": name, "wire": [recase(rng, name) for _ in values], "values": values, "known": True}
        else:
            yield {
                "kind": rng.choice(["req", "resp"]), "name": "", "wire": [near(rng)], "known": False, "values": [value(rng, rng.choice(list(g.FIELDS)))],
            }
