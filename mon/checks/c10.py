"""C10: fields in the wrong kind of message, and deprecated fields, are reported and do nothing else."""

from mon import borrow, drive
from mon import gen as g
from mon.data.fields import FIELDS

PROPERTY = "C10"
RULE = (
    "messages and exchanges, with lines added for fields that only have meaning in the other kind of message (each such field, valid and "
    "mutated values, repeated), compared with the message without them; and messages with deprecated fields; distinct by lines"
)
SIZES = {"quick": 900, "thorough": 12000}

# RFC 9110 gives Accept-Encoding a meaning in responses as well
SKIP = {"Accept-Encoding"}
WRONG = {
    "req": sorted(n for n, (c, _) in FIELDS.items() if c == "r" and n not in SKIP),
    "resp": sorted(n for n, (c, _) in FIELDS.items() if c == "q" and n not in SKIP),
}
NOTE = {"req": "RESPONSE_HDR_IN_REQUEST", "resp": "REQUEST_HDR_IN_RESPONSE"}
DEPRECATED = sorted(n for n, (_, d) in FIELDS.items() if d)
LOWER = {n.lower(): (n, c, d) for n, (c, d) in FIELDS.items()}
REQUIRE = {
    "wrong_lines": 4000, "kind:wrong": len(WRONG["req"]) + len(WRONG["resp"]), "deprecated_lines": 1500, "kind:deprecated": len(DEPRECATED),
    "notes_compared": 10000, "fine_lines": 3000,
}
SIZE_NOTES = ("FIELD_SECTION_TOO_LARGE", "FIELD_TOO_LARGE")


def snap(linter, drop, upto):
    "What a linter shows, but for the notes with names in `drop` about lines from `upto` on, and those about size."
    notes = []
    for note in drive.notes_of(linter):
        if note[1] in SIZE_NOTES:
            continue
        if note[0].startswith("offset-") and int(note[0][7:]) >= upto and note[1] in drop:
            continue
        notes.append(note)
    out = {
        "notes": sorted(map(repr, notes)),
        "parsed": {k: repr(drive.norm(v)) for k, v in linter.headers.parsed.items() if v not in (None, [])},
        "content": (linter.content_length, linter.decoded.length, linter.decoded.hash, linter.character_encoding),
    }
    if linter.message_type == "response":
        c = linter.caching
        out["caching"] = (c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared)
    return out


def check(ctx, case):
    base = {k: case[k] for k in ("req", "resp") if k in case}
    added = {k: dict(base[k], h=base[k]["h"] + case["add"][k]) for k in base}
    one, two = drive.run(base), drive.run(added)
    ctx.distinct_case(case["add"])
    ctx.sample(case["add"])
    for kind, first, second in zip(("req", "resp"), one, two):
        if first is None:
            continue
        upto = len(base[kind]["h"])
        drop = {NOTE[kind], "FIELD_VALUE_ENCODING"}
        a, b = snap(first, drop, upto), snap(second, drop, upto)
        ctx.count("notes_compared", len(a["notes"]))
        for key in a:
            ctx.expect(
                a[key] == b[key], f"wrong-{kind}-{key}",
                lambda: f"lines that mean nothing in a {kind} {case['add'][kind]!r:.300} change {key}: "
                f"{[x for x in a[key] if x not in b[key]]!r:.300} became {[x for x in b[key] if x not in a[key]]!r:.300}",
            )
        for i, (name, _) in enumerate(case["add"][kind]):
            ctx.count("wrong_lines")
            real = LOWER[name.strip().lower()][0]
            ctx.seen("wrong", real)
            notes = [n for n in second.notes if n.subject == f"offset-{upto + i}" and type(n).__name__ == NOTE[kind]]
            ctx.expect(len(notes) == 1, f"wrong-unreported:{real}", lambda: f"{name!r} in a {kind} has notes {[type(n).__name__ for n in notes]!r}")
            if notes:
                ctx.expect(notes[0].vars.get("field_name") == real, f"wrong-name:{real}", lambda: f"{name!r} reported as {notes[0].vars.get('field_name')!r}")
        # what a note about a field is filed under doesn't depend on the rest of the message
        for note in drive.all_notes(second):
            key = (type(note).__name__, str(note.vars.get("field_name", "")))
            kind_is = type(note).category
            ctx.expect(
                note.category is kind_is or kind_is.name == "GENERAL", f"category-own:{key[0]}",
                lambda: f"{key[0]} about {key[1]} is {note.category}, but what it's a kind of is {kind_is}",
            )
            was = CATEGORY.setdefault(key, note.category)
            ctx.count("categories")
            ctx.expect(was is note.category, f"category:{key[0]}:{key[1]}"[:120], lambda: f"{key[0]} about {key[1]} is {note.category} in {case[kind]['h']!r:.600}, but has been {was}")
        # fields in the right place aren't reported, and deprecated ones are
        for i, (name, _) in enumerate(base[kind]["h"]):
            known = LOWER.get(name.strip().lower())
            names = [n.split(" ")[0] for n in drive.names(second, f"offset-{i}")]
            if known is None or not name.isascii():  # strip() takes more than white space
                continue
            right = {"req": "q", "resp": "r"}[kind] in known[1]
            ctx.count("fine_lines")
            if known[0] not in SKIP:
                ctx.expect(
                    names.count(NOTE[kind]) == (0 if right else 1), f"context:{known[0]}",
                    lambda: f"{name!r} in a {kind} has notes {names!r}",
                )
            if right:
                want = 1 if known[2] else 0
                if want:
                    ctx.count("deprecated_lines")
                    ctx.seen("deprecated", known[0])
                ctx.expect(
                    names.count("FIELD_DEPRECATED") == want, f"deprecated:{known[0]}", lambda: f"{name!r} in a {kind} has notes {names!r}",
                )

CATEGORY = {}


def value(r, name):
    spec = g.FIELDS.get(name)
    val = spec[1](r) if spec else r.choice(["foo", "1", "foo, bar", "*", '"x"', "a=b"])
    if r.random() < 0.2:
        val = g.mutate(r, val)
    return g.to_latin1(val)


def gen(rng, ctx):
    for i in range(ctx.size):
        case = borrow.some(rng, ctx) if rng.random() < 0.4 else g.exchange(rng, 6, 0.1)
        j = i * ctx.workers + ctx.worker
        case["add"] = {}
        for kind in ("req", "resp"):
            if kind not in case:
                continue
            # an alias or a mangled name in the message could be the same field as an added one
            names = [WRONG[kind][j % len(WRONG[kind])]] + [rng.choice(WRONG[kind]) for _ in range(g.many(rng, rng.randint(0, 3)))]
            case["add"][kind] = [[g.vary_case(rng, n), value(rng, n)] for n in names]
            case[kind].pop("tr", None)
            for k in range(g.many(rng, rng.randint(0, 2))):
                dep = DEPRECATED[(j + 7 * k) % len(DEPRECATED)] if k == 0 else rng.choice(DEPRECATED)
                case[kind]["h"].insert(rng.randint(0, len(case[kind]["h"])), [g.vary_case(rng, dep), value(rng, dep)])
        yield case
