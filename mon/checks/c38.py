"""C38: trailer fields are linted as fields of their own, and change nothing about the rest of the message."""

from collections import Counter

from mon import borrow, drive
from mon import gen as g
from mon.checks.c06 import related
from mon.data.fields import ALIASES, FIELDS

PROPERTY = "C38"
RULE = (
    "messages and exchanges with related, random and borrowed fields, linted without trailers, with one to eight trailer fields (often the same fields as in their headers, or those that the rest depends on), and with those fields in the "
    "headers of a message of their own; non-trivial: the trailers have notes or values; distinct by fields"
)
SIZES = {"quick": 3000, "thorough": 20000}
REQUIRE = {"with_trailers": 12000, "header_notes": 60000, "trailer_notes": 20000, "values": 15000, "same_name": 6000, "kind:note": 150, "kind:field": 90, "both_sides": 1500, "caching": 5000, "in_both": 1500, "distinct": 8000}


ALIASES = {k: {"from_field": "from", "x_pad": "x-pad"}.get(v, v) for k, v in ALIASES.items()}


KNOWN = {n.lower() for n in FIELDS}


def snapshot(linter):
    out = {
        "headers": {k: repr(drive.norm(v)) for k, v in linter.headers.parsed.items()},
        "text": list(linter.headers.text),
        "character_encoding": linter.character_encoding,
        "content": (linter.content_length, linter.content_hash, linter.decoded.length, linter.decoded.hash, linter.content_sample, linter.complete),
        "size": linter.headers.size,
    }
    if linter.message_type == "response":
        c = linter.caching
        out["caching"] = (c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared)
        out["status"] = (linter.status_code, linter.status_phrase)
    else:
        out["topline"] = (linter.method, linter.uri, linter.iri)
    return out


def normal(name):
    return name.encode("latin-1").decode("ascii", "replace").strip().lower()


def aside(note):
    "A note without what depends on where the field is."
    return (note[0], note[1], note[2], note[3], tuple(v for v in note[4] if v[0] != "field_type"), tuple(aside(n) for n in note[5]))


def check(ctx, case):
    kind, lines = case["kind"], case["lines"]
    plain = {k: dict(v) for k, v in case["msgs"].items()}
    plain[kind].pop("tr", None)
    pair = ("req", "resp").index(kind)
    without = drive.run(plain)
    full = {k: dict(v) for k, v in plain.items()}
    full[kind]["tr"] = lines
    with_ = drive.run(full)
    ctx.count("with_trailers")
    names = {normal(n) for n, _ in lines}
    ctx.count("same_name", bool(names & set(without[pair].headers.parsed)))
    ctx.count("both_sides", without[1 - pair] is not None)
    show = lambda: f"trailers {lines!r:.500} with headers {plain[kind].get('h')!r:.500}"
    for i, (one, two) in enumerate(zip(without, with_)):
        if one is None:
            continue
        a, b = snapshot(one), snapshot(two)
        ctx.count("caching", "caching" in a)
        for key in a:
            ctx.expect(a[key] == b[key], f"{key}:{'same' if i == pair else 'other'}", lambda: f"{show()} change {key}: {a[key]!r:.400} to {b[key]!r:.400}")
        before, after = Counter(drive.notes_of(one)), Counter(drive.notes_of(two))
        gone, new = before - after, after - before
        ctx.count("header_notes", sum(before.values()))
        ctx.expect(not gone, "gone:" + ",".join(sorted({n[1] for n in gone}))[:80], lambda: f"{show()}: notes without them only: {list(gone)!r:.500}")
        if i != pair:
            ctx.expect(not new, "other-new:" + ",".join(sorted({n[1] for n in new}))[:80], lambda: f"{show()} of one message add notes to the other: {list(new)!r:.500}")
            continue
        subjects = {"field-" + m for n in names for m in (n, ALIASES.get(n, n))} | {f"offset-{j}" for j in range(len(lines))} | {"field-block"}
        for note, number in new.items():
            ctx.count("trailer_notes", number)
            ctx.seen("note", note[1])
            ctx.expect(
                any(s.lower() in subjects for s in note[0].split(" ")), f"subject:{note[1]}",
                lambda: f"{show()}: {note[1]} has the subject {note[0]!r}, which isn't one of the trailers",
            )
        ctx.expect(set(two.trailers.parsed) == names, "names", lambda: f"{show()}: the trailers have values for {sorted(two.trailers.parsed)}, not {sorted(names)}")
        ctx.expect(
            two.trailers.text == [(n.encode("latin-1").decode("ascii", "replace"), v) for n, v in lines], "trailer-text", lambda: f"{show()}: text is {two.trailers.text!r:.500}"
        )
        ctx.expect(not one.trailers.parsed and not one.trailers.text and not one.trailers.size, "none", lambda: f"there are no trailers, but {one.trailers.parsed!r}")
        # what the lines say is what they say in headers
        alone = {k: dict(v) for k, v in plain.items()}
        alone[kind]["h"] = lines
        lone = drive.run(alone)[pair]
        for name in sorted(names):
            if name in KNOWN:
                ctx.seen("field", name)
            ctx.count("values")
            x, y = repr(drive.norm(two.trailers.parsed.get(name))), repr(drive.norm(lone.headers.parsed.get(name)))
            ctx.expect(x == y, f"value:{name}", lambda: f"{show()}: the value of {name} is {x:.400}, but {y:.400} in headers")
        # they're the same whether or not the headers have one of them too
        both = sorted(names & set(one.headers.parsed) - {"content-encoding"})
        for name in both[:1]:
            less = {k: dict(v) for k, v in plain.items()}
            less[kind]["h"] = [h for h in plain[kind].get("h", []) if normal(h[0]) != name]
            mine = {"field-" + name, "field-" + ALIASES.get(name, name)}
            own = lambda notes: sorted(repr(aside(n)) for n in notes.elements() if n[0].lower() in mine)
            x = own(new)
            bare = Counter(drive.notes_of(drive.run(less)[pair]))
            less[kind]["tr"] = lines
            y = own(Counter(drive.notes_of(drive.run(less)[pair])) - bare)
            ctx.count("in_both", bool(x or y))
            ctx.expect(x == y, f"in-both:{name}", lambda: f"{show()}: {name} has the trailer notes {x!r:.400}, but {y!r:.400} when it isn't also a header")
        ctx.expect(two.trailers.size == lone.headers.size, "trailer-size", lambda: f"{show()}: size {two.trailers.size}, not {lone.headers.size}")
        if new or any(v is not None for v in two.trailers.parsed.values()):
            ctx.distinct_case([plain[kind].get("h"), lines])
            ctx.sample([plain[kind].get("h"), lines])


def gen(rng, ctx):
    for _ in range(ctx.size):
        msgs = borrow.some(rng, ctx) if rng.random() < 0.4 else g.exchange(rng, 7, 0.15)
        msgs = borrow.whole(msgs)
        kind = rng.choice([k for k in ("req", "resp") if k in msgs])
        if rng.random() < 0.5:
            msgs[kind]["h"] = related(rng, kind) + [h for h in msgs[kind]["h"] if rng.random() < 0.5]
        p = rng.random()
        if p < 0.35:
            lines = related(rng, kind)
        elif p < 0.55:
            lines = [g.field(rng, g.BOTH, 0.3) for _ in range(g.many(rng, rng.randint(1, 6)))]
        elif p < 0.8:
            lines = borrow.some(rng, ctx)
            lines = lines[kind]["h"] if kind in lines else related(rng, kind)
        else:
            have = msgs[kind]["h"]
            lines = [[g.vary_case(rng, rng.choice(have)[0]) if have else "Age", rng.choice(have)[1] if have and rng.random() < 0.5 else g.to_latin1(g.hostile_value(rng))] for _ in range(rng.randint(1, 4))]
        lines = [[g.to_latin1(n), g.to_latin1(v)] for n, v in lines[:20]] or [["Age", "5"]]
        yield {"msgs": msgs, "kind": kind, "lines": lines}
