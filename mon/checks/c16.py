"""C16: a field that occurs once uses its first line, and repeats of it are reported."""

from mon import drive
from mon import gen as g
from mon import sf

PROPERTY = "C16"
RULE = (
    "messages and exchanges with fields that are defined to occur once, in header or trailer sections, before and after adding one to three more lines of some of them "
    "(the same value, another valid value, a mutated value) after the first, among other fields; distinct by the repeated fields and values"
)
SIZES = {"quick": 1500, "thorough": 20000}
ONCE = {
    "req": ["Access-Control-Request-Method", "Authorization", "Content-Length", "Content-Type", "Date", "From", "Host", "If-Modified-Since", "If-Range", "If-Unmodified-Since",
            "Max-Forwards", "Origin", "Proxy-Authorization", "Range", "Referer", "User-Agent"],
    "resp": ["Access-Control-Allow-Credentials", "Access-Control-Allow-Origin", "Access-Control-Max-Age", "Age", "Content-Disposition", "Content-Length", "Content-Location",
             "Content-Range", "Content-Type", "Cross-Origin-Resource-Policy", "Date", "ETag", "Expires", "Last-Modified", "Location", "Retry-After", "Strict-Transport-Security", "Sunset",
             "X-Frame-Options"],
}
# Structured Fields that are Items: combined lines aren't one
ITEMS = {"req": ["Available-Dictionary"], "resp": ["Cross-Origin-Embedder-Policy", "Cross-Origin-Opener-Policy", "Deprecation"]}
REQUIRE = {"repeats": 12000, "kind:field": len(ONCE["req"]) + len(ONCE["resp"]) - 3, "kind:item": 4, "different": 8000, "single": 4000, "trailers": 500, "notes_compared": 40000}
SIZE_NOTES = ("FIELD_SECTION_TOO_LARGE", "FIELD_TOO_LARGE")


def value(r, name):
    val = g.to_latin1(g.FIELDS[name][1](r))
    return g.to_latin1(g.mutate(r, val)) if r.random() < 0.25 else val


def plain(name):
    "A field name without what makes it invalid"
    return "".join(c for c in name if "!" <= c <= "~").lower()


def add_lines(r, lines, kind):
    "-> (lines with a few once-only fields, the same with repeats, index of each new line in the old ones or None)"
    names = r.sample(ONCE[kind], r.randint(1, 3))
    if r.random() < 0.15:
        names.append(r.choice(ITEMS[kind]))
    lower = [n.lower() for n in names]
    lines = [line for line in lines if plain(line[0]) not in lower]
    for n in names:
        lines.insert(r.randint(0, len(lines)), [g.vary_case(r, n), value(r, n)])
    more = [[i, line] for i, line in enumerate(lines)]
    repeated = {}
    for n in names:
        if len(names) > 1 and r.random() < 0.3:
            continue
        for _ in range(g.many(r, r.choice([1, 1, 1, 2, 3]))):
            first = min(i for i, (_, line) in enumerate(more) if line[0].strip().lower() == n.lower())
            val = more[first][1][1] if r.random() < 0.3 else value(r, n)
            more.insert(r.randint(first + 1, len(more)), [None, [g.vary_case(r, n), val]])
            repeated[n] = repeated.get(n, 0) + 1
    return lines, [line for _, line in more], [i for i, _ in more], repeated, names


def gen(r, ctx):
    for _ in range(ctx.size):
        case = {"base": g.exchange(r, maxfields=5, wild=0.1), "more": {}, "idx": {}, "rep": {}, "names": {}}
        for kind in ("req", "resp"):
            msg = case["base"].get(kind)
            if not msg:
                continue
            where = "tr" if r.random() < 0.08 else "h"
            lines, more, idx, repeated, names = add_lines(r, msg.get(where) or [], kind)
            msg[where] = lines
            case["more"][kind] = [where, more]
            case["idx"][kind] = idx
            case["rep"][kind] = repeated
            case["names"][kind] = names
        yield case


def snap(linter, idx):
    notes = []
    repeats = {}
    for note in drive.notes_of(linter):
        subject, cls = note[0], note[1]
        if cls in SIZE_NOTES:
            continue
        if cls == "SINGLE_HEADER_REPEAT":
            repeats[subject] = repeats.get(subject, 0) + 1
            continue
        if subject.startswith("offset-") and linter.trailers.text:
            continue  # those of headers and trailers can't be told apart
        if subject.startswith("offset-") and idx is not None:
            old = idx[int(subject[7:])]
            if old is None:
                continue
            note = (f"offset-{old}",) + note[1:]
        notes.append(repr(note))
    out = {
        "notes": sorted(notes),
        "parsed": {k: repr(drive.norm(v)) for k, v in linter.headers.parsed.items()},
        "trailers": {k: repr(drive.norm(v)) for k, v in linter.trailers.parsed.items()},
        "content": (linter.content_length, linter.decoded.length, linter.decoded.hash, linter.character_encoding),
    }
    if linter.message_type == "response":
        c = linter.caching
        out["caching"] = (c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared)
    return out, repeats


def joins(lines, name):
    "Whether the lines of an Item are one when they're combined (in a string that starts on one and ends on another)"
    try:
        sf.parse(", ".join(v.strip(" \t") for n, v in lines if n.strip().lower() == name.lower()), "item")
    except sf.Bad:
        return False
    except sf.Undecided:
        pass
    return True


def check(ctx, case):
    more = {k: dict(v) for k, v in case["base"].items() if v is not None}
    for kind, (where, lines) in case["more"].items():
        more[kind][where] = lines
    one, two = drive.run(case["base"]), drive.run(more)
    ctx.distinct_case([case["rep"], case["more"]])
    ctx.sample(case["more"])
    has_item = any(n in ITEMS[k] for k in case["rep"] for n in case["rep"][k])
    for kind, first, second in zip(("req", "resp"), one, two):
        if first is None:
            continue
        where, lines = case["more"][kind]
        rep = case["rep"][kind]
        a, before = snap(first, None)
        b, after = snap(second, case["idx"][kind])
        if not has_item:
            ctx.count("notes_compared", len(a["notes"]))
            for key in a:
                ctx.expect(
                    a[key] == b[key], f"repeat-{key}",
                    lambda: f"repeating {sorted(rep)} in {lines!r:.500} changes {key}: {[x for x in a[key] if x not in b[key]]!r:.300} became {[x for x in b[key] if x not in a[key]]!r:.300}",
                )
        for name in case["names"][kind]:
            subject = "field-" + name.lower()
            if name in ITEMS[kind]:
                if rep.get(name) and not joins(lines, name):
                    ctx.seen("item", name)
                    section = second.headers if where == "h" else second.trailers
                    ctx.expect(section.parsed.get(name.lower(), 0) is None, f"item:{name}", lambda: f"{name} is an Item, but two lines of it were read: {lines!r:.300}")
                    ctx.expect(
                        "STRUCTURED_FIELD_PARSE_ERROR" in drive.names(second, subject), f"item-note:{name}", lambda: f"{name} is an Item, but two lines of it aren't an error: {lines!r:.300}"
                    )
                continue
            if rep.get(name):
                ctx.count("repeats")
                ctx.count("trailers", where == "tr")
                ctx.seen("field", name)
                ctx.count("different", len({line[1] for line in lines if line[0].lower() == name.lower()}) > 1)
                ctx.expect(after.get(subject) == 1 + (before.get(subject) or 0), f"unreported:{name}", lambda: f"{name} repeats, but has {after.get(subject)} notes about it: {lines!r:.300}")
            else:
                ctx.count("single")
                ctx.expect(after.get(subject) == before.get(subject), f"false:{name}", lambda: f"{name} doesn't repeat, but is reported: {lines!r:.300}")
                if where == "h" and not (case["base"][kind].get("tr")):
                    ctx.expect(not after.get(subject), f"false1:{name}", lambda: f"{name} doesn't repeat, but is reported: {lines!r:.300}")
