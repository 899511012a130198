"""C06: the order of fields with different names doesn't matter."""

from mon import borrow, drive
from mon import gen as g

PROPERTY = "C06"
RULE = (
    "messages and exchanges with several fields (related fields preferred) are linted again with their header and trailer "
    "lines reordered, keeping the order of lines with the same name; non-trivial: at least three different names; distinct by "
    "the fields"
)
SIZES = {"quick": 3000, "thorough": 12000}
REQUIRE = {"reorderings": 8000, "trailer_reorderings": 600, "notes": 50000, "kind:note": 200, "distinct": 2000}

# fields whose checks look at other fields, put together
RELATED = [
    ["Date", "Age", "Expires", "Last-Modified", "Cache-Control", "Vary", "ETag", "Pragma", "CDN-Cache-Control", "Warning"],
    ["Content-Length", "Transfer-Encoding", "Trailer", "Connection", "TE", "Upgrade"],
    ["Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers", "Cookie", "Authorization", "Host"],
    ["Access-Control-Allow-Origin", "Access-Control-Allow-Credentials", "Access-Control-Allow-Methods", "Access-Control-Allow-Headers",
     "Access-Control-Max-Age", "Vary", "Access-Control-Expose-Headers"],
    ["Content-Type", "Content-Encoding", "Content-Language", "Content-Location", "Content-Range", "Content-Disposition", "X-Content-Type-Options"],
    ["Deprecation", "Sunset", "Link", "Date"],
    ["NEL", "Report-To", "Reporting-Endpoints", "Content-Security-Policy", "Content-Security-Policy-Report-Only", "X-Frame-Options",
     "Cross-Origin-Opener-Policy", "Cross-Origin-Embedder-Policy"],
    ["If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range", "Range", "Date"],
    ["Set-Cookie", "Date", "Strict-Transport-Security", "Expires", "Cache-Control"],
    ["Accept-CH", "Vary", "Critical-CH", "Accept-Encoding", "Accept-Language"],
    ["Use-As-Dictionary", "Available-Dictionary", "Vary", "Cache-Control", "Content-Encoding"],
    ["Location", "Retry-After", "Allow", "WWW-Authenticate", "Proxy-Authenticate", "Content-Range", "Upgrade", "ETag", "Accept-Ranges"],
]


def reorder(pairs, order):
    "Permute the lines, keeping those with one (normalised) name in order -> lines, new index -> old index"
    names = [p[0].encode("ascii", "ignore").decode("ascii").strip().lower() for p in pairs]
    queues = {}
    for i, n in enumerate(names):
        queues.setdefault(n, []).append(i)
    out, back = [], []
    for old in order:
        i = queues[names[old]].pop(0)
        out.append(pairs[i])
        back.append(i)
    return out, back


def tuple_mapped(note, back):
    subject = note[0]
    if subject.startswith("offset-"):
        subject = f"offset-{back[int(subject[7:])]}"
    return (subject,) + note[1:5] + (tuple(tuple_mapped(n, back) for n in note[5]),)


def snapshot(linter, back_h, back_t):
    notes = []
    for note in drive.notes_of(linter):
        notes.append(repr(tuple_mapped(note, back_h)))
    out = {
        "notes": sorted(notes),
        "headers": {k: repr(drive.norm(v)) for k, v in linter.headers.parsed.items()},
        "trailers": {k: repr(drive.norm(v)) for k, v in linter.trailers.parsed.items()},
        "character_encoding": linter.character_encoding,
        "content": (linter.content_length, linter.content_hash, linter.decoded.length, linter.decoded.hash, linter.content_sample),
        "size": (linter.headers.size, linter.trailers.size),
    }
    if linter.message_type == "response":
        c = linter.caching
        out["caching"] = (
            c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared,
        )
    return out


def check(ctx, case):
    base, other = {}, {}
    backs = {}
    for kind in ("req", "resp"):
        if kind not in case:
            continue
        msg = case[kind]
        base[kind] = msg
        moved = dict(msg)
        part = "tr" if msg.get("tr") else "h"  # only one has lines, so offsets can't be confused
        moved[part], backs[kind] = reorder(msg.get(part) or [], case["order"][kind])
        if part == "tr":
            ctx.count("trailer_reorderings")
        other[kind] = moved
    one = drive.run(base)
    two = drive.run(other)
    for kind, first, second in zip(("req", "resp"), one, two):
        if first is None:
            continue
        ident = list(range(1000))
        a = snapshot(first, ident, ident)
        b = snapshot(second, backs[kind], backs[kind])
        ctx.count("notes", len(a["notes"]))
        for n in first.notes:
            ctx.seen("note", type(n).__name__)
        ctx.count("reorderings")
        for key in a:
            if a[key] == b[key]:
                ctx.count("assertions")
                continue
            if key == "notes":
                gone = [n for n in a[key] if n not in b[key]]
                new = [n for n in b[key] if n not in a[key]]
                what = f"notes only in one order: {gone[:3]}; only in the other: {new[:3]}"
                mech = "notes:" + ",".join(sorted({n.split("'")[3] if n.count("'") > 3 else n[:30] for n in gone + new}))[:80]
            else:
                what = f"{key}: {a[key]!r:.500} against {b[key]!r:.500}"
                mech = key
            ctx.expect(
                False, mech,
                lambda: f"order of fields matters: {what}; lines {(base[kind].get("h") or base[kind].get("tr"))!r:.500} reordered as {backs[kind]}",
            )
    names = {p[0].lower() for k in base for p in (base[k].get("h") or base[k].get("tr") or [])}
    if len(names) >= 3:
        ctx.distinct_case([(base[k].get("h") or base[k].get("tr") or []) for k in base])
        ctx.sample(case)


def related(r, kind):
    names = [n for n in r.choice(RELATED) if n not in g.FIELDS or g.FIELDS[n][0] in (g.BOTH, kind)] or ["Date"]
    out = []
    for _ in range(g.many(r, r.randint(2, 7))):
        name = r.choice(names)
        value = g.FIELDS[name][1](r) if name in g.FIELDS else g.hostile_value(r)
        if r.random() < 0.15:
            value = g.mutate(r, value)
        out.append([g.vary_case(r, name), g.to_latin1(value)])
    return out


def gen(rng, ctx):
    for _ in range(ctx.size):
        case = borrow.some(rng, ctx) if rng.random() < 0.4 else g.exchange(rng, 7, 0.15)
        for kind in ("req", "resp"):
            if kind not in case:
                continue
            if rng.random() < 0.8:
                extra = related(rng, kind)
                case[kind]["h"] = extra + [h for h in case[kind]["h"] if rng.random() < 0.5]
                rng.shuffle(case[kind]["h"])
            # trailers have offsets of their own, which would be confused with the headers'
            case[kind].pop("tr", None)
            if rng.random() < 0.15:
                case[kind]["tr"], case[kind]["h"] = case[kind]["h"], []
        for _ in range(2):
            case["order"] = {}
            for kind in ("req", "resp"):
                if kind in case:
                    order = list(range(len(case[kind].get("tr") or case[kind]["h"])))
                    rng.shuffle(order)
                    if rng.random() < 0.2:
                        order = sorted(order, reverse=True)
                    case["order"][kind] = order
            yield dict(case)
