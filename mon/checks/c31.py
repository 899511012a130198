"""C31: limits on size, and characters that can't be where they are, are reported."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C31"
RULE = (
    "field lines, header and trailer sections, URIs and Server values a little below, at and above their limits, made of one or many parts; field names and values, status phrases with and without bytes that aren't ASCII; "
    "distinct by sizes and parts"
)
SIZES = {"quick": 500, "thorough": 6000}
REQUIRE = {
    "lines": 1000, "lines_over": 300, "lines_at": 60, "sections": 400, "sections_over": 120, "sections_at": 40, "uris": 250, "uris_over": 80, "uris_at": 20, "servers": 250, "servers_over": 80, "servers_at": 20, "encodings": 400,
    "name_encoding": 60, "value_encoding": 100, "phrase_encoding": 40, "trailers": 200, "kind:field": 60, "distinct": 1200,
}
LINE, SECTION, URI, SERVER = 8192, 32768, 8000, 64
FILLER = ["a", "b1", "x, y ", "\xe9", "z;"]


def around(r, limit):
    return max(1, limit + r.choice([-1, 0, 1, -1, 0, 1, -2, 2, 3, -7, 13, -limit // 2, limit // 3, limit]))


def fill(r, size):
    unit = r.choice(FILLER)
    return (unit * (size // len(unit) + 1))[:size]


def gen(rng, ctx):
    for i in range(ctx.size):
        pick = i % 10
        kind = rng.choice(["req", "resp"])
        where = rng.choice(["h", "h", "tr"])
        if pick in (0, 1, 2):
            pairs = []
            for _ in range(rng.randint(1, 3)):
                name = g.vary_case(rng, rng.choice(g.NAMES + ["x-foo", "Foo"] * 12))
                if rng.random() < 0.1:
                    name += "\xe9"
                size = around(rng, LINE)
                pairs.append([name, fill(rng, size - len(name)) if rng.random() < 0.8 else "a"])
            yield {"k": "lines", "kind": kind, "where": where, "pairs": pairs}
        elif pick in (3, 4):
            total = around(rng, SECTION)
            pairs, at = [], 0
            step = rng.choice([100, 700, 5000, 8000])
            while at < total:
                name = f"x-{len(pairs)}" if rng.random() < 0.8 else rng.choice(["X", "Y-Y"])
                size = min(max(step, len(name)), total - at)
                if rng.random() < 0.03:
                    name += "\xe9" * rng.choice([1, 2, 40])
                if size < len(name):
                    name = "xxxxxxxxx"[:size]
                if rng.random() < 0.1 and size > len(name):  # a line without a value
                    pairs.append([name, ""])
                    at += len(name)
                    continue
                pairs.append([name, fill(rng, size - len(name))])
                at += size
            yield {"k": "section", "kind": kind, "where": where, "pairs": pairs}
        elif pick in (5, 6):
            size = around(rng, URI)
            base = rng.choice(["http://example.com/", "https://a/?", "http://www.example.org/a/b?c="])
            yield {"k": "uri", "uri": (base + rng.choice(["a", "b/", "c=d&", "%20"]) * size)[:size] if rng.random() < 0.9 else (base + "\xc3\xa9" * (size // 6))}
        elif pick == 7:
            size = around(rng, SERVER)
            yield {"k": "server", "value": (rng.choice(["Apache/2.4.1 ", "a/1 b/2 ", "nginx "]) * 30)[: size - 1] + "x"}
        else:
            name = g.vary_case(rng, rng.choice(["X-Foo", "Server", "Set-Cookie", "Link", "Foo", "Location"]))
            yield {"k": "encoding", "kind": "resp", "where": where, "name": name if rng.random() < 0.7 else name[:2] + rng.choice(["\xe9", "\xc3\xa9", "\xff", "\x80"]) + name[2:],
                   "value": "a" + rng.choice(["", "", "\xe9", "\xc3\xa9", "\x80", "\xff", "\t", "~", "!"]) + "b", "phrase": "OK" + rng.choice(["", "", " then", "\xe9", "\x80", "\xff", "~", "\t"]), "status": rng.choice(["200", "200", "404", "999", "099", "000", "2x0", "-1", "", "2000"])}


def number(text):
    return int(str(text).replace(",", "").replace(".", "").replace(" ", ""))


def ask(case, pairs):
    kw = {"h": pairs} if case["where"] == "h" else {"h": [], "tr": pairs}
    if case["kind"] == "req":
        return drive.run({"req": kw})[0]
    return drive.run({"resp": dict(kw, p=case.get("phrase", "OK"), s=case.get("status", "200"))})[1]


def check(ctx, case):
    kind = case["k"]
    if kind in ("lines", "section"):
        pairs = case["pairs"]
        ctx.count("trailers", case["where"] == "tr")
        linter = ask(case, pairs)
        sizes = [len(n) + len(v) for n, v in pairs]
        got = sorted((n.subject, number(n.vars["field_size"])) for n in linter.notes if type(n).__name__ == "FIELD_TOO_LARGE")
        over = [(f"offset-{i}", size) for i, size in enumerate(sizes) if size > LINE]
        names = {n.lower() for n in drive.names(linter)}
        # a line that's ignored because it's in the wrong place has no other note
        skipped = {n.subject for n in linter.notes if type(n).__name__ in ("REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST")}
        skipped |= {f"offset-{i}" for i, (n, _) in enumerate(pairs) if not n.isascii()}  # nor has one whose name isn't a token
        want = sorted(o for o in over if o[0] not in skipped)
        got = [o for o in got if o[0] not in skipped]
        ctx.expect(got == want, "FIELD_TOO_LARGE", lambda: f"lines of {sizes} bytes ({[n for n, _ in pairs][:4]}) are reported as too large: {got}, not {want} {sorted(names)[:3]}")
        total = sum(sizes)
        got = [(number(n.vars["section_size"]), n.vars["field_type"]) for n in linter.notes if type(n).__name__ == "FIELD_SECTION_TOO_LARGE"]
        want = [(total, "trailer" if case["where"] == "tr" else "header")] if total > SECTION else []
        ctx.expect(got == want, "FIELD_SECTION_TOO_LARGE", lambda: f"a {case['where']} section of {total} bytes in {len(pairs)} lines is reported as too large: {got}")
        section = linter.headers if case["where"] == "h" else linter.trailers
        ctx.expect(section.size == total, "size", lambda: f"the size of a section of {total} bytes is {section.size}")
        if kind == "lines":
            ctx.count("lines", len(pairs))
            ctx.count("lines_over", len(over))
            ctx.count("lines_at", sum(size in (LINE, LINE + 1) for size in sizes))
            for name, _ in pairs:
                ctx.seen("field", name.lower())
        else:
            ctx.count("sections")
            ctx.count("sections_over", total > SECTION)
            ctx.count("sections_at", total in (SECTION, SECTION + 1))
        ctx.distinct_case([kind, case["kind"], case["where"], sizes])
    elif kind == "uri":
        linter = drive.request([], u=case["uri"])
        size = len(linter.uri)
        got = [number(n.vars["uri_len"]) for n in linter.notes if type(n).__name__ == "URI_TOO_LONG"]
        ctx.count("uris")
        ctx.count("uris_over", size > URI)
        ctx.count("uris_at", size in (URI, URI + 1))
        ctx.expect("\xc3" in case["uri"] or size == len(case["uri"]), "uri-length", lambda: f"a URI of {len(case['uri'])} characters has {size}")
        ctx.expect(got == ([size] if size > URI else []), "URI_TOO_LONG", lambda: f"a URI of {size} characters is reported as too long: {got}")
        ctx.distinct_case(["uri", size, case["uri"][:30]])
    elif kind == "server":
        linter = drive.response([["Server", case["value"]]])
        size = len(case["value"])
        got = [n.vars["server_length"] for n in linter.notes if type(n).__name__ == "SERVER_TOO_LONG"]
        ctx.count("servers")
        ctx.count("servers_over", size > SERVER)
        ctx.count("servers_at", size in (SERVER, SERVER + 1))
        ctx.expect(len(got) == (size > SERVER), "SERVER_TOO_LONG", lambda: f"a Server of {size} characters is reported as long: {got}")
        if got:
            ctx.expect(number(got[0].split()[0]) == size, "server-length", lambda: f"a Server of {size} characters is said to have {got[0]}")
        ctx.distinct_case(["server", case["value"]])
    else:
        linter = ask(case, [["X-First", "a"], [case["name"], case["value"]]])
        ctx.count("encodings")
        for note, odd in (("FIELD_NAME_ENCODING", case["name"]), ("FIELD_VALUE_ENCODING", case["value"])):
            want = ["offset-1"] if not odd.isascii() else []
            got = [n.subject for n in linter.notes if type(n).__name__ == note]
            ctx.count("name_encoding" if "NAME" in note else "value_encoding", bool(want))
            ctx.expect(got == want, note, lambda: f"{case['name']!r}: {case['value']!r} has {note} for {got}, not {want}")
        want = not case["phrase"].isascii()
        ctx.count("phrase_encoding", want)
        got = [n.subject for n in linter.notes if type(n).__name__ == "STATUS_PHRASE_ENCODING"]
        ctx.expect(got == (["status"] if want else []), "STATUS_PHRASE_ENCODING", lambda: f"the phrase {case['phrase']!r} has STATUS_PHRASE_ENCODING for {got}")
        ctx.expect(
            case["kind"] == "req" or not want or len(linter.status_phrase or "") == len(case["phrase"]) and all(x == y or not y.isascii() for x, y in zip(linter.status_phrase, case["phrase"])),
            "phrase", lambda: f"the phrase {case['phrase']!r} is {linter.status_phrase!r}",
        )
        ctx.expect(want or linter.status_phrase == case["phrase"], "phrase", lambda: f"the phrase {case['phrase']!r} is {linter.status_phrase!r}")
        section = linter.headers if case["where"] == "h" else linter.trailers
        ctx.expect(section.text[1][1] == case["value"], "text", lambda: f"the value {case['value']!r} is {section.text[1][1]!r} in text")
        ctx.distinct_case([case["name"], case["value"], case["phrase"]])
