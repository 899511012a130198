"""C08: a list field means the same however it's divided into lines."""

import json

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C08"
RULE = (
    "lists of valid and of mutated members for each list-based field (RFC 9110 lists, Structured Lists and Dictionaries, JSON fields) are sent in "
    "one line, one line per member, and random divisions with random white space and empty members; non-trivial: two or more members; distinct by "
    "field and members"
)
SIZES = {"quick": 4000, "thorough": 60000}

TOKENS = ["foo", "bar", "Baz", "accept", "User-Agent", "Host", "x-y", "*"]


def tok(r):
    return r.choice(TOKENS) if r.random() < 0.7 else a.simple_token(r)


def accept_encoding(r):
    return r.choice(["gzip", "br", "identity", "*", a.simple_token(r)]) + (a.weight(r) if r.random() < .4 else "")


def cc(r):
    return r.choice([
        "max-age=60", "s-maxage=10", "no-store", "no-cache", "private", "public", "must-revalidate", "proxy-revalidate", "no-transform",
        'private="set-cookie, a"', 'no-cache="b,c"', "immutable", "foo=bar", "max-age=x", "stale-if-error=5", 'x="a\\"b, c"', a.cc_directive(r),
    ])


def via(r):
    # a received-by can have commas and parentheses in it, which makes such lists ambiguous: use plain ones
    out = (a.simple_token(r) + "/" if r.random() < 0.4 else "") + r.choice(["1.0", "1.1", "2", "3"])
    out += a.rws(r) + r.choice([a.simple_token(r), "proxy.example.com", "192.0.2.1", "[::1]"]) + r.choice(["", ":8080"])
    if r.random() < 0.5:
        out += a.rws(r) + a.comment(r)
    return out


def sf_member(r):
    return a.sf_inner(r) if r.random() < 0.3 else a.sf_item(r)


def sf_dict_member(r):
    return a.sf_dict(r, 1, 1)


def json_member(r):
    return json.dumps({"group": r.choice(["a", "b, c"]), "report_to": "d", "max_age": r.choice([0, 60, "x"]), "endpoints": [{"url": r.choice(["https://e.com/", "x,y"])}]})


def csp(r):
    return "; ".join(r.choice(["default-src 'self'", "script-src 'unsafe-inline'", "img-src *", "style-src http:", "report-uri /x", "object-src *", "report-to e"]) for _ in range(r.randint(1, 3)))


# field -> (context, member generator, separator allowed to be empty-membered)
LISTS = {
    "Accept": ("req", a.accept_elem), "Accept-Encoding": ("req", accept_encoding),
    "Accept-Language": ("req", lambda r: a.lang_range(r) + (a.weight(r) if r.random() < .4 else "")),
    "Accept-Patch": ("resp", a.media_type), "Accept-Post": ("resp", a.media_range), "Accept-Ranges": ("resp", lambda r: r.choice(["bytes", "none", "items"])),
    "Access-Control-Allow-Headers": ("resp", tok), "Access-Control-Allow-Methods": ("resp", lambda r: r.choice(["GET", "PUT", "*", "get"])),
    "Access-Control-Expose-Headers": ("resp", tok), "Access-Control-Request-Headers": ("req", tok), "Allow": ("resp", lambda r: r.choice(["GET", "PUT", "FOO"])),
    "Alt-Svc": ("resp", a.alt_value), "Cache-Control": ("resp", cc), "Connection": ("resp", lambda r: r.choice(["close", "keep-alive", "upgrade", "foo"])),
    "Content-Encoding": ("resp", lambda r: r.choice(["gzip", "br", "x-gzip", "foo", "identity"])), "Content-Language": ("resp", a.language_tag),
    "Expect": ("req", lambda r: r.choice(["100-continue", "foo", "bar=baz"])), "If-Match": ("req", a.entity_tag), "If-None-Match": ("req", a.entity_tag),
    "Link": ("resp", a.link_value), "Pragma": ("req", lambda r: r.choice(["no-cache", "foo"])), "Referrer-Policy": ("resp", lambda r: r.choice(["no-referrer", "origin", "bogus"])),
    "Server-Timing": ("resp", a.server_timing), "TE": ("req", a.te_elem), "Trailer": ("resp", tok), "Transfer-Encoding": ("resp", a.tenc_elem),
    "Upgrade": ("req", a.upgrade_elem), "Vary": ("resp", tok), "Via": ("resp", via), "Clear-Site-Data": ("resp", lambda r: r.choice(['"cache"', '"cookies"', '"*"', '"x"'])),
    "Content-Security-Policy": ("resp", csp), "Content-Security-Policy-Report-Only": ("resp", csp),
}
STRUCTURED = {
    "Accept-CH": ("resp", lambda r: r.choice(["DPR", "Width", "ECT", "dpr"])), "Accept-Query": ("resp", lambda r: r.choice(['"application/jsonpath"', "application/sql;charset=\"UTF-8\"", '"x"'])),
    "Cache-Status": ("resp", lambda r: r.choice(["A; hit", "B; fwd=miss; stored", 'C; detail="x, y"', "D; fwd=bogus", sf_member(r)])),
    "Proxy-Status": ("resp", lambda r: r.choice(["r34; error=http_request_error", 'cdn; received-status=200; next-hop="b.example"', "a; error=bogus", sf_member(r)])),
    "Cache-Groups": ("resp", lambda r: a.sf_string(r)), "Cache-Group-Invalidation": ("resp", lambda r: a.sf_string(r)),
    "CDN-Cache-Control": ("resp", lambda r: r.choice(["max-age=60", "no-store", "private", "s-maxage=1", "max-age=?0", sf_dict_member(r)])),
    "Permissions-Policy": ("resp", lambda r: r.choice(['geolocation=(self "https://a.com")', "fullscreen=*", "microphone=()", "bogus=()"])),
    "Reporting-Endpoints": ("resp", lambda r: r.choice(['default="https://example.com/r"', 'a="/r"', 'b="http://x/"', "c=1"])),
    "Use-As-Dictionary": ("resp", lambda r: r.choice(['match="/p/*"', 'match-dest=("script" "x")', 'id="x"', "type=raw", "type=foo", "ttl=5"])),
    "Speculation-Rules": ("resp", lambda r: r.choice(['"/rules.json"', '"https://a.com/r"', "token"])),
}
JSON = {"NEL": ("resp", json_member), "Report-To": ("resp", json_member)}
FAMILIES = {"list": LISTS, "structured": STRUCTURED, "json": JSON}
ALL = [(fam, name) for fam, table in sorted(FAMILIES.items()) for name in sorted(table)]
REQUIRE = {"divisions": 8000, "kind:field": len(ALL), "kind:empties": 30, "members_parsed": 5000}


def lint(kind, name, lines, extra):
    h = extra + [[name, line] for line in lines]
    msg = {"h": h, "t": 1700000000.0}
    linter = drive.run({kind: msg})[0 if kind == "req" else 1]
    notes = []
    for note in drive.notes_of(linter):
        subject = "offset" if note[0].startswith("offset-") else note[0]
        if note[1] in ("FIELD_DEPRECATED", "FIELD_TOO_LARGE", "FIELD_SECTION_TOO_LARGE"):  # about each line, or its length
            continue
        notes.append((subject,) + note[1:])
    got = {
        "parsed": drive.norm(drive.parsed(linter, name.lower())),
        "notes": sorted(map(repr, notes)),
    }
    if kind == "resp":
        c = linter.caching
        got["caching"] = (c.age, c.store_private, c.store_shared, c.freshness_lifetime_private, c.freshness_lifetime_shared)
    return got


def check(ctx, case):
    fam, name, members = case["family"], case["name"], case["members"]
    kind = FAMILIES[fam][name][0]
    ctx.seen("field", name)
    want = lint(kind, name, [", ".join(members)], case["extra"])
    if isinstance(want["parsed"], list):
        ctx.count("members_parsed", len(want["parsed"]))
    for lines in [members] + case["divisions"]:
        got = lint(kind, name, lines, case["extra"])
        ctx.count("divisions")
        for key in want:
            ctx.expect(
                got[key] == want[key],
                f"{key}:{name}",
                lambda: f"{name}: {', '.join(members)!r} and lines {lines!r} differ in {key}: {want[key]!r:.400} against {got[key]!r:.400}",
            )
    if fam == "list" and case["valid"]:
        # a list's empty members don't count
        for lines in case["empties"]:
            got = lint(kind, name, lines, case["extra"])
            ctx.seen("empties", name)
            ctx.count("divisions")
            for key in want:
                ctx.expect(
                    got[key] == want[key],
                    f"empty-{key}:{name}",
                    lambda: f"{name}: {', '.join(members)!r} and lines with empty members {lines!r} differ in {key}: {want[key]!r:.400} against {got[key]!r:.400}",
                )
        if isinstance(want["parsed"], list) and name not in ("Vary", "Cache-Control", "Pragma"):
            ctx.expect(
                len(want["parsed"]) == len(members),
                f"member-count:{name}",
                lambda: f"{name}: {len(members)} valid members {members!r} gave {want['parsed']!r}",
            )
    if len(members) > 1:
        ctx.distinct_case([name, members])
        ctx.sample({"name": name, "members": members, "divisions": case["divisions"][:1]})


def ows(r):
    return r.choice(["", "", " ", "  ", "\t"])


def divide(r, members):
    lines, cur = [], [members[0]]
    for m in members[1:]:
        if r.random() < 0.5:
            cur.append(ows(r) + "," + ows(r) + m)
        else:
            lines.append("".join(cur))
            cur = [m]
    lines.append("".join(cur))
    return [ows(r) + x + ows(r) for x in lines]


def with_empties(r, members):
    lines = []
    for line in divide(r, members):
        pick = r.random()
        if pick < 0.3:
            line = r.choice([",", " ,", ", ,", ",\t,"]) + " " + line
        elif pick < 0.6:
            line = line + r.choice([",", " ,", ", ,", ","])
        lines.append(line)
    if r.random() < 0.5:
        lines.insert(r.randint(0, len(lines)), r.choice(["", " ", ",", ", ,"]))
    elif len(members) > 1:
        lines = [r.choice([", ,", ",,", ",\t,"]).join(members)]
    return lines


def gen(rng, ctx):
    for i in range(ctx.size):
        fam, name = ALL[(i * ctx.workers + ctx.worker) % len(ALL)] if i * ctx.workers < 3 * len(ALL) else rng.choice(ALL)
        make = FAMILIES[fam][name][1]
        members = [make(rng).strip(" \t") for _ in range(g.many(rng, rng.choice([1, 2, 2, 3, 3, 4, 6])))]
        valid = True
        if rng.random() < 0.2 and fam == "list":
            # invalid members, as long as they don't contain what delimits members
            j = rng.randrange(len(members))
            bad = rng.choice(["a b", "=", "a=", "\xe9", "@x", "a;b;=", "]"])
            members[j] = bad
            valid = False
        yield {
            "family": fam, "name": name, "members": members, "valid": valid,
            "divisions": [divide(rng, members) for _ in range(2)],
            "empties": [with_empties(rng, members) for _ in range(2)],
            "extra": [["Date", "Tue, 14 Nov 2023 22:13:20 GMT"]] if rng.random() < 0.5 else [],
        }
