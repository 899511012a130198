"""C14: a field's value is reported as bad syntax exactly when its grammar doesn't allow it."""

import re

from mon import abnf as a
from mon import drive
from mon import gen as g
from mon.grammar import G, L, comment_depth

PROPERTY = "C14"
RULE = (
    "values derived from each field's grammar, realistic values, and both edited (characters inserted, removed, replaced and moved; parts of other values spliced "
    "in); a separate ABNF interpreter decides whether the grammar allows each; distinct by field and value"
)
SIZES = {"quick": 16000, "thorough": 80000}
REQUIRE = {
    "places": 2000,"valid": 12000, "invalid": 12000, "kind:field": 60, "kind:valid": 60, "kind:invalid": 60, "members": 20000}

# field -> (contexts, single or list, rule)
FIELDS = {
    "Accept": ("q", "list", "accept"),
    "Accept-Encoding": ("q", "list", "codings"),
    "Accept-Language": ("q", "list", "languages"),
    "Accept-Patch": ("r", "list", "media-type"),
    "Accept-Post": ("r", "list", "media-range"),
    "Accept-Ranges": ("r", "list", "token"),
    "Access-Control-Allow-Headers": ("r", "list", "token"),
    "Access-Control-Allow-Methods": ("r", "list", "token"),
    "Access-Control-Expose-Headers": ("r", "list", "token"),
    "Access-Control-Request-Headers": ("q", "list", "token"),
    "Access-Control-Request-Method": ("q", "one", "token"),
    "Allow": ("r", "list", "token"),
    "Alt-Svc": ("r", "list", "alt-svc"),
    "Authentication-Info": ("r", "list", "auth-param"),
    "Authorization": ("q", "one", "credentials"),
    "Cache-Control": ("qr", "list", "directive"),
    "Clear-Site-Data": ("r", "list", "quoted-string"),
    "Connection": ("qr", "list", "token"),
    "Content-Disposition": ("r", "one", "disposition"),
    "Content-Encoding": ("qr", "list", "token"),
    "Content-Language": ("qr", "list", "Language-Tag"),
    "Content-Location": ("r", "one", "content-location"),
    "Content-MD5": ("qr", "one", "base64-128"),
    "Content-Type": ("qr", "one", "media-type"),
    "ETag": ("r", "one", "entity-tag"),
    "Expect": ("q", "list", "expectation"),
    "From": ("q", "one", "mailbox"),
    "Host": ("q", "one", "host-port"),
    "If-Match": ("q", "list", "match"),
    "If-None-Match": ("q", "list", "match"),
    "If-Modified-Since": ("q", "one", "HTTP-date"),
    "If-Unmodified-Since": ("q", "one", "HTTP-date"),
    "If-Range": ("q", "one", "if-range"),
    "Keep-Alive": ("qr", "list", "parameter"),
    "Link": ("qr", "list", "link-value"),
    "Location": ("r", "one", "URI-reference"),
    "Max-Forwards": ("q", "one", "number"),
    "Pragma": ("q", "list", "directive"),
    "Proxy-Authenticate": ("r", "list", "credentials"),
    "Proxy-Authentication-Info": ("r", "list", "auth-param"),
    "Proxy-Authorization": ("q", "one", "credentials"),
    "Referer": ("q", "one", "content-location"),
    "Referrer-Policy": ("r", "list", "token"),
    "Retry-After": ("r", "one", "retry-after"),
    "Server": ("r", "one", "products"),
    "Server-Timing": ("r", "list", "timing"),
    "Strict-Transport-Security": ("r", "one", "hsts"),
    "TE": ("qr", "list", "te"),
    "Trailer": ("qr", "list", "token"),
    "Transfer-Encoding": ("qr", "list", "transfer-coding"),
    "Upgrade": ("qr", "list", "protocol"),
    "User-Agent": ("q", "one", "products"),
    "Vary": ("r", "list", "token"),
    "Via": ("qr", "list", "via"),
    "Warning": ("r", "list", "warning-value"),
    "WWW-Authenticate": ("r", "list", "credentials"),
    "X-Content-Type-Options": ("r", "list", "nosniff"),
    "X-Frame-Options": ("r", "one", "frame-options"),
    "Access-Control-Allow-Credentials": ("r", "one", "acac"),
    "Access-Control-Allow-Origin": ("r", "one", "acao"),
    "Content-Security-Policy": ("r", "list", "csp"),
    "Content-Security-Policy-Report-Only": ("r", "list", "csp"),
}
NESTING = ("products", "via", "mailbox")  # comments that are nested very deep aren't decided
SYNTAX = {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}
SPECIALS = '"\\,;=/()<>@ \t*:?#%[]{}\x00\x7f\x80\xe9\xff\'&+-._~!$^`|0aZ'


def allowed(kind, rule, value):
    "-> (allowed, allowed by lenient recipients (e.g., of the wrong case), members)"
    if kind == "one":
        strict = G.matches(rule, value)
        return strict, strict or L.matches(rule, value, False), 1
    strict = G.matches_list(rule, value)
    loose = strict if strict is not None else L.matches_list(rule, value, False)
    return strict is not None, loose is not None, strict or 0


def check(ctx, case):
    name, value = case["n"], case["v"]
    contexts, kind, rule = FIELDS[name]
    ok, loose, members = allowed(kind, rule, value)
    if ok != loose or (rule in NESTING and comment_depth(value) > 3) or (name == "Warning" and "," in value) or (rule == "csp" and '"' in value) or value == "":
        ctx.count("undecided")
        return
    msg = {"h": [[name, case["pre"] + value + case["post"]]]}
    if case["k"] == "q":
        linter = drive.run({"req": dict(msg, v="1.1")})[0]
    else:
        linter = drive.run({"resp": dict(msg, s="200")})[1]
    got = SYNTAX & set(drive.names(linter))
    ctx.distinct_case([name, value])
    ctx.sample([name, value])
    ctx.seen("field", name)
    ctx.seen("valid" if ok else "invalid", name)
    ctx.count("valid" if ok else "invalid")
    ctx.count("members", members)
    ctx.expect(
        bool(got) != ok, f"{name}:{'false' if ok else 'missed'}",
        lambda: f"{name}: {value!r} {'conforms' if ok else 'does not conform'} to its grammar ({rule}), but the notes are {drive.names(linter)}",
    )
    for note in linter.notes:
        if type(note).__name__ == "BAD_SYNTAX_DETAILED":
            place(ctx, name, value, note)


def place(ctx, name, value, note):
    "The character that's said to be invalid is where it's said to be, and where it's pointed at."
    member, problem = note.vars["value"], str(note.vars["problem"])
    found = re.match(r"The invalid character '(.)' was found at position (\d+):\n\n    (.*)\n    ( *)\^\Z", problem, re.S)
    ctx.count("places")
    good = bool(found) and member in value
    if good:
        char, pos, context, pointer = found[1], int(found[2]), found[3], len(found[4])
        good = 1 <= pos <= len(member) and member[pos - 1] == char and pointer < len(context) and context[pointer] == char
        good = good and member[max(0, pos - 1 - pointer):].startswith(context)
    ctx.expect(good, "place", lambda: f"{name}: {value!r} is said to have a problem in {member!r}: {problem!r}")


def base(r, name):
    contexts, kind, rule = FIELDS[name]
    if r.random() < 0.3 and name in g.FIELDS:
        value = g.to_latin1(g.FIELDS[name][1](r))
        if len(value) < 300:
            return value
    if kind == "one":
        return G.make(r, rule, r.choice([3, 8, 12]))
    return a.lst(r, lambda r: G.make(r, rule, r.choice([3, 8, 12])), 1, 3, empties=True)


def edit(r, value, other):
    pick = r.randint(0, 7)
    i = r.randrange(len(value) + 1)
    j = min(len(value), i + r.randint(1, 3))
    if pick <= 1:
        return value[:i] + r.choice(SPECIALS) + value[i:]
    if pick == 2:
        return value[:i] + value[j:]
    if pick == 3:
        return value[:i] + r.choice(SPECIALS) + value[i + 1 :]
    if pick == 4:
        return value[:i] + value[i:j] * 2 + value[j:]
    if pick == 5:
        return value[:j] + value[i:]
    if pick == 6:
        k = r.randrange(len(other) + 1)
        return value[:i] + other[k : k + r.randint(1, 8)] + value[i:]
    return value[:i] + value[i:][::-1] if r.random() < 0.3 else value[:i]


def gen(rng, ctx):
    names = sorted(FIELDS)
    for n in range(ctx.size):
        name = names[n % len(names)]
        value = base(rng, name)
        if rng.random() < 0.55:
            other = base(rng, rng.choice(names))
            for _ in range(rng.choice([1, 1, 1, 2])):
                value = edit(rng, value, other)
        value = value.strip(" \t")[:400]
        yield {"n": name, "v": value, "k": rng.choice(FIELDS[name][0]), "pre": a.ows(rng), "post": a.ows(rng)}
