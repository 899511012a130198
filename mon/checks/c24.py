"""C24: The parsed value of a valid field is what the field says."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C24"
RULE = (
    "requests and responses with up to six fields from a list of 44, each valid and generated along with the value that it denotes (members, letter case, parameters, quoted strings with escapes, commas and semicolons, "
    "entity-tags, challenges with several parameters, comments), with optional whitespace, empty members and any division into lines; distinct by field, value and division"
)
SIZES = {"quick": 7000, "thorough": 80000}
REQUIRE = {"kind:field": 60, "values": 60000, "members": 60000, "quoted": 6000, "escaped": 2500, "lines": 12000, "empties": 4000, "params": 15000, "distinct": 30000}


def string(r, info, alphabet=None):
    "-> a quoted string and what it stands for"
    out, value = "", ""
    for _ in range(g.many(r, r.choice([0, 1, 2, 4, 8]))):
        c = r.choice(alphabet or "abcXYZ019 ,;=()<>'!/:?&-_.@\t")
        if alphabet is None and r.random() < 0.25:
            c = r.choice('"\\,;=a "x(')
        if c in '"\\' or (alphabet is None and r.random() < 0.06):
            out += "\\"
            info["escaped"] = info.get("escaped", 0) + 1
        out += c
        value += c
    info["quoted"] = info.get("quoted", 0) + 1
    return f'"{out}"', value


def spell(r, text):
    return text if r.random() < 0.5 else "".join(c.upper() if r.random() < 0.4 else c for c in text)


def plain(r, lo=1, hi=8):
    "A token that's nothing special as a parameter"
    while True:
        out = a.chars(r, "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_.!#$&+^`|~", lo, hi)
        if out.lower() not in ("q", "rel", "rev", "anchor", "filename"):
            return out


def token_or_string(r, info):
    if r.random() < 0.5:
        tok = plain(r)
        return tok, tok
    return string(r, info)


def params(r, info, names=(), most=3, value=token_or_string):
    out, want = "", {}
    for _ in range(g.many(r, r.choice([0, 0, 1, 2, most]))):
        name = r.choice(names) if names and r.random() < 0.5 else plain(r)
        if name.lower() in want:
            continue
        text, val = value(r, info)
        out += a.ows(r) + ";" + a.ows(r) + spell(r, name) + "=" + text
        want[name.lower()] = val
        info["params"] = info.get("params", 0) + 1
    return out, want


def qvalue(r):
    return r.choice(["0", "1", "0.5", "0.123", "1.0", "1.000", "0.", "1.", "0.9", "0.05"])


def weighted(r, info):
    "-> text, weight (None when there isn't one)"
    if r.random() < 0.5:
        return "", None
    q = qvalue(r)
    return a.ows(r) + ";" + a.ows(r) + r.choice("qqqQ") + "=" + q, q


# What makes a member: (r, info) -> (text, parsed value)

def verbatim(make):
    def member(r, info):
        text = make(r)
        return text, text
    return member


def lowered(make):
    def member(r, info):
        text = spell(r, make(r))
        return text, text.lower()
    return member


def one_of(*options):
    return lambda r: r.choice(options)


def coding_accepted(r, info):
    name = spell(r, r.choice(["gzip", "br", "*", "identity", plain(r)]))
    text, q = weighted(r, info)
    return name + text, (name.lower(), {} if q is None else {"q": q})


def language_accepted(r, info):
    name = spell(r, a.lang_range(r))
    text, q = weighted(r, info)
    return name + text, ("AcceptLanguageValue", name.lower(), None if q is None else float(q))


def te(r, info):
    if r.random() < 0.2:
        return "trailers", ("trailers", {})
    name = spell(r, r.choice(["gzip", "deflate", plain(r)]))
    if name.lower() == "trailers":
        name = "x"
    text, want = params(r, info, most=1)
    more, q = weighted(r, info)
    if q is not None:
        want["q"] = q
    return name + text + more, (name.lower(), want)


def transfer_coding(r, info):
    name = spell(r, r.choice(["chunked", "gzip", "foo", plain(r)]))
    text, want = params(r, info, most=2)
    return name + text, (name.lower(), want)


def etag(r, info):
    weak = r.random() < 0.4
    opaque = a.chars(r, "abcXYZ019!#,;\\\\\\'()*=/<>W-", 0, 10)
    if "\\" in opaque:
        info["escaped"] = info.get("escaped", 0) + 1
    return ("W/" if weak else "") + f'"{opaque}"', (weak, opaque)


def tag(r, info):
    text = etag(r, info)[0]
    return text, text


def auth_param(r, info):
    text = string(r, info)[0] if r.random() < 0.6 else plain(r)
    return r.choice(["realm", "nonce", "qop", "title", plain(r)]) + "=" + text


def challenge(r, info):
    scheme = r.choice(["Basic", "Digest", "Bearer", "Negotiate", "NTLM", plain(r)])
    how = r.random()
    if how < 0.15:
        text = scheme
    elif how < 0.35:
        text = scheme + " " + a.token68(r)
    else:
        info["params"] = info.get("params", 0) + 1
        text = scheme + " " + r.choice([", ", ",", " , "]).join(auth_param(r, info) for _ in range(g.many(r, r.choice([1, 2, 3]))))
    return text, text


def info_param(r, info):
    text = auth_param(r, info)
    return text, text


def via(r, info):
    text = r.choice(["1.1", "HTTP/1.0", "2"]) + " " + r.choice(["a", "proxy.example.com", "[::1]:80", "h:8080"])
    if r.random() < 0.5:
        text += " " + r.choice(["(a, b)", "(a (b, c), d)", "(x)", '(a\\), b)', '(")', "(,)"])
    return text, text


def metric(r, info):
    name = plain(r)
    text, want = params(r, info, ["dur", "desc"])
    return name + text, (name, want)


def keep_alive(r, info):
    name = r.choice(["timeout", "max", plain(r)])
    text, value = token_or_string(r, info) if name not in ("timeout", "max") else [str(r.choice([0, 5, 100]))] * 2
    return spell(r, name) + "=" + text, (name.lower(), value)


def directive(r, info):
    name = r.choice(["max-age", "s-maxage", "stale-if-error", "stale-while-revalidate", "private", "no-cache", "public", "no-store", "must-revalidate", "immutable", "x-a", "ext"])
    if name in ("max-age", "s-maxage", "stale-if-error", "stale-while-revalidate"):
        n = r.choice([0, 1, 60, 86400, 31536000])
        return spell(r, name) + "=" + "0" * r.choice([0, 0, 2]) + str(n), (name, n)
    if name in ("private", "no-cache") and r.random() < 0.6:
        text, value = string(r, info, "abcXYZ-, ")
        return spell(r, name) + "=" + text, (name, value)
    if name in ("x-a", "ext") and r.random() < 0.6:
        val = plain(r)
        return spell(r, name) + "=" + val, (name, val)
    return spell(r, name), (name, None)


def target(r, info):
    uri = a.uri_reference(r)
    text, want = params(r, info, ["title", "media", "hreflang", "type"])
    if r.random() < 0.5:
        rel = r.choice(["next", "prefetch", "x y", "stylesheet"])
        text += a.ows(r) + ";" + a.ows(r) + spell(r, "rel") + "=" + (f'"{rel}"' if " " in rel or r.random() < 0.5 else rel)
        want["rel"] = rel
    for name, val in want.items():
        # checked further, and changed when they are shown; not decided here
        if name in ("hreflang", "type"):
            want[name] = val
    return f"<{uri}>" + text, (uri, want)


def alternative(r, info):
    text = r.choice(["h2", "h3", "w%3Dx"]) + "=" + r.choice(['":443"', '"a.example:8000"', '"a,b:1"'])
    text += "".join(a.ows(r) + ";" + a.ows(r) + p for p in r.sample(["ma=60", "persist=1", 'x="a, b"'], r.choice([0, 1, 2])))
    return text, text


def disposition(r, info):
    kind = spell(r, r.choice(["attachment", "inline", "form-data", plain(r)]))
    text, want = params(r, info)
    if r.random() < 0.6:
        t, v = token_or_string(r, info)
        text += a.ows(r) + ";" + a.ows(r) + spell(r, "filename") + "=" + t
        want["filename"] = v
    return kind + text, (kind.lower(), want)


def hsts(r, info):
    age = r.choice([0, 1, 300, 31536000])
    text = str(age) if r.random() < 0.7 else f'"{age}"'
    parts, want = [spell(r, "max-age") + r.choice(["=", "=", " = "]) + text], {"max-age": age, "includesubdomains": False, "preload": False}
    for name in ("includesubdomains", "preload"):
        if r.random() < 0.5:
            parts.append(spell(r, name))
            want[name] = True
    if r.random() < 0.2:
        parts.append(plain(r) + "=" + string(r, info, "abc, ")[0])
    r.shuffle(parts)
    return r.choice([";", "; ", " ; "]).join(parts), want


def policy(r, info):
    want, parts = {}, []
    for name in r.sample(["default-src", "script-src", "img-src", "frame-ancestors", "object-src", "sandbox", "report-uri", "x-y"], r.choice([1, 2, 3])):
        value = " ".join(r.sample(["'self'", "https://a.example", "'none'", "*.b.example:*", "data:", "'nonce-abc='", "/x?y"], r.choice([0, 1, 2, 3])))
        want[name] = value
        parts.append(spell(r, name) + (r.choice([" ", "  "]) + value if value else ""))
    if r.random() < 0.2:  # the first of a repeated directive is used
        parts.append(next(iter(want)) + " https://other.example")
    return r.choice([";", "; ", " ;"]).join(parts) + r.choice(["", "", ";"]), want


def date(r, info):
    when = r.choice([1, 784111777, 1700000000, r.randrange(0, 4000000000)])
    return a.imf_date(when), when


def quoted_data(r, info):
    kind = r.choice(["cache", "cookies", "storage", "executionContexts", "*"])
    return f'"{kind}"', kind


def media_type(wild=False, weight=False):
    def member(r, info):
        kind = r.choice(["*/*", "text/*", "Image/*"]) if wild and r.random() < 0.3 else spell(r, a.media_type_bare(r))
        text, want = params(r, info, ["charset", "boundary", "profile", "v"])
        if not weight:
            return kind + text, (kind.lower(), want)
        more, q = weighted(r, info)
        return kind + text + more, ("AcceptValue", kind.lower(), want, None if q is None else float(q))
    return member


def serialized_origin(r, info):
    scheme, host, port = spell(r, r.choice(["http", "https", "x-ext", "chrome-extension"])), spell(r, r.choice(["example.com", "a.b.example", "127.0.0.1", "[::1]", "localhost", "xn--fsq.example"])), r.choice([None, None, 80, 443, 8080])
    return f"{scheme}://{host}" + ("" if port is None else f":{port}"), ("OriginValue", scheme.lower(), host.lower(), port)


def number(*options):
    def value(r, info):
        n = r.choice(options)
        return "0" * r.choice([0, 0, 0, 1, 3]) + str(n), n
    return value


def header_name(r):
    return r.choice(["X-Custom", "content-type", "Authorization", "X_Y", "ETag", plain(r)])


def method(r):
    return r.choice(["GET", "PUT", "DELETE", "PATCH", "patch", "Get", "x-Method", plain(r)])


REQ, RESP, BOTH = "req", "resp", "both"
TOKEN = verbatim(plain)
LISTS = {
    "Accept-Encoding": (REQ, coding_accepted), "Accept-Language": (REQ, language_accepted), "TE": (REQ, te), "If-Match": (REQ, tag), "If-None-Match": (REQ, tag),
    "Allow": (RESP, TOKEN), "Vary": (RESP, lowered(plain)), "Accept-Ranges": (RESP, lowered(one_of("bytes", "none", "foo", "Seconds"))), "Content-Encoding": (BOTH, lowered(one_of("gzip", "br", "foo", "x1"))),
    "Content-Language": (BOTH, lowered(a.language_tag)), "Transfer-Encoding": (BOTH, transfer_coding), "WWW-Authenticate": (RESP, challenge), "Proxy-Authenticate": (RESP, challenge),
    "Authentication-Info": (RESP, info_param), "Proxy-Authentication-Info": (RESP, info_param), "Trailer": (BOTH, TOKEN), "Upgrade": (BOTH, verbatim(a.upgrade_elem)), "Via": (BOTH, via),
    "Server-Timing": (RESP, metric), "Keep-Alive": (BOTH, keep_alive), "Cache-Control": (RESP, directive), "Link": (RESP, target), "Alt-Svc": (RESP, alternative),
    "Referrer-Policy": (RESP, lowered(one_of("no-referrer", "origin", "strict-origin", "same-origin", "unsafe-url"))), "Clear-Site-Data": (RESP, quoted_data),
    "Pragma": (REQ, lowered(one_of("no-cache", "x", "y-z"))), "Accept": (REQ, media_type(True, True)), "Accept-Patch": (RESP, media_type()), "Accept-Post": (RESP, media_type(True)),
    "Access-Control-Allow-Methods": (RESP, verbatim(method)), "Access-Control-Allow-Headers": (RESP, lowered(header_name)), "Access-Control-Expose-Headers": (RESP, verbatim(header_name)), "Access-Control-Request-Headers": (REQ, lowered(header_name)),
    "Connection": (BOTH, verbatim(one_of("close", "Keep-Alive", "upgrade", "X-A"))), "Expect": (REQ, verbatim(one_of("100-continue", "100-Continue", "x-y"))), "Server": (RESP, verbatim(a.product)), "Content-Security-Policy": (RESP, policy), "Content-Security-Policy-Report-Only": (RESP, policy),
}
SINGLES = {
    "ETag": (BOTH, etag), "Content-Disposition": (BOTH, disposition), "Authorization": (REQ, verbatim(a.credentials)), "Proxy-Authorization": (REQ, verbatim(a.credentials)),
    "Location": (RESP, verbatim(a.uri_reference)), "Referer": (REQ, verbatim(a.http_uri)), "Content-Location": (RESP, verbatim(a.http_uri)), "User-Agent": (REQ, verbatim(a.products)),
    "Strict-Transport-Security": (RESP, hsts), "Date": (BOTH, date), "Last-Modified": (RESP, date), "Expires": (RESP, date), "If-Range": (REQ, tag), "If-Modified-Since": (REQ, verbatim(a.http_date)),
    "Content-Type": (BOTH, media_type()), "Origin": (REQ, serialized_origin), "Access-Control-Allow-Origin": (RESP, verbatim(one_of("*", "null", "https://Example.com", "http://a.example:8080"))),
    "Access-Control-Request-Method": (REQ, verbatim(method)), "Age": (RESP, number(0, 1, 60, 86400, 31536000)), "Access-Control-Max-Age": (RESP, number(0, 1, 600, 86400)), "Content-Length": (BOTH, number(0, 1, 12, 65536, 2**40)),
    "Max-Forwards": (REQ, verbatim(one_of("0", "1", "10"))), "Retry-After": (RESP, verbatim(lambda r: r.choice(["0", "120", "3600", a.http_date(r)]))), "If-Unmodified-Since": (REQ, verbatim(a.http_date)),
    "Cross-Origin-Resource-Policy": (RESP, verbatim(one_of("same-site", "same-origin", "cross-origin"))),
    "X-Frame-Options": (RESP, lambda r, info: (lambda t: (t, t.upper()))(spell(r, r.choice(["deny", "sameorigin"])))), "Host": (REQ, verbatim(lambda r: a.host(r) + r.choice(["", ":80", ":8080"]))),
}


def freeze(value):
    "JSON has no tuples"
    if isinstance(value, (tuple, list)):
        return [freeze(v) for v in value]
    if isinstance(value, dict):
        return {k: freeze(v) for k, v in value.items()}
    return value


def make(r):
    kind = r.choice([REQ, RESP])
    h, want, info = [], {}, {}
    usable = [n for n, (k, _) in {**LISTS, **SINGLES}.items() if k in (kind, BOTH)]
    for name in r.sample(usable, r.choice([1, 2, 4, 6])):
        if name in SINGLES:
            text, value = SINGLES[name][1](r, info)
            text = r.choice(["", "", " ", "\t "]) + text + r.choice(["", "", " ", " \t"])
            h.append([name, [text]])
            want[name] = value
            continue
        members = [LISTS[name][1](r, info) for _ in range(g.many(r, r.choice([1, 1, 2, 3, 5])))]
        values = [v for _, v in members]
        if name == "Vary":
            values = list(dict.fromkeys(values))
        if name == "Cache-Control":
            seen, kept = set(), []
            for text, value in members:
                if value[0] not in seen:
                    seen.add(value[0])
                    kept.append((text, value))
            members, values = kept, [v for _, v in kept]
        lines, here = [], []
        for i, (text, _) in enumerate(members):
            here.append(a.ows(r) + text + a.ows(r))
            if r.random() < 0.1:
                info["empties"] = info.get("empties", 0) + 1
                here.append(r.choice(["", " "]))
            if r.random() < 0.3 or (name in ("WWW-Authenticate", "Proxy-Authenticate") and r.random() < 0.2):
                lines.append(",".join(here))
                here = []
        if here:
            lines.append(",".join(here))
        if len(lines) > 1:
            info["lines"] = info.get("lines", 0) + 1
        info["members"] = info.get("members", 0) + len(members)
        h.append([name, lines])
        want[name] = values
    # the lines of each field in order, those of different fields in any
    queue = [n for n, lines in h for _ in lines]
    r.shuffle(queue)
    left = {n: list(lines) for n, lines in h}
    wire = [[g.vary_case(r, n) if r.random() < 0.2 else n, left[n].pop(0)] for n in queue]
    msg = {"h": wire}
    if kind == REQ:
        case = {"req": msg, "resp": {"s": "200"}}
    else:
        msg["s"] = r.choice(["200", "200", "401", "404", "304"])
        case = {"resp": msg}
    return {"msg": case, "kind": kind, "want": {k: freeze(v) for k, v in want.items()}, "info": info}


def plainly(value):
    "The parsed value in the form of what's expected."
    if type(value).__name__ == "AcceptLanguageValue":
        return ["AcceptLanguageValue", value.language, value.q]
    if type(value).__name__ == "AcceptValue":
        return ["AcceptValue", value.media_type, plainly(value.parameters), value.q]
    if type(value).__name__ == "OriginValue":
        return ["OriginValue", value.scheme, value.host, value.port]
    if isinstance(value, (tuple, list)):
        return [plainly(v) for v in value]
    if isinstance(value, dict):
        return {k: plainly(v) for k, v in value.items()}
    return value


def check(ctx, case):
    req, resp = drive.run(case["msg"])
    linter = req if case["kind"] == REQ else resp
    for name, want in case["want"].items():
        got = plainly(drive.parsed(linter, name.lower()))
        ctx.count("values")
        ctx.seen("field", name)
        ctx.expect(got == want, f"value:{name}", lambda: f"{name} is parsed as {got!r}, not {want!r}: {case['msg'][case['kind']]['h']!r}")
    for key, n in case["info"].items():
        ctx.count(key, n)
    ctx.distinct_case(case["msg"])
    ctx.sample(case["msg"])


def gen(rng, ctx):
    for _ in range(ctx.size):
        yield make(rng)
