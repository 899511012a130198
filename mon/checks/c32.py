"""C32: URIs are read, mapped, resolved and compared as the specifications say."""

import re

from mon import abnf as a
from mon import drive

PROPERTY = "C32"
RULE = (
    "request IRIs made of parts (scheme, user information, names, addresses, ports, paths, queries, fragments) with and without other characters than ASCII, and with one part broken; URIs of any scheme and form; Location references against base URIs and status codes; "
    "Referer and target in every relation of origins; Max-Forwards with methods; distinct by the URIs"
)
PORTS = {"http": 80, "https": 443, "ws": 80, "wss": 443}
SIZES = {"quick": 3600, "thorough": 48000}
REQUIRE = {
    "iris": 6000, "mapped": 2500, "uris": 4000, "kind:uri": 4, "bad": 1500, "kind:bad": 12, "kind:host": 5, "userinfo": 300, "fragments": 500, "locations": 3000, "relative": 2000, "undefined": 800, "kind:status": 60,
    "referers": 3000, "same_origin": 600, "different": 800, "insecure": 300, "plain_referer": 400, "forwards": 400, "kind:method": 8, "distinct": 12000,
}
UNRESERVED = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
SUB = set("!$&'()*+,;=")
UNI = ["\u00a0", "\u3000", "\u2028", "\u202f", "\u00e9", "\u00fc\u00df", "\u65e5\u672c", "\u0436", "e\u0301", "\U0001f600", "\u00b5"]
LABELS = [("b\u00fccher", "xn--bcher-kva"), ("\u65e5\u672c\u8a9e", "xn--wgv71a119e"), ("\u00e9", "xn--9ca"), ("m\u00fcnchen", "xn--mnchen-3ya"), ("\u0436", "xn--f1a")]
REDIRECTS = {201, 300, 301, 302, 303, 305, 307, 308}
STATUSES = [100, 101, 200, 201, 202, 203, 204, 205, 206, 207, 300, 301, 302, 303, 304, 305, 306, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 421, 422, 423, 424,
            425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511, 208, 226, 299]
METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "options", "CONNECT", "TRACE", "OPTIONS"]


def pct(text):
    return "".join(c if c in UNRESERVED else "".join(f"%{b:02X}" for b in c.encode("utf-8")) for c in text)


def text(r, allowed, wild, lo=0, hi=6):
    "-> IRI text, URI text"
    iri = uri = ""
    for _ in range(r.randint(lo, hi)):
        pick = r.random()
        if pick < wild:
            char = r.choice(UNI)
            iri, uri = iri + char, uri + pct(char)
        elif pick < wild + 0.1:
            char = a.pct(r)
            iri, uri = iri + char, uri + char
        else:
            char = r.choice(allowed)
            iri, uri = iri + char, uri + char
    return iri, uri


WORD = "abcXYZ019-._~"
PCHAR = WORD + "!$&'()*+,;=:@"


def make_iri(r):
    wild = r.choice([0, 0, 0.15, 0.4])
    scheme = r.choice(["http", "https", "http", "HTTP", "Https"])
    iri, uri = scheme + "://", scheme.lower() + "://"
    user = r.random() < 0.12
    if user:
        i, u = text(r, WORD + "!$&'()*+,;=:", wild, 1, 6)
        iri, uri = iri + i + "@", uri + u + "@"
    kind = r.choice(["name", "name", "name", "v4", "v6", "single", "idn"])
    if kind == "v4":
        host = uhost = a.ipv4(r)
    elif kind == "v6":
        host = uhost = "[" + r.choice(["::1", "2001:db8::1", "::", "1:2:3:4:5:6:7:8", "::ffff:192.0.2.1", "fe80::a:b"]) + "]"
    elif kind == "idn":
        one, two = r.choice(LABELS)
        host, uhost = r.choice([(one, two), (one + ".example", two + ".example"), ("www." + one + ".com", "www." + two + ".com")])
    elif kind == "single":
        host = uhost = r.choice(["localhost", "a", "x-y", "a1"])
    else:
        host = uhost = r.choice(["example.com", "www.example.org", "a.b.c.d", "Example.COM", "x_y.example"])
    iri, uri = iri + host, uri + uhost
    if r.random() < 0.35:
        port = r.choice([":80", ":8080", ":443", ":1", ":65535", ":", ":" + a.digits(r, 1, 7)])
        iri, uri = iri + port, uri + port
    for _ in range(r.randint(0, 3)):
        i, u = text(r, PCHAR, wild)
        iri, uri = iri + "/" + i, uri + "/" + u
    if r.random() < 0.5:
        i, u = text(r, PCHAR + "/?", wild, 0, 8)
        iri, uri = iri + "?" + i, uri + "?" + u
    fragment = r.random() < 0.2
    if fragment:
        iri += "#" + text(r, PCHAR + "/?", wild)[0]
    return {"k": "iri", "iri": iri, "uri": uri, "host": kind, "user": user, "fragment": fragment}


def make_uri(r):
    "any URI; a label of its name can be empty or longer than DNS allows"
    if r.random() < 0.3:
        return {"k": "uri", "uri": a.other_uri(r), "kind": "other"}
    if r.random() < 0.1:
        name = r.choice(["a..b", ".a", "a.", "..", "a" * r.randint(60, 70), "www." + "b" * r.randint(60, 300) + ".example"])
        return {"k": "uri", "uri": f"http://{name}{r.choice(['', ':', ':8080'])}/{a.segment(r)}", "kind": "long" if len(name) > 10 else "dots"}
    return {"k": "uri", "uri": a.http_uri(r, frag=True), "kind": "http"}


def broken(r):
    what = r.choice(["none", "relative", "network", "empty", "star", "pct", "pct1", "pctq", "port", "bracket", "bracketed", "scheme", "noscheme", "v6", "pctend", "authority"])
    good = "http://example.com/"
    value = {
        "none": "example.com/foo", "relative": "/" + a.simple_token(r), "network": "//example.com/" + a.simple_token(r), "empty": "", "star": "*",
        "pct": good + "%zz", "pct1": good + "a%1", "pctq": good + "?a=%g0", "port": f"http://example.com:{r.choice(['a', '8o', '80a', '-1', '+80'])}/", "bracket": "http://[::1/", "bracketed": "http://[zz]/",
        "scheme": r.choice(["1http", "-a", "+x"]) + "://example.com/", "noscheme": "://example.com/", "v6": r.choice(["http://[1:2:3]/", "http://[:::]/", "http://[::1]a/", "http://[1::2::3]/"]), "pctend": good + a.simple_token(r) + "%",
        "authority": "example.com:443",
    }[what]
    if what == "authority":
        value = r.choice(["example:80/%", "1.example.com:443"])
    return {"k": "bad", "what": what, "iri": value}


def remove_dots(path):
    "RFC 3986 Section 5.2.4"
    out = []
    while path:
        if path.startswith("../"):
            path = path[3:]
        elif path.startswith("./"):
            path = path[2:]
        elif path.startswith("/./"):
            path = path[2:]
        elif path == "/.":
            path = "/"
        elif path.startswith("/../"):
            path = path[3:]
            if out:
                out.pop()
        elif path == "/..":
            path = "/"
            if out:
                out.pop()
        elif path in (".", ".."):
            path = ""
        else:
            end = path.find("/", 1)
            end = len(path) if end < 0 else end
            out.append(path[:end])
            path = path[end:]
    return "".join(out)


SPLIT = re.compile(r"^(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?$")


def resolve(base, ref):
    "RFC 3986 Section 5.2.2"
    bs, ba, bp, bq, _ = SPLIT.match(base).groups()
    s, au, p, q, f = SPLIT.match(ref).groups()
    if s is not None:
        p = remove_dots(p)
    else:
        s = bs
        if au is not None:
            p = remove_dots(p)
        else:
            au = ba
            if p == "":
                p = bp
                q = q if q is not None else bq
            elif p.startswith("/"):
                p = remove_dots(p)
            else:
                merged = "/" + p if ba is not None and not bp else bp[: bp.rfind("/") + 1] + p
                p = remove_dots(merged)
    return s + ":" + ("//" + au if au is not None else "") + p + ("?" + q if q is not None else "") + ("#" + f if f is not None else "")


def gen(rng, ctx):
    for i in range(ctx.size):
        pick = i % 12
        if pick < 3:
            yield make_iri(rng)
        elif pick > 9:
            yield make_uri(rng)
        elif pick == 3:
            yield broken(rng)
        elif pick in (4, 5, 6):
            base = rng.choice(["http://example.com/", "http://example.com/a/b/c", "https://www.example.org:8443/x/y?z", "http://a/b/c/d;p?q", "http://a", "https://h/x/", "http://a/B/C/d?Q", "https://h/"])
            segs = [rng.choice(["a", "b.c", "..", ".", "x%20y", "d;e=1", "..", "g"]) for _ in range(rng.randint(0, 4))]
            ref = "/".join(segs)
            if rng.random() < 0.3:
                ref = "/" + ref.lstrip("/")
            if ref.startswith("//"):
                ref = "/x" + ref
            if rng.random() < 0.1:
                ref = "//other.example/" + "/".join(s for s in segs if s not in (".", ".."))
            if rng.random() < 0.25:
                ref += "?" + rng.choice(["q", "a=b", "y/../z"])
            if rng.random() < 0.15:
                ref += "#" + rng.choice(["f", "a/b"])
            if rng.random() < 0.25:
                ref = rng.choice(["http", "https", "ftp", "HTTP"]) + "://" + rng.choice(["a.example", "b.example:8080"]) + rng.choice(["", "/", "/x?y", "/#f"])
            yield {"k": "location", "base": base, "ref": ref, "status": rng.choice(STATUSES) if rng.random() < 0.5 else rng.choice(sorted(REDIRECTS))}
        elif pick in (7, 8):
            def origin():
                scheme = rng.choice(["http", "https", "https", "https", "ws", "wss"])
                host = rng.choice(["example.com", "example.com", "www.example.com", "[::1]", "192.0.2.1"])
                return [scheme, host, rng.choice([None, None, PORTS[scheme], PORTS[scheme], 8443])]
            one = origin()
            yield {"k": "referer", "from": one, "to": list(one) if rng.random() < 0.4 else origin(), "case": [rng.random() < 0.1, rng.random() < 0.1], "ports": [rng.random() < 0.3, rng.random() < 0.3], "zero": rng.random() < 0.05,
                   "rest": [rng.choice(["", "/", "/a?b", "/x/y"]), rng.choice(["/", "/c", "/d?e=f"])], "partial": rng.random() < 0.1}
        else:
            yield {"k": "forwards", "method": rng.choice(METHODS), "value": rng.choice(["0", "1", "10"])}


def check(ctx, case):
    kind = case["k"]
    if kind == "iri":
        linter = drive.run({"req": {"u": drive.s(case["iri"].encode("utf-8")), "h": []}})[0]
        ctx.count("iris")
        ctx.count("mapped", not case["iri"].isascii())
        ctx.count("userinfo", case["user"])
        ctx.count("fragments", case["fragment"])
        ctx.seen("host", case["host"])
        ctx.expect("URI_BAD_SYNTAX" not in drive.names(linter), "good-reported", lambda: f"{case['iri']!r} is reported as bad syntax; its URI is {linter.uri!r}")
        ctx.expect(linter.uri == case["uri"], "mapping", lambda: f"the URI of {case['iri']!r} is {linter.uri!r}, not {case['uri']!r}")
        ctx.expect(linter.iri == case["iri"], "iri", lambda: f"{case['iri']!r} is kept as {linter.iri!r}")
        ctx.distinct_case(case["iri"])
    elif kind == "uri":
        linter = drive.request([], u=case["uri"])
        ctx.count("uris")
        ctx.seen("uri", case["kind"])
        ctx.expect("URI_BAD_SYNTAX" not in drive.names(linter), "uri-reported", lambda: f"{case['uri']!r} is reported as bad syntax; its URI is {linter.uri!r}")
        if case["kind"] != "other":
            scheme, rest = case["uri"].partition("#")[0].split(":", 1)
            ctx.expect(linter.uri == f"{scheme.lower()}:{rest}", "uri-changed", lambda: f"the URI of {case['uri']!r} is {linter.uri!r}")
        ctx.distinct_case(case["uri"])
    elif kind == "bad":
        linter = drive.request([], u=case["iri"])
        ctx.count("bad")
        ctx.seen("bad", case["what"])
        ctx.expect(drive.names(linter, "uri").count("URI_BAD_SYNTAX") == 1, f"bad-missed:{case['what']}", lambda: f"{case['iri']!r} isn't reported as bad syntax (once): {drive.names(linter)}")
        ctx.distinct_case(case["iri"])
    elif kind == "location":
        linter = drive.response([["Location", case["ref"]]], s=str(case["status"]), base=case["base"])
        notes = {type(n).__name__: n for n in linter.notes}
        ctx.count("locations")
        ctx.seen("status", case["status"])
        undefined = case["status"] not in REDIRECTS
        ctx.count("undefined", undefined)
        ctx.expect(("LOCATION_UNDEFINED" in notes) == undefined, "LOCATION_UNDEFINED", lambda: f"Location in a {case['status']} is {'not ' if undefined else ''}reported as undefined")
        relative = SPLIT.match(case["ref"]).group(1) is None
        ctx.count("relative", relative)
        if ctx.expect(("LOCATION_NOT_ABSOLUTE" in notes) == relative, "LOCATION_NOT_ABSOLUTE", lambda: f"Location: {case['ref']} is {'not ' if relative else ''}reported as relative") and relative:
            want = resolve(case["base"], case["ref"])
            got = notes["LOCATION_NOT_ABSOLUTE"].vars["full_uri"]
            ctx.expect(got == want, "full_uri", lambda: f"{case['ref']!r} is resolved against {case['base']} as {got!r}, not {want!r}")
        ctx.expect(linter.headers.parsed["location"] == case["ref"], "location", lambda: f"{case['ref']!r} is read as {linter.headers.parsed['location']!r}")
        ctx.distinct_case([case["base"], case["ref"], case["status"]])
    elif kind == "referer":
        def spell(origin, upper, explicit):
            scheme, host, port = origin
            default = PORTS[scheme]
            if upper:
                host = host.upper()
            shown = f":{port}" if port not in (None, default) else f":{default}" if explicit else ""
            return f"{scheme}://{host}{shown}"
        def canon(origin):
            scheme, host, port = origin
            return scheme, host, port or PORTS[scheme]
        source = spell(case["from"], case["case"][0], case["ports"][0]) + case["rest"][0]
        target = spell(case["to"], case["case"][1], case["ports"][1]) + case["rest"][1]
        if case["partial"]:
            source = "/partial"
        linter = drive.run({"req": {"u": target, "h": [["Referer", source]]}})[0]
        got = {n for n in drive.names(linter) if n.startswith("REFERER_")}
        want = set()
        if not case["partial"] and case["from"][0] in ("https", "wss"):
            if case["to"][0] in ("http", "ws"):
                want.add("REFERER_SECURE_TO_INSECURE")
            if canon(case["from"]) != canon(case["to"]):
                want.add("REFERER_SECURE_TO_DIFFERENT_ORIGIN")
            else:
                ctx.count("same_origin")
            ctx.count("different", "REFERER_SECURE_TO_DIFFERENT_ORIGIN" in want)
            ctx.count("insecure", "REFERER_SECURE_TO_INSECURE" in want)
        else:
            ctx.count("plain_referer")
        ctx.count("referers")
        for name in want ^ got:
            ctx.violation(f"{name}:{'missing' if name in want else 'extra'}", f"Referer: {source} in a request for {target} has {sorted(got)}, not {sorted(want)}")
        ctx.distinct_case([source, target])
    else:
        linter = drive.run({"req": {"m": case["method"], "h": [["Max-Forwards", case["value"]]]}})[0]
        want = case["method"] not in ("TRACE", "OPTIONS")
        ctx.count("forwards")
        ctx.seen("method", case["method"])
        ctx.expect(("MAX_FORWARDS_IGNORED" in drive.names(linter)) == want, "MAX_FORWARDS_IGNORED", lambda: f"Max-Forwards in {case['method']} is {'not ' if want else ''}reported as ignored")
        ctx.distinct_case([case["method"], case["value"]])
