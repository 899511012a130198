"""Message generators: field tables, hostile values, whole messages."""

import gzip
import json
import zlib

try:
    import brotli
except ImportError:  # pragma: no cover
    brotli = None

from mon import abnf as a

REQ, RES, BOTH = "req", "resp", "both"


def const(*vals):
    return lambda r: r.choice(vals)


def listed(gen, lo=1, hi=3):
    return lambda r: a.lst(r, gen, lo, hi)


def csp(r):
    dirs = []
    for _ in range(r.randint(1, 4)):
        name = r.choice(["default-src", "script-src", "style-src", "img-src", "object-src", "report-uri",
                         "report-to", "frame-ancestors", "upgrade-insecure-requests", "base-uri", a.simple_token(r)])
        vals = [r.choice(["'self'", "'none'", "'unsafe-inline'", "'unsafe-eval'", "*", "data:", "https:",
                          "http://example.com", "'nonce-" + a.chars(r, a.ALPHA, 4, 22) + "'",
                          "'strict-dynamic'", "https://*.example.com"]) for _ in range(r.randint(0, 3))]
        dirs.append(" ".join([name] + vals))
    return "; ".join(dirs)


def set_cookie(r):
    out = f"{a.simple_token(r)}={a.chars(r, a.ALPHA + a.DIGIT + '!#$%&()*+-./:<=>?@[]^_`{|}~', 0, 12)}"
    for _ in range(r.randint(0, 4)):
        out += "; " + r.choice([
            "Secure", "HttpOnly", "Path=/" + a.segment(r), "Domain=" + r.choice(["example.com", ".example.com", "x"]),
            "Max-Age=" + a.nonneg(r), "Expires=" + a.imf_date(a.epoch(r)),
            "SameSite=" + r.choice(["Lax", "Strict", "None", "bogus"]), "Partitioned", a.simple_token(r),
        ])
    return out


def cookie(r):
    return "; ".join(f"{a.simple_token(r)}={a.chars(r, a.ALPHA + a.DIGIT, 0, 8)}" for _ in range(r.randint(1, 3)))


def cc_resp(r):
    def one(r):
        return r.choice([
            lambda: "max-age=" + a.nonneg(r), lambda: "s-maxage=" + a.nonneg(r), lambda: "no-store",
            lambda: "no-cache", lambda: "private", lambda: "public", lambda: "must-revalidate",
            lambda: "proxy-revalidate", lambda: "no-transform", lambda: "immutable",
            lambda: "stale-if-error=" + a.nonneg(r), lambda: "stale-while-revalidate=" + a.nonneg(r),
            lambda: 'private="set-cookie"', lambda: 'no-cache="foo, bar"', lambda: a.cc_directive(r),
            lambda: "pre-check=0", lambda: "post-check=0", lambda: "must-understand",
        ])()
    return a.lst(r, one, 1, 4)


def nel(r):
    return json.dumps({"report_to": r.choice(["default", "nel", "g"]), "max_age": r.choice([0, 60, 86400, -1, "x"]),
                       "include_subdomains": r.choice([True, False]), "success_fraction": r.choice([0, 0.5, 1, 2])})


def report_to(r):
    return json.dumps({"group": r.choice(["default", "nel"]), "max_age": r.choice([0, 86400]),
                       "endpoints": [{"url": r.choice(["https://example.com/r", "http://x/", a.uri(r)])}]})


def auth_challenge(r):
    return a.credentials(r)


# name -> (context, generator of plausible values)
FIELDS = {
    "Accept": (REQ, listed(a.accept_elem)),
    "Accept-CH": (RES, lambda r: ", ".join(r.choice(["DPR", "Width", "Sec-CH-UA", "ECT", a.sf_token(r)]) for _ in range(r.randint(1, 3)))),
    "Accept-Encoding": (REQ, listed(lambda r: r.choice(["gzip", "br", "identity", "*", a.simple_token(r)]) + (a.weight(r) if r.random() < .4 else ""))),
    "Accept-Language": (REQ, listed(lambda r: a.lang_range(r) + (a.weight(r) if r.random() < .4 else ""))),
    "Accept-Patch": (RES, listed(a.media_type)),
    "Accept-Post": (RES, listed(lambda r: a.media_range(r) + a.parameters(r))),
    "Accept-Query": (RES, lambda r: ", ".join(r.choice(['"application/jsonpath"', "application/sql", a.sf_item(r)]) for _ in range(r.randint(1, 3)))),
    "Accept-Ranges": (RES, const("bytes", "none", "bytes, foo", "items")),
    "Access-Control": (BOTH, const("allow <*>")),
    "Access-Control-Allow-Credentials": (RES, const("true", "false", "TRUE")),
    "Access-Control-Allow-Headers": (RES, listed(a.token)),
    "Access-Control-Allow-Methods": (RES, listed(const("GET", "POST", "PUT", "*", "get"))),
    "Access-Control-Allow-Origin": (RES, lambda r: r.choice(["*", "null", a.origin(r), "http://a.com http://b.com"])),
    "Access-Control-Expose-Headers": (RES, listed(a.token)),
    "Access-Control-Max-Age": (RES, a.nonneg),
    "Access-Control-Request-Headers": (REQ, listed(a.token)),
    "Access-Control-Request-Method": (REQ, const("GET", "PUT", "DELETE")),
    "Age": (RES, a.nonneg),
    "Allow": (RES, listed(const("GET", "HEAD", "POST", "PUT"))),
    "Alt-Svc": (RES, a.alt_svc),
    "Authentication-Info": (RES, listed(a.auth_param)),
    "Authorization": (REQ, a.credentials),
    "Available-Dictionary": (REQ, lambda r: ":" + a.b64(r, r.choice([32, 32, 16])) + ":"),
    "Cache-Control": (BOTH, cc_resp),
    "Cache-Group-Invalidation": (RES, a.sf_list),
    "Cache-Groups": (RES, a.sf_list),
    "Cache-Status": (RES, lambda r: r.choice(['ExampleCache; hit', 'C; fwd=uri-miss; fwd-status=304; stored; ttl=30', 'a; fwd=bogus; detail="x<y"', a.sf_list(r)])),
    "CDN-Cache-Control": (RES, lambda r: r.choice(["max-age=60, stale-while-revalidate=10", "no-store", a.sf_dict(r)])),
    "Clear-Site-Data": (RES, listed(const('"cache"', '"cookies"', '"*"', '"storage"', '"bogus"', "cache"))),
    "Connection": (BOTH, listed(const("close", "keep-alive", "upgrade", "x-foo"))),
    "nnCoection": (BOTH, const("close")),
    "Content-Base": (BOTH, a.absolute_uri),
    "Content-Disposition": (RES, a.disposition),
    "Content-Encoding": (BOTH, listed(const("gzip", "br", "x-gzip", "deflate", "identity", "zstd"), 1, 2)),
    "Content-Language": (BOTH, listed(a.language_tag)),
    "Content-Length": (BOTH, a.nonneg),
    "Content-Location": (RES, a.uri_reference),
    "Content-MD5": (BOTH, lambda r: a.b64(r, 16)),
    "Content-Range": (RES, a.content_range),
    "Content-Security-Policy": (RES, csp),
    "Content-Security-Policy-Report-Only": (RES, csp),
    "Content-Transfer-Encoding": (BOTH, const("binary", "7bit")),
    "Content-Type": (BOTH, lambda r: a.media_type(r) if r.random() < .7 else "text/html; charset=" + r.choice(["utf-8", "iso-8859-1", "utf-16", "bogus", '"UTF-8"', "us-ascii", "shift_jis"])),
    "Cookie": (REQ, cookie),
    "Cross-Origin-Embedder-Policy": (RES, const("require-corp", "credentialless", "unsafe-none", 'require-corp; report-to="x"', "bogus")),
    "Cross-Origin-Embedder-Policy-Report-Only": (RES, const("require-corp", 'require-corp; report-to="x"', "bogus")),
    "Cross-Origin-Opener-Policy": (RES, const("same-origin", "same-origin-allow-popups", "unsafe-none", 'same-origin; report-to="x"', "bogus")),
    "Cross-Origin-Opener-Policy-Report-Only": (RES, const("same-origin", 'same-origin; report-to="x"', "bogus")),
    "Cross-Origin-Resource-Policy": (RES, const("same-origin", "same-site", "cross-origin", "bogus", "Same-Origin")),
    "cteonnt-length": (BOTH, const("12")),
    "Date": (BOTH, a.http_date),
    "Deprecation": (RES, lambda r: r.choice(["@1688169599", "?1", "true", a.http_date(r), a.sf_item(r)])),
    "ETag": (RES, a.entity_tag),
    "Expect": (REQ, const("100-continue", "100-Continue", "foo=bar", "a, b")),
    "Expires": (RES, lambda r: r.choice(["0", "-1", a.http_date(r), a.http_date(r)])),
    "From": (REQ, a.mailbox),
    "Host": (REQ, lambda r: a.host(r) + (":" + a.port(r) if r.random() < .4 else "")),
    "If-Match": (REQ, lambda r: "*" if r.random() < .2 else a.lst(r, a.entity_tag)),
    "If-Modified-Since": (REQ, a.http_date),
    "If-None-Match": (REQ, lambda r: "*" if r.random() < .2 else a.lst(r, a.entity_tag)),
    "If-Range": (REQ, lambda r: a.entity_tag(r) if r.random() < .5 else a.http_date(r)),
    "If-Unmodified-Since": (REQ, a.http_date),
    "Keep-Alive": (BOTH, const("timeout=5", "timeout=5, max=100", "300")),
    "Last-Modified": (RES, a.http_date),
    "Link": (BOTH, listed(a.link_value, 1, 2)),
    "Location": (RES, a.uri_reference),
    "Max-Forwards": (REQ, a.nonneg),
    "MIME-Version": (BOTH, const("1.0")),
    "NEL": (RES, nel),
    "Origin": (REQ, a.origin),
    "P3P": (RES, const('CP="NOI"')),
    "Permissions-Policy": (RES, lambda r: r.choice(['geolocation=(self "https://a.com"), camera=()', "fullscreen=*", "microphone=self", "bogus=()", a.sf_dict(r)])),
    "Pragma": (BOTH, const("no-cache", "foo", "no-cache, foo")),
    "Proxy-Authenticate": (RES, auth_challenge),
    "Proxy-Authentication-Info": (RES, listed(a.auth_param)),
    "Proxy-Authorization": (REQ, a.credentials),
    "Proxy-Status": (RES, lambda r: r.choice(["r34; error=http_request_error", 'cdn; received-status=200; next-hop="b.example"', "a; error=bogus", a.sf_list(r)])),
    "Range": (REQ, a.range_value),
    "Referer": (REQ, lambda r: a.absolute_uri(r) if r.random() < .6 else a.partial_uri(r)),
    "Referrer-Policy": (RES, listed(const("no-referrer", "origin", "unsafe-url", "strict-origin-when-cross-origin", "same-origin", "bogus"), 1, 2)),
    "Report-To": (RES, report_to),
    "Reporting-Endpoints": (RES, lambda r: r.choice(['default="https://example.com/r"', 'a="/r", b="http://x/"', 'a="http://["', a.sf_dict(r)])),
    "Retry-After": (RES, lambda r: a.nonneg(r) if r.random() < .5 else a.http_date(r)),
    "Server": (RES, a.products),
    "Server-Timing": (RES, listed(a.server_timing)),
    "Set-Cookie": (RES, set_cookie),
    "Set-Cookie2": (RES, const("a=b; Version=1")),
    "SoapAction": (REQ, const('"http://example.com/"')),
    "Speculation-Rules": (RES, lambda r: r.choice(['"/rules.json"', '"https://a.com/r"', '"http://["', a.sf_list(r)])),
    "Strict-Transport-Security": (RES, a.hsts),
    "Sunset": (RES, a.http_date),
    "TCN": (RES, const("list", "choice", "bogus")),
    "TE": (REQ, listed(a.te_elem)),
    "Trailer": (BOTH, listed(a.token)),
    "Transfer-Encoding": (BOTH, listed(a.tenc_elem, 1, 2)),
    "Upgrade": (BOTH, listed(a.upgrade_elem)),
    "Use-As-Dictionary": (RES, const('match="/p/*"', 'match="/p/*", match-dest=("script"), id="x"', 'type=raw', 'match="(a)", ttl=5')),
    "User-Agent": (REQ, a.products),
    "Vary": (RES, lambda r: "*" if r.random() < .15 else a.lst(r, const("accept", "Accept-Encoding", "User-Agent", "Cookie", "foo", "Host"))),
    "Via": (BOTH, listed(a.via_elem)),
    "Warning": (RES, const('110 anderson/1.3.37 "Response is stale"', '199 x "y"')),
    "WWW-Authenticate": (RES, auth_challenge),
    "X-Cache": (RES, const("HIT", "MISS from x")),
    "X-Cache-Lookup": (RES, const("HIT from x:80")),
    "X-Content-Type-Options": (RES, const("nosniff", "NoSniff", "bogus")),
    "X-Frame-Options": (RES, const("DENY", "SAMEORIGIN", "ALLOW-FROM http://a.com/", "bogus", "deny, sameorigin")),
    "X-Pad": (BOTH, const("avoid browser bug")),
    "X-Powered-By": (RES, const("PHP/8")),
    "X-XSS-Protection": (RES, const("1; mode=block", "0")),
    "Accept-Charset": (BOTH, const("utf-8", "*")),
    "Expect-CT": (RES, const("max-age=0")),
    "Sec-Foo": (BOTH, const("bar")),
}
NAMES = sorted(FIELDS)
EXTRA_NAMES = ["x-aspnet-version", "Digest", "DNT", "Cookie2", "URI", "Man", "Width", "foo", "X-Custom", "x_cnection",
               "_onnection", "xx-pad", "X-Pad-For-Netscrape-Bug", "yyyyyyyyyy", "from", "Priority", "Sec-CH-UA"]

MARKUP = ["<script>alert(1)</script>", "<img src=x onerror=alert(1)>", "`<b>x</b>`", "](javascript:alert(1))",
          "![x](javascript:alert(1))", "\n\n<h1>x</h1>\n\n", "&lt;b&gt;", "\"><svg onload=1>", "```\n<i>\n```",
          "\x02", "\x03", "\x02klzzwxh:0001\x03", "\\`<u>\\`", "<!-- x -->", "[a]: http://x \"y\"", "**b**", "%(name)s", "%s", "%"]
NUMBERS = ["0", "-1", "+1", "1_000", "\xb2", "1.5", "1e5", " 1", "007", "9" * 20, "9" * 400, "9" * 5000, "0x10", "\u0661".encode().decode("latin-1"),
           "2147483648", "-0", "1 1", "1,1", "", "NaN", "inf", "99999999999999", "100000000000"]
CONTROL = ["\x00", "\r", "\n", "\r\n", "\x0b", "\x0c", "\x1f", "\x7f", "\x85", "\xa0", "\xff", "\t", "\x1c"]
STRUCT = ["'", '"', "\\", "(", ")", "<", ">", ";", ",", "=", "{", "}", "[", "]", ":", "/", "@", "?", "*", "%", "#", "`", "|", "&", "!", "$", "~", "^"]
ODDBALLS = ["http://[", "http://[::1", "//[", "http://a:b", "http://a:99999999", "http://\u00e9/", "http://xn--/", "[[[[", "{" * 50, "[" * 50, "(" * 50, '"' * 51, "a=" * 50,
            "=?", "''", "*=''", "filename*=utf-8''%ff", "x*=UTF-8'en", "charset=undefined", "charset=idna", "charset=punycode", "charset=unicode_escape", "charset=rot13", "charset=hex",
            "charset=''", 'charset=""', "charset=\x00", "charset", ";;;", ",,,", "; =", "=;", '";"', '","', ":AA==:", ":A:", "@1", "@1.5", "@999999999999999", "%\"%zz\"", "?2", "1.2345", "-", "--1", "()", "(a", "a;", "a;b;b", "a=1,a=2", "Mon, 31 Feb 2020 00:00:00 GMT", "Sun, 06 Nov 0000 08:49:37 GMT", "Mon, 99 Jan 2020 99:99:99 GMT", "Sun, 06 Nov 1994 23:59:60 GMT"]


def hostile_value(r):
    pick = r.random()
    if pick < 0.25:
        base = a.chars(r, a.VCHAR + " ", 0, 12)
    elif pick < 0.5:
        base = r.choice(ODDBALLS)
    elif pick < 0.65:
        base = r.choice(NUMBERS)
    elif pick < 0.8:
        base = r.choice(MARKUP)
    elif pick < 0.9:
        base = "".join(chr(r.randrange(256)) for _ in range(r.randint(0, 30)))
    else:
        base = r.choice(STRUCT) * r.randint(1, 12)
    return mutate(r, base) if r.random() < 0.4 else base


def mutate(r, value):
    out = value
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        pos = r.randint(0, len(out))
        op = r.randint(0, 8)
        if op == 0:
            out = out[:pos] + r.choice(STRUCT) + out[pos:]
        elif op == 1:
            out = out[:pos] + r.choice(CONTROL) + out[pos:]
        elif op == 2 and out:
            out = out[:pos - 1] + out[pos:]
        elif op == 3:
            out = out[:pos] + r.choice(MARKUP) + out[pos:]
        elif op == 4 and len(out) > 1:
            i, j = sorted(r.sample(range(len(out)), 2))
            out = out[:j] + out[i:j] + out[j:]
        elif op == 5 and len(out) > 1:
            i, j = sorted(r.sample(range(len(out)), 2))
            out = out[:i] + out[j:]
        elif op == 6:
            out = out.upper() if r.random() < .5 else out.lower()
        elif op == 7:
            out = out[:pos] + r.choice(NUMBERS + ODDBALLS) + out[pos:]
        elif op == 8 and out:
            # replace a run of digits by an odd number
            import re  # pylint: disable=import-outside-toplevel

            out = re.sub(r"\d+", lambda m: r.choice(NUMBERS), out, count=1)
    return out


def to_latin1(text):
    return text.encode("latin-1", "replace").decode("latin-1")


def vary_case(r, name):
    pick = r.random()
    if pick < 0.5:
        return name
    if pick < 0.65:
        return name.lower()
    if pick < 0.75:
        return name.upper()
    return "".join(c.upper() if r.random() < .5 else c.lower() for c in name)


_WORDS = {}


def words(name):
    "The short strings in the module that handles the field: its directives, parameters and values."
    key = name.lower().replace("-", "_")
    if key not in _WORDS:
        found = set()
        import importlib  # pylint: disable=import-outside-toplevel
        import types  # pylint: disable=import-outside-toplevel

        def visit(thing, depth=0):
            if isinstance(thing, str):
                if 1 < len(thing) <= 24 and thing.isascii() and all(c.isalnum() or c in "_-.*:/" for c in thing):
                    found.add(thing)
            elif depth < 6:
                if isinstance(thing, types.CodeType):
                    for const in thing.co_consts:
                        visit(const, depth + 1)
                elif isinstance(thing, types.FunctionType):
                    visit(thing.__code__, depth + 1)
                elif isinstance(thing, dict):
                    for one, two in list(thing.items()):
                        visit(one, depth + 1)
                        visit(two, depth + 1)
                elif isinstance(thing, (list, tuple, set, frozenset)):
                    for one in thing:
                        visit(one, depth + 1)
                elif type(thing).__name__ == "Token":
                    visit(str(thing), depth + 1)

        try:
            module = importlib.import_module("httplint.field.parsers." + {"from": "from_field"}.get(key, key))
        except ImportError:
            module = None
        if module:
            for var, val in vars(module).items():
                if isinstance(val, type):
                    if val.__module__ == module.__name__ and not var.isupper() and not var.endswith("Test"):
                        for inner in vars(val).values():
                            visit(inner, 1)
                elif not var.startswith("__"):
                    visit(val)
        _WORDS[key] = sorted(found)
    return _WORDS[key]


def worded(r, name):
    "A value put together from the words of the field, with values of every type."
    vocabulary = words(name) or ["x"]

    def bare():
        return r.choice([a.sf_bare, a.sf_bare, a.token_or_qs, a.digits, lambda r: r.choice(vocabulary), lambda r: f'"{r.choice(vocabulary)}"', lambda r: r.choice(["?0", "?1"]), lambda r: r.choice(["?0", "?1", "0", "-1", "()", '""', "1.0", "nan"])])(r)

    def pair():
        word = r.choice(vocabulary) if r.random() < 0.9 else a.sf_key(r)
        return word if r.random() < 0.3 else word + "=" + (f"({bare()} {bare()};{r.choice(vocabulary)})" if r.random() < 0.1 else bare())

    def member():
        first = pair() if r.random() < 0.5 else bare() if r.random() < 0.8 else f"({bare()} {bare()})"
        return first + "".join(r.choice(["; ", ";"]) + pair() for _ in range(r.choice([0, 0, 1, 1, 2, 4])))

    return r.choice([", ", ", ", ",", "; "]).join(member() for _ in range(r.choice([1, 1, 1, 2, 3])))


def hostile_name(r):
    pick = r.random()
    if pick < 0.3:
        return r.choice(NAMES) + r.choice([" ", "\t", "\x00", "\x85", "\xa0", "\n", "\x1c", "\x0b", ":", ".", "_", "\u00e9"])
    if pick < 0.5:
        return r.choice([" ", "\t", "\x1f", "\xe9"]) + r.choice(NAMES)
    if pick < 0.6:
        return r.choice(NAMES).replace("-", r.choice(["_", "", "--", " ", "."]))
    if pick < 0.7:
        return r.choice(["", " ", "\xff", "__init__", "_", "utils", "accept_", "field", "os", "HttpField", "*", "!", "from_field", "From_Field", "x_pad"])
    if pick < 0.8:
        return r.choice(MARKUP)
    return hostile_value(r)


def field(r, kind=BOTH, wild=0.3):
    "one [name, value]"
    pick = r.random()
    if pick < 0.80:
        name = r.choice(NAMES)
        if kind != BOTH and FIELDS[name][0] not in (BOTH, kind) and r.random() < 0.85:
            for _ in range(20):
                name = r.choice(NAMES)
                if FIELDS[name][0] in (BOTH, kind):
                    break
    elif pick < 0.93:
        name = r.choice(EXTRA_NAMES)
    else:
        name = None
    if name in FIELDS and r.random() > wild:
        value = FIELDS[name][1](r)
    elif name in FIELDS and r.random() < 0.5:
        value = mutate(r, FIELDS[name][1](r))
    elif name is not None and r.random() < 0.4:
        value = worded(r, name)
    else:
        value = hostile_value(r)
    if name is None:
        name = hostile_name(r)
    else:
        name = vary_case(r, name)
    return [to_latin1(name), to_latin1(value)]


METHODS = ["GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "CONNECT", "TRACE", "PATCH", "PROPFIND", "get", "QUERY"]
STATUSES = ["200"] * 10 + [str(c) for c in (100, 101, 102, 103, 199, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305,
            306, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424,
            425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511, 599, 600, 999)]
ODD_STATUSES = ["", "abc", "2xx", "-200", "+200", " 200", "200 ", "20", "2000", "0", "000", "\xb2\xb0\xb0", "2_0_0", "9" * 5000, "1e2", "2.0"]
VERSIONS = ["1.1", "1.1", "1.1", "1.0", "2", "3", "HTTP/1.1", "HTTP/1.0", "", "0.9", "\xff"]


def uri(r, wild=0.2):
    if r.random() < wild:
        return to_latin1(r.choice([hostile_value(r), mutate(r, a.http_uri(r)), "*", "/", "", "http://" + "a" * 70 + ".com/", "http://a..b/", "http://" + "x" * 9000, "http://\xc3\xa9.com/\xc3\xa9?\xc3\xa9"]))
    return a.http_uri(r)


def body(r):
    pick = r.random()
    if pick < 0.3:
        return ""
    if pick < 0.5:
        return "".join(chr(r.randrange(256)) for _ in range(r.randint(1, 200)))
    if pick < 0.6:
        return ("h\xc3\xa9llo w\xc3\xb6rld " * r.randint(1, 30))
    text = r.choice([
        "<!DOCTYPE html><html><head><title>x</title></head><body>hello</body></html>", '{"a": 1}', "plain text",
        "\x89PNG\r\n\x1a\n\x00\x00", "GIF89a", "%PDF-1.4", "\xff\xd8\xff\xe0", "PK\x03\x04", "\xef\xbb\xbfbom", "<?xml version='1.0'?><a/>",
        "\xff\xfea\x00", "\x1f\x8b\x08", "RIFF....WEBP"]).encode("latin-1") * r.randint(1, 3)
    pick = r.random()
    if pick < 0.3:
        text = gzip.compress(text, mtime=0)
    elif pick < 0.4:
        text = zlib.compress(text)
    elif pick < 0.5 and brotli:
        text = brotli.compress(text)
    if r.random() < 0.15 and text:
        text = text[: r.randint(0, len(text))]
    if r.random() < 0.15 and text:
        pos = r.randrange(len(text))
        text = text[:pos] + bytes([r.randrange(256)]) + text[pos + 1:]
    return text.decode("latin-1")


def chunk(r, data):
    out = []
    while data:
        n = r.choice([1, 2, 7, 50, len(data), len(data)])
        out.append(data[:n])
        data = data[n:]
    if r.random() < 0.1:
        out.insert(r.randint(0, len(out)), "")
    return out


def start_time(r):
    return r.choice([None, None, 0.0, 1.5, 1700000000.0, 1700000000.25, float(r.randint(0, 2 ** 32)), 2e10])


def many(r, n, p=0.004):
    "n, or now and then, far more"
    return n if r.random() >= p else r.choice([20, 50, 110, 300])


def message(r, kind, maxfields=8, wild=0.3):
    msg = {"h": [field(r, kind, wild) for _ in range(many(r, r.randint(0, maxfields)))]}
    if r.random() < 0.1:
        msg["h"].append([r.choice(NAMES + EXTRA_NAMES), r.choice(["a", "a,", "\"", "=", " ", "(", "x "]) * r.choice([100, 900])])
    if r.random() < 0.3 and msg["h"]:
        # repeat a field
        name = r.choice(msg["h"])[0]
        msg["h"].insert(r.randint(0, len(msg["h"])), [name, field(r, kind, wild)[1]])
    msg["body"] = chunk(r, body(r))
    if r.random() < 0.3:
        msg["h"].append(["Content-Length", str(sum(map(len, msg["body"])) + r.choice([0, 0, 1]))])
    msg["complete"] = r.random() < 0.85
    msg["t"] = start_time(r)
    msg["nc"] = r.random() < 0.1
    msg["v"] = to_latin1(r.choice(VERSIONS))
    if r.random() < 0.2:
        msg["tr"] = [field(r, kind, wild) for _ in range(r.randint(0, 3))]
    if kind == REQ:
        msg["m"] = r.choice(METHODS) if r.random() < 0.93 else to_latin1(hostile_value(r))
        msg["u"] = uri(r)
    else:
        msg["s"] = r.choice(STATUSES) if r.random() < 0.93 else r.choice(ODD_STATUSES)
        msg["p"] = r.choice(["OK", "", "Not Found", "\xe9", "<b>"])
        msg["head"] = r.random() < 0.1
        msg["base"] = r.choice(["", "http://www.example.com/foo", "http://[", "not a uri", "/x"])
    return msg


def exchange(r, maxfields=8, wild=0.3):
    pick = r.random()
    case = {}
    if pick < 0.25 or pick >= 0.7:
        case["req"] = message(r, REQ, maxfields, wild)
    if pick >= 0.25:
        case["resp"] = message(r, RES, maxfields, wild)
    return case
