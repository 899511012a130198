"""C37: Advice about negotiation, intermediaries and unneeded fields is given exactly when it applies."""

import re
from collections import Counter

from mon import abnf as a
from mon import drive
from mon import gen as g
from mon.cachemodel import Model

PROPERTY = "C37"
RULE = (
    "requests with Accept-Encoding (weights, zero and not, and *) and Accept-Language; responses to them with Vary, Accept-CH, Content-Encoding, Content-Language, Accept-Ranges, Alt-Svc, Via and unneeded fields, "
    "members in any letter case, order and division into lines, storable or not, over http and https; distinct by the members and their context"
)
SIZES = {"quick": 5000, "thorough": 60000}
REQUIRE = {
    "kind:note": 17, "vary": 15000, "vary_many": 4500, "vary_star": 800, "hints": 10000, "hints_missing": 3000, "hints_listed": 800, "not_storable": 8000, "plain": 4000,
    "coding": 12000, "wanted": 3000, "unwanted": 5000, "zero": 800, "any": 800, "dictionary": 1500, "languages": 10000, "ranges": 10000, "alternatives": 8000,
    "via": 8000, "unnecessary": 6000, "prefer": 10000, "lines": 10000, "distinct": 25000,
}
MINE = {
    "VARY_USER_AGENT", "VARY_HOST", "VARY_NEGOTIATE", "VARY_DUPLICATE", "VARY_COMPLEX", "VARY_ASTERISK", "ACCEPT_CH_IN_PLAIN_HTTP", "ACCEPT_CH_MISSING_VARY", "ACCEPT_CH_BAD_TYPE",
    "ACCEPT_LANGUAGE_BAD_SYNTAX", "UNKNOWN_RANGE", "CONTENT_LANGUAGE_DUP", "ALTSVC_CLEAR_LIST", "VIA_PRESENT", "UNNECESSARY_HEADER", "ENCODING_UNWANTED", "DICTIONARY_COMPRESSED_MISSING_VARY",
}
REQ_MINE = {"ACCEPT_LANGUAGE_BAD_SYNTAX", "VIA_PRESENT", "BAD_Q_VALUE"}
VARY = [
    "accept", "accept-encoding", "accept-language", "user-agent", "host", "negotiate", "cookie", "origin", "available-dictionary", "x-foo", "referer", "save-data", "dpr", "sec-ch-ua",
    "user-agents", "x-host", "hosts", "negotiated", "agent", "available-dictionary2", "width", "authorization",
]
HINTS = ["dpr", "sec-ch-ua", "width", "save-data", "viewport-width", "sec-ch-ua-model", "user-agent", "accept", "rtt", "ect", "x-foo", "device-memory"]
CODINGS = ["gzip", "br", "zstd", "deflate", "dcb", "dcz", "foo", "gzip2", "compress", "dc", "exi"]
LANGUAGES = ["en", "fr", "en-us", "en-gb", "de", "zh-hant", "zh-hant-tw", "i-klingon", "x-a-b", "mi", "sr-latn", "es-419"]
RANGES = ["bytes", "none", "foo", "seconds", "byte", "bytes2", "nones", "lines", "x-y"]
UNNEEDED = [
    "x-aspnet-version", "x-aspnetmvc-version", "x-powered-by", "x-generator", "x-drupal-cache", "x-varnish", "x-mod-pagespeed", "x-pingback", "x-runtime", "x-rack-cache", "x-content-encoded-by",
    "x-backend-server", "tcn",
]
NEEDED = ["x-aspnet", "x-powered", "powered-by", "x-generators", "x-varnish-id", "x-runtime2", "xruntime", "x-backend", "x-drupal", "generator", "pingback", "x-powered-by2"]
STATUSES = [200, 200, 200, 203, 302, 404, 500, 301, 201, 410, 501, 403, 418]


def spell(r, text):
    how = r.random()
    if how < 0.4:
        return text
    if how < 0.6:
        return text.title()
    return "".join(c.upper() if r.random() < 0.3 else c for c in text)


def divided(r, ctx_lines, name, members):
    lines, here = [], []
    for m in members:
        here.append(m)
        if r.random() < 0.25:
            lines.append(here)
            here = []
    if here:
        lines.append(here)
    if len(lines) > 1:
        ctx_lines.append(name)
    return [[spell(r, name), r.choice([",", ", ", " , ", ",\t"]).join(line)] for line in lines]


def picked(r, options, most):
    out = [r.choice(options) for _ in range(g.many(r, r.randint(1, most)))]
    if r.random() < 0.5:
        out = list(dict.fromkeys(out))
    return out




def via(r):
    return (
        r.choice(["1.1", "1.0", "HTTP/1.1", "2", "http/2", "3"]) + " " + r.choice(["a", "proxy.example.com", "vegur", "[::1]:80", "varnish", "127.0.0.1:8080"])
        + r.choice(["", "", " (x)", " (a, b)", " (a (b, c) d)", " (a/1.0)", ' (clear)'])
    )


def alternative(r):
    return (
        r.choice(["h2", "h3", "h3-29", "clear2", "w%3Dx", "clears"]) + "=" + r.choice(['":443"', '"alt.example.com:8000"', '"clear"', '":1, clear"', '"a,clear,b"'])
        + "".join(a.ows(r) + ";" + a.ows(r) + p for p in r.sample(["ma=60", "persist=1", 'x="clear"', 'y=", clear"'], r.choice([0, 0, 1, 2])))
    )


def filled(r, codings):
    "Now and then, after or among many others."
    if r.random() < 0.97:
        return codings
    out = codings + [f"c{n}" for n in range(r.choice([5, 20, 100, 300]))]
    r.shuffle(out)
    return out


def make(r):
    req, resp, want, lines, info = [], [], Counter(), [], {}
    rwant = Counter()
    fields = {k for k in ("vary", "hints", "coding", "languages", "ranges", "alternatives", "via", "unnecessary", "prefer") if r.random() < 0.5}
    req_fields = {}
    # the request
    accept = None
    related = r.random() < 0.85
    if related:
        if r.random() < 0.75:
            accept = {}
            members = []
            for c in filled(r, r.sample(CODINGS + ["*", "*", "identity"], r.choice([1, 2, 3, 5]))):
                if c in accept:
                    continue
                weight = r.choice([None, None, "1", "0.5", "0.001", "1.000", "0", "0.", "0.0", "0.000"])
                accept[c] = weight is None or float(weight) > 0
                members.append(spell(r, c) + ("" if weight is None else a.ows(r) + ";" + a.ows(r) + r.choice("qqqQ") + "=" + weight))
            req += divided(r, lines, "Accept-Encoding", members)
        if "prefer" in fields:
            members = []
            for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
                lang = r.choice(LANGUAGES[:7] + ["*"])
                how = r.choice(["", "", "q", "q", "other", "both", "badq", "bad-other"])
                params = []
                if how in ("q", "both"):
                    params.append(r.choice("qQ") + "=" + r.choice(["0", "1", "0.5", "1.000", "0.123"]))
                if how in ("badq", "bad-other"):
                    params.append("q=" + r.choice(["2", "1.5", "-1", "0.1234", "x", "1.001"]))
                    rwant["BAD_Q_VALUE", lang] += 1
                if how in ("other", "both", "bad-other"):
                    params.append(r.choice(["level=1", 'x="a, b"', "qq=0.5", "charset=utf-8", "qs=1"]))
                    r.shuffle(params)
                    rwant["ACCEPT_LANGUAGE_BAD_SYNTAX", ""] += 1
                members.append(spell(r, lang) + "".join(a.ows(r) + ";" + a.ows(r) + p for p in params))
            req += divided(r, lines, "Accept-Language", members)
            info["prefer"] = True
        if r.random() < 0.15:
            req += divided(r, lines, "Via", [via(r) for _ in range(g.many(r, r.choice([1, 2])))])
            rwant["VIA_PRESENT", ""] += 1
    scheme = r.choice(["https", "https", "http", "HTTP", "Https"])
    method = r.choice(["GET", "GET", "GET", "HEAD", "POST"]) if related else None
    # storing the response
    directives = [[d, v] for d, v in (("max-age", "60"), ("public", None), ("private", None), ("no-store", None), ("s-maxage", "5"), ("no-cache", None)) if r.random() < 0.2]
    r.shuffle(directives)
    if directives:
        resp.append(["Cache-Control", ", ".join(d if v is None else f"{d}={v}" for d, v in directives)])
    status = r.choice(STATUSES)
    vary = []
    if "vary" in fields:
        vary = picked(r, VARY, r.choice([1, 2, 4, 8, 12]))
        if r.random() < 0.1:
            vary = vary[:2]
            vary.insert(r.randint(0, len(vary)), "*")
        resp += divided(r, lines, "Vary", [spell(r, v) for v in vary])
        distinct = set(vary)
        if len(distinct) < len(vary):
            want["VARY_DUPLICATE", ""] += 1
        if "*" in distinct:
            want["VARY_ASTERISK", ""] += 1
        if len(distinct) > 3:
            want["VARY_COMPLEX", str(len(distinct))] += 1
        for member, note in (("user-agent", "VARY_USER_AGENT"), ("host", "VARY_HOST"), ("negotiate", "VARY_NEGOTIATE")):
            if member in distinct:
                want[note, ""] += 1
        info["vary"] = len(distinct)
    spec = {
        "status": status, "method": method, "auth": False, "directives": directives, "vary_star": "*" in vary, "date": None, "expires": None, "age": None, "response_time": None,
        "request_time": None, "lm": False, "etag": False,
    }
    model = Model(spec)
    stored = model.private or model.shared
    info["stored"] = stored
    if "hints" in fields:
        hints = list(dict.fromkeys(picked(r, vary * 3 + HINTS if vary else HINTS, 4)))
        if "*" in hints:
            hints.remove("*")
        if hints:
            texts = [spell(r, h) for h in hints]
            members = [t + r.choice(["", "", "", ";a", ";a=1;b=?0"]) for t in texts]
            resp += divided(r, lines, "Accept-CH", members)
            missing = [t for t, h in zip(texts, hints) if h not in vary]
            if stored and missing:
                want["ACCEPT_CH_MISSING_VARY", ", ".join(missing)] += 1
            if related and scheme.lower() == "http":
                want["ACCEPT_CH_IN_PLAIN_HTTP", ""] += 1
            info["hints"] = [hints, missing]
    if "coding" in fields:
        codings = picked(r, CODINGS + r.sample(sorted(accept or {"gzip"}), 1) * 2, 3)
        codings = [c for c in codings if c not in ("*", "identity")]
        if codings:
            texts = [spell(r, c) for c in codings]
            resp += divided(r, lines, "Content-Encoding", texts)
            if related:
                for t, c in zip(texts, codings):
                    ok = (accept or {}).get(c, (accept or {}).get("*", False))
                    if not ok:
                        want["ENCODING_UNWANTED", t] += 1
                    info.setdefault("coding", []).append([c, bool(ok), accept is not None and accept.get(c) is False, accept is not None and c not in accept and "*" in accept])
            if stored and {"dcb", "dcz"} & set(codings):
                info["dictionary"] = True
                if "available-dictionary" not in vary:
                    want["DICTIONARY_COMPRESSED_MISSING_VARY", ""] += 1
    if "languages" in fields:
        langs = picked(r, LANGUAGES, 6)
        resp += divided(r, lines, "Content-Language", [spell(r, v) for v in langs])
        for lang, n in Counter(langs).items():
            if n > 1:
                want["CONTENT_LANGUAGE_DUP", lang] += 1
        info["languages"] = langs
    if "ranges" in fields:
        units = list(dict.fromkeys(picked(r, RANGES, 3)))
        resp += divided(r, lines, "Accept-Ranges", [spell(r, v) for v in units])
        for unit in units:
            if unit not in ("bytes", "none"):
                want["UNKNOWN_RANGE", unit] += 1
        info["ranges"] = units
    if "alternatives" in fields:
        if r.random() < 0.25:
            members = [spell(r, "clear") if r.random() < 0.3 else "clear"]
        else:
            members = [alternative(r) for _ in range(g.many(r, r.choice([1, 2, 3])))]
            if r.random() < 0.3:
                members.insert(r.randint(0, len(members)), r.choice(["clear", "clear", "clear", spell(r, "clear")]))
        resp += divided(r, lines, "Alt-Svc", members)
        if "clear" in members and len(members) > 1:
            want["ALTSVC_CLEAR_LIST", ""] += 1
        info["alternatives"] = members
    if "via" in fields:
        resp += divided(r, lines, "Via", [via(r) for _ in range(g.many(r, r.choice([1, 1, 2, 3])))])
        want["VIA_PRESENT", ""] += 1
        info["via"] = True
    if "unnecessary" in fields:
        for name in r.sample(UNNEEDED, r.choice([0, 1, 1, 2])):
            wire = spell(r, name)
            resp.append([wire, r.choice(["x", "1.2.3", "PHP/8 (y)", "a b"])])
            want["UNNECESSARY_HEADER", name] += 1
        for name in r.sample(NEEDED, r.choice([0, 1, 2])):
            resp.append([spell(r, name), "x"])
        info["unnecessary"] = True
    same = {}
    # lines of a field stay in order
    slots = [n.lower() for n, _ in resp]
    for n, v in resp:
        same.setdefault(n.lower(), []).append([n, v])
    r.shuffle(slots)
    resp = [same[s].pop(0) for s in slots]
    case = {"resp": {"s": str(status), "h": resp}}
    if related:
        case["req"] = {"m": method, "u": scheme + "://www.example.com/" + r.choice(["", "http:", "a?b=https://c/"]), "h": req}
    return {
        "msg": case, "want": sorted([k[0], k[1], n] for k, n in want.items()), "rwant": sorted([k[0], k[1], n] for k, n in rwant.items()), "info": info, "lines": lines,
    }


KEY = {
    "VARY_COMPLEX": "vary_count", "ACCEPT_CH_MISSING_VARY": "missing_fields", "ENCODING_UNWANTED": "coding", "CONTENT_LANGUAGE_DUP": "lang", "UNKNOWN_RANGE": "range",
    "UNNECESSARY_HEADER": "header_name", "BAD_Q_VALUE": "language",
}


def seen(linter, mine):
    out = Counter()
    for note in drive.all_notes(linter):
        name = type(note).__name__
        if name in mine:
            key = str(note.vars[KEY[name]]) if name in KEY else ""
            if name == "UNNECESSARY_HEADER":
                key = key.lower()
            if name == "ACCEPT_CH_MISSING_VARY":
                key = tuple(sorted(re.split(", ?", key.lower())))
            if name in ("ENCODING_UNWANTED", "UNKNOWN_RANGE", "CONTENT_LANGUAGE_DUP", "BAD_Q_VALUE"):
                key = key.lower()
            out[name, key] += 1
    return out


def wanted(items):
    out = Counter()
    for name, key, n in items:
        if name == "ACCEPT_CH_MISSING_VARY":
            key = tuple(sorted(key.lower().split(", ")))
        out[name, key.lower() if isinstance(key, str) else key] += n
    return out


def compare(ctx, what, got, want, case):
    for key in sorted(set(got) | set(want), key=repr):
        if key[0] == "UNNECESSARY_HEADER":  # said of each member or each line
            ok = bool(got[key]) == bool(want[key])
        elif key[0] == "ACCEPT_LANGUAGE_BAD_SYNTAX":
            ok = bool(got[key]) == bool(want[key])
        else:
            ok = got[key] == want[key]
        ctx.expect(ok, key[0].lower(), lambda: f"{what}: {key!r} is reported {got[key]} times, not {want[key]}: {case['msg']!r}")


def check(ctx, case):
    req, resp = drive.run(case["msg"])
    want, rwant = wanted(case["want"]), wanted(case["rwant"])
    compare(ctx, "response", seen(resp, MINE), want, case)
    if req is not None:
        compare(ctx, "request", seen(req, REQ_MINE), rwant, case)
    info = case["info"]
    for name, _ in list(want) + list(rwant):
        ctx.seen("note", name)
    if "vary" in info:
        ctx.count("vary")
        if info["vary"] > 3:
            ctx.count("vary_many")
        if ("VARY_ASTERISK", "") in want:
            ctx.count("vary_star")
    if "hints" in info:
        ctx.count("hints")
        if info["stored"]:
            ctx.count("hints_missing" if info["hints"][1] else "hints_listed")
    if not info["stored"]:
        ctx.count("not_storable")
    if req is not None and case["msg"]["req"]["u"][:5].lower() == "http:":
        ctx.count("plain")
    for _, ok, zero, star in info.get("coding", ()):
        ctx.count("coding")
        ctx.count("wanted" if ok else "unwanted")
        if zero:
            ctx.count("zero")
        if star:
            ctx.count("any")
    for kind in ("dictionary", "languages", "ranges", "alternatives", "via", "unnecessary", "prefer"):
        if kind in info:
            ctx.count(kind)
    if case["lines"]:
        ctx.count("lines")
    ctx.distinct_case([case["want"], case["rwant"], {k: v for k, v in info.items()}])
    ctx.sample(case["msg"])


def gen(rng, ctx):
    for _ in range(ctx.size):
        yield make(rng)
