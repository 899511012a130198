"""C36: Members of Structured Fields are checked against the types and values that each field defines."""

import re
from collections import Counter

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C36"
RULE = (
    "each field built on Structured Fields (and Server-Timing), with known and unknown keys and parameters and every type of value, in any number and order and divided into lines; Available-Dictionary with each Accept-Encoding, "
    "Cache-Group-Invalidation with each method, Deprecation at each time; distinct by the field and its context"
)
SIZES = {"quick": 12000, "thorough": 120000}
REQUIRE = {
    "kind:field": 11, "kind:note": 26, "kind:type": 9, "good": 6000, "bad": 12000, "params": 20000, "lines": 5500, "described": 12000, "distinct": 20000,
}
MINE = re.compile(r"^(CACHE_STATUS|PROXY_STATUS|CACHE_GROUP|USE_AS_DICT|AVAILABLE_DICT|PERMISSIONS_POLICY|DEPRECATION|SERVER_TIMING|ACCEPT_QUERY|ACCEPT_CH_BAD)")
TYPES = ["string", "token", "integer", "decimal", "true", "false", "bytes", "date", "display", "inner"]
CACHE_PARAMS = {"hit": ["true", "false"], "fwd": "FWD", "fwd-status": ["integer"], "ttl": ["integer"], "stored": ["true", "false"], "collapsed": ["true", "false"], "key": ["string"], "detail": ["string", "token"]}
FWD = ["bypass", "method", "uri-miss", "vary-miss", "miss", "request", "stale", "partial"]
PROXY_PARAMS = {"error": ["token"], "next-hop": ["token", "string"], "next-protocol": ["token", "bytes"], "received-status": ["integer"], "details": ["string"]}
REGISTERED = (  # RFC 9209 Section 2.3
    "dns_timeout dns_error destination_not_found destination_unavailable destination_ip_prohibited destination_ip_unroutable connection_refused connection_terminated connection_timeout "
    "connection_read_timeout connection_write_timeout connection_limit_reached tls_protocol_error tls_certificate_error tls_alert_received http_request_error http_request_denied "
    "http_response_incomplete http_response_header_section_size http_response_header_size http_response_body_size http_response_trailer_section_size http_response_trailer_size "
    "http_response_transfer_coding http_response_content_coding http_response_timeout http_upgrade_failed http_protocol_error proxy_internal_response proxy_internal_error "
    "proxy_configuration_error proxy_loop_detected"
).split()
ERRORS = REGISTERED + ["bogus_error"] * 3
UNKNOWN = ["foo", "x-y", "hits", "hit2", "fw", "errors", "next_hop", "ttls", "z", "nexthop", "status"]
DICTIONARY = {"match": ["string"], "match-dest": ["strings"], "id": ["string"], "type": ["token"], "ttl": ["integer"]}
SENSITIVE = ["camera", "microphone", "geolocation", "payment", "usb", "serial", "magnetometer", "accelerometer", "gyroscope", "screen-wake-lock"]
FEATURES = SENSITIVE + ["fullscreen", "autoplay", "midi", "battery", "camera2", "xr-spatial-tracking"]
SAFE = ["GET", "HEAD", "OPTIONS", "TRACE"]
METHODS = SAFE + ["POST", "PUT", "DELETE", "PATCH", "QUERY2", "get", "PROPPATCH"]
NUMBERS = ["0", "1", "1.5", "0.001", "53.2", "123456", "1e3", "-1"]
NOT_NUMBERS = ["abc", "1ms", "nan", "inf", "1_0", "1,5", "0x1", "1.2.3", "--1", "e5", "1e", "Infinity", ".", ""]


def value(r, kind):
    "-> text, what it looks like when shown (None if that isn't specified)"
    if kind == "string":
        text = r.choice(["a", "x y", "https://example.com/", "304", "a, b; c", "true", "miss", ""])
        return f'"{text}"', text
    if kind == "token":
        text = r.choice(["a", "foo", "h2", "x/y", "*a", "a:b", "true", "miss2"])
        return text, text
    if kind == "integer":
        text = str(r.choice([0, 1, 30, 200, 304, -1, 99999, 999999999999999]))
        return text, text
    if kind == "decimal":
        text = r.choice(["1.5", "0.1", "-2.25", "200.0"])
        return text, None
    if kind in ("true", "false"):
        return "?1" if kind == "true" else "?0", None
    if kind == "bytes":
        return ":" + a.b64(r, r.choice([0, 1, 5])) + ":", None
    if kind == "date":
        return f"@{r.choice([0, 1700000000, -5])}", None
    if kind == "display":
        return '%"' + r.choice(["a", "%c3%a9", "x y"]) + '"', None
    return "(" + " ".join(value(r, r.choice(["string", "token", "integer"]))[0] for _ in range(g.many(r, r.choice([0, 1, 2])))) + ")", None


def wrong(r, good, inner=True):
    return r.choice([t for t in TYPES if t not in good and (inner or t != "inner")])


def status_field(r, name, known):
    members, want, shown = [], [], []
    prefix = name.upper().replace("-", "_")
    for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
        target = r.choice(["ExampleCache", '"proxy.example.net"', "a", '"x y"', "CDN"])
        text, lines, used = target, [], set()
        for param in r.sample(sorted(known) + UNKNOWN[:4], r.choice([0, 1, 2, 3, 5])):
            if param not in known and r.random() < 0.5:
                param = r.choice(UNKNOWN)
            if param in used:
                continue
            used.add(param)
            allowed = known.get(param)
            line, problems = None, len(want)
            if allowed is None:
                kind = r.choice(TYPES[:-1])
                val, line = value(r, kind)
                want.append([f"{prefix}_UNKNOWN_PARAM", param])
            elif allowed == "FWD":
                kind = "token"
                val = r.choice(FWD)
                if r.random() < 0.3:
                    kind = r.choice(["token", "string", "integer", "true"])
                    val = {"token": r.choice(["missed", "hit", "Miss", "uri"]), "string": f'"{r.choice(FWD)}"', "integer": "1", "true": "?1"}[kind]
                    want.append([f"{prefix}_BAD_PARAM_VAL", param])
            else:
                kind = r.choice(allowed)
                if r.random() < 0.3:
                    kind = wrong(r, allowed + (["token"] if param in ("details", "key") else []), False)
                    want.append([f"{prefix}_BAD_PARAM_VAL", param])
                val, line = value(r, kind)
                if param == "error" and kind == "token":
                    val, line = r.choice(ERRORS), None
                if kind == "true":
                    line = None
            text += r.choice([";", "; "]) + param + ("" if kind == "true" and r.random() < 0.7 else "=" + val)
            # those that are known and right are described in words
            lines.append([line, param, kind != "false" and len(want) == problems and val != "bogus_error"])
        members.append(text)
        shown.append([target.strip('"'), lines])
    want.append([prefix, None])
    return {"f": name, "members": members, "want": want, "shown": shown}


def dictionary(r):
    members, want = [], []
    for key in r.sample(sorted(DICTIONARY) + ["foo", "x", "matches"], r.choice([1, 2, 3, 4])):
        allowed = DICTIONARY.get(key)
        if key == "match-dest":
            if r.random() < 0.5:
                text = "(" + " ".join(value(r, "string")[0] for _ in range(g.many(r, r.choice([0, 1, 2, 3])))) + ")"
            elif r.random() < 0.5:
                bad = [value(r, "string")[0] for _ in range(g.many(r, r.choice([0, 1, 2])))] + [value(r, r.choice(["token", "integer", "true", "bytes"]))[0]]
                r.shuffle(bad)
                text = "(" + " ".join(bad) + ")"
                want.append(["USE_AS_DICTIONARY_BAD_MATCH_DEST", None])
            else:
                text = value(r, wrong(r, ["string", "inner"]))[0]
                want.append(["USE_AS_DICTIONARY_BAD_MATCH_DEST", None])
        elif allowed is None:
            text = value(r, r.choice(TYPES))[0]
        else:
            kind = allowed[0]
            if r.random() < 0.35:
                kind = wrong(r, allowed)
                want.append(["USE_AS_DICTIONARY_BAD_TYPE", key])
            text = value(r, kind)[0]
        members.append(f"{key}={text}")
    return {"f": "Use-As-Dictionary", "members": members, "want": want}


def permissions(r):
    members, want = [], [["PERMISSIONS_POLICY_PRESENT", None]]
    for feature in r.sample(FEATURES, r.choice([1, 2, 3, 5])):
        pick = r.random()
        if pick < 0.2:
            text = "*"
            if feature in SENSITIVE:
                want.append(["PERMISSIONS_POLICY_WILDCARD", feature])
        elif pick < 0.4:
            text = r.choice(["none", "?1", "?0", "1", "1.5", ":aGk=:", "@1", "all", "src2", "*x", '"*"', '"self"', "**"])
            want.append(["PERMISSIONS_POLICY_INVALID_VALUE", feature])
        else:
            items = []
            for _ in range(g.many(r, r.choice([0, 1, 1, 2, 3]))):
                kind = r.choice(["self", "src", "origin", "origin", "quoted", "token", "other"])
                if kind in ("self", "src"):
                    items.append(kind)
                elif kind == "origin":
                    items.append(r.choice(['"https://example.com"', '"https://*.example.com"', '"https:"', '"selfish"']))
                elif kind == "quoted":
                    word = r.choice(["self", "src", "*", "none"])
                    items.append(f'"{word}"')
                    want.append(["PERMISSIONS_POLICY_QUOTED_KEYWORD", f"{word} {feature}"])
                elif kind == "token":
                    word = r.choice(["none", "all", "Self", "https", "example.com", "srcs"])
                    items.append(word)
                    want.append(["PERMISSIONS_POLICY_UNKNOWN_TOKEN", f"{word} {feature}"])
                else:
                    items.append(value(r, r.choice(["integer", "decimal", "true", "false", "bytes", "date"]))[0])
                    want.append(["PERMISSIONS_POLICY_INVALID_ITEM_TYPE", feature])
            items = [i + r.choice(["", "", "", "", ";a", ";b=1;c=?0"]) for i in items]
            text = "(" + " ".join(items) + ")" + r.choice(["", "", "", ";report-to=x"])
        members.append(feature if text == "?1" and r.random() < 0.5 else f"{feature}={text}")
    return {"f": "Permissions-Policy", "members": members, "want": want}


def groups(r, name):
    bad = r.random() < 0.4
    members = [value(r, "string")[0] for _ in range(g.many(r, r.choice([0, 1, 2, 3] if bad else [1, 2, 3])))]
    if bad:
        kinds = [wrong(r, ["string"]) for _ in range(g.many(r, r.choice([1, 1, 2, 3])))]
        members += [value(r, kind)[0] for kind in kinds]
        kinds = {"boolean" if kind in ("true", "false") else kind for kind in kinds}
        r.shuffle(members)
    prefix = "CACHE_GROUPS" if name == "Cache-Groups" else "CACHE_GROUP_INVALIDATION"
    case = {"f": name, "members": members, "want": [[prefix + "_BAD_TYPE", str(len(kinds))]] if bad else [], "method": r.choice(METHODS) if r.random() < 0.8 else None}
    if name == "Cache-Group-Invalidation" and case["method"] in SAFE:
        case["want"].append(["CACHE_GROUP_INVALIDATION_IGNORED", case["method"]])
    return case


def deprecation(r):
    now = r.choice([None, 1600000000.0, 1700000000.5, 2000000000.0])
    kind = r.choice(["date", "date", "date", "true"] + TYPES[:-1])
    text, want = value(r, kind)[0], []
    if kind == "date":
        when = r.choice([0, 1, 1500000000, 1650000000, 1700000000, 1700000001, 1800000000, 4000000000, -1, 1600000000, 2000000000])
        text = f"@{when}"
        if now:
            want = [["DEPRECATION_FUTURE" if when > now else "DEPRECATION_PAST", None]]
    elif kind == "true":
        want = [["DEPRECATION_TRUE", None]]
    else:
        want = [["DEPRECATION_BAD_TYPE", None]]
    return {"f": "Deprecation", "members": [text], "want": want, "now": now}


def timing(r):
    members, want = [], []
    for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
        metric = r.choice(["db", "cache", "cpu", "x-y", "total", "miss"])
        params = []
        if r.random() < 0.7:
            bad = r.random() < 0.4
            num = r.choice(NOT_NUMBERS if bad else NUMBERS)
            params.append("dur=" + (num if re.fullmatch(r"[A-Za-z0-9_.-]+", num) and r.random() < 0.7 else f'"{num}"'))
            if bad:
                want.append(["SERVER_TIMING_BAD_PARAM", f"{metric} {num}"])
        else:
            want.append(["SERVER_TIMING_MISSING_DUR", metric])
        if r.random() < 0.6:
            params.append("desc=" + r.choice(["foo", '"Cache Read"', '"a, b; dur=abc"', '"x;y"', '""']))
        else:
            want.append(["SERVER_TIMING_MISSING_DESC", metric])
        if r.random() < 0.3:
            params.append(r.choice(["foo=bar", "x=1", "durs=5", "description=x"]))
        r.shuffle(params)
        members.append(metric + "".join(r.choice([";", "; ", " ;", "\t; "]) + p for p in params))
    return {"f": "Server-Timing", "members": members, "want": want}


def query(r):
    members, want = [], []
    for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
        pick = r.random()
        if pick < 0.5:
            text = r.choice(["text/plain", "application/json", "image/*", "*/*", "application/vnd.x+json", "Text/HTML"])
            text = f'"{text}"' if r.random() < 0.4 else text
        elif pick < 0.75:
            text = value(r, wrong(r, ["string", "token", "display"]))[0]
            want.append(["ACCEPT_QUERY_BAD_TYPE", None])
        else:
            text = r.choice(["text", "text/", "a/b/c", '"text html"', '"/x"', '"a b/c"', '"text/x y"', '""', "*", "*/html"])
            want.append(["ACCEPT_QUERY_BAD_SYNTAX", text.strip('"')])
        members.append(text + r.choice(["", "", ";charset=utf-8", ';v="1"']))
    return {"f": "Accept-Query", "members": members, "want": want}


def hints(r):
    bad = r.random() < 0.4
    members = [r.choice(["Sec-CH-UA", "DPR", "Width", "Viewport-Width", "Sec-CH-UA-Platform"]) for _ in range(g.many(r, r.choice([0, 1, 2] if bad else [1, 2, 3])))]
    if bad:
        members += [value(r, wrong(r, ["token"]))[0] for _ in range(r.choice([1, 2]))]
        r.shuffle(members)
    return {"f": "Accept-CH", "members": members, "want": [["ACCEPT_CH_BAD_TYPE", None]] if bad else []}


def available(r):
    kind = "bytes" if r.random() < 0.5 else wrong(r, ["bytes", "inner"])
    codings = r.choice([None, ["gzip"], ["gzip", "br"], ["dcb"], ["gzip", "dcz"], ["dcb", "dcz"], ["DCB"], ["Dcz"], ["identity", "*"], ["dcbx"], ["dc"], ["gzip;q=0.5", "dcb;q=0.9"]])
    if codings and r.random() < 0.3:
        codings = codings + [f"c{n}" for n in range(r.choice([1, 2, 5, 20, 60]))]
        r.shuffle(codings)
    want = [] if kind == "bytes" else [["AVAILABLE_DICTIONARY_BAD_TYPE", None]]
    if not any(c.split(";")[0].lower() in ("dcb", "dcz") for c in codings or ()):
        want.append(["AVAILABLE_DICTIONARY_MISSING_AE", None])
    return {"f": "Available-Dictionary", "members": [value(r, kind)[0]], "want": want, "ae": codings, "after": r.random() < 0.5}


MAKERS = [
    lambda r: status_field(r, "Cache-Status", CACHE_PARAMS), lambda r: status_field(r, "Proxy-Status", PROXY_PARAMS), dictionary, permissions, lambda r: groups(r, "Cache-Groups"), lambda r: groups(r, "Cache-Group-Invalidation"),
    deprecation, timing, query, hints, available, lambda r: status_field(r, "Cache-Status", CACHE_PARAMS), permissions,
]


def gen(rng, ctx):
    for i in range(ctx.size):
        case = MAKERS[i % len(MAKERS)](rng)
        case["split"] = rng.random() < 0.4
        yield case


VARS = {
    "CACHE_GROUPS_BAD_TYPE": lambda v: v["got"].count(",") + 1, "CACHE_GROUP_INVALIDATION_BAD_TYPE": lambda v: v["got"].count(",") + 1,
    "_UNKNOWN_PARAM": lambda v: v["param"], "_BAD_PARAM_VAL": lambda v: v["param"], "USE_AS_DICTIONARY_BAD_TYPE": lambda v: v["param"], "WILDCARD": lambda v: v["feature"], "INVALID_VALUE": lambda v: v["feature"],
    "INVALID_ITEM_TYPE": lambda v: v["feature"], "QUOTED_KEYWORD": lambda v: f"{v['value']} {v['feature']}", "UNKNOWN_TOKEN": lambda v: f"{v['token']} {v['feature']}", "INVALIDATION_IGNORED": lambda v: v["method"],
    "SERVER_TIMING_BAD_PARAM": lambda v: f"{v['metric']} {v['value']}", "MISSING_DUR": lambda v: v["metric"], "MISSING_DESC": lambda v: v["metric"], "ACCEPT_QUERY_BAD_SYNTAX": lambda v: v["value"],
}


def observed(note):
    name = type(note).__name__
    for suffix, get in VARS.items():
        if name.endswith(suffix):
            return name, str(get(note.vars))
    return name, None


def check(ctx, case):
    name, members = case["f"], case["members"]
    lines = [[name, m] for m in members] if case["split"] else [[name, ", ".join(members)]]
    if name == "Available-Dictionary":
        others = [["Accept-Encoding", ", ".join(case["ae"])]] if case["ae"] else []
        linter = drive.request(lines + others if case["after"] else others + lines)
    else:
        linter = drive.run({"req": {"m": case["method"], "h": []} if case.get("method") else None, "resp": {"h": lines, "t": case.get("now")}})[1]
    want = Counter((cls, var) for cls, var in case["want"])
    got = Counter(observed(n) for n in drive.all_notes(linter) if MINE.match(type(n).__name__))
    ctx.seen("field", name)
    for cls, _ in want:
        ctx.seen("note", cls)
    bad = any(not cls.endswith(("_STATUS", "_PRESENT", "_PAST", "_FUTURE", "_TRUE")) for cls, _ in want)
    ctx.count("bad", bad)
    ctx.count("good", not bad)
    ctx.count("lines", len(lines) > 1)
    for text in members:
        ctx.count("params", text.count(";") + text.count("="))
        for start, kind in (('"', "string"), (":", "bytes"), ("@", "date"), ("%", "display"), ("(", "inner"), ("?", "boolean"), ("-", "negative")):
            ctx.seen("type", kind) if start in text else None
        ctx.seen("type", "decimal") if re.search(r"[=( ]-?\d+\.\d", text) else None
        ctx.seen("type", "integer") if re.search(r"=\d+(?![\d.])", text) else None
    ctx.distinct_case(case)
    for key in sorted(set(want) | set(got), key=repr):
        if want[key] != got[key]:
            ctx.violation(f"{key[0]}:{'missing' if want[key] > got[key] else 'extra'}", f"{lines} ({[case.get(k) for k in ('ae', 'method', 'now')]}) has {key} {got[key]} times, not {want[key]}; it has {sorted(got, key=repr)}"[:900])
    if "shown" in case:
        for note in linter.notes:
            if type(note).__name__ in ("CACHE_STATUS", "PROXY_STATUS"):
                blocks = str(note.vars["status"]).split("\n\n")
                ctx.expect(len(blocks) == len(case["shown"]), "members", lambda: f"{lines} is described as {blocks}")
                for block, (target, params) in zip(blocks, case["shown"]):
                    head, *rows = [x for x in block.split("\n") if x]
                    ctx.expect(target in head and len(rows) == len(params) and all((p is None or p in row) and (words is None or words == (f"`{name}`" not in row)) for (p, name, words), row in zip(params, rows)), "description", lambda: f"{target} with {params} is described as {block!r}")
                    ctx.count("described")
