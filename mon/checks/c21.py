"""C21: what the CORS fields mean for an exchange."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C21"
RULE = (
    "requests of each method with each combination of Origin (valid, null, several, invalid) and the preflight fields, and responses to them (and alone) with each combination of the Access-Control-* fields, "
    "Access-Control-Allow-Origin being the request's origin, almost that, null, * or several; names in any letter case, among unrelated fields; distinct by method, fields and values"
)
SIZES = {"quick": 2500, "thorough": 40000}
REQUIRE = {
    "kind:note": 15, "preflight": 2500, "almost_preflight": 2500, "alone": 800, "match": 1500, "mismatch": 1500, "null": 500, "star": 500, "null_to_null": 80,
    "origin_ok": 5000, "origin_bad": 500, "distinct": 10000,
}

ORIGIN, METHOD, HEADERS = "Origin", "Access-Control-Request-Method", "Access-Control-Request-Headers"
ACAO, ACAH, ACAM, ACMA = "Access-Control-Allow-Origin", "Access-Control-Allow-Headers", "Access-Control-Allow-Methods", "Access-Control-Max-Age"
ACAC, ACEH = "Access-Control-Allow-Credentials", "Access-Control-Expose-Headers"
MINE = [ORIGIN, METHOD, HEADERS, ACAO, ACAH, ACAM, ACMA, ACAC, ACEH]
REQ_NOTES = {
    "CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN", "CORS_PREFLIGHT_REQ_NO_METHOD", "BAD_ORIGIN_SYNTAX", "ORIGIN_MULTIPLE_VALUES",
}
RESP_NOTES = {
    "CORS_PREFLIGHT_RESPONSE", "CORS_PREFLIGHT_ONLY", "ACAO_MULTIPLE_VALUES", "CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH", "CORS_ORIGIN_NULL", "CORS_ORIGIN_STAR",
    "CORS_MAX_AGE_INVALID", "CORS_MAX_AGE_NEGATIVE",
}


def origin_parts(r):
    scheme = r.choice(["http", "https", "https", "https", "ftp", "a1+-.x", "moz-extension", "ws", "HTTPS", "Http", "Moz-Extension"])
    host = a.host(r)
    while not host or "," in host:
        host = a.host(r)
    port = r.choice([None, None, 0, 1, 80, 443, 8080, 65535, 65536, 98765, r.randint(1, 65535)])
    return [scheme, host, port]


def serialise(parts):
    scheme, host, port = parts
    return f"{scheme}://{host}" + ("" if port is None else f":{port}")


def bad_origin(r):
    good = serialise(origin_parts(r))
    host = good.split("://", 1)[1]
    return r.choice([
        good + "/", good + "/a", good + "?", good + "?q", good + "#f", host.split(":")[0] or "x", "//" + host, "1http://" + host, "http:/" + host, "http:" + host, "http//" + host,
        "http://u@" + host, good + ":8x", good + ":80:81", "Null", "NULL", "*", "", "nul", "nullx", '"' + good + '"', "<" + good + ">", good + ",", good + ";x", "http://a b"[:8] + "^", "://" + host, "-a://" + host,
    ])


def gen_origin(r):
    "-> text, what it should parse to, notes"
    p = r.random()
    if p < 0.15:
        return "null", None, []
    if p < 0.3:
        text = bad_origin(r)
        # some of those are valid hosts with other characters; make sure that they aren't
        if "," in text or ";" in text:
            text += "/"
        return text, None, ["BAD_ORIGIN_SYNTAX"]
    parts = origin_parts(r)
    if p < 0.85:
        parts[0], parts[1] = parts[0].lower(), parts[1].lower()
    text, value, notes = serialise(parts), [parts[0].lower(), parts[1].lower(), parts[2]], []
    if parts[2] is None and r.random() < 0.05:
        text += ":"  # the port can be empty
    if r.random() < 0.12:
        text += " " + " ".join(r.choice([serialise(origin_parts(r)), "null", "junk", bad_origin(r) or "x"]) for _ in range(r.randint(1, 2)))
        notes = ["ORIGIN_MULTIPLE_VALUES"]
    return text, value, notes


def gen_acao(r, origin):
    "A value related to the request's origin."
    text, value, _ = origin or ("https://example.com", ["https", "example.com", None], [])
    mine = serialise(value) if value else text
    p = r.random()
    if p < 0.25:
        return mine
    if p < 0.38:
        return "*"
    if p < 0.53:
        return "null"
    other = serialise(origin_parts(r))
    scheme, host, port = value or ["https", "example.com", None]
    return r.choice([
        other, other, mine + "/", mine + "/path", mine.upper(), mine + ":443", mine + ":80", mine[:-1], mine + "x", "http" + mine, serialise([scheme, host, 8080]), serialise([scheme, host, None]),
        serialise(["http", host, port]), serialise([scheme, "www." + host, port]), f"{mine}, {other}", f"{mine},{other}", f"{mine} {other}", f"*, {mine}", f"{other}, {mine}", "*,*", "NULL", "Null", "**", "* ", "none",
        host, "//" + host, f'"{mine}"',
    ])


def members(r, gen):
    "-> text, members"
    items = [gen(r) for _ in range(g.many(r, r.randint(1, 4)))]
    return r.choice([", ", ",", " , ", ",\t"]).join(items), items


def put(r, lines, name, value):
    lines.append([g.vary_case(r, name) if r.random() < 0.4 else name, r.choice(["", "", " ", "\t"]) + value + r.choice(["", "", " ", "\t"])])


def noise(r, lines, kind):
    r.shuffle(lines)
    mine = {n.lower() for n in MINE}
    for _ in range(g.many(r, r.choice([0, 0, 0, 1, 2]))):
        name, value = g.field(r, kind, wild=0.05)[:2]
        if name.strip().lower() not in mine and name.strip().lower() != "cookie" and name.isascii():
            lines.insert(r.randint(0, len(lines)), [name, value])
    return lines


def gen(r, ctx):
    for _ in range(ctx.size):
        case = {"req": None, "origin": None, "acrh": None, "acah": None, "acam": None, "aceh": None, "age": None, "acao": None, "acac": None}
        if r.random() < 0.88:
            lines = []
            if r.random() < 0.75:
                case["origin"] = gen_origin(r)
                put(r, lines, ORIGIN, case["origin"][0])
            if r.random() < 0.6:
                put(r, lines, METHOD, r.choice(["GET", "POST", "PUT", a.token(r)]))
            if r.random() < 0.5:
                text, case["acrh"] = members(r, a.token)
                put(r, lines, HEADERS, text)
            case["req"] = {"m": r.choice(["OPTIONS", "OPTIONS", "OPTIONS", "GET", "POST", "HEAD", "options", "OPTION", "PUT"]), "h": noise(r, lines, g.REQ)}
        lines = []
        if r.random() < 0.7:
            case["acao"] = gen_acao(r, case["origin"]).strip(" ")
            put(r, lines, ACAO, case["acao"])
        for key, name, gen_one, chance in (("acah", ACAH, a.token, 0.4), ("acam", ACAM, a.token, 0.4), ("aceh", ACEH, a.token, 0.2)):
            if r.random() < chance:
                text, case[key] = members(r, gen_one)
                put(r, lines, name, text)
        if r.random() < 0.4:
            case["age"] = r.choice([
                "0", "5", "600", "86400", "007", str(r.randint(0, 10**r.randint(1, 15))), "-1", "-600", f"-{r.randint(1, 10**9)}", "1.5", "abc", "", "1 2", "1_0", "+1", "1e3", "--1", "\xb2", "-", "1s", '"1"', "1,2", "0x10",
            ])
            put(r, lines, ACMA, case["age"])
        if r.random() < 0.3:
            case["acac"] = r.choice(["true", "true", "True", "TRUE", "false", "1", "", "true;", "truethy", "true, true", "yes", "?1"])
            put(r, lines, ACAC, case["acac"])
        case["resp"] = {"s": r.choice(["200", "204", "404", "301"]), "h": noise(r, lines, g.RES)}
        yield case


def has(lines, *names):
    low = {n.lower() for n in names}
    return any(n.lower() in low for n, _ in lines)


def check(ctx, case):
    req, resp = drive.run(case)
    about = f"request {case['req']!r:.500}, response {case['resp']['h']!r:.500}"
    preflight = False
    if req:
        lines, method = case["req"]["h"], case["req"]["m"]
        o, m, h = has(lines, ORIGIN), has(lines, METHOD), has(lines, HEADERS)
        preflight = method == "OPTIONS" and o and m
        want = []
        if preflight:
            want.append("CORS_PREFLIGHT_REQUEST")
        if (m or h) and method != "OPTIONS":
            want.append("CORS_PREFLIGHT_REQ_METHOD_WRONG")
        if (m or h) and not o:
            want.append("CORS_PREFLIGHT_REQ_NO_ORIGIN")
        if h and not m:
            want.append("CORS_PREFLIGHT_REQ_NO_METHOD")
        want += case["origin"][2] if case["origin"] else []
        got = [n for n in drive.names(req) if n in REQ_NOTES]
        ctx.expect(sorted(got) == sorted(want), "request-notes", lambda: f"{about}: {sorted(got)}, not {sorted(want)}")
        for name in want:
            ctx.seen("note", name)
        ctx.count("preflight", preflight)
        ctx.count("almost_preflight", not preflight and (m or h))
        for note in req.notes:
            name = type(note).__name__
            if name in ("CORS_PREFLIGHT_REQ_METHOD_WRONG", "CORS_PREFLIGHT_REQ_NO_ORIGIN", "CORS_PREFLIGHT_REQ_NO_METHOD"):
                named = (METHOD if m else HEADERS) if name != "CORS_PREFLIGHT_REQ_NO_METHOD" else HEADERS
                ctx.expect(note.summary.startswith(f"The {named} ") or m and h, "names-field", lambda: f"{about}: {note.summary}")
                if name == "CORS_PREFLIGHT_REQ_METHOD_WRONG":
                    ctx.expect(f">{method}<" in note.detail, "names-method", lambda: f"{about}: {note.detail}")
        if case["origin"]:
            text, value, _ = case["origin"]
            parsed = req.headers.parsed.get("origin", "absent")
            shown = None if parsed is None else [getattr(parsed, k, "?") for k in ("scheme", "host", "port")]
            ctx.count("origin_ok" if value else "origin_bad", text != "null")
            ctx.expect(shown == value, "origin-value", lambda: f"{about}: Origin {text!r} is {parsed!r}")
        if h:
            parsed = req.headers.parsed.get(HEADERS.lower())
            ctx.expect(parsed == [v.lower() for v in case["acrh"]], "request-headers-value", lambda: f"{about}: {parsed!r}")

    ctx.count("alone", req is None)
    lines, want = case["resp"]["h"], []
    only = [n for n in (ACAH, ACAM, ACMA) if has(lines, n)]
    if preflight:
        want.append("CORS_PREFLIGHT_RESPONSE")
    elif only:
        want.append("CORS_PREFLIGHT_ONLY")
    acao = case["acao"]
    result = None
    if acao is not None:
        if " " in acao or "," in acao:
            want.append("ACAO_MULTIPLE_VALUES")
        if case["origin"]:
            text, value, _ = case["origin"]
            mine = serialise(value) if value else text
            if acao == "null" and mine != "null":
                result = "CORS_ORIGIN_NULL"
            elif acao == "*":
                result = "CORS_ORIGIN_STAR"
            elif acao == mine:
                # an origin that isn't valid can't be allowed or refused sensibly
                result = "CORS_ORIGIN_MATCH" if value or text == "null" else None
            else:
                result = "CORS_ORIGIN_MISMATCH"
            ctx.count({"CORS_ORIGIN_NULL": "null", "CORS_ORIGIN_STAR": "star", "CORS_ORIGIN_MATCH": "match", "CORS_ORIGIN_MISMATCH": "mismatch", None: "undecided"}[result])
            ctx.count("null_to_null", acao == mine == "null")
            if result:
                want.append(result)
    age = case["age"]
    if age is not None:
        digits = age.isascii() and age.isdigit()
        negative = age[:1] == "-" and age[1:].isascii() and age[1:].isdigit()
        if not digits:
            want.append("CORS_MAX_AGE_NEGATIVE" if negative else "CORS_MAX_AGE_INVALID")
        parsed = resp.headers.parsed.get(ACMA.lower(), "absent")
        ctx.expect(parsed == (int(age) if digits else None), "max-age-value", lambda: f"{about}: {parsed!r}")
    got = [n for n in drive.names(resp) if n in RESP_NOTES]
    if acao is not None and case["origin"] and result is None:
        got = [n for n in got if not n.startswith("CORS_ORIGIN")]
    ctx.expect(sorted(got) == sorted(want), "response-notes", lambda: f"{about}: {sorted(got)}, not {sorted(want)}")
    for name in want:
        ctx.seen("note", name)
    for note in resp.notes:
        name = type(note).__name__
        if name == "CORS_PREFLIGHT_ONLY":
            for field in (ACAH, ACAM, ACMA):
                ctx.expect((field in note.detail) == (field in only), "only-lists", lambda: f"{about}: {note.detail}")
                ctx.expect((f"field-{field.lower()}" in note.subject.split()) == (field in only), "only-subject", lambda: f"{about}: {note.subject}")
        elif name in ("CORS_ORIGIN_MATCH", "CORS_ORIGIN_MISMATCH"):
            text, value, _ = case["origin"]
            shown = {k: str(v) for k, v in note.vars.items()}
            mine = serialise(value) if value else text
            ctx.expect(shown.get("origin") == mine, "shows-origin", lambda: f"{about}: {shown}")
            if name.endswith("MISMATCH"):
                ctx.expect(shown.get("acao_value") == acao, "shows-acao", lambda: f"{about}: {shown}")
    for key, name, low in (("acah", ACAH, True), ("acam", ACAM, False), ("aceh", ACEH, False)):
        if case[key]:
            parsed = resp.headers.parsed.get(name.lower())
            ctx.expect(parsed == [v.lower() if low else v for v in case[key]], "list-value", lambda: f"{about}: {name} is {parsed!r}")
    if case["acac"] is not None:
        ok = case["acac"] == "true"
        parsed = resp.headers.parsed.get(ACAC.lower(), "absent")
        ctx.expect(parsed == ("true" if ok else None), "credentials-value", lambda: f"{about}: {parsed!r}")
        reported = any(n.subject == f"field-{ACAC.lower()}" and type(n).__name__ in ("BAD_SYNTAX", "ACAC_NOT_TRUE") for n in resp.notes)
        ctx.expect(reported != ok, "credentials-note", lambda: f"{about}: {case['acac']!r} reported: {reported}")
    ctx.distinct_case([case["req"] and [case["req"]["m"], sorted(n.lower() for n, _ in case["req"]["h"])], case["origin"], acao, age, case["acac"], only])
    ctx.sample([case["req"] and case["req"]["m"], case["origin"], acao, sorted(want)])
