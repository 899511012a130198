"""C20: each status code is explained, and its misuse is reported."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C20"
RULE = (
    "responses with each registered status code, unregistered ones and text that isn't a code, alone and to requests of each method, with each of the fields that the code depends on present or absent "
    "(any letter case, divided over lines) among unrelated fields; distinct by status code, method and those fields"
)
SIZES = {"quick": 5000, "thorough": 60000}
REQUIRE = {"kind:code": 60, "kind:note": 48, "unregistered": 1500, "not_number": 1500, "misuse": 6000, "proper": 4000, "alone": 6500, "distinct": 8000}

REGISTERED = (
    [100, 101, 102, 103, 104] + list(range(200, 209)) + [226] + list(range(300, 309))
    + list(range(400, 419)) + list(range(421, 427)) + [428, 429, 431, 451] + list(range(500, 509)) + [510, 511]
)
# codes with a note whatever else is in the message
ALWAYS = {
    103: "STATUS_EARLY_HINTS", 104: "STATUS_UPLOAD_RESUMPTION_SUPPORTED", 208: "STATUS_ALREADY_REPORTED", 305: "STATUS_DEPRECATED", 306: "STATUS_RESERVED",
    400: "STATUS_BAD_REQUEST", 403: "STATUS_FORBIDDEN", 404: "STATUS_NOT_FOUND", 409: "STATUS_CONFLICT", 410: "STATUS_GONE", 413: "STATUS_REQUEST_ENTITY_TOO_LARGE",
    414: "STATUS_URI_TOO_LONG", 415: "STATUS_UNSUPPORTED_MEDIA_TYPE", 418: "STATUS_IM_A_TEAPOT", 421: "STATUS_MISDIRECTED_REQUEST", 425: "STATUS_TOO_EARLY",
    428: "STATUS_PRECONDITION_REQUIRED", 429: "STATUS_TOO_MANY_REQUESTS", 431: "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE", 451: "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS",
    500: "STATUS_INTERNAL_SERVICE_ERROR", 501: "STATUS_NOT_IMPLEMENTED", 502: "STATUS_BAD_GATEWAY", 503: "STATUS_SERVICE_UNAVAILABLE", 504: "STATUS_GATEWAY_TIMEOUT",
    505: "STATUS_VERSION_NOT_SUPPORTED", 508: "STATUS_LOOP_DETECTED", 511: "STATUS_NETWORK_AUTHENTICATION_REQUIRED",
}
DEPENDS = [100, 101, 201, 206, 301, 302, 303, 304, 307, 308, 405, 406, 412, 416, 417]
CONDITIONAL = ["If-Match", "If-None-Match", "If-Modified-Since", "If-Unmodified-Since", "If-Range"]
NEGOTIATION = ["Accept", "Accept-Charset", "Accept-Encoding", "Accept-Language"]
REQ_FIELDS = ["Expect", "Upgrade", "Range"] + CONDITIONAL + NEGOTIATION
RESP_FIELDS = ["Location", "Content-Range", "Date", "Content-Type", "Content-Encoding", "Content-Language", "Allow"]
METHODS = ["GET", "HEAD", "OPTIONS", "TRACE", "POST", "PUT", "DELETE", "PATCH", "CONNECT", "PROPFIND", "get", "FOO"]
SAFE = {"GET", "HEAD", "OPTIONS", "TRACE"}
OTHERS = {
    "NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304", "UNEXPECTED_CONTINUE", "UPGRADE_NOT_REQUESTED", "CREATED_SAFE_METHOD", "CREATED_WITHOUT_LOCATION", "PARTIAL_WITHOUT_RANGE",
    "PARTIAL_NOT_REQUESTED", "REDIRECT_WITHOUT_LOCATION", "STATUS_NONSTANDARD", "STATUS_METHOD_NOT_ALLOWED", "STATUS_405_METHOD_IN_ALLOW", "STATUS_NOT_ACCEPTABLE",
    "STATUS_406_WITHOUT_NEGOTIATION", "STATUS_PRECONDITION_FAILED", "STATUS_EXPECTATION_FAILED", "STATUS_412_WITHOUT_PRECONDITION", "STATUS_416_WITHOUT_RANGE",
    "STATUS_417_WITHOUT_EXPECT", "STATUS_417_WITH_100_CONTINUE", "STATUS_CODE_NON_NUMERIC",
}
ALL = set(ALWAYS.values()) | OTHERS
BAD_CODES = ["", "abc", "2xx", "-200", "+200", "2_00", "2_0_0", "200.0", "0x1f", "1e2", "\xb2\xb2", "\xb2", "20\xb0", "None", "two", "200,", "2 00", "\x1f", "200OK", "_200", "200_"]


def fields(r, kind, want):
    "Lines of the wanted fields among unrelated ones."
    lines = []
    for name in want:
        if name == "Expect":
            value = r.choice(["100-continue", "100-continue", "100-Continue", "100-CONTINUE", "foo", "foo, 100-continue", "100-continue ,bar", "x-100-continue", "foo=bar"])
        elif name == "Allow":
            value = ", ".join(r.sample(METHODS, r.randint(0, 5)))
        elif name == "Content-Encoding":
            value = r.choice(["gzip", "br", "foo"])
        else:
            value = a.ows(r) + g.FIELDS[name][1](r) + a.ows(r)
            if name == "Location" and r.random() < 0.05:
                value = ""
            elif not value.strip(" \t,"):
                value = {"Accept": "*/*", "Accept-Language": "en", "Accept-Encoding": "gzip", "Accept-Charset": "utf-8"}.get(name, "x")
        lines.append([g.vary_case(r, name) if r.random() < 0.3 else name, value])
        if name in ("Expect", "Allow") and r.random() < 0.2:
            lines.append([name, r.choice(["100-continue", "foo"]) if name == "Expect" else r.choice(METHODS)])
    known = {n.lower() for n in REQ_FIELDS + RESP_FIELDS}
    for _ in range(g.many(r, r.choice([0, 0, 1, 2, 3]))):
        name, value = g.field(r, g.REQ if kind == "req" else g.RES, wild=0.05)[:2]
        if name.strip().lower() not in known and not any(ord(c) > 126 for c in name):
            lines.insert(r.randint(0, len(lines)), [name, value])
    # one of the wrong kind, which doesn't count
    if r.random() < 0.1:
        other = r.choice(RESP_FIELDS if kind == "req" else REQ_FIELDS)
        if other not in ("Date", "Content-Type", "Content-Encoding", "Content-Language", "Content-Range", "Upgrade"):
            lines.append([other, "100-continue" if other == "Expect" else "x"])
    return lines


def gen_code(r):
    p = r.random()
    if p < 0.45:
        return str(r.choice(DEPENDS))
    if p < 0.85:
        return str(r.choice(REGISTERED))
    if p < 0.93:
        while True:
            code = r.choice([r.randint(100, 599), r.randint(0, 999), r.randint(1000, 10**6), 430, 427, 509, 419, 420, 499, 105, 209, 225, 299, 309, 512, 599, 600])
            if code not in REGISTERED:
                return str(code)
    return r.choice(BAD_CODES)


def gen(r, ctx):
    for _ in range(ctx.size):
        code = gen_code(r)
        case = {"req": None, "resp": {"s": code, "v": "1.1"}}
        want = r.sample(RESP_FIELDS, r.choice([0, 0, 1, 1, 2, 3, 7]))
        case["resp"]["h"] = fields(r, "resp", want)
        if r.random() < 0.8:
            n = r.choice([0, 0, 1, 1, 1, 2, 3])
            focus = {"100": ["Expect"], "417": ["Expect"], "101": ["Upgrade"], "206": ["Range"], "416": ["Range"], "406": NEGOTIATION, "412": CONDITIONAL}.get(code, REQ_FIELDS)
            have = r.sample(REQ_FIELDS, n)
            if r.random() < 0.4:
                have = list(dict.fromkeys(have + [r.choice(focus)]))
            elif r.random() < 0.6:
                have = [f for f in have if f not in focus]
            case["req"] = {"m": r.choice(METHODS), "u": "http://www.example.com/" + "a" * r.choice([0, 5, 300]), "h": fields(r, "req", have)}
            if case["req"]["m"] == "HEAD":
                case["resp"]["head"] = True
        yield case




def values(lines, name):
    "The members of a field."
    return [m.strip(" \t") for n, v in lines if n.lower() == name.lower() for m in v.split(",")]


def expected(code, case):
    "-> the names of the notes about the status code"
    resp, req = case["resp"]["h"], case["req"]
    has = lambda name: any(n.lower() == name.lower() for n, _ in resp)
    asked = lambda *names: any(n.lower() == m.lower() for n, _ in req["h"] for m in names)
    if code not in REGISTERED:
        return {"STATUS_NONSTANDARD"}
    if code in ALWAYS:
        return {ALWAYS[code]}
    out = set()
    if code == 100:
        if req and "100-continue" not in [e.lower() for e in values(req["h"], "Expect")]:
            out.add("UNEXPECTED_CONTINUE")
    elif code == 101:
        if req and not asked("Upgrade"):
            out.add("UPGRADE_NOT_REQUESTED")
    elif code == 201:
        if req and req["m"] in SAFE:
            out.add("CREATED_SAFE_METHOD")
        if not has("Location"):
            out.add("CREATED_WITHOUT_LOCATION")
    elif code == 206:
        if req and not asked("Range"):
            out.add("PARTIAL_NOT_REQUESTED")
        if not has("Content-Range"):
            out.add("PARTIAL_WITHOUT_RANGE")
    elif code in (301, 302, 303, 307, 308):
        if not has("Location"):
            out.add("REDIRECT_WITHOUT_LOCATION")
    elif code == 304:
        if not has("Date"):
            out.add("NO_DATE_304")
        if has("Content-Type") or has("Content-Encoding") or has("Content-Language"):
            out.add("HEADER_SHOULD_NOT_BE_IN_304")
    elif code == 405:
        out.add("STATUS_405_METHOD_IN_ALLOW" if req and req["m"] in values(resp, "Allow") else "STATUS_METHOD_NOT_ALLOWED")
    elif code == 406:
        out.add("STATUS_406_WITHOUT_NEGOTIATION" if req and not asked(*NEGOTIATION) else "STATUS_NOT_ACCEPTABLE")
    elif code == 412:
        out.add("STATUS_412_WITHOUT_PRECONDITION" if req and not asked(*CONDITIONAL) else "STATUS_PRECONDITION_FAILED")
    elif code == 416:
        if req and not asked("Range"):
            out.add("STATUS_416_WITHOUT_RANGE")
    elif code == 417:
        if req and not asked("Expect"):
            out.add("STATUS_417_WITHOUT_EXPECT")
        elif req and "100-continue" in [e.lower() for e in values(req["h"], "Expect")]:
            out.add("STATUS_417_WITH_100_CONTINUE")
        else:
            out.add("STATUS_EXPECTATION_FAILED")
    return out


MISUSE = {n for n in OTHERS if n not in ("STATUS_METHOD_NOT_ALLOWED", "STATUS_NOT_ACCEPTABLE", "STATUS_PRECONDITION_FAILED", "STATUS_EXPECTATION_FAILED", "STATUS_417_WITH_100_CONTINUE")}


def check(ctx, case):
    req, resp = drive.run(case)
    text = case["resp"]["s"]
    got = [n for n in drive.names(resp) if n in ALL]
    about = f"status {text!r}, request {case['req']!r:.400}, fields {case['resp']['h']!r:.400}"
    if not text.isascii() or not text.isdigit():
        ctx.count("not_number")
        ctx.expect("STATUS_CODE_NON_NUMERIC" in got, "non-numeric", lambda: f"{about}: {got}")
        ctx.expect(resp.status_code is None, "non-numeric-value", lambda: f"{about}: {resp.status_code!r}")
        return
    code = int(text)
    ctx.expect(resp.status_code == code, "value", lambda: f"{about}: {resp.status_code!r}")
    want = expected(code, case)
    ctx.seen("code", code)
    ctx.count("unregistered", code not in REGISTERED)
    ctx.count("alone", case["req"] is None)
    ctx.count("misuse" if want & MISUSE else "proper", code in DEPENDS)
    ctx.distinct_case([code, case["req"] and [case["req"]["m"], sorted(n.lower() for n, _ in case["req"]["h"])], sorted(n.lower() for n, _ in case["resp"]["h"])])
    ctx.sample([text, case["req"] and case["req"]["m"], sorted(want)])
    for name in want:
        ctx.seen("note", name)
    ctx.expect(sorted(got) == sorted(want), f"notes:{code if code in REGISTERED else 'unregistered'}", lambda: f"{about}: notes {sorted(got)}, not {sorted(want)}")
    for note in resp.notes:
        name = type(note).__name__
        if name == "HEADER_SHOULD_NOT_BE_IN_304":
            for field in ("content-type", "content-encoding", "content-language"):
                present = any(n.lower() == field for n, _ in case["resp"]["h"])
                ctx.expect((field in note.detail.lower()) == present, "304-list", lambda: f"{about}: {note.detail}")
        elif name in ("STATUS_NONSTANDARD", "STATUS_DEPRECATED", "STATUS_RESERVED"):
            ctx.expect(str(code) in note.summary, "shows-code", lambda: f"{about}: {note.summary}")
        elif name == "REDIRECT_WITHOUT_LOCATION":
            ctx.expect(str(code) in note.detail, "shows-code", lambda: f"{about}: {note.detail}")
        elif name == "CREATED_SAFE_METHOD":
            ctx.expect(case["req"]["m"] in note.detail, "shows-method", lambda: f"{about}: {note.detail}")
        elif name in ("STATUS_METHOD_NOT_ALLOWED", "STATUS_405_METHOD_IN_ALLOW") and case["req"]:
            ctx.expect(case["req"]["m"] in note.summary, "shows-method", lambda: f"{about}: {note.summary}")
        elif name == "STATUS_URI_TOO_LONG" and case["req"]:
            ctx.expect(str(len(case["req"]["u"])) in note.summary, "shows-length", lambda: f"{about}: {note.summary}")


