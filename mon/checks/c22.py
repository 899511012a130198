"""C22: content and transfer codings that a message can't have are reported, and those that it can aren't."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C22"
RULE = (
    "requests of each method and responses of each kind of status code, to HEAD and others, with content (none, empty chunks, some, coded) and each combination of Content-Length, "
    "Transfer-Encoding (registered and unknown codings, any letter case, with parameters, divided over lines), TE and Expect in the related request; distinct by method, status code, content and those fields"
)
SIZES = {"quick": 4000, "thorough": 60000}
REQUIRE = {
    "request_codings": 2000,
    "kind:method": 9, "kind:status": 40, "not_allowed": 1500, "allowed": 6000, "undefined": 1500, "defined": 1500, "both": 1000, "unwanted": 2500, "asked": 800, "identity": 800, "params": 800,
    "no_content": 1000, "http10": 300, "expect_unknown": 500, "user_agent": 2000, "correct": 2000, "incorrect": 2000,
}
METHODS = ["GET", "HEAD", "DELETE", "CONNECT", "TRACE", "POST", "PUT", "PATCH", "OPTIONS", "PROPFIND", "get", "Trace", "QUERY"]
UNDEFINED = {"GET", "HEAD", "DELETE", "CONNECT", "TRACE"}
CODINGS = ["chunked", "chunked", "chunked", "gzip", "deflate", "compress", "identity", "x-gzip", "foo", "x1"]
STATUS = [100, 101, 102, 103, 104, 199, 150, 200, 201, 202, 203, 204, 205, 206, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 404, 412, 416, 417, 500, 503, 599, 299, 203, 305, 410, 451, 511, 405, 406, 418, 421, 428, 431]
ALL = {
    "CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "CL_AND_TE_PRESENT", "TRANSFER_CODING_UNWANTED", "TRANSFER_CODING_IDENTITY", "TRANSFER_CODING_PARAM",
    "EXPECT_HTTP_1_0", "EXPECT_UNKNOWN", "MISSING_USER_AGENT", "CL_CORRECT", "CL_INCORRECT",
}


def spell(r, text):
    return "".join(c.upper() if r.random() < 0.2 else c for c in text)


def coding(r, lines):
    "-> [coding, has parameters]; adds to the field"
    name = r.choice(CODINGS)
    params = ""
    if r.random() < 0.2:
        params = a.ows(r) + ";" + a.ows(r) + r.choice(["a=b", 'q="x"', "level=9", "x=1; y=2"])
    lines.append(spell(r, name) + params)
    return [name, bool(params)]


def divided(r, name, members):
    "Members of a list, divided over lines."
    lines, here = [], []
    for m in members:
        here.append(a.ows(r) + m + a.ows(r))
        if r.random() < 0.25:
            lines.append([g.vary_case(r, name) if r.random() < 0.2 else name, ",".join(here)])
            here = []
    if here:
        lines.append([name, ",".join(here)])
    return lines


def message(r, kind):
    body = r.choice([[], [], [""], ["a"], ["hello", "", "world"], ["x" * 9000], ["\x1f\x8b\x08\0\0\0\0\0\0\x03\x03\0\0\0\0\0\0\0\0\0"]])
    size = len("".join(body))
    h, info = [], {"codings": [], "cl": None, "expect": [], "ua": False}
    if len("".join(body)) == 20 and body[0][0] == "\x1f":
        h.append(["Content-Encoding", "gzip"])
    if r.random() < 0.4:
        info["cl"] = r.choice([size, size, size + 1, max(0, size - 1), 0, 10])
        h.append([g.vary_case(r, "Content-Length"), "0" * r.choice([0, 0, 2]) + str(info["cl"])])
    if r.random() < 0.5:
        members = []
        info["codings"] = [coding(r, members) for _ in range(g.many(r, r.choice([1, 1, 2, 3])))]
        h += divided(r, "Transfer-Encoding", members)
    if kind == "req":
        if r.random() < 0.4:
            info["expect"] = [r.choice(["100-continue", "100-Continue", "foo", "x-y", "100-continue2", "bar=1"]) for _ in range(g.many(r, r.choice([1, 1, 2])))]
            h += divided(r, "Expect", info["expect"])
        if r.random() < 0.5:
            info["ua"] = True
            h.append(["User-Agent", r.choice(["foo/1.0", "a b (c)"])])
        info["te"] = []
        if r.random() < 0.5:
            info["te"] = r.sample(["gzip", "deflate", "compress", "foo", "x1", "x-gzip", "trailers"], r.choice([1, 2, 3]))
            h += divided(r, "TE", [spell(r, c) + (a.ows(r) + ";q=0.5" if c != "trailers" and r.random() < 0.3 else "") for c in info["te"]])
    for _ in range(g.many(r, r.choice([0, 0, 1, 2]))):
        h.append(["X-" + a.simple_token(r), a.simple_token(r)])
    same = {}
    for line in h:
        same.setdefault(line[0].lower(), []).append(line)
    r.shuffle(h)
    msg = {"h": h, "body": body, "v": r.choice(["1.1", "HTTP/1.1", "1.0", "HTTP/1.0", "2", "HTTP/2", "3"]), "nc": r.random() < 0.15}
    if r.random() < 0.15:
        msg["complete"] = False
    if kind == "req":
        msg["m"] = r.choice(METHODS)
        msg["u"] = "https://www.example.com/"
    else:
        msg["s"] = str(r.choice(STATUS))
    return msg, info


def gen(r, ctx):
    for _ in range(ctx.size):
        case = {"req": None, "resp": None, "info": {}}
        p = r.random()
        if p < 0.7:
            case["req"], case["info"]["req"] = message(r, "req")
        if p > 0.3:
            case["resp"], case["info"]["resp"] = message(r, "resp")
            if case["req"] and case["req"]["m"] == "HEAD" or not case["req"] and r.random() < 0.2:
                case["resp"]["head"] = True
        yield case


def shared(msg, info, want):
    size = len("".join(msg["body"]))
    te, cl = info["codings"], info["cl"]
    if te and cl is not None:
        want.append("CL_AND_TE_PRESENT")
    if any(c == "identity" for c, _ in te):
        want.append("TRANSFER_CODING_IDENTITY")
    want += ["TRANSFER_CODING_PARAM"] * sum(p for _, p in te)
    return size


def check(ctx, case):
    req, resp = drive.run(case)
    ctx.distinct_case([[case[k] and [case[k].get("m"), case[k].get("s"), case[k]["v"], case[k]["body"], sorted(map(tuple, case[k]["h"]))] for k in ("req", "resp")]])
    ctx.sample(case)
    if req is not None:
        msg, info, want = case["req"], case["info"]["req"], []
        size = shared(msg, info, want)
        if size and msg["m"] in UNDEFINED and not msg["nc"]:
            want.append("REQUEST_CONTENT_NOT_DEFINED")
        ctx.seen("method", msg["m"])
        ctx.count("undefined" if "REQUEST_CONTENT_NOT_DEFINED" in want else "defined", bool(size))
        if info["expect"] and msg["v"] in ("1.0", "HTTP/1.0"):
            want.append("EXPECT_HTTP_1_0")
            ctx.count("http10")
        if any(e.lower() != "100-continue" for e in info["expect"]):
            want.append("EXPECT_UNKNOWN")
            ctx.count("expect_unknown")
        if not info["ua"]:
            want.append("MISSING_USER_AGENT")
            ctx.count("user_agent")
        # a request's codings aren't ones that a response uses without being asked to
        ctx.count("request_codings", any(c not in ("chunked", "identity") for c, _ in info["codings"]))
        compare(ctx, req, msg, info, want, size, set())
    if resp is not None:
        msg, info, want = case["resp"], case["info"]["resp"], []
        size = shared(msg, info, want)
        code = int(msg["s"])
        barred = bool(msg.get("head")) or 100 <= code <= 199 or code in (204, 304)
        if barred and size and not msg["nc"]:
            want.append("CONTENT_NOT_ALLOWED")
        ctx.seen("status", code)
        ctx.count("not_allowed" if "CONTENT_NOT_ALLOWED" in want else "allowed", bool(size))
        asked = case["info"]["req"]["te"] if case["req"] else []
        unwanted = {c for c, _ in info["codings"]} - {"chunked", "identity"} - set(asked)
        ctx.count("unwanted", bool(unwanted))
        ctx.count("asked", any(c in asked for c, _ in info["codings"]))
        want += ["TRANSFER_CODING_UNWANTED"] * len(unwanted)
        compare(ctx, resp, msg, info, want, size, set(), can=not barred)
        told = [n.summary for n in resp.notes if type(n).__name__ == "TRANSFER_CODING_UNWANTED"]
        for c in unwanted:
            ctx.expect(any(f"'{c}'" in t for t in told), "names-coding", lambda: f"{c} isn't named in {told}")


def compare(ctx, linter, msg, info, want, size, ignore, can=True):
    ctx.count("no_content", msg["nc"])
    ctx.count("both", "CL_AND_TE_PRESENT" in want)
    ctx.count("identity", "TRANSFER_CODING_IDENTITY" in want)
    ctx.count("params", "TRANSFER_CODING_PARAM" in want)
    if info["cl"] is not None and can and not msg["nc"]:
        want.append("CL_CORRECT" if info["cl"] == size else "CL_INCORRECT")
        ctx.count(want[-1][3:].lower())
    got = sorted(n for n in drive.names(linter) if n in ALL - ignore)
    want = sorted(want)
    missing = [n for n in set(got + want) if got.count(n) != want.count(n)]
    ctx.expect(got == want, "notes:" + ",".join(sorted(missing)), lambda: f"notes {got}, not {want}, for {msg!r:.700}")
    parsed = linter.headers.parsed.get("transfer-encoding")
    if info["codings"]:
        ctx.expect(sorted(c for c, _ in parsed or []) == sorted(c for c, _ in info["codings"]), "codings", lambda: f"codings {parsed!r} for {msg['h']!r:.500}")
    ctx.expect(linter.content_length == size, "size", lambda: f"{linter.content_length} bytes, not {size}")
