"""C11: caches are said to be able to store a response exactly when HTTP lets them."""

from mon import abnf as a
from mon import drive
from mon import gen as g
from mon.cachemodel import HEURISTIC, Model

PROPERTY = "C11"
RULE = (
    "responses with random status, Cache-Control directives (order, case, lines, quoted look-alikes, extensions, bad values), Expires, Vary, and requests with "
    "random methods and Authorization; distinct by what the model depends on"
)
SIZES = {"quick": 15000, "thorough": 150000}
REQUIRE = {
    "judged": 20000, "kind:outcome": 4, "kind:reason": 5, "kind:status": 60, "shared_only": 100, "auth_shared": 300, "auth_private": 300,
}
DIRECTIVES = [
    "no-store", "private", "public", "must-revalidate", "no-cache", "max-age", "s-maxage", "proxy-revalidate", "no-transform", "immutable",
    "must-understand", "stale-if-error", "stale-while-revalidate", "ext",
]
STATUSES = [200, 201, 202, 203, 204, 205, 206, 207, 208, 226, 300, 301, 302, 303, 304, 305, 307, 308, 400, 401, 402, 403, 404, 405, 406, 407, 408, 409, 410, 411,
            412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 500, 501, 502, 503, 504, 505, 506, 507, 508, 510, 511, 299, 599, 499]
NUMBERS = ["0", "1", "60", "3600", "31536000", "2147483648", "99999999999"]
NOTES = {"STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_PUBLIC_CONFLICT", "STORE_PUBLIC_AUTH", "STORE_PRIVATE_AUTH", "STORE_STORABLE",
         "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE"}


def expected_notes(m, spec):
    "Which of the notes about storage should be there."
    cc = m.cc
    if m.reason in ("vary", "method"):
        return set()
    if m.reason == "no-store":
        return {"STORE_NO_STORE"}
    if m.reason == "nothing":
        return {"STORE_UNSTORABLE"}
    if "private" in cc:
        return {"STORE_PRIVATE_CC"} | ({"STORE_PRIVATE_PUBLIC_CONFLICT"} if "public" in cc else set())
    if spec["auth"]:
        return {"STORE_PUBLIC_AUTH" if m.shared else "STORE_PRIVATE_AUTH"}
    return {"STORE_STORABLE" if m.private else "STORE_STORABLE_SHARED_ONLY"}


def check(ctx, case):
    spec = case["spec"]
    if spec["expires"] == "bad" and spec["status"] not in HEURISTIC:
        # an Expires that isn't a date allows storing an already stale response; not decided
        cc = {d for d, _ in spec["directives"]}
        if not cc & {"public", "private", "max-age", "no-store"}:
            ctx.count("undecided")
            return
    m = Model(spec)
    req, resp = drive.run(case["msg"])
    c = resp.caching
    ctx.count("judged")
    ctx.seen("outcome", (m.private, m.shared))
    ctx.seen("reason", str(m.reason))
    ctx.seen("status", spec["status"])
    if m.shared and not m.private:
        ctx.count("shared_only")
    if spec["auth"]:
        ctx.count("auth_shared" if m.shared else "auth_private")
    ctx.distinct_case([spec["status"], spec["method"], spec["auth"], spec["directives"], spec["expires"], spec["vary_star"]])
    ctx.sample(case["msg"])
    for what, got, want in (("private", c.store_private, m.private), ("shared", c.store_shared, m.shared)):
        ctx.expect(
            got is want, f"store_{what}",
            lambda: f"{what} caches {'can' if want else 'can not'} store this, but store_{what} is {got!r}: {spec!r}",
        )
    names = set(drive.names(resp)) & NOTES
    ctx.expect(names == expected_notes(m, spec), "notes", lambda: f"notes {sorted(names)}, not {sorted(expected_notes(m, spec))}: {spec!r}")
    for note in resp.notes:
        if type(note).__name__ == "STORE_PUBLIC_AUTH":
            ctx.expect(
                note.vars["directive"] in m.cc and note.vars["directive"] in ("public", "must-revalidate", "s-maxage"), "auth-directive",
                lambda: f"storing is said to be allowed by {note.vars['directive']!r}: {spec!r}",
            )
    if req is not None:
        has = "STORE_METHOD_UNCACHEABLE" in drive.names(req)
        ctx.expect(has == (m.reason == "method"), "method-note", lambda: f"STORE_METHOD_UNCACHEABLE is {has}: {spec!r}")
    star = "VARY_ASTERISK" in drive.names(resp)
    ctx.expect(star == spec["vary_star"], "vary-note", lambda: f"VARY_ASTERISK is {star}: {spec!r}")


def render_directive(r, name, value):
    if name == "ext":
        return r.choice(['ext="no-store, private"', "no-stores", "x-private", 'foo="public"', "nostore", 'a="b\\", no-store"', "max-age2=5", "privat"])
    wire = "".join(r.choice([c, c.upper()]) for c in name) if r.random() < 0.3 else name
    return wire if value is None else f"{wire}={value}"


def cache_control(r, most=4):
    "-> directives, lines"
    directives, texts = [], []
    for _ in range(g.many(r, r.choice([0, 1, 1, 2, 2, 3, most]))):
        name = r.choice(DIRECTIVES)
        value = None
        if name in ("max-age", "s-maxage", "stale-if-error", "stale-while-revalidate"):
            value = r.choice(NUMBERS) if r.random() < 0.85 else r.choice(["x", "-1", "1.5", "", "+1", "1_0"])
        texts.append(render_directive(r, name, value))
        if name != "ext":
            directives.append([name, value])
    lines, cur = [], []
    for t in texts:
        cur.append(t)
        if r.random() < 0.4:
            lines.append(r.choice([",", ", ", " ,\t"]).join(cur))
            cur = []
    if cur:
        lines.append(", ".join(cur))
    return directives, lines


def headers(r, spec, lines, names=True):
    h = [["Cache-Control", line] for line in lines]
    rest = []
    for name in ("date", "expires"):
        if spec[name] is not None:
            val = r.choice(["0", "-1", "now", "Thu, 32 Jan 2020 00:00:00 GMT", ""]) if spec[name] == "bad" else a.imf_date(spec[name])
            rest.append([name.capitalize(), val])
    if spec["vary_star"]:
        rest.append(["Vary", r.choice(["*", "Accept, *", "*, *", " * "])])
    elif r.random() < 0.2:
        rest.append(["Vary", r.choice(["Accept", "Accept-Encoding, Cookie", "**", "x*"])])
    if spec["age"] is not None:
        rest.append(["Age", str(spec["age"])])
    if spec["lm"]:
        rest.append(["Last-Modified", "Sat, 01 Jan 2000 00:00:00 GMT"])
    if spec["etag"]:
        rest.append(["ETag", r.choice(['"a"', 'W/"b"'])])
    if r.random() < 0.3:
        rest.append([r.choice(["Pragma", "Surrogate-Control", "CDN-Cache-Control", "X-Cache-Control"]), r.choice(["no-store", "private", "no-cache", "max-age=0"])])
    # keep the lines of Cache-Control in order
    for item in rest:
        h.insert(r.randint(0, len(h)), item)
    if names:
        h = [["".join(r.choice([c, c.upper()]) for c in n) if r.random() < 0.1 else n, v] for n, v in h]
    return h


def make(r, status=None):
    directives, lines = cache_control(r)
    now = 1700000000
    spec = {
        "status": status or r.choice(STATUSES if r.random() < 0.7 else [200, 302, 500]),
        "method": r.choice([None, "GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS", "get", "FOO"]),
        "directives": directives,
        "vary_star": r.random() < 0.06,
        "date": r.choice([None, now, now, now - 30]),
        "expires": r.choice([None, None, None, now + 600, now - 600, "bad"]),
        "age": r.choice([None, None, 0, 5, 5000]),
        "response_time": r.choice([None, float(now)]), "request_time": None,
        "lm": r.random() < 0.3, "etag": r.random() < 0.3,
    }
    spec["auth"] = spec["method"] is not None and r.random() < 0.4
    msg = {"resp": {"s": str(spec["status"]), "h": headers(r, spec, lines), "t": spec["response_time"]}}
    if spec["method"] is not None:
        h = [["User-Agent", "x"]]
        if spec["auth"]:
            h.insert(r.randint(0, 1), [r.choice(["Authorization", "authorization", "AUTHORIZATION"]), r.choice(["Basic eDp5", "Bearer abc", ""])])
        elif r.random() < 0.3:
            h.append([r.choice(["Proxy-Authorization", "X-Authorization", "Cookie"]), "Basic eDp5"])
        if r.random() < 0.2:
            h.append(["Cache-Control", r.choice(["no-store", "no-cache", "max-age=0", "only-if-cached"])])
        msg["req"] = {"m": spec["method"], "h": h}
    return {"spec": spec, "msg": msg}


def gen(rng, ctx):
    for i in range(ctx.size):
        j = i * ctx.workers + ctx.worker
        yield make(rng, STATUSES[j % len(STATUSES)] if j < 4 * len(STATUSES) else None)
