"""C19: cookies are read as browsers read them, and what's wrong with them is reported."""

import re

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C19"
RULE = (
    "responses with up to four Set-Cookie lines: names (prefixes in any case, none), values of each length, attributes of every kind in any case, order, number and white space, Expires in many date formats and near-dates, "
    "Max-Age of any number and near-numbers, with edits of one to three characters, at times around the limits of lifetimes, with base URIs of any depth; and requests with Cookie lines; distinct by lines"
)
SIZES = {"quick": 3000, "thorough": 50000}
REQUIRE = {
    "cookies": 22000, "attributes": 50000, "kind:attribute": 11, "kind:note": 21, "dates": 8000, "bad_dates": 3000, "max_age": 4000, "edited": 4000, "long_lived": 500, "pairs": 8000, "hardened": 500, "duplicates": 800,
    "default_path": 500,
}
COOKIE_NOTES = {
    "SET_COOKIE_NO_NAME", "SET_COOKIE_BAD_DATE", "SET_COOKIE_EMPTY_MAX_AGE", "SET_COOKIE_LEADING_ZERO_MAX_AGE", "SET_COOKIE_NON_DIGIT_MAX_AGE", "SET_COOKIE_EMPTY_DOMAIN", "SET_COOKIE_NOT_SECURE",
    "SET_COOKIE_UNKNOWN_ATTRIBUTE", "SET_COOKIE_PRIORITY", "SET_COOKIE_VERSION", "SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE", "SET_COOKIE_PARTITIONED_NO_SECURE", "SET_COOKIE_TOO_LARGE", "SET_COOKIE_VALUE_TOO_LARGE",
    "SET_COOKIE_LIFETIME_TOO_LONG", "SET_COOKIE_PREFIX_SECURE_MISSING", "SET_COOKIE_PREFIX_HOST_BAD_DOMAIN", "SET_COOKIE_PREFIX_HOST_BAD_PATH", "SET_COOKIE_ATTRIBUTE_DUP", "SET_COOKIE_HARDENED", "SET_COOKIE_NAME_DUP",
}
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
LIMIT = 400 * 24 * 60 * 60
CHARS = "".join(chr(c) for c in range(33, 127)) + ' ;=;=,:\t\x7f\xa0\xe9\x85-/.'


PARTS = ["time", "day", "month", "year"]


class Undecided(Exception):
    pass


# the oracle: RFC 6265's user agent algorithms


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def read_date(text):
    "RFC 6265, Section 5.1.1 -> seconds, None, or the parts it lacks"
    tokens, here = [], ""
    for c in text:
        n = ord(c)
        if n == 9 or 0x20 <= n <= 0x2F or 0x3B <= n <= 0x40 or 0x5B <= n <= 0x60 or 0x7B <= n <= 0x7E:
            tokens.append(here)
            here = ""
        else:
            here += c
    tokens.append(here)
    when = day = month = year = None
    digits = "0123456789"

    def lead(token):
        n = 0
        while n < len(token) and token[n] in digits:
            n += 1
        return n

    for token in tokens:
        if not token:
            continue
        if when is None:
            parts = token.split(":")
            if len(parts) >= 3 and all(p and len(p) <= 2 and lead(p) == len(p) for p in parts[:2]) and 1 <= lead(parts[2]) <= 2:
                when = (int(parts[0]), int(parts[1]), int(parts[2][: lead(parts[2])]))
                continue
        if day is None and 1 <= lead(token) <= 2:
            day = int(token[: lead(token)])
            continue
        if month is None and token[:3].lower() in MONTHS:
            month = MONTHS.index(token[:3].lower()) + 1
            continue
        if year is None and 2 <= lead(token) <= 4:
            year = int(token[: lead(token)])
            continue
    if None in (when, day, month, year):
        return [part for part, found in zip(PARTS, (when, day, month, year)) if found is None]
    if 70 <= year <= 99:
        year += 1900
    elif year <= 69:
        year += 2000
    if year < 1601 or not 1 <= day <= 31 or when[0] > 23 or when[1] > 59 or when[2] > 59:
        return None
    if day > DAYS[month - 1] + (month == 2 and leap(year)):
        return None
    return a.timegm(year, month, day, *when)


def trim(text):
    return text.strip(" \t")


def read_cookie(text, base_path, now):
    "-> ((name, value, attributes) or None, notes, info)"
    notes = []
    pair, *avs = trim(text).split(";")
    if avs and avs[-1] == "":
        avs = avs[:-1]  # nothing after the last semicolon
    name, eq, value = pair.partition("=")
    if not eq:
        name, value = "", pair
    name, value = trim(name), trim(value)
    if not name and not value:
        return None, ["SET_COOKIE_NO_NAME"], {}
    if len(name + value) > 4096:
        notes.append("SET_COOKIE_TOO_LARGE")
    if len(value) > 128:
        notes.append("SET_COOKIE_VALUE_TOO_LARGE")
    attrs, seen, long_lived, unknown, missing = [], [], False, False, []
    for av in avs:
        n, _, v = av.partition("=")
        n, v = trim(n), trim(v)
        low = n.lower()
        if not n:
            raise Undecided
        if low in seen:
            notes.append("SET_COOKIE_ATTRIBUTE_DUP")
        seen.append(low)
        if low == "expires":
            when = read_date(v)
            if when is None or isinstance(when, list):
                notes.append("SET_COOKIE_BAD_DATE")
                missing.append(when or [])
            else:
                attrs.append(("Expires", when))
                long_lived = long_lived or (now is not None and when > now + LIMIT)
        elif low == "max-age":
            if v == "":
                notes.append("SET_COOKIE_EMPTY_MAX_AGE")
                continue
            if v[0] == "0" and len(v) > 1:
                notes.append("SET_COOKIE_LEADING_ZERO_MAX_AGE")
            if not re.fullmatch("-?[0-9]+", v):
                notes.append("SET_COOKIE_NON_DIGIT_MAX_AGE")
            else:
                attrs.append(("Max-Age", int(v)))
                long_lived = long_lived or int(v) > LIMIT
        elif low == "domain":
            if v == "":
                notes.append("SET_COOKIE_EMPTY_DOMAIN")
            else:
                attrs.append(("Domain", (v[1:] if v[0] == "." else v).lower()))
        elif low == "path":
            if not v.startswith("/"):
                if base_path.startswith("/") and base_path.count("/") > 1:
                    v = base_path[: base_path.rindex("/")]
                else:
                    v = "/"
            attrs.append(("Path", v))
        elif low in ("secure", "httponly", "partitioned"):
            attrs.append(({"secure": "Secure", "httponly": "HttpOnly", "partitioned": "Partitioned"}[low], ""))
        elif low == "samesite":
            if v == "":
                v = "lax"
            if v.lower() in ("strict", "lax", "none"):
                attrs.append(("SameSite", v.lower().capitalize()))
            else:
                notes.append("SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE")
                unknown = True
        elif low == "priority":
            notes.append("SET_COOKIE_PRIORITY")
        elif low == "version":
            notes.append("SET_COOKIE_VERSION")
        else:
            notes.append("SET_COOKIE_UNKNOWN_ATTRIBUTE")
    if unknown and seen.count("samesite") > 1:
        raise Undecided  # whether it's the default then
    if seen.count("domain") > 1 and name.lower().startswith("__host-"):
        raise Undecided  # how often it's reported
    last = dict(attrs)  # of each name
    if long_lived:
        notes.append("SET_COOKIE_LIFETIME_TOO_LONG")
    secure = ("Secure", "") in attrs
    if last.get("SameSite") == "None" and not secure:
        notes.append("SET_COOKIE_NOT_SECURE")
    if ("Partitioned", "") in attrs and not secure:
        notes.append("SET_COOKIE_PARTITIONED_NO_SECURE")
    if name.lower().startswith(("__secure-", "__host-")) and not secure:
        notes.append("SET_COOKIE_PREFIX_SECURE_MISSING")
    if name.lower().startswith("__host-"):
        if last.get("Path") != "/":
            notes.append("SET_COOKIE_PREFIX_HOST_BAD_PATH")
        if any(n == "Domain" for n, _ in attrs):
            notes.append("SET_COOKIE_PREFIX_HOST_BAD_DOMAIN")
    hard = secure and ("HttpOnly", "") in attrs and last.get("SameSite") in ("Strict", "Lax")
    return (name, value, attrs), notes, {"hard": hard, "seen": seen, "missing": missing}


# the workload


def date(r, now):
    p = r.random()
    when = r.choice([a.epoch(r), int(now or 1600000000) + LIMIT + r.choice([-86400, -2, -1, 0, 1, 2, 86400]), int(now or 1600000000) + r.randint(-1000, 10**7)])
    when = max(0, min(when, 250000000000))
    y, m, d, hh, mm, ss, wd = (list(a.civil(when)) + [0])[:7]
    if r.random() < 0.15:
        y = r.choice([1968, 1969, 1970, 1971, 1999, 2000, 2068, 2069, 2070])  # around where two digits turn
        d = min(d, 28)
    mon = MONTHS[m - 1].capitalize()
    if p < 0.35:
        return a.imf_date(when)
    if p < 0.5:
        return r.choice([a.rfc850_date, a.asctime_date])(when)
    t = f"{hh:02d}:{mm:02d}:{ss:02d}"
    if p < 0.75:
        t = r.choice([t, f"{hh}:{mm}:{ss}", t + ".000", t + "Z"])
        parts = [t, r.choice([f"{d:02d}", str(d), f"{d}th"]), r.choice([mon, mon.upper(), mon + "uary", mon.lower(), mon + "embering"]), r.choice([f"{y:04d}", f"{y:04d}", f"{y % 100:02d}", f"{y:04d}AD"])]
        if r.random() < 0.2:  # only the first of each counts
            parts += r.sample(["01:02:03", "7", "12", "Mar", "decade", "1999", "2031", "31"], r.randint(1, 3))
        r.shuffle(parts)
        return r.choice(["", "Wed, ", "foo "]) + r.choice([" ", "-", ",", "/", " - "]).join(parts) + r.choice(["", " GMT", " +0000", "; x"])
    if p < 0.95:  # not quite
        hh, mm, ss = r.choice([hh, 24, 99, 0]), r.choice([mm, 60, 59]), r.choice([ss, 60, 59, 61])
        d = r.choice([d, 0, 31, 32, 30, 29])
        y = r.choice([y, 1600, 1601, 1900, 2000, 2100, 2024, 2023, 9999, 999, 99, 69, 70, 0, 12345])
        mon = r.choice([mon, "Feb", "Ja", "foo", "Sept"])
        t = r.choice([f"{hh:02d}:{mm:02d}:{ss:02d}", f"{hh:02d}:{mm:02d}", f"{hh:02d}:{mm:02d}:{ss:03d}", f"{hh:03d}:{mm:02d}:{ss:02d}", f"{hh:02d}:{mm:02d}:", ""])
        return f"Wed, {d:02d}{r.choice([' ', '-'])}{mon}{r.choice([' ', '-'])}{y} {t} GMT"
    return r.choice(["", "0", "-1", "Session", "never", "Thu", "10:20", "GMT", "6", "6 Feb", "0199", "1994", "\u00b2", "01 Jan 1970 00:00:00"]).encode("latin-1", "replace").decode("latin-1")


def case_of(r, text):
    p = r.random()
    return text if p < 0.6 else text.lower() if p < 0.8 else text.upper() if p < 0.9 else text.swapcase()


def attribute(r, now):
    p = r.random()
    sp = lambda: r.choice(["", "", "", " ", "\t", "  "])
    if p < 0.2:
        n, v = "Expires", date(r, now)
    elif p < 0.35:
        n, v = "Max-Age", r.choice(["", "0", "00", "1", "-1", "-0", "-", "+5", "5.5", "1e3", "1_0", "abc", "010", "3600", "\xb2", "5 5", str(LIMIT), str(LIMIT - 1), str(LIMIT + 1), str(r.randint(0, 10**9)), "9" * 30, '"5"'])
    elif p < 0.43:
        n, v = "Domain", r.choice(["", ".", "example.com", ".example.com", "Example.COM", "..a", "localhost", "\xe9.com"])
    elif p < 0.55:
        n, v = "Path", r.choice(["/", "/", "/foo", "", "foo", "/a/b;", "\xa0/", "//", "/%20", '"/"'])
    elif p < 0.7:
        n, v = "Secure", r.choice([None, None, None, "", "true", "1"])
    elif p < 0.8:
        n, v = "HttpOnly", r.choice([None, None, None, "", "true"])
    elif p < 0.9:
        n, v = "SameSite", case_of(r, r.choice(["Lax", "Strict", "None", "None", "foo", "Laxx", "", "Default"]))
    elif p < 0.93:
        n, v = "Partitioned", r.choice([None, None, "x"])
    elif p < 0.95:
        n, v = r.choice(["Priority", "Version"]), r.choice(["High", "1", None])
    else:
        n, v = r.choice([a.simple_token(r), "Max-Ages", "Pat", "Expire", "\xa0Secure", "Comment", "Secure ly", "e", "="]), r.choice([None, "x", ""])
    return sp() + case_of(r, n) + sp() + ("" if v is None else "=" + sp() + v + sp())


def cookie(r, now):
    name = r.choice(["a", "SID", "", "__Host-", "__Secure-", "__host-x", "__HOST-SID", "__secure-y", "__Host", "__Secur-", "a b", "\xe9", " n ", "x__Host-a", "__Http-a"]) + (a.simple_token(r) if r.random() < 0.5 else "")
    value = r.choice(["", "1", "a=b", '"q"', "a b", " v ", "\xa0v\xa0", "x" * r.choice([127, 128, 129, 300]), a.simple_token(r), "v,w", "%20"])
    if r.random() < 0.02:
        value = "y" * (4096 - len(name.strip()) + r.choice([-1, 0, 1]))
    p = r.random()
    text = name + "=" + value if p < 0.9 else value if p < 0.96 else r.choice(["", "=", " = ", " ", "\t=\t"])
    avs = [attribute(r, now) for _ in range(g.many(r, r.choice([0, 1, 2, 3, 4, 5])))]
    if r.random() < 0.15:
        avs = ["Secure", "HttpOnly", "SameSite=" + r.choice(["Lax", "strict"])] + avs
        r.shuffle(avs)
    for av in avs:
        text += ";" + r.choice(["", " ", " "]) + av
    return text + r.choice(["", "", "", "", ";"])


def edit(r, text):
    for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
        i = r.randint(0, len(text))
        p = r.random()
        if p < 0.5:
            text = text[:i] + r.choice(CHARS) + text[i + (p < 0.25) :]
        else:
            text = text[:i] + text[i + 1 :]
    return text


def gen(r, ctx):
    for _ in range(ctx.size):
        if r.random() < 0.15:
            pairs = []
            for _ in range(g.many(r, r.choice([1, 1, 2, 3]))):
                pairs.append(r.choice(["; ", ";", " ; ", ";;"]).join(r.choice([a.simple_token(r) + "=" + r.choice(["", "x", "a=b", '"q"', "a,b", "\xa0"]), a.simple_token(r), "=x", "\xe9=\xe8", ""]) for _ in range(r.choice([1, 1, 2, 3, 4]))))
            yield {"cookie": pairs}
            continue
        now = r.choice([None, 1600000000, 1700000000.5, float(r.randint(1, 2**33))])
        base = r.choice(["", "", "http://example.com", "http://example.com/", "http://example.com/a", "http://example.com/a/b", "http://example.com/a/b/?q=/x/y", "https://example.com/a//b#/c/d"])
        lines = [cookie(r, now) for _ in range(g.many(r, r.choice([1, 1, 1, 2, 3, 4])))]
        if len(lines) > 1 and r.random() < 0.2:
            lines[-1] = lines[0].split(";")[0].split("=")[0] + "=again"
        if r.random() < 0.03:  # many are there twice
            lines = [f"Name{i}{r.choice('xyz')}x=1" for i in range(r.randint(4, 9))]
            lines = [x for x in lines for _ in range(r.choice([1, 2, 2]))]
            r.shuffle(lines)
        edited = r.random() < 0.3
        if edited:
            lines = [edit(r, x) for x in lines]
        yield {"lines": lines, "t": now, "base": base, "edited": edited}


def check(ctx, case):
    if "cookie" in case:
        req = drive.request([["Cookie", c] for c in case["cookie"]])
        want = []
        for line in case["cookie"]:
            got = []
            for item in trim(line).split(";"):
                item = trim(item)
                if item:
                    n, eq, v = item.partition("=")
                    got.append((n, v) if eq else ("", n))
            want.append(got)
            ctx.count("pairs", len(got))
        bad = [type(n).__name__ for n in drive.all_notes(req) if type(n).__name__.startswith("BAD_SYNTAX")]
        ctx.expect(not bad, "bad-syntax", lambda: f"Cookie {case['cookie']!r:.400} is reported as bad syntax")
        have = [[(p.name, p.value) for p in line] for line in req.headers.parsed["cookie"]]
        ctx.distinct_case(case["cookie"])
        ctx.expect(have == want, "cookie", lambda: f"{case['cookie']!r:.400} read as {have!r:.400}, not {want!r:.400}")
        return
    base_path = ""
    if case["base"]:
        base_path = case["base"].split("//", 1)[1].split("?")[0].split("#")[0]
        base_path = "/" + base_path.split("/", 1)[1] if "/" in base_path else ""
    try:
        expected = [read_cookie(line, base_path, case["t"]) for line in case["lines"]]
    except Undecided:
        ctx.count("undecided")
        return
    r = drive.response([["Set-Cookie", line] for line in case["lines"]], t=case["t"], base=case["base"])
    ctx.distinct_case(case["lines"])
    ctx.sample(case["lines"])
    ctx.count("edited", case["edited"])
    bad = [n.vars.get("field_name") for n in drive.all_notes(r) if type(n).__name__ in ("BAD_SYNTAX", "BAD_SYNTAX_DETAILED")]
    ctx.expect(not bad, "bad-syntax", lambda: f"{case['lines']!r:.500} is reported as bad syntax")
    want_values = [e[0] for e in expected if e[0] is not None]
    values = [
        (n, v, [(k, x.lower() if k == "Domain" else x) for k, x in attrs]) for n, v, attrs in r.headers.parsed["set-cookie"]
    ]
    ctx.expect(values == want_values, "value", lambda: f"{case['lines']!r:.500} at base {case['base']!r} read as {values!r:.500}, not {want_values!r:.500}")
    for i, (cookie_, notes, info) in enumerate(expected):
        ctx.count("cookies")
        got = sorted(n for n in drive.names(r, f"offset-{i}") if n in COOKIE_NOTES)
        for n in notes:
            ctx.seen("note", n)
        diff = sorted({n for n in got + notes if got.count(n) != notes.count(n)})
        ctx.expect(not diff, "notes:" + ",".join(diff), lambda: f"{case['lines'][i]!r:.500} (at {case['t']}) has notes {got}, not {sorted(notes)}")
        if cookie_ is None:
            continue
        name = cookie_[0]
        ctx.count("attributes", len(info["seen"]))
        reasons = [str(n.vars["why"]) for n in drive.all_notes(r) if n.subject == f"offset-{i}" and type(n).__name__ == "SET_COOKIE_BAD_DATE"]
        told = sorted(re.findall("time|day|month|year", reason) for reason in reasons if "have" in reason)
        lacking = sorted(parts for parts in info["missing"] if parts)
        ctx.count("lacking", len(lacking))
        if len(set(map(str, reasons))) == len(reasons):
            ctx.expect(told == lacking, "lacking", lambda: f"dates in {case['lines'][i]!r:.400} lack {lacking}, not {reasons!r}")
        for s in info["seen"]:
            ctx.seen("attribute", s if "SET_COOKIE_UNKNOWN_ATTRIBUTE" not in notes else "?")
        ctx.count("dates", info["seen"].count("expires"))
        ctx.count("bad_dates", notes.count("SET_COOKIE_BAD_DATE"))
        ctx.count("max_age", info["seen"].count("max-age"))
        ctx.count("long_lived", "SET_COOKIE_LIFETIME_TOO_LONG" in notes)
        ctx.count("default_path", any(k == "Path" and f"={v}" not in case["lines"][i] for k, v in cookie_[2]))
        if name.isascii() and name.isalnum():
            for note in r.notes:
                if note.subject == f"offset-{i}" and type(note).__name__ in COOKIE_NOTES - {"SET_COOKIE_PRIORITY", "SET_COOKIE_VERSION"}:
                    ctx.expect(name in note.summary, "names-cookie", lambda: f"{name} isn't in {note.summary!r}")
    names = [c[0] for c in want_values]
    twice = sorted({n for n in names if names.count(n) > 1})
    hard = [e[0][0] for e in expected if e[0] is not None and e[2]["hard"]]
    field_notes = [n for n in r.notes if n.subject == "field-set-cookie"]
    for cls, members, counter in (("SET_COOKIE_NAME_DUP", twice, "duplicates"), ("SET_COOKIE_HARDENED", hard, "hardened")):
        ctx.count(counter, bool(members))
        found = [n for n in field_notes if type(n).__name__ == cls]
        ctx.seen("note", cls if members else "")
        ctx.expect(len(found) == bool(members), cls, lambda: f"{len(found)} {cls} notes for {case['lines']!r:.500}")
        if found:
            for n in set(names):
                if len(n) > 5 and n.isascii() and n.isalnum() and not n.isalpha() and not any(n in o for o in names if o != n):
                    shown = n in found[0].summary + found[0].detail
                    ctx.expect(shown == (n in members), cls + "-names", lambda: f"{n!r} {'is' if shown else 'isn’t'} in {found[0].detail!r:.300} for {case['lines']!r:.300}")
