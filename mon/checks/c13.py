"""C13: HTTP dates are read as the moments they denote, and nothing else is read as a date."""

from mon import abnf as a
from mon import drive

PROPERTY = "C13"
RULE = (
    "dates in the three formats over the years 1000-9999 (leap years, ends of months, leap seconds), and near-dates made by editing their parts or their "
    "characters, in the eight fields that carry dates; distinct by field and value"
)
SIZES = {"quick": 12000, "thorough": 150000}
REQUIRE = {"valid": 15000, "invalid": 15000, "kind:format": 3, "kind:field": 8, "nonexistent": 1500, "compared": 2000, "kind:year": 1500, "case": 50}
PARSED = {"Date": "qr", "Expires": "r", "Last-Modified": "r", "Sunset": "r"}
SYNTAX = {"If-Modified-Since": "q", "If-Unmodified-Since": "q", "If-Range": "q", "Retry-After": "r"}
NUM = "0123456789"
MDAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def digits(text, n):
    return len(text) == n and all(c in NUM for c in text)


def days_before_year(y):
    y -= 1
    return y * 365 + y // 4 - y // 100 + y // 400


def moment(y, mon, d, hh, mm, ss):
    "-> POSIX time, or None if there's no such moment"
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    if not (1 <= d <= MDAYS[mon] + (1 if leap and mon == 1 else 0)) or hh > 23 or mm > 59 or ss > 60:
        return None
    day = days_before_year(y) - days_before_year(1970) + sum(MDAYS[:mon]) + (1 if leap and mon > 1 else 0) + d - 1
    return day * 86400 + hh * 3600 + mm * 60 + ss


def clock(text):
    p = text.split(":")
    return [int(x) for x in p] if len(p) == 3 and all(digits(x, 2) for x in p) else None


def read(text):
    """RFC 9110 Section 5.6.7 -> (format, moment or None) or None when it's not in a date format"""
    for name in a.LONGDAYS:
        if text.startswith(name + ", "):
            p = text[len(name) + 2 :].split(" ")
            if len(p) != 3 or p[2] != "GMT" or not clock(p[1]):
                return None
            d = p[0].split("-")
            if len(d) != 3 or not digits(d[0], 2) or d[1] not in a.MONTHS or not digits(d[2], 2):
                return None
            yy = int(d[2])
            return "rfc850", moment(yy + (1900 if yy > 68 else 2000), a.MONTHS.index(d[1]), int(d[0]), *clock(p[1])), yy
    if text[:3] not in a.DAYS:
        return None
    if text[3:5] == ", ":
        p = text[5:].split(" ")
        if len(p) != 5 or not digits(p[0], 2) or p[1] not in a.MONTHS or not digits(p[2], 4) or not clock(p[3]) or p[4] != "GMT":
            return None
        return "imf", moment(int(p[2]), a.MONTHS.index(p[1]), int(p[0]), *clock(p[3])), int(p[2])
    if text[3:4] != " " or text[4:7] not in a.MONTHS or text[7:8] != " ":
        return None
    day = text[8:10]
    if not (digits(day, 2) or (day[:1] == " " and digits(day[1:], 1))) or text[10:11] != " ":
        return None
    p = text[11:].split(" ")
    if len(p) != 2 or not clock(p[0]) or not digits(p[1], 4):
        return None
    return "asctime", moment(int(p[1]), a.MONTHS.index(text[4:7]), int(day), *clock(p[0])), int(p[1])


def recase(text):
    "As read() would want it, if only the case is wrong."
    low = text.lower()
    for group in (a.LONGDAYS, a.DAYS, a.MONTHS, ["GMT"]):
        for word in group:
            low = low.replace(word.lower(), word)
    return low


def check(ctx, case):
    name, value, kind = case["n"], case["v"], case["k"]
    msg = {"h": [[name, case["pre"] + value + case["post"]]], "t": case["t"]}
    if kind == "q":
        linter = drive.run({"req": msg})[0]
    else:
        linter = drive.run({"resp": dict(msg, s="503")})[1]
    got = read(value)
    undecided = got is None and read(recase(value)) is not None
    if undecided:
        # senders need to use the right case, but recipients can be lenient about it
        ctx.count("case")
        return
    ctx.distinct_case([name, value])
    ctx.sample(msg)
    ctx.seen("field", name)
    notes = drive.names(linter)
    if got is not None and (got[2] < (0 if got[0] == "rfc850" else 1000) or (got[0] == "rfc850" and 68 < got[2] < 78)):
        ctx.count("undecided_year")
        return
    ctx.count("valid" if got and got[1] is not None else "invalid")
    if got:
        ctx.seen("format", got[0])
        ctx.seen("year", got[2])
        if got[1] is None:
            ctx.count("nonexistent")
    if name in SYNTAX:
        other = (name == "Retry-After" and value and all(c in NUM for c in value)) or (
            name == "If-Range" and value.removeprefix("W/")[:1] == '"'
        )
        if other or (got and got[1] is None):
            return
        ctx.expect(
            ("BAD_SYNTAX" in notes) == (got is None), f"syntax:{name}",
            lambda: f"{name}: {value!r} is {'' if got else 'not '}a date, but notes are {notes}",
        )
        return
    want = got[1] if got else None
    have = linter.headers.parsed.get(name.lower(), "missing")
    if want is None:
        ctx.expect(have is None, "not-a-date", lambda: f"{name}: {value!r} isn't a date, but its value is {have!r}")
    else:
        ctx.expect(have == want and isinstance(have, int), "value", lambda: f"{name}: {value!r} is {want}, but its value is {have!r}")
    ctx.expect(("BAD_DATE_SYNTAX" in notes) == (want is None), "bad-date-note", lambda: f"{name}: {value!r} (moment {want}): notes {notes}")
    obsolete = got is not None and got[0] != "imf"
    if want is not None or not obsolete:
        ctx.expect(("DATE_OBSOLETE" in notes) == obsolete, "obsolete-note", lambda: f"{name}: {value!r} (moment {want}): notes {notes}")
    if name == "Sunset":
        ctx.count("compared")
        past = bool(want is not None and case["t"] and want < case["t"])
        ctx.expect(("SUNSET_PAST" in notes) == past or want == 0, "sunset", lambda: f"{name}: {value!r} at {case['t']}: notes {notes}")


def parts(r):
    y = r.choice([r.randint(1970, 2037), r.randint(1000, 9999), r.choice([1600, 1700, 1900, 2000, 2004, 2100, 2400, 9999, 1000, 1969, 1970, 2038])])
    return {
        "wd": r.randint(0, 6), "d": r.choice([1, 9, 10, 28, 29, 30, 31, r.randint(1, 28)]), "m": r.choice([1, 1, r.randint(0, 11)]), "y": y,
        "hh": r.choice([0, 23, r.randint(0, 23)]), "mm": r.choice([0, 59, r.randint(0, 59)]), "ss": r.choice([0, 59, r.randint(0, 59), 60]),
    }


def render(p, fmt):
    hms = f"{p['hh']:02}:{p['mm']:02}:{p['ss']:02}"
    mon = a.MONTHS[p["m"]]
    if fmt == "imf":
        return f"{a.DAYS[p['wd']]}, {p['d']:02} {mon} {p['y']:04} {hms} GMT"
    if fmt == "rfc850":
        return f"{a.LONGDAYS[p['wd']]}, {p['d']:02}-{mon}-{p['y'] % 100:02} {hms} GMT"
    day = f"{p['d']:2}" if p["ss"] % 5 else f"{p['d']:02}"
    return f"{a.DAYS[p['wd']]} {mon} {day} {hms} {p['y']:04}"


def near(r, text, p):
    "Something that's (probably) no longer a date."
    pick = r.randint(0, 9)
    hms = f"{p['hh']:02}:{p['mm']:02}:{p['ss']:02}"
    if pick == 0:
        return text.replace("GMT", r.choice(["UTC", "+0000", "EST", "PST", "Z", "", "GMT+0", "GMT GMT", "gmt", "GMTX", "UT", "-0500", "GM"]))
    if pick == 1:
        return text.replace(" ", r.choice(["  ", "", "\t", "-", ", "]), 1) if r.random() < 0.5 else text.replace(" ", "  ")
    if pick == 2:
        i = r.randrange(len(text))
        return text[:i] + text[i + 1 :]
    if pick == 3:
        i = r.randrange(len(text) + 1)
        return text[:i] + r.choice("0123456789 ,:-GAaj\xe9;\"'T+") + text[i:]
    if pick == 4:
        i = r.randrange(len(text))
        return text[:i] + r.choice("0123456789 ,:-GAaj;T\xb2\xb9") + text[i + 1 :]
    if pick == 5:
        return r.choice([
            f"{p['y']}-{p['m'] + 1:02}-{p['d']:02}T{hms}Z", str(p["y"] * 31536000), f"{p['d']} {a.MONTHS[p['m']]} {p['y']} {hms} GMT",
            f"{a.DAYS[p['wd']]}, {p['d']} {a.MONTHS[p['m']]} {p['y']} {hms} GMT", f"{a.DAYS[p['wd']]}, {p['d']:02}-{a.MONTHS[p['m']]}-{p['y']} {hms} GMT",
            f"{a.DAYS[p['wd']]}, {p['d']:02} {a.MONTHS[p['m']]} {p['y'] % 100:02} {hms} GMT", f"{a.LONGDAYS[p['wd']]}, {p['d']:02} {a.MONTHS[p['m']]} {p['y']} {hms} GMT",
            f"{a.DAYS[p['wd']]}, {p['d']:02} {a.MONTHS[p['m']]} {p['y']} {hms[:5]} GMT", f"{a.DAYS[p['wd']]} {a.MONTHS[p['m']]} {p['d']} {hms} {p['y']}",
            f"{a.DAYS[p['wd']]} {a.MONTHS[p['m']]} {p['d']:02} {hms} {p['y']} GMT", f"{a.DAYS[p['wd']]}, {p['d']:02} {a.MONTHS[p['m']]} {p['y']} {hms}",
            f"{a.DAYS[p['wd']]} {a.MONTHS[p['m']]} {p['d']:02} {hms} {p['y'] % 100:02}", f"{a.LONGDAYS[p['wd']]} {a.MONTHS[p['m']]} {p['d']:02} {hms} {p['y']}",
            "0", "-1", "now", "", "never", text + " " + text, text + ", " + text, f'"{text}"', text + "; x", "12:00:00 GMT", "Thu", "GMT",
        ])
    if pick == 6:
        q = dict(p)
        k = r.choice(["d", "hh", "mm", "ss"])
        q[k] = r.choice({"d": [0, 32, 99, 31, 30], "hh": [24, 25, 99], "mm": [60, 99], "ss": [61, 62, 99]}[k])
        return render(q, r.choice(["imf", "rfc850", "asctime"]))
    if pick == 7:
        word = r.choice([w for w in a.DAYS + a.MONTHS if w in text] or ["GMT"])
        return text.replace(word, r.choice(["Foo", "Jan", "Mon", "Sept", "January", "Juli", "Thur", "", word[:2], word + "."]), 1)
    if pick == 8:
        return text.swapcase() if r.random() < 0.5 else text.lower()
    return text + r.choice([".", " x", " GMT", "0", ",", " (comment)", "+0000"])


def gen(rng, ctx):
    fields = list(PARSED.items()) * 2 + list(SYNTAX.items())
    for _ in range(ctx.size):
        name, kinds = rng.choice(fields)
        p = parts(rng)
        text = render(p, rng.choice(["imf", "imf", "rfc850", "asctime"]))
        if rng.random() < 0.5:
            text = near(rng, text, p)
        t = rng.choice([None, 1700000000.0, 1700000000.5])
        got = read(text)
        if got and got[1] is not None and rng.random() < 0.4 and got[1] > 0:
            t = float(got[1] + rng.choice([0, 1, -1, 0.5, -0.5, 5, -5]))
        yield {"n": name, "v": text.strip(" \t"), "k": rng.choice(kinds), "t": t, "pre": a.ows(rng), "post": a.ows(rng)}
