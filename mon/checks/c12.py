"""C12: age and freshness are computed as HTTP caching says."""

import re

from mon import drive
from mon import gen as g
from mon.cachemodel import HEURISTIC, Model
from mon.checks import c11

PROPERTY = "C12"
RULE = (
    "storable responses with random Date, Age, Expires, Cache-Control lifetimes, request and response times (also none, and boundary values where age equals lifetime); "
    "distinct by what the model depends on"
)
SIZES = {"quick": 15000, "thorough": 150000}
REQUIRE = {"judged": 20000, "kind:outcome": 14, "durations": 10000, "boundary": 300, "shared_differs": 1000, "directions": 10000, "kind:direction": 3}
NOW = 1700000000
UNITS = {"second": 1, "minute": 60, "hour": 3600, "day": 86400, "week": 7 * 86400, "month": 30 * 86400, "year": 365 * 86400}
FRESHNESS = {"FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_FRESH", "FRESHNESS_STALE_ALREADY",
             "FRESHNESS_HEURISTIC", "FRESHNESS_NONE"}
STALE = {"STALE_WHILE_REVALIDATE", "STALE_IF_ERROR", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE", "FRESH_PROXY_REVALIDATE", "STALE_PROXY_REVALIDATE", "STALE_SERVABLE"}
OTHER = {"CURRENT_AGE", "CC_AND_EXPIRES", "STORE_PUBLIC_UNNECESSARY", "DATE_CLOCKLESS", "DATE_CLOCKLESS_BAD_HDR", "DATE_CORRECT", "DATE_INCORRECT", "AGE_PENALTY",
         "LM_FUTURE", "LM_PRESENT"}


def expected(m, s):
    "-> (freshness note, stale notes, other notes)"
    cc = m.cc
    other = set()
    # clocks
    date = s["date"] if isinstance(s["date"], int) else None
    if not s["vary_star"]:
        if s["date"] is None:
            other.add("DATE_CLOCKLESS")
            if s["expires"] is not None or s["lm"]:
                other.add("DATE_CLOCKLESS_BAD_HDR")
    if s["response_time"] and date:
        apparent = int(s["response_time"]) - date
        age = s["age"] or 0
        if age > 5 > apparent:
            other.add("AGE_PENALTY")
        elif abs(age - apparent) > 5:
            other.add("DATE_INCORRECT")
        else:
            other.add("DATE_CORRECT")
    if s["lm"]:
        server = date or s["response_time"]
        if server:
            other.add("LM_FUTURE" if c11_lm(s) > server else "LM_PRESENT")
    if not (m.private or m.shared):
        return None, set(), other
    if m.age >= 1:
        other.add("CURRENT_AGE")
    if "no-cache" in cc:
        return ("FRESHNESS_NO_CACHE" if s["lm"] or s["etag"] else "FRESHNESS_NO_CACHE_NO_VALIDATOR"), set(), other
    if m.explicit:
        if m.lifetime_private != m.lifetime_shared:
            fresh = "FRESHNESS_SHARED_PRIVATE"
        else:
            fresh = "FRESHNESS_FRESH" if m.fresh_private else "FRESHNESS_STALE_ALREADY"
        if "max-age" in cc and s["expires"] is not None:
            other.add("CC_AND_EXPIRES")
    else:
        fresh = "FRESHNESS_HEURISTIC" if s["status"] in HEURISTIC else "FRESHNESS_NONE"
    if "public" in cc and fresh != "FRESHNESS_NONE" and not (s["auth"] and "private" not in cc):
        other.add("STORE_PUBLIC_UNNECESSARY")
    stale = set()
    if "stale-while-revalidate" in cc:
        stale.add("STALE_WHILE_REVALIDATE")
    if "stale-if-error" in cc:
        stale.add("STALE_IF_ERROR")
    elif "must-revalidate" in cc:
        if m.fresh_private:
            stale.add("FRESH_MUST_REVALIDATE")
        elif m.explicit:
            stale.add("STALE_MUST_REVALIDATE")
    elif "proxy-revalidate" in cc or "s-maxage" in cc:
        if m.fresh_shared:
            stale.add("FRESH_PROXY_REVALIDATE")
        elif m.explicit:
            stale.add("STALE_PROXY_REVALIDATE")
    else:
        stale.add("STALE_SERVABLE")
    return fresh, stale, other


def c11_lm(s):
    return s["lm_value"]


def seconds(text):
    m = re.search(r"([0-9,]+) (second|minute|hour|day|week|month|year)s?", text)
    return int(m.group(1).replace(",", "")) * UNITS[m.group(2)] if m else None


def close(ctx, note, var, want, spec):
    "A duration that's shown is about what it should be."
    text = str(note.vars[var])
    got = seconds(text)
    ctx.count("durations")
    want = abs(want)
    cls = type(note).__name__
    ok = got is not None and (abs(got - want) <= 1 or want / 1.5 <= got <= want * 1.5)
    ctx.expect(ok, f"shown:{cls}:{var}", lambda: f"{cls} shows {var} as {text!r}, but it's {want} s: {spec!r}")


def direction(ctx, note, var, want, word, spec):
    "A duration is about what it should be, and which way it should be."
    text = str(note.vars[var])
    cls = type(note).__name__
    ctx.count("directions")
    ctx.seen("direction", f"{cls} {word}")
    close(ctx, note, var, want, spec)
    ctx.expect(text.split(" ")[-1] == word, f"direction:{cls}", lambda: f"{cls} shows {want} s as {text!r}: {spec!r}")


def check(ctx, case):
    s = case["spec"]
    m = Model(s)
    req, resp = drive.run(case["msg"])
    c = resp.caching
    ctx.count("judged")
    ctx.distinct_case(s)
    ctx.sample(case["msg"])
    ctx.expect(abs(c.age - m.age) < 1e-6, "age", lambda: f"age is {c.age!r}, not {m.age!r}: {s!r}")
    for what, got, want in (("private", c.freshness_lifetime_private, m.lifetime_private), ("shared", c.freshness_lifetime_shared, m.lifetime_shared)):
        ok = got <= 0 if want is None else got == want
        ctx.expect(ok, f"lifetime_{what}", lambda: f"freshness_lifetime_{what} is {got!r}, not {want!r}: {s!r}")
    fresh, stale, other = expected(m, s)
    names = drive.names(resp)
    ctx.seen("outcome", str(fresh))
    for x in stale | other:
        ctx.seen("outcome", x)
    got = set(names)
    ctx.expect(got & FRESHNESS == ({fresh} if fresh else set()), "freshness-note", lambda: f"{sorted(got & FRESHNESS)}, not {fresh}: {s!r}")
    ctx.expect(got & STALE == stale, "stale-note", lambda: f"{sorted(got & STALE)}, not {sorted(stale)}: {s!r}")
    if s["lm"] and not s["lm_value"]:
        got -= {"LM_PRESENT", "LM_FUTURE"}  # at the epoch; not claimed
        other -= {"LM_PRESENT", "LM_FUTURE"}
    ctx.expect(got & OTHER == other, "other-notes", lambda: f"{sorted(got & OTHER)}, not {sorted(other)}: {s!r}")
    for note in resp.notes:
        cls = type(note).__name__
        if cls == "DATE_INCORRECT":
            how = s["date"] - int(s["response_time"]) + (s["age"] or 0)
            direction(ctx, note, "clock_skew_string", how, "ahead" if how > 0 else "behind", s)
        elif cls in ("LM_PRESENT", "LM_FUTURE") and s["lm_value"]:
            how = c11_lm(s) - ((s["date"] if isinstance(s["date"], int) else None) or s["response_time"])
            if cls == "LM_PRESENT" and abs(how) >= 1:
                direction(ctx, note, "last_modified_string", how, "ago", s)
    if not (m.private or m.shared):
        return
    if m.explicit and m.lifetime_private == m.age:
        ctx.count("boundary")
    if m.lifetime_private != m.lifetime_shared:
        ctx.count("shared_differs")
    if m.lifetime_private is None or m.lifetime_shared is None:
        return
    for note in resp.notes:
        cls = type(note).__name__
        if cls == "CURRENT_AGE":
            close(ctx, note, "age", m.age, s)
        elif cls in ("FRESHNESS_FRESH", "FRESHNESS_STALE_ALREADY"):
            close(ctx, note, "freshness_lifetime", m.lifetime_private, s)
            close(ctx, note, "freshness_left", m.lifetime_private - m.age, s)
            close(ctx, note, "current_age", m.age, s)
        elif cls == "FRESHNESS_SHARED_PRIVATE":
            close(ctx, note, "fresh_lifetime", m.lifetime_private, s)
            close(ctx, note, "fresh_left", m.lifetime_private - m.age, s)
            close(ctx, note, "share_lifetime", m.lifetime_shared, s)
            close(ctx, note, "share_left", m.lifetime_shared - m.age, s)
            for var, want in (("private_status", m.fresh_private), ("shared_status", m.fresh_shared)):
                text = str(note.vars[var])
                ctx.expect(text == ("fresh" if want else "stale"), f"shown:{var}", lambda: f"{var} is {text!r}: {s!r}")


LIFE = ["0", "1", "5", "60", "600", "3600", "86400", "31536000", "2147483648", "2147483649"]


def gen(rng, ctx):
    for _ in range(ctx.size):
        directives, lines = [], []
        for _ in range(g.many(rng, rng.choice([0, 1, 1, 2, 3]))):
            name = rng.choice(["max-age", "max-age", "s-maxage", "must-revalidate", "proxy-revalidate", "no-cache", "public", "private",
                               "stale-if-error", "stale-while-revalidate", "immutable"])
            value = rng.choice(LIFE) if name in ("max-age", "s-maxage", "stale-if-error", "stale-while-revalidate") else None
            directives.append([name, value])
            lines.append(c11.render_directive(rng, name, value))
        if len(lines) > 1 and rng.random() < 0.6:
            lines = [", ".join(lines)]
        rtime = rng.choice([None, float(NOW), NOW + 0.75, float(NOW)])
        spec = {
            "status": rng.choice([200, 200, 200, 404, 301, 302, 500, 206, 201]), "method": rng.choice([None, "GET", "HEAD"]), "directives": directives,
            "vary_star": rng.random() < 0.02, "response_time": rtime, "request_time": None,
            "date": rng.choice([None, NOW, NOW, NOW - 1, NOW - 60, NOW - 5, NOW - 6, NOW + 5, NOW + 6, NOW - 600, NOW - 86400 * 3, NOW + 3600, "bad"]),
            "age": rng.choice([None, None, 0, 1, 5, 6, 60, 600, 86400, 40000000]),
            "expires": rng.choice([None, None, None, NOW, NOW + 1, NOW + 60, NOW + 600, NOW - 600, NOW + 31536000, NOW + 400000000, NOW - 40000000, 784111777, 86400, "bad"]),
            "lm": rng.random() < 0.4, "etag": rng.random() < 0.3, "auth": False,
            "lm_value": rng.choice([0, 946684800, 946684800, NOW - 1, NOW, NOW + 1, NOW + 100000]),
        }
        if spec["expires"] == "bad" and spec["status"] not in HEURISTIC:
            spec["status"] = 200
        if rtime and rng.random() < 0.15 and isinstance(spec["date"], int):
            # exactly as old as it's allowed to be, or just more or less
            apparent = max(0, int(rtime) - spec["date"])
            spec["age"] = rng.choice([60, 600, 3600])
            life = max(apparent, spec["age"]) + rng.choice([0, 0, 1, -1])
            spec["directives"] = [["max-age", str(life)]]
            lines = [f"max-age={life}"]
        h = c11.headers(rng, spec, lines, names=False)
        from mon import abnf as a  # pylint: disable=import-outside-toplevel
        h = [[n, a.imf_date(spec["lm_value"]) if n == "Last-Modified" else v] for n, v in h]
        msg = {"resp": {"s": str(spec["status"]), "h": h, "t": rtime}}
        if spec["method"]:
            spec["request_time"] = rng.choice([None, rtime, rtime - 2 if rtime else None, rtime - 61.5 if rtime else None])
            spec["auth"] = rng.random() < 0.15
            msg["req"] = {"m": spec["method"], "t": spec["request_time"], "h": [["User-Agent", "x"]] + ([["Authorization", "Basic eDp5"]] if spec["auth"] else [])}
        yield {"spec": spec, "msg": msg}
