"""C35: Cache-Control directives are explained, each exactly when it applies."""

import re
from collections import Counter

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C35"
RULE = (
    "Cache-Control in requests and responses: known and unknown directives in any order, case, number and division into lines, with and without values, pre-check and post-check; "
    "Pragma; CDN-Cache-Control with each type of value; distinct by the directives and the message"
)
SIZES = {"quick": 6000, "thorough": 60000}
REQUIRE = {
    "requests": 8000, "responses": 15000, "silent": 2500, "kind:note": 10, "kind:dup": 14, "kind:misplaced": 12, "kind:overrides": 3, "kind:overridden": 10, "kind:valued": 8, "kind:check": 5, "qualified": 500,
    "pragma": 500, "pragma_other": 200, "cdn": 2000, "kind:cdn_bad": 11, "kind:cdn_type": 8, "distinct": 15000,
}
FLAGS = {"immutable": "resp", "must-revalidate": "resp", "must-understand": "resp", "no-store": "both", "no-transform": "both", "only-if-cached": "req", "proxy-revalidate": "resp", "public": "resp"}
NUMBERS = {"max-age": "both", "max-stale": "req", "min-fresh": "req", "s-maxage": "resp", "stale-if-error": "resp", "stale-while-revalidate": "resp", "pre-check": "resp", "post-check": "resp"}
NAMED = {"no-cache": "both", "private": "resp"}
KNOWN = {**FLAGS, **NUMBERS, **NAMED}
UNKNOWN = ["foo", "x-private", "no-stores", "maxage", "community", "no_store", "s-max-age", "privat", "immutabl", "no-cach", "max-age2", "publi"]
# what each directive makes irrelevant in a response; only the first that does is reported
OVERRIDES = [
    ("no-store", {"immutable", "max-age", "must-revalidate", "no-cache", "private", "proxy-revalidate", "public", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}),
    ("no-cache", {"immutable", "max-age", "must-revalidate", "proxy-revalidate", "s-maxage", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}),
    ("must-revalidate", {"immutable", "stale-if-error", "stale-while-revalidate", "pre-check", "post-check"}),
]
MINE = {"CC_SHOULD_NOT_HAVE_VALUE", "CC_BAD_VALUE_TYPE", "CC_MAX_AGE_TOO_LARGE", "CC_MISCAP", "CC_DUP", "CC_CONFLICTING", "CC_WRONG_MESSAGE",
        "CHECK_SINGLE", "CHECK_ALL_ZERO", "CHECK_POST_BIGGER", "CHECK_POST_ZERO", "CHECK_POST_PRE"}


def directive(r, name):
    "-> name, value or None"
    if name in FLAGS:
        return [name, r.choice(["1", "foo", '"a, b"', "0"]) if r.random() < 0.12 else None]
    if name in NUMBERS:
        if name == "max-stale" and r.random() < 0.4:
            return [name, None]
        return [name, str(r.choice([0, 0, 1, 5, 60, 3600, 86400, 31536000]))]
    if name in NAMED:
        return [name, r.choice(['"set-cookie"', '"a, b"', '"foo"']) if r.random() < 0.3 else None]
    return [name, r.choice([None, "1", '"x, no-store"', "max-age"])]


def gen(rng, ctx):
    for i in range(ctx.size):
        pick = i % 12
        if pick == 3:
            members = [vary(rng, rng.choice(["no-cache", "no-cache", "foo", "no-store", "no-cache=foo", "max-age=0", "x"])) for _ in range(g.many(rng, rng.choice([1, 1, 2, 3])))]
            yield {"k": "pragma", "members": members, "kind": rng.choice(["req", "req", "resp"])}
        elif pick in (5, 9):
            names = rng.sample(sorted(n for n in KNOWN if KNOWN[n] != "req") + ["foo", "x-b"], rng.choice([1, 1, 2, 3]))
            yield {"k": "cdn", "members": [[n, rng.choice(CDN)] for n in names], "split": rng.random() < 0.3}
        else:
            kind = rng.choice(["req", "resp", "resp"])
            count = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
            names = [rng.choice(sorted(KNOWN)) if rng.random() < 0.85 else rng.choice(UNKNOWN) for _ in range(count)]
            if names and rng.random() < 0.25:
                names.append(rng.choice(names))
            if rng.random() < 0.2:
                names += rng.choice([["pre-check", "post-check"], ["pre-check"], ["post-check"], ["post-check", "pre-check"]])
            kept, once = [], set()
            for name in names:
                if name in ("pre-check", "post-check") and name in once:
                    continue
                once.add(name)
                kept.append(directive(rng, name))
            rng.shuffle(kept)
            yield {"k": "cc", "kind": kind, "directives": [[vary(rng, n), v] for n, v in kept], "joins": [rng.choice([",", ", ", " , ", ",,", "\n", "\n", ", ,"]) for _ in kept]}


CDN = [["true", ""], ["false", "=?0"], ["int", "=60"], ["int", "=0"], ["string", '="a"'], ["token", "=abc"], ["decimal", "=1.5"], ["bytes", "=:AA==:"], ["list", "=(1 2)"], ["true", ";a=1"], ["date", "=@60"], ["int", "=5;x"], ["display", '=%"a"']]


def vary(r, text):
    return "".join(c.upper() for c in text) if r.random() < 0.05 else text.capitalize() if r.random() < 0.05 else text


def lines(case):
    out, current = [], ""
    for i, (name, value) in enumerate(case["directives"]):
        text = name if value is None else f"{name}={value}"
        if i == 0:
            current = text
        elif case["joins"][i] == "\n":
            out.append(current)
            current = text
        else:
            current += case["joins"][i] + text
    return out + [current]


def expected(case):
    "-> Counter of notes"
    out = Counter()
    kind = case["kind"]
    there = Counter()
    values = {}
    for name, value in case["directives"]:
        low = name.lower()
        there[low] += 1
        values[low] = value
        if name != low:
            out["CC_MISCAP", name, low] += 1
        if low in FLAGS and value is not None:
            out["CC_SHOULD_NOT_HAVE_VALUE", low] += 1
    for name, n in there.items():
        if name in KNOWN and KNOWN[name] not in ("both", kind):
            out["CC_WRONG_MESSAGE", name, "response" if kind == "req" else "request"] += 1
        elif name in KNOWN and n > 1:
            out["CC_DUP", name] += 1
    if kind == "resp":
        for name, others in OVERRIDES:
            # with field names, no-cache only applies to those fields
            if name == "no-cache" and any(n.lower() == name and v is not None for n, v in case["directives"]):
                continue
            if name in there:
                hit = others & set(there)
                if hit:
                    out[("CC_CONFLICTING", name, tuple(sorted(hit)))] += 1
                    break
        pre, post = "pre-check" in there, "post-check" in there
        if pre != post:
            out["CHECK_SINGLE",] += 1
        elif pre:
            pre, post = int(values["pre-check"]), int(values["post-check"])
            if pre == 0 and post == 0:
                out["CHECK_ALL_ZERO",] += 1
            elif post > pre:
                out["CHECK_POST_BIGGER",] += 1
            elif post == 0:
                out["CHECK_POST_ZERO",] += 1
            else:
                out["CHECK_POST_PRE", str(pre), str(post)] += 1
    return out


def observed(linter):
    out = Counter()
    for note in linter.notes:
        name = type(note).__name__
        if name not in MINE:
            continue
        v = note.vars
        if name == "CC_MISCAP":
            key = (name, v["directive"], v["directive_lower"])
        elif name == "CC_CONFLICTING":
            key = (name, v["directive"], tuple(sorted(re.findall(r"`([^`]+)`", v["conflicts"]))))
        elif name == "CC_WRONG_MESSAGE":
            key = (name, v["directive"], str(v["other_message"]))
        elif name == "CHECK_POST_PRE":
            key = (name, str(v["pre_check"]), str(v["post_check"]))
        elif name.startswith("CHECK_"):
            key = (name,)
        else:
            key = (name, v["directive"])
        out[key] += 1
    return out


def check(ctx, case):
    if case["k"] == "cc":
        headers = [["Cache-Control", line] for line in lines(case)] if case["directives"] else []
        linter = (drive.request if case["kind"] == "req" else drive.response)(headers)
        want, got = expected(case), observed(linter)
        ctx.count("requests" if case["kind"] == "req" else "responses")
        ctx.count("silent", not want)
        for key in want:
            ctx.seen("note", key[0])
            if key[0] == "CC_DUP":
                ctx.seen("dup", key[1])
            elif key[0] == "CC_WRONG_MESSAGE":
                ctx.seen("misplaced", key[1])
            elif key[0] == "CC_CONFLICTING":
                ctx.seen("overrides", key[1])
                for other in key[2]:
                    ctx.seen("overridden", other)
            elif key[0] == "CC_SHOULD_NOT_HAVE_VALUE":
                ctx.seen("valued", key[1])
            elif key[0].startswith("CHECK"):
                ctx.seen("check", key[0])
        if any(n.lower() == "no-cache" and v is not None for n, v in case["directives"]):
            ctx.count("qualified")
            if len({v is None for n, v in case["directives"] if n.lower() == "no-cache"}) > 1:
                # both forms; what the first is taken to mean isn't decided
                for side in (want, got):
                    for key in [k for k in side if k[0] == "CC_CONFLICTING"]:
                        del side[key]
        ctx.distinct_case([case["kind"], headers])
        ctx.sample(headers)
        for key in set(want) | set(got):
            ctx.expect(want[key] == got[key], f"{key[0]}:{'missing' if want[key] > got[key] else 'extra'}", lambda: f"{key} is there {got[key]} times, not {want[key]}, in a {case['kind']} with {headers}")
        values = linter.headers.parsed.get("cache-control", [])
        names = [n for n, _ in values]
        ctx.expect(names == [n.lower() for n, _ in case["directives"]], "names", lambda: f"the directives of {headers} are {names}")
    elif case["k"] == "pragma":
        linter = (drive.request if case["kind"] == "req" else drive.response)([["Pragma", ", ".join(case["members"])]])
        want = any(m.lower() != "no-cache" for m in case["members"])
        ctx.count("pragma")
        ctx.count("pragma_other", want)
        if case["kind"] == "req":
            ctx.expect(drive.names(linter).count("PRAGMA_OTHER") == want, "PRAGMA_OTHER", lambda: f"Pragma: {case['members']} has {drive.names(linter)}")
        ctx.distinct_case(["pragma", case["members"]])
    else:
        text = [n + v for n, (_, v) in case["members"]]
        headers = [["CDN-Cache-Control", t] for t in text] if case["split"] else [["CDN-Cache-Control", ", ".join(text)]]
        linter = drive.response(headers)
        got = Counter(n.vars["bad_directive"] for n in linter.notes if type(n).__name__ == "BAD_CDN_CC_TYPE")
        want = Counter()
        for name, (kind, _) in case["members"]:
            ctx.seen("cdn_type", kind)
            if name in FLAGS and kind != "true" or name in NUMBERS and kind != "int" or name in NAMED and kind not in ("true", "string"):
                want[name] += 1
                ctx.seen("cdn_bad", name)
        ctx.count("cdn")
        ctx.expect(got == want, "BAD_CDN_CC_TYPE", lambda: f"{headers} has bad values for {dict(got)}, not {dict(want)}")
        ctx.expect(drive.names(linter).count("CDN_CACHE_CONTROL_PRESENT") == 1, "CDN_CACHE_CONTROL_PRESENT", lambda: f"{headers} has {drive.names(linter)}")
        ctx.distinct_case(headers)
