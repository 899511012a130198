"""C33: Links, reporting endpoints, NEL and Report-To policies are explained exactly."""

import json
import re
from collections import Counter

from mon import abnf as a
from mon import drive
from mon import gen as g
from mon.checks.c32 import resolve

PROPERTY = "C33"
RULE = (
    "Link with any relations, targets (absolute with any scheme, relative), anchors and types; Reporting-Endpoints and Speculation-Rules with strings and other types; NEL and Report-To as JSON with missing, mistyped, out of range and extra members, in any number of objects and lines, and broken JSON; "
    "NEL with and without matching endpoints; distinct by the fields"
)
SIZES = {"quick": 3000, "thorough": 30000}
REQUIRE = {
    "links": 6000, "hinted": 3000, "bad_targets": 1500, "kind:note": 19, "nel": 4000, "nel_policies": 5000, "clean": 500, "configured": 300, "broken": 1200, "kind:break": 14, "report_to": 2500, "endpoints": 4000, "rules": 1500, "silent": 1500, "distinct": 12000,
}
MINE = re.compile(r"^(LINK_|NEL_|REPORT_TO_|BAD_JSON|ENDPOINT_NOT_SECURE|BAD_REPORTING|SPECULATION_RULE)")
HINTS = ["preload", "preconnect", "dns-prefetch"]
RELS = ["stylesheet", "next", "prev", "canonical", "modulepreload", "prefetch", "http://example.com/rel", "preloads", "alternate", "dns", "describedby"]
NAMES = ["default", "main", "a1", "b-2", "x.y", "z_z", "*w"]
GOOD_TYPES = ["text/html", "application/xhtml+xml", "image/svg+xml", "text/plain", "Text/HTML", "application/vnd.x-y.z"]
BAD_TYPES = ["text", "text/", "/html", "text html", "text/html/x", "@/b", "te xt/html", "text\\/html"]
BAD_ANCHORS = ["a b", "%zz", "a|b", "{x}", "http://[::1", "x^y", "a%", "#a#b", "http://exa mple.com/"]


def case_of(r, text):
    pick = r.random()
    return text.upper() if pick < 0.08 else text.title() if pick < 0.16 else text


def target(r):
    "-> reference, scheme or None when it's relative"
    pick = r.random()
    if pick < 0.4:
        return r.choice(["/style.css", "foo", "../a/b", "?q=1", "//cdn.example.com/x", "#f", "/a,b", "/x;y=1", "./"]), None
    if pick < 0.75:
        return r.choice(["https://cdn.example.com/a.js", "http://example.com", "HTTPS://x.example/", "http://a.example/b,c", "https://a.example:8443/;d"]), "http"
    if pick < 0.83:
        return r.choice(["wss://a.example/", "WSS://x/"]), "wss"
    scheme = r.choice(["data", "ftp", "blob", "javascript", "ws", "file", "Mailto", "httpx", "urn"])
    return scheme + ":" + r.choice(["x", "//h/a", "a:b", "text/plain,x"]), scheme


def resolved_scheme(base, ref):
    if re.match("^[A-Za-z][A-Za-z0-9+.-]*:", ref):
        return ref.split(":")[0].lower()
    return resolve(base, ref).split(":")[0].lower() if base else ""


def make_link(r):
    ref, _ = target(r)
    params, out = {}, []
    names = r.sample(["rel", "anchor", "type", "rev", "title", "as", "crossorigin", "media"], r.choice([1, 2, 2, 3, 4]))
    if "rel" not in names and r.random() < 0.8:
        names.append("rel")
    for name in names:
        value = {
            "rel": lambda: r.choice([" ", " ", "  "]).join(case_of(r, r.choice(HINTS) if r.random() < 0.5 else r.choice(RELS)) for _ in range(g.many(r, r.choice([1, 1, 1, 2, 3])))),
            "anchor": lambda: r.choice(BAD_ANCHORS) if r.random() < 0.5 else r.choice(["#foo", "/a", "http://example.com/x?y", "", "a", "//h", "?q", "urn:x:y"]),
            "type": lambda: r.choice(BAD_TYPES) if r.random() < 0.5 else r.choice(GOOD_TYPES),
            "rev": lambda: r.choice(["made", "next", "preload"]),
            "title": lambda: r.choice(["x", "rel=preload", "a; rel=preload", "a, b", "<b>; rel=preconnect"]),
            "as": lambda: r.choice(["style", "script", "preload"]), "crossorigin": lambda: r.choice([None, "anonymous"]), "media": lambda: r.choice(["print", "(x: 1)"]),
        }[name]()
        params[name] = value
        if value is None:
            text = ""
        elif re.fullmatch("[A-Za-z0-9.-]+", value) and r.random() < 0.5:
            text = "=" + value
        else:
            text = '="' + value.replace("\\", "\\\\").replace('"', '\\"') + '"'
        out.append(case_of(r, name) + text)
    return {"ref": ref, "params": params, "text": f"<{ref}>" + "".join(r.choice([";", "; ", " ; "]) + o for o in out)}


def wrong(r, good):
    "a JSON value that isn't of the type"
    return r.choice([v for v in ["x", "1", "true", 1, 1.5, True, False, None, [], {}, ["a"], -0.5] if not good(v)])


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def nel_policy(r):
    if r.random() < 0.1:
        return r.choice([[], "x", 1, None, True, [{"report_to": "default", "max_age": 1}], 1.5])
    policy = {}
    for name, good, value in (
        ("report_to", lambda v: isinstance(v, str), lambda: r.choice(NAMES)), ("max_age", is_int, lambda: r.choice([1, 60, 86400, 31536000])),
        ("include_subdomains", lambda v: isinstance(v, bool), lambda: r.random() < 0.5), ("success_fraction", is_num, lambda: r.choice([0, 1, 0.0, 1.0, 0.5, 0.001, 1e-9])), ("failure_fraction", is_num, lambda: r.choice([0, 1, 1.0, 0.25, 0.999])),
    ):
        if r.random() < (0.92 if name in ("report_to", "max_age") else 0.35):
            policy[name] = value()
            if r.random() < 0.1:
                policy[name] = wrong(r, good)
            elif name.endswith("fraction") and r.random() < 0.25:
                policy[name] = r.choice([-0.1, 1.1, 2, -1, 100, 1.0000001])
    if r.random() < 0.2:
        policy[r.choice(["foo", "request_headers", "Report_To", "group", "max-age"])] = r.choice([1, "x", [], None])
    return shuffled(r, policy)


def shuffled(r, obj):
    items = list(obj.items())
    r.shuffle(items)
    return dict(items)


def group(r):
    if r.random() < 0.1:
        return r.choice([[], "x", 1, None, True])
    out = {}
    if r.random() < 0.9:
        out["max_age"] = wrong(r, is_int) if r.random() < 0.15 else r.choice([0, 1, 10886400])
    if r.random() < 0.9:
        ends = []
        for _ in range(g.many(r, r.choice([0, 1, 1, 2, 3]))):
            end = {"url": wrong(r, lambda v: isinstance(v, str)) if r.random() < 0.15 else "https://r.example/"} if r.random() < 0.85 else {}
            if r.random() < 0.3:
                end["priority"] = 1
            ends.append(end if r.random() < 0.85 else r.choice([[], "https://r.example", 1, None]))
        out["endpoints"] = wrong(r, lambda v: isinstance(v, list)) if r.random() < 0.12 else ends
    if r.random() < 0.5:
        out["group"] = r.choice(NAMES)
    return shuffled(r, out)


def to_json(r, value):
    text = json.dumps(value, ensure_ascii=r.random() < 0.8, separators=r.choice([(",", ":"), (", ", ": "), (" , ", " : ")]))
    if r.random() < 0.2 and '"max_age"' in text:
        text = text.replace('"max_age"', '"max\\u005fage"')
    return text


BREAKS = {
    "brace": lambda t: t[:-1], "trailing": lambda t: t[:-1] + ",}", "single": lambda t: t.replace('"', "'"), "unquoted": lambda t: '{max_age: 1}', "nan": lambda t: '{"max_age": NaN}', "infinity": lambda t: '{"max_age": 1, "success_fraction": -Infinity}',
    "comment": lambda t: t + " /* x */", "true": lambda t: '{"include_subdomains": True}', "zero": lambda t: '{"max_age": 01}', "text": lambda t: "default", "semi": lambda t: t + ";", "twice": lambda t: t + t, "dot": lambda t: '{"success_fraction": .5}',
    "plus": lambda t: '{"max_age": +1}', "close": lambda t: t + "}", "string": lambda t: '{"report_to": "a}', "colon": lambda t: '{"max_age" 1}', "bracket": lambda t: t + "]",
}


def lines_of(r, texts):
    if r.random() < 0.5:
        return [", ".join(texts)]
    return texts


def endpoints(r, names):
    out = []
    for name in names:
        if r.random() < 0.12:
            out.append([name, r.choice(["1", "?1", "default", ":aGk=:", "1.5", '("https://a.example/")', "@123"]), None])
        else:
            ref, _ = target(r)
            out.append([name, f'"{ref}"', ref])
    return out


def gen(rng, ctx):
    for i in range(ctx.size):
        pick = i % 6
        case = {"base": rng.choice(["", "ftp://www.example.com/a/b", "https://www.example.com/a", "https://www.example.com/a/b", "https://www.example.com/", "http://www.example.com/x"]), "links": [], "ends": [], "nel": None, "rt": None, "rules": [], "lines": []}
        if pick in (0, 1):
            case["links"] = [make_link(rng) for _ in range(g.many(rng, rng.choice([1, 1, 2, 3, 4])))]
            case["lines"] += [["Link", t] for t in lines_of(rng, [link["text"] for link in case["links"]])]
        elif pick in (2, 3):
            values = [nel_policy(rng) for _ in range(g.many(rng, rng.choice([1, 1, 1, 2, 3])))]
            case["nel"] = {"values": values, "broken": None}
            texts = [to_json(rng, v) for v in values]
            if rng.random() < 0.15:
                what = rng.choice(sorted(BREAKS))
                texts[-1] = BREAKS[what](texts[-1] if isinstance(values[-1], dict) and values[-1] else '{"max_age":1,"report_to":"a1"}')
                case["nel"]["broken"] = what
            case["lines"] += [["NEL", t] for t in lines_of(rng, texts)]
        elif pick == 4:
            values = [group(rng) for _ in range(g.many(rng, rng.choice([1, 1, 2, 3])))]
            case["rt"] = {"values": values, "broken": None}
            texts = [to_json(rng, v) for v in values]
            if rng.random() < 0.15:
                what = rng.choice(sorted(BREAKS))
                texts[-1] = BREAKS[what](texts[-1] if isinstance(values[-1], dict) and values[-1] else '{"max_age":1,"endpoints":[]}')
                case["rt"]["broken"] = what
            case["lines"] += [["Report-To", t] for t in lines_of(rng, texts)]
        else:
            case["rules"] = [[f'"{t}"', t] if rng.random() < 0.85 else [rng.choice(["1", "?0", "tok", ":aGk=:", "1.0"]), None] for t in (target(rng)[0] for _ in range(g.many(rng, rng.choice([1, 1, 2, 3]))))]
            case["lines"] += [["Speculation-Rules", t] for t in lines_of(rng, [r[0] for r in case["rules"]])]
        if pick in (2, 3) or rng.random() < 0.3:
            case["ends"] = endpoints(rng, rng.sample(NAMES, rng.choice([0, 1, 2, 4, 6])))
            if case["ends"]:
                new = [["Reporting-Endpoints", t] for t in lines_of(rng, [f"{n}={v}" for n, v, _ in case["ends"]])]
                case["lines"] = new + case["lines"] if rng.random() < 0.5 else case["lines"] + new
        yield case


def model(case):
    want = Counter()
    base = case["base"]
    hints = {h: [] for h in HINTS}
    for link in case["links"]:
        ref, params = link["ref"], link["params"]
        if "rev" in params:
            want["LINK_REV", ref, params["rev"]] += 1
        if params.get("anchor") in BAD_ANCHORS:
            want["LINK_BAD_ANCHOR", ref, params["anchor"]] += 1
        if params.get("type") in BAD_TYPES:
            want["LINK_BAD_TYPE", ref, params["type"]] += 1
        for rel in (params.get("rel") or "").lower().split(" "):
            if rel in HINTS:
                scheme = resolved_scheme(base, ref)
                if scheme in ("http", "https", ""):
                    hints[rel].append(ref)
                else:
                    want["LINK_BAD_HINT_TARGET", ref, f"{rel} {scheme}"] += 1
    if any(hints.values()):
        want["LINK_RESOURCE_HINTS", "", " | ".join(f"{h}: {' '.join(refs)}" for h, refs in hints.items() if refs)] += 1
    for rule in case["rules"]:
        if rule[1] is None:
            want["SPECULATION_RULES_BAD_TYPE", "", ""] += 1
        elif resolved_scheme(base, rule[1]) not in ("https", "wss", ""):
            want["SPECULATION_RULE_NOT_SECURE", rule[1], ""] += 1
    valid = set()
    for name, _, ref in case["ends"]:
        if ref is None:
            want["BAD_REPORTING_ENDPOINT_SYNTAX", name, ""] += 1
        elif resolved_scheme(base, ref) not in ("https", "wss", ""):
            want["ENDPOINT_NOT_SECURE", name, ref] += 1
        else:
            valid.add(name)
    if case["nel"] and case["nel"]["broken"]:
        want["BAD_JSON", "NEL", ""] += 1
    elif case["nel"]:
        used = []
        for policy in case["nel"]["values"]:
            if not isinstance(policy, dict):
                want["NEL_BAD_STRUCTURE", "", ""] += 1
                continue
            clean = True
            for key, good, needed in (("report_to", lambda v: isinstance(v, str), True), ("max_age", is_int, True), ("include_subdomains", lambda v: isinstance(v, bool), False), ("success_fraction", is_num, False), ("failure_fraction", is_num, False)):
                note = None
                if key not in policy:
                    note = "NEL_MISSING_KEY" if needed else None
                elif not good(policy[key]):
                    note = "NEL_BAD_TYPE"
                elif key.endswith("fraction") and not 0 <= policy[key] <= 1:
                    note = "NEL_BAD_VALUE"
                if note:
                    want[note, key, ""] += 1
                    clean = False
            name = policy.get("report_to")
            if isinstance(name, str):
                if name not in [n for n, _, _ in case["ends"]]:
                    want["NEL_REPORT_TO_MISSING", name, ""] += 1
                elif name in valid and clean:
                    used.append(name)
        if used:
            want["NEL_CONFIGURED", "", " ".join(used)] += 1
    if case["rt"] and case["rt"]["broken"]:
        want["BAD_JSON", "Report-To", ""] += 1
    elif case["rt"]:
        for obj in case["rt"]["values"]:
            if not isinstance(obj, dict):
                want["REPORT_TO_BAD_STRUCTURE", "", ""] += 1
                continue
            if "max_age" not in obj:
                want["REPORT_TO_MISSING_KEY", "max_age", ""] += 1
            elif not is_int(obj["max_age"]):
                want["REPORT_TO_BAD_TYPE", "max_age", ""] += 1
            if "endpoints" not in obj:
                want["REPORT_TO_MISSING_KEY", "endpoints", ""] += 1
            elif not isinstance(obj["endpoints"], list):
                want["REPORT_TO_BAD_TYPE", "endpoints", ""] += 1
            else:
                for end in obj["endpoints"]:
                    if not isinstance(end, dict):
                        want["REPORT_TO_BAD_STRUCTURE", "", ""] += 1
                    elif "url" not in end:
                        want["REPORT_TO_MISSING_KEY", "endpoints[].url", ""] += 1
                    elif not isinstance(end["url"], str):
                        want["REPORT_TO_BAD_TYPE", "endpoints[].url", ""] += 1
    return want


def observed(note):
    name, v = type(note).__name__, note.vars
    if name == "LINK_RESOURCE_HINTS":
        out = []
        for line in str(v["detail_lines"]).split("\n"):
            rel, _, refs = line.lstrip("- ").partition(": ")
            out.append(f"{rel.strip('`')}: " + " ".join(x.strip() for x in re.findall(r"(?<!`)`+([^`]+)`+", refs)))
        return name, "", " | ".join(out)
    if name == "LINK_BAD_HINT_TARGET":
        return name, str(v["link"]), f"{v['rel']} {v['scheme']}"
    if name.startswith("LINK_"):
        return name, str(v["link"]), str(v[{"LINK_REV": "rev", "LINK_BAD_ANCHOR": "anchor", "LINK_BAD_TYPE": "type"}[name]])
    if name == "BAD_JSON":
        return name, str(v["field_name"]), ""
    if name == "NEL_CONFIGURED":
        return name, "", " ".join(x.strip() for x in re.findall(r"`+([^`]+)`+", str(v["endpoints"])))
    if name == "NEL_REPORT_TO_MISSING":
        return name, str(v["value"]), ""
    if name in ("BAD_REPORTING_ENDPOINT_SYNTAX", "ENDPOINT_NOT_SECURE"):
        return name, str(v["name"]), str(v.get("url", ""))
    if name == "SPECULATION_RULE_NOT_SECURE":
        return name, str(v["url"]), ""
    return name, str(v.get("key", "")), ""


def check(ctx, case):
    linter = drive.response(case["lines"], base=case["base"])
    want = model(case)
    got = Counter(observed(n) for n in linter.notes if MINE.match(type(n).__name__))
    ctx.count("links", len(case["links"]))
    ctx.count("hinted", any(k[0] == "LINK_RESOURCE_HINTS" for k in want))
    ctx.count("bad_targets", sum(v for k, v in want.items() if k[0] == "LINK_BAD_HINT_TARGET"))
    ctx.count("endpoints", len(case["ends"]))
    ctx.count("rules", len(case["rules"]))
    ctx.count("report_to", case["rt"] is not None)
    ctx.count("nel", case["nel"] is not None)
    ctx.count("nel_policies", len(case["nel"]["values"]) if case["nel"] else 0)
    ctx.count("clean", bool(case["nel"]) and not any(k[0].startswith("NEL") and k[0] not in ("NEL_CONFIGURED", "NEL_REPORT_TO_MISSING") or k[0] == "BAD_JSON" for k in want))
    ctx.count("configured", any(k[0] == "NEL_CONFIGURED" for k in want))
    for which in ("nel", "rt"):
        if case[which] and case[which]["broken"]:
            ctx.count("broken")
            ctx.seen("break", case[which]["broken"])
    ctx.count("silent", not want)
    for key in want:
        ctx.seen("note", key[0])
    ctx.distinct_case(case["lines"])
    for key in sorted(set(want) | set(got), key=repr):
        if want[key] != got[key]:
            ctx.violation(f"{key[0]}:{'missing' if want[key] > got[key] else 'extra'}", f"{case['lines']} has {key} {got[key]} times, not {want[key]}; it has {sorted(got)}"[:900])
    if case["links"]:
        value = linter.headers.parsed.get("link", [])
        ctx.expect([v[0] for v in value] == [link["ref"] for link in case["links"]], "targets", lambda: f"{case['lines']} is read as links to {[v[0] for v in value]}")
    for which, name in (("nel", "nel"), ("rt", "report-to")):
        if case[which]:
            value = linter.headers.parsed.get(name)
            ctx.expect(value == (None if case[which]["broken"] else case[which]["values"]), "value", lambda: f"{case['lines']} is read as {value}")  # pylint: disable=cell-var-from-loop
