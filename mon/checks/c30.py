"""C30: Notes about security policies say what the policies that the response carries do."""

import re
from collections import Counter

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C30"
RULE = (
    "responses with any of the security policy fields: Strict-Transport-Security with any directives, values, schemes and statuses; Content-Security-Policy (and report-only) with several policies; COEP and COOP (and report-only) with every value and reporting endpoint; "
    "CORP, X-Frame-Options, X-Content-Type-Options, Referrer-Policy and Clear-Site-Data with known and unknown values; distinct by the fields"
)
SIZES = {"quick": 3000, "thorough": 30000}
REQUIRE = {
    "responses": 20000, "kind:note": 48, "hsts": 6000, "hsts_good": 500, "hsts_bad": 2000, "csp": 6000, "policies": 10000, "report_only": 4000, "coep": 3000, "coop": 3000, "both": 500, "endpoints": 6000, "known_endpoint": 1000,
    "rp": 3000, "csd": 3000, "xfo": 3000, "xcto": 2000, "corp": 2000, "distinct": 15000,
}
YEAR = 31536000
MINE = re.compile(r"^(HSTS_|CSP_|CONTENT_SECURITY_POLICY$|COEP_|COOP_|CORP_|CROSS_ORIGIN_|FRAME_OPTIONS_|CONTENT_TYPE_OPTIONS|REFERRER_POLICY_|CSD_)")
FETCH = ["default-src", "script-src", "style-src", "object-src", "img-src", "connect-src", "frame-src", "script-src-elem", "form-action", "base-uri", "frame-ancestors"]
SOURCES = ["'self'", "'none'", "https:", "https://cdn.example.com", "cdn.example.com", "*.example.com", "data:", "'strict-dynamic'", "'sha256-abc='", "'unsafe-hashes'", "https://*:*", "*:8080", "'wasm-unsafe-eval'", "https://a.example/http:", "https://a.example/'unsafe-inline'", "https://a.example/x'unsafe-eval'", "'unsafe-inline-x'", "'nonce-http:'", "http://*", "**"]
LOUD = ["'unsafe-inline'", "'unsafe-eval'", "http:", "*"]
POLICIES = ["no-referrer", "no-referrer-when-downgrade", "same-origin", "origin", "strict-origin", "origin-when-cross-origin", "strict-origin-when-cross-origin", "unsafe-url"]
STRICT = {"no-referrer", "same-origin", "strict-origin", "strict-origin-when-cross-origin"}
CLEAR = ["cache", "cookies", "storage", "executionContexts", "*"]
ENDPOINTS = ["default", "csp", "main-endpoint", "a", "b1", "x.y"]
COEP = {"require-corp": "COEP_REQUIRE_CORP", "credentialless": "COEP_CREDENTIALLESS", "unsafe-none": "COEP_UNSAFE_NONE"}
COOP = {"same-origin": "COOP_SAME_ORIGIN", "same-origin-allow-popups": "COOP_SAME_ORIGIN_ALLOW_POPUPS", "unsafe-none": "COOP_UNSAFE_NONE"}
CORP = {"same-origin": "CORP_SAME_ORIGIN", "same-site": "CORP_SAME_SITE", "cross-origin": "CORP_CROSS_ORIGIN"}


def cased(r, text):
    pick = r.random()
    return text.upper() if pick < 0.1 else text.title() if pick < 0.2 else text


def hsts(r):
    "-> value, notes: a list of [name, variable] and whether it's valid, apart from the scheme"
    out, notes, seen, valid = [], [], set(), True
    age, sub, pre, bad = None, False, False, False
    choices = r.sample(["max-age", "includeSubDomains", "preload"], r.choice([1, 2, 3, 3])) if r.random() < 0.9 else []
    choices += [r.choice(["foo", "x-bar", "includeSubDomain", "max_age"]) for _ in range(r.choice([0, 0, 0, 1]))]
    if choices and r.random() < 0.2:
        choices += [r.choice(choices) for _ in range(g.many(r, r.choice([1, 1, 2])))]
    r.shuffle(choices)
    for name in choices:
        value = None
        if name == "max-age":
            value = str(r.choice([0, 1, 300, 86400, YEAR - 1, YEAR, YEAR + 1, 2 * YEAR, r.randint(1, 2 * YEAR)]))
            if r.random() < 0.2:
                value = f'"{value}"'
            if r.random() < 0.15:
                value = r.choice([None, "abc", "-1", "1.5", "+5", "1y", "0x10", "1_000", '"a"', "\u00b2"])
        elif name in ("includeSubDomains", "preload"):
            value = r.choice(["true", "1", '"x"', "0"]) if r.random() < 0.12 else None
        elif r.random() < 0.5:
            value = a.simple_token(r)
        out.append(cased(r, name) + ("" if value is None else r.choice(["=", "=", " = ", "= "]) + value))
        low = name.lower()
        if low in seen:
            notes.append(["HSTS_DUPLICATE_DIRECTIVE", low])
            valid = False
            continue
        seen.add(low)
        if low == "max-age":
            number = (value or "").strip('"')
            if re.fullmatch("[0-9]+", number):
                age = int(number)
            else:
                notes.append(["HSTS_BAD_MAX_AGE", str(value)])
                valid, bad = False, True
        elif low in ("includesubdomains", "preload"):
            sub, pre = sub or low == "includesubdomains", pre or low == "preload"
            if value is not None:
                notes.append(["HSTS_VALUE_NOT_ALLOWED", name])
                valid = False
    if age is None:
        valid = False
        if not bad:
            notes.append(["HSTS_NO_MAX_AGE", None])
    elif age == 0:
        notes.append(["HSTS_MAX_AGE_ZERO", None])
    elif age < YEAR:
        notes.append(["HSTS_SHORT_MAX_AGE", None])
    notes.append(["HSTS_SUBDOMAINS" if sub else "HSTS_NO_SUBDOMAINS", None])
    notes.append([("HSTS_PRELOAD" if sub and age is not None and age >= YEAR else "HSTS_PRELOAD_NOT_SUITABLE") if pre else "HSTS_NO_PRELOAD", None])
    text = ""
    for i, directive in enumerate(out):
        text += (r.choice([";", "; ", "; ", " ; ", ";; " if r.random() < 0.2 else "; "]) if i else "") + directive
    if not out or r.random() < 0.1:
        text += ";"
        notes.append(["HSTS_TRAILING_SEMICOLON", None])
    return {"f": "Strict-Transport-Security", "lines": [text] + (["max-age=5; preload; preload"] if r.random() < 0.05 else []), "notes": notes, "valid": valid}


def csp(r, report_only):
    "-> lines; policies: lists of [directive name, sources]"
    policies, texts = [], []
    for _ in range(g.many(r, r.choice([1, 1, 1, 2, 3]))):
        directives = []
        for _ in range(g.many(r, r.choice([1, 1, 2, 3, 4, 6]))):
            pick = r.random()
            if pick < 0.12:
                directives.append(["report-to", [cased(r, r.choice(ENDPOINTS))]])
            elif pick < 0.2:
                directives.append(["report-uri", ["/report", "https://r.example/"][: r.choice([0, 1, 1, 2, 2])]])
            elif pick < 0.3:
                directives.append([r.choice(["upgrade-insecure-requests", "sandbox", "block-all-mixed-content"]), []])
            else:
                sources = [r.choice(LOUD) if r.random() < 0.25 else r.choice(SOURCES) for _ in range(g.many(r, r.choice([0, 1, 1, 2, 3])))]
                directives.append([r.choice(FETCH), [cased(r, s) for s in sources]])
        if r.random() < 0.2:
            directives.append([r.choice(directives)[0], [r.choice(LOUD + SOURCES)]])
        text = ""
        for i, (name, sources) in enumerate(directives):
            text += (r.choice([";", "; ", "; ", ";  "]) if i else "") + cased(r, name) + "".join(r.choice([" ", " ", " ", "  ", "\t"]) + source for source in sources)
            if r.random() < 0.05:
                text += " "
        if r.random() < 0.3:
            text += r.choice([";", "; "])
        policies.append(directives)
        texts.append(text.strip(" "))
    lines = [", ".join(texts)] if r.random() < 0.5 else texts
    return {"f": "Content-Security-Policy" + ("-Report-Only" if report_only else ""), "lines": lines, "policies": policies}


def isolation(r, name, table):
    value = r.choice(sorted(table)) if r.random() < 0.8 else r.choice(["foo", '"require-corp"', '"same-origin"', "?1", "1", "Same-Origin", "same-site", "require-corps", "unsafe_none", "x", "REQUIRE-CORP", "unsafe-none2", "same-origin-x", "same-origin-allow-popup", "none", "credentialless-x", "x-require-corp", "same-origin-allow-popups-2", "same-origin-plus-COEP"])
    report = cased(r, r.choice(ENDPOINTS)) if r.random() < 0.4 else None
    text = value + (f'; report-to="{report}"' if report else "") + (";x=1" if r.random() < 0.05 else "")
    report_only = "-Report-Only" if r.random() < 0.4 else ""
    return {"f": name + report_only, "lines": [text], "value": value, "report": report}


def gen(rng, ctx):
    for _ in range(ctx.size):
        fields = []
        if rng.random() < 0.35:
            fields.append(hsts(rng))
        for report_only in (False, True):
            if rng.random() < 0.3:
                fields.append(csp(rng, report_only))
        for name, table in (("Cross-Origin-Embedder-Policy", COEP), ("Cross-Origin-Opener-Policy", COOP)):
            for _ in range(g.many(rng, rng.choice([0, 0, 0, 1, 1, 2]))):
                field = isolation(rng, name, table)
                if all(f["f"] != field["f"] for f in fields):
                    fields.append(field)
        if rng.random() < 0.15:
            fields.append({"f": "Cross-Origin-Resource-Policy", "lines": [rng.choice(sorted(CORP)) if rng.random() < 0.75 else rng.choice(["foo", "same", "Same-Origin", "same-origins", "none", "cross-site"])]})
        if rng.random() < 0.2:
            value = rng.choice(["DENY", "SAMEORIGIN", "deny", "SameOrigin", "foo", "ALLOWALL", "ALLOW-FROM https://example.com", "ALLOW-FROM https://deny.example", "allow-from https://sameorigin.example", "DENYING", "SAMEORIGINS", "NODENY", "SAME-ORIGIN", "SAMEORIGIN, SAMEORIGIN", "deny,DENY", "SAMEORIGIN , deny", "DENY, SAMEORIGIN", "sameorigin,sameorigin"])
            fields.append({"f": "X-Frame-Options", "lines": [value]})
        if rng.random() < 0.15:
            fields.append({"f": "X-Content-Type-Options", "lines": [rng.choice(["nosniff", "nosniff", "NoSniff", "NOSNIFF", "sniff", "nosniffing", "no-sniff", "none", "nosniff, foo", "nosniff,NOSNIFF", "foo, nosniff", "none,NoSniff"])]})
        if rng.random() < 0.2:
            tokens = [cased(rng, rng.choice(POLICIES)) if rng.random() < 0.75 else rng.choice(["foo", "never", "always", "default", "no-referer", "strict", "originx", "unsafe"]) for _ in range(g.many(rng, rng.choice([1, 1, 1, 2, 3])))]
            fields.append({"f": "Referrer-Policy", "lines": [", ".join(tokens)] if rng.random() < 0.7 else tokens, "tokens": tokens})
        if rng.random() < 0.2:
            members = [[rng.choice(CLEAR) if rng.random() < 0.75 else rng.choice(["foo", "cookie", "Cache", "all", "executioncontexts"]), rng.random() < 0.8] for _ in range(g.many(rng, rng.choice([1, 1, 2, 3])))]
            if rng.random() < 0.1:
                members.append(["", True])
            texts = [f'"{v}"' if quoted else v for v, quoted in members]
            fields.append({"f": "Clear-Site-Data", "lines": [", ".join(texts)] if rng.random() < 0.7 else texts, "members": members})
        names = rng.sample(ENDPOINTS, rng.choice([0, 0, 1, 2, 3]))
        rng.shuffle(fields)
        yield {"fields": fields, "endpoints": names, "broken": bool(names) and rng.random() < 0.08, "first": rng.random() < 0.5, "scheme": rng.choice(["https", "https", "http", None]),
               "status": rng.choice([200, 200, 301, 302, 308, 404])}


def model(case):
    "-> Counter of (field, note, variable), with notes under others as 'parent>note'"
    want = Counter()
    known = set() if case["broken"] else set(case["endpoints"])
    present = {f["f"] for f in case["fields"]}
    for field in case["fields"]:
        name = field["f"]
        low = [line.lower() for line in field["lines"]]

        def note(cls, var=None):
            want[(name, cls, var)] += 1

        if name == "Strict-Transport-Security":
            over = case["scheme"] == "http" and case["status"] != 301
            parent = "HSTS_VALID" if field["valid"] and not over else "HSTS_INVALID"
            note(parent)
            for cls, var in field["notes"] + ([["HSTS_OVER_HTTP", None]] if over else []):
                note(f"{parent}>{cls}", var)
        elif name.startswith("Content-Security-Policy"):
            top = "CONTENT_SECURITY_POLICY"
            note(top, "only" if name.endswith("Only") else None)
            found = {"CSP_WIDE_OPEN": [], "CSP_UNSAFE_INLINE": [], "CSP_UNSAFE_EVAL": [], "CSP_HTTP_URI": []}
            uri = False
            for policy in field["policies"]:
                seen, dups = {}, []
                for directive, sources in policy:
                    if directive in seen:
                        dups.append(directive)
                    else:
                        seen[directive] = [s.lower() for s in sources] if directive != "report-to" else sources
                if dups:
                    note(top + ">CSP_DUPLICATE_DIRECTIVE", " ".join(dups))
                for directive, sources in seen.items():
                    uri = uri or directive == "report-uri"
                    if directive in ("script-src", "style-src", "object-src") and "*" in sources:
                        found["CSP_WIDE_OPEN"].append(directive)
                    for source, cls in (("'unsafe-inline'", "CSP_UNSAFE_INLINE"), ("'unsafe-eval'", "CSP_UNSAFE_EVAL"), ("http:", "CSP_HTTP_URI")):
                        if source in sources:
                            found[cls].append(directive)
                    if directive == "report-to" and sources[0] not in known:
                        note(top + ">CSP_REPORT_TO_MISSING", sources[0])
            if uri:
                note(top + ">CSP_DEPRECATED_REPORT_URI", "only" if name.endswith("Only") else None)
            for cls, directives in found.items():
                if directives:
                    note(f"{top}>{cls}", " ".join(directives))
        elif name.startswith("Cross-Origin-Embedder-Policy") or name.startswith("Cross-Origin-Opener-Policy"):
            embed = "Embedder" in name
            report_only = "only" if name.endswith("Only") else ""
            cls = (COEP if embed else COOP).get(field["value"])
            if cls:
                note(cls, report_only or None)
            else:
                note(f"CROSS_ORIGIN_{'EMBEDDER' if embed else 'OPENER'}_POLICY_BAD_VALUE", report_only or None)
            if field["report"] and field["report"] not in known:
                note(f"CO{'E' if embed else 'O'}P_REPORT_TO_MISSING", field["report"] + report_only)
            if name == "Cross-Origin-Opener-Policy-Report-Only" and "Cross-Origin-Opener-Policy" in present:
                note("COOP_REPORT_ONLY_DUPLICATE")
            if name == "Cross-Origin-Embedder-Policy-Report-Only" and "Cross-Origin-Embedder-Policy" in present:
                note("COEP_REPORT_ONLY_DUPLICATE")
        elif name == "Cross-Origin-Resource-Policy":
            note(CORP.get(field["lines"][0], "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE"), None if field["lines"][0] in CORP else field["lines"][0])
        elif name == "X-Frame-Options":
            values = {v.strip() for v in low[0].split(",")}
            note("FRAME_OPTIONS_DENY" if "deny" in values else "FRAME_OPTIONS_SAMEORIGIN" if values == {"sameorigin"} else "FRAME_OPTIONS_UNKNOWN")
        elif name == "X-Content-Type-Options":
            note("CONTENT_TYPE_OPTIONS" if low[0].split(",")[0] == "nosniff" else "CONTENT_TYPE_OPTIONS_UNKNOWN")
        elif name == "Referrer-Policy":
            tokens = [t.lower() for t in field["tokens"]]
            good = [t for t in tokens if t in POLICIES]
            for token in tokens:
                if token not in POLICIES:
                    note("REFERRER_POLICY_UNKNOWN", token)
            if not good:
                note("REFERRER_POLICY_EMPTY")
            else:
                if len(good) > 1:
                    note("REFERRER_POLICY_MULTIPLE", good[-1])
                if good[-1] == "unsafe-url":
                    note("REFERRER_POLICY_UNSAFE")
                elif good[-1] in STRICT:
                    note("REFERRER_POLICY_STRICT", good[-1])
        elif name == "Clear-Site-Data":
            for value, _ in field["members"]:
                if not value:
                    note("CSD_EMPTY")
                elif value not in CLEAR:
                    note("CSD_UNKNOWN_VALUE", value)
            unquoted = [v for v, quoted in field["members"] if not quoted and v in CLEAR]
            quoted = [v for v, quoted in field["members"] if quoted and v in CLEAR]
            if unquoted:
                note("CSD_UNQUOTED", " ".join(unquoted))
            if quoted:
                note("CSD_PRESENT", " ".join(quoted))
    return want


def variable(note):
    name, v = type(note).__name__, note.vars
    if "directives_list" in v:
        return " ".join(re.findall("`+ *([^` ]*) *`+", str(v["directives_list"])))
    if name in ("COEP_REPORT_TO_MISSING", "COOP_REPORT_TO_MISSING"):
        return str(v["endpoint"]) + ("only" if v["report_only"] else "")
    if name == "CSD_UNQUOTED":
        return str(v["values"]).replace(",", "")
    if name == "CSD_PRESENT":
        return " ".join(re.findall("`+ *([^` ]*) *`+", str(v["values"])))
    if name == "CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE":
        return str(v["value"])
    for key in ("directive", "max_age", "policy", "effective", "endpoint"):
        if key in v:
            return str(v[key])
    if name == "CSD_UNKNOWN_VALUE":
        return str(v["value"])
    return "only" if v.get("report_only") or v.get("report_only_text") else None


def check(ctx, case):
    pairs = [[f["f"], line] for f in case["fields"] for line in f["lines"]]
    ends = [["Reporting-Endpoints", ", ".join(f'{n}="https://r.example/{n}"' for n in case["endpoints"]) + (", !" if case["broken"] else "")]] if case["endpoints"] else []
    pairs = ends + pairs if case["first"] else pairs + ends
    linter = drive.response(pairs, s=str(case["status"]), base=f"{case['scheme']}://www.example.com/" if case["scheme"] else None)
    want = model(case)
    got = Counter()
    for note in linter.notes:
        name = type(note).__name__
        if not MINE.match(name):
            continue
        got[(note.vars["field_name"], name, variable(note))] += 1
        for child in note.subnotes:
            got[(note.vars["field_name"], f"{name}>{type(child).__name__}", variable(child))] += 1
    ctx.count("responses")
    for field in case["fields"]:
        name = field["f"]
        for prefix, key in (("Strict", "hsts"), ("Content-Security", "csp"), ("Cross-Origin-Emb", "coep"), ("Cross-Origin-Op", "coop"), ("Cross-Origin-Res", "corp"), ("X-Frame", "xfo"), ("X-Content", "xcto"), ("Referrer", "rp"), ("Clear", "csd")):
            ctx.count(key, name.startswith(prefix))
        ctx.count("report_only", name.endswith("Only"))
        ctx.count("policies", len(field.get("policies", ())))
    ctx.count("hsts_good", want[("Strict-Transport-Security", "HSTS_VALID", None)])
    ctx.count("hsts_bad", want[("Strict-Transport-Security", "HSTS_INVALID", None)])
    ctx.count("both", sum(v for k, v in want.items() if k[1].endswith("REPORT_ONLY_DUPLICATE")))
    ctx.count("endpoints", bool(case["endpoints"]))
    ctx.count("known_endpoint", sum(f.get("report") in case["endpoints"] for f in case["fields"]))
    for key in want:
        ctx.seen("note", key[1].split(">")[-1])
    if case["fields"]:
        ctx.distinct_case(pairs)
    for key in sorted(set(want) | set(got), key=repr):
        if want[key] != got[key]:
            shown = [line for f in case["fields"] if f["f"] == key[0] for line in f["lines"]]
            ctx.violation(f"{key[1].split('>')[-1]}:{'missing' if want[key] > got[key] else 'extra'}",
                          f"{key[0]}: {shown} (status {case['status']}, {case['scheme']}, endpoints {case['endpoints']}) has {key[1]} ({key[2]}) {got[key]} times, not {want[key]}; it has {sorted(k[1:] for k in got if k[0] == key[0])}"[:900])
