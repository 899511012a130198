"""C17: media types, parameters and q values are read as they're sent, and their problems are reported."""

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C17"
RULE = (
    "media types and ranges (names of each character and length, wildcards in each place), with parameters as tokens, quoted strings with escapes, single-quoted, "
    "repeated, extended (RFC 8187: charsets, percent-encoding, wrong forms), with white space and letter case varied, and q values and near-q values, in Content-Type, Content-Disposition, "
    "Link, Server-Timing, Transfer-Encoding, Accept, Accept-Post, Accept-Patch, Accept-Language, Accept-Encoding and TE; distinct by value"
)
SIZES = {"quick": 8000, "thorough": 120000}
REQUIRE = {
    "kind:field": 11, "kind:param_note": 6, "parameters": 60000, "extended": 5000, "q_good": 6000, "q_bad": 6000, "bad_name": 1500, "long_name": 1000, "not_type": 2000,
    "wildcards": 2000, "disposition": 4000, "path_char": 500, "kind:q": 60,
}
MEDIA = {
    # field: (kind, wildcards, star not allowed for, note for what isn't a type)
    "Content-Type": ("resp", False, ["charset"], None),
    "Accept": ("req", True, ["q"], "ACCEPT_BAD_SYNTAX"),
    "Accept-Post": ("resp", True, [], "ACCEPT_POST_BAD_SYNTAX"),
    "Accept-Patch": ("resp", False, [], "ACCEPT_PATCH_BAD_SYNTAX"),
}
PARAM_NOTES = {"PARAM_REPEATS", "PARAM_SINGLE_QUOTED", "PARAM_STAR_BAD", "PARAM_STAR_QUOTED", "PARAM_STAR_ERROR", "PARAM_STAR_NOCHARSET", "PARAM_STAR_CHARSET"}
REG_FIRST = a.ALPHA + a.DIGIT
REG = REG_FIRST + "!#$&-^_.+"
TCHAR = REG_FIRST + "!#$%&'*+-.^_`|~"
QDTEXT = a.ALPHA + a.DIGIT + " \t!#$%&'()*+,-./:;<=>?@[]^_`{|}~"
BAD_Q = ["1.1", "2", "1.001", "0.1234", "-0", "-0.5", "+0.5", ".5", "1e-1", "0_1", "nan", "inf", "0.5a", "a", "00", "0.5.", "01", "1.0000", "10", "0x0", "0,5"]
COMMON = ["html", "plain", "json", "xml", "css", "javascript", "png", "jpeg", "svg+xml", "problem+json", "octet-stream", "form-data", "text", "application", "image", "audio", "video", "multipart", "font", "x-foo", "vnd.a.b"]
OTHER_CHARSETS = ["iso-8859-1", "ISO-8859-1", "utf8", "UTF8", "utf_8", "us-ascii", "windows-1252", "utf-16", "utf-7", "latin1", "utf-8-sig", "x", "utf-88", "cp65001"]
SPELL = {"utf-8": ["utf-8", "UTF-8", "Utf-8"], "iso-8859-1": OTHER_CHARSETS, "": [""]}


OTHER = {
    # field: (parameters that can't have a star, names to use)
    "Link": (["rel", "rev", "anchor", "hreflang", "type", "media"], ["rel", "rev", "anchor", "hreflang", "type", "media", "title"]),
    "Server-Timing": (["desc"], ["desc", "dur"]),
    "Transfer-Encoding": (None, ["q", "a"]),
}


def name_part(r):
    "-> (text, registrable, too long)"
    p = r.random()
    if p < 0.25:
        return r.choice(COMMON)
    if p < 0.6:
        return a.simple_token(r)
    if p < 0.75:
        return r.choice(REG_FIRST) + a.chars(r, REG, 0, 8)
    if p < 0.85:
        return r.choice("!#$&-^_.+%'*`|~") + a.chars(r, TCHAR, 1, 8)
    if p < 0.92:
        return "a" + a.chars(r, TCHAR, 1, 8)
    return "x" * r.choice([63, 64, 65, 126, 127, 128, 129, 200])


def quoted(r, text):
    out = '"'
    for c in text:
        out += "\\" + c if c in '"\\' or r.random() < 0.1 else c
    return out + '"'


def param(r, names, stars=True):
    "-> [name as sent, raw value, kind, value it has or None]"
    name = r.choice(names) if r.random() < 0.4 else a.simple_token(r, 1, 6)
    name = "".join(c.upper() if r.random() < 0.2 else c for c in name)
    if stars and r.random() < 0.3:
        enc = r.choice(["utf-8", "utf-8", "utf-8", "iso-8859-1", ""])
        text = "".join(r.choice("abcXYZ019\xe9\u20ac\u4e2d-_./ %\\\"'") for _ in range(r.randint(0, 6)))
        esc = "".join(c if c in "abcXYZ019-_." and r.random() < 0.8 else "".join(f"%{b:02x}" if r.random() < 0.5 else f"%{b:02X}" for b in c.encode("utf-8")) for c in text)
        raw = r.choice(SPELL[enc]) + "'" + r.choice(["", "en", "en-GB"]) + "'" + esc
        kind = {"utf-8": "star", "iso-8859-1": "charset", "": "nocharset"}[enc]
        if r.random() < 0.15:
            kind, raw = "error", r.choice(["utf-8'" + esc, esc.replace("'", "") or "x", "utf-8", "utf-8'en'a'b", "'"])
        q = r.random() < 0.15 and raw != "'"
        if "'" == raw[0] == raw[-1] and len(raw) > 1 or raw == "'":
            kind, raw, q = "error", "x" + esc.replace("'", ""), False
        return [name + "*", f'"{raw}"' if q else raw, kind + ("-quoted" if q else ""), text]
    p = r.random()
    if p < 0.45:
        text = a.chars(r, TCHAR.replace("'", ""), 1, 8)
        return [name, text, "token", text]
    if p < 0.55:
        text = "'" + a.chars(r, TCHAR.replace("'", ""), 1, 8) + "'"
        return [name, text, "single", text]
    text = a.chars(r, QDTEXT + '"\\', 0, 10)
    return [name, quoted(r, text), "quoted", text]


def params(r, names, n, stars=True):
    out = []
    for _ in range(n):
        if out and r.random() < 0.1 and not out[-1][0].endswith("*"):
            p = param(r, names, False)
            p[0] = "".join(c.upper() if r.random() < 0.2 else c.lower() for c in out[r.randrange(len(out))][0].rstrip("*"))
        else:
            p = param(r, names, stars)
        if p[0].endswith("*") and p[0].lower() in [x[0].lower() for x in out]:
            continue  # which of several extended parameters is used, if some of them are wrong, isn't defined
        out.append(p)
    return out


def render(r, ps):
    out = ""
    for name, raw, _, _ in ps:
        out += a.ows(r) + ";" + a.ows(r) + name + "=" + raw
        if r.random() < 0.05:
            out += a.ows(r) + ";"
    return out


def qvalue(r):
    if r.random() < 0.5:
        return r.choice(["0", "1", "0.", "1.", "1.0", "1.00", "1.000"] + ["0." + a.chars(r, a.DIGIT, 1, 3) for _ in range(5)]), True
    if r.random() < 0.7:
        return r.choice(BAD_Q), False
    return "0." + a.chars(r, a.DIGIT, 4, 9), False


def gen(r, ctx):
    for _ in range(ctx.size):
        what = r.choice(["media", "media", "media", "disposition", "q", "q", "other"])
        if what == "media":
            field = r.choice(sorted(MEDIA))
            wild = r.random() < 0.2
            typ = r.choice(["*", name_part(r)]) if wild else name_part(r)
            sub = r.choice(["*", name_part(r)]) if wild else name_part(r)
            shape = r.random()
            mt = typ + "/" + sub if shape < 0.92 else r.choice([typ, typ + "/", "/" + sub, typ + "/" + sub + "/" + sub, "/", typ + "//" + sub])
            ps = params(r, ["charset", "profile", "boundary", "level"], g.many(r, r.choice([0, 1, 1, 2, 3])))
            q = None
            if field == "Accept":
                ps = [p for p in ps if p[0].lower() not in ("q", "q*")]
                if r.random() < 0.6:
                    q = list(qvalue(r))
                    ps.append([r.choice("qqqQ"), q[0], "token", q[0]])
                    if "'" in q[0] or "," in q[0]:
                        ps[-1][1] = f'"{q[0]}"'
            yield {"what": what, "field": field, "type": mt, "params": ps, "q": q, "text": "".join(c.upper() if r.random() < 0.1 else c for c in mt) + render(r, ps)}
        elif what == "disposition":
            disp = r.choice(["attachment", "attachment", "inline", "form-data", a.simple_token(r)])
            ps = params(r, ["filename", "filename", "name", "size"], g.many(r, r.choice([0, 1, 1, 2, 3])))
            if r.random() < 0.3:
                ps = [p for p in ps if p[0].lower() != "filename"]
                text = a.chars(r, "ab.%/\\", 1, 5)
                ps.append(["filename", quoted(r, text), "quoted", text])
            yield {"what": what, "field": "Content-Disposition", "type": disp, "params": ps, "text": "".join(c.upper() if r.random() < 0.1 else c for c in disp) + render(r, ps)}
        elif what == "other":
            field = r.choice(sorted(OTHER))
            ps = params(r, OTHER[field][1], g.many(r, r.choice([1, 1, 2, 3])))
            yield {"what": what, "field": field, "params": ps, "text": r.choice(["<a>", "<http://a.example/?b=c;d>"] if field == "Link" else ["name", "x"]) + render(r, ps)}
        else:
            field = r.choice(["Accept-Language", "Accept-Language", "Accept-Encoding", "TE"])
            q = list(qvalue(r))
            name = {"Accept-Language": ["en", "en-GB", "*", "zh-hant"], "Accept-Encoding": ["gzip", "br", "*", "identity"], "TE": ["deflate", "gzip", "x-foo"]}[field]
            name = r.choice(name)
            raw = f'"{q[0]}"' if "," in q[0] else q[0]
            yield {"what": what, "field": field, "type": name, "q": q, "text": name + a.ows(r) + ";" + a.ows(r) + r.choice("qqqQ") + "=" + raw}


def expected(ps, nostar):
    "-> (values by name, possible values of those that repeat, notes)"
    values, several, notes = {}, {}, []
    for name, raw, kind, text in ps:
        key = name.lower()
        base = kind.split("-")[0]
        if key in values:
            notes.append(("PARAM_REPEATS", key))
        if kind == "single":
            notes.append(("PARAM_SINGLE_QUOTED", key))
        if name.endswith("*"):
            if nostar is None or key[:-1] in nostar:
                notes.append(("PARAM_STAR_BAD", key[:-1]))
                continue
            if kind.endswith("-quoted"):
                notes.append(("PARAM_STAR_QUOTED", key))
            if base != "star":
                notes.append(({"error": "PARAM_STAR_ERROR", "nocharset": "PARAM_STAR_NOCHARSET", "charset": "PARAM_STAR_CHARSET"}[base], key))
                continue
        values[key] = text
        several.setdefault(key, []).append(text)
    return values, several, sorted(notes)


def check_params(ctx, field, text, ps, nostar, got, linter, pre=""):
    values, several, notes = expected(ps, nostar)
    seen = sorted((type(n).__name__, n.vars["param"]) for n in linter.notes if type(n).__name__ in PARAM_NOTES)
    for name, _ in notes:
        ctx.seen("param_note", name)
    shown = sorted((n.vars["param_val"], n.vars["param_val_unquoted"]) for n in linter.notes if type(n).__name__ == "PARAM_SINGLE_QUOTED")
    singles = sorted((p[3], p[3][1:-1]) for p in ps if p[2] == "single")
    ctx.expect(shown == singles, f"{pre}single-quoted", lambda: f"{field}: {text!r:.300} is said to have {shown} in single quotes, but has {singles}")
    ctx.count("parameters", len(ps))
    ctx.count("extended", sum(1 for p in ps if p[2] == "star"))
    ctx.expect(seen == notes, f"{pre}param-notes", lambda: f"{field}: {text!r:.300} has parameter notes {seen}, not {notes}")
    ctx.expect(
        sorted(got) == sorted(values) and all(got[k] in several[k] for k in values), f"{pre}params", lambda: f"{field}: {text!r:.300} has parameters {got!r:.300}, not {values!r:.300}"
    )


def judge_q(ctx, field, text, q, got, linter):
    ctx.count("q_good" if q[1] else "q_bad")
    ctx.seen("q", q[0])
    bad = "BAD_Q_VALUE" in drive.names(linter)
    ctx.expect(bad == (not q[1]), f"q:{field}", lambda: f"{field}: {text!r:.200} has notes {drive.names(linter)}")
    want = float(q[0]) if q[1] else None
    ctx.expect(got == want, f"qvalue:{field}", lambda: f"{field}: {text!r:.200} has q {got!r}, not {want!r}")


def check(ctx, case):
    field, text = case["field"], case["text"]
    ctx.seen("field", field)
    ctx.distinct_case([field, text])
    ctx.sample([field, text])
    kind = MEDIA[field][0] if field in MEDIA else "resp" if field == "Content-Disposition" or field in OTHER else "req"
    linter = drive.request([[field, text]]) if kind == "req" else drive.response([[field, text]])
    value = drive.parsed(linter, field.lower())
    names = drive.names(linter)
    if case["what"] == "media":
        check_media(ctx, case, field, text, linter, value, names)
    elif case["what"] == "other":
        ctx.expect(len(value) == 1, f"members:{field}", lambda: f"{field}: {text!r:.300} was read as {value!r:.300}")
        check_params(ctx, field, text, case["params"], OTHER[field][0], value[0][1], linter, f"{field}:")
    elif case["what"] == "disposition":
        check_disposition(ctx, case, text, linter, value, names)
    else:
        one = value[0] if len(value) == 1 else None
        if field == "Accept-Language":
            ctx.expect(one is not None and one.language == case["type"].lower(), "language", lambda: f"{field}: {text!r} was read as {value!r}")
            judge_q(ctx, field, text, case["q"], one and one.q, linter)
        else:
            ctx.expect(one == (case["type"].lower(), {"q": case["q"][0]}), f"coding:{field}", lambda: f"{field}: {text!r} was read as {value!r}")


def check_media(ctx, case, field, text, linter, value, names):
    _, wildcards, nostar, note = MEDIA[field]
    mt = case["type"].lower()
    if field != "Content-Type":
        ctx.expect(len(value) == 1, f"members:{field}", lambda: f"{field}: {text!r:.300} was read as {value!r:.300}")
        value = value[0]
    got_type, got_params = (value.media_type, value.parameters) if field == "Accept" else value
    ctx.expect(got_type == mt, f"type:{field}", lambda: f"{field}: {text!r:.300} was read as {value!r:.300}")
    check_params(ctx, field, text, [p for p in case["params"] if not (field == "Accept" and p[0] in ("q", "Q"))], nostar, got_params, linter)
    if field == "Accept":
        if case["q"]:
            judge_q(ctx, field, text, case["q"], value.q, linter)
        else:
            ctx.expect(value.q is None and "BAD_Q_VALUE" not in names, "no-q", lambda: f"{text!r:.300} has no q, but {value!r:.200}")
    # the type itself
    parts = mt.split("/")
    shaped = len(parts) == 2 and all(parts)
    stars = [p == "*" for p in parts]
    if shaped and any(stars):
        ctx.count("wildcards")
        shaped = wildcards and stars != [True, False]
    if not shaped:
        ctx.count("not_type")
    if note:
        ctx.expect((note in names) == (not shaped), f"shape:{field}", lambda: f"{field}: {text!r:.300} has notes {names}")
    if shaped:
        tokens = [p for p in parts if p != "*"]
        bad = any(p[0] not in REG_FIRST or any(c not in REG for c in p) for p in tokens)
        long = any(len(p) > 127 for p in tokens)
        ctx.count("bad_name", bad)
        ctx.count("long_name", long)
        ctx.expect(("MEDIA_TYPE_BAD_NAME" in names) == bad, f"bad-name:{field}", lambda: f"{field}: {text!r:.300} has notes {names}")
        ctx.expect(("MEDIA_TYPE_LONG_NAME" in names) == long, f"long-name:{field}", lambda: f"{field}: {text!r:.300} has notes {names}")


def check_disposition(ctx, case, text, linter, value, names):
    ctx.count("disposition")
    ctx.expect(value[0] == case["type"].lower(), "disposition", lambda: f"{text!r:.300} was read as {value!r:.300}")
    check_params(ctx, "Content-Disposition", text, case["params"], [], value[1], linter)
    want = set()
    keys = [p[0].lower() for p in case["params"]]
    if case["type"].lower() not in ("inline", "attachment"):
        want.add("DISPOSITION_UNKNOWN")
    if case["type"].lower() == "attachment" and "filename" not in keys:
        want.add("DISPOSITION_OMITS_FILENAME")
    skip = set()
    names_of = {k: [p[3] for p in case["params"] if p[0].lower() == k and (not k.endswith("*") or p[2].split("-")[0] == "star")] for k in ("filename", "filename*")}
    percent = ["%" in t for t in names_of["filename"]]
    path = [[any(c in t for c in "/\\") for t in names_of[k]] for k in names_of]
    if len(set(percent)) > 1:
        skip.add("DISPOSITION_FILENAME_PERCENT")
    elif any(percent):
        want.add("DISPOSITION_FILENAME_PERCENT")
    if any(len(set(p)) > 1 for p in path):
        skip.add("DISPOSITION_FILENAME_PATH_CHAR")
    elif any(any(p) for p in path):
        ctx.count("path_char")
        want.add("DISPOSITION_FILENAME_PATH_CHAR")
    got = {n for n in names if n.startswith("DISPOSITION_")}
    ctx.expect(got - skip == want - skip, "disposition-notes", lambda: f"Content-Disposition: {text!r:.300} has {sorted(got)}, not {sorted(want)}")
