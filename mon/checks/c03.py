"""C03: a note's detail is safe HTML whatever the message contains, and shows values as text."""

import html
from html.parser import HTMLParser

from httplint.i18n import set_locale, translate
from httplint.note import MarkdownSafe

from mon import borrow, abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C03"
RULE = (
    "messages with markup (HTML, Markdown, attribute break-outs, entities, the renderer's own control characters) "
    "put into each part: names, values, parameters, cookies, methods, URIs, phrases, bodies; each note's detail is "
    "parsed as HTML, and looked through for the values; non-trivial: at least one detail shows the planted marker; distinct by note classes and payload"
)
SIZES = {"quick": 600, "thorough": 12000}
REQUIRE = {"details": 20000, "marker_shown": 1500, "kind:shown_by": 45, "values_shown": 15000, "long_values": 45}

# what the library's own text uses
ALLOWED = {
    "p": set(), "code": set(), "pre": set(), "a": {"href"}, "ul": set(), "ol": set(), "li": set(), "strong": set(),
    "em": set(), "br": set(), "blockquote": set(),
}
VOID = {"br"}
MARK = "zqx"  # never in the library's text
PAYLOADS = [
    "<zqx>", "<script>zqx</script>", "<img src=zqx onerror=alert(1)>", "`<b>zqx</b>`", "zqx`<i>zqx", "](javascript:zqx)",
    "[zqx](javascript:alert(1))", "![zqx](http://zqx.example/x.png)", "[zqx](http://zqx.example/)", "**zqx**", "__zqx__", "*zqx*",
    "_zqx_", "<http://zqx.example/>", "<zqx@zqx.example>", "&lt;zqx&gt;", "&#60;zqx&#62;", "&zqx;", "\"><svg onload=zqx>",
    "' onmouseover='zqx", "\x02zqx\x03", "\x02wzxhzdk:0\x03<zqx>", "\x02klzzwxh:0001\x03zqx", "\\`<u>zqx\\`", "<!-- zqx -->",
    "<![CDATA[zqx]]>", "<?zqx?>", "zqx\n\n<h1>zqx</h1>\n\n", "zqx\n=====\n", "\n# zqx\n", "\n\n    zqx\n", "\n> zqx\n", "\n- zqx\n",
    "\n1. zqx\n", "zqx\n\n---\n\n", "[zqx]: http://zqx.example/ \"zqx\"", "\n\n[zqx]: http://zqx.example/\n\n[zqx]", "```zqx```", "``zqx``",
    "``` <b>zqx</b>", "%(zqx)s", "%szqx", "zqx%", "zqx  \nzqx", "<a href=\"javascript:zqx\">zqx</a>", "zqx\r\n\r\n<b>zqx</b>", "\\*zqx\\*",
    "zqx\\", "\\", "`zqx", "zqx`", "``", "</code></p><zqx>", "<code>zqx</code>", "\xa0<zqx>\xad", "zqx\x85<b>zqx", "\ue000".encode().decode("latin-1") + "0zqx",
]


class Watch(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack = []
        self.problems = []
        self.text = []
        self.values = []
        self.marked = False

    def handle_starttag(self, tag, attrs):
        if tag not in ALLOWED:
            self.problems.append(("tag", f"<{tag}>"))
        for name, value in attrs:
            self.values.append(value or "")
            if name not in ALLOWED.get(tag, ()):
                self.problems.append(("attribute", f"<{tag} {name}>"))
            if name == "href":
                low = (value or "").strip().lower()
                if not (low.startswith(("http://", "https://", "#", "/"))):
                    self.problems.append(("href", f"{value!r}"))
                if MARK in low:
                    self.problems.append(("href", f"a link made from the message: {value!r}"))
        if tag not in VOID:
            self.stack.append(tag)

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1] != tag:
            self.problems.append(("nesting", f"</{tag}> inside {self.stack}"))
        else:
            self.stack.pop()

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)
        if tag not in VOID:
            self.handle_endtag(tag)

    def handle_data(self, data):
        self.text.append(data)
        if MARK in data:
            self.marked = True
            if self.stack and self.stack[-1] in ("strong", "em"):
                self.problems.append(("emphasis", f"the message's text is in <{self.stack[-1]}>: {data[:80]!r}"))

    def handle_comment(self, data):
        self.problems.append(("comment", data[:80]))

    def handle_decl(self, decl):
        self.problems.append(("declaration", decl[:80]))

    def unknown_decl(self, data):
        self.problems.append(("declaration", data[:80]))

    def handle_pi(self, data):
        self.problems.append(("processing instruction", data[:80]))


def check_note(ctx, note, locale):
    cls = type(note).__name__
    with set_locale(locale):
        detail = str(note.detail)
        summary = note.summary
        template = translate(note._text)  # pylint: disable=protected-access
        values = {n: str(v) for n, v in note.vars.items() if f"%({n})s" in template and not isinstance(v, MarkdownSafe)}
    ctx.count("details")
    watch = Watch()
    watch.feed(detail)
    watch.close()
    if watch.stack:
        watch.problems.append(("unclosed", str(watch.stack)))
    for kind, what in watch.problems:
        ctx.violation(f"{kind}:{cls}", f"{cls} detail has {kind} {what}: {detail[:600]!r} vars={note.vars!r}"[:1500])
    ctx.count("assertions")
    text = "".join(watch.text)
    # values are there, in full and as they were sent
    for name, value in values.items():
        ctx.count("values_shown")
        ctx.count("long_values", len(value) > 900)
        ctx.expect(value in text or any(value in v for v in watch.values), f"value:{cls}", lambda: f"{cls} detail doesn't show {name} {value!r:.300}: {text!r:.600}")
    # no double escaping: what the reader sees is what was sent
    ctx.expect(
        "&lt;zqx" not in text or "&lt;zqx" in " ".join(map(str, note.vars.values())),
        f"double-escaped:{cls}",
        lambda: f"{cls} detail shows escaped text: {text[:300]!r}",
    )
    ctx.expect(
        "%(" not in summary or "%(" in " ".join(map(str, note.vars.values())),
        f"summary-placeholder:{cls}",
        lambda: f"{cls} summary {summary!r}",
    )
    if watch.marked:
        ctx.count("marker_shown")
        ctx.seen("shown_by", cls)
    return watch.marked


def check(ctx, case):
    shown = []
    locale = case.get("locale")
    for linter in drive.linters(case):
        for note in drive.all_notes(linter):
            if check_note(ctx, note, locale):
                shown.append(type(note).__name__)
    if shown:
        ctx.distinct_case([sorted(shown), case.get("payload")])
        ctx.sample({"case": case, "shown": sorted(set(shown))})


def quoted(r, payload):
    return '"' + payload.replace("\\", "\\\\").replace('"', '\\"') + '"'


def plant(r, value, payload):
    "Put the payload somewhere in a value."
    pick = r.random()
    if pick < 0.2:
        return payload
    if pick < 0.45:
        pos = r.randint(0, len(value))
        return value[:pos] + payload + value[pos:]
    if pick < 0.6:
        return value + "; " + r.choice(["zqx", "a", "q"]) + "=" + (quoted(r, payload) if r.random() < 0.5 else payload)
    if pick < 0.7:
        return value + ", " + payload
    # replace a token-ish part
    words = [i for i, c in enumerate(value) if c.isalnum()]
    if not words:
        return payload
    i = r.choice(words)
    j = i
    while j < len(value) and value[j].isalnum():
        j += 1
    return value[:i] + (quoted(r, payload) if r.random() < 0.3 else payload) + value[j:]


def one(r, kind, name, payload):
    msg = {"h": [], "t": r.choice([None, 1700000000.0])}
    value = g.FIELDS[name][1](r) if name in g.FIELDS else "x"
    msg["h"].append([name, g.to_latin1(plant(r, value, payload))])
    if r.random() < 0.3:
        msg["h"].append(["Content-Type", "text/" + r.choice(["html", "plain; charset=" + payload, payload])])
        msg["body"] = ["\xe9<html>" + payload]
    if kind == g.REQ:
        msg["m"] = r.choice(["GET", "POST", payload])
        msg["u"] = r.choice(["http://example.com/", "http://example.com/" + payload])
    else:
        msg["s"] = r.choice(["200", "200", "404", "304", "405", "301", payload])
        msg["p"] = r.choice(["OK", payload])
        msg["base"] = r.choice(["", "http://example.com/a", "http://example.com/" + payload])
    return msg


STRUCTURED = [
    # fields whose values are composed into lists or nested notes
    (g.RES, "Cache-Status", lambda r, p: f'"{p.replace(chr(92), "").replace(chr(34), "")}"; hit; zqx={quoted(r, p)}; detail={quoted(r, p)}'),
    (g.RES, "Proxy-Status", lambda r, p: f'{quoted(r, p)}; error=zqx; details={quoted(r, p)}; next-hop={quoted(r, p)}'),
    (g.RES, "Link", lambda r, p: f"<{p}>; rel=preload, <http://zqx.example/{p}>; rel=preconnect; title={quoted(r, p)}"),
    (g.RES, "Link", lambda r, p: f"</zqx{p}>; rel=\"preload dns-prefetch {p}\""),
    (g.RES, "Set-Cookie", lambda r, p: f"{p}=1; Secure; HttpOnly; SameSite=Lax"),
    (g.RES, "Set-Cookie", lambda r, p: f"a={p}; Path={p}; Domain={p}; Max-Age={p}; Expires={p}; SameSite={p}; {p}"),
    (g.RES, "Content-Security-Policy", lambda r, p: f"script-src 'unsafe-inline' {p}; {p} *; {p} *; img-src http://{p}; report-to {p}; report-uri {p}"),
    (g.RES, "Content-Security-Policy-Report-Only", lambda r, p: f"{p} *; script-src 'unsafe-eval'; {p} 'none'"),
    (g.BOTH, "Via", lambda r, p: f"1.1 {p}, 1.0 zqx ({p})"),
    (g.RES, "NEL", lambda r, p: '{"report_to": ' + quoted(r, p.replace("\n", "").replace("\r", "")) + ', "max_age": 1}'),
    (g.RES, "Report-To", lambda r, p: '{"group": ' + quoted(r, p.replace("\n", "")) + ', "max_age": "' + MARK + '", "endpoints": [{"url": "http://zqx/"}]}'),
    (g.RES, "Reporting-Endpoints", lambda r, p: f'zqx="http://{p}", b={quoted(r, p)}'),
    (g.RES, "Clear-Site-Data", lambda r, p: f'"cache", {quoted(r, p)}, {p}'),
    (g.RES, "Permissions-Policy", lambda r, p: f'zqx=({quoted(r, p)}), geolocation=*;{p}, camera=zqx'),
    (g.RES, "Accept-CH", lambda r, p: f"zqx, {quoted(r, p)}"),
    (g.BOTH, "Cache-Control", lambda r, p: f"max-age={p}, {p}, zqx={quoted(r, p)}, no-cache={quoted(r, p)}"),
    (g.BOTH, "Content-Type", lambda r, p: f"text/zqx; charset={quoted(r, p)}; {p}={p}"),
    (g.RES, "Content-Disposition", lambda r, p: f"{p}; filename={quoted(r, p)}; filename*=zqx''{p}"),
    (g.BOTH, "Content-Language", lambda r, p: p),
    (g.REQ, "Expect", lambda r, p: f"{p}, zqx={p}"),
    (g.REQ, "Range", lambda r, p: f"{p}=0-{p}"),
    (g.RES, "Content-Range", lambda r, p: f"{p} 0-{p}/{p}"),
    (g.RES, "Strict-Transport-Security", lambda r, p: f"max-age={p}; {p}; {p}"),
    (g.RES, "Access-Control-Allow-Origin", lambda r, p: f"{p}, {p}"),
    (g.RES, "Use-As-Dictionary", lambda r, p: f"match={quoted(r, p)}, type=zqx, id={quoted(r, p)}, {p}"),
    (g.RES, "Speculation-Rules", lambda r, p: f'{quoted(r, p)}, "http://{p}"'),
    (g.RES, "Server-Timing", lambda r, p: f'zqx;dur={p};desc={quoted(r, p)};{p}'),
    (g.RES, "X-Frame-Options", lambda r, p: f"{p}"),
    (g.RES, "Alt-Svc", lambda r, p: f'{p}="{p}"; ma={p}'),
    (g.RES, "Location", lambda r, p: f"{p}"),
    (g.RES, "Referrer-Policy", lambda r, p: f"{p}, zqx"),
    (g.RES, "ETag", lambda r, p: f"{p}"),
    (g.RES, "Cross-Origin-Opener-Policy", lambda r, p: f'zqx; report-to={quoted(r, p)}; {p}'),
    (g.RES, "WWW-Authenticate", lambda r, p: f"{p} realm={quoted(r, p)}, {p}={p}"),
]


def gen(rng, ctx):
    k = 0
    for payload in PAYLOADS:
        for kind, name, make in STRUCTURED:
            k += 1
            if k % ctx.workers != ctx.worker:
                continue
            kind = rng.choice([g.REQ, g.RES]) if kind == g.BOTH else kind
            msg = {"h": [[name, g.to_latin1(make(rng, payload))]]}
            if rng.random() < 0.3:
                msg["h"].append([name, g.to_latin1(make(rng, rng.choice(PAYLOADS)))])
            case = {kind: msg, "payload": payload}
            if rng.random() < 0.3:
                case["locale"] = rng.choice(["es", "fr", "ja", "zh"])
            yield case
    # among what other checks send
    for _ in range(ctx.size * 2):
        case = borrow.some(rng, ctx, 120 if ctx.thorough else 40)
        payload = rng.choice(PAYLOADS)
        for msg in case.values():
            for line in msg["h"]:
                if rng.random() < 0.6:
                    line[1] = g.to_latin1(plant(rng, line[1], payload))
            if rng.random() < 0.1:
                msg["u" if "m" in msg else "base"] = "http://example.com/" + payload
        case["payload"] = payload
        if rng.random() < 0.3:
            case["locale"] = rng.choice(["es", "fr", "ja", "zh"])
        yield case
    names = g.NAMES + g.EXTRA_NAMES
    for i in range(ctx.size * 2):
        name = rng.choice(names)
        kind = rng.choice([g.REQ, g.RES])
        if name in g.FIELDS and g.FIELDS[name][0] != g.BOTH and rng.random() < 0.9:
            kind = g.FIELDS[name][0]
        payload = rng.choice(PAYLOADS)
        if rng.random() < 0.2:
            payload = payload + rng.choice(PAYLOADS)
        if rng.random() < 0.12:
            payload = payload + "a" * rng.choice([500, 1000, 4000, 7000]) + payload
        case = {kind: one(rng, kind, name, payload), "payload": payload}
        if rng.random() < 0.05:
            case[kind]["h"].append([g.to_latin1(payload), "x"])
        if rng.random() < 0.3:
            case["locale"] = rng.choice(["es", "fr", "ja", "zh"])
        yield case
