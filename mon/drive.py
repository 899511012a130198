"""
Drive the real linter with a JSON-able case and record what it shows.

case = {"req": MSG or None, "resp": MSG or None}
MSG for requests:  {"m","u","v","h":[[n,v]...],"body":[chunk...],"tr":[[n,v]...],
                    "complete":bool,"t":float|None,"nc":bool}
MSG for responses: {"s","p","v", ... as above, "head":bool}
All strings are latin-1 images of bytes.
"""

from httplint.message import HttpRequestLinter, HttpResponseLinter
from httplint.note import Note, categories, levels


def b(text):
    return text.encode("latin-1")


def s(data):
    return data.decode("latin-1")


def fields(pairs):
    return [(b(n), b(v)) for n, v in pairs]


def feed(linter, msg):
    "Run the header/content/finish lifecycle."
    linter.process_headers(fields(msg.get("h", ())))
    for chunk in msg.get("body", ()):
        linter.feed_content(b(chunk))
    trailers = msg.get("tr")
    linter.finish_content(msg.get("complete", True), fields(trailers) if trailers else None)


def make_request(msg):
    linter = HttpRequestLinter(start_time=msg.get("t"), no_content=msg.get("nc", False))
    linter.process_request_topline(
        b(msg.get("m", "GET")), b(msg.get("u", "http://www.example.com/")), b(msg.get("v", "1.1"))
    )
    return linter


def make_response(msg, request=None):
    linter = HttpResponseLinter(start_time=msg.get("t"), no_content=msg.get("nc", False))
    if request is not None:
        linter.request = request
        request.response = linter
    if msg.get("head"):
        linter.is_head_response = True
    if msg.get("base"):
        linter.base_uri = msg["base"]
    linter.process_response_topline(
        b(msg.get("v", "1.1")), b(msg.get("s", "200")), b(msg.get("p", "OK"))
    )
    return linter


def run(case):
    "-> (request linter or None, response linter or None), both complete."
    req = resp = None
    if case.get("req") is not None:
        req = make_request(case["req"])
        feed(req, case["req"])
    if case.get("resp") is not None:
        resp = make_response(case["resp"], req)
        feed(resp, case["resp"])
    return req, resp


def linters(case):
    return [linter for linter in run(case) if linter is not None]


def response(headers=(), **kw):
    "Shorthand: run one response, return the linter."
    return run({"resp": dict(kw, h=[list(p) for p in headers])})[1]


def request(headers=(), **kw):
    return run({"req": dict(kw, h=[list(p) for p in headers])})[0]


def norm(val):
    "Normalise a note variable or parsed value to something comparable and JSON-able."
    if isinstance(val, Note):
        return ("note", note_tuple(val))
    if isinstance(val, (categories, levels)):
        return val.name
    if isinstance(val, bool) or val is None or isinstance(val, (int, float)):
        return val
    if isinstance(val, str):
        return str(val)
    if isinstance(val, (bytes, bytearray)):
        return bytes(val).decode("latin-1")
    if isinstance(val, dict):
        return ["dict"] + sorted(([norm(k), norm(v)] for k, v in val.items()), key=repr)
    if isinstance(val, tuple) and hasattr(val, "_fields"):
        return [type(val).__name__] + [norm(v) for v in val]
    if isinstance(val, (list, tuple)):
        return [norm(v) for v in val]
    if isinstance(val, (set, frozenset)):
        return ["set"] + sorted((norm(v) for v in val), key=repr)
    if hasattr(val, "__dataclass_fields__"):
        return [type(val).__name__] + [norm(getattr(val, f)) for f in val.__dataclass_fields__]
    try:
        return str(val)
    except Exception as exc:  # pylint: disable=broad-except
        return f"<{type(val).__name__} {type(exc).__name__}>"


def note_tuple(note):
    return (
        note.subject,
        type(note).__name__,
        note.level.name,
        note.category.name,
        tuple(sorted((k, repr(norm(v))) for k, v in note.vars.items())),
        tuple(note_tuple(n) for n in note.subnotes),
    )


def notes_of(linter):
    return [note_tuple(n) for n in linter.notes]


def names(linter, subject=None):
    "Note class names, in order; optionally only those for a subject."
    return [
        type(n).__name__
        for n in linter.notes
        if subject is None or subject in n.subject.split(" ")
    ]


def all_notes(linter):
    "Every note and subnote."
    stack = list(linter.notes)
    while stack:
        note = stack.pop()
        yield note
        stack.extend(note.subnotes)


def parsed(linter, name):
    return linter.headers.parsed.get(name)
