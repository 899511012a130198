"""
Drive exchanges one operation at a time, so that several can be interleaved.

As a program: reads a JSON list of cases, and writes the list of what each shows.
"""

import json
import sys

from mon import drive


def shows(linter):
    "Everything that a linter shows about its message, in the order that it shows it."
    if linter is None:
        return None
    out = {
        "notes": [[list(drive.note_tuple(n)), n.show_summary() if hasattr(n, "show_summary") else str(n.summary), str(n.detail)] for n in linter.notes],
        "headers": [[k, drive.norm(v)] for k, v in linter.headers.parsed.items()],
        "trailers": [[k, drive.norm(v)] for k, v in linter.trailers.parsed.items()],
        "text": [list(p) for p in linter.headers.text],
        "content": [linter.content_length, linter.content_hash and drive.s(linter.content_hash), drive.s(linter.content_sample) if isinstance(linter.content_sample, bytes) else drive.norm(linter.content_sample)],
        "decoded": [linter.decoded.length, linter.decoded.hash and drive.s(linter.decoded.hash), linter.decoded.decode_ok],
        "complete": linter.complete,
        "topline": [drive.norm(getattr(linter, name, None)) for name in ("method", "iri", "uri", "status_code", "status_code_str", "status_phrase", "version", "base_uri", "character_encoding", "transfer_length", "start_time", "is_head_response", "no_content")],
    }
    caching = getattr(linter, "caching", None)
    if caching is not None:
        out["caching"] = [[k, drive.norm(v)] for k, v in sorted(vars(caching).items()) if not k.startswith("_") and isinstance(v, (bool, int, float, str, type(None)))]
    return json.loads(json.dumps(out, default=repr))


class Exchange:
    "A case, and the linters it has got to."

    def __init__(self, case):
        self.case = case
        self.req = self.resp = None
        self.raw = []
        self.intact = True

    def feed(self, linter, msg):
        raw = drive.fields(msg.get("h", ()))
        kept = list(raw)
        linter.process_headers(raw)
        self.intact &= raw == kept
        yield
        for chunk in msg.get("body", ()):
            linter.feed_content(drive.b(chunk))
            yield
        trailers = msg.get("tr")
        raw = drive.fields(trailers) if trailers else None
        kept = list(raw) if raw else None
        linter.finish_content(msg.get("complete", True), raw)
        self.intact &= raw == kept

    def steps(self):
        "Perform one operation between each yield."
        case = self.case
        if case.get("req") is not None:
            self.req = drive.make_request(case["req"])
            yield
            yield from self.feed(self.req, case["req"])
            yield
        if case.get("resp") is not None:
            self.resp = drive.make_response(case["resp"], self.req)
            yield
            yield from self.feed(self.resp, case["resp"])

    def run(self):
        for _ in self.steps():
            pass
        return self

    def shows(self):
        return [shows(self.req), shows(self.resp)]


if __name__ == "__main__":
    json.dump([Exchange(case).run().shows() for case in json.load(sys.stdin)], sys.stdout)
