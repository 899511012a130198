"""C28: the command line reports what the library finds."""

import contextlib
import gzip
import io
import json
import os
import subprocess
import sys
import time

from httplint.cli import main
from httplint.i18n import set_locale, translate

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C28"
RULE = (
    "requests and responses written as bytes with each framing (length, chunked with extensions and trailers, close, none), whole or cut short, after informational responses, with each option, and input that isn't HTTP; "
    "most given to main() and some to a new process; distinct by the bytes and the options"
)
SIZES = {"quick": 450, "thorough": 4000}
REQUIRE = {
    "whole": 800, "cut": 150, "trailers": 60, "chunked": 250, "closed": 150, "counted": 250, "interim": 80, "now": 150, "requests": 250, "not_http": 200, "processes": 40, "notes": 5000, "subnotes": 10,
    "kind:locale": 6, "kind:version": 4, "kind:bad": 16, "distinct": 1200,
}
FRAMING = {"content-length", "transfer-encoding", "connection", "upgrade"}
TOKEN = set(a.TCHAR)


class Input:
    def __init__(self, data):
        self.buffer = io.BytesIO(data)


def run_main(args, data):
    "-> exit status, standard output, standard error"
    out, err = io.StringIO(), io.StringIO()
    kept = sys.argv, sys.stdin
    sys.argv, sys.stdin = ["httplint"] + args, Input(data)
    status = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main()
            except SystemExit as exc:
                status = exc.code or 0
    finally:
        sys.argv, sys.stdin = kept
    return status, out.getvalue(), err.getvalue()


def run_process(args, data):
    done = subprocess.run([sys.executable, "-c", "from httplint.cli import main; main()"] + args, input=data, capture_output=True, timeout=120, check=False)
    return done.returncode, done.stdout.decode("utf-8", "replace"), done.stderr.decode("utf-8", "replace")


def lines_of(r, kind, hi=6):
    out = []
    for _ in range(g.many(r, r.randint(0, hi))):
        name, value = g.field(r, kind, 0.1)[:2]
        if not name or set(name) - TOKEN or name.lower() in FRAMING or set(value) & set("\r\n\0"):
            continue
        out.append([name, r.choice(["", " ", " ", " ", "\t"]) + value + r.choice(["", "", "", " "])])
    return out


def wire(lines):
    return "".join(f"{n}:{v}\r\n" for n, v in lines)


def gen_bad(r):
    "Input that isn't an HTTP message."
    start, n = "HTTP/1.1 200 OK\r\n", r.randint(0, 99)
    ok = wire(lines_of(r, g.RES, 3))
    end = "\r\n"
    return r.choice([
        ("empty", ""), ("blank", "\r\n\r\n"), ("no-end", start + ok), ("no-end-2", start + ok + f"Foo: {n}"), ("no-start", f"Foo: {n}\r\n\r\n"), ("junk", f"junk{n}\r\n\r\n"), ("version", f"HTTP/4.{n} 200 OK\r\n" + ok + end),
        ("protocol", "ICY/1.1 200 OK\r\n" + ok + end), ("no-status", "HTTP/1.1\r\n" + ok + end), ("no-colon", start + ok + f"Foo{n}\r\n" + end), ("name-space", start + ok + f"Foo : {n}\r\n" + end),
        ("no-name", start + ok + f": {n}\r\n" + end), ("name", start + ok + f"F(o: {n}\r\n" + end), ("nul", start + ok + "Foo: \0\r\n" + end), ("bare-cr", start + ok + "Foo: a\rb\r\n" + end), ("top-space", start + f" Foo: {n}\r\n" + end),
        ("length", start + ok + r.choice(["Content-Length: x\r\n", "Content-Length: -1\r\n", "Content-Length: 1_0\r\n", "Content-Length: \r\n"]) + end + "abc"),
        ("lengths", start + ok + f"Content-Length: {n}\r\nContent-Length: {n + 1}\r\n" + end + "x" * n), ("length-and-coding", start + ok + f"Content-Length: {n}\r\nTransfer-Encoding: chunked\r\n" + end + "0\r\n\r\n"),
        ("chunk-size", start + ok + "Transfer-Encoding: chunked\r\n" + end + r.choice(["zz", "-1", "0x1", "1_0", ""]) + "\r\nabc\r\n0\r\n\r\n"), ("chunk-end", start + ok + "Transfer-Encoding: chunked\r\n" + end + "3\r\nabcd\r\n0\r\n\r\n"),
        ("interim-only-part", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 O"),
    ])


def gen(r, ctx):
    for i in range(ctx.size):
        args = []
        if r.random() < 0.5:
            args += [r.choice(["-l", "--locale"]), r.choice(["en", "fr", "es", "ja", "zh", "xx"])]
        if r.random() < 0.15:
            what, data = gen_bad(r)
            yield {"bad": what, "data": data, "args": args, "process": i % 40 == 0}
            continue
        now = r.random() < 0.15
        if now:
            args.append(r.choice(["-n", "--now"]))
        kind = g.REQ if r.random() < 0.3 else g.RES
        if kind == g.REQ:
            args += [r.choice(["-i", "--input"]), "request"]
        elif r.random() < 0.3:
            args += ["-i", "response"]
        msg = {"h": lines_of(r, kind)}
        version = r.choice(["1.1", "1.1", "1.0", "2", "3"]) if kind == g.RES else "1.1"
        msg["v"] = version
        body = g.body(r)
        if r.random() < 0.3:
            body = gzip.compress(body.encode("latin-1")).decode("latin-1")
            msg["h"].append(["Content-Encoding", " gzip"])
        elif kind == g.RES and r.random() < 0.15:  # text that's cut in the middle of a character is fine only if it's incomplete
            body = r.choice(["caf\xc3\xa9 ", "\xe4\xb8\xad\xe6\x96\x87"]) * r.randint(1, 9) + r.choice(["\xc3", "\xe4\xb8", ""])
            msg["h"].append(["Content-Type", r.choice([" text/plain; charset=utf-8", " application/json"])])
        pre = ""
        if kind == g.REQ:
            msg["m"] = r.choice(["GET", "POST", "PUT", "OPTIONS", "FOO"])
            msg["u"] = r.choice(["http://www.example.com/", "/", "*", a.http_uri(r), "/" + "a" * r.randint(1, 50), "/a%20b?c=d", "http://www.example.com/a b", "http://www.example.com/a  b/c HTTP/1.1", "http://www.example.com/a %zz", "http://www.example.com/a " + "b" * r.randint(7960, 8060)])
            start = f"{msg['m']} {msg['u']} HTTP/{version}\r\n"
            framing = r.choice(["none", "counted", "chunked"])
        else:
            msg["s"] = r.choice(["200", "200", "200", "404", "301", "304", "204", "206", "500", "999", "100", "101", "103", "150", str(r.randint(200, 599))])
            msg["p"] = r.choice(["OK", "Not Found", "", "\xe9", "Not Fo\xe9nd", "I'm a teapot \xff"])
            start = f"HTTP/{version} {msg['s']} {msg['p']}\r\n"
            framing = "none" if msg["s"][0] == "1" or msg["s"] in ("204", "304") else r.choice(["closed", "counted", "chunked"])
            if r.random() < 0.15:
                pre = f"HTTP/1.1 {r.choice(['100', '103', '102'])} Foo\r\n" + wire(lines_of(r, g.RES, 2)) + "\r\n"
                if r.random() < 0.2:
                    pre += pre
        if framing == "none":
            body = ""
        if version in ("2", "3", "1.0") and framing == "chunked":
            framing = "counted" if kind == g.REQ else "closed"
        trailers, complete = [], True
        if framing == "counted":
            if kind == g.REQ and not body:
                body = "x"
            msg["h"].insert(r.randint(0, len(msg["h"])), ["Content-Length", f" {len(body)}"])
            sent = body
            if body and r.random() < 0.25:
                sent = body[: r.randrange(len(body))]
                complete = False
            msg["body"] = [sent] if sent else []
            data = sent
            if complete and r.random() < 0.1:
                data += "extra"
        elif framing == "chunked":
            msg["h"].insert(r.randint(0, len(msg["h"])), ["Transfer-Encoding", r.choice([" chunked", " gzip, chunked", " Chunked"])])
            chunks = [c for c in g.chunk(r, body) if c]
            trailers = lines_of(r, kind, 3) if r.random() < 0.4 else []
            if r.random() < 0.25:
                complete, trailers = False, []
                if chunks:
                    chunks = chunks[: r.randint(0, len(chunks))]
            data = "".join(f"{len(c):{r.choice('xX')}}{r.choice(['', '', ';a=b', ' ;a'])}\r\n{c}\r\n" for c in chunks)
            if complete:
                data += "0\r\n" + wire(trailers) + "\r\n"
            elif r.random() < 0.4:
                data += r.choice(["3\r\nab", "5", "0\r\n"]) if r.random() < 0.5 else "4\r\nabcd"
                if data.endswith("3\r\nab"):
                    chunks.append("ab")
                elif data.endswith("4\r\nabcd"):
                    chunks.append("abcd")
            msg["body"] = chunks
        else:
            msg["body"] = [body] if body else []
            data = body
        msg["tr"] = trailers
        msg["complete"] = complete
        yield {"kind": kind, "msg": msg, "framing": framing, "data": pre + start + wire(msg["h"]) + "\r\n" + data, "args": args, "now": now, "interim": bool(pre), "process": i % 40 == 0}


def expected(case, now):
    "What the library finds: {category: [[level, summary, subnotes]]}"
    args = case["args"]
    locale = next((args[i + 1] for i, arg in enumerate(args) if arg in ("-l", "--locale")), None)
    msg = dict(case["msg"], t=now)
    if "s" in msg and not msg["p"]:
        msg["p"] = ""
    with set_locale(locale):
        req, resp = drive.run({case["kind"]: msg})
        out = {}
        for note in (req or resp).notes:
            out.setdefault(translate(note.category.value), []).append([note.level.name, str(note.summary), [[n.level.name, str(n.summary)] for n in note.subnotes]])
    return out


def read(text):
    "What the command line printed, as expected() has it; None if it isn't that"
    out, current = {}, None
    for line in text.split("\n"):
        if line.startswith("### "):
            if line[4:] in out:
                return None
            current = out.setdefault(line[4:], [])
        elif line.startswith("* [") and current is not None:
            level, _, summary = line[3:].partition("] ")
            current.append([level, summary, []])
        elif line.startswith("  * [") and current:
            level, _, summary = line[5:].partition("] ")
            current[-1][2].append([level, summary])
        elif line.strip():
            return None
    return out


def check(ctx, case):
    data, args = case["data"].encode("latin-1"), case["args"]
    call = run_process if case["process"] else run_main
    about = f"arguments {args}, input {case['data']!r:.600}"
    ctx.count("processes", case["process"])
    ctx.distinct_case([case["data"], args])
    if "bad" in case:
        status, out, err = call(args, data)
        ctx.count("not_http")
        ctx.seen("bad", case["bad"])
        ctx.expect(status != 0 and err.strip(), f"silent:{case['bad']}", lambda: f"{about}: exit status {status}, error output {err!r:.200}, output {out!r:.200}")
        ctx.expect("Traceback" not in err, "traceback", lambda: f"{about}: {err[-500:]}")
        ctx.expect("* [" not in out, f"notes-for-bad:{case['bad']}", lambda: f"{about}: output {out!r:.300}")
        return
    for _ in range(3):
        before = time.time()
        status, out, err = call(args, data)
        after = time.time()
        got = read(out)
        wants = [expected(case, t) for t in ([before, after] if case["now"] else [None])]
        if got in wants:
            break
    want = wants[-1]
    ctx.expect(status == 0, "status", lambda: f"{about}: exit status {status}, {err[-500:]!r}")
    if ctx.expect(got is not None, "format", lambda: f"{about}: output {out!r:.500}"):
        ctx.expect(sorted(got) == sorted(want), "categories", lambda: f"{about}: categories {sorted(got)}, the library has {sorted(want)}")
        for category in want:
            ctx.expect(got.get(category) == want[category] or got in wants, "notes", lambda: f"{about}: in {category}: {json.dumps(got.get(category), ensure_ascii=False):.500}, the library has {json.dumps(want[category], ensure_ascii=False):.500}")
            ctx.count("notes", len(want[category]))
            ctx.count("subnotes", sum(len(n[2]) for n in want[category]))
    ctx.count("whole" if case["msg"]["complete"] else "cut")
    ctx.count("trailers", bool(case["msg"]["tr"]))
    ctx.count(case["framing"])
    ctx.count("interim", case["interim"])
    ctx.count("now", case["now"])
    ctx.count("requests", case["kind"] == g.REQ)
    ctx.seen("version", case["msg"]["v"])
    ctx.seen("locale", next((args[i + 1] for i, arg in enumerate(args) if arg in ("-l", "--locale")), None))
    ctx.sample([args, case["framing"], {k: len(v) for k, v in want.items()}])
