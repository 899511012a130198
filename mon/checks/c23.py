"""C23: content is compared with its Content-Type, without false alarms."""

import gzip

import brotli

from mon import abnf as a
from mon import drive
from mon import gen as g

PROPERTY = "C23"
RULE = (
    "responses whose content starts with each image type's signature, or that of other media, with each media type; text in every script and in JSON, in UTF-8 and other charsets, whole, with bytes that can't be "
    "decoded in and after its first 8192 bytes, and cut within a character; plain and coded (supported and other codings), to HEAD and with each kind of status code, divided into chunks; distinct by those"
)
SIZES = {"quick": 2500, "thorough": 20000}
REQUIRE = {
    "image_same": 500, "image_other": 800, "image_none": 300, "other_media": 600, "text_ok": 1500, "kind:charset": 15, "undecodable": 500, "cut": 300, "after_sample": 150, "straddles": 150,
    "any_byte": 200, "bom": 150, "ascii": 150, "mismatch": 150, "unexamined": 800, "coded": 800, "kind:unexamined": 5, "kind:signature": 20, "json": 300, "unknown_charset": 150,
}
IMAGES = {
    "image/png": ["\x89PNG\r\n\x1a\n\0\0\0\rIHDR"], "image/jpeg": ["\xff\xd8\xff\xe0\0\x10JFIF", "\xff\xd8\xff\xdb", "\xff\xd8\xff\xe1\0\x18Exif"], "image/gif": ["GIF89a\x01\0", "GIF87a\x01\0"],
    "image/webp": ["RIFF\x10\0\0\0WEBPVP8 ", "RIFF\xff\x10\x20\0WEBPVP8X", "RIFF\x24\0\0\0WEBPVP8L"], "image/x-icon": ["\0\0\1\0\1\0", "\0\0\2\0\1\0"],
}
OTHER = {
    "image/bmp": ["BM6\x10\0\0"], "image/vnd.microsoft.icon": ["\0\0\1\0\1\0"], "image/avif": ["\0\0\0\x20ftypavif\0\0\0\0avifmif1"], "image/jxl": ["\xff\x0a\x7f", "\0\0\0\x0cJXL \r\n\x87\n"],
    "image/tiff": ["II*\0\x08\0\0\0", "MM\0*\0\0"], "image/heic": ["\0\0\0\x18ftypheic"], "image/svg+xml": ["<svg xmlns='http://www.w3.org/2000/svg'>", "<?xml version='1.0'?><svg>"],
    "audio/mpeg": ["ID3\x03\0", "\xff\xfb\x90\x44"], "audio/ogg": ["OggS\0\2"], "audio/wav": ["RIFF\x10\0\0\0WAVEfmt "], "audio/flac": ["fLaC"], "video/mp4": ["\0\0\0\x20ftypmp42\0\0\0\0mp42isom"],
    "video/webm": ["\x1aE\xdf\xa3\x01\0\0\0\0\0\0\x1fB\x86\x81\x01B\xf7\x81\x01B\xf2\x81\x04B\xf3\x81\x08B\x82\x84webm"], "video/quicktime": ["\0\0\0\x14ftypqt  "], "application/ogg": ["OggS\0"],
    "application/pdf": ["%PDF-1.7\n"], "application/zip": ["PK\3\4"], "font/woff2": ["wOF2"], "application/octet-stream": ["\0\1\2\3"], "text/css": ["a { b: c }"], "application/javascript": ["var a = 1;"],
    "text/html": ["<!DOCTYPE html><html>", "<html><head>", "<p>", "<?xml version='1.0'?><html>", "<!DOCTYPE html><html><feed>", "<html><body><rss>"], "text/plain": ["plain text"], "text/xml": ["<a/>"], "application/xml": ["<?xml version='1.0'?><rss>"],
    "application/rss+xml": ["<rss version='2.0'>"], "application/atom+xml": ["<feed xmlns='http://www.w3.org/2005/Atom'>"],
}
TEXTS = {
    "windows-1251": "Привет мир, это русский текст для проверки ", "iso-8859-1": "Café résumé naïve garçon ", "iso-8859-2": "Žluťoučký kůň úpěl ", "shift_jis": "日本語のテキストです。", "euc-jp": "日本語のテキストです。",
    "gb2312": "中文文本测试", "big5": "中文文本測試", "euc-kr": "한국어 텍스트", "windows-1252": "Café “quoted” — naïve ", "iso-8859-7": "Ελληνικό κείμενο ", "windows-1255": "טקסט בעברית ",
    "koi8-r": "Привет мир, это русский текст ", "utf-16": "Hello é ж ", "utf-32": "Hello é", "windows-1250": "Žluťoučký kůň úpěl ", "iso-8859-15": "prix 5€ Café ", "gb18030": "中文文本测试", "windows-1254": "Türkçe şey ığ ",
    "us-ascii": "just ASCII ",
}
SCRIPTS = [(0xA1, 0x24F), (0x370, 0x3FF), (0x400, 0x4FF), (0x590, 0x5FF), (0x600, 0x6FF), (0x900, 0x97F), (0xE00, 0xE7F), (0x2010, 0x2040), (0x3040, 0x30FF), (0x4E00, 0x9FFF), (0xAC00, 0xD7A3), (0x1F300, 0x1F6FF)]
JSON = ["application/json", "text/json", "application/problem+json", "application/ld+json", "model/gltf+json", "image/vnd.x+json", "text/x.y+json", "Application/A.b+JSON"]
TEXT_TYPES = ["text/html", "text/plain", "text/css", "text/csv", "text/x-foo"]
UNKNOWN = ["nope", "x-user-defined", "utf-99", "latin99", "foo_bar"]
ALL = {"CONTENT_TYPE_MISMATCH", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH", "CHARSET_UNDECODABLE"}
SAMPLE = 8192


ANY_BYTE = ["iso-8859-1", "iso-8859-2", "iso-8859-5", "iso-8859-9", "iso-8859-15", "koi8-r", "cp437"]  # every byte is a character
ASCII_BASED = ["iso-8859-1", "windows-1252", "utf-8", "shift_jis", "euc-jp", "gb2312", "big5", "euc-kr", "koi8-r", "us-ascii", "windows-1251"]


def words(r, n):
    lo, hi = r.choice(SCRIPTS)
    return "".join(chr(r.randint(lo, hi)) if r.random() < 0.6 else r.choice("abc <>\n.,019") for _ in range(n))


def media(r):
    "-> (type, content, notes)"
    p = r.random()
    tail = "".join(chr(r.randrange(256)) for _ in range(r.choice([0, 20, 400])))
    if p < 0.25:
        kind = r.choice(sorted(IMAGES))
        return kind, r.choice(IMAGES[kind]) + tail, [], "image_same"
    if p < 0.55:
        kind, other = r.sample(sorted(IMAGES), 2)
        if r.random() < 0.3:
            kind = r.choice(["image/avif", "image/tiff", "audio/mpeg", "video/mp4", "audio/ogg", "video/webm", "image/foo"])
        return kind, r.choice(IMAGES[other]) + tail, ["CONTENT_TYPE_MISMATCH"], "image_other"
    if p < 0.7:
        kind = r.choice(sorted(IMAGES))
        if r.random() < 0.25:
            kind = r.choice(["image/bmp", "image/vnd.microsoft.icon"])
            body = r.choice([b for k in ("image/png", "image/jpeg", "image/gif", "image/webp") for b in IMAGES[k]])
            return kind, body + tail, ["CONTENT_TYPE_MISMATCH"], "image_other"
        return kind, r.choice(["not an image", "<html>", "\0\0abcdefghij", "%PDF-1.7", "PK\3\4zip file", "\x88PNG\r\n\x1a\n", "\x89PNX\r\n\x1a\nabcdef", "GIF88aabcdefgh", "RIFF\x10\0\0\0WAVEfmt "]) + tail, ["CONTENT_TYPE_MISMATCH"], "image_none"
    kind = r.choice(sorted(OTHER))
    return kind, r.choice(OTHER[kind]) + (tail if not kind.startswith(("text/", "application/x", "application/r", "application/a")) else ""), [], "other_media"


def text(r):
    "-> (type, charset or None, content, notes, what it is)"
    json = r.random() < 0.3
    p = r.random()
    if r.random() < 0.06:
        body = "".join(chr(r.choice([0x81, 0x8D, 0x8F, 0x90, 0x9D, r.randrange(0x80, 0x100), r.randrange(0x20, 0x7F)])) for _ in range(r.randint(1, 60)))
        return r.choice(TEXT_TYPES), r.choice(ANY_BYTE), body, "decodes", "any_byte"
    if r.random() < 0.05:
        body = "".join(chr(r.choice([r.randrange(0x20, 0x7F), 10, 9])) for _ in range(r.randint(0, 200)))
        return r.choice(TEXT_TYPES), r.choice(ASCII_BASED), body, [], "ascii"
    if json:
        kind, charset = r.choice(JSON), r.choice([None, None, "utf-8", "UTF-8", "iso-8859-1"])
    else:
        kind, charset = r.choice(TEXT_TYPES), r.choice(["utf-8", "UTF-8", "utf8"])
    good = ('{"a": "' if json else r.choice(["", "Hello ", "<html>"])) + words(r, r.choice([1, 2, 5, 40, 300]))
    good = good.encode("utf-8").decode("latin-1")
    if r.random() < 0.05:
        return kind, charset, "\xef\xbb\xbf" + good, [], "bom"
    if p < 0.35:
        return kind, charset, good, [], "text_ok"
    if p < 0.5:
        return kind, charset, good + r.choice(["\xff", "\xe9 ", "\x80", "\xc0\xaf", "\xed\xa0\x80", "\xf5\x80\x80\x80", "\xe2\x28\xa1", "\xf8"]) + words(r, r.randint(0, 20)).encode("utf-8").decode("latin-1") + "end.", ["CHARSET_UNDECODABLE"], "undecodable"
    char = r.choice("é€😀中").encode("utf-8").decode("latin-1")
    if p < 0.58:  # cut within a character
        return kind, charset, good + char[: r.randint(1, len(char) - 1)], None, "cut"
    start = "A" * (SAMPLE - 1 - r.randint(5, 40))
    if p < 0.65:  # a character across the end of the sample
        n = SAMPLE - r.randint(1, len(char) - 1) if len(char) > 1 else SAMPLE
        body = "\xc3\xa9" + "A" * (n - 2) + char + "more" * r.choice([0, 1, 500])
        return kind, charset, body, [], "straddles"
    if p < 0.72:  # not looked at
        return kind, charset, "\xc3\xa9" + "A" * (SAMPLE + r.choice([-2, 0, 50])) + r.choice(["\xff\xff\xff\xff\xff", "\xe9 abc"]), [], "after_sample"
    if p < 0.75:  # the last bytes that are looked at
        return kind, charset, start + "\xff" + "A" * 100, ["CHARSET_UNDECODABLE"], "undecodable"
    if p < 0.9:
        charset = r.choice(sorted(TEXTS))
        body = (TEXTS[charset] * r.choice([1, 5, 50])).encode(charset).decode("latin-1")
        if len(body) > SAMPLE:
            body = body[:2048]
        return r.choice(TEXT_TYPES), r.choice([charset, charset.upper()]), body, [], "charset"
    if p < 0.95:
        body = ("Привет мир! Это длинный русский текст. Café 中文 " * 20).encode("utf-8").decode("latin-1")
        return r.choice(TEXT_TYPES), r.choice(["iso-8859-1", "windows-1252", "iso-8859-15"]), body, None, "mismatch"
    return r.choice(TEXT_TYPES), r.choice(UNKNOWN), good, [], "unknown_charset"


def gen(r, ctx):
    for _ in range(ctx.size):
        if r.random() < 0.5:
            kind, body, notes, what = media(r)
            charset = None
        else:
            kind, charset, body, notes, what = text(r)
        msg = {"s": r.choice(["200", "200", "200", "404", "500", "201", "203", "301", "416"]), "complete": True}
        if what == "cut":
            msg["complete"] = r.random() < 0.5
            notes = ["CHARSET_UNDECODABLE"] if msg["complete"] else []
        elif what == "mismatch":
            notes = ["CHARSET_MISMATCH"] if charset != "windows-1252" else ["CHARSET_UNDECODABLE"]
            if charset == "windows-1252":
                try:
                    body.encode("latin-1")[:SAMPLE].decode("cp1252")
                    notes = ["CHARSET_MISMATCH"]
                except UnicodeDecodeError:
                    pass
        value = "".join(c.upper() if r.random() < 0.1 else c for c in kind)
        if charset:
            value += a.ows(r) + ";" + a.ows(r) + r.choice(["charset", "Charset", "CHARSET"]) + "=" + (charset if r.random() < 0.7 else f'"{charset}"')
        msg["h"] = [[g.vary_case(r, "Content-Type"), value]]
        why = None
        coded = False
        p = r.random()
        if p < 0.06:
            why, msg["head"] = "head", True
        elif p < 0.2:
            why = msg["s"] = r.choice(["100", "103", "150", "199", "204", "205", "206", "304"])
        elif p < 0.24:
            why, msg["nc"] = "no_content", True
        elif p < 0.32:
            why = "coding"
            msg["h"].append(["Content-Encoding", r.choice(["zstd", "foo", "deflate", "dcb", "gzip, zstd", "zstd, gzip", "compress", "Foo"])])
        elif p < 0.5:
            coded = r.choice(["gzip", "br", "GZip", "x-gzip"])
            msg["h"].append(["Content-Encoding", coded])
            data = body.encode("latin-1")
            if coded == "br":
                body = brotli.compress(data).decode("latin-1")
            else:
                body = gzip.compress(data, mtime=0).decode("latin-1")
            if not msg["complete"]:
                msg["complete"] = False
        msg["body"] = g.chunk(r, body)
        yield {"resp": msg, "want": notes if why is None else [], "what": what, "why": why, "charset": charset, "coded": bool(coded), "type": kind}


def check(ctx, case):
    _, resp = drive.run({"req": None, "resp": case["resp"]})
    got = sorted(n for n in drive.names(resp) if n in ALL)
    what = case["what"]
    ctx.distinct_case([case["resp"]["h"], case["resp"]["s"], case["resp"]["body"], case["what"]])
    ctx.sample([case["resp"]["h"], case["resp"]["s"], what, case["why"], case["want"]])
    ctx.count("coded", case["coded"])
    if case["why"]:
        ctx.count("unexamined")
        ctx.seen("unexamined", case["why"])
    elif what == "charset":
        ctx.seen("charset", case["charset"])
    else:
        ctx.count(what)
        ctx.count("json", what != "other_media" and "json" in case["type"])
    if "image" in what or what == "other_media":
        ctx.seen("signature", case["type"])
    want = case["want"]
    mech = f"{what}:{case['why'] if case['why'] else ''}"
    if what == "undecodable" and not case["why"] and "json" in case["type"]:
        mech += ":json"
    if want == "decodes":
        ctx.expect("CHARSET_UNDECODABLE" not in got and "CONTENT_TYPE_MISMATCH" not in got, mech, lambda: f"{got} for {case['resp']['h']!r}, content {''.join(case['resp']['body'])[:120]!r}")
        want = got
    ctx.expect(
        got == sorted(want), mech,
        lambda: f"{got}, not {want}, for {case['resp']['h']!r}, status {case['resp']['s']}, complete {case['resp']['complete']}, content {''.join(case['resp']['body'])[:120]!r}...{''.join(case['resp']['body'])[-60:]!r}",
    )
    if case["charset"]:
        enc = resp.character_encoding
        if what == "unknown_charset":
            ctx.expect(enc is None, "encoding", lambda: f"character encoding {enc!r} for {case['charset']!r}")
        else:
            ctx.expect(enc is not None and enc.lower() == case["charset"].lower(), "encoding", lambda: f"character encoding {enc!r} for {case['charset']!r}")
    else:
        ctx.expect(resp.character_encoding is None, "encoding", lambda: f"character encoding {resp.character_encoding!r} without a charset")
    for note in resp.notes:
        if type(note).__name__ == "CONTENT_TYPE_MISMATCH":
            ctx.expect(case["type"] in note.detail, "names-type", lambda: note.detail)
        elif type(note).__name__ == "CHARSET_MISMATCH":
            ctx.expect(case["charset"].lower() in note.detail.lower() and "utf-8" in note.detail.lower(), "names-charset", lambda: note.detail)
