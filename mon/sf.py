"""An independent reading of RFC 9651 (Structured Field Values), following Section 4.2."""

import binascii
import base64
from decimal import Decimal

DIGIT = "0123456789"
LC = "abcdefghijklmnopqrstuvwxyz"
ALPHA = LC + LC.upper()
TCHAR = ALPHA + DIGIT + "!#$%&'*+-.^_`|~"
B64 = ALPHA + DIGIT + "+/="


class Bad(Exception):
    "It isn't a Structured Field"


class Undecided(Exception):
    "The specification leaves what to do with it to the parser"


class Parser:
    def __init__(self, text):
        self.text = text
        self.i = 0
        self.duplicates = []

    def peek(self):
        return self.text[self.i] if self.i < len(self.text) else ""

    def next(self):
        c = self.peek()
        if not c:
            raise Bad("end")
        self.i += 1
        return c

    def skip(self, what):
        while self.peek() and self.peek() in what:
            self.i += 1

    def top(self, kind):
        self.skip(" ")
        out = {"list": self.list, "dict": self.dictionary, "item": self.item}[kind]()
        self.skip(" ")
        if self.peek():
            raise Bad("trailing")
        return out

    def more(self):
        "After a member: -> whether there's another"
        self.skip(" \t")
        if not self.peek():
            return False
        if self.next() != ",":
            raise Bad("comma")
        self.skip(" \t")
        if not self.peek():
            raise Bad("trailing comma")
        return True

    def list(self):
        out = []
        while self.peek():
            out.append(self.member())
            if not self.more():
                break
        return out

    def dictionary(self):
        out = {}
        while self.peek():
            key = self.key()
            if key in out:
                self.duplicates.append(("dict", key))
            if self.peek() == "=":
                self.i += 1
                out[key] = self.member()
            else:
                out[key] = (("bool", True), self.params())
            if not self.more():
                break
        return out

    def member(self):
        return self.inner() if self.peek() == "(" else self.item()

    def inner(self):
        self.i += 1
        out = []
        while True:
            self.skip(" ")
            if self.peek() == ")":
                self.i += 1
                return out, self.params()
            out.append(self.item())
            if not self.peek() or self.peek() not in " )":
                raise Bad("inner list")

    def item(self):
        return self.bare(), self.params()

    def params(self):
        out = {}
        while self.peek() == ";":
            self.i += 1
            self.skip(" ")
            key = self.key()
            if key in out:
                self.duplicates.append(("param", key))
            out[key] = ("bool", True)
            if self.peek() == "=":
                self.i += 1
                out[key] = self.bare()
        return out

    def key(self):
        if not self.peek() or self.peek() not in LC + "*":
            raise Bad("key")
        start = self.i
        self.skip(LC + DIGIT + "_-.*")
        return self.text[start : self.i]

    def bare(self):
        c = self.peek()
        if not c:
            raise Bad("no item")
        if c in DIGIT + "-":
            return self.number()
        if c == '"':
            return self.string()
        if c in ALPHA + "*":
            start = self.i
            self.skip(TCHAR + ":/")
            return "token", self.text[start : self.i]
        if c == ":":
            return self.bytes()
        if c == "?":
            self.i += 1
            b = self.next()
            if b not in "01":
                raise Bad("boolean")
            return "bool", b == "1"
        if c == "@":
            self.i += 1
            kind, value = self.number()
            if kind != "int":
                raise Bad("date")
            if abs(value) > 60000000000:
                raise Undecided("dates outside the years 1 to 9999")
            return "date", value
        if c == "%":
            return self.display()
        raise Bad("item")

    def number(self):
        sign = -1 if self.peek() == "-" else 1
        if sign < 0:
            self.i += 1
        start = self.i
        self.skip(DIGIT)
        whole = self.text[start : self.i]
        if not whole:
            raise Bad("number")
        if self.peek() == ".":
            self.i += 1
            start = self.i
            self.skip(DIGIT)
            frac = self.text[start : self.i]
            if len(whole) > 12 or not 1 <= len(frac) <= 3:
                raise Bad("decimal")
            return "dec", sign * Decimal(whole + "." + frac)
        if len(whole) > 15:
            raise Bad("integer")
        return "int", sign * int(whole)

    def string(self):
        self.i += 1
        out = ""
        while True:
            c = self.next()
            if c == "\\":
                c = self.next()
                if c not in '"\\':
                    raise Bad("escape")
                out += c
            elif c == '"':
                return "string", out
            elif not " " <= c <= "~":
                raise Bad("string")
            else:
                out += c

    def bytes(self):
        end = self.text.find(":", self.i + 1)
        if end < 0:
            raise Bad("bytes")
        data = self.text[self.i + 1 : end]
        if any(c not in B64 for c in data):
            raise Bad("bytes")
        self.i = end + 1
        try:
            out = base64.b64decode(data, validate=True)
        except binascii.Error as exc:
            raise Undecided("padding") from exc
        if base64.b64encode(out).decode() != data:
            raise Undecided("padding")
        return "bytes", out.decode("latin-1")

    def display(self):
        self.i += 1
        if self.next() != '"':
            raise Bad("display string")
        out = b""
        while True:
            c = self.next()
            if c == "%":
                pair = self.next() + self.next()
                if any(x not in DIGIT + "abcdef" for x in pair):
                    raise Bad("percent")
                out += bytes([int(pair, 16)])
            elif c == '"':
                try:
                    return "display", out.decode("utf-8")
                except UnicodeDecodeError as exc:
                    raise Bad("utf-8") from exc
            elif not " " <= c <= "~":
                raise Bad("display string")
            else:
                out += c.encode()


def parse(text, kind):
    "-> (value, [(context, key)...] that are duplicated); raises Bad or Undecided"
    parser = Parser(text)
    return parser.top(kind), parser.duplicates


def norm_bare(val):
    "What http_sf gives -> the same form as the above"
    name = type(val).__name__
    if name == "Token":
        return "token", str(val)
    if name == "DisplayString":
        return "display", str(val)
    if isinstance(val, bool):
        return "bool", val
    if isinstance(val, int):
        return "int", val
    if isinstance(val, (float, Decimal)):
        return "dec", Decimal(str(val))
    if isinstance(val, str):
        return "string", val
    if isinstance(val, (bytes, bytearray)):
        return "bytes", bytes(val).decode("latin-1")
    if name == "datetime":
        return "date", int(val.timestamp())
    return name, repr(val)


def norm_member(val):
    what, params = val
    params = {str(k): norm_bare(v) for k, v in params.items()}
    if isinstance(what, list):
        return [norm_member(v) for v in what], params
    return norm_bare(what), params


def norm(val, kind):
    if kind == "item":
        return norm_member(val)
    if kind == "list":
        return [norm_member(v) for v in val]
    return {str(k): norm_member(v) for k, v in val.items()}
