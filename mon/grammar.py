r"""
A recogniser and a generator for ABNF (RFC 5234, RFC 7405 and the list rule of RFC 9110 Section 5.6.1), and the grammars of HTTP fields
from their specifications. Independent of httplint.syntax: it interprets the ABNF and works on sets of positions, so there's no
backtracking to get wrong.
"""

import re

# -- grammars --------------------------------------------------------------------
CORE = r"""
ALPHA = %x41-5A / %x61-7A
DIGIT = %x30-39
HEXDIG = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
DQUOTE = %x22
HTAB = %x09
SP = %x20
VCHAR = %x21-7E
OWS = *( SP / HTAB )
RWS = 1*( SP / HTAB )
BWS = ""
obs-text = %x80-FF
tchar = "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~" / DIGIT / ALPHA
token = 1*tchar
qdtext = HTAB / SP / %x21 / %x23-5B / %x5D-7E / obs-text
quoted-pair = %x5C ( HTAB / SP / VCHAR / obs-text )
quoted-string = DQUOTE *( qdtext / quoted-pair ) DQUOTE
ctext = HTAB / SP / %x21-27 / %x2A-5B / %x5D-7E / obs-text
comment = "(" *( ctext / quoted-pair / comment ) ")"
parameter = token "=" ( token / quoted-string )
parameters = *( OWS ";" OWS [ parameter ] )
"""

URI = r"""
URI = scheme ":" hier-part [ "?" query ] [ "#" fragment ]
hier-part = "//" authority path-abempty / path-absolute / path-rootless / path-empty
URI-reference = URI / relative-ref
absolute-URI = scheme ":" hier-part [ "?" query ]
relative-ref = relative-part [ "?" query ] [ "#" fragment ]
partial-URI = relative-part [ "?" query ]
relative-part = "//" authority path-abempty / path-absolute / path-noscheme / path-empty
scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
authority = [ userinfo "@" ] host [ ":" port ]
userinfo = *( unreserved / pct-encoded / sub-delims / ":" )
host = IP-literal / IPv4address / reg-name
port = *DIGIT
IP-literal = "[" ( IPv6address / IPvFuture ) "]"
IPvFuture = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )
IPv6address = 6( h16 ":" ) ls32 / "::" 5( h16 ":" ) ls32 / [ h16 ] "::" 4( h16 ":" ) ls32 / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32 / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32 / [ *3( h16 ":" ) h16 ] "::" h16 ":" ls32 / [ *4( h16 ":" ) h16 ] "::" ls32 / [ *5( h16 ":" ) h16 ] "::" h16 / [ *6( h16 ":" ) h16 ] "::"
h16 = 1*4HEXDIG
ls32 = ( h16 ":" h16 ) / IPv4address
IPv4address = dec-octet "." dec-octet "." dec-octet "." dec-octet
dec-octet = DIGIT / %x31-39 DIGIT / "1" 2DIGIT / "2" %x30-34 DIGIT / "25" %x30-35
reg-name = *( unreserved / pct-encoded / sub-delims )
path-abempty = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty = ""
segment = *pchar
segment-nz = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
pchar = unreserved / pct-encoded / sub-delims / ":" / "@"
query = *( pchar / "/" / "?" )
fragment = *( pchar / "/" / "?" )
pct-encoded = "%" HEXDIG HEXDIG
unreserved = ALPHA / DIGIT / "-" / "." / "_" / "~"
sub-delims = "!" / "$" / "&" / "'" / "(" / ")" / "*" / "+" / "," / ";" / "="
"""

LANG = r"""
Language-Tag = langtag / privateuse / grandfathered
langtag = language [ "-" script ] [ "-" region ] *( "-" variant ) *( "-" extension ) [ "-" privateuse ]
language = 2*3ALPHA [ "-" extlang ] / 4ALPHA / 5*8ALPHA
extlang = 3ALPHA *2( "-" 3ALPHA )
script = 4ALPHA
region = 2ALPHA / 3DIGIT
variant = 5*8alphanum / ( DIGIT 3alphanum )
extension = singleton 1*( "-" ( 2*8alphanum ) )
singleton = DIGIT / %x41-57 / %x59-5A / %x61-77 / %x79-7A
privateuse = "x" 1*( "-" ( 1*8alphanum ) )
grandfathered = irregular / regular
irregular = "en-GB-oed" / "i-ami" / "i-bnn" / "i-default" / "i-enochian" / "i-hak" / "i-klingon" / "i-lux" / "i-mingo" / "i-navajo" / "i-pwn" / "i-tao" / "i-tay" / "i-tsu" / "sgn-BE-FR" / "sgn-BE-NL" / "sgn-CH-DE"
regular = "art-lojban" / "cel-gaulish" / "no-bok" / "no-nyn" / "zh-guoyu" / "zh-hakka" / "zh-min" / "zh-min-nan" / "zh-xiang"
alphanum = ALPHA / DIGIT
"""

DATES = r"""
HTTP-date = IMF-fixdate / rfc850-date / asctime-date
IMF-fixdate = day-name "," SP date1 SP time-of-day SP %s"GMT"
day-name = %s"Mon" / %s"Tue" / %s"Wed" / %s"Thu" / %s"Fri" / %s"Sat" / %s"Sun"
date1 = 2DIGIT SP month SP 4DIGIT
month = %s"Jan" / %s"Feb" / %s"Mar" / %s"Apr" / %s"May" / %s"Jun" / %s"Jul" / %s"Aug" / %s"Sep" / %s"Oct" / %s"Nov" / %s"Dec"
time-of-day = 2DIGIT ":" 2DIGIT ":" 2DIGIT
rfc850-date = day-name-l "," SP date2 SP time-of-day SP %s"GMT"
date2 = 2DIGIT "-" month "-" 2DIGIT
day-name-l = %s"Monday" / %s"Tuesday" / %s"Wednesday" / %s"Thursday" / %s"Friday" / %s"Saturday" / %s"Sunday"
asctime-date = day-name SP month SP ( 2DIGIT / ( SP DIGIT ) ) SP time-of-day SP 4DIGIT
"""

MAIL = r"""
mailbox = name-addr / addr-spec
name-addr = [ phrase ] angle-addr
angle-addr = [ CFWS ] "<" addr-spec ">" [ CFWS ]
phrase = 1*word
word = atom / mail-quoted
atom = [ CFWS ] 1*atext [ CFWS ]
atext = ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "/" / "=" / "?" / "^" / "_" / "`" / "{" / "|" / "}" / "~"
dot-atom = [ CFWS ] 1*atext *( "." 1*atext ) [ CFWS ]
addr-spec = local-part "@" domain
local-part = dot-atom / mail-quoted
domain = dot-atom / domain-literal
domain-literal = [ CFWS ] "[" *( [ FWS ] dtext ) [ FWS ] "]" [ CFWS ]
dtext = %x21-5A / %x5E-7E
mail-quoted = [ CFWS ] DQUOTE *( [ FWS ] qcontent ) [ FWS ] DQUOTE [ CFWS ]
qcontent = %x21 / %x23-5B / %x5D-7E / mail-pair
mail-pair = %x5C ( VCHAR / SP / HTAB )
FWS = 1*( SP / HTAB )
CFWS = ( 1*( [ FWS ] mail-comment ) [ FWS ] ) / FWS
mail-comment = "(" *( [ FWS ] ccontent ) [ FWS ] ")"
ccontent = %x21-27 / %x2A-5B / %x5D-7E / mail-pair / mail-comment
"""

HTTP = r"""
weight = OWS ";" OWS "q=" qvalue
qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
media-type = token "/" token parameters
media-range = ( "*/*" / ( token "/*" ) / ( token "/" token ) ) parameters
language-range = ( 1*8ALPHA *( "-" 1*8( ALPHA / DIGIT ) ) ) / "*"
auth-param = token BWS "=" BWS ( token / quoted-string )
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / "~" / "+" / "/" ) *"="
credentials = token [ 1*SP ( token68 / [ auth-params ] ) ]
auth-params = auth-param *( OWS "," OWS auth-param )
received-by = token [ ":" port ]
entity-tag = [ %s"W/" ] DQUOTE *( %x21 / %x23-7E / obs-text ) DQUOTE
expectation = token [ "=" ( token / quoted-string ) parameters ]
product = token [ "/" token ]
products = product *( RWS ( product / comment ) )
transfer-coding = token *( OWS ";" OWS token BWS "=" BWS ( token / quoted-string ) )
protocol = token [ "/" token ]
via = [ token "/" ] token RWS received-by [ RWS comment ]
directive = token [ "=" ( token / quoted-string ) ]
link-value = "<" URI-reference ">" *( OWS ";" OWS link-param )
link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
warning-value = 3DIGIT SP warn-agent SP quoted-string [ SP DQUOTE HTTP-date DQUOTE ]
warn-agent = ( host [ ":" port ] ) / token
hsts = directive *( OWS ";" OWS directive )
disposition = token *( OWS ";" OWS parameter )
timing = token *( OWS ";" OWS parameter )
base64-128 = 22( ALPHA / DIGIT / "+" / "/" ) "=="
alt-value = token "=" quoted-string *( OWS ";" OWS parameter )
"""


class Grammar:
    def __init__(self, *texts):
        self.rules = {}
        for line in "\n".join(texts).splitlines():
            if line.strip():
                name, text = line.split(" = ", 1)
                self.rules[name.strip()] = self.parse(text)
        self.sets = {}
        self.top = {name: ("rule", name) for name in self.rules}

    # -- reading ABNF ------------------------------------------------------------
    TOKENS = re.compile(r'\s*(%s"[^"]*"|"[^"]*"|%x[0-9A-Fa-f]+(?:-[0-9A-Fa-f]+)?|\d*\*\d*|\d+|[A-Za-z][A-Za-z0-9-]*|[()\[\]/])')

    def parse(self, text):
        toks, pos = [], 0
        text = text.strip()
        while pos < len(text):
            m = self.TOKENS.match(text, pos)
            if not m:
                raise ValueError(f"ABNF: {text[pos:]!r}")
            toks.append(m.group(1))
            pos = m.end()
        node, rest = self.alternation(toks)
        if rest:
            raise ValueError(f"ABNF: {rest}")
        return node

    def alternation(self, toks):
        alts = []
        node, toks = self.concatenation(toks)
        alts.append(node)
        while toks and toks[0] == "/":
            node, toks = self.concatenation(toks[1:])
            alts.append(node)
        return (alts[0] if len(alts) == 1 else ("alt", alts)), toks

    def concatenation(self, toks):
        items = []
        while toks and toks[0] not in ("/", ")", "]"):
            lo = hi = 1
            if toks[0][0].isdigit() or toks[0][0] == "*":
                lo_text, star, hi_text = toks[0].partition("*")
                lo = int(lo_text) if lo_text else 0
                hi = (int(hi_text) if hi_text else None) if star else lo
                toks = toks[1:]
            node, toks = self.element(toks)
            items.append(node if (lo, hi) == (1, 1) else ("rep", lo, hi, node))
        return (items[0] if len(items) == 1 else ("cat", items)), toks

    def element(self, toks):
        tok = toks[0]
        if tok == "(":
            node, toks = self.alternation(toks[1:])
            assert toks[0] == ")"
            return node, toks[1:]
        if tok == "[":
            node, toks = self.alternation(toks[1:])
            assert toks[0] == "]"
            return ("rep", 0, 1, node), toks[1:]
        if tok.startswith('%s"'):
            return ("str", tok[3:-1], True), toks[1:]
        if tok.startswith('"'):
            return ("str", tok[1:-1], False), toks[1:]
        if tok.startswith("%x"):
            lo, _, hi = tok[2:].partition("-")
            return ("range", int(lo, 16), int(hi or lo, 16)), toks[1:]
        return ("rule", tok), toks[1:]

    # -- recognising -----------------------------------------------------------
    def charset(self, node, strict):
        "The characters node matches, when it always matches exactly one; else None"
        key = (id(node), strict)
        if key in self.sets:
            return self.sets[key]
        self.sets[key] = None  # while computing: recursive rules aren't sets
        kind = node[0]
        out = None
        if kind == "range":
            out = frozenset(chr(c) for c in range(node[1], node[2] + 1))
        elif kind == "str" and len(node[1]) == 1:
            out = frozenset(node[1] if node[2] and strict else node[1].lower() + node[1].upper())
        elif kind == "rule":
            out = self.charset(self.rules[node[1]], strict)
        elif kind == "alt":
            parts = [self.charset(n, strict) for n in node[1]]
            if all(p is not None for p in parts):
                out = frozenset().union(*parts)
        self.sets[key] = out
        return out

    def ends(self, node, text, pos, memo, strict):
        "The positions where node can end when it starts at pos"
        key = (id(node), pos)
        if key in memo:
            return memo[key]
        chars = self.charset(node, strict)
        if chars is not None:
            out = {pos + 1} if pos < len(text) and text[pos] in chars else set()
            memo[key] = out
            return out
        kind = node[0]
        if kind == "str":
            piece = text[pos : pos + len(node[1])]
            same = piece == node[1] if node[2] and strict else piece.lower() == node[1].lower()
            out = {pos + len(node[1])} if same else set()
        elif kind == "rule":
            out = self.ends(self.rules[node[1]], text, pos, memo, strict)
        elif kind == "alt":
            out = set()
            for n in node[1]:
                out |= self.ends(n, text, pos, memo, strict)
        elif kind == "cat":
            out = {pos}
            for n in node[1]:
                out = set().union(*(self.ends(n, text, p, memo, strict) for p in out))
                if not out:
                    break
        else:
            _, lo, hi, inner = node
            inner_chars = self.charset(inner, strict)
            if inner_chars is not None:
                run = 0
                while (hi is None or run < hi) and pos + run < len(text) and text[pos + run] in inner_chars:
                    run += 1
                out = set(range(pos + lo, pos + run + 1))
            else:
                out = {pos} if lo == 0 else set()
                front, n = {pos}, 0
                reached = set()
                while front and (hi is None or n < hi):
                    n += 1
                    nxt = set().union(*(self.ends(inner, text, p, memo, strict) for p in front))
                    if n > lo:
                        nxt -= reached
                    if n >= lo:
                        out |= nxt
                        reached |= nxt
                    front = nxt
        memo[key] = out
        return out

    def matches(self, rule, text, strict=True):
        return len(text) in self.ends(self.top[rule], text, 0, {}, strict)

    def matches_list(self, rule, text, strict=True):
        "The list rule as recipients have to take it: empty members are allowed. -> the number of members, or None"
        memo = {}
        node = self.top[rule]
        n = len(text)
        # states: position, whether a member has just ended
        seen, todo = set(), [(0, False, 0)]
        best = None
        while todo:
            pos, ended, count = todo.pop()
            if (pos, ended, count > 0) in seen:
                continue
            seen.add((pos, ended, count > 0))
            if pos == n:
                best = max(best or 0, count)
                continue
            if text[pos] in " \t":
                todo.append((pos + 1, ended, count))
            if text[pos] == ",":
                todo.append((pos + 1, False, count))
            if not ended:
                for end in self.ends(node, text, pos, memo, strict):
                    if end > pos:
                        todo.append((end, True, count + 1))
        return best

    # -- generating --------------------------------------------------------------
    def make(self, r, rule, depth=12):
        return self.produce(r, self.top[rule], depth)

    def produce(self, r, node, depth):
        kind = node[0]
        chars = self.charset(node, True)
        if chars is not None:
            alnum = [c for c in chars if c.isascii() and c.isalnum()]
            return r.choice(alnum) if alnum and r.random() < 0.75 else r.choice(sorted(chars))
        if kind == "str":
            return node[1] if node[2] or r.random() < 0.85 else "".join(r.choice([c.lower(), c.upper()]) for c in node[1])
        if kind == "rule":
            return self.produce(r, self.rules[node[1]], depth - 1)
        if kind == "alt":
            # recursion ends: choose an alternative that isn't a rule's own when deep
            alts = node[1] if depth > 0 else [n for n in node[1] if not self.recursive(n)] or node[1]
            return self.produce(r, r.choice(alts), depth)
        if kind == "cat":
            return "".join(self.produce(r, n, depth) for n in node[1])
        _, lo, hi, inner = node
        most = lo + (4 if depth > 0 else 0) if hi is None else min(hi, lo + 4)
        if hi is None and self.charset(inner, True) is not None and r.random() < 0.5:
            most = lo + 1
        if lo == 0 and hi == 1:
            count = 1 if r.random() < 0.4 and depth > 0 else 0
        else:
            count = r.randint(lo, max(lo, most))
        return "".join(self.produce(r, inner, depth) for _ in range(count))

    def recursive(self, node):
        return node[0] == "rule" and node[1] in ("comment", "mail-comment")


# Where recipients are allowed (or likely) to take more than senders are allowed to send, a value in between isn't decided.
LENIENT = r"""
link-value = "<" URI-reference ">" *( OWS ";" OWS [ link-param ] )
BWS = OWS
auth-params = [ auth-param ] *( OWS "," OWS [ auth-param ] )
received-by = ( host / token ) [ ":" port ]
hsts = [ directive-sp ] *( OWS ";" OWS [ directive-sp ] )
directive-sp = token [ OWS "=" OWS ( token / quoted-string ) ]
disposition = token *( OWS ";" OWS [ token OWS "=" OWS ( token / quoted-string ) ] )
timing = token *( OWS ";" OWS [ token OWS "=" OWS ( token / quoted-string ) ] )
products = [ product-comments ] *( OWS "," OWS [ product-comments ] )
product-comments = ( product / comment ) *( RWS ( product / comment ) )
csp = [ csp-directive ] *( OWS ";" OWS [ csp-directive ] )
"""
FIELDS = r"""
accept = media-range [ weight ]
codings = token [ weight ]
languages = language-range [ weight ]
alt-svc = %s"clear" / alt-value
content-location = absolute-URI / partial-URI
host-port = host [ ":" port ]
match = "*" / entity-tag
if-range = entity-tag / HTTP-date
number = 1*DIGIT
retry-after = HTTP-date / 1*DIGIT
te = transfer-coding [ weight ]
nosniff = "nosniff"
frame-options = "DENY" / "SAMEORIGIN" / ( "ALLOW-FROM" RWS serialized-origin )
serialized-origin = scheme "://" host [ ":" port ]
acao = %s"null" / "*" / serialized-origin
acac = %s"true"
csp = csp-directive *( OWS ";" [ OWS csp-directive ] )
csp-directive = 1*( ALPHA / DIGIT / "-" ) [ ( SP / HTAB ) *( SP / HTAB / %x21-2B / %x2D-3A / %x3C-7E ) ]
"""
G = Grammar(CORE, URI, LANG, DATES, MAIL, HTTP, FIELDS)
L = Grammar(CORE, URI, LANG, DATES, MAIL, HTTP, FIELDS, LENIENT)


def comment_depth(text):
    "How deep parentheses nest, at most."
    depth = most = 0
    for c in re.sub(r"\\.", "", text):
        depth = max(0, depth + {"(": 1, ")": -1}.get(c, 0))
        most = max(most, depth)
    return most
