"""
The ABNF of the documents that httplint.syntax has a module for, for comparing its rules to. Where a rule of a module is documented as something other
than the RFC's production (e.g., rfc9112's are RFC 7230's for the start-line), it's that.
"""

import re

from mon.grammar import CORE, DATES, LANG, URI, Grammar

CORE5234 = r"""
BIT = "0" / "1"
CR = %x0D
LF = %x0A
CRLF = CR LF
CTL = %x00-1F / %x7F
OCTET = %x00-FF
WSP = SP / HTAB
LWSP = *( WSP / CRLF WSP )
"""

URI_MORE = r"""
gen-delims = ":" / "/" / "?" / "#" / "[" / "]" / "@"
reserved = gen-delims / sub-delims
path = path-abempty / path-absolute / path-noscheme / path-rootless / path-empty
"""

MAIL5322 = r"""
qtext = %d33 / %d35-91 / %d93-126
quoted-pair = %x5C ( VCHAR / WSP )
qcontent = qtext / quoted-pair
ctext = %d33-39 / %d42-91 / %d93-126
ccontent = ctext / quoted-pair / comment
FWS = [ *WSP CRLF ] 1*WSP
comment = "(" *( [ FWS ] ccontent ) [ FWS ] ")"
CFWS = ( 1*( [ FWS ] comment ) [ FWS ] ) / FWS
quoted-string = [ CFWS ] DQUOTE *( [ FWS ] qcontent ) [ FWS ] DQUOTE [ CFWS ]
atext = ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "'" / "*" / "+" / "-" / "/" / "=" / "?" / "^" / "_" / "`" / "{" / "|" / "}" / "~"
atom = [ CFWS ] 1*atext [ CFWS ]
word = atom / quoted-string
phrase = 1*word
display-name = phrase
dot-atom-text = 1*atext *( "." 1*atext )
dot-atom = [ CFWS ] dot-atom-text [ CFWS ]
local-part = dot-atom / quoted-string
dtext = %d33-90 / %d94-126
domain-literal = [ CFWS ] "[" *( [ FWS ] dtext ) [ FWS ] "]" [ CFWS ]
domain = dot-atom / domain-literal
addr-spec = local-part "@" domain
angle-addr = [ CFWS ] "<" addr-spec ">" [ CFWS ]
name-addr = [ display-name ] angle-addr
mailbox = name-addr / addr-spec
"""

EXT5987 = r"""
language = Language-Tag
pct-encoded = "%" HEXDIG HEXDIG
attr-char = ALPHA / DIGIT / "!" / "#" / "$" / "&" / "+" / "-" / "." / "^" / "_" / "`" / "|" / "~"
value-chars = *( pct-encoded / attr-char )
mime-charsetc = ALPHA / DIGIT / "!" / "#" / "$" / "%" / "&" / "+" / "-" / "^" / "_" / "`" / "{" / "}" / "~"
mime-charset = 1*mime-charsetc
charset = "UTF-8" / mime-charset
ext-value = charset "'" [ language ] "'" value-chars
"""
EXT_LANG = LANG.replace("\nlanguage = ", "\nlang = ").replace("langtag = language ", "langtag = lang ")

TYPE6838 = r"""
restricted-name-first = ALPHA / DIGIT
restricted-name-chars = ALPHA / DIGIT / "!" / "#" / "$" / "&" / "-" / "^" / "_" / "." / "+"
restricted-name = restricted-name-first *126restricted-name-chars
type-name = restricted-name
subtype-name = restricted-name
"""

LINK8288 = r"""
link-param = token [ "=" ( token / quoted-string ) ]
link-value = "<" URI-reference ">" *( OWS ";" OWS link-param )
Link = [ link-value *( OWS "," OWS link-value ) ]
"""
LINK8288_LENIENT = r"""
link-param = token BWS [ "=" BWS ( token / quoted-string ) ]
"""

# RFC 9110's rules that aren't lists
HTTP9110 = r"""
BWS = OWS
parameter-name = token
parameter-value = ( token / quoted-string )
parameter = parameter-name "=" parameter-value
parameters = *( OWS ";" OWS [ parameter ] )
qvalue = ( "0" [ "." *3DIGIT ] ) / ( "1" [ "." *3"0" ] )
weight = OWS ";" OWS "q=" qvalue
type = token
subtype = token
media-type = type "/" subtype parameters
media-range = ( "*/*" / ( type "/*" ) / ( type "/" subtype ) ) parameters
content-coding = token
codings = content-coding / "identity" / "*"
language-range = ( 1*8ALPHA *( "-" 1*8( ALPHA / DIGIT ) ) ) / "*"
range-unit = token
Accept-Ranges = acceptable-ranges
method = token
auth-scheme = token
auth-param = token BWS "=" BWS ( token / quoted-string )
token68 = 1*( ALPHA / DIGIT / "-" / "." / "_" / "~" / "+" / "/" ) *"="
auth-params = auth-param *( OWS "," OWS auth-param )
credentials = auth-scheme [ 1*SP ( token68 / [ auth-params ] ) ]
challenge = auth-scheme [ 1*SP ( token68 / [ auth-params ] ) ]
Authorization = credentials
Proxy-Authorization = credentials
connection-option = token
language-tag = Language-Tag
Content-Length = 1*DIGIT
Content-Location = absolute-URI / partial-URI
first-pos = 1*DIGIT
last-pos = 1*DIGIT
incl-range = first-pos "-" last-pos
complete-length = 1*DIGIT
range-resp = incl-range "/" ( complete-length / "*" )
unsatisfied-range = "*/" complete-length
Content-Range = range-unit SP ( range-resp / unsatisfied-range )
Content-Type = media-type
day = 2DIGIT
year = 4DIGIT
hour = 2DIGIT
minute = 2DIGIT
second = 2DIGIT
GMT = %s"GMT"
date3 = month SP ( 2DIGIT / ( SP DIGIT ) )
obs-date = rfc850-date / asctime-date
Date = HTTP-date
weak = %s"W/"
etagc = "!" / %x23-7E / obs-text
opaque-tag = DQUOTE *etagc DQUOTE
entity-tag = [ weak ] opaque-tag
ETag = entity-tag
expectation = token [ "=" ( token / quoted-string ) parameters ]
Host = host [ ":" port ]
If-Modified-Since = HTTP-date
If-Range = entity-tag / HTTP-date
If-Unmodified-Since = HTTP-date
Last-Modified = HTTP-date
Location = URI-reference
Max-Forwards = 1*DIGIT
int-range = first-pos "-" [ last-pos ]
suffix-length = 1*DIGIT
suffix-range = "-" suffix-length
other-range = 1*( %x21-2B / %x2D-7E )
range-spec = int-range / suffix-range / other-range
ranges-specifier = range-unit "=" range-set
Range = ranges-specifier
Referer = absolute-URI / partial-URI
delay-seconds = 1*DIGIT
Retry-After = HTTP-date / delay-seconds
product-version = token
product = token [ "/" product-version ]
Server = product *( RWS ( product / comment ) )
User-Agent = product *( RWS ( product / comment ) )
transfer-parameter = token BWS "=" BWS ( token / quoted-string )
transfer-coding = token *( OWS ";" OWS transfer-parameter )
t-codings = "trailers" / ( transfer-coding [ weight ] )
field-name = token
protocol-name = token
protocol-version = token
protocol = protocol-name [ "/" protocol-version ]
pseudonym = token
received-protocol = [ protocol-name "/" ] protocol-version
received-by = pseudonym [ ":" port ]
absolute-path = 1*( "/" segment )
field-vchar = VCHAR / obs-text
field-content = field-vchar [ 1*( SP / HTAB / field-vchar ) field-vchar ]
field-value = *field-content
http-URI = "http://" authority path-abempty [ "?" query ]
https-URI = "https://" authority path-abempty [ "?" query ]
accept-elem = media-range [ weight ]
charset-elem = ( token / "*" ) [ weight ]
coding-elem = codings [ weight ]
language-elem = language-range [ weight ]
vary-elem = "*" / field-name
via-elem = received-protocol RWS received-by [ RWS comment ]
"""
LENIENT9110 = r"""
auth-params = [ auth-param ] *( OWS "," OWS [ auth-param ] )
received-by = ( host / pseudonym ) [ ":" port ]
"""
LISTS9110 = {
    "Accept": "accept-elem",
    "Accept-Charset": "charset-elem",
    "Accept-Encoding": "coding-elem",
    "Accept-Language": "language-elem",
    "Allow": "method",
    "Authentication-Info": "auth-param",
    "Connection": "connection-option",
    "Content-Encoding": "content-coding",
    "Content-Language": "language-tag",
    "Expect": "expectation",
    "Proxy-Authenticate": "challenge",
    "Proxy-Authentication-Info": "auth-param",
    "TE": "t-codings",
    "Trailer": "field-name",
    "Upgrade": "protocol",
    "Vary": "vary-elem",
    "Via": "via-elem",
    "WWW-Authenticate": "challenge",
}


def listing(table, least=0):
    opening, close = ("[", "]") if least == 0 else ("(", ")")
    return "".join(f'{name} = {opening} {elem} *( OWS "," OWS {elem} ) {close}\n' for name, elem in table.items())


ALL9110 = "\n".join(
    [
        HTTP9110,
        listing(LISTS9110),
        listing({"acceptable-ranges": "range-unit", "range-set": "range-spec"}, 1),
        'entity-tags = [ entity-tag *( OWS "," OWS entity-tag ) ]\nIf-Match = "*" / entity-tags\nIf-None-Match = "*" / entity-tags\n',
    ]
)

CACHE9111 = r"""
delta-seconds = 1*DIGIT
Age = delta-seconds
cache-directive = token [ "=" ( token / quoted-string ) ]
Expires = HTTP-date
extension-pragma = token [ "=" ( token / quoted-string ) ]
pragma-directive = "no-cache" / extension-pragma
warn-code = 3DIGIT
warn-agent = ( host [ ":" port ] ) / token
warn-text = quoted-string
warn-date = DQUOTE HTTP-date DQUOTE
warning-value = warn-code SP warn-agent SP warn-text [ SP warn-date ]
""" + listing({"Cache-Control": "cache-directive"}) + listing({"Pragma": "pragma-directive", "Warning": "warning-value"}, 1)

MESSAGE9112 = r"""
header-field = field-name ":" OWS field-value OWS
chunk-size = 1*HEXDIG
chunk-ext-name = token
chunk-ext-val = token / quoted-string
chunk-ext = *( ";" chunk-ext-name [ "=" chunk-ext-val ] )
chunk-data = 1*OCTET
chunk = chunk-size [ chunk-ext ] CRLF chunk-data CRLF
last-chunk = 1*"0" [ chunk-ext ] CRLF
trailer-part = *( header-field CRLF )
chunked-body = *chunk last-chunk trailer-part CRLF
transfer-extension = token *( OWS ";" OWS transfer-parameter )
transfer-coding = "chunked" / "compress" / "deflate" / "gzip" / transfer-extension
HTTP-name = %s"HTTP"
HTTP-version = HTTP-name "/" DIGIT "." DIGIT
absolute-form = absolute-URI
asterisk-form = "*"
authority-form = authority
origin-form = absolute-path [ "?" query ]
request-target = origin-form / absolute-form / authority-form / asterisk-form
request-line = method SP request-target SP HTTP-version CRLF
status-code = 3DIGIT
reason-phrase = *( HTAB / SP / VCHAR / obs-text )
status-line = HTTP-version SP status-code SP reason-phrase CRLF
start-line = request-line / status-line
message-body = *OCTET
HTTP-message = start-line *( header-field CRLF ) CRLF [ message-body ]
""" + listing({"Transfer-Encoding": "transfer-coding"}, 1)

SF9651 = r"""
sf-integer = [ "-" ] 1*15DIGIT
sf-decimal = [ "-" ] 1*12DIGIT "." 1*3DIGIT
sf-string = DQUOTE *( %x20-21 / %x23-5B / %x5D-7E / bs-escaped ) DQUOTE
bs-escaped = %x5C ( DQUOTE / %x5C )
sf-token = ( ALPHA / "*" ) *( tchar / ":" / "/" )
sf-binary = ":" *( ALPHA / DIGIT / "+" / "/" / "=" ) ":"
sf-boolean = "?" ( "0" / "1" )
sf-date = "@" sf-integer
bare-item = sf-integer / sf-decimal / sf-string / sf-token / sf-binary / sf-boolean / sf-date
lcalpha = %x61-7A
key = ( lcalpha / "*" ) *( lcalpha / DIGIT / "_" / "-" / "." / "*" )
param-key = key
param-value = bare-item
parameter = ";" *SP param-key [ "=" param-value ]
parameters = *parameter
sf-item = bare-item parameters
inner-list = "(" *SP [ sf-item *( 1*SP sf-item ) *SP ] ")" parameters
list-member = sf-item / inner-list
sf-list = list-member *( OWS "," OWS list-member )
member-key = key
member-value = sf-item / inner-list
dict-member = member-key [ "=" member-value ]
sf-dictionary = dict-member *( OWS "," OWS dict-member )
sf-value = sf-dictionary / sf-list / sf-item
"""


def decimal(text):
    "%d33-39 as %x21-27"
    return re.sub(r"%d(\d+)(?:-(\d+))?", lambda m: "%x" + "-".join(f"{int(n):X}" for n in m.groups() if n), text)


def names(*texts):
    return [line.split(" = ")[0].strip() for text in texts for line in text.splitlines() if line.strip()]


MAIL5322 = decimal(MAIL5322)
BASE = [CORE, CORE5234, URI, URI_MORE, LANG, DATES]


def as_written(text):
    "The same, with literals that are case-sensitive"
    text = re.sub(r"^HEXDIG = .*", "HEXDIG = DIGIT / %x41-46 / %x61-66", text, flags=re.M)
    return re.sub(r'(?<!%s)"([^"]*)"', r'%s"\1"', text)


def module(rules, texts, lenient="", skip=()):
    return {
        "G": Grammar(*texts),
        "X": Grammar(*(as_written(t) for t in texts)),
        "L": Grammar(*texts, lenient) if lenient else None,
        "rules": [n for n in rules if n not in skip],
    }


MODULES = {
    "rfc5234": module(names(CORE5234) + ["ALPHA", "DIGIT", "DQUOTE", "HEXDIG", "HTAB", "SP", "VCHAR"], BASE),
    "rfc3986": module(names(URI, URI_MORE), BASE, skip=["partial-URI"]),
    "rfc5322": module(names(MAIL5322), [CORE, CORE5234, MAIL5322], skip=["ccontent"]),
    "rfc5646": module(names(LANG), BASE),
    "rfc5987": module(names(EXT5987), [CORE, CORE5234, EXT_LANG, EXT5987]),
    "rfc6838": module(names(TYPE6838), [CORE, TYPE6838]),
    "rfc8288": module(names(LINK8288), [CORE, CORE5234, URI, LINK8288], "BWS = OWS\n" + LINK8288_LENIENT),
    "rfc9110": module(
        names(CORE, DATES, ALL9110) + ["partial-URI"], [*BASE, ALL9110], LENIENT9110,
        skip=["ALPHA", "DIGIT", "HEXDIG", "DQUOTE", "HTAB", "SP", "VCHAR", "auth-params", "entity-tags"]
        + [n for n in names(ALL9110) if n.endswith("-elem")],
    ),
    "rfc9111": module(names(CACHE9111), [*BASE, CACHE9111]),
    "rfc9112": module(names(MESSAGE9112), [*BASE, ALL9110, MESSAGE9112]),
    "rfc9651": module(names(SF9651), [CORE, SF9651], skip=["lcalpha", "bs-escaped"]),
}
# names of rules that aren't the production's with "_" for "-"
PYTHON = {("rfc9110", "type"): "_type", ("rfc9111", "Warning"): "Warning_"}
