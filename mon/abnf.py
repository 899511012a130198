"""
Generators for HTTP productions, written from the RFCs (not from httplint.syntax).

Each takes a random.Random and returns a string that the named production allows.
"""

import calendar
import glob
import importlib.util
import os
import re

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = "0123456789"
HEX = "0123456789abcdefABCDEF"
TCHAR = ALPHA + DIGIT + "!#$%&'*+-.^_`|~"
UNRESERVED = ALPHA + DIGIT + "-._~"
SUBDELIMS = "!$&'()*+,;="
QDTEXT = "\t !" + "".join(map(chr, range(0x23, 0x5C))) + "".join(map(chr, range(0x5D, 0x7F)))
VCHAR = "".join(map(chr, range(0x21, 0x7F)))
OBS_TEXT = "".join(map(chr, range(0x80, 0x100)))


def _literals():
    "The tokens and numbers that httplint's source mentions: where it's likely to treat a value specially."
    words, numbers = set(), set()
    folder = importlib.util.find_spec("httplint").submodule_search_locations[0]
    for path in glob.glob(os.path.join(folder, "**", "*.py"), recursive=True):
        with open(path, encoding="utf-8") as fh:
            text = fh.read()
        for double, single in re.findall(r'"([^"\n\\]{1,24})"|\'([^\'\n\\]{1,24})\'', text):
            words.update(re.findall(r"[A-Za-z][A-Za-z0-9-]*", double + " " + single))
        numbers.update(int(n) for n in re.findall(r"\b[0-9]{1,19}\b", text))
    return sorted(words), sorted(numbers)


WORDS, NUMBERS = _literals()


def word(r, hi=24):
    out = r.choice(WORDS)
    return out if len(out) <= hi else word(r, hi)


def rep(r, fn, lo=0, hi=4):
    return "".join(fn(r) for _ in range(r.randint(lo, hi)))


def chars(r, alphabet, lo=0, hi=8):
    return "".join(r.choice(alphabet) for _ in range(r.randint(lo, hi)))


def token(r, lo=1, hi=10):
    pick = r.random()
    if pick < 0.12 and lo == 1:
        return word(r, hi)
    if pick < 0.6:
        return chars(r, ALPHA + DIGIT + "-", lo, hi)
    return chars(r, TCHAR, lo, hi)


def simple_token(r, lo=1, hi=8):
    if lo == 1 and r.random() < 0.2:
        return word(r, 24 if hi == 8 else hi)
    return r.choice(ALPHA) + chars(r, ALPHA + DIGIT + "-", max(lo - 1, 0), hi)


def digits(r, lo=1, hi=6):
    return chars(r, DIGIT, lo, hi)


def nonneg(r):
    "delta-seconds of assorted sizes, no leading zeros mostly"
    pick = r.random()
    if pick < 0.15:
        return "0"
    if pick < 0.25:
        return "0" * r.randint(1, 3) + str(r.randint(0, 99))
    if pick < 0.4:
        return str(max(0, r.choice(NUMBERS) + r.randint(-1, 1)))
    if pick < 0.9:
        return str(r.randint(1, 10 ** r.randint(1, 9)))
    return str(2 ** 31 + r.randint(-2, 2))


def ows(r):
    return r.choice(["", "", "", " ", " ", "  ", "\t", " \t"])


def rws(r):
    return r.choice([" ", " ", " ", "  ", "\t", " \t "])


def quoted_string(r, hi=10, alphabet=None):
    out = []
    for _ in range(r.randint(0, hi)):
        if alphabet is None and r.random() < 0.15:
            out.append("\\" + r.choice("\t " + VCHAR))
        else:
            out.append(r.choice(alphabet or QDTEXT))
    return '"' + "".join(out) + '"'


def token_or_qs(r):
    return token(r) if r.random() < 0.6 else quoted_string(r)


def weight(r):
    q = r.choice(["0", "1", "0." + digits(r, 0, 3), "1." + "0" * r.randint(0, 3)])
    return f"{ows(r)};{ows(r)}{r.choice('qQ')}={q}"


def parameters(r, hi=2, allow_empty=True, value=token_or_qs, exclude=("q",)):
    out = ""
    used = set(exclude)
    for _ in range(r.randint(0, hi)):
        name = simple_token(r)
        if name.lower() in used:
            continue
        used.add(name.lower())
        out += f"{ows(r)};{ows(r)}{name}={value(r)}"
    return out


def lst(r, gen, lo=1, hi=4, empties=False):
    "#element; recipients must also accept empty elements"
    parts = [gen(r) for _ in range(r.randint(lo, hi))]
    out = ""
    for i, part in enumerate(parts):
        if i:
            out += f"{ows(r)},{ows(r)}"
            if empties and r.random() < 0.3:
                out += f",{ows(r)}"
        out += part
    if empties and r.random() < 0.2:
        out = "," + ows(r) + out
    if empties and r.random() < 0.2:
        out += ows(r) + ","
    return out


# -- dates ---------------------------------------------------------------------
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
LONGDAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def civil(epoch):
    "epoch seconds -> (y, m, d, H, M, S, weekday) without the time module (proleptic Gregorian)"
    days, rem = divmod(epoch, 86400)
    z = days + 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    d = doy - (153 * mp + 2) // 5 + 1
    m = mp + 3 if mp < 10 else mp - 9
    if m <= 2:
        y += 1
    return y, m, d, rem // 3600, rem % 3600 // 60, rem % 60, (days + 3) % 7


def imf_date(epoch):
    y, m, d, hh, mm, ss, wd = civil(epoch)
    return f"{DAYS[wd]}, {d:02} {MONTHS[m - 1]} {y:04} {hh:02}:{mm:02}:{ss:02} GMT"


def rfc850_date(epoch):
    y, m, d, hh, mm, ss, wd = civil(epoch)
    return f"{LONGDAYS[wd]}, {d:02}-{MONTHS[m - 1]}-{y % 100:02} {hh:02}:{mm:02}:{ss:02} GMT"


def asctime_date(epoch):
    y, m, d, hh, mm, ss, wd = civil(epoch)
    return f"{DAYS[wd]} {MONTHS[m - 1]} {d:2} {hh:02}:{mm:02}:{ss:02} {y:04}"


def epoch(r):
    return r.choice(
        [r.randint(0, 2 ** 31), r.randint(10 ** 9, 18 * 10 ** 8), r.randint(0, 253402300799)]
    )


def http_date(r):
    e = epoch(r)
    pick = r.random()
    if pick < 0.7:
        return imf_date(e)
    if pick < 0.85:
        return asctime_date(e)
    return rfc850_date(r.randint(0, 2 ** 31))


# -- URIs (RFC 3986) -------------------------------------------------------------
def pct(r):
    return "%" + r.choice(HEX) + r.choice(HEX)


def pchar(r):
    if r.random() < 0.1:
        return pct(r)
    return r.choice(UNRESERVED + SUBDELIMS + ":@") if r.random() < 0.4 else r.choice(UNRESERVED)


def segment(r):
    return rep(r, pchar, 0, 6)


def segment_nz(r):
    return rep(r, pchar, 1, 6)


def segment_nz_nc(r):
    return segment_nz(r).replace(":", "-")


def path_abempty(r):
    return "".join("/" + segment(r) for _ in range(r.randint(0, 3)))


def path_absolute(r):
    if r.random() < 0.1:
        return "/"
    return "/" + segment_nz(r) + path_abempty(r)


def query(r):
    return "".join(r.choice([pchar(r), r.choice("/?")]) for _ in range(r.randint(0, 8)))


def h16(r):
    return chars(r, HEX, 1, 4)


def ipv4(r):
    return ".".join(str(r.choice([0, 1, 9, 10, 99, 100, 199, 200, 249, 250, 255])) for _ in range(4))


def ipv6(r):
    "RFC 3986 IPv6address: every one of the nine forms"
    ls32 = (lambda: f"{h16(r)}:{h16(r)}") if r.random() < 0.6 else (lambda: ipv4(r))
    form = r.randint(0, 8)
    if form == 0:
        return "".join(h16(r) + ":" for _ in range(6)) + ls32()
    # form k: [ *(k-1)( h16 ":" ) h16 ] "::" (rest)
    before = r.randint(0, form - 1) if form > 1 else 0
    if form == 1:
        head = ""
    else:
        head = ":".join(h16(r) for _ in range(before))
    after = {1: 5, 2: 4, 3: 3, 4: 2, 5: 1, 6: 0}.get(form)
    if after is not None:
        return head + "::" + "".join(h16(r) + ":" for _ in range(after)) + ls32()
    if form == 7:
        return head + "::" + h16(r)
    return head + "::"


def ipvfuture(r):
    return "v" + chars(r, HEX, 1, 2) + "." + chars(r, UNRESERVED + SUBDELIMS + ":", 1, 6)


def reg_name(r):
    if r.random() < 0.75:
        return ".".join(chars(r, ALPHA + DIGIT, 1, 8) for _ in range(r.randint(1, 3)))
    return "".join(
        pct(r) if r.random() < 0.1 else r.choice(UNRESERVED + SUBDELIMS) for _ in range(r.randint(1, 8))
    )


def host(r):
    pick = r.random()
    if pick < 0.65:
        return reg_name(r)
    if pick < 0.8:
        return ipv4(r)
    if pick < 0.97:
        return "[" + ipv6(r) + "]"
    return "[" + ipvfuture(r) + "]"


def port(r):
    return digits(r, 0, 5)


def userinfo(r):
    return "".join(
        pct(r) if r.random() < 0.05 else r.choice(UNRESERVED + SUBDELIMS + ":")
        for _ in range(r.randint(0, 8))
    )


def authority(r, user=True):
    out = ""
    if user and r.random() < 0.15:
        out += userinfo(r) + "@"
    out += host(r)
    if r.random() < 0.3:
        out += ":" + port(r)
    return out


def http_uri(r, frag=False):
    out = r.choice(["http", "https", "HTTP"]) + "://" + authority(r) + path_abempty(r)
    if r.random() < 0.4:
        out += "?" + query(r)
    if frag and r.random() < 0.3:
        out += "#" + query(r)
    return out


def other_uri(r):
    scheme = r.choice(ALPHA) + chars(r, ALPHA + DIGIT + "+-.", 0, 6)
    hier = r.choice([path_absolute(r), segment_nz(r) + path_abempty(r), "//" + authority(r) + path_abempty(r), ""])
    out = scheme + ":" + hier
    if r.random() < 0.3:
        out += "?" + query(r)
    return out


def uri(r, frag=True):
    out = http_uri(r) if r.random() < 0.8 else other_uri(r)
    if frag and r.random() < 0.2:
        out += "#" + query(r)
    return out


def absolute_uri(r):
    return uri(r, frag=False)


def relative_part(r):
    pick = r.random()
    if pick < 0.15:
        return "//" + authority(r) + path_abempty(r)
    if pick < 0.7:
        return path_absolute(r)
    if pick < 0.92:
        return segment_nz_nc(r) + path_abempty(r)
    return ""


def relative_ref(r):
    out = relative_part(r)
    if r.random() < 0.3:
        out += "?" + query(r)
    if r.random() < 0.2:
        out += "#" + query(r)
    return out


def uri_reference(r):
    return uri(r) if r.random() < 0.5 else relative_ref(r)


def partial_uri(r):
    out = relative_part(r)
    if r.random() < 0.3:
        out += "?" + query(r)
    return out


# -- field-specific productions ----------------------------------------------------
def entity_tag(r, weak=None):
    weak = (r.random() < 0.3) if weak is None else weak
    etagc = "!" + "".join(map(chr, range(0x23, 0x7F)))
    return ("W/" if weak else "") + '"' + chars(r, etagc, 0, 12) + '"'


COMMON_TYPES = [
    "text/html", "text/plain", "text/css", "image/png", "image/svg+xml", "application/json",
    "application/octet-stream", "video/mp4", "font/woff2", "multipart/form-data",
    "application/vnd.api+json", "application/ld+json",
]


def type_name(r):
    return r.choice(ALPHA + DIGIT) + chars(r, ALPHA + DIGIT + "!#$&-^_.+", 0, 10)


def media_type_bare(r):
    return r.choice(COMMON_TYPES) if r.random() < 0.6 else f"{type_name(r)}/{type_name(r)}"


def media_type(r):
    return media_type_bare(r) + parameters(r)


def media_range(r):
    pick = r.random()
    if pick < 0.2:
        return "*/*"
    if pick < 0.4:
        return type_name(r) + "/*"
    return media_type_bare(r)


def accept_elem(r):
    return media_range(r) + parameters(r) + (weight(r) if r.random() < 0.4 else "")


def lang_range(r):
    if r.random() < 0.15:
        return "*"
    return chars(r, ALPHA, 1, 8) + "".join(
        "-" + chars(r, ALPHA + DIGIT, 1, 8) for _ in range(r.randint(0, 2))
    )


def language_tag(r):
    "RFC 5646 langtag subset + privateuse"
    pick = r.random()
    if pick < 0.1:
        return r.choice("xX") + "".join("-" + chars(r, ALPHA + DIGIT, 1, 8) for _ in range(r.randint(1, 3)))
    if pick < 0.2:
        return r.choice(["i-klingon", "en-GB-oed", "zh-min-nan", "art-lojban", "sgn-BE-FR", "zh-xiang", "i-default"])
    out = chars(r, ALPHA, 2, 3)
    if r.random() < 0.15:
        out += "-" + chars(r, ALPHA, 3, 3)
    if r.random() < 0.3:
        out += "-" + chars(r, ALPHA, 4, 4)
    if r.random() < 0.4:
        out += "-" + r.choice([chars(r, ALPHA, 2, 2), chars(r, DIGIT, 3, 3)])
    for _ in range(r.randint(0, 1)):
        out += "-" + r.choice([chars(r, ALPHA + DIGIT, 5, 8), r.choice(DIGIT) + chars(r, ALPHA + DIGIT, 3, 3)])
    if r.random() < 0.15:
        out += "-" + r.choice("abctuwyz0379") + "-" + chars(r, ALPHA + DIGIT, 2, 8)
    if r.random() < 0.15:
        out += "-x-" + chars(r, ALPHA + DIGIT, 1, 8)
    return out


CTEXT = "\t " + "".join(map(chr, range(0x21, 0x28))) + "".join(map(chr, range(0x2A, 0x5C))) + "".join(map(chr, range(0x5D, 0x7F)))


def comment(r, depth=0):
    out = "("
    for _ in range(r.randint(0, 10)):
        pick = r.random()
        if pick < 0.05:
            out += "\\" + r.choice("\t " + VCHAR)
        elif pick < 0.08 and depth < 2:
            out += comment(r, depth + 1)
        else:
            out += r.choice(CTEXT)
    return out + ")"


def product(r):
    return token(r) + (("/" + token(r)) if r.random() < 0.7 else "")


def products(r):
    out = product(r)
    for _ in range(r.randint(0, 3)):
        out += rws(r) + (product(r) if r.random() < 0.6 else comment(r))
    return out


def token68(r):
    return chars(r, ALPHA + DIGIT + "-._~+/", 1, 16) + "=" * r.randint(0, 2)


def auth_param(r):
    return f"{simple_token(r)}{r.choice(['', '', ' '])}={r.choice(['', '', ' '])}{token_or_qs(r)}"


def credentials(r):
    out = simple_token(r)
    pick = r.random()
    if pick < 0.1:
        return out
    out += " " * r.randint(1, 2)
    if pick < 0.55:
        return out + token68(r)
    used, parts = set(), []
    for _ in range(r.randint(1, 3)):
        param = auth_param(r)
        name = param.split("=")[0].strip().lower()
        if name not in used:
            used.add(name)
            parts.append(param)
    return out + f"{ows(r)},{ows(r)}".join(parts)


def cc_directive(r):
    name = simple_token(r)
    return name + (("=" + token_or_qs(r)) if r.random() < 0.4 else "")


def via_elem(r):
    out = (token(r) + "/" if r.random() < 0.4 else "") + r.choice(["1.0", "1.1", "2", "3"])
    out += rws(r) + (token(r) if r.random() < 0.4 else host(r) + (":" + port(r) if r.random() < 0.3 else ""))
    if r.random() < 0.3:
        out += rws(r) + comment(r)
    return out


def upgrade_elem(r):
    return token(r) + (("/" + token(r)) if r.random() < 0.4 else "")


def range_value(r):
    if r.random() < 0.2:
        unit = simple_token(r)
    else:
        unit = "bytes"
    specs = []
    for _ in range(r.randint(1, 3)):
        pick = r.random()
        if pick < 0.5:
            a = r.randint(0, 10000)
            specs.append(f"{a}-{a + r.randint(0, 10000)}")
        elif pick < 0.8:
            specs.append(f"{r.randint(0, 10000)}-")
        else:
            specs.append(f"-{r.randint(1, 10000)}")
    return unit + "=" + ",".join(ows(r) + s if i else s for i, s in enumerate(specs))


def content_range(r):
    a = r.randint(0, 10 ** 6)
    z = a + r.randint(0, 10 ** 6)
    pick = r.random()
    if pick < 0.6:
        return f"bytes {a}-{z}/{z + r.randint(1, 1000)}"
    if pick < 0.8:
        return f"bytes {a}-{z}/*"
    return f"bytes */{z}"


def disposition(r):
    out = r.choice(["attachment", "inline", token(r)])
    used = set()
    for _ in range(r.randint(0, 2)):
        pick = r.random()
        if pick < 0.4:
            name, val = "filename", token_or_qs(r)
        elif pick < 0.7:
            name, val = "filename*", "UTF-8'" + r.choice(["", "en"]) + "'" + rep(r, lambda r: pct(r) if r.random() < .3 else r.choice(ALPHA + DIGIT + "!#$&+-.^_`|~"), 0, 8)
        else:
            name, val = simple_token(r), token_or_qs(r)
        if name.lower() in used:
            continue
        used.add(name.lower())
        out += f"{ows(r)};{ows(r)}{name}{r.choice(['', '', ' '])}={r.choice(['', '', ' '])}{val}"
    return out


def link_value(r):
    out = "<" + uri_reference(r) + ">"
    used = set()
    for _ in range(r.randint(0, 3)):
        name = r.choice(["rel", "title", "type", "anchor", simple_token(r)])
        if name.lower() in used:
            continue
        used.add(name.lower())
        if name == "rel":
            val = r.choice([simple_token(r).lower(), '"' + " ".join(chars(r, ALPHA.lower(), 1, 5) for _ in range(r.randint(1, 2))) + '"'])
        elif name == "anchor":
            val = '"' + uri_reference(r) + '"'
        elif name == "type":
            val = '"' + media_type_bare(r) + '"'
        else:
            val = token_or_qs(r)
        out += f"{ows(r)};{ows(r)}{name}={val}"
    return out


def alt_svc(r):
    if r.random() < 0.1:
        return "clear"
    return lst(r, alt_value, 1, 2)


def alt_value(r):
    proto = r.choice(["h2", "h3", "h3-29", "w%3Dx%3Ay", simple_token(r)])
    out = f'{proto}="{host(r) if r.random() < .4 else ""}:{digits(r, 1, 5)}"'
    used = set()
    for _ in range(r.randint(0, 2)):
        name = r.choice(["ma", "persist", simple_token(r)])
        if name in used:
            continue
        used.add(name)
        val = {"ma": nonneg(r), "persist": "1"}.get(name) or token_or_qs(r)
        out += f"{ows(r)};{ows(r)}{name}={val}"
    return out


def server_timing(r):
    out = token(r)
    used = set()
    for _ in range(r.randint(0, 2)):
        name = r.choice(["dur", "desc", simple_token(r)])
        if name in used:
            continue
        used.add(name)
        val = f"{r.randint(0, 9999)}.{r.randint(0, 9)}" if name == "dur" else token_or_qs(r)
        out += f"{ows(r)};{ows(r)}{name}={val}"
    return out


def hsts(r):
    parts = ["max-age=" + nonneg(r)]
    if r.random() < 0.5:
        parts.append("includeSubDomains")
    if r.random() < 0.3:
        parts.append("preload")
    return "; ".join(parts)


def mailbox(r):
    local = ".".join(chars(r, ALPHA + DIGIT, 1, 6) for _ in range(r.randint(1, 2)))
    addr = f"{local}@{reg_name(r) if r.random() < .001 else '.'.join(chars(r, ALPHA, 1, 6) for _ in range(2))}"
    if r.random() < 0.3:
        return f"{chars(r, ALPHA, 1, 6)} {chars(r, ALPHA, 1, 6)} <{addr}>"
    return addr


def origin(r):
    if r.random() < 0.15:
        return "null"
    return f"{r.choice(['http', 'https'])}://{host(r)}" + (f":{r.randint(1, 65535)}" if r.random() < .4 else "")


def te_elem(r):
    if r.random() < 0.3:
        return "trailers"
    return simple_token(r) + parameters(r, 1) + (weight(r) if r.random() < .4 else "")


def tenc_elem(r):
    return r.choice(["chunked", "gzip", "deflate", "compress", simple_token(r)]) + (parameters(r, 1) if r.random() < .2 else "")


def b64(r, n=16):
    import base64  # pylint: disable=import-outside-toplevel

    return base64.b64encode(bytes(r.randrange(256) for _ in range(n))).decode()


# -- structured fields (RFC 9651) ----------------------------------------------------
LCALPHA = "abcdefghijklmnopqrstuvwxyz"


def sf_key(r):
    return r.choice(LCALPHA + "*") + chars(r, LCALPHA + DIGIT + "_-.*", 0, 8)


def sf_string(r):
    out = ""
    for _ in range(r.randint(0, 10)):
        c = r.choice(" " + VCHAR)
        out += "\\" + c if c in '"\\' else c
    return f'"{out}"'


def sf_token(r):
    return r.choice(ALPHA + "*") + chars(r, TCHAR + ":/", 0, 8)


def sf_integer(r):
    return ("-" if r.random() < 0.3 else "") + digits(r, 1, r.choice([1, 3, 15]))


def sf_decimal(r):
    return ("-" if r.random() < 0.3 else "") + digits(r, 1, 12) + "." + digits(r, 1, 3)


def sf_bytes(r):
    return ":" + b64(r, r.randint(0, 12)) + ":"


def sf_date(r):
    return "@" + ("-" if r.random() < 0.1 else "") + str(r.randint(0, 4 * 10 ** 9))


def sf_display(r):
    out = ""
    for _ in range(r.randint(0, 6)):
        c = r.choice(" " + VCHAR + "é漢")
        if c in '%"' or ord(c) > 0x7E:
            out += "".join(f"%{x:02x}" for x in c.encode())
        else:
            out += c
    return f'%"{out}"'


def sf_bare(r):
    return r.choice(
        [sf_string, sf_token, sf_integer, sf_decimal, sf_bytes, sf_date, sf_display, lambda r: r.choice(["?0", "?1"])]
    )(r)


def sf_params(r, hi=2):
    out, used = "", set()
    for _ in range(r.randint(0, hi)):
        key = sf_key(r)
        if key in used:
            continue
        used.add(key)
        out += ";" + r.choice(["", " "]) + key + (("=" + sf_bare(r)) if r.random() < 0.7 else "")
    return out


def sf_item(r):
    return sf_bare(r) + sf_params(r)


def sf_inner(r):
    items = [sf_item(r) for _ in range(r.randint(0, 3))]
    return "(" + (" " * r.randint(0, 1)) + " ".join(items) + (" " * r.randint(0, 1)) + ")" + sf_params(r, 1)


def sf_list(r, lo=1, hi=3):
    return lst(r, lambda r: sf_inner(r) if r.random() < 0.2 else sf_item(r), lo, hi)


def sf_dict(r, lo=1, hi=3):
    out, used = [], set()
    for _ in range(r.randint(lo, hi)):
        key = sf_key(r)
        if key in used:
            continue
        used.add(key)
        if r.random() < 0.3:
            out.append(key + sf_params(r, 1))
        else:
            out.append(key + "=" + (sf_inner(r) if r.random() < 0.2 else sf_item(r)))
    return f"{r.choice([',', ', ', ' , '])}".join(out)


def timegm(y, m, d, hh, mm, ss):
    return calendar.timegm((y, m, d, hh, mm, ss))
