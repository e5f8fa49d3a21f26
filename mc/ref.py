"""Reference model of the GS1 EPC Tag Data Standard rules that epcpy implements.

Deliberately boring: hand-written scanners, tables as plain data, bit layouts as
concatenations.  Shares no code, table or regular expression with epcpy.

An identity is a tuple (scheme, f1, f2, ...) of the raw URI components.
Every function returns None for "refused" (epcpy: ConvertException).
"""

DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = "abcdefghijklmnopqrstuvwxyz"
# GS1 AI encodable character set 82
CSET82 = DIGITS + UPPER + LOWER + "!\"%&'()*+,-./:;<=>?_"
ESCAPED = {'"': "%22", "%": "%25", "&": "%26", "/": "%2F", "<": "%3C", ">": "%3E", "?": "%3F"}
RAW75 = "".join(c for c in CSET82 if c not in ESCAPED)
_CSET82 = frozenset(CSET82)
_RAW75 = frozenset(RAW75)
_DIG = frozenset(DIGITS)
_HEX = frozenset("0123456789abcdefABCDEF")
CAGE_CHARS = DIGITS + "ABCDEFGHJKLMNPQRSTUVWXYZ"
_CAGE = frozenset(CAGE_CHARS)
CPI_PLAIN = DIGITS + UPPER + "-"
_CPI_PLAIN = frozenset(CPI_PLAIN)

ALL = ("adi bic cpi gdti giai gid ginc grai gsin gsrn gsrnp imovn itip lgtin pgln sgcn "
       "sgln sgtin sscc upui usdod").split()
TAG = "adi cpi gdti giai gid grai gsrn gsrnp itip sgcn sgln sgtin sscc usdod".split()
ELEM = ("cpi gdti giai ginc grai gsin gsrn gsrnp itip lgtin pgln sgcn sgln sgtin sscc upui").split()
KEYED = "gdti giai ginc grai gsin gsrn gsrnp lgtin pgln sgcn sgln sgtin sscc".split()

# coding scheme -> (scheme, header, total bits or None)
CODINGS = {
    "sgtin-96": ("sgtin", "00110000", 96), "sgtin-198": ("sgtin", "00110110", 198),
    "sscc-96": ("sscc", "00110001", 96),
    "sgln-96": ("sgln", "00110010", 96), "sgln-195": ("sgln", "00111001", 195),
    "grai-96": ("grai", "00110011", 96), "grai-170": ("grai", "00110111", 170),
    "giai-96": ("giai", "00110100", 96), "giai-202": ("giai", "00111000", 202),
    "gsrn-96": ("gsrn", "00101101", 96), "gsrnp-96": ("gsrnp", "00101110", 96),
    "gdti-96": ("gdti", "00101100", 96), "gdti-174": ("gdti", "00111110", 174),
    "cpi-96": ("cpi", "00111100", 96), "cpi-var": ("cpi", "00111101", None),
    "sgcn-96": ("sgcn", "00111111", 96),
    "itip-110": ("itip", "01000000", 110), "itip-212": ("itip", "01000001", 212),
    "gid-96": ("gid", "00110101", 96),
    "usdod-96": ("usdod", "00101111", 96),
    "adi-var": ("adi", "00111011", None),
}
HEADER = {h: c for c, (_, h, _) in CODINGS.items()}
OF_SCHEME = {s: [c for c in CODINGS if CODINGS[c][0] == s] for s in TAG}


def filters(coding):
    """Legal filter values of a coding scheme as strings; GID has none."""
    s = CODINGS[coding][0]
    if s == "gid":
        return [None]
    n = {"adi": 64, "usdod": 16}.get(s, 8)
    return [str(i) for i in range(n)]


# ---------------------------------------------------------------- strings

def digits(s):
    return s != "" and all(c in _DIG for c in s)


def numeric(s):
    return digits(s) and (s == "0" or s[0] != "0")


def unescape(s):
    """Decode a GS3A3 component; None if it is not one."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == "%":
            h = s[i + 1:i + 3]
            if len(h) != 2 or h[0] not in _HEX or h[1] not in _HEX:
                return None
            c = chr(int(h, 16))
            if c not in _CSET82:
                return None
            i += 3
        elif c in _RAW75:
            i += 1
        else:
            return None
        out.append(c)
    return "".join(out)


def escape(s):
    return "".join(ESCAPED.get(c, c) for c in s)


def unescape6(s):
    """Decode a CPI/ADI component (A-Z 0-9 - %2F %23)."""
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c == "%":
            e = s[i:i + 3]
            if e == "%2F":
                c = "/"
            elif e == "%23":
                c = "#"
            else:
                return None
            i += 3
        elif c in _CPI_PLAIN:
            i += 1
        else:
            return None
        out.append(c)
    return "".join(out)


def escape6(s):
    return s.replace("#", "%23").replace("/", "%2F")


def check_digit(ds):
    total = 0
    w = 3
    for c in reversed(ds):
        total += w * (ord(c) - 48)
        w = 4 - w
    return str(-total % 10)


# ---------------------------------------------------------------- identities

# scheme -> (number of digits prefix+reference, serial max length)
_PREFIX_REF = {"sgtin": 13, "lgtin": 13, "upui": 13, "sscc": 17, "gsrn": 17, "gsrnp": 17,
               "gsin": 16, "pgln": 12, "sgln": 12, "grai": 12, "gdti": 12, "sgcn": 12}
_SERIAL = {"sgtin": 20, "lgtin": 20, "upui": 28, "sgln": 20, "grai": 16, "gdti": 17}


def prefix_of(scheme):
    return "urn:epc:class:lgtin:" if scheme == "lgtin" else "urn:epc:id:%s:" % scheme


def uri(ident):
    return prefix_of(ident[0]) + ".".join(ident[1:])


def parse_uri(scheme, text):
    p = prefix_of(scheme)
    if not text.startswith(p):
        return None
    return parse_body(scheme, text[len(p):])


def parse_any(text):
    for s in ALL:
        i = parse_uri(s, text)
        if i:
            return i
    return None


def parse_body(scheme, body):
    if scheme in _PREFIX_REF:
        if scheme in _SERIAL or scheme == "sgcn":
            f = body.split(".", 2)
            if len(f) != 3:
                return None
        else:
            f = body.split(".")
            if len(f) != 2:
                return None
        c, r = f[0], f[1]
        if not digits(c) or not 6 <= len(c) <= 12 or not (r == "" or digits(r)):
            return None
        if len(c) + len(r) != _PREFIX_REF[scheme]:
            return None
        if scheme == "sgcn":
            if not digits(f[2]) or len(f[2]) > 12:
                return None
        elif scheme in _SERIAL:
            s = unescape(f[2])
            if not s or len(s) > _SERIAL[scheme]:
                return None
        return (scheme,) + tuple(f)
    if scheme in ("giai", "ginc"):
        f = body.split(".", 1)
        if len(f) != 2 or not digits(f[0]) or not 6 <= len(f[0]) <= 12:
            return None
        s = unescape(f[1])
        if not s or len(f[0]) + len(s) > 30:
            return None
        return (scheme, f[0], f[1])
    if scheme == "cpi":
        f = body.split(".")
        if len(f) != 3 or not digits(f[0]) or not 6 <= len(f[0]) <= 12:
            return None
        s = unescape6(f[1])
        if not s or len(f[0]) + len(s) > 30 or not numeric(f[2]) or len(f[2]) > 12:
            return None
        return (scheme,) + tuple(f)
    if scheme == "itip":
        f = body.split(".", 4)
        if len(f) != 5 or not all(digits(x) for x in f[:4]) or not 6 <= len(f[0]) <= 12:
            return None
        if len(f[0]) + len(f[1]) != 13 or len(f[2]) != 2 or len(f[3]) != 2:
            return None
        s = unescape(f[4])
        if not s or len(s) > 20:
            return None
        return (scheme,) + tuple(f)
    if scheme == "gid":
        f = body.split(".")
        if len(f) != 3 or not all(numeric(x) for x in f):
            return None
        if int(f[0]) >= 1 << 28 or int(f[1]) >= 1 << 24 or int(f[2]) >= 1 << 36:
            return None
        return (scheme,) + tuple(f)
    if scheme == "usdod":
        f = body.split(".")
        if len(f) != 2 or not _cage(f[0]) or not numeric(f[1]) or int(f[1]) >= 1 << 36:
            return None
        return (scheme,) + tuple(f)
    if scheme == "adi":
        f = body.split(".")
        if len(f) != 3 or not _cage(f[0]):
            return None
        part, ser = unescape6(f[1]), unescape6(f[2])
        if part is None or not ser or "#" in part or "#" in ser[1:] or ser == "#":
            return None
        if len(part) > 32 or len(ser) > 30:
            return None
        return (scheme,) + tuple(f)
    if scheme == "bic":
        if (len(body) == 11 and all(c in _CAGE and c not in _DIG for c in body[:3])
                and body[3] in "JUZ" and digits(body[4:])):
            return (scheme, body)
        return None
    if scheme == "imovn":
        return (scheme, body) if len(body) == 7 and digits(body) else None
    raise KeyError(scheme)


def _cage(s):
    return 5 <= len(s) <= 6 and all(c in _CAGE for c in s)


def canonical(ident):
    """The same identity with canonical percent-escapes."""
    s = ident[0]
    if s in _SERIAL or s in ("giai", "ginc", "itip"):
        return ident[:-1] + (escape(unescape(ident[-1])),)
    return ident


# ---------------------------------------------------------------- GS1 keys / element strings

def gtin14(ident):
    _, c, r = ident[:3]
    d = r[0] + c + r[1:]
    return d + check_digit(d)


def key(ident, gtin_len=14):
    s = ident[0]
    if s not in KEYED:
        return None
    c, r = ident[1], ident[2]
    if s in ("sgtin", "lgtin"):
        g = gtin14(ident)
        drop = 14 - gtin_len
        if g[:drop] != "0" * drop:
            return None
        return g[drop:]
    if s == "sscc":
        d = r[0] + c + r[1:]
        return d + check_digit(d)
    if s in ("giai", "ginc"):
        return c + unescape(r)
    k = c + r + check_digit(c + r)
    if s in ("grai", "gdti"):
        k += unescape(ident[3])
    elif s == "sgcn":
        k += ident[3]
    return k


def elem(ident):
    s = ident[0]
    if s == "sgtin":
        return "(01)" + gtin14(ident) + "(21)" + unescape(ident[3])
    if s == "lgtin":
        return "(01)" + gtin14(ident) + "(10)" + unescape(ident[3])
    if s == "upui":
        return "(01)" + gtin14(ident) + "(235)" + unescape(ident[3])
    if s == "itip":
        return "(8006)" + gtin14(ident) + ident[3] + ident[4] + "(21)" + unescape(ident[5])
    if s == "cpi":
        return "(8010)" + ident[1] + unescape6(ident[2]) + "(8011)" + ident[3]
    if s == "sgln":
        return "(414)" + key(ident) + "(254)" + unescape(ident[3])
    if s == "grai":
        return "(8003)0" + key(ident)
    ai = {"sscc": "00", "giai": "8004", "gsrn": "8018", "gsrnp": "8017", "gdti": "253",
          "sgcn": "255", "ginc": "401", "gsin": "402", "pgln": "417"}.get(s)
    if ai is None:
        return None
    return "(" + ai + ")" + key(ident)


def parse_elem(scheme, text, length):
    """Element string -> identity.  The check digit in the text is not judged (see lenient_elem)."""
    def take(ai):
        return text[len(ai):] if text.startswith(ai) else None

    def split_gtin(ds, n):
        # ds: n digits + check digit, indicator first
        if len(ds) != n + 1 or not digits(ds):
            return None
        return ds[1:1 + length], ds[0] + ds[1 + length:n]

    def split_plain(ds, n):
        if len(ds) != n + 1 or not digits(ds):
            return None
        return ds[:length], ds[length:n]

    if scheme not in ELEM or not 6 <= length <= 12:
        return None

    def serial(x, n):
        return escape(x) if 1 <= len(x) <= n and all(c in _CSET82 for c in x) else None

    if scheme in ("sgtin", "lgtin", "upui"):
        b = take("(01)")
        ai = {"sgtin": "(21)", "lgtin": "(10)", "upui": "(235)"}[scheme]
        if b is None or b[14:14 + len(ai)] != ai:
            return None
        cr = split_gtin(b[:14], 13)
        s = serial(b[14 + len(ai):], _SERIAL[scheme])
        body = cr and s and (cr[0], cr[1], s)
    elif scheme == "itip":
        b = take("(8006)")
        if b is None or b[18:22] != "(21)" or not digits(b[14:18]) or len(b[14:18]) != 4:
            return None
        cr = split_gtin(b[:14], 13)
        s = serial(b[22:], 20)
        body = cr and s and (cr[0], cr[1], b[14:16], b[16:18], s)
    elif scheme == "sscc":
        b = take("(00)")
        body = b is not None and split_gtin(b, 17)
    elif scheme in ("gsrn", "gsrnp", "gsin", "pgln"):
        b = take({"gsrn": "(8018)", "gsrnp": "(8017)", "gsin": "(402)", "pgln": "(417)"}[scheme])
        body = b is not None and split_plain(b, _PREFIX_REF[scheme])
    elif scheme == "sgln":
        b = take("(414)")
        if b is None or b[13:18] != "(254)":
            return None
        cr = split_plain(b[:13], 12)
        s = serial(b[18:], 20)
        body = cr and s and (cr[0], cr[1], s)
    elif scheme in ("grai", "gdti", "sgcn"):
        b = take({"grai": "(8003)0", "gdti": "(253)", "sgcn": "(255)"}[scheme])
        if b is None:
            return None
        cr = split_plain(b[:13], 12)
        s = serial(b[13:], {"grai": 16, "gdti": 17, "sgcn": 12}[scheme])
        body = cr and s and (cr[0], cr[1], s)
    elif scheme in ("giai", "ginc"):
        b = take({"giai": "(8004)", "ginc": "(401)"}[scheme])
        if b is None:
            return None
        s = serial(b[length:], 30)
        body = s and digits(b[:length]) and (b[:length], s)
    elif scheme == "cpi":
        b = take("(8010)")
        if b is None or b.count("(8011)") != 1:
            return None
        a, n = b.split("(8011)")
        r = a[length:]
        if not r or any(c not in _CPI_PLAIN and c not in "#/" for c in r):
            return None
        body = (a[:length], escape6(r), n)
    if not body:
        return None
    return parse_body(scheme, ".".join(body))


def parse_any_elem(text, length):
    for s in ELEM:
        i = parse_elem(s, text, length)
        if i:
            return i
    return None


# ---------------------------------------------------------------- tag encoding

M = {12: 40, 11: 37, 10: 34, 9: 30, 8: 27, 7: 24, 6: 20}
P = {12: 0, 11: 1, 10: 2, 9: 3, 8: 4, 7: 5, 6: 6}
# company prefix length -> (reference bits, reference digits)
_GTIN = {12: (4, 1), 11: (7, 2), 10: (10, 3), 9: (14, 4), 8: (17, 5), 7: (20, 6), 6: (24, 7)}
_LOC = {12: (1, 0), 11: (4, 1), 10: (7, 2), 9: (11, 3), 8: (14, 4), 7: (17, 5), 6: (21, 6)}
_SER17 = {12: (18, 5), 11: (21, 6), 10: (24, 7), 9: (28, 8), 8: (31, 9), 7: (34, 10), 6: (38, 11)}
_RET = {12: (4, 0), 11: (7, 1), 10: (10, 2), 9: (14, 3), 8: (17, 4), 7: (20, 5), 6: (24, 6)}
_GIAI96 = {12: (42, 13), 11: (45, 14), 10: (48, 15), 9: (52, 16), 8: (55, 17), 7: (58, 18), 6: (62, 19)}
_GIAI202 = {12: (148, 18), 11: (151, 19), 10: (154, 20), 9: (158, 21), 8: (161, 22), 7: (164, 23), 6: (168, 24)}
_CPI96 = {12: (11, 3), 11: (14, 4), 10: (17, 5), 9: (21, 6), 8: (24, 7), 7: (27, 8), 6: (31, 9)}
REF_TABLE = {"sgtin": _GTIN, "itip": _GTIN, "grai": _RET, "sgln": _LOC, "gdti": _LOC, "sgcn": _LOC,
             "sscc": _SER17, "gsrn": _SER17, "gsrnp": _SER17,
             "giai-96": _GIAI96, "giai-202": _GIAI202, "cpi-96": _CPI96}
INT_SERIAL = {"sgtin-96": 38, "sgln-96": 41, "grai-96": 38, "gdti-96": 41, "itip-110": 38}
STR_SERIAL = {"sgtin-198": 20, "sgln-195": 20, "grai-170": 16, "gdti-174": 17, "itip-212": 20}


def int_bits(v, n):
    v = int(v)
    assert 0 <= v < 1 << n
    return bin(v)[2:].rjust(n, "0")


def admits(ident, coding):
    """Can this coding scheme represent this (valid) identity?"""
    if CODINGS[coding][0] != ident[0]:
        return False
    if coding in INT_SERIAL:
        s = ident[-1]
        return numeric(s) and int(s) < 1 << INT_SERIAL[coding]
    if coding == "giai-96":
        n, k = _GIAI96[len(ident[1])]
        s = ident[2]
        return numeric(s) and len(s) <= k and int(s) < 1 << n
    if coding == "cpi-96":
        n, k = _CPI96[len(ident[1])]
        s = ident[2]
        return (numeric(s) and len(s) <= k and int(s) < 1 << n and int(ident[3]) < 1 << 31)
    return True


def six(s):
    out = ""
    for c in s:
        o = ord(c)
        out += int_bits(o - 64 if 65 <= o <= 90 else o, 6)
    return out


def seven(s):
    return "".join(int_bits(ord(c), 7) for c in s)


def bits(ident, coding, filt):
    """The TDS bit string, or None when the coding scheme cannot hold the identity."""
    if not admits(ident, coding):
        return None
    scheme, header, size = CODINGS[coding]
    if scheme == "gid":
        return header + int_bits(ident[1], 28) + int_bits(ident[2], 24) + int_bits(ident[3], 36)
    if scheme == "usdod":
        cage = ident[1].rjust(6)
        return (header + int_bits(filt, 4) + "".join(int_bits(ord(c), 8) for c in cage)
                + int_bits(ident[2], 36))
    if scheme == "adi":
        cage = ident[1].rjust(6)
        return (header + int_bits(filt, 6)
                + "".join(int_bits(32, 6) if c == " " else six(c) for c in cage)
                + six(unescape6(ident[2])) + "000000" + six(unescape6(ident[3])) + "000000")
    c = ident[1]
    out = header + int_bits(filt, 3) + int_bits(P[len(c)], 3) + int_bits(c, M[len(c)])
    if coding == "giai-202":
        out += seven(unescape(ident[2])).ljust(_GIAI202[len(c)][0], "0")
    elif coding == "cpi-var":
        out += six(unescape6(ident[2])) + "000000" + int_bits(ident[3], 40)
    else:
        n, _ = REF_TABLE[coding if coding in REF_TABLE else scheme][len(c)]
        out += int_bits(ident[2] or "0", n)
        if coding == "cpi-96":
            out += int_bits(ident[3], 31)
        elif coding == "sgcn-96":
            out += int_bits("1" + ident[3], 41)
        elif scheme in ("sscc", "gsrn", "gsrnp"):
            out += "0" * 24 if scheme != "sscc" else "0" * 24
        elif coding != "giai-96":
            if scheme == "itip":
                out += int_bits(ident[3], 7) + int_bits(ident[4], 7)
            if coding in INT_SERIAL:
                out += int_bits(ident[-1], INT_SERIAL[coding])
            else:
                out += seven(unescape(ident[-1])).ljust(7 * STR_SERIAL[coding], "0")
    if size is not None:
        out = out.ljust(size, "0")
        assert len(out) == size, (ident, coding, len(out))
    return out


def hexa(b):
    b = b + "0" * (-len(b) % 16)
    return "".join("0123456789ABCDEF"[int(b[i:i + 4], 2)] for i in range(0, len(b), 4))


_B64 = UPPER + LOWER + DIGITS + "+/"


def b64(b):
    b = b + "0" * (-len(b) % 16)
    nbytes = len(b) // 8
    b = b + "0" * (-len(b) % 6)
    s = "".join(_B64[int(b[i:i + 6], 2)] for i in range(0, len(b), 6))
    return s + "=" * (-nbytes % 3)


def tag_uri(ident, coding, filt):
    if not admits(ident, coding):
        return None
    body = ".".join(ident[1:])
    return "urn:epc:tag:" + coding + ":" + (body if filt is None else filt + "." + body)


def parse_tag_uri(text):
    """-> (coding, filter, identity) or None"""
    p = "urn:epc:tag:"
    if not text.startswith(p):
        return None
    coding, colon, rest = text[len(p):].partition(":")
    if not colon or coding not in CODINGS:
        return None
    scheme = CODINGS[coding][0]
    filt = None
    if scheme != "gid":
        filt, dot, rest = rest.partition(".")
        if not dot or filt not in filters(coding):
            return None
    ident = parse_body(scheme, rest)
    if ident is None or not admits(ident, coding):
        return None
    return coding, filt, ident


# ---------------------------------------------------------------- tag decoding

_SIX = {35: "#", 45: "-", 47: "/"}
for _c in DIGITS:
    _SIX[ord(_c)] = _c
for _c in UPPER:
    _SIX[ord(_c) - 64] = _c

UNSPEC = "unspecified"  # only for bits TDS leaves without meaning


def _str7(b):
    """7-bit string field -> text; None when malformed"""
    out = ""
    ended = False
    n = len(b) // 7 * 7
    for i in range(0, n, 7):
        v = int(b[i:i + 7], 2)
        if v == 0:
            ended = True
        elif ended or chr(v) not in _CSET82:
            return None
        else:
            out += chr(v)
    if "1" in b[n:]:
        return UNSPEC, out
    return out


def _str6(b, start, limit):
    """terminated 6-bit string -> (text, position after terminator) or None"""
    out = ""
    i = start
    while True:
        g = b[i:i + 6]
        if len(g) < 6:
            return None
        i += 6
        v = int(g, 2)
        if v == 0:
            return out, i
        if v not in _SIX or len(out) >= limit:
            return None
        out += _SIX[v]


def decode(b):
    """bits -> (coding, filter, identity); None if refused.  Last item True when TDS gives
    some nonzero filler bits no meaning (then refusing is acceptable too)."""
    if any(c not in "01" for c in b) or b[:8] not in HEADER:
        return None
    coding = HEADER[b[:8]]
    scheme, _, size = CODINGS[coding]
    if size is not None:
        if len(b) < size:
            return None
        b = b[:size]
    loose = False
    if scheme == "gid":
        f = (str(int(b[8:36], 2)), str(int(b[36:60], 2)), str(int(b[60:96], 2)))
        return coding, None, (scheme,) + f, False
    if scheme == "usdod":
        cage = "".join(chr(int(b[12 + 8 * i:20 + 8 * i], 2)) for i in range(6))
        if cage[0] == " ":
            cage = cage[1:]
        if not _cage(cage):
            return None
        return coding, str(int(b[8:12], 2)), (scheme, cage, str(int(b[60:96], 2))), False
    if scheme == "adi":
        if len(b) < 50:
            return None
        cage = ""
        for i in range(6):
            v = int(b[14 + 6 * i:20 + 6 * i], 2)
            if v == 32 and i == 0:
                continue
            if v not in _SIX:
                return None
            cage += _SIX[v]
        r = _str6(b, 50, 32)
        if r is None:
            return None
        part, i = r
        r = _str6(b, i, 30)
        if r is None:
            return None
        ident = parse_body(scheme, ".".join((cage, escape6(part), escape6(r[0]))))
        return ident and (coding, str(int(b[8:14], 2)), ident, False)
    if len(b) < 14:
        return None
    filt = str(int(b[8:11], 2))
    p = int(b[11:14], 2)
    if p > 6:
        return None
    L = 12 - p
    m = M[L]
    if len(b) < 14 + m:
        return None
    c = int(b[14:14 + m], 2)
    if c >= 10 ** L:
        return None
    c = str(c).rjust(L, "0")
    o = 14 + m
    if coding == "cpi-var":
        r = _str6(b, o, 30 - L)
        if r is None or len(b) < r[1] + 40:
            return None
        f = (c, escape6(r[0]), str(int(b[r[1]:r[1] + 40], 2)))
    elif coding == "giai-202":
        s = _str7(b[o:o + _GIAI202[L][0]])
        if isinstance(s, tuple):
            loose, s = True, s[1]
        if s is None:
            return None
        f = (c, escape(s))
    else:
        n, k = REF_TABLE[coding if coding in REF_TABLE else scheme][L]
        d = int(b[o:o + n], 2)
        o += n
        if d >= 10 ** k:
            return None
        if coding in ("giai-96", "cpi-96"):
            f = (c, str(d))
        else:
            f = (c, str(d).rjust(k, "0") if k else "")
        if coding == "cpi-96":
            f += (str(int(b[o:o + 31], 2)),)
        elif coding == "sgcn-96":
            s = str(int(b[o:o + 41], 2))
            if s[0] != "1" or len(s) < 2:
                return None
            f += (s[1:],)
        elif scheme not in ("sscc", "gsrn", "gsrnp", "giai"):
            if scheme == "itip":
                x, y = int(b[o:o + 7], 2), int(b[o + 7:o + 14], 2)
                o += 14
                if x > 99 or y > 99:
                    return None
                f += (str(x).rjust(2, "0"), str(y).rjust(2, "0"))
            if coding in INT_SERIAL:
                f += (str(int(b[o:o + INT_SERIAL[coding]], 2)),)
            else:
                s = _str7(b[o:o + 7 * STR_SERIAL[coding]])
                if isinstance(s, tuple):
                    loose, s = True, s[1]
                if s is None:
                    return None
                f += (escape(s),)
    ident = parse_body(scheme, ".".join(f))
    return ident and (coding, filt, ident, loose)


# ---------------------------------------------------------------- any source -> GS1 key

def source_ident(text, length=None):
    """-> (identity a source string denotes or None, lax) for get_gs1_key; lax when refusing is fine too"""
    i = parse_any(text)
    if i:
        return i, False
    if length and text[:1] == "(":
        i = parse_any_elem(text, length)
        return i, i is not None and elem(i) != text
    r = parse_tag_uri(text)
    if r:
        return r[2], False
    p = "urn:epc:idpat:"
    if text.startswith(p):
        return parse_any("urn:epc:id:" + text[len(p):]), False
    if text[:8] in HEADER:
        r = decode(text)
    elif text and all(c in _HEX for c in text):
        r = decode("".join(int_bits(int(c, 16), 4) for c in text))
    return (r and r[2], bool(r and r[3]))
