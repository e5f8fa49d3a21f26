"""Bounded spaces of identities.  Every generator enumerates all members, in a fixed order."""
from functools import lru_cache
from itertools import combinations, product

from mc import ref

LENGTHS = (6, 7, 8, 9, 10, 11, 12)
R24 = "0127890AMZamz%/\"&<>?()*.:-"[:26]
R12 = "09Az%/\".:(-*"
STRINGY = ("sgtin", "sgln", "grai", "gdti", "giai", "itip", "lgtin", "upui", "ginc")
PREFIXED = ("sgtin", "lgtin", "upui", "sscc", "gsrn", "gsrnp", "gsin", "pgln", "sgln", "grai", "gdti", "sgcn",
            "itip", "giai", "ginc", "cpi")
REF_DIGITS = dict(ref._PREFIX_REF, itip=13)
SERIAL_MAX = dict(ref._SERIAL, itip=20)
CORE_SERIALS = ("0", "1", "9", "10", "400", "6789", "274877906943", "274877906944", "2199023255551",
                "2199023255552", "007", "A", "32a%2Fb", "a.b:c", "%25%22%26%2F%3C%3E%3F")


def uniq(xs):
    return list(dict.fromkeys(xs))


@lru_cache(None)
def nums(n, level):
    """digit strings of length n"""
    if n == 0:
        return ("",)
    asc = ("1234567890" * 4)[:n]
    out = ["0" * n, "9" * n, asc, asc[::-1], "1" + "0" * (n - 1), "0" * (n - 1) + "1", "5" * n,
           ("90" * n)[:n], ("09" * n)[:n], ("0" + "8641975302" * 3)[:n]]
    if level:
        out += [d * n for d in "12345678"]
        for i in range(n):
            out += ["0" * i + "1" + "0" * (n - 1 - i), "0" * i + "9" * (n - i), "9" * i + "0" + "9" * (n - 1 - i)]
        k = 1
        while 1 << k <= 10 ** n:
            for v in ((1 << k) - 1, 1 << k, (1 << k) + 1):
                if v < 10 ** n:
                    out.append(str(v).rjust(n, "0"))
            k += 1
    return tuple(uniq(out))


def asc(n):
    return ("1234567890" * 4)[:n]


def desc(n):
    return ("9876543210" * 4)[:n]


@lru_cache(None)
def ints(maxbits, small=300, over=True):
    """decimal strings around every power of two and ten, up to (and over) maxbits"""
    out = [str(i) for i in range(small)]
    for k in range(maxbits + (4 if over else 0)):
        for d in (-1, 0, 1):
            out.append(str((1 << k) + d))
    out += [str((1 << maxbits) - 1)]
    if over:
        out += [str((1 << maxbits) + d) for d in (0, 1, 2, 3)]
    n = len(str(1 << maxbits))
    for k in range(1, n + (3 if over else 0)):
        for d in (-1, 0, 1):
            out.append(str(10 ** k + d))
        for d in "123456789":
            out.append(d * k)
        out.append(("1234567890" * 3)[:k])
        out.append(("9876543210" * 3)[:k])
    if not over:
        out = [x for x in out if int(x) < 1 << maxbits]
    return tuple(uniq(x for x in out if not x.startswith("-")))


def dev1(base, alphabet):
    """every single-position deviation from base"""
    for i in range(len(base)):
        for c in alphabet:
            yield base[:i] + c + base[i + 1:]


def dev2(base, alphabet):
    """every two-position deviation from base"""
    for i, j in combinations(range(len(base)), 2):
        for a, b in product(alphabet, alphabet):
            yield base[:i] + a + base[i + 1:j] + b + base[j + 1:]


def words(alphabet, n):
    for t in product(alphabet, repeat=n):
        yield "".join(t)


def base(n, kind=0):
    return (("1234567890", "aB3x-Z9q")[kind] * 5)[:n]


def serial_strings(maxlen, tier, part):
    """unescaped character strings of a GS3A3 field, by part"""
    A = ref.CSET82
    if part == "short":
        yield from A
        yield from words(A, 2)
    elif part == "three":
        yield from words(A if tier == "thorough" else R24, 3)
    elif part == "four":
        yield from words(R24[:20] if tier == "thorough" else R12, 4)
    elif part == "dev1":
        for n in range(1, maxlen + 1):
            for k in (0, 1):
                yield from dev1(base(n, k), A)
    elif part == "dev2":
        for n in ((maxlen,) if tier == "quick" else (5, maxlen - 1, maxlen)):
            yield from dev2(base(n, 1), R12 if tier == "quick" else R24)
    elif part == "rep":
        for c in A:
            for n in range(1, maxlen + 1):
                yield c * n
        for a in ("a0/", "Z9-"):
            for n in range(3, 7 if tier == "quick" else 9):
                yield from words(a, n)
    elif part == "ints":
        for v in ints(42, 1000):
            if len(v) <= maxlen:
                yield v
                if len(v) < maxlen:
                    yield "0" + v
        for n in range(1, maxlen + 1):
            yield "0" * n
            yield "9" * n
    elif part == "rawesc":
        # unescaped text that looks like escapes, AIs or URI syntax
        toks = ["%", "2", "5", "F", "f", "0", "(", ")", "21", ".", ":", "254", "urn:epc:id:", "01", "(21)", "(10)", "(235)", "(254)",
                "(8011)", "(01)", "a", "*", "-", "idpat:", "tag:"]
        for k in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
            for t in product(toks if k < 4 else toks[:14], repeat=k):
                s = "".join(t)
                if len(s) <= maxlen:
                    yield s
        # every application identifier in context
        for ai in ("(00)", "(253)", "(255)", "(401)", "(402)", "(414)", "(417)", "(8003)", "(8004)", "(8006)", "(8010)", "(8017)", "(8018)"):
            for a in [""] + toks:
                for b in [""] + toks:
                    if len(a + ai + b) <= maxlen:
                        yield a + ai + b


SERIAL_PARTS = ("short", "three", "four", "dev1", "dev2", "rep", "ints", "rawesc", "mix")

# prefix lengths at which the larger serial parts are enumerated (the others: every length)
QUICK_AT = {"short": (6, 7, 12), "three": (7,), "four": (12,), "dev1": (7,), "dev2": (12,), "rawesc": (7, 12)}
THOROUGH_AT = {"three": (7,), "four": (6, 12), "dev2": (7, 12), "rawesc": (6, 7, 9, 12)}


def digit_fields(scheme, L, pref, r):
    """middle fields of a prefixed scheme, given prefix and reference digits"""
    return (scheme, pref, r)


def mid(scheme, L, p, r, serial):
    if scheme == "itip":
        return (scheme, p, r, "04", "15", serial)
    if scheme in ("giai", "ginc"):
        return (scheme, p, serial)
    return (scheme, p, r, serial)


# ------------------------------------------------------------------ families
# task: (family, scheme, L, part)

def tasks(schemes, families, tier):
    out = []
    for s in schemes:
        for f in families:
            if f == "fields" and s in PREFIXED:
                out += [(f, s, L, "") for L in LENGTHS]
            elif f == "pairs" and s in PREFIXED:
                out += [(f, s, L, "") for L in LENGTHS]
            elif f == "serial" and s in STRINGY:
                for L in LENGTHS:
                    for p in SERIAL_PARTS + ("relate",):
                        if L in (THOROUGH_AT if tier == "thorough" else QUICK_AT).get(p, LENGTHS):
                            out.append((f, s, L, p))
            elif f == "serial" and s == "sgcn":
                out += [(f, s, L, p) for L in LENGTHS for p in ("num", "mix", "relate")]
            elif f == "serial" and s == "cpi":
                out += [(f, s, L, p) for L in LENGTHS for p in ("num", "short", "dev1", "dev2", "three", "len", "ints", "mix", "relate")
                        if L in (6, 7, 12) or p in ("num", "ints", "len", "mix", "relate") or tier == "thorough"]
            elif f == "serial" and s == "adi":
                out += [(f, s, 0, p) for p in ("cage", "short", "serial3", "part3", "lens", "dev1", "dev2", "cross", "rep")]
            elif f == "escapes" and s in STRINGY:
                out += [(f, s, L, "escapes") for L in (LENGTHS if tier == "thorough" else (6, 7, 12))]
            elif f == "serial" and s in ("gid", "usdod", "bic", "imovn"):
                out += [(f, s, 0, p) for p in ("a", "b", "c")]
    return out


def idents(task, tier):
    family, s, L, part = task
    gen = {"fields": _fields, "serial": _serial, "pairs": _pairs, "escapes": _escapes}[family]
    seen = set()
    for i in gen(s, L, part, tier):
        if i not in seen:
            seen.add(i)
            yield i


def wide(task, i):
    """which filter values does this identity get?  1: all (core field values); 2 + k: the k-th; 0: one or two fixed ones"""
    if task[3] == "mix":
        return 2 + sum(map(ord, "".join(i[1:]))) % 8
    if task[0] == "fields":
        return int(i[1] in _core(task[2]) and (len(i) < 4 or i[2] in _core(len(i[2]))))
    return int(task[3] in ("cross", "c"))


def stripes(task, tier):
    n = 8 if task[1] == "adi" and task[3] in ("cross", "cage") else 4 if task[:3] == ("fields", "itip", 12) else \
        4 if task[1] == "usdod" and task[3] == "c" else 1
    return n if tier == "quick" else 2 * n


@lru_cache(None)
def _core(n):
    return frozenset(nums(n, 0))


def _fields(s, L, part, tier):
    lvl = 1
    if s in ("giai", "ginc"):
        for p in nums(L, 1):
            for x in CORE_SERIALS:
                if len(ref.unescape(x)) + L <= 30:
                    yield (s, p, x)
        return
    if s == "cpi":
        refs = ("0", "1", "9", "12", "123", "000", "5PQ7%2FZ43", "A", "-", "%23", "999", "99999999")
        for p in nums(L, 1):
            for r in refs:
                if len(ref.unescape6(r)) + L <= 30:
                    for x in ("0", "1", "2147483647", "2147483648", "999999999999"):
                        yield (s, p, r, x)
        return
    n = REF_DIGITS[s] - L
    if s in ("sscc", "gsrn", "gsrnp", "gsin", "pgln"):
        for p in nums(L, 1):
            for r in nums(n, 1):
                yield (s, p, r)
        return
    sers = CORE_SERIALS
    if s == "sgcn":
        sers = ("0", "1", "00", "04711", "999999999999", "000000000000", "123456789012", "9")
    if s in SERIAL_MAX:
        sers = [x for x in sers if len(ref.unescape(x)) <= SERIAL_MAX[s]]
    for p in nums(L, 0):
        for r in nums(n, 0):
            for x in sers:
                yield mid(s, L, p, r, x)
    few = sers[3:5]
    for p in nums(L, lvl):
        for r in nums(n, lvl):
            for x in few[:1]:
                yield mid(s, L, p, r, x)
    if s == "itip":
        p, r = asc(L), desc(n)
        for a in range(100):
            for b in range(100):
                yield (s, p, r, "%02d" % a, "%02d" % b, "17")


def _pairs(s, L, part, tier):
    """digit strings: all pairs of positions x all digit values (check digit arithmetic)"""
    if s in ("giai", "ginc", "cpi"):
        return
    n = REF_DIGITS[s]
    bases = ["0" * n, ("1234567890" * 2)[:n]] + (["9" * n, ("5028641937" * 2)[:n]] if tier == "thorough" else [])
    for b in bases:
        for d in dev2(b, "0123456789"):
            if s in ("sscc", "gsrn", "gsrnp", "gsin", "pgln"):
                yield (s, d[:L], d[L:])
            else:
                yield mid(s, L, d[:L], d[L:], "7")


def _escapes(s, L, part, tier):
    """every spelling of the escapes, needed or not, upper and lower case, of every character, alone, in context, in pairs"""
    p = asc(L)
    r = desc(REF_DIGITS.get(s, L) - L)
    for ch in ref.CSET82:
        for e in ("%%%02X" % ord(ch), "%%%02x" % ord(ch)):
            for a in ("", "x", "%2F", "2", "123456789012"):
                for b in ("", "y", "%2f", "5", "0A"):
                    yield mid(s, L, p, r, a + e + b)
    if L == 7 or tier == "thorough":
        es = ["%%%02x" % ord(ch) for ch in ref.CSET82]
        for x, y in product(es, repeat=2):
            yield mid(s, L, p, r, x + y)
    m = SERIAL_MAX.get(s, 30 - L)
    for n in range(1, m + 1):
        for e in ("%2F", "%2f", "%41", "%6a", "%6A", "%25"):
            yield mid(s, L, p, r, e * n)
            yield mid(s, L, p, r, "1" * (m - n) + e * n)


def _mix_serials(m):
    """every length in three styles, every punctuation mark in four places"""
    out = []
    for n in range(1, m + 1):
        out += [base(n), base(n, 1), "0" * (n - 1) + "5"]
    for c in ref.CSET82:
        if not c.isalnum():
            out += [c, c + "ab", "a" + c + "b", "ab" + c]
    return uniq(out)


def _mix(s, L):
    """prefix length x leading reference digit x serial shape, all combined"""
    n = REF_DIGITS.get(s, 0) - L
    refs = [""] if n <= 0 else uniq([d + asc(n - 1) for d in ref.DIGITS] + [d + "0" * (n - 1) for d in "019"])
    for p in (asc(L), "0" + desc(L - 1)):
        if s == "cpi":
            for k in range(1, 31 - L):
                for r in (asc(k), ("A0/-#" * 7)[:k], "0" * k):
                    for x in ["0"] + [y for j in range(1, 13) for y in ("9" * j, "1" + "0" * (j - 1))]:
                        yield (s, p, ref.escape6(r), x)
            continue
        for r in refs:
            if s == "sgcn":
                for k in range(1, 13):
                    for x in ("0" * k, asc(k), "9" * k, "0" * (k - 1) + "7"):
                        yield (s, p, r, x)
                continue
            for x in _mix_serials(SERIAL_MAX.get(s, 30 - L)):
                if s != "itip":
                    yield mid(s, L, p, r, ref.escape(x))
                else:
                    k = (len(x) * 7 + ord(x[0]) + ord(r[0])) % 100
                    yield (s, p, r, "%02d" % k, "%02d" % (99 - k), ref.escape(x))


def _relate(s, L):
    """components that repeat each other, in whole or in part"""
    n = REF_DIGITS.get(s, 0) - L
    for p in uniq([asc(L), desc(L), "0" * L, "0" * (L - 1) + "1", "1" + "0" * (L - 1), "21" * (L // 2) + "2" * (L % 2), "1" * L]):
        refs = uniq([(p * 2)[:n], (p[::-1] * 2)[:n], ("0" + p * 2)[:n], (p[1:] + p)[:n], (p[-1] * n)]) if n > 0 else [""]
        for r in refs:
            whole = p + r
            g = whole[L:L + 1] + p + whole[L + 1:]
            c = ref.check_digit(g) if g.isdigit() else "0"
            parts = uniq([p, r, c, whole, g, g + c, whole + c, p[::-1], p[:-1], p[1:], p + "0", r + "0", "0" + r, "0" + p, p[:3], r[:2]])
            texts = parts + [a + sep + b for a in parts[:5] for b in parts[:5] for sep in ("", ".", ":", "-", "/")]
            texts += ["(%s)%s" % (ai, a) for a in parts[:5] for ai in ("01", "21", "10", "8010", "8011")]
            if s == "cpi":
                for t in texts:
                    u = ref.escape6(t) if t and all(x in ref.CPI_PLAIN + "/#" for x in t) else None
                    for x in uniq(["7", p, c] + ([t] if t.isdigit() and len(t) < 13 and (t[0] != "0" or t == "0") else [])):
                        if u and len(t) + L <= 30 and (x == "0" or x[0] != "0") and len(x) <= 12:
                            yield (s, p, u, x)
                continue
            for t in uniq(texts):
                if s == "sgcn":
                    if t.isdigit() and len(t) <= 12:
                        yield (s, p, r, t)
                elif 0 < len(t) <= SERIAL_MAX.get(s, 30 - L):
                    yield mid(s, L, p, r, ref.escape(t))


def _serial(s, L, part, tier):
    if part == "relate":
        yield from _relate(s, L)
        return
    if part == "mix":
        yield from _mix(s, L)
        return
    if s in STRINGY:
        n = REF_DIGITS.get(s, 0) - L
        p = asc(L)
        r = desc(n) if s in REF_DIGITS else ""
        m = SERIAL_MAX.get(s, 30 - L)
        for x in serial_strings(m, tier, part):
            yield mid(s, L, p, r, ref.escape(x))
        return
    if s == "sgcn":
        p, r = asc(L), desc(12 - L)
        for x in uniq(list(ints(40, 1000)) + ["0" * i + v for i in range(1, 12) for v in ints(40, 20)]):
            if len(x) <= 12:
                yield (s, p, r, x)
        for n in range(1, 13):
            for x in nums(n, 1):
                yield (s, p, r, x)
        return
    if s == "cpi":
        p = asc(L)
        A = ref.CPI_PLAIN + "/#"
        m = 30 - L
        if part == "num":
            for v in ints(32 if L == 6 else ref._CPI96[L][0] + 2, 300):
                if len(v) <= m:
                    yield (s, p, v, "5")
                    if len(v) < m:
                        yield (s, p, "0" + v, "5")
        elif part == "ints":
            for v in ints(40, 300):
                if len(v) <= 12:
                    yield (s, p, "12", v)
                    yield (s, p, "5PQ7%2FZ43", v)
        elif part == "short":
            for k in (1, 2):
                for w in words(A, k):
                    yield (s, p, ref.escape6(w), "123456789")
        elif part == "three":
            for w in words(A if tier == "thorough" else "059APZHX-/#", 3):
                yield (s, p, ref.escape6(w), "0")
        elif part == "dev1":
            for n in range(1, m + 1):
                for w in dev1(("AB3-X9" * 5)[:n], A):
                    yield (s, p, ref.escape6(w), "41")
        elif part == "dev2":
            for w in dev2(("AB3-X9" * 5)[:m], "059APZ-/#"):
                yield (s, p, ref.escape6(w), "999999999999")
        elif part == "len":
            for n in range(1, m + 1):
                for c in A:
                    for x in ("0", "7", "999999999999"):
                        yield (s, p, ref.escape6(c * n), x)
            for n in range(3, 7 if tier == "quick" else 9):
                for w in words("Z0/", n):
                    yield (s, p, ref.escape6(w), "7")
        return
    if s == "adi":
        A = ref.CPI_PLAIN + "/"
        small = "01589AHOPXZ-/"
        if part == "cage":
            for b in ("2S194", "W81X9C", "00000", "ZZZZZZ"):
                for c in dev2(b, ref.CAGE_CHARS) if tier == "thorough" else dev1(b, ref.CAGE_CHARS):
                    yield (s, c, "PN", "SN")
            for c in words("0A9ZHX", 5):
                yield (s, c, "", "1")
        elif part == "short":
            for k in (0, 1, 2):
                for w in words(A, k):
                    yield (s, "W81X9C", ref.escape6(w), "2WMA52")
                    yield (s, "2S194", ref.escape6(w), "A")
            for k in (1, 2):
                for w in words(A, k):
                    yield (s, "2S194", "", ref.escape6(w))
                    yield (s, "W81X9C", "3KL", "%23" + ref.escape6(w))
        elif part == "part3":
            for w in words(A if tier == "thorough" else small, 3):
                yield (s, "W81X9C", ref.escape6(w), "2WMA52")
            for w in words("0APHX-", 5 if tier == "thorough" else 4):
                yield (s, "W81X9C", w, "1")
        elif part == "serial3":
            for w in words(A if tier == "thorough" else small, 3):
                yield (s, "2S194", "P", ref.escape6(w))
            for w in words("0APHX-", 5 if tier == "thorough" else 4):
                yield (s, "2S194", "", "%23" + w)
        elif part == "lens":
            for a in range(33):
                for b in range(1, 31):
                    yield (s, "W81X9C", base(a), base(b))
                    yield (s, "2S194", "0" * a, "%2F" * b)
                    if b > 1:
                        yield (s, "2S194", "P" * a, "%23" + "A" * (b - 1))
        elif part == "dev1":
            for n in (1, 2, 3, 5, 8, 31, 32):
                for w in dev1(("AB3-X0" * 6)[:n], A):
                    yield (s, "W81X9C", ref.escape6(w), "S1")
            for n in (1, 2, 3, 5, 8, 29, 30):
                for w in dev1(("AB3-X0" * 6)[:n], A):
                    yield (s, "W81X9C", "P1", ref.escape6(w))
        elif part == "dev2":
            for w in dev2(("AB3-X0" * 6)[:32], "0PH/"):
                yield (s, "W81X9C", ref.escape6(w), "S1")
            for w in dev2(("AB3-X0" * 6)[:30], "0PH/"):
                yield (s, "2S194", "P1", ref.escape6(w))
        elif part == "rep":
            for c in A:
                for n in range(1, 33):
                    yield (s, "W81X9C", ref.escape6(c * n), "S1")
                for n in range(1, 31):
                    yield (s, "2S194", "P1", ref.escape6(c * n))
            for n in range(3, 7 if tier == "quick" else 9):
                for w in words("Z0/", n):
                    yield (s, "W81X9C", ref.escape6(w), "S1")
                    yield (s, "2S194", "P1", ref.escape6(w))
        elif part == "cross":
            ws = [""] + list(words(small, 1)) + list(words("0APH/", 2))
            for c in ("00000", "W81X9C", "PPPPP", "HHHHHH"):
                for a in ws:
                    for b in ws[1:]:
                        yield (s, c, ref.escape6(a), ref.escape6(b))
        return
    if s == "gid":
        X, Y, Z = ints(28, 20, False), ints(24, 20, False), ints(36, 20, False)
        few = ("0", "1", "9", "268435455", "16777215")
        if part == "a":
            for x in X:
                for y in Y:
                    yield (s, x, y, "68719476735")
        elif part == "b":
            for y in Y:
                for z in Z:
                    yield (s, "31415", y, z)
        else:
            for x in X:
                for z in Z:
                    yield (s, x, "271828", z)
        return
    if s == "usdod":
        Z = ints(36, 300, False)
        if part == "a":
            for c in ("2S194", "CB0CD", "W81X9C", "00000", "999999", "ZZZZZ", "ABCDEF"):
                for z in Z:
                    yield (s, c, z)
        elif part == "b":
            for b in ("2S194", "W81X9C", "00000", "ZZZZZZ"):
                for c in dev2(b, ref.CAGE_CHARS) if tier == "thorough" else dev2(b, "0189AHJNPZ"):
                    yield (s, c, "12345678901")
                for c in dev1(b, ref.CAGE_CHARS):
                    yield (s, c, "0")
        else:
            for c in words("0A9ZHX", 5):
                yield (s, c, "1")
        return
    if s == "bic":
        A = "ABCDEFGHJKLMNPQRSTUVWXYZ"
        if part == "a":
            for w in words(A, 3):
                yield (s, w + "U3054383")
        elif part == "b":
            for g in "JUZ":
                for d in dev2("1234567", ref.DIGITS):
                    yield (s, "CSQ" + g + d)
        return
    if s == "imovn":
        if part == "a":
            for d in dev2("9176187", ref.DIGITS):
                yield (s, d)
        elif part == "b":
            for k in range(10 ** 4):
                yield (s, "%07d" % (k * 1000 + k % 1000))
        return


# ------------------------------------------------------------------ strings near a valid one

ODD = "١²１é\n\t \x00①|`{}[]\\^~@$#"
EDIT = ref.CSET82 + ODD


def edits1(s, alphabet, ins=True):
    """every single-character deletion, substitution, insertion, duplication, adjacent swap of s"""
    for i in range(len(s)):
        yield s[:i] + s[i + 1:]
        for c in alphabet:
            if c != s[i]:
                yield s[:i] + c + s[i + 1:]
        if i + 1 < len(s) and s[i] != s[i + 1]:
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if ins:
        for i in range(len(s) + 1):
            for c in alphabet:
                yield s[:i] + c + s[i:]


def edits2(s, alphabet):
    """every pair of single-character substitutions/deletions/insertions over a small alphabet"""
    for t in edits1(s, alphabet):
        yield from edits1(t, alphabet, ins=False)


# canonical seeds: a few identities per scheme that exercise every field kind
SEEDS = {
    "sgtin": [("0614141", "812345", "6789"), ("614141123456", "7", "a%2Fb"), ("000000", "0000000", "0"),
              ("0614141", "012345", "12345678901234567890")],
    "lgtin": [("0614141", "712345", "32a%2Fb"), ("614141123456", "7", "x.y:z")],
    "upui": [("1234567", "089456", "51qIgY)%3C%26Jp3*j7SDB"), ("123456", "0089456", "a")],
    "itip": [("4012345", "012345", "01", "02", "987"), ("401234567890", "1", "99", "99", "a%2Fb")],
    "sscc": [("0614141", "1234567890"), ("614141123456", "78901")],
    "gsrn": [("0614141", "1234567890"), ("614141", "12345678901")],
    "gsrnp": [("0614141", "1234567890"), ("614141123456", "78901")],
    "gsin": [("0614141", "123456789"), ("614141123456", "7890")],
    "pgln": [("1234567", "89012"), ("123456789012", "")],
    "sgln": [("0614141", "12345", "400"), ("614141123456", "", "32a%2Fb"), ("614141", "123456", "0")],
    "grai": [("0614141", "12345", "400"), ("614141123456", "", "a%2Fb"), ("614141", "123456", "0")],
    "gdti": [("0614141", "12345", "400"), ("614141123456", "", "A%25B"), ("614141", "123456", "0")],
    "sgcn": [("4012345", "67890", "04711"), ("401234567890", "", "0"), ("401234", "567890", "999999999999")],
    "giai": [("0614141", "12345400"), ("614141123456", "ABc:1.%2F"), ("614141", "0")],
    "ginc": [("0614141", "xyz47%2F11"), ("614141123456", "1")],
    "cpi": [("0614141", "123456", "123456789"), ("614141", "5PQ7%2FZ43", "12345"), ("614141123456", "A-%23", "0")],
    "gid": [("31415", "271828", "1414"), ("268435455", "16777215", "68719476735"), ("0", "0", "0")],
    "usdod": [("2S194", "12345678901"), ("CB0CDE", "0")],
    "adi": [("W81X9C", "3KL984PX1", "2WMA52"), ("2S194", "", "%23A1%2F"), ("W81X9C", "10-", "P0")],
    "bic": [("CSQU3054383",)],
    "imovn": [("9176187",)],
}


def seeds(scheme):
    return [(scheme,) + f for f in SEEDS[scheme]]


def uniq_lists(xs):
    seen = set()
    out = []
    for x in xs:
        k = repr(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out
