"""C03: every bit string decodes to what the standard assigns, or is refused."""
from itertools import combinations, product

from mc import api, domains, ref

BOUNDS = {
    "quick": "21 coding schemes: all 1- and 2-bit flips, all truncations and several extensions of seed tags; cross products of "
             "boundary field values over all 8 partition values; all 7/6/8-bit character values at every position and at all "
             "adjacent pairs of two leading positions; all ITIP piece x total values; SGCN numbers around every decimal "
             "boundary; prefix length x reference digit x serial shape combined (mix part); single edits of the hexadecimal, binary and base64 texts over 30 characters most of which are not digits, through all classes; all 256 headers x body lengths x 14 classes; all bit strings of up to 13 bits",
    "thorough": "same, 3-bit flips of the first 96 bits' header/filter/partition/prefix area, flips of twice as many seeds, all 6-bit character triples, "
                "all bit strings of up to 17 bits",
}
ASSUMPTIONS = ["GIAI-202 leaves filler bits after the last whole character; when they are nonzero both the identity and a "
               "refusal are accepted (TDS gives them no meaning)"]

# neither hexadecimal nor binary digits, though some number parsers take or skip them
NOT_DIGITS = "_ +-xX.,\n\t\r\x00\x0b\x1c\x85\u00a0\u0660\u0661\uff10\uff11\u00b9\U0001d7ce\U0001d7cf\uff21"
PREFIXES = ("0x", "0X", "0b", "0B", "x", "h", "#", "0x0x", "--", "-0", "+0", " 0", "0_", "\ufeff", "b'", "'", "L", "urn:epc:raw:96.x")

B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

STRING = [c for c in ref.CODINGS if c in ref.STR_SERIAL or c == "giai-202"]


def _seed_idents(coding, tier):
    s = ref.CODINGS[coding][0]
    out = [i for i in domains.seeds(s) if ref.admits(i, coding)]
    if s in domains.PREFIXED:
        for L in domains.LENGTHS:
            if s == "giai":
                i = (s, domains.asc(L), "98765")
            elif s == "cpi":
                i = (s, domains.desc(L), "12", "77")
            elif s in domains.SERIAL_MAX or s == "sgcn":
                i = domains.mid(s, L, domains.desc(L), domains.asc(domains.REF_DIGITS[s] - L), "4711")
            else:
                i = (s, domains.desc(L), domains.asc(domains.REF_DIGITS[s] - L))
            out.append(i)
            if coding in STRING:
                m = 30 - L if s == "giai" else domains.SERIAL_MAX[s]
                if L in (6, 9, 12):
                    out.append(i[:-1] + (ref.escape(domains.base(m, 1)),))
    return domains.uniq(out)


def _seed_bits(coding, tier):
    fs = ref.filters(coding)
    return [ref.bits(i, coding, fs[k % len(fs)]) for k, i in enumerate(_seed_idents(coding, tier))]


def tasks(tier):
    out = []
    for c in ref.CODINGS:
        s = ref.CODINGS[c][0]
        n = len(_seed_bits(c, tier))
        out += [("flip1", c, k) for k in range(n)]
        k2 = n if tier == "thorough" else (n if ref.CODINGS[c][2] == 96 else min(n, 4))
        out += [("flip2", c, k) for k in range(k2)]
        if tier == "thorough":
            out += [("flip3", c, k) for k in range(min(n, 4))]
        if s in domains.PREFIXED:
            out += [("fields", c, p) for p in range(8)]
        if c in STRING:
            out += [("chars", c, p) for p in (0, 3, 6)] + [("chars2", c, p) for p in ((5,) if tier == "quick" else range(7))]
        if s == "itip":
            out += [("itip", c, p) for p in (0, 6)]
        if s == "sgcn":
            out += [("sgcn", c, p) for p in range(7)]
        if c == "cpi-var":
            out += [("six", c, p) for p in (0, 3, 6)]
        if s == "adi":
            out += [("six", c, 0)]
        if s in ("usdod", "adi"):
            out += [("cage", c, k) for k in range(6)]
        if s in ("gid", "usdod"):
            out.append(("ints", c, 0))
        if s in domains.STRINGY or s in ("cpi", "sgcn"):
            out += [("mix", c, L) for L in domains.LENGTHS]
    out += [("text", c, k) for c in ref.CODINGS for k in (0, 1, 2)]
    out += [("headers", h, 0) for h in range(256)]
    out += [("short", n, 0) for n in range(0, 14 if tier == "quick" else 18)]
    return out


def stripes(task, tier):
    if task[0] == "short" and task[1] > 13:
        return 1 << (task[1] - 13)
    if task[0] == "flip3":
        return 4
    return 1


def _flip(b, *pos):
    b = list(b)
    for p in pos:
        b[p] = "1" if b[p] == "0" else "0"
    return "".join(b)


def _around(*vs):
    return domains.uniq(v + d for v in vs for d in (-1, 0, 1))


def cases(task, tier):
    seen = set()
    if task[0] == "text":
        b = _seed_bits(task[1], tier)[0]
        t = (b, ref.hexa(b), ref.b64(b))[task[2]]
        for e in list(domains.edits1(t, NOT_DIGITS + ("gGoOlI23Ff" if task[2] < 2 else "gA/+9é="))) + [a + t for a in PREFIXES] + [t + a for a in PREFIXES]:
            if e not in seen:
                seen.add(e)
                yield [3 + task[2], e]
        return
    for mode, b in _bits(task, tier):
        if b not in seen:
            seen.add(b)
            yield [mode, b]


def _bits(task, tier):
    """(mode, bits); mode 0 = class+generic binary, 1 = also hex/base64, 2 = also all classes"""
    kind, c, k = task
    if kind == "mix":
        t = ("serial", ref.CODINGS[c][0], k, "mix")
        for i in domains.idents(t, tier):
            if ref.admits(i, c):
                b = ref.bits(i, c, ref.filters(c)[domains.wide(t, i) - 2])
                yield 1, b
                yield 0, b[:-1] + ("1" if b[-1] == "0" else "0")
        return
    if kind in ("flip1", "flip2", "flip3"):
        b = _seed_bits(c, tier)[k]
        if kind == "flip1":
            yield 2, b
            for i in range(len(b)):
                yield 1, _flip(b, i)
                yield 1, b[:i]
            for n in (1, 2, 3, 4, 8, 16, 40, 64, 100):
                yield 1, b + "0" * n
                yield 1, b + "1" * n
                yield 1, b + ("10" * n)[:n]
            for i in range(0, len(b) - 1):
                yield 0, b[:i] + b[i + 1:]
                yield 0, b[:i] + "1" + b[i:]
                yield 0, b[:i] + "0" + b[i:]
                yield 0, b[:i] + "1" * (len(b) - i)
                yield 0, b[:i] + "0" * (len(b) - i)
        elif kind == "flip2":
            for i, j in combinations(range(len(b)), 2):
                yield 0, _flip(b, i, j)
        else:
            n = min(len(b), 64)
            for p in combinations(range(8, n), 3):
                yield 0, _flip(b, *p)
    elif kind == "fields":
        s, header, size = ref.CODINGS[c]
        L = max(12 - k, 6)
        m = ref.M[L]
        pre = _around(0, 1, 10 ** L, 10 ** (L - 1), 1 << (m - 1), (1 << m) - 1, int(domains.asc(L)))
        tab = ref.REF_TABLE.get(c) or ref.REF_TABLE.get(s)
        n, d = tab[L] if tab else (40, 10)
        refs = _around(0, 1, 10 ** d, 10 ** max(d - 1, 0), (1 << n) - 1, 1 << (n - 1)) if n < 100 else [0, 1]
        if tier == "thorough":
            pre = domains.uniq(pre + _around(*[1 << i for i in range(m)]))
            refs = domains.uniq(refs + _around(*[1 << i for i in range(n)])) if n < 100 else refs
        pre = [v for v in pre if 0 <= v < 1 << m]
        refs = [v for v in refs if 0 <= v < 1 << n]
        if c in ref.INT_SERIAL:
            w = ref.INT_SERIAL[c]
            tail = [ref.int_bits(v, w) for v in (0, 1, 9, 10, (1 << w) - 1, 1 << (w - 1), 10 ** 11)]
        elif c == "sgcn-96":
            tail = [ref.int_bits(v, 41) for v in (0, 1, 9, 10, 11, 19, 20, 100, 199, 200, 10 ** 12, 2 * 10 ** 12 - 1,
                                                  2 * 10 ** 12, (1 << 41) - 1, 123)]
        elif c == "cpi-96":
            tail = [ref.int_bits(v, 31) for v in (0, 1, 10, 999999999, 1 << 30, (1 << 31) - 1)]
        elif c == "cpi-var":
            tail = [ref.six(x) + y + ref.int_bits(v, 40) for x in ("", "A", "0", "12", "#/-", "5PQ7/Z43", "A" * (30 - L), "A" * (31 - L))
                    for y in ("000000", "") for v in (0, 1, 10 ** 12 - 1, 10 ** 12, (1 << 40) - 1)]
            n = 0
            refs = [0]
        elif c in STRING:
            mm = 30 - L if s == "giai" else domains.SERIAL_MAX[s]
            tail = [ref.seven(x) for x in ("", "0", "1", "a/b", "%", "A" * mm, "A" * (mm - 1), "\x01", "A\x00B", "\x00A", "~", "#")]
            if c == "giai-202":
                n = 0
                refs = [0]
        else:
            tail = ["", "1" * 24, "0" * 23 + "1"]
        if s == "itip":
            tail = [ref.int_bits(a, 7) + ref.int_bits(b, 7) + t for t in tail[:6] for a, b in ((0, 0), (1, 99), (99, 1), (100, 0), (0, 100), (127, 127))]
        for f in ("000", "101", "111"):
            for a in pre:
                for b in refs:
                    for t in tail:
                        x = header + f + ref.int_bits(k, 3) + ref.int_bits(a, m) + (ref.int_bits(b, n) if n else "") + t
                        yield 0, x if size is None else x.ljust(size, "0")
    elif kind in ("chars", "chars2"):
        s, header, size = ref.CODINGS[c]
        L = 12 - k
        mm = 30 - L if s == "giai" else domains.SERIAL_MAX[s]
        if s == "giai":
            head = ref.bits((s, domains.asc(L), "1"), c, "2")[:14 + ref.M[L]]
        else:
            i = domains.mid(s, L, domains.asc(L), domains.desc(domains.REF_DIGITS[s] - L), "1")
            head = ref.bits(i, c, "2")[:size - 7 * mm]
        if kind == "chars":
            for n in (1, 2, 3, mm // 2, mm - 1, mm):
                for q in (0, 1):
                    t = domains.base(n, q)
                    for pos in range(mm):
                        for v in range(128):
                            u = list(t.ljust(mm, "\x00"))
                            u[pos] = chr(v)
                            yield 0, (head + ref.seven("".join(u))).ljust(size, "0")
        else:
            for a, b in product(range(128), repeat=2):
                yield 0, (head + ref.seven(chr(a) + chr(b))).ljust(size, "0")
                yield 0, (head + ref.seven("A" * (mm - 2) + chr(a) + chr(b))).ljust(size, "0")
                yield 0, (head + ref.seven("Z" + chr(a) + "q" + chr(b))).ljust(size, "0")
    elif kind == "itip":
        s, _, size = ref.CODINGS[c]
        L = 12 - k
        i = domains.mid(s, L, domains.asc(L), domains.desc(13 - L), "1")
        b = ref.bits(i, c, "1")
        o = 14 + ref.M[L] + ref._GTIN[L][0]
        for x, y in product(range(128), repeat=2):
            yield 0, b[:o] + ref.int_bits(x, 7) + ref.int_bits(y, 7) + b[o + 14:]
    elif kind == "sgcn":
        L = 12 - k
        b = ref.bits(("sgcn", domains.asc(L), domains.desc(12 - L), "0"), c, "1")[:-41]
        vs = set()
        for e in range(0, 13):
            for d in range(1, 22):
                for j in range(-12, 13):
                    vs.add(d * 10 ** e + j)
        for e in range(41):
            vs |= {(1 << e) + j for j in range(-2, 3)}
        vs |= set(range(0, 2500))
        for v in sorted(vs):
            if 0 <= v < 1 << 41:
                yield 0, b + ref.int_bits(v, 41)
    elif kind == "six":
        if c == "cpi-var":
            L = 12 - k
            head = ref.bits(("cpi", domains.asc(L), "1", "1"), c, "2")[:14 + ref.M[L]]
            mx = 30 - L
            tails = [ref.int_bits(7, 40)]
        else:
            head = ref.bits(("adi", "W81X9C", "", "1"), c, "2")[:50]
            mx = 32
            tails = [ref.six("S1") + "000000", ref.six("#A") + "000000", "000000", ref.six("A" * 30) + "000000",
                     ref.six("A" * 31) + "000000", ref.six("A#") + "000000", ref.six("#") + "000000"]
        six = [ref.int_bits(v, 6) for v in range(64)]
        for t in tails:
            for n in range(0, 3):
                for w in product(six, repeat=n):
                    yield 0, head + "".join(w) + "000000" + t
            for n in range(0, mx + 4):
                yield 0, head + ref.six(domains.base(n)) + "000000" + t
                yield 0, head + ref.six(domains.base(n)) + t
                yield 0, head + ref.six(domains.base(n)) + "00000" + t
                yield 0, head + "1" + ref.six(domains.base(n)) + "000000" + t
            for n in (1, 3, 8, mx):
                w = ref.six(("AB3-X0" * 6)[:n])
                for pos in range(n):
                    for v in six:
                        yield 0, head + w[:6 * pos] + v + w[6 * pos + 6:] + "000000" + t
        if c == "adi-var":
            h = head + ref.six("P1") + "000000"
            for n in range(0, 3):
                for w in product(six, repeat=n):
                    yield 0, h + "".join(w) + "000000"
                    yield 0, head + "000000" + "".join(w) + "000000" + "101"
            for n in range(0, 34):
                yield 0, h + ref.six(domains.base(n)) + "000000"
                yield 0, h + ref.six(domains.base(n))
                yield 0, h + ref.six("#" + domains.base(n)) + "000000"
        if tier == "thorough":
            for w in product(six, repeat=3):
                yield 0, head + "".join(w) + "000000" + tails[0]
        else:
            sub = [ref.int_bits(v, 6) for v in (0, 1, 8, 26, 27, 32, 35, 45, 47, 48, 57, 58, 63)]
            for w in product(sub, repeat=3):
                yield 0, head + "".join(w) + "000000" + tails[0]
    elif kind == "cage":
        for cage in ("2S194", "W81X9C"):
            if c == "adi-var":
                b = ref.bits(("adi", cage, "PN", "SN"), c, "2")
                for v in range(64):
                    yield 0, b[:14 + 6 * k] + ref.int_bits(v, 6) + b[20 + 6 * k:]
                    for w in range(64):
                        for j in range(k + 1, 6):
                            x = b[:14 + 6 * k] + ref.int_bits(v, 6) + b[20 + 6 * k:]
                            yield 0, x[:14 + 6 * j] + ref.int_bits(w, 6) + x[20 + 6 * j:]
            else:
                b = ref.bits(("usdod", cage, "12345"), c, "2")
                for v in range(256):
                    x = b[:12 + 8 * k] + ref.int_bits(v, 8) + b[20 + 8 * k:]
                    yield 0, x
                    for w in range(256):
                        for j in (k + 1, k + 2):
                            if j < 6:
                                yield 0, x[:12 + 8 * j] + ref.int_bits(w, 8) + x[20 + 8 * j:]
    elif kind == "ints":
        for i in domains.idents(("serial", ref.CODINGS[c][0], 0, "a"), tier):
            yield 1, ref.bits(i, c, ref.filters(c)[-1])
    elif kind == "headers":
        h = ref.int_bits(c, 8)
        bodies = {"", "0", "1"}
        for o in ref.CODINGS:
            bodies.add(_seed_bits(o, tier)[0][8:])
        for b in sorted(bodies):
            yield 2, h + b
        for n in (list(range(0, 250)) if h in ref.HEADER else list(range(0, 250, 8))):
            for ch in "01":
                yield 2 if n in (0, 6, 88, 104, 190, 200, 204, 240) else 1, h + ch * n
    elif kind == "short":
        for w in product("01", repeat=c):
            yield 2 if c < 11 else 0, "".join(w)


def _same(c, got, r, want, what):
    if r is not None and r[3] and got == "refused":
        c.note("loose")
        return
    c.step(got, want, what)


def ref_base64(t):
    """(bits, True) of a base64 text, ("", False) when it must be refused, ("", None) when that is left open"""
    u = t.rstrip("=")
    if not t.isascii():
        return "", False
    if not all(x in B64 for x in u):
        return "", None
    if len(u) % 4 == 1 or not u:
        return "", False
    if len(t) > len(u) and len(t) % 4:
        return "", None
    b = "".join(ref.int_bits(B64.index(x), 6) for x in u)
    return b[:len(b) // 8 * 8], True


def _text(mode, t, c):
    name = ("binary", "hex", "base64")[mode - 3]
    if mode == 5:
        b, ok = ref_base64(t)
        if ok is None:
            c.note("open")
            return
    else:
        ok = t != "" and all(x in ("0123456789abcdefABCDEF" if mode == 4 else "01") for x in t)
        b = t if mode == 3 else "".join(ref.int_bits(int(x, 16), 4) for x in t) if ok else ""
    r = ref.decode(b) if ok else None
    c.state(name, t)
    c.note("decoded" if r else "refused")
    for o in ref.TAG:
        w = api.want(r[2]) if r and r[2][0] == o else "refused"
        _same(c, api.show(api.run(getattr(api.CLS[o], "from_" + name), t)), r, w, "%s.from_%s(%r)" % (o.upper(), name, t))
    _same(c, api.show(api.run(api.GENERIC[name], t)), r, api.want(r and r[2]), "%s(%r)" % (api.NAME[name], t))


def check(case, c):
    mode, b = case
    if mode > 2:
        return _text(mode, b, c)
    r = ref.decode(b)
    want = api.want(r and r[2])
    c.state(b)
    c.note("decoded" if r else "refused")
    own = ref.HEADER.get(b[:8])
    s = own and ref.CODINGS[own][0]
    if s:
        _same(c, api.show(api.run(api.CLS[s].from_binary, b)), r, want, "%s.from_binary(%s)" % (s.upper(), b))
    _same(c, api.show(api.run(api.GENERIC["binary"], b)), r, want, "binary_to_tag_encodable(%s)" % b)
    if mode > 1:
        for o in ref.TAG:
            if o != s:
                c.step(api.show(api.run(api.CLS[o].from_binary, b)), "refused", "%s.from_binary(%s)" % (o.upper(), b))
    if mode:
        p = b + "0" * (-len(b) % 16)
        rp = ref.decode(p)
        wp = api.want(rp and rp[2])
        h, v = ref.hexa(b), ref.b64(b)
        for o in ref.TAG if mode > 1 else ((s,) if s else ()):
            w = wp if o == s else "refused"
            _same(c, api.show(api.run(api.CLS[o].from_hex, h)), rp, w, "%s.from_hex(%s)" % (o.upper(), h))
            _same(c, api.show(api.run(api.CLS[o].from_base64, v)), rp, w, "%s.from_base64(%s)" % (o.upper(), v))
        _same(c, api.show(api.run(api.GENERIC["hex"], h)), rp, wp, "hex_to_tag_encodable(%s)" % h)
        _same(c, api.show(api.run(api.GENERIC["hex"], h.lower())), rp, wp, "hex_to_tag_encodable(%s)" % h.lower())
        _same(c, api.show(api.run(api.GENERIC["base64"], v)), rp, wp, "base64_to_tag_encodable(%s)" % v)
        # hexadecimal digit by digit, without word padding
        q = b + "0" * (-len(b) % 4)
        rq = ref.decode(q)
        h = ref.hexa(b)[:len(q) // 4]
        _same(c, api.show(api.run(api.GENERIC["hex"], h)), rq, api.want(rq and rq[2]), "hex_to_tag_encodable(%s)" % h)
