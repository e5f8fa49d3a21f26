"""C14: GTIN forms."""
from mc import api, domains, ref

BOUNDS = {
    "quick": "SGTIN and LGTIN: families fields/pairs (all prefix lengths), all GTINs with 0..13 leading zeros x 10 digit "
             "patterns x last digits, serial parts short/ints/rep/rawesc/mix; x 4 GTIN types x gtin/gs1_key; every form returned goes through "
             "from_gtin_plus_serial; from_gtin_plus_serial also with every serial text of one and (three lengths) two characters over "
             "147 characters, every text one edit from four serials, over-long ones, and one-edit GTINs of 14, 13, 12 and 8 characters, x prefix lengths 0..14",
    "thorough": "same at thorough bounds, all digit values in every 4-digit window of the GTIN",
}


def tasks(tier):
    out = [t for t in domains.tasks(("sgtin", "lgtin"), ("fields", "pairs", "serial"), tier)
           if t[0] != "serial" or t[3] in ("short", "ints", "rep", "rawesc", "mix")]
    out += [("text", "sgtin", L, p) for L in range(0, 15) for p in ("one", "two", "edit", "gtin")]
    return out + [("zeros", s, L, "") for s in ("sgtin", "lgtin") for L in domains.LENGTHS]


def stripes(task, tier):
    return 4 if tier == "thorough" else 1


def _split(s, d, L, serial):
    return (s, d[1:1 + L], d[0] + d[1 + L:], serial)


def _zeros(s, L, tier):
    for z in range(0, 14):
        n = 13 - z
        for t in domains.nums(n, 1):
            yield _split(s, "0" * z + t, L, "7")
        for a in range(100):
            for b in ("", "1", "98"):
                yield _split(s, ("0" * z + b).ljust(11, "0")[:11] + "%02d" % a, L, "x")
    w = 3 if tier == "quick" else 4
    for pos in range(0, 14 - w):
        for v in range(10 ** w):
            yield _split(s, "0" * pos + str(v).rjust(w, "0") + "0" * (13 - w - pos), L, "A%2F")
            yield _split(s, "0" * pos + str(v).rjust(w, "0") + "7315926480"[:13 - w - pos].ljust(13 - w - pos, "1"), L, "0")


GTINS = ("80614141123458", "00614141123452", "00000012345670", "00000000000000", "99999999999997")


def _texts(part, L, tier):
    chars = [chr(n) for n in range(128)] + list("١²１é①\u2028\u00a0\u3000\ufeff\u200b\x85\ud800ß٣०")
    if part == "one":
        return [""] + chars + [c * k for c in "0a%" for k in (2, 3, 19, 20, 21, 22, 60)] + [
            p + b for p in ("%%%02x" % n for n in range(256)) for b in ("", "1")] + ["%%%02X" % n for n in range(256)]
    if part == "two":
        if L in (6, 7, 12) or (tier == "thorough" and 6 <= L <= 12):
            return [a + b for a in chars for b in chars]
        return [a + b for a in " \n%.0A" for b in chars] + [b + a for a in " \n%.0A" for b in chars]
    return [e for w in ("6789", "a%2Fb", "0", "12345678901234567890", "0000000000000000000A") for e in domains.edits1(w, domains.EDIT)]


def _text_cases(L, part, tier):
    if part == "gtin":
        for g in GTINS:
            for n in (14, 13, 12, 8):
                if g[:14 - n].strip("0") == "":
                    for e in domains.edits1(g[14 - n:], "0A +-.%١ \n", ins=False):
                        if len(e) == n and not _digits(e[:-1]):  # the incoming check digit is not looked at
                            yield ["text", e, "6789", L]
        return
    for k, t in enumerate(_texts(part, L, tier)):
        g = GTINS[k % len(GTINS)]
        z = len(g) - len(g.lstrip("0"))
        yield ["text", g[[n for n in (0, 1, 2, 6) if n <= z][k // 5 % sum(n <= z for n in (0, 1, 2, 6))]:], t, L]


def _digits(t):
    return t != "" and all(ch in ref.DIGITS for ch in t)


def _text(case, c):
    """any GTIN text of a GTIN's length, any serial text, any small prefix length"""
    _, g, serial, L = case
    want = None
    if _digits(g):
        d = g.rjust(14, "0")
        want = ref.parse_uri("sgtin", "urn:epc:id:sgtin:%s.%s.%s" % (d[1:1 + L], d[0] + d[1 + L:13], serial)) if L < 13 else None
    c.state(g, serial, L)
    c.note("text_accepted", want is not None)
    c.step(api.show(api.run(api.CLS["sgtin"].from_gtin_plus_serial, g, serial, L)), "refused" if want is None else api.want(want),
           "from_gtin_plus_serial(%r, %r, %d)" % (g, serial, L))


def cases(task, tier):
    if task[0] == "text":
        yield from _text_cases(task[2], task[3], tier)
        return
    if task[0] == "zeros":
        seen = set()
        for i in _zeros(task[1], task[2], tier):
            if i not in seen:
                seen.add(i)
                yield list(i)
    else:
        for i in domains.idents(task, tier):
            yield list(i)


def check(case, c):
    if case[0] == "text":
        return _text(case, c)
    ident = tuple(case)
    s = ident[0]
    text = ref.uri(ident)
    cls = api.CLS[s]
    x = api.run(cls, text)
    L = len(ident[1])
    c.state(text)
    for m in ("gtin", "gs1_key"):
        c.step(api.show(api.run(getattr(x, m))), ref.key(ident), "%s() of %s" % (m, text))
    for n in (8, 12, 13, 14):
        k = ref.key(ident, n)
        want = "refused" if k is None else k
        c.state(n, k)
        t = api.GTIN[s][n]
        c.step(api.show(api.run(x.gtin, t)), want, "gtin(GTIN%d) of %s" % (n, text))
        c.step(api.show(api.run(x.gs1_key, gtin_type=t)), want, "gs1_key(gtin_type=GTIN%d) of %s" % (n, text))
        c.step(api.show(api.run(api.GENERIC["gs1_key"], text, gtin_type=t)), want, "epc_pure_identity_to_gs1_key(%r, gtin_type=GTIN%d)" % (text, n))
        c.note("gtin%d" % n, k is not None)
        if k is not None and s == "sgtin":
            c.step(api.show(api.run(cls.from_gtin_plus_serial, k, ident[3], L)), api.want(ident),
                   "from_gtin_plus_serial(%r, %r, %d)" % (k, ident[3], L))
