"""C15: no collisions; equality means same EPC."""
from itertools import product

from mc import api, domains, ref
from mc.engine import Violation

BOUNDS = {
    "quick": "collision tables per scheme over families fields (all prefix lengths), serial (all parts) and shift (the same "
             "digits and characters split at every place, every leading-zero spelling) x coding schemes x filters (all for "
             "the shift family) for tag URI, binary, hexadecimal, and element string per prefix length; one table across all "
             "schemes over seeds; equality over all pairs of an instance set with near-duplicates, built through every path",
    "thorough": "same at thorough bounds, pairs family added",
}


def tasks(tier):
    out = []
    for s in ref.ELEM + [x for x in ref.TAG if x not in ref.ELEM]:
        out.append(("shift", s))
        out.append(("fields", s))
        for p in sorted({t[3] for t in domains.tasks((s,), ("serial",), tier)}):
            out.append(("serial", s, p))
        if tier == "thorough" and s in domains.REF_DIGITS:
            out.append(("pairs", s))
    out += [("global",)] + [("equal", s) for s in ref.ALL]
    return out


def _shift(s):
    """identities that differ only in where the same characters are split, or in leading zeros"""
    nums = ["0", "00", "000", "1", "01", "001", "10", "010", "100", "11", "9", "99"]
    strs = nums + ["A", "0A", "A0", "AA", "%2F", "A%2F", "%2FA", "a", "-", "A-", ".", "..", ":", "%25", "%252F", "2F", "%2522"]
    if s in ("giai", "ginc"):
        for d in ("1234567890121", "0000000000000", "00000000000001", "100000000000000", "123456000000000"):
            for L in domains.LENGTHS:
                for n in range(L + 1, len(d) + 1):
                    yield (s, d[:L], d[L:n])
                for x in strs:
                    yield (s, d[:L], x)
    elif s == "cpi":
        for d in ("1234567890121", "0000000000000"):
            for L in domains.LENGTHS:
                for n in range(L + 1, len(d) + 1):
                    for x in ("0", "1", "10", "11"):
                        yield (s, d[:L], d[L:n], x)
                for x in ("0", "00", "1", "01", "10", "010", "A", "A0", "0A", "-", "%2F", "%23", "A%2F"):
                    for y in ("0", "1", "10", "100", "999999999999"):
                        yield (s, d[:L], x, y)
    elif s in domains.REF_DIGITS:
        n = domains.REF_DIGITS[s]
        for d in (("123456789012345678")[:n], "0" * n, "0" * (n - 1) + "1", "1" + "0" * (n - 1), ("000000123456000000")[:n], "9" * n):
            for L in domains.LENGTHS:
                p, r = d[:L], d[L:]
                if s in ("sscc", "gsrn", "gsrnp", "gsin", "pgln"):
                    yield (s, p, r)
                elif s == "sgcn":
                    for x in nums + ["000000000000", "00000000000", "999999999999"]:
                        yield (s, p, r, x)
                elif s == "itip":
                    for a, b in (("00", "00"), ("01", "10"), ("10", "01"), ("00", "01"), ("01", "00"), ("99", "99")):
                        for x in strs:
                            yield (s, p, r, a, b, x)
                else:
                    for x in strs:
                        yield (s, p, r, x)
    elif s == "adi":
        w = "0A0A-"
        for cage in ("00000", "000000", "A0000", "0A0000"):
            for n in range(1, 6):
                for k in range(0, n):
                    for t in product("0A", repeat=n):
                        t = "".join(t)
                        yield (s, cage, t[:k], t[k:])
                        yield (s, cage, t[:k], "%23" + t[k:])
            yield (s, cage, w, "%2F")
    elif s == "gid":
        for t in product(("0", "1", "10", "100", "9", "256", "65536", "16777215"), repeat=3):
            yield (s,) + t
    elif s == "usdod":
        for cage in ("00000", "000000", "A0000", "0A0000", "0000A", "00000A", "A00000"):
            for v in domains.ints(36, 50, False):
                yield (s, cage, v)


def _idents(kind, s, part, tier):
    if kind == "shift":
        seen = set()
        for i in _shift(s):
            if i not in seen:
                seen.add(i)
                yield i, 1
        return
    fam = kind
    for t in domains.tasks((s,), (fam,), tier):
        if fam != "serial" or t[3] == part:
            for i in domains.idents(t, tier):
                yield i, 0


def cases(task, tier):
    if task[0] == "equal":
        yield ["equal", task[1]]
    elif task[0] == "global":
        yield ["table", "global", None, None, tier]
    else:
        yield ["table", task[0], task[1], task[2] if len(task) > 2 else "", tier]


def encodings(ident, wide, kinds=("tag_uri", "binary", "hex", "elem")):
    """[(representation kind and group, value, label)] as the implementation gives them"""
    s = ident[0]
    x = api.CLS[s](ref.uri(ident))
    out = []
    for coding in ref.OF_SCHEME.get(s, ()):
        if not ref.admits(ident, coding):
            continue
        fs = ref.filters(coding)
        for f in fs if wide else fs[-1:]:
            kw = api.kwargs(coding, f)
            for m in kinds if wide else ("binary",):
                if m != "elem":
                    out.append((m, api.run(getattr(x, m), **kw), (ident, coding, f)))
    if s in ref.ELEM:
        out.append(("elem %s %d" % (s, len(ident[1])), api.run(x.gs1_element_string), (ident, None, None)))
    return out


def _same(a, b, kind):
    """do two labelled combinations really give the same value? (replay)"""
    def one(l):
        for k, v, lab in encodings(tuple(l[0]), 1):
            if k == kind and lab[1:] == tuple(l[1:]):
                return v
    return one(a), one(b)


def check(case, c):
    if case[0] == "pair":
        x, y = _same(case[2], case[3], case[1])
        c.step("equal %s" % x if x == y else "different", "different", "%s of %s and %s" % (case[1], case[2], case[3]))
        return
    if case[0] == "equal":
        return _equal(case[1], c)
    _, kind, s, part, tier = case
    table = {}
    if kind == "global":
        src = ((i, 1) for o in ref.ALL for i in domains.seeds(o) if o in ref.TAG)
    else:
        src = _idents(kind, s, part, tier)
    n = 0
    for ident, wide in src:
        n += 1
        if n > 1:
            c.traces += 1
        c.state(ident)
        for k, v, lab in encodings(ident, wide):
            c.transitions += 1
            if not isinstance(v, str):
                c.step(api.show(v), "a string", "%s of %s" % (k, lab))
            old = table.setdefault((k, v), lab)
            if old is not lab and old != lab:
                raise Violation("%s of %s and of %s are both %s" % (k, old, lab, v), ["pair", k, old, lab])
    c.note("distinct_encodings", len(table))


class _Fake:
    def __init__(self, u):
        self.epc_uri = u


def _equal(s, c):
    """all ordered pairs of an instance set against URI equality"""
    ids = domains.seeds(s)
    uris = [ref.uri(i) for i in ids]
    for o in ref.ALL:
        uris += [ref.uri(i) for i in domains.seeds(o)[:2]]
    base = ids[0]
    for t in domains.edits1(ref.uri(base), "012A.%aF"):
        if ref.parse_uri(s, t):
            uris.append(t)
    if s in domains.STRINGY:
        for x in ("%2F", "%2f", "A", "%41", "a", "%61", "0", "00"):
            uris.append(ref.uri(base[:-1] + (x,)))
    uris = domains.uniq(u for u in uris if ref.parse_any(u))
    objs = [(u, api.CLS[ref.parse_any(u)[0]](u)) for u in uris]
    objs += [(u, api.GENERIC["scheme"](u)) for u in uris[:40]]
    for u in uris[:40]:
        i = ref.parse_any(u)
        if i != ref.canonical(i):
            continue
        x = api.CLS[i[0]](u)
        if i[0] in ref.ELEM:
            objs.append((u, api.CLS[i[0]].from_gs1_element_string(x.gs1_element_string(), len(i[1]))))
        for co in ref.OF_SCHEME.get(i[0], ()):
            if ref.admits(i, co):
                kw = api.kwargs(co, ref.filters(co)[0])
                objs.append((u, api.CLS[i[0]].from_binary(x.binary(**kw))))
                objs.append((u, api.CLS[i[0]].from_tag_uri(x.tag_uri(**kw))))
    n = 0
    for u, x in objs:
        c.state(u)
        for v, y in objs:
            n += 1
            c.step(x == y, u == v, "%s == %s" % (u, v))
            c.step(x != y, u != v, "%s != %s" % (u, v))
        for y in (None, u, 0, 1, True, "", b"", [], (), {}, object(), _Fake(u), [u], (u,), type(x), NotImplemented, float("nan")):
            c.step(bool(x == y), False, "%s == %r" % (u, type(y)))
            c.step(bool(y == x), False, "%r == %s" % (type(y), u))
            c.step(bool(x != y), True, "%s != %r" % (u, type(y)))
    c.note("equality_pairs", n)
