"""C04: capacity of coding schemes, uniformly over all encoders."""
from mc import api, domains, ref

BOUNDS = {
    "quick": "identity families fields/serial/escapes of the 14 tag-encodable schemes, plus every integer within 64 of every "
             "capacity limit, x all coding schemes x tag_uri/binary/hex/base64",
    "thorough": "same with thorough bounds and every integer within 4096 of every limit",
}

stripes = domains.stripes


def tasks(tier):
    out = domains.tasks(ref.TAG, ("fields", "serial", "escapes"), tier)
    for s in ("sgtin", "sgln", "grai", "gdti", "itip", "giai", "cpi"):
        out += [("limit", s, L, "") for L in domains.LENGTHS]
    return out


def _limits(s, L, tier):
    k = 64 if tier == "quick" else 4096
    p = domains.asc(L)
    if s == "giai":
        n, d = ref._GIAI96[L]
        for top in (1 << n, 10 ** d, 1 << (n - 1), 1 << 53, 1 << 31):
            for v in range(max(0, top - k), top + k):
                yield (s, p, str(v))
        for m in range(1, 31 - L):
            for ch in "0123456789":
                yield (s, p, ch * m)
        return
    if s == "cpi":
        n, d = ref._CPI96[L]
        for top in (1 << 31, 10 ** 9, 1 << 30, 1 << 40, 10 ** 12):
            for v in range(top - k, min(top + k, 10 ** 12)):
                yield (s, p, "7", str(v))
                yield (s, p, "A", str(v))
        for top in (1 << n, 10 ** d):
            for v in range(max(0, top - k), top + k):
                yield (s, p, str(v), "0")
        for m in range(1, 31 - L):
            for ch in "0123456789A":
                yield (s, p, ch * m, "1")
                yield (s, p, "0" * (m - 1) + ch, "1")
        return
    r = domains.desc(domains.REF_DIGITS[s] - L)
    m = domains.SERIAL_MAX[s]
    for top in (1 << 38, 1 << 41, 10 ** 11, 10 ** 12, 1 << 53, 1 << 64, 1 << 32):
        for v in range(top - k, top + k):
            v = str(v)
            if len(v) <= m:
                yield domains.mid(s, L, p, r, v)
                yield domains.mid(s, L, p, r, ("0" + v)[:m])
    # near-numeric serials
    for v in ("1", "42", "274877906943"):
        for c in ref.CSET82:
            for i in range(len(v) + 1):
                w = v[:i] + c + v[i:]
                if len(w) <= m:
                    yield domains.mid(s, L, p, r, ref.escape(w))
        for e in ("%31", "%30", "%2B", "%2D"):
            yield domains.mid(s, L, p, r, e + v)
            yield domains.mid(s, L, p, r, v + e)


def cases(task, tier):
    if task[0] == "limit":
        seen = set()
        for i in _limits(task[1], task[2], tier):
            if i not in seen:
                seen.add(i)
                yield list(i)
    else:
        for i in domains.idents(task, tier):
            yield list(i)


def _ok(r):
    if isinstance(r, str):
        return "encoded"
    return api.show(r)


def check(case, c):
    ident = tuple(case)
    s = ident[0]
    x = api.run(api.CLS[s], ref.uri(ident))
    c.step(api.show(x), api.want(ident), "construct")
    c.state(ident)
    for coding in ref.OF_SCHEME[s]:
        fs = ref.filters(coding)
        f = fs[sum(map(ord, ident[-1])) % len(fs)]
        kw = api.kwargs(coding, f)
        want = "encoded" if ref.admits(ident, coding) else "refused"
        c.state(ident, coding, want)
        c.note(want)
        w = "(%s) of %s" % (coding, ref.uri(ident))
        for m in ("tag_uri", "binary", "hex", "base64"):
            c.step(_ok(api.run(getattr(x, m), **kw)), want, m + w)
