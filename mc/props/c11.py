"""C11: one EPC, one GS1 key, whatever it is read from."""
from itertools import product

from mc import api, domains, ref

BOUNDS = {
    "quick": "identity families fields/serial (short, rawesc, ints, num, rep, mix, relate)/escapes/pairs (L 7, 12) of the 13 keyed schemes x URI, element string, all "
             "tag URIs/binaries/hexadecimals (both cases), id pattern, and GTIN forms; seeds of the other 8 schemes; all wildcard masks "
             "over id-pattern components (tokens *, digits, partial); all single edits of seed id patterns, element strings "
             "and hexadecimals; prefix lengths None, 0..20",
    "thorough": "same with all serial parts, at thorough bounds but for escape-like serials, three and four characters and two deviations",
}
PARTS = ("short", "rawesc", "ints", "num", "rep", "mix", "relate", "escapes", "")
BIG = ("three", "four", "dev2", "rawesc")  # of which the quick bounds are enough here


def tasks(tier):
    out = [("ident",) + t for t in domains.tasks(ref.KEYED, ("fields", "serial", "pairs", "escapes"), tier)
           if tier == "thorough" or (t[3] in PARTS and not (t[0] == "pairs" and t[2] not in (7, 12)))]
    for s in ref.ALL:
        out += [("mask", s), ("source", s), ("lens", s)]
    return out


def stripes(task, tier):
    return domains.stripes(task[1:], "quick" if task[4] in BIG else tier) if task[0] == "ident" else 4 if task == ("mask", "itip") else 1


def _forms(i):
    s = i[0]
    out = [ref.uri(i)]
    if s != "lgtin":
        out.append("urn:epc:idpat:" + out[0][len("urn:epc:id:"):])
    if s in ref.ELEM:
        out.append(ref.elem(i))
    for co in ref.OF_SCHEME.get(s, ()):
        if ref.admits(i, co):
            f = ref.filters(co)
            f = f[len(f) // 3]
            b = ref.bits(i, co, f)
            out += [ref.tag_uri(i, co, f), b, ref.hexa(b), ref.hexa(b).lower()]
    return out


def cases(task, tier):
    kind, s = task[0], task[1]
    if kind == "ident":
        for i in domains.idents(tuple(task[1:]), "quick" if task[4] in BIG else tier):
            yield ["ident", list(i)]
        return
    seen = set()
    for t in _texts(task, tier):
        if t[0] not in seen:
            seen.add(t[0])
            yield ["text", t[0], t[1]]


def _texts(task, tier):
    kind, s = task[0], task[1]
    if kind == "mask":
        for i in domains.seeds(s):
            opts = []
            for f in i[1:]:
                opts.append(domains.uniq([f, "*", "", f + "*", "*" + f, "**", "0", "%2A", f[:-1] + "*", "[0-9]", "?"]))
            for t in product(*opts):
                b = ".".join(t)
                yield "urn:epc:idpat:%s:%s" % (s, b), [None, 7]
                yield "urn:epc:pat:%s-96:3.%s" % (s, b), [None]
                yield "urn:epc:id:%s:%s" % (s, b), [None]
        for o in ref.ALL:
            for n in range(1, 6):
                yield "urn:epc:idpat:%s:%s" % (o, ".".join(["*"] * n)), [None]
                for i in domains.seeds(s):
                    yield "urn:epc:idpat:%s:%s" % (o, ".".join(i[1:])), [None]
                    yield "urn:epc:idpat:%s:%s" % (o, ".".join(i[1:-1] + ("*",))), [None]
    elif kind == "source":
        for i in domains.seeds(s)[:None if tier == "thorough" else 2]:
            for t in _forms(i):
                if t[:8] in ref.HEADER and len(t) > 80:
                    for k in range(len(t)):
                        yield t[:k] + ("1" if t[k] == "0" else "0") + t[k + 1:], [None]
                        yield t[:k], [None]
                    yield t + "0", [None]
                    yield t + "x", [None]
                else:
                    for e in domains.edits1(t, "0179AFaf*.:%()-/ \n2gx"):
                        yield e, [None, len(i[1])]
        for i in domains.seeds(s):
            if s in ref.KEYED:
                yield ref.key(i), [None, len(i[1])]
    else:
        for i in domains.seeds(s):
            for t in _forms(i):
                yield t, [None] + list(range(0, 21))


def check(case, c):
    G = api.GENERIC["get_key"]
    if case[0] == "text":
        text = case[1]
        for n in case[2]:
            ident, lax = ref.source_ident(text, n)
            k = ident and ref.key(ident)
            want = "refused" if k is None else k
            got = api.show(api.run(G, text) if n is None else api.run(G, text, n))
            c.state(text, n)
            c.note("key" if k is not None else "refused")
            if not (lax and got == "refused"):
                c.step(got, want, "get_gs1_key(%r, %r)" % (text, n))
        return
    ident = tuple(case[1])
    s = ident[0]
    k = ref.key(ident)
    c.state(ident)
    for t in _forms(ident):
        c.state(t)
        if t[0] == "(":
            c.step(api.show(api.run(G, t, len(ident[1]))), k, "get_gs1_key(%r, %d)" % (t, len(ident[1])))
            c.step(api.show(api.run(G, t, company_prefix_length=len(ident[1]))), k, "get_gs1_key(%r, company_prefix_length=%d)" % (t, len(ident[1])))
            c.step(api.show(api.run(G, t)), "refused", "get_gs1_key(%r)" % t)
        else:
            c.step(api.show(api.run(G, t)), k, "get_gs1_key(%r)" % t)
    if s in ("sgtin", "lgtin"):
        for j, t in enumerate(_forms(ident)):
            for n in (8, 12, 13, 14) if j < 4 else ((8, 12, 13, 14)[(j + int(ident[1])) % 4],):
                w = ref.key(ident, n)
                a = (t, len(ident[1])) if t[0] == "(" else (t,)
                c.step(api.show(api.run(G, *a, gtin_type=api.GTIN[s][n])), "refused" if w is None else w,
                       "get_gs1_key(%r, gtin_type=%d)" % (t, n))
