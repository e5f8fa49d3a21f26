"""C10: generic parsers return what the right scheme class returns."""
from mc import api, domains, hashing, ref

BOUNDS = {
    "quick": "identity families fields (all prefix lengths) and serial (short, rawesc, ints, num, a, b, lens, cross, mix, relate), escapes of all 21 schemes x "
             "their representations x 11 generic parsers, comparing class, URI and every derived value; every capability "
             "mismatch; every scheme identifier and every single edit of one x every scheme body; every header x seed "
             "bodies of every coding scheme; the seeds again under 16 (thorough: 64) string hash seeds",
    "thorough": "same, all serial parts, at thorough bounds but for three and four characters and two deviations",
}
QUICK_PARTS = ("short", "rawesc", "ints", "num", "a", "lens", "cross", "cage", "mix", "relate", "escapes", "")

BIG = ("three", "four", "dev2")  # of which the quick bounds are enough here


def tasks(tier):
    out = [("ident",) + t for t in domains.tasks(ref.ALL, ("fields", "serial", "escapes"), tier)
           if tier == "thorough" or t[3] in QUICK_PARTS]
    out += [("names", s) for s in ref.ALL] + [("headers", k) for k in range(16)] + [("confuse", s) for s in domains.STRINGY]
    return out + hashing.tasks(tier)


def stripes(task, tier):
    return domains.stripes(task[1:], "quick" if task[4] in BIG else tier) if task[0] == "ident" else 1


def cases(task, tier):
    kind = task[0]
    if kind == "hashing":
        yield ["hashing", task[1]]
    elif kind == "hashed":
        for s in ref.ALL:
            for i in domains.seeds(s):
                yield ["ident", list(i), 1]
            for o in ref.ALL:
                for p in ("id", "class", "tag", "idpat"):
                    yield ["uri", "urn:epc:%s:%s:%s" % (p, s, ".".join(domains.seeds(o)[0][1:]))]
        for k in range(0, 16, 5):
            yield from cases(("headers", k), tier)
    elif kind == "ident":
        t = tuple(task[1:])
        for i in domains.idents(t, "quick" if t[3] in BIG else tier):
            yield ["ident", list(i), int(domains.wide(t, i) == 1) if t[1] != "adi" else 0]
    elif kind == "confuse":
        s = task[1]
        r = domains.desc(domains.REF_DIGITS.get(s, 7) - 7)
        m = domains.SERIAL_MAX.get(s, 23)
        for o in ref.ALL:
            for x in (o, ":" + o, o + ":", ":" + o + ":", o + "-96", o + "-96:1", "id:" + o, "tag:" + o, o.upper(), "." + o):
                if len(x) <= m:
                    yield ["ident", list(domains.mid(s, 7, "0614141", r, x)), 0]
    elif kind == "names":
        s = task[1]
        names = set(ref.ALL)
        if s in ref.ALL:
            names |= set(domains.edits1(s, "abgilnprstu-9 "))
        names |= {s.upper(), s.capitalize(), s + "-96", "", " " + s, s + " ", s + "\n"}
        for n in sorted(names):
            for o in ref.ALL:
                i = domains.seeds(o)[0]
                b = ".".join(i[1:])
                yield ["uri", "urn:epc:id:%s:%s" % (n, b)]
                if n in ref.ALL:
                    yield ["uri", "urn:epc:class:%s:%s" % (n, b)]
                    yield ["uri", "urn:epc:tag:%s:%s" % (n, b)]
                    yield ["uri", "urn:epc:idpat:%s:%s" % (n, b)]
                yield ["tag", "urn:epc:tag:%s-96:3.%s" % (n, b)]
                yield ["tag", "urn:epc:tag:%s-96:%s" % (n, b)]
                yield ["tag", "urn:epc:tag:%s:%s" % (n, b)]
    else:
        for h in range(task[1] * 16, task[1] * 16 + 16):
            for c in ref.CODINGS:
                for i in domains.seeds(ref.CODINGS[c][0]):
                    if ref.admits(i, c):
                        b = ref.bits(i, c, ref.filters(c)[-1])
                        yield ["bits", ref.int_bits(h, 8) + b[8:]]


def derived(x, s, ident, codings, fs):
    out = {"type": type(x), "uri": getattr(x, "epc_uri", None)}
    if s in ref.ELEM:
        out["elem"] = api.show(api.run(x.gs1_element_string))
    if s in ref.KEYED:
        out["key"] = api.show(api.run(x.gs1_key))
    for c in codings:
        for m in ("tag_uri", "binary", "hex", "base64"):
            out[m, c] = api.show(api.run(getattr(x, m), **api.kwargs(c, fs[c])))
    return out


def check(case, c):
    kind = case[0]
    if kind == "hashing":
        return hashing.check("C10", case[1], c)
    G = api.GENERIC
    if kind == "uri":
        text = case[1]
        ident = ref.parse_any(text)
        c.state(text)
        for g, ok in (("scheme", ref.ALL), ("gs1_element", ref.ELEM), ("gs1_keyed", ref.KEYED), ("tag_encodable", ref.TAG)):
            w = api.want(ident) if ident and ident[0] in ok else "refused"
            c.step(api.show(api.run(G[g], text)), w, "%s(%r)" % (api.NAME[g], text))
        return
    if kind == "tag":
        r = ref.parse_tag_uri(case[1])
        c.state(case[1])
        c.step(api.show(api.run(G["tag_uri"], case[1])), api.want(r and r[2]), "tag_uri_to_tag_encodable(%r)" % case[1])
        return
    if kind == "bits":
        b = case[1]
        c.state(b)
        r = ref.decode(b)
        p = b + "0" * (-len(b) % 16)
        rp = ref.decode(p)
        for name, v, q in (("binary", b, r), ("hex", ref.hexa(b), rp), ("base64", ref.b64(b), rp)):
            got = api.show(api.run(G[name], v))
            if not (q and q[3] and got == "refused"):
                c.step(got, api.want(q and q[2]), "%s(%s)" % (api.NAME[name], v))
        return
    ident, wide = tuple(case[1]), case[2]
    s = ident[0]
    cls = api.CLS[s]
    text = ref.uri(ident)
    x = api.run(cls, text)
    fs = {co: ref.filters(co)[len(ref.filters(co)) // 3] for co in ref.OF_SCHEME.get(s, ())}
    codings = [co for co in fs if ref.admits(ident, co)]
    full = derived(x, s, ident, codings, fs)
    c.state(text)
    c.step(full["type"].__name__ + full["uri"], s.upper() + text, "construct " + text)

    def same(g, y, deep, text=text):
        if isinstance(y, (type(None), api.Err)):
            c.step(api.show(y), "an instance", "%s of %s" % (g, text))
        if not deep:
            c.step(api.show(y) if type(y) is cls else repr(type(y)), full["type"].__name__ + "(" + text + ")", "%s of %s" % (g, text))
            return
        d = derived(y, s, ident, codings, fs)
        for k in full:
            c.step(str(d[k]), str(full[k]), "%s of %s: %s" % (g, text, k))

    same("epc_pure_identity_to_scheme", api.run(G["scheme"], text), wide)
    for g, ok in (("gs1_element", ref.ELEM), ("gs1_keyed", ref.KEYED), ("tag_encodable", ref.TAG)):
        y = api.run(G[g], text)
        if s in ok:
            same(api.NAME[g], y, False)
        else:
            c.step(api.show(y), "refused", "%s(%s)" % (api.NAME[g], text))
    c.step(api.show(api.run(G["gs1_element_string"], text)), full.get("elem", "refused"), "epc_pure_identity_to_gs1_element_string " + text)
    c.step(api.show(api.run(G["gs1_key"], text)), full.get("key", "refused"), "epc_pure_identity_to_gs1_key " + text)
    for n, m in api.GTIN.get(s, {}).items():
        w = ref.key(ident, n)
        c.step(api.show(api.run(G["gs1_key"], text, gtin_type=m)), w if w else "refused", "epc_pure_identity_to_gs1_key(%r, gtin_type=%d)" % (text, n))
    if s in ref.ELEM:
        same(api.NAME["elem"], api.run(G["elem"], full["elem"], len(ident[1])), False, ref.uri(ref.canonical(ident)))
    for g in ("tag_uri", "binary", "hex", "base64"):
        for co in codings:
            c.state(full[g, co])
            same("%s(%s)" % (api.NAME[g], co), api.run(G[g], full[g, co]), wide and g in ("tag_uri", "hex"),
                 text if g == "tag_uri" else ref.uri(ref.canonical(ident)))
        if not fs:
            c.step(api.show(api.run(G[g], text)), "refused", "%s(%s)" % (api.NAME[g], text))
