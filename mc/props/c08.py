"""C08: tag URIs accepted exactly when well-formed; they agree with the bits."""
from itertools import product

from mc import api, domains, ref

BOUNDS = {
    "quick": "tag URIs (representable or not) of identity families fields/serial/escapes of the 14 tag-encodable schemes x all their "
             "coding schemes; all filter spellings 0..70 and malformed; every coding scheme name x every scheme body; all "
             "single edits over 104 characters and double edits over 9 characters of the seed tag URIs; token sequences of up "
             "to 5 components; each through its class, the generic parser and (seeds) all 14 classes",
    "thorough": "same at thorough bounds, 5-component sequences over a larger alphabet",
}
TOK = ["", "0", "1", "3", "7", "8", "00", "63", "64", "12345", "123456", "1234567", "123456789012", "A", "2S194"]
FILT = [str(n) for n in range(0, 72)] + ["", "00", "01", "07", "-1", "+1", " 1", "1 ", "١", "x", "A", "*", "1.1", "0x1",
                                        "100", "999", "3\n", "1e0", "%31", "²"]


def tasks(tier):
    out = [("valid",) + t for t in domains.tasks(ref.TAG, ("fields", "serial", "escapes"), tier)]
    for c in ref.CODINGS:
        s = ref.CODINGS[c][0]
        out += [("filters", c), ("tokens", c, 5 if tier == "thorough" else 4), ("names", c)]
        for k in range(len(domains.seeds(s))):
            out += [("edit1", c, k), ("edit2", c, k)]
    return out


def stripes(task, tier):
    if task[0] == "valid":
        return domains.stripes(task[1:], tier)
    return 8 if task[0] == "tokens" and task[2] == 5 else 1


def _tag(coding, filt, ident):
    body = ".".join(ident[1:])
    return "urn:epc:tag:%s:%s" % (coding, body if filt is None else filt + "." + body)


def cases(task, tier):
    kind = task[0]
    if kind == "valid":
        t = tuple(task[1:])
        for i in domains.idents(t, tier):
            for coding in ref.OF_SCHEME[i[0]]:
                fs = ref.filters(coding)
                k = (domains.wide(t, i) - 2) % len(fs) if t[3] == "mix" else (len(fs) - 1) * 5 // 8
                yield [i[0], _tag(coding, fs[k], i), 0]
        return
    s = ref.CODINGS[task[1]][0]
    seen = set()
    for t in _texts(task, tier):
        if t not in seen:
            seen.add(t)
            yield [s, t, 1 if kind in ("names",) else 0]


def _texts(task, tier):
    kind, coding = task[0], task[1]
    s = ref.CODINGS[coding][0]
    f0 = None if s == "gid" else "3"
    if kind == "filters":
        for i in domains.seeds(s):
            yield _tag(coding, None, i)
            for f in FILT:
                yield _tag(coding, f, i)
                for p in ("urn:epc:id:", "urn:epc:idpat:", "urn:epc:pat:", "urn:epc:raw:", "urn:epc:class:"):
                    yield p + _tag(coding, f, i)[12:]
    elif kind == "names":
        names = list(ref.CODINGS) + ref.ALL + ["", "x", s + "-", s + "-64", s + "-96", s + "-var", s + "-113", s + "-202",
                                               s + "-198", s.upper() + "-96", coding.upper(), coding + "6", coding[:-1],
                                               coding + "-96", " " + coding, coding + " ", coding.replace("-", "_"),
                                               coding.replace("-", "")]
        for n in names:
            for o in ref.TAG:
                for i in domains.seeds(o):
                    yield _tag(n, None, i)
                    yield _tag(n, "3", i)
                    yield _tag(n, "0", i)
        for i in domains.seeds(s):
            t = _tag(coding, f0, i)
            for k in range(len(t)):
                yield t[:k]
                yield t[k:]
            for q in ("\n", " ", "\r", ".", ":", "\x00", " ", "x", "%", "\t"):
                yield t + q
                yield q + t
                yield t.replace(":", ":" + q)
                yield t.replace(".", q + ".", 1)
            yield t.upper()
            yield t.replace("urn:epc:tag", "urn:epc:tag:tag")
            yield t.replace("urn:epc:tag", "urn:epc:tags")
            yield t.replace(":tag:", ":TAG:")
    elif kind == "edit1":
        yield from domains.edits1(_tag(coding, f0, domains.seeds(s)[task[2]]), domains.EDIT)
    elif kind == "edit2":
        t = _tag(coding, f0, domains.seeds(s)[task[2]])
        k = t.index(":", 12) - (2 if tier == "quick" else 6)
        for b in domains.edits2(t[k:], "01.9%:A" if tier == "quick" else "01.9%:A-a*"):
            yield t[:k] + b
    elif kind == "tokens":
        for n in range(0, task[2] + 1):
            for x in product(TOK, repeat=n):
                yield "urn:epc:tag:%s:%s" % (coding, ".".join(x))


def check(case, c):
    s, text, everyone = case
    r = ref.parse_tag_uri(text)
    ident = r and r[2]
    want = api.want(ident)
    c.state(text)
    for o in ref.TAG if everyone else (s,):
        w = want if ident is not None and ident[0] == o else "refused"
        c.step(api.show(api.run(api.CLS[o].from_tag_uri, text)), w, "%s.from_tag_uri(%r)" % (o.upper(), text))
    c.note("accepted" if ident else "refused")
    x = api.run(api.GENERIC["tag_uri"], text)
    c.step(api.show(x), want, "tag_uri_to_tag_encodable(%r)" % text)
    if ident is None:
        return
    c.state(want)
    kw = api.kwargs(r[0], r[1])
    c.step(api.show(api.run(x.tag_uri, **kw)), text, "tag_uri of the EPC parsed from " + text)
    c.step(api.show(api.run(x.binary, **kw)), ref.bits(ref.canonical(ident), r[0], r[1]), "binary of the EPC parsed from " + text)
