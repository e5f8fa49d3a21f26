"""C09: bad input fails with ConvertException and nothing else."""
import re
from itertools import product

from mc import api, domains, ref
from mc.props.c03 import ref_base64

BOUNDS = {
    "quick": "all public entry points that take a string (21 constructors, from_* of all classes, generic parsers; several "
             "company prefix lengths) x: all strings of up to 2 characters over 128 ASCII + 24 others, all token sequences of up "
             "to 3 over 40 tokens, all single edits of one seed per scheme and representation over 40 characters, all truncations, long strings (up to "
             "20000 characters) of every repeated token before and after valid text, each component replaced or extended by a run of 30 or 64 of 16 "
             "tokens with 13 endings; non-hexadecimal and non-binary text refused by those parsers, as is impossible base64; every method of every instance of the serial parts mix, "
             "lens, num, ints x coding schemes, admitting or not",
    "thorough": "same, sequences of 4 over 24 tokens, edits of all seeds over 104 characters",
}
WEIRD = "é١²１①ßİ ​ €\U0001d7ce\U0001f600\ud800﻿\x85ªⅧ๓Ⅷ̇￿"
CH = "".join(chr(i) for i in range(128)) + WEIRD
TOKENS = ["", "urn:epc:id:", "urn:epc:class:", "urn:epc:tag:", "urn:epc:idpat:", "urn:epc:raw:", "urn", ":", ".", "*", "%", "%2", "%2F", "%FF", "%zz",
          "0", "1", "96", "sgtin", "sgtin-96:", "giai:", "cpi-var:", "gid:", "adi-var:", "lgtin:", "123456", "1234567890123", "(01)", "(", ")", "(21)",
          "(8010)", "(8011)", "00110000", "30", "2F", "MDA", "=", "-", " ", "\n", "é", "١٢٣٤٥٦", "²", "\ud800", "\x00", "x"]
EDIT9 = "09Aaz%.:()*-/=+ \n\x00é١²\ud800F_#"


RUN = ["0", "1", "9", "A", "z", "-", "/", "%2F", "%23", "A%2F", "1A", "_", "+", "(", "12%2f", "J"]
# what a text must look like to be refused outright unless it is one
DIGITS = re.compile("[0-9A-Fa-f]+")
BITS = re.compile("[01]+")


def entries():
    """name -> callable(text)"""
    out = {}
    for s in ref.ALL:
        cls = api.CLS[s]
        out[s.upper()] = cls
        out[s.upper() + ".from_epc_uri"] = cls.from_epc_uri
        if s in ref.TAG:
            for m in ("from_binary", "from_hex", "from_base64", "from_tag_uri"):
                out["%s.%s" % (s.upper(), m)] = getattr(cls, m)
        if s in ref.ELEM:
            for n in (0, 5, 6, 7, 12, 13, 30):
                out["%s.from_gs1_element_string/%d" % (s.upper(), n)] = _with(cls.from_gs1_element_string, n)
    for g in ("scheme", "gs1_element", "gs1_element_string", "gs1_keyed", "gs1_key", "tag_encodable", "tag_uri", "binary",
              "hex", "base64", "get_key"):
        out[api.NAME[g]] = api.GENERIC[g]
    for n in (0, 6, 7, 12, 13):
        out["get_gs1_key/%d" % n] = _with(api.GENERIC["get_key"], n)
        out["gs1_element_string_to_gs1_element/%d" % n] = _with(api.GENERIC["elem"], n)
        out["SGTIN.from_gtin_plus_serial gtin/%d" % n] = _gtin(n)
        out["SGTIN.from_gtin_plus_serial serial/%d" % n] = _serial(n)
    return out


def _with(f, n):
    return lambda t: f(t, n)


def _gtin(n):
    return lambda t: api.CLS["sgtin"].from_gtin_plus_serial(gtin=t, serial="1", company_prefix_length=n)


def _serial(n):
    return lambda t: api.CLS["sgtin"].from_gtin_plus_serial(gtin="00614141123452", serial=t, company_prefix_length=n)


ENTRIES = entries()


def forms(s, k=None):
    """valid texts of a scheme's seeds in every representation"""
    out = []
    for i in domains.seeds(s) if k is None else [domains.seeds(s)[k]]:
        out.append(ref.uri(i))
        out.append(ref.uri(i).replace(":id:", ":idpat:", 1))
        if s in ref.ELEM:
            out.append(ref.elem(i))
        if s in ref.KEYED:
            out.append(ref.key(i))
        if s in ref.TAG:
            for c in ref.OF_SCHEME[s]:
                if ref.admits(i, c):
                    f = ref.filters(c)[-1]
                    b = ref.bits(i, c, f)
                    out += [ref.tag_uri(i, c, f), b, ref.hexa(b), ref.hexa(b).lower(), ref.b64(b)]
    return domains.uniq(out)


def tasks(tier):
    out = [("chars", k) for k in range(16)]
    out += [("tokens", k) for k in range(len(TOKENS))]
    for s in ref.ALL:
        n = len(domains.seeds(s)) if tier == "thorough" else 1
        for k in range(n):
            out += [("edit", s, k, j) for j in range(len(forms(s, k)))]
        out += [("trunc", s), ("long", s), ("runs", s)]
    out.append(("encode",))
    out += [("methods",) + t for t in domains.tasks(ref.ALL, ("serial",), tier) if t[3] in ("mix", "lens", "len", "num", "ints", "a")]
    return out


def stripes(task, tier):
    return 4 if tier == "thorough" and task[0] in ("edit", "tokens") else 1


def cases(task, tier):
    kind = task[0]
    if kind == "methods":
        for i in domains.idents(tuple(task[1:]), tier):
            yield ["methods", list(i)]
    elif kind == "chars":
        if task[1] == 0:
            yield [None, ""]
            for a in CH:
                yield [None, a]
        for k, a in enumerate(CH):
            if k % 16 == task[1]:
                for b in CH:
                    yield [None, a + b]
    elif kind == "tokens":
        a = TOKENS[task[1]]
        for n in (0, 1, 2):
            for t in product(TOKENS, repeat=n):
                yield [None, a + "".join(t)]
        if tier == "thorough":
            for t in product(TOKENS[::2], repeat=3):
                yield [None, a + "".join(t)]
    elif kind == "edit":
        _, s, k, j = task
        t = forms(s, k)[j]
        for e in domains.edits1(t, EDIT9 if tier == "quick" else domains.EDIT):
            yield [s, e]
    elif kind == "runs":
        # each component in turn is a long run followed by something that cannot end it
        s = task[1]
        for t in forms(s):
            head = t[:t.rindex(":") + 1] if t.startswith("urn") else t[:t.index(")") + 1] if t[0] == "(" else ""
            q = t[len(head):].split(".")
            for i in range(len(q)):
                for tok in RUN if len(t) < 90 else RUN[:3]:
                    for n in (30, 64) if tier == "quick" else (16, 30, 64, 300):
                        for end in ("!", "\n", "%", "%2", "%zz", "^", ".", "(", "é", "*", "a", "A", ":"):
                            yield [s, head + ".".join(q[:i] + [tok * n + end] + q[i + 1:])]
                            yield [s, head + ".".join(q[:i] + [q[i] + tok * n + end] + q[i + 1:])]
    elif kind == "trunc":
        for t in forms(task[1]):
            for i in range(len(t) + 1):
                yield [None if len(t) < 40 else task[1], t[:i]]
                yield [task[1], t[i:]]
    elif kind == "long":
        s = task[1]
        for n in (100, 4301, 20000):
            for tok in ("0", "1", "9", "A", "a", "%2F", "%", ".", ":", "*", "(", "()", "(21)", "01", "é", "%41", "0.", "1.1", "-", " ", "=", "/"):
                x = tok * n
                for p in forms(s, 0):
                    yield [s, p + x]
                    if n == 4301:
                        yield [s, x + p]
                        h = len(p) // 2
                        yield [s, p[:h] + x + p[h:]]
                        q = p.split(".")
                        for i in range(len(q)):
                            yield [s, ".".join(q[:i] + [x] + q[i + 1:])]
                yield [None, x]
    else:
        for s in ref.TAG:
            for i in domains.seeds(s):
                yield ["encode", list(i)]


def _methods(ident, c):
    """every method of an instance, whether or not the coding scheme admits it"""
    s = ident[0]
    x = api.CLS[s](ref.uri(ident))
    calls = [("str", lambda: str(x)), ("eq", lambda: x == x)]
    if s in ref.ELEM:
        calls.append(("gs1_element_string", x.gs1_element_string))
    if s in ref.KEYED:
        calls.append(("gs1_key", x.gs1_key))
    for n, t in api.GTIN.get(s, {}).items():
        calls.append(("gtin", lambda t=t: x.gtin(t)))
    for coding in ref.OF_SCHEME.get(s, ()):
        fs = ref.filters(coding)
        kw = api.kwargs(coding, fs[sum(map(ord, ident[-1])) % len(fs)])
        for m in ("tag_uri", "binary", "hex", "base64"):
            calls.append((m + " " + coding, lambda m=m, kw=kw: getattr(x, m)(**kw)))
    c.state(ident)
    for name, f in calls:
        r = api.run(f)
        c.step(r if isinstance(r, api.Err) else "ok", "ok", "%s of %s" % (name, ident))


def _answer(r):
    return "encoded" if isinstance(r, str) else api.show(r)


def check(case, c):
    who, text = case
    if who == "encode":
        ident = tuple(text)
        x = api.CLS[ident[0]](ref.uri(ident))
        for coding in ref.OF_SCHEME[ident[0]]:
            for f in ref.filters(coding):
                for m in ("tag_uri", "binary", "hex", "base64"):
                    r = api.run(getattr(x, m), **api.kwargs(coding, f))
                    c.state(m, coding, f, ident)
                    c.step(_answer(r), "encoded" if ref.admits(ident, coding) else "refused", "%s(%s,%s) of %s" % (m, coding, f, ident))
        return
    if who == "methods":
        _methods(tuple(text), c)
        return
    c.state(text)
    for name, f in ENTRIES.items() if who is None else FOR[who].items():
        try:
            r = f(text)
            c.transitions += 1
        except api.ConvertException:
            c.transitions += 1
            continue
        except Exception as e:  # noqa: BLE001
            c.step(repr(api.Err(e)), "a result or ConvertException", "%s(%r)" % (name, text[:300]))
            continue
        # only what the model accepts, too, and only a proper value of the entry point's kind
        want = result(name, text)
        if want is not None:
            c.step(api.show(api.given(r)), want, "%s(%r)" % (name, text[:300]))


def result(name, text):
    """what an entry point may give for a text; None where that is left open"""
    owner, _, rest = name.partition(".") if name[0].isupper() else ("", "", name)
    what, _, n = rest.partition("/")
    key = False
    if "gtin_plus" in what:
        return None
    if what in ("", "from_epc_uri") or what.startswith("epc_pure_identity"):
        i = ref.parse_any(text)
        if i and what in KINDS and i[0] not in KINDS[what]:
            i = None
        if i and what.endswith("element_string"):
            return ref.elem(i)
        key = what.endswith("gs1_key")
    elif "element_string" in what:
        i = ref.parse_elem(owner.lower(), text, int(n)) if owner else ref.parse_any_elem(text, int(n))
    elif what == "get_gs1_key":
        i = ref.source_ident(text, int(n) if n else None)[0]
        key = True
    elif "tag_uri" in what:
        r = ref.parse_tag_uri(text)
        i = r and r[2]
    else:
        b, ok = text, BITS.fullmatch(text)
        if "hex" in what:
            b, ok = "".join(ref.int_bits(int(x, 16), 4) for x in text) if DIGITS.fullmatch(text) else "", True
        elif "base64" in what:
            b, ok = ref_base64(text)
            if ok is None:
                return None
        r = ref.decode(b) if ok else None
        i = r and r[2]
    if i and owner and i[0] != owner.lower():
        i = None
    if key:
        k = i and ref.key(i)
        return k if k else "refused"
    return api.want(i)


KINDS = {api.NAME[g]: k for g, k in (("gs1_element", ref.ELEM), ("gs1_element_string", ref.ELEM), ("gs1_keyed", ref.KEYED),
                                     ("gs1_key", ref.KEYED), ("tag_encodable", ref.TAG))}
FOR = {s: {n: f for n, f in ENTRIES.items() if n.startswith(s.upper()) and n[len(s):len(s) + 1] in ("", ".", "/") or n[0].islower()
           or (s == "sgtin" and n.startswith("SGTIN"))} for s in ref.ALL}
