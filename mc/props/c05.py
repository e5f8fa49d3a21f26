"""C05: pure identity URIs accepted exactly when valid, kept verbatim."""
from itertools import product

from mc import api, domains, ref

BOUNDS = {
    "quick": "21 schemes: identity families fields/serial/escapes; all token sequences of up to 4 components over 18 tokens; all "
             "prefix x reference x serial lengths past the limits; all %XY escapes in context; all single edits over 104 "
             "characters and all double edits over 9 characters of the seed URIs; all seeds through all classes",
    "thorough": "same with thorough families, 5 components, double edits over 14 characters on all seeds",
}
TOK = ["", "0", "1", "7", "00", "01", "04", "99", "12", "12345", "123456", "1234567", "123456789012", "1234567890123",
       "A", "%2F", "*", "2S194", "W81X9C"]


def tasks(tier):
    out = [("valid",) + t for t in domains.tasks(ref.ALL, ("fields", "serial", "escapes"), tier)]
    for s in ref.ALL:
        out += [("tokens", s, n) for n in range(0, 5 if tier == "quick" else 6)]
        out += [("lengths", s), ("escape", s), ("cross", s), ("prefix", s), ("numbers", s)]
        for k in range(len(domains.seeds(s))):
            out.append(("edit1", s, k))
            if k < 2 or tier == "thorough":
                out.append(("edit2", s, k))
    return out


def stripes(task, tier):
    if task[0] == "valid":
        return domains.stripes(task[1:], tier)
    if task[0] == "edit2":
        return 1 if tier == "quick" else 8
    return 12 if task[0] == "tokens" and task[2] == 5 else 1


def cases(task, tier):
    kind, s = task[0], task[1]
    if kind == "valid":
        for i in domains.idents(tuple(task[1:]), tier):
            yield [i[0], ref.uri(i)]
        return
    seen = set()
    for t in _texts(task, tier):
        if t not in seen:
            seen.add(t)
            yield [s, t]


def _texts(task, tier):
    kind, s = task[0], task[1]
    pre = ref.prefix_of(s)
    if kind == "tokens":
        for t in product(TOK, repeat=task[2]):
            yield pre + ".".join(t)
    elif kind == "edit1":
        yield from domains.edits1(ref.uri(domains.seeds(s)[task[2]]), domains.EDIT)
    elif kind == "edit2":
        body = ".".join(domains.seeds(s)[task[2]][1:])
        for b in domains.edits2(body, "019A.%:a*" if tier == "quick" else "019AZ.%:a*-/#F"):
            yield pre + b
    elif kind == "cross":
        for o in ref.ALL:
            for i in domains.seeds(o):
                yield ref.uri(i)
                yield pre + ".".join(i[1:])
                for p in ("urn:epc:tag:%s-96:3." % o, "urn:epc:idpat:%s:" % o, "urn:epc:class:%s:" % o,
                          "urn:epc:id:%s:" % o, "urn:epc:id:%s-96:" % o):
                    yield p + ".".join(i[1:])
    elif kind == "prefix":
        for i in domains.seeds(s):
            b = ".".join(i[1:])
            for p in ("", "urn:", "urn:epc:", "urn:epc:id:", "URN:EPC:ID:%s:" % s, "Urn:epc:id:%s:" % s,
                      "urn:EPC:id:%s:" % s, "urn:epc:ID:%s:" % s, "urn:epc:id:%s:" % s.upper(),
                      "urn:epc:id:%s:" % s.capitalize(), "urn:epc:id::%s:" % s, "urn:epc:id:%s" % s,
                      "urn:epc:id:%s." % s, "urn:epc:id:%s::" % s, " " + pre, "x" + pre, "\n" + pre, pre + " ",
                      pre + pre, "urn.epc.id.%s." % s, "urn-epc-id-%s-" % s, "urn:epc:id:%s:\n" % s,
                      "urn:epc:class:%s:" % s, "urn:epc:idpat:%s:" % s, "urn:epc:tag:%s:" % s, "urn:epc:raw:%s:" % s,
                      "https://id.gs1.org/%s/" % s):
                for q in ("", " ", "\n", "\r", "\x00", ".", ":", "\t", "..", ".0", "\r\n", "\u2028", "\x0b", "\x85"):
                    yield p + b + q
            for q in ("", " ", "\n", "\r", "\x00", ".", ":", "\t", "..", ".0", "\r\n", "\u2028", "\x0b", "\x85"):
                yield pre + b + q
                yield pre + q + b
                for k in range(1, len(i)):
                    f = list(i[1:])
                    f[k - 1] += q
                    yield pre + ".".join(f)
                    f = list(i[1:])
                    f[k - 1] = q + f[k - 1]
                    yield pre + ".".join(f)
            for k in range(len(pre + b)):
                yield (pre + b)[:k]
    elif kind == "lengths":
        if s in ("gid", "usdod", "adi", "bic", "imovn"):
            for a in range(0, 36):
                for b in range(0, 36):
                    if s == "adi":
                        for ca in ("2S194", "2S194A", "2S19", "2S19401"):
                            for x, y in (("0", "0"), ("A", "B"), ("%2F", "%2F"), ("-", "-")):
                                yield pre + "%s.%s.%s" % (ca, x * a, y * b)
                                yield pre + "%s.%s.%s%s" % (ca, x * a, "%23", y * b)
                    elif s == "usdod":
                        for x, y in (("0", "0"), ("A", "9"), ("Z", "1")):
                            yield pre + "%s.%s" % (x * a, y * b)
                    elif s == "gid":
                        for z in ("0", "1", "9" * 11, "6" * 11):
                            yield pre + "%s.%s.%s" % ("1" * a, "1" * b, z)
                            yield pre + "%s.%s.%s" % ("9" * a, "1" * b, z)
                    else:
                        yield pre + "A" * a + "1" * b
                        yield pre + "CSQ" + "U" * a + "3" * b
            return
        total = domains.REF_DIGITS.get(s, 30)
        m = domains.SERIAL_MAX.get(s, 12)
        for a in range(0, 18):
            for b in range(0, 34 if s in ("giai", "ginc", "cpi") else 20):
                for x, y in (("0", "0"), ("1", "9"), ("9", "A"), ("1", "%2F"), ("1", "%41"), ("A", "1")):
                    p, r = x * a, y * b
                    if s in ("sscc", "gsrn", "gsrnp", "gsin", "pgln", "giai", "ginc"):
                        yield pre + "%s.%s" % (p, r)
                        continue
                    if s not in ("cpi",) and abs(a + b - total) > 2 and b:
                        continue
                    for n in (0, 1, 2, m - 1, m, m + 1, m + 2, 40):
                        for z in ("0", "5", "A", "%2F", "%25", "%22"):
                            if s == "itip":
                                for pt in (".01.02.", ".1.2.", ".001.02.", ".."):
                                    yield pre + p + "." + r + pt + z * n
                            else:
                                yield pre + "%s.%s.%s" % (p, r, z * n)
    elif kind == "escape":
        if s in domains.STRINGY:
            p = domains.asc(7)
            r = domains.desc(domains.REF_DIGITS.get(s, 7) - 7)
            m = domains.SERIAL_MAX.get(s, 23)
            ok = [c for c in ref.CSET82]

            def u(x):
                return ref.uri(domains.mid(s, 7, p, r, x))
        elif s in ("cpi", "adi"):
            m = 23 if s == "cpi" else 30
            ok = "09AZ-/#"

            def u(x):
                return pre + ("1234567.%s.5" % x if s == "cpi" else "2S194.P.%s" % x)
        else:
            for x in ("%30", "%31", "%39", "%2F", "%41", "%"):
                for i in domains.seeds(s):
                    for k in range(1, len(i)):
                        for j in range(len(i[k]) + 1):
                            f = list(i)
                            f[k] = f[k][:j] + x + f[k][j:]
                            yield ref.uri(tuple(f))
                            f[k] = i[k][:j] + x + i[k][j + 1:]
                            yield ref.uri(tuple(f))
            return
        H = "0123456789ABCDEFabcdefgGxX .%-+_\u0661\n"
        for x, y in product(H, H):
            for a in ("", "a", "2", "A"):
                for b in ("", "b", "2", "F"):
                    yield u(a + "%" + x + y + b)
        esc = ["%%%02X" % ord(c) for c in ok] + ["%%%02x" % ord(c) for c in ok]
        for x, y in product(esc, repeat=2):
            yield u(x + y)
        for a in range(0, m + 3):
            for b in range(0, m + 3 - a):
                yield u("1" * a + "%2F" * b)
                yield u("%25" * b + "9" * a)
                yield u("%41" * b + "9" * a)
                yield u("1" * a + "%2F" * b + "%")
                yield u("1" * a + "%2F" * b + "%2")
                yield u("1" * a + "%2f" * b)
                yield u("A" * a + "%23" * b)
    elif kind == "numbers":
        ds = domains.ints(42, 120)
        for i in domains.seeds(s):
            for k in range(1, len(i)):
                for v in ds:
                    for w in (v, "0" + v, "-" + v, "+" + v, v + "0", " " + v, v + " ", v[:1] + "_" + v[1:], "0x" + v,
                              v + ".0", "".join(chr(0x660 + int(c)) for c in v)):
                        f = list(i)
                        f[k] = w
                        yield ref.uri(tuple(f))
                    if len(v) < len(i[k]):
                        f = list(i)
                        f[k] = v.rjust(len(i[k]), "0")
                        yield ref.uri(tuple(f))


def check(case, c):
    s, text = case
    ident = ref.parse_uri(s, text)
    want = "refused" if ident is None else "%s(%s)" % (s.upper(), text)
    c.state(want if ident else text)
    cls = api.CLS[s]
    c.note("accepted" if ident else "refused")
    c.step(api.show(api.run(cls, text)), want, "%s(%r)" % (s.upper(), text))
    c.step(api.show(api.run(cls.from_epc_uri, text)), want, "%s.from_epc_uri(%r)" % (s.upper(), text))
