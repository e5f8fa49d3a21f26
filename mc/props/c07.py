"""C07: element strings convert back."""
from itertools import product

from mc import api, domains, hashing, ref

BOUNDS = {
    "quick": "element strings of identity families fields/serial/pairs/escapes of the 16 GS1 schemes with their own prefix length "
             "(all of 0..20 and large values for the seeds, core fields and escape-like serials); all single edits over 104 "
             "characters, all double edits over 6 characters, all AI x digit-count x serial-length shapes, all AI token "
             "sequences up to length 4; every seed element string through every class, also under 16 (thorough: 64) string hash seeds",
    "thorough": "same at thorough bounds, double edits over 10 characters",
}
LENS = list(range(0, 21)) + [100, 1000000]
AIS = ("(01)", "(21)", "(10)", "(235)", "(8006)", "(00)", "(414)", "(254)", "(8003)0", "(8004)", "(8018)", "(8017)",
       "(253)", "(255)", "(401)", "(402)", "(417)", "(8010)", "(8011)", "(8003)", "(99)", "01", "()", "(021)")


def tasks(tier):
    out = [("valid",) + t for t in domains.tasks(ref.ELEM, ("fields", "serial", "pairs", "escapes"), tier)]
    for s in ref.ELEM:
        out += [("cross", s), ("lengths", s), ("tokens", s)]
        for k in range(len(domains.seeds(s))):
            out += [("edit1", s, k), ("edit2", s, k)]
    return out + hashing.tasks(tier)


def stripes(task, tier):
    if task[0] == "valid":
        return domains.stripes(task[1:], tier)
    return 4 if tier == "thorough" else 1


def cases(task, tier):
    kind, s = task[0], task[1]
    if kind == "hashing":
        yield ["hashing", "", [s]]
        return
    if kind == "hashed":
        for s in ref.ELEM:
            yield from cases(("cross", s), tier)
        return
    if kind == "valid":
        t = tuple(task[1:])
        for i in domains.idents(t, tier):
            w = (t[0] == "fields" and domains.wide(t, i)) or t[3] == "rawesc"
            yield [i[0], ref.elem(i), LENS[:16] if w and t[2] in (6, 9, 12) else [len(i[1])]]
        return
    seen = set()
    for t in _texts(task, tier):
        if t[0] not in seen:
            seen.add(t[0])
            yield [s, t[0], t[1]]


def _texts(task, tier):
    kind, s = task[0], task[1]
    if kind == "cross":
        for o in ref.ALL:
            for i in domains.seeds(o):
                for t in (ref.elem(i), ref.uri(i), ref.key(i), "", "()", "(", ")"):
                    if t is not None:
                        yield t, LENS
        for i in domains.seeds(s):
            t = ref.elem(i)
            for a in ("", " ", "\n", "(", ")", "x", "0", "(21)", "\x1d"):
                yield a + t, LENS
                yield t + a, LENS
            for k in range(len(t)):
                yield t[:k], LENS
                yield t[k:], [7, 12]
    elif kind == "edit1":
        i = domains.seeds(s)[task[2]]
        for t in domains.edits1(ref.elem(i), domains.EDIT):
            yield t, [len(i[1])]
    elif kind == "edit2":
        i = domains.seeds(s)[task[2]]
        for t in domains.edits2(ref.elem(i), "09()A%" if tier == "quick" else "01289()A%/"):
            yield t, [len(i[1])]
    elif kind == "tokens":
        i = domains.seeds(s)[0]
        t = ref.elem(i)
        toks = ["(21)", "(", ")", "21", "(10)", "0", "A", "9506000134352", "95060001343520", "%2F", "/", ".", "(8011)",
                "(254)", "(01)", "0102", "95060001343528", "é", "١"]
        ai = t[:t.index(")") + 1]
        for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for x in product(toks, repeat=k):
                yield ai + "".join(x), [7]
    elif kind == "lengths":
        i = domains.seeds(s)[0]
        t = ref.elem(i)
        ai = t[:t.index(")") + 1]
        second = next((a for a in ("(21)", "(10)", "(235)", "(254)", "(8011)") if a in t), "")
        for n in range(0, 40):
            for d in ("0", "9", "1234567890"):
                b = (d * 40)[:n]
                yield ai + b, [6, 7, 9, 12]
                yield ai + "0" + b, [6, 7, 9, 12]
                for m in (list(range(0, 32)) if 11 <= n <= 20 else (0, 1, 12, 20)):
                    for z in ("0", "7", "A", "/", "%"):
                        if second:
                            yield ai + b + second + z * m, [6, 7, 9, 12]
                        else:
                            yield ai + b + z * m, [6, 7, 9, 12]


def check(case, c):
    s, text, lens = case
    if s == "hashing":
        return hashing.check("C07", lens[0], c)
    cls = api.CLS[s]
    for n in lens:
        ident = ref.parse_elem(s, text, n)
        want = api.want(ident)
        got = api.show(api.run(cls.from_gs1_element_string, text, n))
        c.state(text, n)
        c.state(want)
        # an element string with a wrong check digit may be refused or read as if it were right
        lax = ident is not None and ref.elem(ident) != text
        c.note("lax" if lax else "accepted" if ident else "refused")
        if not (lax and got == "refused"):
            c.step(got, want, "%s.from_gs1_element_string(%r, %d)" % (s.upper(), text, n))
        if ident is not None and not lax:
            c.step(api.show(api.run(cls.from_gs1_element_string, text, company_prefix_length=n)), want,
                   "%s.from_gs1_element_string(%r, company_prefix_length=%d)" % (s.upper(), text, n))
        # the generic parser reads it as the one scheme it belongs to
        if ident is None:
            ident = ref.parse_any_elem(text, n)
            lax = ident is not None and ref.elem(ident) != text
        got = api.show(api.run(api.GENERIC["elem"], text, n))
        if not (lax and got == "refused"):
            c.step(got, api.want(ident), "gs1_element_string_to_gs1_element(%r, %d)" % (text, n))
