"""Public operations as data, for histories (C12) and schedules (C13)."""
import enum
import json
import os
import re
import signal
import socket
import sys
from collections import deque

from mc import api, domains, ref

# near-duplicates: what a wrong cache key or a shared buffer would mix up
POOL = {
    "sgtin": [("0614141", "812345", "6789"), ("061414", "1812345", "6789"), ("0614141", "812345", "a%2Fb"), ("0614141", "812345", "A%2Fb")],
    "lgtin": [("0614141", "712345", "a"), ("0614141", "712345", "A"), ("0614141", "012345", "a%2Fb")],
    "upui": [("0614141", "712345", "a"), ("0614141", "712345", "A"), ("061414", "1712345", "a")],
    "itip": [("4012345", "012345", "01", "02", "987"), ("4012345", "012345", "02", "01", "987"), ("4012345", "012345", "01", "02", "a%2Fb")],
    "sscc": [("0614141", "1234567890"), ("061414", "11234567890"), ("614141123456", "78901")],
    "gsrn": [("0614141", "1234567890"), ("061414", "11234567890"), ("614141123456", "78901")],
    "gsrnp": [("0614141", "1234567890"), ("061414", "11234567890"), ("614141123456", "78901")],
    "gsin": [("0614141", "123456789"), ("061414", "1123456789")],
    "pgln": [("0614141", "12345"), ("061414", "112345")],
    "sgln": [("0614141", "12345", "400"), ("061414", "112345", "400"), ("0614141", "12345", "a%2Fb"), ("614141123456", "", "0")],
    "grai": [("0614141", "12345", "400"), ("061414", "112345", "400"), ("0614141", "12345", "a%2Fb"), ("614141123456", "", "0")],
    "gdti": [("0614141", "12345", "400"), ("061414", "112345", "400"), ("0614141", "12345", "a%2Fb"), ("614141123456", "", "0")],
    "sgcn": [("0614141", "12345", "400"), ("0614141", "12345", "0400"), ("614141123456", "", "0")],
    "giai": [("0614141", "12345400"), ("061414", "112345400"), ("0614141", "0a%2F"), ("0614141", "0A%2F")],
    "ginc": [("0614141", "xyz"), ("0614141", "XYZ"), ("061414", "1xyz")],
    "cpi": [("0614141", "123456", "12"), ("061414", "1123456", "12"), ("0614141", "5PQ7%2FZ43", "12")],
    "gid": [("31415", "271828", "1414"), ("31415", "271828", "1415"), ("31415", "27182", "81414")],
    "usdod": [("2S194", "12345678901"), ("CB0CDE", "12345678901"), ("2S194", "0")],
    "adi": [("W81X9C", "3KL984PX1", "2WMA52"), ("2S194", "", "%23A1%2F"), ("W81X9C", "3KL98", "4PX12WMA52")],
    "bic": [("CSQU3054383",), ("CSQZ3054383",)],
    "imovn": [("9176187",), ("9176188",)],
}


# differ from the first of the pool in every field, plain and (for the long codings) alphanumeric
FAR = {
    "sgtin": [("9521357", "207318", "1450"), ("9521357", "207318", "x%22Yz")],
    "lgtin": [("9521357", "207318", "x%22Yz")],
    "upui": [("9521357", "207318", "x%22Yz")],
    "itip": [("9521357", "207318", "35", "46", "105"), ("9521357", "207318", "35", "46", "x%22Y")],
    "sscc": [("9521357", "8706543212")],
    "gsrn": [("9521357", "8706543212")],
    "gsrnp": [("9521357", "8706543212")],
    "gsin": [("9521357", "870654321")],
    "pgln": [("9521357", "87065")],
    "sgln": [("9521357", "87065", "713"), ("9521357", "87065", "x%22Yz")],
    "grai": [("9521357", "87065", "713"), ("9521357", "87065", "x%22Yz")],
    "gdti": [("9521357", "87065", "713"), ("9521357", "87065", "x%22Yz")],
    "sgcn": [("9521357", "87065", "713")],
    "giai": [("9521357", "87065713"), ("9521357", "x%22Yz")],
    "ginc": [("9521357", "x%22Yz")],
    "cpi": [("9521357", "870654", "35"), ("9521357", "QA%23-B", "35")],
    "gid": [("95213", "870654", "7357")],
    "usdod": [("CB0CDE", "68719476735")],
    "adi": [("2S194", "QA-B%2F", "%23X9Y8")],
    "bic": [("ABCJ9876543",)],
    "imovn": [("8034206",)],
}


def far(s, coding=None):
    """identifier unlike pool(s)[0]; the last one that the coding admits"""
    return [i for i in ((s,) + f for f in FAR[s]) if coding is None or ref.admits(i, coding)][-1]


def pool(s):
    return [(s,) + f for f in POOL[s]]


def alphabet(s, full=True):
    """operations on the pool of one scheme; full=False gives a short list"""
    out = []
    ids = pool(s) if full else pool(s)[:2]
    for i in ids:
        i = list(i)
        t = tuple(i)
        for co in ref.OF_SCHEME.get(s, ()):
            fs = ref.filters(co)
            picks = [fs[0], fs[-1]] if len(fs) > 1 else fs
            for n, f in enumerate(picks):
                for m in ("binary", "hex", "tag_uri", "base64") if full and i == list(ids[0]) else (("binary", "tag_uri") if n else ("hex",)):
                    out.append(["enc", i, m, co, f])
            if full and ref.admits(t, co):
                b = ref.bits(t, co, fs[-1])
                out.append(["dec", s, "from_binary", b])
                out.append(["decenc", s, "from_tag_uri", ref.tag_uri(t, co, fs[0]), "binary", co, fs[-1]])
                if t == ids[0]:
                    out.append(["gen", "hex", ref.hexa(b)])
        if s in ref.ELEM:
            out.append(["elem", i])
            if full:
                out.append(["fromelem", s, ref.elem(t), len(t[1])])
        if s in ref.KEYED:
            out.append(["key", i, None])
        if s in ("sgtin", "lgtin"):
            out.append(["key", i, 13])
        out.append(["uri", i])
        out.append(["new", s, ref.uri(t)])
    # failing operations
    out.append(["new", s, ref.uri(pool(s)[0]) + "!"])
    if full:
        out.append(["new", s, ref.uri(pool(s)[0])[:-1] + "%"])
        out.append(["eq", list(pool(s)[0]), list(pool(s)[1])])
        out.append(["gen", "scheme", ref.uri(pool(s)[1])])
        if s in ref.TAG:
            co = ref.OF_SCHEME[s][0]
            b = ref.bits(pool(s)[0], co, ref.filters(co)[0])
            out.append(["dec", s, "from_binary", b[:40]])
            out.append(["dec", s, "from_binary", b[:11] + "111" + b[14:]])
            out.append(["dec", s, "from_hex", "zz"])
        if s in ref.KEYED:
            out.append(["gen", "get_key", ref.uri(pool(s)[0])])
            out.append(["gen", "get_key", ref.uri(pool(s)[0]) + "!"])
    return domains.uniq_lists(out)


def reps():
    """one short list of operations over all schemes"""
    out = []
    for s in ref.ALL:
        i = list(pool(s)[0])
        for co in ref.OF_SCHEME.get(s, ()):
            fs = ref.filters(co)
            out.append(["enc", i, "binary", co, fs[-1]])
            if ref.admits(tuple(i), co):
                out.append(["dec", s, "from_binary", ref.bits(tuple(i), co, fs[0])])
        if s in ref.ELEM:
            out.append(["elem", i])
            out.append(["fromelem", s, ref.elem(tuple(i)), len(i[1])])
        if s in ref.KEYED:
            out.append(["gen", "get_key", ref.uri(tuple(i)).replace(":id:", ":idpat:")])
        out.append(["gen", "scheme", ref.uri(tuple(i))])
        out.append(["new", s, ref.uri(tuple(i)) + "%"])
    return out


def foreign():
    """every class given every scheme's representations, mostly not its own"""
    out = []
    first = {s: pool(s)[0] for s in ref.ALL}
    tags = [(co, ref.CODINGS[co][0]) for co in ref.CODINGS]
    for s in ref.ALL:
        out += [["new", s, ref.uri(first[o])] for o in ref.ALL]
        if s in ref.TAG:
            for co, o in tags:
                f = ref.filters(co)[0]
                out.append(["dec", s, "from_binary", ref.bits(first[o], co, f)])
                out.append(["dec", s, "from_tag_uri", ref.tag_uri(first[o], co, f)])
        if s in ref.ELEM:
            out += [["fromelem", s, ref.elem(first[o]), 7] for o in ref.ELEM]
    return out


def edited(s):
    """operations on texts one edit away from valid ones, most of them refused"""
    out = []
    a, z = domains.seeds(s)[0], domains.seeds(s)[-1]
    for i in (a, z):
        t = ref.uri(i)
        k = len(ref.prefix_of(s))
        out += [["new", s, t[:k] + e] for e in domains.edits1(t[k:], "0A%.")]
        out += [["new", s, t + "%%%02X" % n] for n in range(256)]
        out += [["gen", "scheme", t[:n]] for n in range(len(t))]
        if s in ref.KEYED:
            out += [["gen", "get_key", t[:n]] for n in range(k, len(t))]
    for co in ref.OF_SCHEME.get(s, ()):
        f = ref.filters(co)[-1]
        for i in domains.seeds(s):
            if ref.admits(i, co):
                break
        t = ref.tag_uri(i, co, f)
        b = ref.bits(i, co, f)
        out += [["dec", s, "from_tag_uri", e] for e in domains.edits1(t, "0.", ins=False)]
        out += [["dec", s, "from_binary", b[:n] + "10"[int(b[n])] + b[n + 1:]] for n in range(len(b))]
        out += [["dec", s, "from_hex", ref.hexa(b)[:n]] for n in range(0, len(b) // 4)]
        out += [["enc", list(i), "binary", co, f]]
    if s in ref.ELEM:
        for i in (a, z):
            out += [["fromelem", s, e, len(i[1])] for e in domains.edits1(ref.elem(i), "0(", ins=False)]
            out += [["fromelem", s, ref.elem(i), n] for n in range(4, 15)]
    return domains.uniq_lists(out)


def nth(s, n):
    """the n-th of a long row of identities that differ in one number only"""
    i = pool(s)[0]
    if s in ("sscc", "gsrn", "gsrnp", "gsin", "pgln", "imovn"):
        last = "%0*d" % (len(i[-1]), 10 ** (len(i[-1]) - 1) + n)
    elif s == "bic":
        last = i[-1][:4] + "%07d" % n
    else:
        last = str(1000 + n)
    return i[:-1] + (last,)


def kinds(s):
    out = ["new"] + ["hex " + co for co in ref.OF_SCHEME.get(s, ())] + ["read " + co for co in ref.OF_SCHEME.get(s, ())] + \
        ["tag_uri " + co for co in ref.OF_SCHEME.get(s, ())[-1:]]
    if s in ref.ELEM:
        out += ["elem", "fromelem"]
    if s in ref.KEYED:
        out.append("get_key")
    if s == "sgtin":
        out.append("plus")
    return out


def kind_op(s, kind, n):
    """the operation of that kind on the n-th identity"""
    i = nth(s, n)
    k, _, co = kind.partition(" ")
    f = ref.filters(co)[-1] if co else None
    if k == "new":
        return ["new", s, ref.uri(i)]
    if k == "hex":
        return ["enc", list(i), "hex", co, f]
    if k == "read":
        return ["gen", "hex", ref.hexa(ref.bits(i, co, f))]
    if k == "tag_uri":
        return ["gen", "tag_uri", ref.tag_uri(i, co, f)]
    if k == "elem":
        return ["elem", list(i)]
    if k == "fromelem":
        return ["gen", "elem", ref.elem(i), len(i[1])]
    if k == "get_key":
        return ["gen", "get_key", ref.uri(i)]
    return ["plus", ref.key(i), i[3], len(i[1])]


def kind_want(s, kind, n):
    """the model's outcome of it"""
    i = nth(s, n)
    k, _, co = kind.partition(" ")
    if k == "hex":
        return ref.hexa(ref.bits(i, co, ref.filters(co)[-1]))
    if k == "elem":
        return ref.elem(i)
    if k == "get_key":
        return ref.key(i)
    return api.want(i)


URI_PARSERS = ("scheme", "gs1_element", "gs1_element_string", "gs1_keyed", "gs1_key", "tag_encodable")


def entries(s, i):
    """every entry point applied to one identity, as {entry point: operations that differ in the other arguments}"""
    out = {}

    def put(name, *o):
        out.setdefault(name, []).append(list(o))

    u = ref.uri(i)
    for g in URI_PARSERS:
        put("gen " + g, "gen", g, u)
    put("from_epc_uri", "dec", s, "from_epc_uri", u)
    put("eq", "eq", list(i), list(i))
    for co in ref.OF_SCHEME.get(s, ()):
        for m in ("binary", "hex", "base64", "tag_uri"):
            for f in (ref.filters(co)[0], ref.filters(co)[-1])[:1 + (ref.filters(co)[0] is not None)]:
                put(m, "enc", list(i), m, co, f)
        if not ref.admits(i, co):
            continue
        f = ref.filters(co)[-1]
        b = ref.bits(i, co, f)
        h, e, t = ref.hexa(b), ref.b64(b), ref.tag_uri(i, co, f)
        for g, x in (("binary", b), ("hex", h), ("hex", h.lower()), ("base64", e), ("base64", e.rstrip("=")), ("tag_uri", t)):
            put("gen " + g, "gen", g, x)
            put("from_" + g, "dec", s, "from_" + g, x)
        for x in (b, h, h.lower(), t):
            put("get_key tag", "gen", "get_key", x)
    if s in ref.ELEM:
        x = ref.elem(i)
        put("elem", "elem", list(i))
        for n in range(5, 14):
            put("from_elem", "fromelem", s, x, n)
            put("gen elem", "gen", "elem", x, n)
            put("get_key elem", "gen", "get_key", x, n)
        put("get_key elem", "gen", "get_key", x)
    if s in ref.KEYED:
        put("key", "key", list(i), None)
        put("get_key uri", "gen", "get_key", u)
        p = u.replace(":id:", ":idpat:", 1)
        put("get_key idpat", "gen", "get_key", p)
        put("get_key idpat", "gen", "get_key", p.rpartition(".")[0] + ".*")
    if s in ("sgtin", "lgtin"):
        for n in (8, 12, 13, 14):
            put("key", "key", list(i), n)
            put("gtin", "gtin", list(i), n)
            put("gs1_key type", "keyof", "gs1_key", u, n)
            put("get_key type", "keyof", "get_key", u, n)
    if s == "sgtin":
        for n in range(5, 14):
            put("plus", "plus", ref.key(i), i[3], n)
        put("plus", "plus", ref.key(i), "0", 7)
    return {k: domains.uniq_lists(v) for k, v in out.items()}


def entry_list(s):
    """entry points of one scheme on near-duplicate and unlike identities, and on one that has a short GTIN"""
    out = []
    ids = pool(s) + [(s,) + f for f in FAR[s]]
    if s in ("sgtin", "lgtin"):
        ids.append((s, "000000", "0012345", "7"))
    for i in ids:
        for l in entries(s, i).values():
            out += l
    return domains.uniq_lists(out)


def many(s, n):
    """several operations on each of up to n distinct identities, with the model's outcome where it fixes the whole outcome"""
    ids = []
    for t in domains.tasks((s,), ("serial", "fields"), "quick"):
        if t[2] in (0, 7, 12) and t[3] in ("mix", "lens", "a", "b", ""):
            for i in domains.idents(t, "quick"):
                ids.append(i)
                if len(ids) >= n * 7:
                    break
    ids = domains.uniq(ids)
    ids = ids[::max(1, len(ids) // n)][:n]
    out = []
    for i in ids:
        u = ref.uri(i)
        out.append((["new", s, u], api.want(i)))
        for co in ref.OF_SCHEME.get(s, ()):
            if ref.admits(i, co):
                f = ref.filters(co)
                f = f[sum(map(ord, u)) % len(f)]
                b = ref.bits(i, co, f)
                out.append((["enc", list(i), "hex", co, f], ref.hexa(b)))
                out.append((["gen", "hex", ref.hexa(b)], api.want(i)))
                out.append((["gen", "tag_uri", ref.tag_uri(i, co, f)], api.want(i)))
        if s in ref.ELEM:
            out.append((["elem", list(i)], ref.elem(i)))
            out.append((["fromelem", s, ref.elem(i), len(i[1])], api.want(i)))
        if s in ref.KEYED:
            out.append((["gen", "get_key", u], ref.key(i)))
    return out


class World:
    """instances shared by the operations of one history"""

    def __init__(self):
        self.at = {}

    def get(self, ident):
        ident = tuple(ident)
        x = self.at.get(ident)
        if x is None:
            x = self.at[ident] = api.CLS[ident[0]](ref.uri(ident))
        return x

    def prepare(self, op):
        k = op[0]
        if k in ("enc", "elem", "key", "uri", "gtin"):
            self.get(op[1])
        elif k == "eq":
            self.get(op[1])
            self.get(op[2])


class Refused(str):
    """a ConvertException with its message"""


def run(f, *a, **k):
    try:
        return api.given(f(*a, **k))
    except api.ConvertException as e:
        return Refused("refused: " + re.sub("0x[0-9a-fA-F]+", "0x", str(e)))
    except Exception as e:  # noqa: BLE001
        return api.Err(e)


show = api.show


def do(op, w):
    """perform an operation; its observable outcome as a string"""
    k = op[0]
    if k == "enc":
        return show(run(getattr(w.get(op[1]), op[2]), **api.kwargs(op[3], op[4])))
    if k == "elem":
        return show(run(w.get(op[1]).gs1_element_string))
    if k == "key":
        x = w.get(op[1])
        if op[2] is None:
            return show(run(x.gs1_key))
        return show(run(x.gs1_key, gtin_type=api.GTIN[op[1][0]][op[2]]))
    if k == "uri":
        return w.get(op[1]).epc_uri
    if k == "new":
        return show(run(api.CLS[op[1]], op[2]))
    if k == "dec":
        return show(run(getattr(api.CLS[op[1]], op[2]), op[3]))
    if k == "decenc":
        x = run(getattr(api.CLS[op[1]], op[2]), op[3])
        if isinstance(x, (Refused, api.Err)):
            return show(x)
        return show(x) + " " + show(run(getattr(x, op[4]), **api.kwargs(op[5], op[6])))
    if k == "fromelem":
        return show(run(api.CLS[op[1]].from_gs1_element_string, op[2], op[3]))
    if k == "gen":
        return show(run(api.GENERIC[op[1]], *op[2:]))
    if k == "keyof":
        return show(run(api.GENERIC[op[1]], op[2], gtin_type=api.GTIN["sgtin"][op[3]]))
    if k == "gtin":
        x = w.get(op[1])
        return show(run(x.gtin, gtin_type=api.GTIN[op[1][0]][op[2]]))
    if k == "plus":
        return show(run(api.CLS["sgtin"].from_gtin_plus_serial, *op[1:]))
    if k == "eq":
        return str(w.get(op[1]) == w.get(op[2]))
    raise KeyError(k)


# ------------------------------------------------------------------ state digest (never judged, only used to detect closure)

def _plain(v, depth=0):
    if depth > 6:
        return "..."
    if isinstance(v, (str, int, float, bytes, type(None), bool)):
        return repr(v)
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, re.Pattern):
        return v.pattern
    if isinstance(v, dict):
        return "{" + ",".join(_plain(a, depth + 1) + ":" + _plain(b, depth + 1) for a, b in list(v.items())) + "}"
    if isinstance(v, (list, tuple, deque)):
        return "[" + ",".join(_plain(a, depth + 1) for a in list(v)) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ",".join(sorted(_plain(a, depth + 1) for a in list(v))) + "}"
    if hasattr(v, "cache_info"):
        return str(v.cache_info())
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, property):
        return "p" + _plain([v.fget, v.fset], depth + 1)
    f = getattr(v, "__func__", v)
    if callable(f) and hasattr(f, "__code__"):
        return "f" + _plain([getattr(f, "__defaults__", None), getattr(f, "__kwdefaults__", None), getattr(f, "__dict__", None)], depth + 1) + \
            _plain([_cell(x) for x in getattr(f, "__closure__", None) or ()], depth + 1)
    if type(v).__module__.startswith("epcpy"):
        return type(v).__name__ + _plain(_attrs(v), depth + 1)
    try:
        return "%s %d" % (type(v).__name__, len(v))
    except Exception:  # noqa: BLE001
        return type(v).__name__


def _cell(x):
    try:
        return x.cell_contents
    except ValueError:
        return None


def _attrs(x):
    """instance data, wherever the class keeps it"""
    out = dict(getattr(x, "__dict__", {}))
    for k in type(x).__mro__:
        names = k.__dict__.get("__slots__", ())
        for n in (names,) if isinstance(names, str) else names:
            if n.startswith("__") and not n.endswith("__"):
                n = "_%s%s" % (k.__name__.lstrip("_"), n)
            if n not in ("__dict__", "__weakref__") and hasattr(x, n):
                out[n] = getattr(x, n)
    return out


def library():
    """name -> digest of everything the library keeps outside instances"""
    out = {}
    for n in sorted(sys.modules):
        if n == "epcpy" or n.startswith("epcpy."):
            for a, v in sorted(vars(sys.modules[n]).items()):
                if a.startswith("__"):
                    continue
                if isinstance(v, type) and v.__module__.startswith("epcpy"):
                    for p, q in sorted(vars(v).items()):
                        if p not in ("__dict__", "__weakref__", "__doc__", "__module__"):
                            out["%s.%s.%s" % (v.__module__, a, p)] = _plain(q)
                else:
                    out["%s.%s" % (n, a)] = _plain(v)
    return out


def digest(w):
    out = []
    for k in sorted(w.at):
        x = w.at[k]
        out.append(_plain(sorted((a, _plain(b)) for a, b in _attrs(x).items())))
    out += [a + b for a, b in library().items()]
    return hash("|".join(out))


def grown(seq):
    """names of library data that changes with distinct operations of a kind; the first ones only warm up"""
    w = World()
    for o in seq[:3]:
        do(o, w)
    a = library()
    for o in seq[3:]:
        do(o, World())
    b = library()
    return sorted(n for n in b if a.get(n) != b[n])


def _containers(v, out, depth=0):
    """everything with a size that is reachable from library data, by id"""
    if depth > 4 or id(v) in out or isinstance(v, (str, int, float, bytes, type(None), enum.Enum, re.Pattern, type)):
        return
    if hasattr(v, "cache_info"):
        out[id(v)] = v
    elif isinstance(v, (dict, list, tuple, set, frozenset, deque)):
        out[id(v)] = v
        for x in list(v.values() if isinstance(v, dict) else v)[:40]:
            _containers(x, out, depth + 1)
    elif hasattr(v, "__code__"):
        for x in [v.__defaults__, v.__kwdefaults__, v.__dict__] + [_cell(y) for y in v.__closure__ or ()]:
            _containers(x, out, depth + 1)
    elif isinstance(v, property):
        _containers(v.fget, out, depth + 1)
    elif hasattr(v, "__func__"):
        _containers(v.__func__, out, depth)
    else:
        try:
            len(v)
            out[id(v)] = v
        except Exception:  # noqa: BLE001
            pass
        if type(v).__module__.startswith("epcpy"):
            for x in _attrs(v).values():
                _containers(x, out, depth + 1)


def brim(req):
    """numbers of distinct identities after which something the library keeps stops growing"""
    s, kind, most = req
    for n in range(4):
        do(kind_op(s, kind, n), World())
    found = {}
    for n in sorted(sys.modules):
        if n == "epcpy" or n.startswith("epcpy."):
            for a, v in sorted(vars(sys.modules[n]).items()):
                if a.startswith("__"):
                    continue
                if isinstance(v, type) and v.__module__.startswith("epcpy"):
                    for p, q in sorted(vars(v).items()):
                        _containers(q, found)
                else:
                    _containers(v, found)

    def size(x):
        return x.cache_info().currsize if hasattr(x, "cache_info") else len(x)

    found = list(found.values())
    had = [size(x) for x in found]
    do(kind_op(s, kind, 4), World())
    growing = []
    for x, n in zip(found, had):
        if size(x) > n:
            growing.append([x, size(x)])
    out = []
    for n in range(5, most):
        do(kind_op(s, kind, n), World())
        for g in list(growing):
            z = size(g[0])
            if z <= g[1]:
                out.append(n)
                growing.remove(g)
            g[1] = z
        if not growing:
            break
    return sorted(set(out))


# ------------------------------------------------------------------ clean processes

class Zygote:
    """A process that has imported the library but never called it (except for the first operations); forks a child per request."""

    def __init__(self, work, first=()):
        self.a, b = socket.socketpair()
        self.pid = os.fork()
        if self.pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            self.a.close()
            f = b.makefile("rw")
            try:
                for o in first:
                    do(o, World())
                for line in f:
                    self._child(work, json.loads(line), f)
            finally:
                os._exit(0)
        b.close()
        self.f = self.a.makefile("rw")

    @staticmethod
    def _child(work, req, f):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(300)
                os.close(r)
                with os.fdopen(w, "w") as out:
                    out.write(json.dumps(work(req)))
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r) as inp:
            ans = inp.read()
        os.waitpid(pid, 0)
        f.write((ans or "null") + "\n")
        f.flush()

    def ask(self, req):
        self.f.write(json.dumps(req) + "\n")
        self.f.flush()
        return json.loads(self.f.readline())

    def close(self):
        self.f.close()
        self.a.close()
        os.waitpid(self.pid, 0)


def run_seq(seq):
    """perform a history in one world; the outcomes"""
    w = World()
    return [do(op, w) for op in seq]
