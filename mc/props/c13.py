"""C13: concurrent use gives the sequential results."""
from itertools import combinations_with_replacement

from mc import ops, ref, sched
from mc.engine import Violation

BOUNDS = {
    "quick": "two threads, one operation each. Preemption bound 1 at every visible bytecode instruction, both directions: all pairs of 6 to 20 "
             "operations per scheme on the same instance, on a near-duplicate one and on one unlike it in every field (that one only with "
             "operations of its kind or coding), one pair for every two schemes, and every entry point (generic "
             "parsers, from_*, get_gs1_key on every kind of source, from_gtin_plus_serial, equality) beside itself on an unlike "
             "identity and on the same source with other arguments. Preemption bound 2 at every pair of "
             "source lines: selected same-instance pairs of every scheme. First use in a clean process, bound 1 at every line: "
             "construction/encoding/parsing pairs of every scheme. Where operations on distinct identities change data the library "
             "keeps (found by comparing digests of all module, class and function data): bound 1 at every line after 0 to 1025 other identities (levels "
             "around powers of two and round numbers), five choices of old and new identity; and, at every visible instruction, after as many "
             "identities as make something kept stop growing (1 to 4, and up to 1300 as measured), the oldest identity beside a new one; "
             "there, one less and one more, at every line, also two new ones and the latest beside a new one",
    "thorough": "same with all pairs of those operations, also unlike identities under other operations, every entry point of every scheme, three pairs for "
                "every two schemes, bound 2 for all same-instance pairs, first use at every instruction",
}
ASSUMPTIONS = ["a bytecode instruction of library code is atomic, as are the C functions it calls (CPython with the GIL)",
               "instructions touching only locals, constants and the value stack commute with the other thread (partial-order reduction)"]
FRESH = True
LONG = ("full", "brim")


def _list(s):
    """operations whose pairs are explored"""
    i, j = ops.pool(s)[:2]
    out = []
    cs = ref.OF_SCHEME.get(s, ())
    for n, co in enumerate(cs):
        fs = ref.filters(co)
        out.append(["enc", list(i), "binary", co, fs[-1]])
        out.append(["enc", list(i), "tag_uri", co, fs[0]])
        d = ops.far(s, co)
        out.append(["enc", list(d), "binary", co, fs[0]])
        out.append(["dec", s, "from_binary", ref.bits(d, co, fs[-1])])
        if n == 0:
            out.append(["enc", list(i), "base64", co, fs[0]])
            out.append(["enc", list(j), "hex", co, fs[0]])
            out.append(["enc", list(j), "tag_uri", co, fs[-1]])
            if ref.admits(i, co):
                out.append(["dec", s, "from_binary", ref.bits(i, co, fs[0])])
    if s in ref.ELEM:
        d = ops.far(s)
        out.append(["elem", list(i)])
        out.append(["elem", list(d)])
        out.append(["fromelem", s, ref.elem(j), len(j[1])])
        out.append(["fromelem", s, ref.elem(d), len(d[1])])
    if s in ref.KEYED:
        out.append(["key", list(i), None])
    out.append(["new", s, ref.uri(i)])
    out.append(["new", s, ref.uri(j)])
    out.append(["new", s, ref.uri(ops.far(s))])
    return out


def _near(s, a, b):
    """an operation on the unlike identifier is paired with those of its own kind or coding only"""
    def mark(o):
        co = o[3] if o[0] == "enc" else o[3][:8] if o[0] == "dec" else o[0]
        return ref.CODINGS[co][1] if o[0] == "enc" else co
    d = [ref.uri(i) for i in ((s,) + f for f in ops.FAR[s])]
    unlike = [o for o in (a, b) if o[0] in ("enc", "elem") and ref.uri(tuple(o[1])) in d
              or o[0] == "new" and o[2] in d or o[0] == "fromelem" and "9521357" in o[2]
              or o[0] == "dec"]
    return not unlike or mark(a) == mark(b)


def tasks(tier):
    out = []
    for s in ref.ALL:
        l = _list(s)
        out += [("one", s, a, b) for a, b in combinations_with_replacement(range(len(l)), 2) if tier == "thorough" or _near(s, l[a], l[b])]
        out += [("cold", s, k, 0) for k in range(len(_cold(s)))]
        out += [("entry", s, k, 0) for k in range(len(_entry(s, tier)))]
        two = _two(s, tier)
        out += [("two", s, k, 0) for k in range(len(two))]
    for x in range(len(ref.ALL)):
        for y in range(x + 1, len(ref.ALL)):
            out += [("mixed", ref.ALL[x], ref.ALL[y], k) for k in range(1 if tier == "quick" else 3)]
    for s, k in _growing(10):
        out += [("full", s, k, m) for m in range(5)]
        out += [("brim", s, k, [n, f]) for f in _brims(s, k) for n in (f - 1, f, f + 1) if n and (n == f or f > 4)]
    return out


# what every scheme inherits or shares is run for these only, unless thorough
SHARED = ("sgtin", "cpi", "adi", "lgtin")


def _entry(s, tier):
    """pairs of operations through the same entry point: unlike identities, and the same source with other arguments"""
    i, d = ops.pool(s)[0], ops.far(s)
    a, b = ops.entries(s, i), ops.entries(s, d)
    out = []
    for n in a:
        if n in ("elem", "key", "from_epc_uri") or not b.get(n):
            continue
        if tier == "quick" and s not in SHARED and (n in ("from_hex", "from_base64", "eq") or n.startswith("gen ") and n != "gen elem"):
            continue
        if n in ("binary", "hex", "base64", "tag_uri"):
            out += [(x, y) for x, y in zip(a[n][:1], b[n][-1:])] if n in ("hex", "base64") else []
            continue
        out.append((a[n][0], b[n][-1]))
        if n in ("gen elem", "get_key elem", "plus"):
            out[-1] = (a[n][len(i[1]) - 5], b[n][len(d[1]) - 5])
            out.append((a[n][len(i[1]) - 5], a[n][len(i[1]) - 4]))
        elif n in ("gtin", "gs1_key type", "get_key type"):
            out.append((a[n][-1], a[n][-2]))
        elif n == "get_key idpat":
            out.append((a[n][0], a[n][-1]))
    return out


LEVELS = sorted({n + d for n in (1, 2, 3, 4, 5, 8, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256, 500, 512, 1000, 1024) for d in (-2, -1, 0, 1) if n + d >= 0})


def _growing(limit):
    """(scheme, kind) pairs whose operations change data the library keeps; at most three for each thing kept"""
    z = ops.Zygote(ops.grown)
    seen = {}
    out = []
    try:
        for s in ref.ALL:
            for k in ops.kinds(s):
                names = z.ask([ops.kind_op(s, k, n) for n in range(12)]) or []
                if any(seen.get(n, 0) < 3 for n in names) and len(out) < limit:
                    out.append((s, k))
                    for n in names:
                        seen[n] = seen.get(n, 0) + 1
    finally:
        z.close()
    return out


def _brims(s, kind):
    z = ops.Zygote(ops.brim)
    try:
        return [1, 2, 3, 4] + (z.ask([s, kind, 1300]) or [])[:3]
    finally:
        z.close()


def _two(s, tier):
    l = _list(s)
    if tier == "thorough":
        same = [o for o in l if o[0] in ("enc", "elem", "key") and o[1] == list(ops.pool(s)[0])]
        return list(combinations_with_replacement(same, 2)) + [(l[-2], l[-1])]
    enc = [o for o in l if o[0] == "enc" and o[1] == list(ops.pool(s)[0])]
    out = []
    if len(enc) > 2:
        out += [(enc[0], enc[-1]), (enc[1], enc[-1]), (enc[1], enc[0])]
    elif enc:
        out += [(enc[0], enc[-1])]
    el = [o for o in l if o[0] in ("elem", "key")]
    if el:
        out.append((el[0], el[-1]))
    out.append((l[-2], l[-1]))
    return out


def _cold(s):
    i, j = ops.pool(s)[:2]
    out = [(["new", s, ref.uri(i)], ["new", s, ref.uri(j)]), (["gen", "scheme", ref.uri(i)], ["gen", "scheme", ref.uri(j)])]
    for co in ref.OF_SCHEME.get(s, ())[:1]:
        fs = ref.filters(co)
        out.append((["enc", list(i), "binary", co, fs[0]], ["enc", list(j), "tag_uri", co, fs[-1]]))
        out.append((["dec", s, "from_binary", ref.bits(i, co, fs[0])], ["dec", s, "from_binary", ref.bits(j, co, fs[-1])]))
    if s in ref.ELEM:
        out.append((["elem", list(i)], ["fromelem", s, ref.elem(j), len(j[1])]))
    return out


def cases(task, tier):
    yield ["task", list(task), tier]


def _mixed(s, k):
    i = ops.pool(s)[0]
    if k == 0 and s in ref.TAG:
        co = ref.OF_SCHEME[s][-1]
        i = ops.far(s, co)
        return ["enc", list(i), "binary", co, ref.filters(co)[-1]]
    if k == 2 and s in ref.ELEM:
        return ["elem", list(i)]
    return ["gen", "scheme", ref.uri(i)]


def check(case, c):
    z = ops.Zygote(_work)
    pair = None
    try:
        if case[0] == "fullrun":
            bad, _, _ = z.ask(["full"] + case[1:])
            c.transitions += 2
            if bad:
                _judge_full(z, bad, case)
            return
        if case[0] == "brimplan":
            _brim_plan(z, *case[1:], c)
            return
        if case[0] == "plan":
            _, a, b, plan, opcodes = case
            alone = [z.ask(["alone", a]), z.ask(["alone", b])]
            out, uris, _ = z.ask(["plan", a, b, plan, opcodes])
            _judge(c, a, b, alone, out, uris, case)
            return
        _, (kind, s, x, y), tier = case
        if kind == "cold":
            _explore_cold(z, _cold(s)[x], tier == "thorough", c)
            return
        if kind == "brim":
            _explore_brim(s, x, y, c)
            return
        if kind == "full":
            _explore_full(z, s, x, y, tier == "thorough", c)
            return
        if kind == "entry":
            a, b = _entry(s, tier)[x]
        elif kind == "one":
            l = _list(s)
            a, b = l[x], l[y]
        elif kind == "two":
            a, b = _two(s, tier)[x]
        else:
            a, b = _mixed(s, y), _mixed(x, y)
        alone = [z.ask(["alone", a]), z.ask(["alone", b])]
        pair = sched.Pair()
        opcodes = kind != "two"
        try:
            _explore(pair, kind, a, b, alone, opcodes, c, z)
        except sched.Deadlock:
            pair = None
            raise Violation("threads running %s and %s block each other" % (a, b))
    finally:
        if pair:
            pair.close()
        z.close()


def _work(req):
    if req[0] == "alone":
        return ops.run_seq([req[1]])[0]
    if req[0] == "full":
        return _run_full(*req[1:])
    return sched.run_schedule(req[1:])


def _judge(c, a, b, alone, out, uris, plan):
    c.transitions += 2
    for o, g, w in zip((a, b), out, alone):
        if g != w:
            raise Violation("%s gives %s; alone it gives %s; schedule %s" % (o, g, w, plan[3]), plan)
    for k, u in uris:
        if u != ref.uri(tuple(k)):
            raise Violation("URI of %s became %s; schedule %s" % (k, u, plan[3]), plan)


def _explore(pair, kind, a, b, alone, opcodes, c, z):
    def go(plan):
        out, uris, n = sched.run_in(pair, a, b, plan, opcodes)
        _judge(c, a, b, alone, out, uris, ["plan", a, b, plan, opcodes])
        c.traces += 1
        c.state(repr(plan))
        if kind == "two":
            c.note("bound2_schedules")
        if pair.blocked:
            c.note("schedules_with_a_blocked_thread", pair.blocked)
            pair.blocked = 0
        return n

    n0 = go([])
    # steps each thread takes when run whole; a schedule may change them, so bounds are taken per run
    if kind == "two":
        for k in range(1, n0[0] + 1):
            c.alive()
            m = 0
            while True:
                m += 1
                if go([[0, k], [1, m], [0, None], [1, None]])[1] < m or m > 4 * n0[1] + 50:
                    break
        return
    for t in (0, 1):
        if t and a == b:
            break
        c.alive()
        k = 0
        while True:
            k += 1
            if go([[t, k], [1 - t, None], [t, None]])[t] < k or k > 4 * n0[t] + 50:
                break
    c.note("bound1_pairs")


def _explore_cold(z, ab, opcodes, c):
    a, b = ab
    alone = [z.ask(["alone", a]), z.ask(["alone", b])]
    for t in (0, 1):
        k = 0
        while True:
            k += 1
            c.alive()
            plan = [[t, k], [1 - t, None], [t, None]]
            r = z.ask(["plan", a, b, plan, opcodes])
            if r is None:
                raise Violation("no answer from a clean process; schedule %s" % plan, ["plan", a, b, plan, opcodes])
            out, uris, n = r
            _judge(c, a, b, alone, out, uris, ["plan", a, b, plan, opcodes])
            c.traces += 1
            c.state(repr(plan))
            c.note("cold_schedules")
            if n[t] < k or k > 5000:
                break


def _run_full(s, kind, mode, k, opcodes):
    """In a clean process: operations on ever more distinct identities; at every level of LEVELS two threads run the next
    ones, one of them preempted after k steps.  -> (unexpected outcome or None, most steps the preempted thread took, schedules)"""
    p = sched.Pair()
    done = 0
    most = runs = 0
    # which identities the two threads use, relative to the number done; which one is preempted
    da, db, t = ((-1, 0, 0), (-1, 0, 1), (0, 1, 0), (0, 0, 0), (-1, -1, 0))[mode]
    try:
        for level in LEVELS:
            while done < level:
                ops.do(ops.kind_op(s, kind, done), ops.World())
                done += 1
            if done > level or done + da < 0 or done + db < 0:
                continue
            a, b = ops.kind_op(s, kind, done + da), ops.kind_op(s, kind, done + db)
            want = [ops.kind_want(s, kind, done + da), ops.kind_want(s, kind, done + db)]
            done = max(done, done + da + 1, done + db + 1)
            try:
                out, _, n = sched.run_in(p, a, b, [[t, k], [1 - t, None], [t, None]], opcodes)
            except sched.Deadlock:
                p = None
                return [a, b, ["deadlock", "deadlock"], "thread %d preempted after %d steps" % (t, k)], most, runs
            runs += 1
            most = max(most, n[t])
            if out != want:
                return [a, b, out, "thread %d preempted after %d steps, after %d other identities" % (t, k, level)], most, runs
    finally:
        if p:
            p.close()
    return None, most, runs


def _judge_full(z, bad, case):
    a, b, out, how = bad
    for o, g in zip((a, b), out):
        w = z.ask(["alone", o])
        if g != w:
            raise Violation("%s beside %s gives %s; alone it gives %s; %s" % (o, b if o is a else a, g, w, how), case)


def _explore_full(z, s, kind, mode, opcodes, c):
    k = 0
    while True:
        k += 1
        c.alive()
        r = z.ask(["full", s, kind, mode, k, opcodes])
        if r is None:
            raise Violation("no answer from a clean process", ["fullrun", s, kind, mode, k, opcodes])
        bad, most, runs = r
        c.transitions += 2 * runs
        c.traces += runs
        c.state(k)
        c.note("populated_schedules", runs)
        if bad:
            _judge_full(z, bad, ["fullrun", s, kind, mode, k, opcodes])
            break  # not what the model says even alone: other properties judge that
        if most < k or k > 3000:
            break


def _explore_brim(s, kind, at, c):
    """After exactly n other identities, f of which fill something the library keeps: the oldest one again beside a new one,
    two new ones, the latest one beside a new one; bound 1 at every visible instruction."""
    n, f = at
    old = max(n - f, 0)
    for x, y, t in ((old, n, 0), (old, n, 1), (n, n + 1, 0), (n - 1, n, 0), (old + 1, n, 0))[:None if n == f > 4 else 1]:
        # every instruction for the oldest beside a new one, every line for the rest
        opcodes = (x, y, t) == (old, n, 0) and n == f
        a, b = ops.kind_op(s, kind, x), ops.kind_op(s, kind, y)
        z = ops.Zygote(_work, [ops.kind_op(s, kind, m) for m in range(n)])
        clean = ops.Zygote(_work)
        try:
            alone = [clean.ask(["alone", a]), clean.ask(["alone", b])]
            k = 0
            while True:
                k += 1
                c.alive()
                plan = [[t, k], [1 - t, None], [t, None]]
                r = z.ask(["plan", a, b, plan, opcodes])
                case = ["brimplan", s, kind, n, a, b, plan, opcodes]
                if r is None:
                    raise Violation("no answer after %d identities; schedule %s" % (n, plan), case)
                out, uris, took = r
                _judge(c, a, b, alone, out, uris, case)
                c.traces += 1
                c.state(repr(plan))
                c.note("schedules_at_a_full_store")
                if took[t] < k or k > 5000:
                    break
        finally:
            clean.close()  # it holds the other one's socket too
            z.close()


def _brim_plan(clean, s, kind, n, a, b, plan, opcodes, c):
    z = ops.Zygote(_work, [ops.kind_op(s, kind, m) for m in range(n)])
    try:
        alone = [clean.ask(["alone", a]), clean.ask(["alone", b])]
        r = z.ask(["plan", a, b, plan, opcodes])
        if r is None:
            raise Violation("no answer after %d identities; schedule %s" % (n, plan))
        _judge(c, a, b, alone, r[0], r[1], ["brimplan", s, kind, n, a, b, plan, opcodes])
    finally:
        z.close()
