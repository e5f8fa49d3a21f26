"""C12: results never depend on history."""
from itertools import product

from mc import api, ops, ref
from mc.engine import Violation

BOUNDS = {
    "quick": "per scheme: all operation sequences of length 3 over its full alphabet (8 to 81 operations on 2 to 4 near-duplicate "
             "instances, incl. failing ones), each on fresh instances in one ever-longer process history; one long-lived world "
             "visiting every ordered pair of operations (order-2 de Bruijn sequence); across schemes: all sequences a,b,a' over "
             "130 operations of all 21 schemes with a' in {a, next}; all ordered pairs of 1285 operations giving every class every "
             "scheme's URIs, tags, tag URIs and element strings; per scheme all ordered pairs of 24 to 743 operations through every entry point with all company prefix lengths, GTIN "
             "lengths and spellings; all operations on texts one edit, bit flip or "
             "truncation away from valid ones (28447 over all schemes), in four orders in one world; up to 2500 distinct "
             "identities per scheme, all operations on all of them three times in one process; refusal messages compared too; closure of the state digest under all operations",
    "thorough": "same, across schemes all sequences of length 3, per scheme order-3 de Bruijn sequences over the short alphabet, closure to depth 4, up to 12000 distinct identities per scheme",
}
ASSUMPTIONS = ["the outcome of an operation alone is taken in a process that has only imported the library",
               "digest closure (instance attributes, module and class data, function defaults and caches unchanged by every "
               "operation) is reported, not required"]
FRESH = True


def tasks(tier):
    out = []
    for s in ref.ALL:
        n = len(ops.alphabet(s))
        k = 8 if n > 60 else 4 if n > 40 else 1
        out += [("deep", s, i, k) for i in range(k)]
        out += [("entry", s, i, 4) for i in range(4)]
        out += [("chain", s, 2, 1), ("closure", s, 0, 1), ("edited", s, 0, 1), ("many", s, 2500 if tier == "quick" else 12000, 1)]
        if tier == "thorough":
            out.append(("chain", s, 3, 1))
    k = 8 if tier == "quick" else 64
    out += [("cross", "", i, k) for i in range(k)]
    out.append(("chain", "", 2, 1))
    out += [("foreign", "", i, 16) for i in range(16)]
    return out


def cases(task, tier):
    yield ["task", list(task), tier]


def de_bruijn(n, k):
    """Lyndon-word construction; every k-word over range(n) occurs once"""
    a = [0] * n * k
    out = []

    def db(t, p):
        if t > k:
            if k % p == 0:
                out.extend(a[1:p + 1])
            return
        a[t] = a[t - p]
        db(t + 1, p)
        for j in range(a[t - p] + 1, n):
            a[t] = j
            db(t + 1, t)

    db(1, 1)
    return out + out[:k - 1]


def check(case, c):
    z = ops.Zygote(ops.run_seq)
    try:
        if case[0] == "seq":
            seq = case[1]
            want = [z.ask([o])[0] for o in seq]
            for o, g, w in zip(seq, z.ask(seq), want):
                c.step(g, w, "%s after %s" % (o, seq))
            return
        _explore(case, c, z)
    finally:
        z.close()


def _many(s, n, c, z):
    """a large number of distinct identities, everything done to all of them twice in one world"""
    todo = ops.many(s, n)
    w = ops.World()
    first = []
    for o, want in todo:
        got = ops.do(o, w)
        c.transitions += 1
        c.state(str(o))
        first.append(got)
        if got != want and z.ask([o])[0] != got:
            raise Violation("%s gives %s; alone it gives %s" % (o, got, z.ask([o])[0]))
        if len(first) % 500 == 0:
            c.alive()
    for order in (range(len(todo)), range(len(todo) - 1, -1, -1)):
        for j in order:
            got = ops.do(todo[j][0], w)
            c.transitions += 1
            if got != first[j]:
                raise Violation("%s gives %s; earlier in the same process it gave %s" % (todo[j][0], got, first[j]))
            if j % 500 == 0:
                c.alive()
        w = ops.World()
    c.traces += len(todo)
    c.note("distinct_operations", len(todo))


def _explore(case, c, z):
    kind, s, i, k = case[1]
    tier = case[2]
    if kind == "many":
        return _many(s, i, c, z)
    if kind == "edited":
        alpha = ops.edited(s)
    elif kind == "entry":
        alpha = ops.entry_list(s)
    elif s == "":
        alpha = ops.foreign() if kind == "foreign" else ops.reps()
    else:
        alpha = ops.alphabet(s, not (kind == "chain" and i == 3))
    n = len(alpha)
    alone = [z.ask([o])[0] for o in alpha]
    c.state("baseline")

    def run(seq, w):
        for p, j in enumerate(seq):
            got = ops.do(alpha[j], w)
            c.transitions += 1
            if got != alone[j]:
                hist = [alpha[x] for x in seq[max(0, p - 200):p + 1]]
                msg = "%s gives %s; alone it gives %s; preceded by %s" % (alpha[j], got, alone[j], hist[-4:-1])
                for m in (1, 2, 3, 8, 50, len(hist) - 1):
                    h = hist[-1 - m:]
                    a = z.ask(h)
                    if a and a[-1] != alone[j]:
                        raise Violation(msg, ["seq", h])
                raise Violation(msg)

    if kind == "deep":
        for a in range(i, n, k):
            c.alive()
            for b in range(n):
                for d in range(n):
                    run((a, b, d), ops.World())
                    c.traces += 1
                    c.state(a, b, d)
    elif kind == "cross":
        for a in range(i, n, k):
            c.alive()
            for b in range(n):
                for d in range(n) if tier == "thorough" else (a, (a + 1) % n):
                    run((a, b, d), ops.World())
                    c.traces += 1
                    c.state(a, b, d)
    elif kind == "entry":
        # instances are made anew for each pair and dropped after it
        for a in range(i, n, k):
            c.alive()
            for b in range(n):
                run((a, b), ops.World())
                c.traces += 1
                c.state(a, b)
        c.note("entry_operations", n if i == 0 else 0)
    elif kind == "foreign":
        w = ops.World()
        for a in range(i, n, k):
            c.alive()
            for b in range(n):
                run((a, b), w)
                c.traces += 1
                c.state(a, b)
    elif kind == "edited":
        # each several times, at every distance from 1 to the whole list, in both orders
        w = ops.World()
        for seq in (range(n), range(n - 1, -1, -1), [x for x in range(n) for _ in (0, 1)], [y for x in range(n) for y in (x, n - 1 - x)]):
            c.alive()
            run(list(seq), w)
            c.traces += 1
        for x in range(n):
            c.state(x)
        c.note("edited_operations", n)
    elif kind == "chain":
        seq = de_bruijn(n, i)
        run(seq, ops.World())
        c.traces += 1
        for x in zip(seq, seq[1:]):
            c.state(x)
        c.note("longest_history", len(seq))
    else:
        _closure(alpha, alone, c, run, 2 if tier == "quick" else 4)


def _closure(alpha, alone, c, run, depth):
    n = len(alpha)

    def world():
        w = ops.World()
        for o in alpha:
            w.prepare(o)
        return w

    # warm-up: anything lazily built on first use is built
    run(range(n), world())
    w = world()
    seen = {ops.digest(w)}
    front = [()]
    for d in range(depth):
        nxt = []
        for h in front:
            for j in range(n):
                c.alive()
                w = world()
                run(h + (j,), w)
                c.traces += 1
                g = ops.digest(w)
                c.state(g)
                if g not in seen:
                    seen.add(g)
                    nxt.append(h + (j,))
        front = nxt[:40]
        if not nxt:
            break
    c.note("closure_states", len(seen))
    c.note("closed" if not front else "not_closed")
