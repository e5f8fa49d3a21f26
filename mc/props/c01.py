"""C01: write to a tag, read back."""
from mc import api, domains, ref

BOUNDS = {
    "quick": "identity families fields/serial/escapes (every spelling of an escape) of the 14 tag-encodable schemes at quick bounds x all admitting coding "
             "schemes x filters (all for core field values, each in turn for the mixed part, the last one elsewhere) x 3 to 11 read-back paths",
    "thorough": "families fields/serial/escapes/pairs at thorough bounds, same paths",
}

stripes = domains.stripes


def tasks(tier):
    return domains.tasks(ref.TAG, ("fields", "serial", "escapes") + (("pairs",) if tier == "thorough" else ()), tier)


def cases(task, tier):
    for i in domains.idents(task, tier):
        yield [list(i), domains.wide(task, i)]


def check(case, c):
    ident, wide = tuple(case[0]), case[1]
    s = ident[0]
    cls = api.CLS[s]
    uri = api.want(ident)
    want = api.want(ref.canonical(ident))
    x = api.run(cls, ref.uri(ident))
    c.step(api.show(x), uri, "construct")
    c.state(want)
    G = api.GENERIC
    for coding in ref.OF_SCHEME[s]:
        if not ref.admits(ident, coding):
            continue
        fs = ref.filters(coding)
        if not wide:
            fs = fs[-1:]
        elif wide > 1:
            fs = [fs[(wide - 2) % len(fs)]]
        for n, f in enumerate(fs):
            kw = api.kwargs(coding, f)
            w = " (%s, filter %s) of %s" % (coding, f, uri)
            b = api.run(x.binary, **kw)
            c.state(b if isinstance(b, str) else 0)
            c.step(api.show(api.run(cls.from_binary, b)), want, "from_binary of binary" + w)
            h = api.run(x.hex, **kw)
            t = api.run(x.tag_uri, **kw)
            c.state(h if isinstance(h, str) else 0)
            c.state(t if isinstance(t, str) else 0)
            if not (isinstance(b, str) and isinstance(h, str) and isinstance(t, str)):
                c.step(repr((b, h, t)), "three strings", "binary/hex/tag_uri" + w)
            c.step(api.show(api.run(G["hex"], h)), want, "hex_to_tag_encodable of hex" + w)
            c.step(api.show(api.run(G["tag_uri"], t)), uri, "tag_uri_to_tag_encodable of tag_uri" + w)
            if wide and n % 4 == 0:
                v = api.run(x.base64, **kw)
                c.state("b64", v if isinstance(v, str) else 0)
                c.step(api.show(api.run(G["binary"], b)), want, "binary_to_tag_encodable of binary" + w)
                c.step(api.show(api.run(cls.from_hex, h)), want, "from_hex of hex" + w)
                c.step(api.show(api.run(cls.from_hex, h.lower())), want, "from_hex of lower-case hex" + w)
                c.step(api.show(api.run(G["hex"], h.lower())), want, "hex_to_tag_encodable of lower-case hex" + w)
                c.step(api.show(api.run(cls.from_base64, v)), want, "from_base64 of base64" + w)
                c.step(api.show(api.run(G["base64"], v)), want, "base64_to_tag_encodable of base64" + w)
                c.step(api.show(api.run(G["base64"], str(v).rstrip("="))), want, "base64 without padding" + w)
                c.step(api.show(api.run(cls.from_tag_uri, t)), uri, "from_tag_uri of tag_uri" + w)
