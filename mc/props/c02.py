"""C02: encodings are bit-exact."""
from mc import api, domains, ref

BOUNDS = {
    "quick": "identity families fields/serial/escapes (every spelling of an escape) of the 14 tag-encodable schemes at quick bounds x all coding schemes "
             "that admit them x all filters (fields and ADI cross), two filters elsewhere; every named filter member x "
             "coding scheme, by keyword, by position and with defaults left out",
    "thorough": "same families at thorough bounds",
}

# TDS filter values by the published name of the enumeration member; the rest are RESERVED_<number>
NAMES = {
    "sgtin": "ALL_OTHERS POS_ITEM FULL_CASE - INNER_PACK - UNIT_LOAD COMPONENT",
    "sscc": "ALL_OTHERS - FULL_CASE - - - UNIT_LOAD -",
    "gdti": "ALL_OTHERS TRAVEL_DOCUMENT - - - - - -",
    "giai": "ALL_OTHERS RAIL_VEHICLE - - - - - -",
    "usdod": "PALLET CASE UNIT_PACK - - - - - - - - - - - - -",
    "adi": "ALL_OTHERS ITEM_OTHER CARTON - - - PALLET - SEAT_CUSHIONS SEAT_COVERS SEAT_BELTS GALLEY UNIT_LOAD_DEVICES "
           "AIRCRAFT_SECURITY_ITEMS LIFE_VESTS OXYGEN_GENERATOR ENGINE_COMPONENTS AVIONICS EXPERIMENTAL_EQUIPMENT "
           "OTHER_EMERGENCY_EQUIPMENT OTHER_ROTABLES OTHER_REPAIRABLE OTHER_CABIN_INTERIOR OTHER_REPAIR PASSENGER_SEATS "
           "IFE_SYSTEMS " + "- " * 30 + "LOCATION_IDENTIFIER DOCUMENTATION TOOLS GROUND_SUPPORT_EQUIPMENT "
           "OTHER_NON_FLYABLE_EQUIPMENT - - -",
}


# which parameters may be left out, and where the filter comes first
DEFAULT_CODING = ("adi", "gid", "gsrn", "gsrnp", "sgcn", "sscc", "usdod")
DEFAULT_FILTER = ("gsrn", "gsrnp")
FILTER_FIRST = ("adi", "sgcn", "sscc", "usdod")


def names(s):
    if s == "gid":
        return [None]
    row = NAMES.get(s, "ALL_OTHERS" + " -" * 7).split()
    return ["RESERVED_%d" % n if x == "-" else x for n, x in enumerate(row)]


def stripes(task, tier):
    return 1 if task[0] == "names" else domains.stripes(task, tier)


def tasks(tier):
    return [("names", s) for s in ref.TAG] + domains.tasks(ref.TAG, ("fields", "serial", "escapes") + (("pairs",) if tier == "thorough" else ()), tier)


def cases(task, tier):
    if task[0] == "names":
        for n, name in enumerate(names(task[1])):
            for i in domains.seeds(task[1]):
                for co in ref.OF_SCHEME[task[1]]:
                    if ref.admits(i, co):
                        yield ["name", list(i), co, n, name]
        return
    for i in domains.idents(task, tier):
        yield [list(i), domains.wide(task, i)]


def _named(case, c):
    _, ident, co, n, name = case
    ident = tuple(ident)
    s = ident[0]
    num = None if name is None else str(n)
    f = name and (getattr(api.FILTER_ENUM[s], name, None) or api.Missing("%s filter %s" % (s, name)))
    b = ref.bits(ident, co, num)
    x = api.run(api.CLS[s], ref.uri(ident))
    c.state(s, name, b)
    for m, want in (("binary", b), ("hex", ref.hexa(b)), ("base64", ref.b64(b)), ("tag_uri", ref.tag_uri(ident, co, num))):
        kw = api.kwargs(co, num)
        calls = []
        if f is not None:
            kw["filter_value"] = f
            first = s in FILTER_FIRST or (s == "itip" and m != "tag_uri")
            pos = (f, api.CODING[co]) if first else (api.CODING[co], f)
            if s in DEFAULT_FILTER and n == 0:
                calls += [((), {}), (pos[:1], {})]
            if s in DEFAULT_CODING:
                calls += [((), {"filter_value": f})] + ([((f,), {})] if first else [])
        else:
            pos = (api.CODING[co],)
            calls.append(((), {}))
        for a, k in calls + [((), kw), (pos, {})]:
            c.step(api.run(getattr(x, m), *a, **k), want, "%s(*%s, **%s) of %s" % (m, a, k, ref.uri(ident)))


def check(case, c):
    if case[0] == "name":
        return _named(case, c)
    ident, wide = tuple(case[0]), case[1]
    s = ident[0]
    x = api.run(api.CLS[s], ref.uri(ident))
    c.step(api.show(x), api.want(ident), "construct")
    c.state("id", ident)
    for coding in ref.OF_SCHEME[s]:
        if not ref.admits(ident, coding):
            continue
        fs = ref.filters(coding)
        if not wide:
            fs = [fs[-1], fs[len(fs) // 3]] if len(fs) > 1 else fs
        elif wide > 1:
            fs = [fs[(wide - 2) % len(fs)]]
        for f in fs:
            kw = api.kwargs(coding, f)
            b = ref.bits(ident, coding, f)
            c.state(b)
            c.step(api.run(x.binary, **kw), b, "binary(%s, filter %s) of %s" % (coding, f, ref.uri(ident)))
            c.step(api.run(x.hex, **kw), ref.hexa(b), "hex(%s, filter %s) of %s" % (coding, f, ref.uri(ident)))
        c.step(api.run(x.base64, **kw), ref.b64(b), "base64(%s, filter %s) of %s" % (coding, f, ref.uri(ident)))
        c.step(api.run(x.tag_uri, **kw), ref.tag_uri(ident, coding, f), "tag_uri(%s, %s)" % (coding, f))
