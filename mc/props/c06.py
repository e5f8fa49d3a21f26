"""C06: GS1 keys and element strings."""
import re

from mc import api, domains, ref

BOUNDS = {
    "quick": "identity families fields/serial/pairs (all digit values at all pairs of digit positions, all prefix lengths) of "
             "the 16 GS1 schemes at quick bounds; all spellings of escapes (needed or not, upper/lower case) of all 82 characters "
             "alone, in context and in pairs",
    "thorough": "same at thorough bounds",
}


def tasks(tier):
    return domains.tasks(ref.ELEM, ("fields", "serial", "pairs", "escapes"), tier)


stripes = domains.stripes


def cases(task, tier):
    for i in domains.idents(task, tier):
        yield list(i)


def check(case, c):
    ident = tuple(case)
    s = ident[0]
    text = ref.uri(ident)
    cls = api.CLS[s]
    x = api.run(cls, text)
    c.step(api.show(x), "%s(%s)" % (s.upper(), text), "construct")
    el = ref.elem(ident)
    c.state(text)
    c.state(el)
    c.step(api.show(api.run(x.gs1_element_string)), el, "gs1_element_string() of " + text)
    pattern = getattr(cls, "gs1_element_string_regex", None)
    if isinstance(pattern, re.Pattern):
        c.step(bool(pattern.fullmatch(el)), True, "published pattern on " + el)
    c.step(api.show(api.run(api.GENERIC["gs1_element_string"], text)), el, "epc_pure_identity_to_gs1_element_string " + text)
    if s in ref.KEYED:
        k = ref.key(ident)
        c.state("key", k)
        c.step(api.show(api.run(x.gs1_key)), k, "gs1_key() of " + text)
        c.step(api.show(api.run(api.GENERIC["gs1_key"], text)), k, "epc_pure_identity_to_gs1_key " + text)
