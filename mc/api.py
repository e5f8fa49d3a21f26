"""The implementation under check: public epcpy API of the working tree in /repo."""
import importlib
import os
import sys

REPO = os.environ.get("EPCPY_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import epcpy  # noqa: E402
import epcpy.epc_schemes as _schemes  # noqa: E402
from epcpy import ConvertException  # noqa: E402
from epcpy.utils import parsers  # noqa: E402

from mc import ref  # noqa: E402

if not os.path.realpath(epcpy.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise SystemExit("epcpy imported from %s, not from %s" % (epcpy.__file__, REPO))

CLS = {s: getattr(_schemes, s.upper()) for s in ref.ALL}


def _mod(s):
    return importlib.import_module("epcpy.epc_schemes." + s)


class Missing:
    """stands for an enumeration member that the implementation does not have; using it fails"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<missing %s>" % self.what


def _member(enum, value):
    try:
        return enum(value)
    except ValueError:
        return Missing("%s %s" % (enum.__name__, value))


CODING = {c: _member(CLS[s].BinaryCodingScheme, c) for c, (s, _, _) in ref.CODINGS.items()}
FILTER = {}
FILTER_ENUM = {}
for _s in ref.TAG:
    if _s != "gid":
        _e = getattr(_mod(_s), _s.upper() + "FilterValue")
        FILTER_ENUM[_s] = _e
        for _f in ref.filters(ref.OF_SCHEME[_s][0]):
            FILTER[_s, _f] = _member(_e, _f)
GTIN = {s: {n: _member(getattr(_mod(s), "GTIN_TYPE"), n) for n in (8, 12, 13, 14)} for s in ("sgtin", "lgtin")}

GENERIC = {
    "scheme": epcpy.epc_pure_identity_to_scheme,
    "gs1_element": epcpy.epc_pure_identity_to_gs1_element,
    "gs1_element_string": epcpy.epc_pure_identity_to_gs1_element_string,
    "gs1_keyed": epcpy.epc_pure_identity_to_gs1_keyed,
    "gs1_key": epcpy.epc_pure_identity_to_gs1_key,
    "tag_encodable": epcpy.epc_pure_identity_to_tag_encodable,
    "tag_uri": epcpy.tag_uri_to_tag_encodable,
    "binary": epcpy.binary_to_tag_encodable,
    "hex": epcpy.hex_to_tag_encodable,
    "base64": epcpy.base64_to_tag_encodable,
    "elem": parsers.gs1_element_string_to_gs1_element,
    "get_key": epcpy.get_gs1_key,
}

NAME = {
    "scheme": "epc_pure_identity_to_scheme", "gs1_element": "epc_pure_identity_to_gs1_element",
    "gs1_element_string": "epc_pure_identity_to_gs1_element_string", "gs1_keyed": "epc_pure_identity_to_gs1_keyed",
    "gs1_key": "epc_pure_identity_to_gs1_key", "tag_encodable": "epc_pure_identity_to_tag_encodable",
    "tag_uri": "tag_uri_to_tag_encodable", "binary": "binary_to_tag_encodable", "hex": "hex_to_tag_encodable",
    "base64": "base64_to_tag_encodable", "elem": "gs1_element_string_to_gs1_element", "get_key": "get_gs1_key",
}


class Err:
    """An escaped exception that is not ConvertException."""

    def __init__(self, e):
        self.text = "%s: %s" % (type(e).__name__, str(e)[:200])

    def __repr__(self):
        return "<escaped %s>" % self.text

    def __eq__(self, o):
        return isinstance(o, Err)

    __hash__ = None


def given(x):
    """a call that neither raises nor gives anything has not refused"""
    return Err(TypeError("None was returned")) if x is None else x


def run(f, *a, **k):
    """value | None when refused with ConvertException | Err for any other exception or for no value at all"""
    try:
        return given(f(*a, **k))
    except ConvertException:
        return None
    except Exception as e:  # noqa: BLE001
        return Err(e)


def kwargs(coding, filt):
    d = {"binary_coding_scheme": CODING[coding]}
    if filt is not None:
        d["filter_value"] = FILTER[ref.CODINGS[coding][0], filt]
    return d


def name(x):
    """scheme name of an instance"""
    return type(x).__name__.lower()


def show(x):
    """what an API result is, for comparison and messages"""
    if x is None:
        return "refused"
    if isinstance(x, Err):
        return repr(x)
    if isinstance(x, str):
        return x
    return "%s(%s)" % (type(x).__name__, getattr(x, "epc_uri", "?"))


def want(ident):
    """show() of the instance the model expects"""
    return "refused" if ident is None else "%s(%s)" % (ident[0].upper(), ref.uri(ident))
