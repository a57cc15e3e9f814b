"""Shared by the code-generation properties: names, namespaces, skeleton texts, schema building, concrete oracles."""
import json
import re
from .common import *
from ..genmodels import pascal, snake, ns_value, case_fn, filter_rope, isin

NCNAME = L.rx("[A-Za-z_][A-Za-z0-9_.\\-]*")
NOCOLON = L.UTF8 & ~(L.ALL + L.lit(b":") + L.ALL)
# reserved words of Rust 2015, 2018 and 2021, strict and for future use
KEYWORDS = set("""abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro
match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while yield""".split())
IDENT = L.rx("[A-Za-z_][A-Za-z0-9_]*")
BADID = L.lit(b"_")
for _k in sorted(KEYWORDS):
    BADID = BADID | L.lit(_k.encode())
GOODID = IDENT - BADID
ASCIIW = L.byteset(range(128)).star()
HASAN = L.ALL + L.byteset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") + L.ALL
# built-in types of XML Schema Part 2 that have a Rust counterpart
TABLE = {"boolean": "bool", "double": "f64", "float": "f64",
         "long": "i64", "int": "i32", "short": "i16", "byte": "i8",
         "unsignedLong": "u64", "unsignedInt": "u32", "unsignedShort": "u16", "unsignedByte": "u8",
         "integer": "xs::Integer", "nonNegativeInteger": "xs::NonNegativeInteger", "positiveInteger": "xs::PositiveInteger",
         "nonPositiveInteger": "xs::NonPositiveInteger", "negativeInteger": "xs::NegativeInteger", "decimal": "xs::Decimal",
         "date": "xs::Date", "time": "xs::Time", "dateTime": "xs::DateTime", "dateTimeStamp": "xs::DateTimeStamp", "duration": "xs::Duration",
         "gDay": "xs::GDay", "gMonth": "xs::GMonth", "gMonthDay": "xs::GMonthDay", "gYear": "xs::GYear", "gYearMonth": "xs::GYearMonth",
         "ENTITIES": "Vec<String>", "IDREFS": "Vec<String>", "NMTOKENS": "Vec<String>"}
for _k in "string normalizedString token language Name NCName ENTITY ID IDREF NMTOKEN anyURI QName NOTATION anySimpleType hexBinary base64Binary".split():
    TABLE[_k] = "String"
TABLE_L = L.lit(b"string")
for _k in sorted(TABLE):
    TABLE_L = TABLE_L | L.lit(_k.encode())

NSX = ns_value((b"\0",), (b"\0",))         # a namespace whose prefix no name can have


def opt_ns(x):
    return NONE if x is None else some(x)


# ------------------------------------------------------------------ concrete oracles
def py_ident(local):
    s = "".join(c for c in pascal(local) if c.isascii() and (c.isalnum() or c == "_"))
    if s and (isin("is_numeric", s[0]) or s in KEYWORDS):
        s = "_" + s
    return s


def py_field(name):
    s = snake(name.split(":")[-1])
    if s and (isin("is_numeric", s[0]) or s in KEYWORDS):
        s = "_" + s
    return s


def py_type(n, tp, xp):
    """n: qualified name; tp/xp: prefix (or None) of target and XSD namespace"""
    p, l = n.split(":", 1) if ":" in n else (None, n)
    if p == xp and l in TABLE:
        return TABLE[l]
    i = py_ident(l)
    return i if p is None or p == tp else p + "::" + i


def ns_arg(prefix, uri="urn:x", absent=False):
    if absent:
        return "-"
    return "d" + uri if prefix is None else "p%s %s" % (prefix, uri)


def ns_prefix(a):
    """prefix of an encoded namespace argument"""
    return None if a[0] in "-d" else a[1:].split(" ", 1)[0]


def sx(v):
    """encode nested lists / strings / None for the replay"""
    if v is None:
        return "()"
    if isinstance(v, (list, tuple)):
        return "(" + "".join(sx(x) for x in v) + ")"
    b = v if isinstance(v, bytes) else v.encode()
    return "s" + b.hex() + ";"


def out_text(r):
    return bytes.fromhex(r[1]).decode() if r[0] == "ok" else None


def dec(a):
    return [x.decode() if isinstance(x, bytes) else x for x in a]


# ------------------------------------------------------------------ skeletons of symbolic text
def skel(s, rope):
    """rope as text in which every atom is one private-use character; equal atoms give equal characters"""
    out = []
    tab = SK
    for p in s.rope(rope):
        if isinstance(p, bytes):
            out.append(p.decode("utf-8", "surrogateescape"))
        else:
            if p not in tab:
                tab[p] = chr(0xF0000 + len(tab))
            out.append(tab[p])
    return "".join(out)


SK = {}


def squash(t):
    return re.sub(r"\s+", " ", t).strip()


# ------------------------------------------------------------------ entities
PT = "xsd_parser::parser::types::"


def enumv(E, name, variant, *f):
    t = E.type_by_name(name)
    for i, v in enumerate(E.T(t)["v"]):
        if v["n"] == variant:
            if len(v["f"]) != len(f):
                raise Unsupported("shape of %s::%s" % (name, variant))
            return Adt(t, i, tuple(f))
    raise Unsupported("variant %s::%s" % (name, variant))


def adt(_E, _t, **kw):
    """struct value by field names; fields not given are empty (String, Option, Vec, RefCell<Vec>)"""
    E, name = _E, _t
    t = E.type_by_name(name)
    out = []
    for f in E.T(t)["v"][0]["f"]:
        if f["n"] in kw:
            out.append(kw.pop(f["n"]))
            continue
        d = E.T(f["t"]).get("def")
        if d == "std::string::String":
            out.append(StringV(()))
        elif d == "std::option::Option":
            out.append(NONE)
        elif d == "std::vec::Vec":
            out.append(VecV(()))
        elif d == "std::cell::RefCell":
            out.append(Adt(f["t"], 0, (0, Adt(E.T(f["t"])["v"][0]["f"][1]["t"], 0, (VecV(()),)))))
        else:
            raise Unsupported("field %s.%s" % (name, f["n"]))
    if kw:
        raise Unsupported("fields %s of %s" % (sorted(kw), name))
    return Adt(t, 0, tuple(out))


def mod_vec(E, mods):
    names = {"N": "None", "A": "Array", "O": "Option", "R": "Recursive", "E": "Empty"}
    return VecV(tuple(enumv(E, PT + "TypeModifier", names[m]) for m in mods))


def String(r):
    return StringV(r)


def py_modify(t, mods):
    """the Rust type of a field from its base type and its modifiers, innermost first"""
    if "E" in mods:
        return "()"
    if "R" in mods:
        return "Vec<%s>" % t
    for m in mods:
        t = {"A": "Vec<%s>", "O": "Option<%s>", "N": "%s"}[m] % t
    return t
