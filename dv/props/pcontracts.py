"""Contracts of the parser functions (xsd_parser::parser): what entity they make of a node of the XML tree.

The functions read a roxmltree node (dv/xmlmodels.py: a tree of any size, shape and attribute values).  A call of another parser
function is replaced by its contract; the contracts used here are the postconditions verified for its own body.
The entity that parse_node makes of a child is opaque, of a kind that depends on the name of the child (ENTITY below, verified by
`kind-of-result` obligations).
Precondition: the children of a node are of the names that the schema of schemas allows there and the tools support (DOM).
"""
from contextlib import contextmanager
from .gspec import *
from .. import models as M
from .. import xmlmodels as X
from ..xmlmodels import node, nid, kinds, restrict, attribute, K, ELEMENTS, put, FACETS
from .. import abstract as A
from ..models import AbsIt, is_panic

PP = "xsd_parser::parser::"
ATTRS = {"attribute", "anyAttribute", "attributeGroup"}
CONTENT = {"all", "choice", "sequence"}
DOM = {
    "schema": {"annotation", "import", "include", "element", "attribute", "attributeGroup", "complexType", "simpleType", "#text"},
    "complexType": {"annotation", "simpleContent", "complexContent", "#text"} | ATTRS | CONTENT,
    "sequence": {"annotation", "element", "any", "choice", "#text"},
    "all": {"annotation", "element", "#text"},
    "choice": {"annotation", "element", "any", "sequence", "choice", "#text"},
    "complexContent": {"annotation", "extension", "restriction", "#text"},
    "simpleContent": {"annotation", "extension", "#text"},
    "extension": {"annotation", "#text"} | ATTRS | CONTENT,
    "restriction": {"annotation", "simpleType", "#text"} | set(FACETS),
    "crestriction": {"annotation", "#text"} | ATTRS | CONTENT,
    "simpleType": {"annotation", "restriction", "list", "union", "#text"},
    "list": {"annotation", "simpleType", "#text"},
    "union": {"annotation", "simpleType", "#text"},
    "element": {"annotation", "simpleType", "complexType", "key", "unique", "#text"},
    "attribute": {"annotation", "simpleType", "#text"},
    "attributeGroup": {"annotation", "attribute", "attributeGroup", "anyAttribute", "#text"},
    "annotation": {"documentation", "appInfo", "#text"},
    "any": {"annotation", "#text"}, "anyAttribute": {"annotation", "#text"}, "import": {"annotation", "#text"},
}
X.DOMAIN.update(DOM, restriction=DOM["restriction"] | DOM["crestriction"])
STRUCT, FIELD, TUPLE, ENUM, CASE, ALIAS, IMPORT = "Struct", "StructField", "TupleStruct", "Enum", "EnumCase", "Alias", "Import"


def entity_kinds(k, pk):
    """kinds of entity that parse_node makes of a node by its name and its parent's names"""
    if k in ("all", "sequence", "extension", "complexContent", "simpleContent"):
        return {STRUCT}
    if k in ("any", "anyAttribute"):
        return {FIELD}
    if k == "attribute":
        return ({ALIAS, STRUCT, TUPLE, ENUM} if "schema" in pk else set()) | ({FIELD} if pk - {"schema"} else set())
    if k == "attributeGroup":
        return ({STRUCT} if "schema" in pk else set()) | ({ALIAS} if pk - {"schema"} else set())
    if k == "choice":
        return {ENUM}
    if k == "complexType":
        return {STRUCT, ENUM}
    if k == "element":
        out = set()
        for p in pk:
            out |= {ALIAS, STRUCT, TUPLE, ENUM} if p == "schema" else {FIELD} if p in ("sequence", "all") else {CASE} if p == "choice" else {ALIAS}
        return out
    if k in ("import", "include"):
        return {IMPORT}
    if k == "list":
        return {TUPLE}
    if k == "union":
        return {ENUM, STRUCT} if False else {ENUM}
    if k == "restriction":
        return ({ENUM, TUPLE} if "simpleType" in pk else set()) | ({STRUCT} if "complexContent" in pk else set())
    if k == "simpleType":
        return {ENUM, TUPLE}
    return set()


# ------------------------------------------------------------------ opaque entities
def olist(E, tag, t):
    """list of arbitrary elements of type t; the tag names the list"""
    def gen(E_, st):
        s = st.fork()
        r = s.fresh("item")
        trail(s, ("item", tag, r))
        return [(s, opaque(E_, s, t, tag + (r,)))]
    gen.term = tag
    return Opq("abslist", gen)


def trail(s, x):
    """the element just drawn, and those drawn before it"""
    s.ghost["elem"] = x
    s.ghost["trail"] = s.ghost.get("trail", ()) + (x,)


def remember(st, tag, v):
    st.ghost["op"] = dict(st.ghost.get("op", {}), **{})
    st.ghost["op"][tag] = v
    return v


def opaque(E, st, t, tag, over=None):
    """value of type t whose parts are arbitrary; lists are opaque terms"""
    ty = E.T(t)
    n = ty.get("name") or ""
    if ty["k"] == "adt" and ty["def"] == "std::string::String":
        return StringV(remember(st, tag, st.atom_rope(NAME | L.EPS if tag[0] == "ent" and tag[2:] == ("name",) else NAME if tag[-1] in ("name", "type_name") else UTF8, str(tag[-1]))))
    if ty["k"] == "adt" and ty["def"] == "std::vec::Vec":
        return olist(E, tag, ty["args"][0])
    if ty["k"] == "adt" and ty["def"] == "std::cell::RefCell":
        return CellV(st.new_cell(opaque(E, st, E.T(ty["v"][0]["f"][1]["t"])["v"][0]["f"][0]["t"], tag)))
    if ty["k"] == "adt" and ty["kind"] == "enum":
        return remember(st, tag, Sym(t, ("op", tag) if ty["def"].endswith("::RsEntity") else st.fresh("o")))
    if ty["k"] in ("uint", "int"):
        return st.new_int(*E.int_range(t), "o")
    if ty["k"] == "adt" and ty["kind"] == "struct":
        return Adt(t, 0, tuple(opaque(E, st, f["t"], tag + (f["n"],)) for f in ty["v"][0]["f"]))
    raise Unsupported("opaque value of %s" % n)


def ent_variants(E, st, v):
    i = v.id[1]
    out = []
    pk = kinds(st, i[1]) if i[0] == "c" else K
    by = {}
    for k in kinds(st, i):
        for e in entity_kinds(k, pk):
            by.setdefault(e, set()).add(k)
    for e, ks in sorted(by.items()):
        s = restrict(st, i, ks)
        for j, var in enumerate(E.T(v.ty)["v"]):
            if var["n"] == e:
                a = Adt(v.ty, j, (opaque(E, s, var["f"][0]["t"], ("ent", i)),))
                s.res[v.id] = a
                out.append((s, a))
    return out


M.LAZY["ent"] = ent_variants


def ent_op(E, st, v):
    out = []
    for j, var in enumerate(E.T(v.ty)["v"]):
        s = st.fork()
        a = Adt(v.ty, j, (opaque(E, s, var["f"][0]["t"], v.id[1] + (var["n"],)),))
        s.res[v.id] = a
        out.append((s, a))
    return out


M.LAZY["op"] = ent_op


# ------------------------------------------------------------------ contracts at call sites
def ret_ty(fn):
    return fn["body"]["locals"][0]


def c_parse_node(E, st, a, fn):
    i = nid(E, st, a[0])
    if st.ghost.get("self") == "parse_node":
        s = st
        st.ghost["self"] = None
        return NotImplemented
    s = st.fork()
    s.ghost["parsed"] = s.ghost.get("parsed", ()) + ((i, nid(E, s, a[1])),)
    return [(s, "ret", Sym(ret_ty(fn), ("ent", i)))]


def memo(st, tab, i, lg, opt):
    """[(state, rope or None)]: an arbitrary text that belongs to the node"""
    t = st.ghost.get(tab, {})
    if i in t:
        return [(st, t[i])]
    s = st.fork()
    r = s.atom_rope(lg, tab)
    out = [(put(s, tab, i, r), r)]
    return [(put(st, tab, i, None), None)] + out if opt else out


def c_doc(E, st, a, fn):
    """documentation text of a node, if it has one"""
    return [(s, "ret", NONE if r is None else some(StringV(s.rope(r)))) for s, r in memo(st, "doc", nid(E, st, a[0]), UTF8, True)]


def c_pname(E, st, a, fn):
    return [(s, "ret", SRef(s.rope(r))) for s, r in memo(st, "pname", nid(E, st, a[0]), UTF8, False)]


def c_list(tag):
    def f(E, st, a, fn):
        s = st.fork()
        key = (tag, nid(E, st, a[0]))
        tab = s.ghost.get("lists", {})
        if key not in tab:
            s = put(s, "lists", key, olist(E, key, E.T(ret_ty(fn))["args"][0]))
        return [(s, "ret", s.ghost["lists"][key])]
    return f


def c_cases(E, st, a, fn):
    """the alternatives of the facets of a node"""
    v = E.deref(st, a[0])
    t = getattr(v.d, "term", None) if isinstance(v, Opq) and v.kind == "abslist" else None
    if not (isinstance(t, tuple) and t[0] == "facets"):
        raise Unsupported("facets of unknown form")
    return c_list("cases")(E, st, [node(t[1])], fn)


def c_modifier(E, st, a, fn):
    tag = ("modifier", nid(E, st, a[0]))
    s = st.fork()
    if tag not in s.ghost.get("op", {}):
        remember(s, tag, Sym(ret_ty(fn), s.fresh("modifier")))
    return [(s, "ret", s.ghost["op"][tag])]


def c_tns(E, st, a, fn):
    """the in-scope namespace of targetNamespace, if there is one"""
    from ..genmodels import ns_value
    i = nid(E, st, a[0])
    if i in st.ghost.get("tns", {}):
        x = st.ghost["tns"][i]
        return [(st, "ret", NONE if x is None else some(E.ref(st, x)))]
    out = [(put(st, "tns", i, None), "ret", NONE)]
    for named in (False, True):
        s = st.fork()
        x = ns_value(s.atom_rope(NAME, "prefix") if named else None, s.atom_rope(UTF8, "uri"))
        s = put(s, "tns", i, x)
        out.append((s, "ret", some(E.ref(s, x))))
    return out


def c_flag(tag):
    def f(E, st, a, fn):
        from ..terms import BV
        key = (tag, nid(E, st, a[0]))
        if key not in st.ghost.get("flags", {}):
            st = put(st, "flags", key, BV(st.fresh("flag"), False))
        return [(st, "ret", st.ghost["flags"][key])]
    return f


def own(name, f):
    """the outermost call is the function under contract"""
    def g(E, st, a, fn):
        if st.ghost.get("self") == name:
            st.ghost["self"] = None
            return NotImplemented
        return f(E, st, a, fn)
    return g


def c_entity(E, st, a, fn):
    """the entity parse_node makes of this node"""
    return [(st, "ret", Sym(ret_ty(fn), ("ent", nid(E, st, a[0]))))]


def c_find_child(E, st, a, fn):
    i = nid(E, st, a[0])
    t = st.const_str(M.rope_of(E, st, a[1])).decode()
    out = []
    tab = st.ghost.get("fc", {})
    if (i, t) in tab:
        c = tab[(i, t)]
        return [(st, "ret", NONE if c is None else some(node(c)))]
    out.append((put(st, "fc", (i, t), None), "ret", NONE))
    s = st.fork()
    c = ("c", i, s.fresh("first"))
    s = put(put(s, "xk", c, frozenset([t])), "fc", (i, t), c)
    out.append((s, "ret", some(node(c))))
    return out


XN = "<roxmltree::Node<'a, '_> as xsd_parser::parser::xsd_elements::XsdNode>::"
CALLS = {
    "xsd_type": (XN + "xsd_type", X.etype),
    "parse_node": (PP + "node_parser::parse_node", c_parse_node),
    "get_documentation": (PP + "utils::get_documentation", c_doc),
    "get_parent_name": (PP + "utils::get_parent_name", c_pname),
    "attributes_to_fields": (PP + "utils::attributes_to_fields", c_list("attrs")),
    "g_attributes_to_fields": (PP + "attribute_group::attributes_to_fields", c_list("attrs")),
    "attribute_groups_to_aliases": (PP + "utils::attribute_groups_to_aliases", c_list("groups")),
    "s_elements_to_fields": (PP + "sequence::elements_to_fields", c_list("elements")),
    "a_elements_to_fields": (PP + "all::elements_to_fields", c_list("elements")),
    "facets": (PP + "restriction::facets", c_list("facets")),
    "cases": (PP + "restriction::cases", c_cases),
    "element_modifier": (PP + "element::element_modifier", c_modifier),
    "target_namespace": (PP + "utils::target_namespace", c_tns),
    "is_simple_enumeration": (PP + "restriction::is_simple_enumeration", c_flag("simple")),
    "is_simple_enumerations": (PP + "restriction::is_simple_enumerations", c_flag("plain")),
    "find_child": (PP + "utils::find_child", c_find_child),
}


@contextmanager
def calling(E, *but, extra={}):
    """contracts for every parser function except those under contract"""
    old = E.contracts
    E.contracts = dict(old, **{n: own(k, f) for k, (n, f) in CALLS.items() if k not in but}, **extra)
    try:
        yield
    finally:
        E.contracts = old




# ------------------------------------------------------------------ reading results
def fld(E, s, v, name):
    v = E.expand(s, v)
    for f, x in zip(E.T(v.ty)["v"][v.var]["f"], v.f):
        if f["n"] == name:
            x = E.expand(s, x)
            if isinstance(x, CellV):
                x = E.expand(s, s.cells[x.cell])
            elif isinstance(x, Adt) and E.T(x.ty).get("def") == "std::cell::RefCell":
                x = E.expand(s, E.expand(s, x.f[1]).f[0])
            return x
    raise Unsupported("field " + name)


def var_name(E, v):
    return E.T(v.ty)["v"][v.var]["n"]


def inner(E, s, v, kind):
    """payload of the entity when it has that kind"""
    v = E.expand(s, v)
    if not isinstance(v, Adt):
        return None
    return E.expand(s, v.f[0]) if var_name(E, v) == kind else None


def txt(E, s, v):
    return s.rope(E.expand(s, v).r)


def same(s, a, b):
    return s.rope(a) == s.rope(b)


def is_doc(E, s, v, i):
    """the value is the documentation of node i"""
    v = E.expand(s, v)
    tab = s.ghost.get("doc", {})
    if i not in tab:
        return False
    r = tab[i]
    return (r is None) == (v.var == 0) and (r is None or same(s, txt(E, s, v.f[0]), r))


def attr_is(E, s, v, i, name):
    """text v is the value of that attribute"""
    r = s.ghost.get("xa", {}).get((i, name))
    return r is not None and same(s, txt(E, s, v), r)


def lterm(v):
    """terms of the parts of a list: opaque terms or values"""
    out = []
    for k, x in X.parts(v):
        out.append(getattr(x.d, "term", None) if k == "all" else x)
    return out


def elements(E, s, lst):
    """one arbitrary element of the sequence: [(state, value)], and the states in which an element is left out"""
    if not (isinstance(lst, Opq) and lst.kind == "abslist"):
        raise Unsupported("list of unknown form")
    return A.dropping(E, lambda: lst.d(E, s.fork()))


def mapped(E, s, lst, i, names, ok):
    """the list holds, in order, one element for every child of i with one of the names: ok(state, child, value)"""
    recs, dr = elements(E, s, lst)
    if not recs:
        return False
    for t, v in recs:
        c = t.ghost.get("elem")
        if c is None or c[0] != "c" or c[1] != i or not kinds(t, c) <= set(names) or not ok(t, c, v):
            return False
    for t in dr:
        c = t.ghost.get("elem")
        if c is None or c[0] != "c" or c[1] != i or kinds(t, c) & set(names):
            return False
    return True


def picked(E, s, i, names, how=None):
    """the child of i chosen is the last (first) one with one of these names: its id, None when there is none; False: chosen otherwise"""
    for h, src, recs, dr, x in reversed(s.ghost.get("picks", ())):
        if getattr(src, "children", None) != i or how is not None and h != how:
            continue
        if not all(kinds(t, t.ghost["elem"]) <= set(names) and E.expand(t, y) == node(t.ghost["elem"]) for t, y in recs):
            return False
        if any(kinds(t, t.ghost["elem"]) & set(names) for t in dr):
            return False
        return None if x is None else E.expand(s, x).d
    return False


def is_ent(v, i):
    return isinstance(v, Sym) and v.id == ("ent", i)
