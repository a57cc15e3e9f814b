"""Assumed contracts of roxmltree 0.19 nodes, as far as the parser uses them: a tree of any size and shape.

A node is Opq("xn", id).  id is ("n", name) for a node given to the function under contract, ("c", parent id, k) for an arbitrary
child of a node.  What is known about a node is a ghost:
    "xk"   id -> set of element names it may have ("#text": it is no element, "#other": an element of no known name)
    "xa"   (id, attribute) -> None or the rope of its value
    "xd"   id -> None or the rope of its text
    "xp"   id -> id of the parent element, or None
    "xdom" id -> element names its children may have (precondition of the function under contract)
Every attribute, text and name is arbitrary until the code looks at it.  children() is a sequence of any number of arbitrary
children (dv/abstract.py); find/last/next on it give an arbitrary child that passes the filter, or none, and log in ghost "picks"
what the filter did to one arbitrary child.
"""
from . import lang as L
from . import models as M
from . import abstract as A
from .models import AbsIt, it_next, rmodel, rope_of, is_panic, Panic, ret
from collections import namedtuple
from .terms import *

FACETS = ("enumeration", "fractionDigits", "length", "maxExclusive", "maxInclusive", "maxLength", "minExclusive", "minInclusive", "minLength", "pattern", "totalDigits", "whiteSpace")
NAMES = ("all", "annotation", "any", "anyAttribute", "appInfo", "attribute", "attributeGroup", "choice", "complexContent", "complexType", "documentation", "element",
         "extension", "field", "group", "import", "include", "key", "keyRef", "list", "notation", "redefine", "restriction", "schema", "selector", "sequence", "simpleContent",
         "simpleType", "union", "unique") + FACETS
K = frozenset(NAMES + ("#other", "#text"))
ELEMENTS = K - {"#text"}
OTHERNAME = L.UTF8 - L.union(L.lit(x.encode()) for x in NAMES) - L.EPS


def node(i):
    return Opq("xn", i)


def nid(E, st, v):
    v = E.expand(st, v)
    for _ in range(4):
        if isinstance(v, Opq) and v.kind == "xn":
            return v.d
        v = E.deref(st, v)
    raise Unsupported("XML node expected, got %r" % (v,))


def kinds(st, i):
    return st.ghost.get("xk", {}).get(i, K)


def put(st, tab, k, v):
    s = st.fork()
    s.ghost[tab] = dict(s.ghost.get(tab, {}), **{}) if tab in s.ghost else {}
    s.ghost[tab][k] = v
    return s


def restrict(st, i, ks):
    """the state in which the node has one of the given names, None when it cannot"""
    old = kinds(st, i)
    new = old & frozenset(ks)
    if not new:
        return None
    return st.fork() if new == old else put(st, "xk", i, new)


def test(st, i, ks):
    out = []
    for b, x in ((True, frozenset(ks)), (False, kinds(st, i) - frozenset(ks))):
        s = restrict(st, i, x)
        if s is not None:
            out.append((s, b))
    return out


def attribute(st, i, name):
    """[(state, rope or None)]"""
    tab = st.ghost.get("xa", {})
    if (i, name) in tab:
        return [(st, tab[(i, name)])]
    out = [(put(st, "xa", (i, name), None), None)]
    s = restrict(st, i, kinds(st, i) - {"#text"})
    if s is not None:
        lg = s.ghost.get("xdomattr", {}).get(name, L.UTF8)
        r = s.atom_rope(lg, "@" + name)
        out.append((put(s, "xa", (i, name), r), r))
    return out


def parent(st, i):
    """[(state, id or None)]"""
    if i[0] == "c":
        return [(st, i[1])]
    tab = st.ghost.get("xp", {})
    if i in tab:
        return [(st, tab[i])]
    p = ("n", "parent of " + i[1])
    s = put(st, "xp", i, p)
    return [(put(st, "xp", i, None), None)] + [(t, p) for t in [restrict(s, p, ELEMENTS)] if t is not None]


DOMAIN = {}         # element name -> names its children may have (precondition: the schema is one of the supported ones)


def child_gen(i):
    def gen(E, st):
        s = st.fork()
        c = ("c", i, s.fresh("child"))
        dom = s.ghost.get("xdom", {}).get(i)
        if dom is None:
            ks = kinds(s, i)
            if all(k in DOMAIN for k in ks):
                dom = set().union(*(DOMAIN[k] for k in ks))
        if dom is not None:
            s = put(s, "xk", c, frozenset(dom))
        s.ghost["elem"] = c
        return [(s, node(c))]
    gen.children = i
    return gen


@rmodel(r"^roxmltree::Node::<'a, 'input>::(attribute|has_attribute|children|is_element|parent|parent_element|tag_name|text|namespaces|has_tag_name|has_children)$")
def m_node(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    i = nid(E, st, a[0])
    if nm in ("attribute", "has_attribute"):
        n = st.const_str(rope_of(E, st, a[1]))
        if n is None:
            raise Unsupported("attribute of a symbolic name")
        return [(s, "ret", r is not None if nm == "has_attribute" else NONE if r is None else some(SRef(s.rope(r)))) for s, r in attribute(st, i, n.decode())]
    if nm == "children":
        if i in st.ghost.get("xkids", {}):
            return ret(st, Opq("iter", LcatIt(st.ghost["xkids"][i])))
        return ret(st, Opq("iter", AbsIt(child_gen(i))))
    if nm == "is_element":
        return [(s, "ret", b) for s, b in test(st, i, kinds(st, i) - {"#text"})]
    if nm in ("parent_element", "parent"):
        return [(s, "ret", NONE if p is None else some(node(p))) for s, p in parent(st, i)]
    if nm == "tag_name":
        return ret(st, Opq("xtag", i))
    if nm == "text":
        tab = st.ghost.get("xd", {})
        if i not in tab:
            s = st.fork()
            r = s.atom_rope(L.UTF8, "text")
            return [(put(st, "xd", i, None), "ret", NONE), (put(s, "xd", i, r), "ret", some(SRef(r)))]
        r = tab[i]
        return ret(st, NONE if r is None else some(SRef(st.rope(r))))
    if nm == "namespaces":
        return ret(st, Opq("iter", AbsIt(ns_gen(i))))
    raise Unsupported("node " + nm)


def ns_gen(i):
    def gen(E, st):
        from .genmodels import ns_value
        out = []
        for named in (False, True):
            s = st.fork()
            n = s.atom_rope(L.UTF8 - L.EPS, "prefix") if named else None
            u = s.atom_rope(L.UTF8, "uri")
            v = ns_value(n, u)
            s.ghost["elem"] = ("ns", i, v.d)
            out.append((s, E.ref(s, v)))
        return out
    gen.namespaces = i
    return gen


@rmodel(r"^roxmltree::ExpandedName::<'a, 'b>::name$")
def m_tag(E, st, a, fn):
    v = E.expand(st, a[0])
    v = v if isinstance(v, Opq) else E.deref(st, v)
    if v.kind != "xtag":
        raise Unsupported("tag name")
    out = []
    for k in sorted(kinds(st, v.d)):
        s = restrict(st, v.d, (k,))
        tab = s.ghost.get("xn", {})
        if k == "#other":
            if v.d not in tab:
                s = put(s, "xn", v.d, s.atom_rope(s.ghost.get("othername", OTHERNAME), "tag"))
            r = s.ghost["xn"][v.d]
        else:
            r = () if k == "#text" else (k.encode(),)
        out.append((s, "ret", SRef(s.rope(r))))
    return out


@rmodel(r"^<roxmltree::(Node|Children|NamespaceIter|Namespaces)<.*> as std::clone::Clone>::clone$")
def m_node_clone(E, st, a, fn):
    return ret(st, E.deref(st, a[0]))


# ------------------------------------------------------------------ find, last, next, all, any on abstract sequences
def pick(E, st, it, how):
    """an arbitrary element that the filters let pass, or none"""
    nx, dr = A.dropping(E, lambda: it_next(E, st.fork(), it))
    recs = tuple((s, x) for s, x, n in nx if x is not None and not is_panic(x))
    out = [(s, "panic", x.m) for s, x, n in nx if is_panic(x)]
    src = A.src_of(it)
    for s, x in recs + ((st, None),):
        s = s.fork()
        s.ghost["picks"] = s.ghost.get("picks", ()) + ((how, src, recs, tuple(dr), x),)
        out.append((s, "ret", NONE if x is None else some(x)))
    return out


M.PICK[0] = pick


def alls(E, st, it, f, isall):
    """all/any over an abstract sequence: either answer; what the predicate says of one arbitrary element is logged"""
    recs, out = [], []
    nx, dr = A.dropping(E, lambda: it_next(E, st.fork(), it))
    for s, x, n in nx:
        if x is None:
            continue
        if is_panic(x):
            out.append((s, "panic", x.m))
            continue
        for s2, k, v in E.call_value(s, f, [x]):
            if k != "ret":
                out.append((s2, k, v))
                continue
            recs += s2.branch(v)
    src = A.src_of(it)
    s = st.fork()
    s.ghost["alls"] = s.ghost.get("alls", ()) + ((src, tuple(recs), tuple(dr), isall, isall),)
    out.append((s, "ret", isall))
    for t, b in recs:
        if b != isall:
            t = t.fork()
            t.ghost["alls"] = t.ghost.get("alls", ()) + ((src, tuple(recs), tuple(dr), not isall, isall),)
            out.append((t, "ret", not isall))
    return out


M.PICK[1] = alls


def enumerated(it):
    """positions of an abstract sequence: arbitrary"""
    def gen(E, st):
        out = []
        for s, x, n in it_next(E, st, it):
            if x is None or is_panic(x):
                if x is not None:
                    out.append((s, x))
                continue
            s = s.fork()
            j = s.new_int(0, 1 << 40, "pos")
            s.ghost["poss"] = s.ghost.get("poss", ()) + (j,)
            out.append((s, Tup((j, x))))
        return out
    g = AbsIt(gen)
    return g


M.PICK[2] = enumerated


# ------------------------------------------------------------------ lists: parts in order
# Opq("lcat", parts): part = ("one", value) | ("all", Opq abslist)
def parts(v):
    if isinstance(v, VecV):
        return tuple(("one", x) for x in v.xs)
    if isinstance(v, Opq) and v.kind == "abslist":
        return (("all", v),)
    if isinstance(v, Opq) and v.kind == "lcat":
        return v.d
    raise Unsupported("list of unknown form")


def lcat(ps):
    if all(k == "one" for k, x in ps):
        return VecV(tuple(x for k, x in ps))
    if len(ps) == 1:
        return ps[0][1]
    return Opq("lcat", tuple(ps))


# iterator over a list in parts; an abstract part gives any number of arbitrary elements
LcatIt = namedtuple("LcatIt", "parts")


def n_lcat(E, st, it):
    if not it.parts:
        return [(st, None, it)]
    k, x = it.parts[0]
    if k == "one":
        return [(st, x, LcatIt(it.parts[1:]))]
    return [(s, v, it) for s, v in x.d(E, st.fork())] + n_lcat(E, st, LcatIt(it.parts[1:]))


M.NEXT[LcatIt] = n_lcat
M.INTOITER["lcat"] = lambda E, st, v: [(st, LcatIt(v.d))]
M.ITERREF["lcat"] = lambda E, st, r, t: [(st, LcatIt(tuple((k, E.ref(st, x) if k == "one" else Opq("abslist", A.refs(x.d))) for k, x in t.d)))]


def rebase(it, b):
    return it._replace(it=rebase(it.it, b)) if isinstance(it, (M.MapIt, M.FilterIt, M.FilterMapIt)) else b


def collect_lcat(E, st, it, tgt):
    """part by part"""
    todo, out = [(st, (), M.basis(it).parts)], []
    while todo:
        s, ps, rest = todo.pop()
        if not rest:
            out.append((s, "ret", lcat(ps)))
            continue
        k, x = rest[0]
        if k == "one":
            for s2, v, n in it_next(E, s, rebase(it, M.ListIt((x,)))):
                if is_panic(v):
                    out.append((s2, "panic", v.m))
                else:
                    todo.append((s2, ps + ((("one", v),) if v is not None else ()), rest[1:]))
        else:
            for s2, k2, v in A.collect(E, s, rebase(it, AbsIt(x.d)), tgt):
                if k2 != "ret":
                    out.append((s2, k2, v))
                else:
                    todo.append((s2, ps + (("all", v),), rest[1:]))
    return out


M.COLLECT[LcatIt] = collect_lcat


def each_lcat(E, st, it, f):
    """for_each, part by part"""
    todo, out = [(st, M.basis(it).parts)], []
    while todo:
        s, ps = todo.pop()
        if not ps:
            out.append((s, "ret", UNIT))
            continue
        k, x = ps[0]
        if k == "one":
            for s2, v, n in it_next(E, s, rebase(it, M.ListIt((x,)))):
                if is_panic(v):
                    out.append((s2, "panic", v.m))
                elif v is None:
                    todo.append((s2, ps[1:]))
                else:
                    for s3, k3, y in E.call_value(s2, f, [v]):
                        todo.append((s3, ps[1:])) if k3 == "ret" else out.append((s3, k3, y))
        else:
            for s2, k2, y in A.fold(E, s, rebase(it, AbsIt(x.d)), UNIT, f, "for_each"):
                todo.append((s2, ps[1:])) if k2 == "ret" else out.append((s2, k2, y))
    return out


M.PICK[3] = each_lcat


def join_lcat(E, st, v, sep):
    """texts of a list in parts, with a separator between elements (the abstract part, if any, is last)"""
    out, pre = [], ()
    for j, (k, x) in enumerate(v.d):
        if k == "one":
            pre += (tuple(sep) if j else ()) + tuple(rope_of(E, st, x))
            continue
        if j != len(v.d) - 1 or not j:
            raise Unsupported("join of a list in parts")
        lg = L.EPS
        if x.kind != "abstexts":
            raise Unsupported("join of a list of unknown form")
        e, outs = x.d
        s = st.fork()
        r = s.atom_rope((s.rope_lang(sep) + e).star(), "joined")
        s.ghost["joined"] = s.ghost.get("joined", ()) + ((r, ("before", tuple(sep)), outs),)
        return [(s, "ret", StringV(s.rope(pre + tuple(r))))]
    return [(st, "ret", StringV(st.rope(pre)))]


M.JOIN["lcat"] = join_lcat


def lcat_len(E, st, v):
    n = 0
    for k, x in v.d:
        n = add(n, 1 if k == "one" else M.LEN[x.kind](E, st, x))
    return n


M.LEN["lcat"] = lcat_len


def base_it(it):
    while isinstance(it, (M.MapIt, M.FilterIt, M.FilterMapIt, M.ClonedIt)):
        it = it.it
    return it


def l_push(E, st, a, v):
    E.set_ref(st, a[0], lcat(parts(v) + (("one", a[1]),)))
    return ret(st, UNIT)


def l_append(E, st, a, v, w=None):
    w = E.deref(st, a[1])
    E.set_ref(st, a[0], lcat(parts(v) + parts(w)))
    E.set_ref(st, a[1], VecV(()))
    return ret(st, UNIT)


for k_ in ("abslist", "lcat"):
    M.VECMUT[("push", k_)] = l_push
    M.VECMUT[("append", k_)] = l_append
    M.VECMUT[("append_from", k_)] = l_append


def l_len(E, st, v):
    k = getattr(v.d, "term", None) or id(v.d)
    n = st.ghost.get("xl", {}).get(k)
    if n is None:
        n = st.new_int(0, 1 << 40, "len")
        st.ghost["xl"] = dict(st.ghost.get("xl", {}), **{})
        st.ghost["xl"][k] = n
    return n


M.LEN["abslist"] = l_len


# ------------------------------------------------------------------ the type of an element
def variant(E, t, name, *f):
    for j, v in enumerate(E.T(t)["v"]):
        if v["n"] == name:
            return Adt(t, j, f)
    raise Unsupported("variant %s" % name)


def sub_enum(E, t, vname):
    """type id of the payload of a variant"""
    for v in E.T(t)["v"]:
        if v["n"] == vname:
            return v["f"][0]["t"]


def cap(k):
    return k[0].upper() + k[1:]


def kind_variant(E, st, t, i, k):
    """[(state, ElementType value)] of a node of the given name, for documents that obey the schema of schemas"""
    if k in ("extension", "restriction"):
        out = []
        u = sub_enum(E, t, cap(k))
        for s, p in parent(st, i):
            if p is None:
                out.append((s, variant(E, t, "XsdError", StringV(s.atom_rope(L.UTF8, "err")))))
                continue
            for q in ("complexContent", "simpleContent") + (("simpleType",) if k == "restriction" else ()):
                s2 = restrict(s, p, (q,))
                if s2 is not None:
                    out.append((s2, variant(E, t, cap(k), variant(E, u, cap(q)))))
            s2 = restrict(s, p, K - {"complexContent", "simpleContent", "simpleType"} | (set() if k == "restriction" else {"simpleType"}))
            if s2 is not None:
                out.append((s2, variant(E, t, "XsdError", StringV(s2.atom_rope(L.UTF8, "err")))))
        return out
    if k in FACETS:
        u = sub_enum(E, t, "Facet")
        out = []
        if k == "whiteSpace":
            w = sub_enum(E, u, "WhiteSpace")
            tab = st.ghost.get("xa", {})
            for c in ("preserve", "replace", "collapse"):
                for s, r in attribute(st, i, "value"):
                    if r is None:
                        continue
                    for s2, b in s.branch(SEq(s.rope(r), (c.encode(),), False)) if False else s.str_eq(r, (c.encode(),)):
                        if b:
                            out.append((s2, variant(E, t, "Facet", variant(E, u, "WhiteSpace", variant(E, w, cap(c))))))
            return out
        for s, r in attribute(st, i, "value"):
            if r is not None:        # facets have a value
                out.append((s, variant(E, t, "Facet", variant(E, u, cap(k), StringV(r)))))
        return out
    if k == "#text":
        return [(st, variant(E, t, "UnknownElement", StringV(())))]
    if k == "#other":
        s = st
        if i not in s.ghost.get("xn", {}):
            s = st.fork()
            s = put(s, "xn", i, s.atom_rope(OTHERNAME, "tag"))
        return [(s, variant(E, t, "UnknownElement", StringV(s.ghost["xn"][i])))]
    return [(st, variant(E, t, cap(k)))]


def etype_variants(E, st, v):
    i = v.id[1]
    out = []
    for k in sorted(kinds(st, i)):
        s = restrict(st, i, (k,))
        for s2, a in kind_variant(E, s, v.ty, i, k):
            s2 = s2.fork()
            s2.res[v.id] = a
            out.append((s2, a))
    return out


M.LAZY["et"] = etype_variants


def etype(E, st, a, fn):
    """contract of XsdNode::xsd_type: the type is that of the element's name (and of the parent's, for extensions and restrictions)"""
    i = nid(E, st, a[0])
    return ret(st, Sym(E.p.fns[fn["key"]]["body"]["locals"][0] if "key" in fn else fn["body"]["locals"][0], ("et", i)))


def by_variant(E, t):
    out = {}
    for k in K:
        n = "UnknownElement" if k[0] == "#" else "Facet" if k in FACETS else cap(k)
        out.setdefault(n, set()).add(k)
    return out


def etype_eq(E, st, x, y):
    """equality of lazily known element types: [(state, bool)] or None"""
    if isinstance(y, Sym) and not isinstance(x, Sym):
        x, y = y, x
    if not (isinstance(x, Sym) and isinstance(x.id, tuple) and x.id[0] == "et" and isinstance(y, Adt)):
        return None
    if y.f:
        return None
    n = E.T(x.ty)["v"][y.var]["n"]
    return test(st, x.id[1], by_variant(E, x.ty).get(n, ()))


M.LAZYEQ.append(etype_eq)
