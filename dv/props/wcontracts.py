"""Contracts of the WSDL tool's functions (wsdl_parser::parser, wsdl_parser::generator), each verified for its own body (c20.py):

  Message::new, PortType::new, Operation::new, OperationType::new, Operation::documentation, Definitions::new, target_namespace
      for every node of an XML tree whose children are of the names WSDL 1.1 allows there
  Function::new        for every operation and every set of messages
  generate_function    for every function description
  generate             for any number of port types with any number of operations
  default_format_type / default_format_name: the identifiers the schema tool gives the same names
"""
from .pcontracts import *
from .pspec import Tx, St_, Li, Va, match, children_map, at
from .. import models as M
from .. import xmlmodels as X
from .. import abstract as A
from ..models import rmodel, ret, AbsIt, rope_of
from .gcontracts import using, ident, ftype, fname, fcomment, lookup, text, IDTEXT, TYPETEXT, COMMENT

W = "wsdl_parser::"
WP, WG = W + "parser::", W + "generator::"
OP, OTY, PARAM, FAULT, PTY = (WP + "port_type::%s<'_>" % x for x in ("Operation", "OperationType", "Param", "Fault", "PortType"))
MSG, PART, DEFS, FUN, FPAR = WP + "message::Message<'_>", WP + "message::Part<'_>", WP + "definitions::Definitions<'_>", WG + "function::Function<'_>", WG + "function::Param<'_>"
WNAMES = ("binding", "definitions", "documentation", "import", "input", "fault", "message", "operation", "output", "part", "portType", "types", "service", "schema")
OTHER = X.OTHERNAME - L.union(L.lit(x.encode()) for x in WNAMES)
EXTRA = {"documentation", "#other", "#text"}
# what WSDL 1.1 allows below a node of each name
WDOM = {"definitions": EXTRA | {"import", "types", "message", "portType", "binding", "service"}, "message": EXTRA | {"part"}, "portType": EXTRA | {"operation"},
        "operation": EXTRA | {"input", "output", "fault"}, "types": EXTRA | {"schema"}}
ATTRS = {"name": NAME, "message": NAME, "element": NAME, "type": NAME}


def wstate():
    st = State()
    st.ghost["othername"] = OTHER
    st.ghost["xk"] = {}
    st.ghost["xdom"] = {}
    st.ghost["xdomattr"] = ATTRS
    st.ghost["logpicks"] = True
    return st


def known(st, i, k):
    st.ghost["xk"] = dict(st.ghost["xk"], **{})
    st.ghost["xk"][i] = frozenset([k])
    if k in WDOM:
        st.ghost["xdom"] = dict(st.ghost["xdom"], **{})
        st.ghost["xdom"][i] = frozenset(WDOM[k])
    return node(i)


def given(st, i, name, lg=NAME):
    """an attribute that is there"""
    r = st.atom_rope(lg, "@" + name)
    tab = st.ghost.get("xa", {})
    st.ghost["xa"] = dict(tab, **{})
    st.ghost["xa"][(i, name)] = r
    return r


def absent(st, i, name):
    st.ghost["xa"] = dict(st.ghost.get("xa", {}), **{})
    st.ghost["xa"][(i, name)] = None


def wlist(E, i, names, mk):
    """list of mk(child) for the children of a node with these names"""
    def gen(E_, st):
        s = st.fork()
        c = ("c", i, s.fresh("child"))
        s = put(s, "xk", c, frozenset(names))
        s.ghost["elem"] = c
        return [(s, mk(s, c))]
    gen.term = (i, tuple(names))
    return Opq("abslist", gen)


# ------------------------------------------------------------------ maps keyed by texts
# Opq("omap", tag): what is in it is arbitrary; a key asked for is there or not ("mget" ghost); "mval"[tag](E, state, key) makes its value
@rmodel(r"^std::collections::HashMap::<K, V>::new$")
def m_map_new(E, st, a, fn):
    s = st.fork()
    return ret(s, Opq("omap", ("new", s.fresh("map"))))


@rmodel(r"^std::collections::HashMap::<K, V, S.*>::(insert|get|values|iter|keys|contains_key)$")
def m_map(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "omap"):
        raise Unsupported("map of unknown form")
    if nm == "insert":
        if "fs" not in st.ghost:
            raise Unsupported("insert into a map")
        s = st.fork()
        s.ghost["fs"] = s.ghost["fs"] + (("insert", v.d, s.rope(rope_of(E, s, a[1])), a[2]),)
        return ret(s, NONE)         # precondition: keys are unique
    if nm == "values" and v.d in st.ghost.get("mall", {}):
        return ret(st, Opq("iter", AbsIt(A.refs(st.ghost["mall"][v.d]))))
    if nm not in ("get", "contains_key"):
        raise Unsupported("map " + nm)
    key = st.rope(rope_of(E, st, a[1]))
    out = []
    for t, x in map_get(E, st, v.d, key):
        out.append((t, "ret", x is not None if nm == "contains_key" else NONE if x is None else some(x)))
    return out


def map_get(E, st, tag, key):
    tab = st.ghost.get("mget", {})
    for (t, k), x in tab.items():
        if t == tag and st.rope(k) == key:
            return [(st, x)]
    out, todo = [], [st]
    # the same key once more, or one that is not equal to any key asked for before
    for (t, k), x in tab.items():
        if t != tag:
            continue
        nx = []
        for s in todo:
            for s2, eq in s.str_eq(k, key):
                (out.append((s2, x)) if eq else nx.append(s2))
        todo = nx
    for s in todo:
        out.append((put(s, "mget", (tag, key), None), None))
        for s2, v in s.ghost["mval"][tag](E, s.fork(), key):
            r = E.ref(s2, v)
            out.append((put(s2, "mget", (tag, key), r), r))
    return out


@rmodel(r"^(std|core|alloc)::slice::<impl \[T\]>::(sort_by_key|sort_unstable_by_key|sort_by_cached_key)$")
def m_sort_key(E, st, a, fn):
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "abslist"):
        raise Unsupported("sort of a list of unknown form")
    recs, out = [], []
    for s, x in v.d(E, st.fork()):
        for s2, k, key in E.call_value(s, a[1], [E.ref(s, x)]):
            if k != "ret":
                out.append((s2, k, key))
            else:
                recs.append((s2, x, key))

    def gen(E_, s):
        return v.d(E_, s)
    gen.__dict__.update(v.d.__dict__)
    gen.sorted, gen.of = tuple(recs), v
    s = st.fork()
    E.set_ref(s, a[0], Opq("abslist", gen))
    return out + ret(s, UNIT)


def join_abs(E, st, v, sep):
    """the texts of all elements, in order, with separators"""
    s = st.fork()
    r = s.atom_rope(L.UTF8, "joined")
    s.ghost["joinedlist"] = s.ghost.get("joinedlist", ()) + ((r, tuple(sep), v),)
    return [(s, "ret", StringV(r))]


M.JOIN["abslist"] = join_abs


# ------------------------------------------------------------------ contracts at call sites
def c_new(tyname, key):
    """Message::new(node), PortType::new(node), Operation::new(node), …: what a node stands for, opaque"""
    def f(E, st, a, fn):
        i = nid(E, st, a[0])
        if st.ghost.get("self") == key:
            st.ghost["self"] = None
            return NotImplemented
        return [(st, "ret", Opq("wnew", (key, i)))]
    return f


def c_wname(E, st, a, fn):
    """name() of something opaque: the name attribute of its node"""
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "wnew"):
        return NotImplemented
    i = v.d[1]
    out = []
    for s, r in attribute(st, i, "name"):
        out.append((s, "panic", "no name") if r is None else (s, "ret", SRef(s.rope(r))))
    return out


NEW = {k: (WP + n + "::<'_>::new", c_new(n, k)) for k, n in
       (("message", "message::Message"), ("porttype", "port_type::PortType"), ("operation", "port_type::Operation"), ("optype", "port_type::OperationType"),
        ("binding", "binding::Binding"), ("import", "definitions::Import"), ("types", "types::Types"))}
NAMEOF = {WP + n + "::<'_>::" + m: c_wname for n, m in (("message::Message", "name"), ("port_type::PortType", "name"), ("binding::Binding", "name"))}


def c_import_ns(E, st, a, fn):
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "wnew"):
        return NotImplemented
    return [(s, "panic", "no namespace") if r is None else (s, "ret", SRef(s.rope(r))) for s, r in attribute(st, v.d[1], "namespace")]


NAMEOF[WP + "definitions::Import::<'_>::namespace"] = c_import_ns
WFMT = {WG + "default_format_type": None, WG + "default_format_name": None, WG + "default_format_comment": None}


def wftype(E, st, a, fn):
    """default_format_type(name, target namespace): verified to be the schema tool's"""
    r = rope_of(E, st, a[0])
    o = E.expand(st, a[1])
    tp = None
    if o.var == 1:
        v = o.f[0]
        for _ in range(3):
            if isinstance(v, Opq) and v.kind == "ns":
                break
            v = E.deref(st, v)
        tp = v.d[0]
    c = st.const_str(r)
    out = []
    from ..genmodels import apply_fn
    if c in (b"T", b"transport::Transport"):
        # the fixed texts of the signature: verified in c20.py (fixed-types)
        return [(st, "ret", owned_(c))]
    for s, has in st.split(r, L.ALL + L.lit(b":") + L.ALL):
        if not has:
            out += [(s2, "ret", owned_(i)) for s2, i in ident(s, r)]
            continue
        for s2, p, w in s.cut(r, L.UTF8 - (L.ALL + L.lit(b":") + L.ALL), L.lit(b":") + L.ALL):
            for s3, c_, l in s2.cut(w, L.lit(b":"), L.UTF8):
                for s4, eq in (s3.str_eq(p, tp) if tp is not None else [(s3, False)]):
                    for s5, i in ident(s4, l):
                        out.append((s5, "ret", owned_(i if eq else s5.rope(tuple(p) + (b"::",) + tuple(i)))))
    return out


def owned_(r):
    return Adt(None, 1, (StringV(r if isinstance(r, tuple) else (r,)),))


WFMT[WG + "default_format_type"] = wftype
WFMT[WG + "default_format_name"] = fname
WFMT[WG + "default_format_comment"] = fcomment


@contextmanager
def with_contracts(E, d):
    old = E.contracts
    E.contracts = dict(old, **d)
    try:
        yield
    finally:
        E.contracts = old


# ------------------------------------------------------------------ what generate() uses
def ops_of(E, st, a, fn):
    """PortType::operations: the operations below its node, in order (PortType::new)"""
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "wnew" and v.d[0] == "porttype"):
        return NotImplemented
    i = v.d[1]

    def gen(E_, s):
        s = s.fork()
        c = ("c", i, s.fresh("op"))
        known(s, c, "operation")
        s.ghost["elem"] = c
        return [(s, Opq("wnew", ("operation", c)))]
    gen.opsof = i
    return [(st, "ret", E.ref(st, Opq("abslist", gen)))]


def fun_new(E, st, a, fn):
    """Function::new(operation, definitions): opaque"""
    op, df = E.deref(st, a[0]), E.deref(st, a[1])
    if not (isinstance(op, Opq) and op.kind == "wnew" and op.d[0] == "operation"):
        return NotImplemented
    return [(st, "ret", Opq("wfun", (op.d[1], df)))]


def fun_text(E, st, a, fn):
    """generate_function(function, target namespace): opaque text"""
    f = E.deref(st, a[0])
    if not (isinstance(f, Opq) and f.kind == "wfun"):
        return NotImplemented
    s = st.fork()
    r = s.atom_rope(L.UTF8, "fun")
    s.ghost["gf"] = s.ghost.get("gf", ()) + ((f.d, E.expand(s, a[1]), r),)
    return [(s, "ret", StringV(r))]


def tns_of(E, st, a, fn):
    """Definitions::target_namespace: one value per document"""
    v = st.ghost.get("wtns")
    return NotImplemented if v is None else [(st, "ret", v)]


def doc_of(E, st, a, fn):
    """Operation::documentation: some text or none"""
    v = E.deref(st, a[0])
    i = v.d[1] if isinstance(v, Opq) and v.kind == "wnew" else nid(E, st, v.f[field_index(E, v, "node")]) if isinstance(v, Adt) else None
    if i is None or not st.ghost.get("docs"):
        return NotImplemented
    tab = st.ghost.get("wdoc", {})
    if i in tab:
        return [(st, "ret", NONE if tab[i] is None else some(SRef(tab[i])))]
    s = st.fork()
    r = s.atom_rope(L.UTF8, "doc")
    return [(put(st, "wdoc", i, None), "ret", NONE), (put(s, "wdoc", i, r), "ret", some(SRef(r)))]


def field_index(E, v, name):
    for j, f in enumerate(E.T(v.ty)["v"][v.var]["f"]):
        if f["n"] == name:
            return j
    raise Unsupported("field " + name)


GENCON = {WP + "port_type::PortType::<'_>::operations": ops_of, WG + "function::Function::<'_>::new": fun_new, WG + "generate_function": fun_text,
          WP + "definitions::Definitions::<'_>::target_namespace": tns_of}
DOCCON = {WP + "port_type::Operation::<'_>::documentation": doc_of}


def defs(E):
    return adt(E, DEFS, node=node(("n", "d")), imports=Opq("omap", "imports"), messages=Opq("omap", "messages"), port_types=Opq("omap", "port_types"), bindings=Opq("omap", "bindings"))
