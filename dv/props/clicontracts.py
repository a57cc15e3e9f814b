"""Contracts of the library functions the command-line tools call (proved or explored elsewhere: C13, C18, C20, C24, C25), and of the
tools' own functions at their call sites."""
from .gcommon import *
from ..genmodels import apply_fn
from ..models import rope_of
from ..fsmodels import log, pathv

XP, WP = "xsd_parser", "wsdl_parser"


def node_of(E, s, v):
    v = E.expand(s, v)
    while isinstance(v, Ref):
        v = E.expand(s, E.deref(s, v))
    return v


def fails(st, op, *what):
    t = st.fork()
    t.ghost["fs"] = t.ghost.get("fs", ()) + (("failed", op) + what,)
    return t


def parse(E, st, a, fn):
    """parser::parse: the file of the schema in the text, or a failure (error or panic) on malformed text"""
    r = st.rope(rope_of(E, st, a[0]))
    t = fails(st, "parse", r)
    return [(st.fork(), "ret", ok(Opq("rsfile", ("text", r)))), (t, "ret", err(UNIT)), (t.fork(), "panic", "malformed schema")]


def parse_element(E, st, a, fn):
    """parser::parse_schema_element: the file of a schema element, with base types and attribute groups resolved"""
    return [(st, "ret", Opq("rsfile", ("node", node_of(E, st, a[0]))))]


def parse_schema(E, st, a, fn):
    """schema::parse_schema alone: without base types and attribute groups"""
    return [(st, "ret", Opq("rsfile", ("raw", node_of(E, st, a[0]))))]


def gen_default(E, st, a, fn):
    return [(st, "ret", Opq("genbuilder", ()))]


def gen_build(E, st, a, fn):
    if node_of(E, st, a[0]) != Opq("genbuilder", ()):
        raise Unsupported("generator that is not the default one")
    return [(st, "ret", Opq("gen", ()))]


def code(s, f):
    """text generated for a file: one text per file, whatever the generator was used for before (C24)"""
    for k, v in s.ghost.get("code", ()):
        if k == f:
            return s, v
    s = s.fork()
    r = s.atom_rope(L.UTF8, "code")
    s.ghost["code"] = s.ghost.get("code", ()) + ((f, r),)
    return s, r


def gen_file(E, st, a, fn):
    g, f = node_of(E, st, a[0]), node_of(E, st, a[1])
    if g != Opq("gen", ()) or f.kind != "rsfile":
        raise Unsupported("generate_rs_file of %r" % (f,))
    s, r = code(st, f.d)
    return [(s, "ret", StringV(r))]


# ------------------------------------------------------------------ WSDL
def doc_parse(E, st, a, fn):
    r = st.rope(rope_of(E, st, a[0]))
    return [(st.fork(), "ret", ok(Opq("doc", r))), (fails(st, "parse", r), "ret", err(Opq("xmlerr", ())))]


def doc_root(E, st, a, fn):
    return [(st, "ret", Opq("node", ("root", node_of(E, st, a[0]).d)))]


def definitions(E, st, a, fn):
    n = node_of(E, st, a[0])
    return [(st.fork(), "ret", Opq("defs", n.d)), (fails(st, "definitions", n.d), "panic", "malformed WSDL")]


def def_types(E, st, a, fn):
    d = node_of(E, st, a[0]).d

    def gen(E_, s):
        s = s.fork()
        return [(s, E.ref(s, Opq("types", (d, s.fresh("types")))))]
    return [(st, "ret", Opq("abslist", gen))]


def types_schemas(E, st, a, fn):
    t = node_of(E, st, a[0]).d

    def gen(E_, s):
        s = s.fork()
        n = Opq("node", ("schema", t, s.fresh("schema")))
        s.ghost["node"] = n
        return [(s, n)]
    return [(st, "ret", Opq("abslist", gen))]


def wsdl_generate(E, st, a, fn):
    s, r = code(st, ("wsdl", node_of(E, st, a[0]).d))
    return [(s, "ret", StringV(r))]


# ------------------------------------------------------------------ the tools' own functions
def own(name):
    def f(E, st, a, fn):
        """outermost call is the function under contract; at any other call site the contract stands for it: the call is logged, it succeeds or fails"""
        if st.ghost.get("self") == name:
            st.ghost["self"] = None
            return NotImplemented
        args = []
        for x in a:
            v = E.expand(st, x)
            if isinstance(v, Adt):
                args.append(None if v.var == 0 else pathv(E, st, v.f[0]))
            else:
                args.append(pathv(E, st, v))
        s = log(st, "call", name, *args)
        t = log(st, "failed", name, *args)
        return [(s, "ret", ok(UNIT)), (t, "ret", err(Opq("anyhow", (name,)))), (t.fork(), "panic", "failure in " + name)]
    return f


def parse_opts(crate, inp, outp):
    def f(E, st, a, fn):
        t = E.type_by_name("Opt" if "Opt" in E.p.tyname else crate + "::Opt")
        v = {"input": NONE if inp is None else some(Opq("path", inp)), "output": NONE if outp is None else some(Opq("path", outp))}
        return [(st, "ret", Adt(t, 0, tuple(v[x["n"]] for x in E.T(t)["v"][0]["f"])))]
    return f


LIB = {
    "xsd_parser::parser::parse": parse, "xsd_parser::parser::parse_schema_element": parse_element, "xsd_parser::parser::schema::parse_schema": parse_schema,
    "<xsd_parser::generator::builder::GeneratorBuilder<'_> as std::default::Default>::default": gen_default,
    "xsd_parser::generator::builder::GeneratorBuilder::<'_>::build": gen_build,
    "xsd_parser::generator::Generator::<'_>::generate_rs_file": gen_file,
    "roxmltree::parse::<impl roxmltree::Document<'_>>::parse": doc_parse, "roxmltree::Document::<'_>::root_element": doc_root,
    "wsdl_parser::parser::definitions::Definitions::<'_>::new": definitions, "wsdl_parser::parser::definitions::Definitions::<'_>::types": def_types,
    "wsdl_parser::parser::types::Types::<'_>::schemas": types_schemas, "wsdl_parser::generator::generate": wsdl_generate,
}
