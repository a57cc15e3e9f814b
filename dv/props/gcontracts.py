"""Contracts of generator functions used at their call sites (proved for their bodies by C12, C14, C15, C16)."""
from contextlib import contextmanager
from .gcommon import *
from ..genmodels import apply_fn
from ..models import rope_of

QNAME_LIKE = L.UTF8 & L.byteset(set(range(33, 256)) - set(b'"\\')).star()   # no white space, quotes, backslashes
TYPETEXT = L.UTF8 & L.byteset(set(range(33, 256)) - set(b'"\\')).star()
IDTEXT = IDENT | L.EPS
COMMENT = (L.lit(b" ").star() + L.lit(b"//") + (L.UTF8 & L.byteset(set(range(256)) - {10}).star()) + L.lit(b"\n")).star() & L.UTF8


def text(v):
    return StringV(v)


def owned(v):
    return Adt(None, 1, (StringV(v),))


def tyname(E, st, a, fn):
    """uninterpreted function of the name (for the namespaces of this run)"""
    return [(s, "ret", owned(r)) for s, r in apply_fn(st, "tyname", rope_of(E, st, a[1]), lambda s, r: [(s, TYPETEXT)], "ty")]


def ident(st, rope):
    """identifier of a local type name"""
    return apply_fn(st, "ident", rope, lambda s, r: [(s, IDTEXT)], "id")


def ftype(E, st, a, fn):
    """default_format_type: identifier of the local name, in the module of the prefix unless that is the target namespace's"""
    r = rope_of(E, st, a[0])
    ns = E.deref(st, a[1])
    out = []
    for s, has in st.split(r, L.ALL + L.lit(b":") + L.ALL):
        if not has:
            out += [(s2, "ret", owned(i)) for s2, i in ident(s, r)]
            continue
        for s2, p, w in s.cut(r, L.UTF8 - (L.ALL + L.lit(b":") + L.ALL), L.lit(b":") + L.ALL):
            for s3, c, l in s2.cut(w, L.lit(b":"), L.UTF8):
                n = E.expand(s3, ns)
                tp = None if n.var == 0 else E.expand(s3, n.f[0]).d[0]
                for s4, eq in (s3.str_eq(p, tp) if tp is not None else [(s3, False)]):
                    for s5, i in ident(s4, l):
                        out.append((s5, "ret", owned(i if eq else s5.rope(tuple(p) + (b"::",) + tuple(i)))))
    return out


def fname(E, st, a, fn):
    return [(s, "ret", text(r)) for s, r in apply_fn(st, "fname", rope_of(E, st, a[0]), lambda s, r: [(s, IDTEXT)], "fname")]


def fcomment(E, st, a, fn):
    o = E.expand(st, a[0])
    if o.var == 0:
        return [(st, "ret", text(()))]
    r = rope_of(E, st, o.f[0])
    return [(s, "ret", text(x)) for s, x in apply_fn(st, "comment", r, lambda s, r: [(s, COMMENT)], "comment")]


def generate(E, st, a, fn):
    """text of a nested entity: opaque; the outermost call is the function under contract"""
    if "gen" not in st.ghost:
        st.ghost["gen"] = ()
        return NotImplemented
    s = st.fork()
    r = s.atom_rope(L.UTF8, "sub")
    e = E.deref(s, a[1])
    s.ghost["gen"] = s.ghost["gen"] + ((e, r),)
    s.ghost["gens"] = s.ghost.get("gens", ()) + ((e, gen_ns(E, s, a[0]), r),)
    return [(s, "ret", text(r))]


def gen_ns(E, st, g):
    """target and XSD namespace the generator holds now"""
    v = E.expand(st, E.deref(st, g))
    out = {}
    for f, x in zip(E.T(v.ty)["v"][0]["f"], v.f):
        if f["n"] in ("target_ns", "xsd_ns"):
            out[f["n"]] = E.expand(st, E.expand(st, E.expand(st, x).f[1]).f[0])
    return out["target_ns"], out["xsd_ns"]


def part(kind, nonempty):
    def f(E, st, a, fn):
        """text of a field or alternative: opaque, one per element"""
        s = st.fork()
        out = []
        e = E.deref(s, a[1])
        for lg in (L.UTF8 - L.EPS, L.EPS) if not nonempty else (L.UTF8 - L.EPS,):
            s2 = s.fork()
            r = s2.atom_rope(lg, kind)
            s2.ghost[kind] = s2.ghost.get(kind, ()) + ((e, r),)
            out.append((s2, "ret", text(r)))
        return out
    return f


G = "xsd_parser::generator::"
BASE = "<%sbase::DefaultBaseGenerator as %sbase::BaseGenerator>::" % (G, G)
ALL = {"format_type_name": (BASE + "format_type_name", tyname), "default_format_type": (G + "default::default_format_type", ftype),
       "default_format_name": (G + "default::default_format_name", fname), "default_format_comment": (G + "default::default_format_comment", fcomment),
       "field": ("<%sstruct_field::DefaultStructFieldGen as %sstruct_field::StructFieldGenerator>::generate" % (G, G), part("field", False)),
       "case": ("<%senum_case::DefaultEnumCaseGen as %senum_case::EnumCaseGenerator>::generate" % (G, G), part("case", True)),
       "generate": (G + "Generator::<'_>::generate", generate)}
CORE = ("format_type_name", "default_format_type", "default_format_name", "default_format_comment")


@contextmanager
def using(E, names=CORE):
    old = E.contracts
    E.contracts = dict(old, **{ALL[n][0]: ALL[n][1] for n in names})
    try:
        yield
    finally:
        E.contracts = old


def lookup(s, kind, rope):
    rope = s.rope(rope)
    for k, v in s.ghost.get(kind, ()):
        if s.rope(k) == rope:
            return s.rope(v)
    return None


def text_ne(s, got, want):
    """states in which the texts differ beyond white space"""
    a, b = re.sub(r"\s+", "", skel(s, got)), re.sub(r"\s+", "", skel(s, want))
    return [] if a == b else str_states_ne(s, got, want)
