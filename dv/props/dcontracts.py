"""Contracts for the code the derive macros generate: the inner types are opaque (any type), so what is proved holds for all of them."""
from contextlib import contextmanager
from .gspec import *
from ..genmodels import apply_fn
from ..models import rope_of, formatter_of, sink_write, fmt_result


def from_str(E, st, a, fn):
    """reading a text as an inner type: accepted with some value or rejected with some error; remembered in order"""
    r = st.rope(rope_of(E, st, a[0]))
    s, t = st.fork(), st.fork()
    tok = Opq("val", (fn["name"], s.new_atom(L.UTF8, "val")))
    s.ghost["inner"] = s.ghost.get("inner", ()) + ((fn["name"], r, True, tok),)
    t.ghost["inner"] = t.ghost.get("inner", ()) + ((fn["name"], r, False, None),)
    e = StringV(t.atom_rope(UTF8, "rejected"))
    return [(s, "ret", ok(tok)), (t, "ret", err(e if errtype(E, fn) == "std::string::String" else Opq("parse error", ())))]


def errtype(E, fn):
    """error type of the function's result"""
    if fn.get("body"):
        return E.T(E.T(fn["body"]["locals"][0])["args"][1]).get("name")
    return None


def display(E, st, a, fn):
    """printing an inner value: an uninterpreted text of the value"""
    v = E.deref(st, a[0])
    while isinstance(v, (Ref, BoxV)):
        v = E.deref(st, v)
    if not (isinstance(v, Opq) and v.kind == "val"):
        return NotImplemented
    sink, spec = formatter_of(E, st, a[1])
    out = []
    for s, r in printed(E, st, v):
        out += [(x, k, fmt_result(y)) for x, k, y in sink_write(E, s, sink, r)]
    return out


def to_string(E, st, a, fn):
    v = E.deref(st, a[0])
    while isinstance(v, (Ref, BoxV)):
        v = E.deref(st, v)
    if not (isinstance(v, Opq) and v.kind == "val"):
        return NotImplemented
    return [(s, "ret", StringV(r)) for s, r in printed(E, st, v)]


def printed(E, st, v):
    if isinstance(v, StringV):
        return [(st, tuple(v.r))]
    return apply_fn(st, "printed", (v.d[1],), lambda s, r: [(s, UTF8)], "printed")


@contextmanager
def opaque(E, inst):
    """every FromStr and Display except those of the instance itself"""
    old = E.contracts
    own = "<dvharness::inst::%s::T as " % inst
    c = dict(old)
    for n in E.p.by_name:
        if n.startswith(own):
            continue
        if n.endswith("::from_str") and "std::str::FromStr" in n and "std::string::String as" not in n:
            c[n] = from_str
        elif n.endswith(" as std::string::ToString>::to_string"):
            c[n] = to_string
        elif n.endswith("::fmt") and "std::fmt::Display" in n and not n.startswith(("<&", "<str ", "<std::string::String", "<std::fmt")):
            c[n] = display
    E.contracts = c
    try:
        yield
    finally:
        E.contracts = old


def inst_type(E, m):
    return E.type_by_name("inst::%s::T" % m)


def elems(E, st):
    """an arbitrary item of a list value"""
    s = st.fork()
    v = Opq("val", ("elem", s.new_atom(UTF8, "elem")))
    s.ghost["elem"] = v
    return [(s, E.ref(s, v))]


def strings(E, st):
    s = st.fork()
    v = StringV(s.atom_rope(UTF8, "elem"))
    s.ghost["elem"] = v
    return [(s, E.ref(s, v))]


def value(E, st, m):
    """an arbitrary value of the instance: (value, inner value or None for a list)"""
    if m.startswith("v_"):
        return Adt(inst_type(E, m), 0, (Opq("abslist", strings if m == "v_str" else elems),)), None
    v = StringV(st.atom_rope(UTF8, "v")) if m == "w_str" else Opq("val", ("inner", st.new_atom(UTF8, "v")))
    return Adt(inst_type(E, m), 0, (v,)), v


def print_of(s, v):
    if isinstance(v, StringV):
        return s.rope(v.r)
    return lookup(s, "printed", (v.d[1],))


def same(s, a, b):
    return a is not None and b is not None and s.rope(a) == s.rope(b)


def item_text(t):
    """what the current item prints"""
    return print_of(t, t.ghost["elem"]) if "elem" in t.ghost else None


def listed(s, r):
    """r is the text of all items in order, with one space between neighbours"""
    r = s.rope(r)
    recs = [x for x in s.ghost.get("joined", ()) if x is not None]
    if "elem" not in s.ghost and not recs:
        return r == ()
    for j, sp, outs in recs:
        texts = [(t, x) for t, x in outs if x is not None]
        if sp == () and "elem" in s.ghost:
            head = item_text(s)
            if head is not None and r == s.rope(tuple(head) + tuple(j)):
                return bool(texts) and all(same(t, x, (b" ",) + tuple(item_text(t) or ())) and item_text(t) is not None for t, x in texts)
        if sp != () and s.const_str(sp) == b" " and r == s.rope(j):
            return bool(texts) and all(same(t, x, item_text(t)) for t, x in texts)
    raise Unsupported("printed list of an unknown form")


def read_ok(E, s, v, text, m):
    """v is the outcome the type's reading of `text` must have: the inner type's own outcome, or for a list the outcomes of all its words"""
    v = E.expand(s, v)
    inner = s.ghost.get("inner", ())
    if m == "w_str":
        return v.var == 0 and same(s, E.expand(s, E.expand(s, v.f[0]).f[0]).r, text) and not inner
    if not m.startswith("v_"):
        return len(inner) == 1 and same(s, inner[0][1], text) and (v.var == 0 and inner[0][2] and E.expand(s, v.f[0]).f[0] == inner[0][3] or v.var == 1 and not inner[0][2])
    if v.var == 1:
        return bool(inner) and not inner[-1][2] and same(s, inner[-1][1], s.ghost.get("elem"))
    val = E.expand(s, E.expand(s, v.f[0]).f[0])
    if isinstance(val, VecV) and s.rope(text) == ():
        return not val.xs and not inner
    for o, oks, it in s.ghost.get("collected", ()):
        if o is not val:
            continue
        from ..abstract import src_of, DROPPED
        src = src_of(it)
        if getattr(src, "how", None) != "split_whitespace" or not same(s, src.text, text):
            return False
        for t, x in oks:
            if x is None:
                continue
            if x is DROPPED:
                return False
            if m == "v_str":
                if not (isinstance(x, StringV) and same(t, x.r, t.ghost.get("elem"))):
                    return False
                continue
            i = t.ghost.get("inner", ())
            if not (i and i[-1][2] and i[-1][3] == x and same(t, i[-1][1], t.ghost.get("elem"))):
                return False
        return True
    raise Unsupported("list value of an unknown form")


def written(E, s, v, g, skip, text_ok):
    """on success exactly the start tag, the text of the value and the end tag were written (the tags unless the serializer is inside an element)"""
    v = E.expand(s, v)
    if v.var == 1:
        return bool(s.ghost.get("xmlerr"))
    ev_ = list(s.ghost.get("xml", ()))
    if s.ghost.get("xmlerr"):
        return False
    if not skip:
        if len(ev_) < 2 or ev_[0][0] != "start_element" or ev_[-1] != ("end_element", None):
            return False
        if not same(s, ev_[0][1], g["n"] if g["n"] is not None else (b"T",)):
            return False
        ev_ = ev_[1:-1]
    return len(ev_) == 1 and ev_[0][0] == "characters" and text_ok(s, ev_[0][1])


def read_event(E, s, v, reads):
    """a start element is consumed and nothing else; the value is what the reading of the text that follows gives (no text: the empty text)"""
    v = E.expand(s, v)
    taken = s.ghost.get("taken", ())
    nm = lambda e: E.T(e.ty)["v"][e.var]["n"] if isinstance(e, Adt) else e
    if not taken:
        return v.var == 1
    if len(taken) != 1 or nm(taken[0]) != "StartElement":
        return v.var == 1 and nm(taken[0]) != "StartElement"
    e = s.ghost.get("peek")
    if e == "error":
        return True
    if e is None:
        return False
    return reads(s, v, E.expand(s, e.f[0]).r if nm(e) == "Characters" else ())


def as_element(E, s, m, default):
    """witness of a path through deserialize: an element with the text the reader gave, and that text (white space around the
    text of an element never reaches the derived code, the reader drops it)"""
    e = s.ghost.get("peek")
    t = default
    if isinstance(e, Adt) and E.T(e.ty)["v"][e.var]["n"] == "Characters":
        t = ev(s, m, E.expand(s, e.f[0]).r)
        t = t.decode() if isinstance(t, bytes) else t
        t = t.replace("\r\n", "\n").replace("\r", "\n").strip(" \t\n")
        if not t or re.search("[^\t\n -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", t):
            raise Unsupported("text that no document holds")
    return "<a>%s</a>" % t.replace("&", "&amp;").replace("<", "&lt;").replace("]]>", "]]&gt;"), t
