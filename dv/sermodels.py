"""Assumed contracts of yaserde 0.7 and xml-rs 0.8 as far as the derive macros and xsd_types::utils::yaserde use them.

Serializer: the events written are logged in the ghost "xml"; a write may fail (ghost "xmlerr").
Deserializer: the next event is arbitrary; peek does not consume it, next_event does.  Ghosts: "peek" (the event the reader
stands at, once it is known) and "taken" (events consumed)."""
from . import lang as L
from .models import rmodel, ret, rope_of
from .terms import *

EV = "xml::reader::XmlEvent"


def event(E, kind, *f):
    t = E.type_by_name(EV)
    for i, v in enumerate(E.T(t)["v"]):
        if v["n"] == kind:
            return Adt(t, i, tuple(f))
    raise Unsupported("XmlEvent::" + kind)


@rmodel(r"^xml::writer::XmlEvent::<'a>::(start_element|characters|end_element|cdata|comment)$")
def m_event(E, st, a, fn):
    k = fn["def"].split("::")[-1]
    return ret(st, Opq("xmlev", (k, tuple(rope_of(E, st, a[0])) if a else None)))


@rmodel(r"^yaserde::ser::Serializer::<W>::get_start_event_name$")
def m_start_name(E, st, a, fn):
    if "startname" not in st.ghost:
        raise Unsupported("serializer state")
    n = st.ghost["startname"]
    return ret(st, NONE if n is None else some(StringV(n)))


@rmodel(r"^yaserde::ser::Serializer::<W>::skip_start_end$")
def m_skip(E, st, a, fn):
    return ret(st, st.ghost["skip"])


@rmodel(r"^yaserde::ser::Serializer::<W>::write$")
def m_write(E, st, a, fn):
    e = E.deref(st, a[1])
    if not (isinstance(e, Opq) and e.kind == "xmlev"):
        raise Unsupported("XML event %r" % (e,))
    s, t = st.fork(), st.fork()
    s.ghost["xml"] = s.ghost.get("xml", ()) + (e.d,)
    t.ghost["xmlerr"] = True
    return [(s, "ret", ok(UNIT)), (t, "ret", err(Opq("xmlerr", ())))]


def peeked(E, st):
    """the event the reader stands at: [(state, event or None for an error)]"""
    if st.ghost.get("peek") is not None:
        return [(st, st.ghost["peek"])]
    out = []
    for kind in ("StartElement", "Characters", "EndElement", "CData", "Whitespace", "EndDocument", "error"):
        s = st.fork()
        if kind == "error":
            e = "error"
        elif kind == "StartElement":
            e = event(E, kind, Opq("name", ()), Opq("attrs", ()), Opq("nsp", ()))
        elif kind == "EndElement":
            e = event(E, kind, Opq("name", ()))
        elif kind == "EndDocument":
            e = event(E, kind)
        else:
            e = event(E, kind, StringV(s.atom_rope(L.UTF8 - L.EPS, "text")))
        s.ghost["peek"] = e
        out.append((s, e))
    return out


def emsg(s):
    return err(StringV(s.atom_rope(L.UTF8, "errmsg")))


@rmodel(r"^yaserde::de::Deserializer::<R>::peek$")
def m_peek(E, st, a, fn):
    out = []
    for s, e in peeked(E, st):
        s = s.fork()
        out.append((s, "ret", emsg(s) if e == "error" else ok(E.ref(s, e))))
    return out


@rmodel(r"^yaserde::de::Deserializer::<R>::next_event$")
def m_next_event(E, st, a, fn):
    out = []
    for s, e in peeked(E, st):
        s = s.fork()
        s.ghost["peek"] = None
        s.ghost["taken"] = s.ghost.get("taken", ()) + (e,)
        out.append((s, "ret", emsg(s) if e == "error" else ok(e)))
    return out
