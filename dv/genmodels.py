"""Assumed contracts used by the generator functions: Inflector 0.11.4 case conversion, roxmltree 0.19 namespaces,
std::borrow::Cow conversions, character filtering of strings of any length."""
import json
import os
from functools import lru_cache
from . import lang as L
from . import models as M
from .models import model, rmodel, ret, panic, rope_of, RMODELS
from .terms import *

UNI = {k: tuple((a, b) for a, b in v) for k, v in json.load(open(os.path.join(os.path.dirname(__file__), "unicode.json"))).items()}


def isin(nm, c):
    import bisect
    iv = UNI[nm]
    i = bisect.bisect_right(iv, (ord(c), 0x110000)) - 1
    return i >= 0 and iv[i][0] <= ord(c) <= iv[i][1]


def up(c):
    return c.upper() if c.isascii() else c


def low(c):
    return c.lower() if c.isascii() else c


def trim_right(s):
    while s and not isin("is_alphanumeric", s[-1]):
        s = s[:-1]
    return s


def pascal(s):
    """Inflector 0.11.4 to_pascal_case"""
    new, last, found, out = True, " ", False, ""
    for c in trim_right(s):
        if not isin("is_alphanumeric", c) and found:
            new = True
        elif not found and not isin("is_alphanumeric", c):
            continue
        elif isin("is_numeric", c):
            found = new = True
            out += c
        elif new or (isin("is_lowercase", last) and isin("is_uppercase", c) and last != " "):
            found, new = True, False
            out += up(c)
        else:
            found = True
            last = c
            out += low(c)
    return out


def snake(s):
    """Inflector 0.11.4 to_snake_case (byte index used as char index, as there)"""
    first, out = True, ""

    def lower_at(i):
        return 0 <= i < len(s) and isin("is_lowercase", s[i])
    b = 0
    for c in trim_right(s):
        if not isin("is_alphanumeric", c):
            if not first:
                first = True
                out += "_"
        elif not first and c == up(c) and (lower_at(b + 1) or lower_at(b - 1)):
            first = False
            out += "_" + low(c)
        else:
            first = False
            out += low(c)
        b += len(c.encode())
    return out


ASCII = L.byteset(range(128)).star()
AL = L.byteset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")
lo_ = L.byteset(b"abcdefghijklmnopqrstuvwxyz0123456789")
UP_ = L.byteset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789")


@lru_cache(None)
def wide():
    """ASCII letters and digits and every non-ASCII character"""
    return (AL | (L.UTF8 & (L.byteset(range(128, 256)) + L.byteset(range(128, 256)).star()))).star() & L.UTF8


@lru_cache(None)
def out_langs(kind, ascii_):
    """[(language of the input, languages of the output)]; non-ASCII input: over-approximated"""
    o = UP_ + AL.star() if kind == "pascal" else lo_ + lo_.star() + (L.lit(b"_") + lo_ + lo_.star()).star()
    has = L.ALL + AL + L.ALL
    if ascii_:
        return has, (o,), (L.EPS,)
    w = wide()
    if kind != "pascal":
        w = (AL | L.lit(b"_") | (L.UTF8 & (L.byteset(range(128, 256)) + L.byteset(range(128, 256)).star()))).star() & L.UTF8
    return has, (w - L.EPS,), (w,)


def apply_fn(st, kind, rope, cases, name):
    """uninterpreted function of a rope with an output-language contract: [(st, rope)]; equal arguments give equal results"""
    rope = st.rope(rope)
    tab = st.ghost.get(kind, ())
    for k, v in tab:
        if st.rope(k) == rope:
            return [(st, v)]
    out = []
    for s, lg in cases(st, rope):
        s = s.fork()
        r = s.atom_rope(lg, name)
        s.ghost[kind] = s.ghost.get(kind, ()) + ((rope, r),)
        out.append((s, r))
    return out


def case_fn(kind, E, st, r):
    c = st.const_str(r)
    if c is not None:
        return [(st, "ret", StringV(((pascal if kind == "pascal" else snake)(c.decode()).encode(),)))]

    if kind == "pascal":
        # leading separators do not matter
        r = st.rope(r)
        while r and isinstance(r[0], bytes) and not isin("is_alphanumeric", chr(r[0][0])) and r[0][0] < 128:
            r = st.rope((r[0][1:],) + tuple(r[1:]) if len(r[0]) > 1 else tuple(r[1:]))

    def cases(st, rope):
        asc = st.rope_lang(rope).subset(ASCII)
        has, yes, no = out_langs(kind, asc)
        return [(s, o) for s, b in st.split(rope, has) for o in (yes if b else no)]
    return [(s, "ret", StringV(s.rope(x))) for s, x in apply_fn(st, kind, r, cases, kind)]


@rmodel(r"^inflector::cases::(pascalcase::to_pascal_case|snakecase::to_snake_case)$")
def m_inflect(E, st, a, fn):
    return case_fn("pascal" if "pascal" in fn["def"] else "snake", E, st, rope_of(E, st, a[0]))


# ------------------------------------------------------------------ Cow
@rmodel(r"^std::string::<impl std::convert::From<.*> for std::borrow::Cow<'a, str>>::from$", r"^<std::borrow::Cow<.*str> as std::convert::From<.*>>::from$")
def m_cow_from(E, st, a, fn):
    v = E.expand(st, a[0])
    if isinstance(v, StringV):
        return ret(st, Adt(None, 1, (v,)))
    return ret(st, Adt(None, 0, (SRef(rope_of(E, st, v)),)))


@rmodel(r"^std::string::<impl std::convert::From<std::borrow::Cow<.*>> for std::string::String>::from$", r"^<std::string::String as std::convert::From<std::borrow::Cow<.*>>>::from$")
def m_string_from_cow(E, st, a, fn):
    return ret(st, StringV(rope_of(E, st, a[0])))


# ------------------------------------------------------------------ namespaces
def ns_value(name, uri):
    """name: None or a rope; uri: rope"""
    return Opq("ns", (name, uri))


@rmodel(r"^roxmltree::Namespace::<'input>::(name|uri)$")
def m_ns(E, st, a, fn):
    v = E.deref(st, a[0])
    if not (isinstance(v, Opq) and v.kind == "ns"):
        raise Unsupported("namespace value")
    n, u = v.d
    if fn["def"].endswith("uri"):
        return ret(st, SRef(st.rope(u)))
    return ret(st, NONE if n is None else some(SRef(st.rope(n))))


@rmodel(r"^<roxmltree::Namespace<.*> as std::clone::Clone>::clone$")
def m_ns_clone(E, st, a, fn):
    return ret(st, E.deref(st, a[0]))


# ------------------------------------------------------------------ filtering characters
@lru_cache(2000)
def erase(lg, K):
    """image of lg when every byte outside K is dropped"""
    K = set(K)

    def close(qs):
        seen = set(qs)
        todo = list(qs)
        while todo:
            q = todo.pop()
            for b in range(256):
                if b not in K:
                    d = lg.step(q, b)
                    if d not in seen:
                        seen.add(d)
                        todo.append(d)
        return frozenset(x for x in seen if x in live)
    live = lg.live()
    start = close({0} if 0 in live else set())

    def succ(p):
        row = []
        for b in range(256):
            row.append((b, close({lg.step(q, b) for q in p}) if b in K else frozenset()))
        return row
    return L.build(start, succ, lambda p: any(lg.acc[q] for q in p))


def filter_rope(st, rope, iv):
    """characters of rope inside the ASCII class iv: rope; equal arguments give equal results"""
    K = frozenset(c for a, b in iv for c in range(a, b + 1))
    whole = st.rope(rope)
    for k, v in st.ghost.get("filterw", ()):
        if k[1] == K and st.rope(k[0]) == whole:
            return st, st.rope(v)
    keep = L.byteset(K).star()
    out = ()
    s = st
    for p in st.rope(rope):
        if isinstance(p, bytes):
            out += (bytes(c for c in p if c in K),)
        elif s.lang[p].subset(keep):
            out += (p,)
        else:
            for k, v in s.ghost.get("filter", ()):
                if k[0] == p and k[1] == K:
                    out += v
                    break
            else:
                if s is st:
                    s = st.fork()
                r = s.atom_rope(erase(s.lang[p], K), "kept")
                s.ghost["filter"] = s.ghost.get("filter", ()) + (((p, K), r),)
                out += r
    out = s.rope(out)
    if s is not st:
        s.ghost["filterw"] = s.ghost.get("filterw", ()) + (((whole, K), out),)
    return s, out


_collect_string = M.collect_string


def collect_string(E, st, it):
    if isinstance(it, M.FilterIt) and isinstance(it.it, M.CharsIt) and it.it.idx is None and st.const_str(it.it.rope) is None:
        s0 = st.fork()
        f = it.f
        cell = {}

        class Shim:
            def call_value(self, s, g, args):
                return E.call_value(s, g, [E.ref(s, args[0])])
        key = f.ty if isinstance(f, Clo) and not f.f else f if isinstance(f, FnV) else None
        iv = E.cls_cache.get(key) if key is not None else None
        if iv is None:
            iv = M.char_class(Shim(), s0, f)
            if key is not None:
                E.cls_cache[key] = iv
        if all(b < 128 for _, b in iv):
            s, r = filter_rope(st, it.it.rope, iv)
            return ret(s, StringV(r))
    return _collect_string(E, st, it)


M.collect_string = collect_string


def install(E):
    pass


# ------------------------------------------------------------------ slices, splitting at a longer separator
@rmodel(r"^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$")
def m_slice_into_iter(E, st, a, fn):
    st = st.fork()
    return [(s, "ret", Opq("iter", it)) for s, it in M.to_iter(E, st, a[0])]


def exact_split(st, rope, sep):
    """pieces of rope split at sep when no atom contains a byte of sep (else None)"""
    parts = [()]
    for p in st.rope(rope):
        if isinstance(p, bytes):
            xs = p.split(sep)
            parts[-1] += (xs[0],) if xs[0] else ()
            parts.extend(((x,) if x else ()) for x in xs[1:])
        else:
            parts[-1] += (p,)
    return [st.rope(x) for x in parts]


_split = M.MODELS["core::str::<impl str>::split"]


@model("core::str::<impl str>::split")
def m_split2(E, st, a, fn):
    pt = M.pattern(E, st, a[1])
    if pt[0] == "lit" and len(pt[1]) > 1:
        r = rope_of(E, st, a[0])
        if st.const_str(r) is None:
            free = L.byteset(set(range(256)) - set(pt[1])).star()
            todo = [st]
            out = []
            for p in st.rope(r):
                if isinstance(p, bytes):
                    continue
                nx = []
                for s in todo:
                    for s2, b in s.split((p,), free):
                        if b:
                            nx.append(s2)
                        else:
                            out.append((s2, "unsup", "split on %r" % (pt[1],)))
                todo = nx
            for s in todo:
                s = s.fork()
                out.append((s, "ret", M.it_list([SRef(x) for x in exact_split(s, r, pt[1])])))
            return out
    return _split(E, st, a, fn)


# ------------------------------------------------------------------ Debug of strings
PLAIN = L.byteset(set(range(32, 127)) - set(b'"\\')).star()
QUOTED = L.lit(b'"') + (L.byteset(set(range(32, 256)) - set(b'"\\')) | (L.lit(b"\\") + L.byteset(set(range(32, 127))))).star() + L.lit(b'"')


def debug_str(s):
    """what {:?} prints for s, or None when that needs Unicode tables"""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c in "\n\r\t\0":
            out += {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}[c]
        elif ord(c) < 32 or c == "\x7f":
            out += "\\u{%x}" % ord(c)
        elif ord(c) < 127:
            out += c
        else:
            return None
    return out + '"'


def quoted(st, rope):
    """[(st, rope)]: text of rope printed with {:?}"""
    c = st.const_str(rope)
    if c is not None:
        t = debug_str(c.decode())
        if t is not None:
            return [(st, (t.encode(),))]
    out = []
    for s, b in st.split(rope, PLAIN):
        if b:
            out.append((s, s.rope((b'"',) + tuple(rope) + (b'"',))))
        else:
            out += apply_fn(s, "debug", rope, lambda s2, r: [(s2, QUOTED & L.UTF8)], "quoted")
    return out


@rmodel(r"^<str as std::fmt::Debug>::fmt$", r"^<std::string::String as std::fmt::Debug>::fmt$")
def m_str_debug(E, st, a, fn):
    sink, spec = M.formatter_of(E, st, a[1])
    if spec.width is not None or spec.prec is not None:
        raise Unsupported("padded string")
    out = []
    for s, r in quoted(st, rope_of(E, st, a[0])):
        for s2, k, v in M.sink_write(E, s, sink, r):
            out.append((s2, k, M.fmt_result(v)))
    return out
