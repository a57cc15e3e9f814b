"""Assumed contracts on the standard library (and, in models_ext.py, on dependencies).

Each model is the library function's contract, stated over the symbolic state.  Every model
used in a run is listed in the evidence as an assumed contract.
"""
import re
from collections import namedtuple
from . import lang as L
from .terms import *
from .state import State

MODELS = {}
RMODELS = []


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def rmodel(*rxs):
    def d(f):
        for r in rxs:
            RMODELS.append((re.compile(r), f))
        return f
    return d


def ret(st, v):
    return [(st, "ret", v)]


def panic(st, msg):
    return [(st, "panic", msg)]


def isb(x):
    return isinstance(x, (bool, Cmp, And, Or, InL, SEq, BV))


# ------------------------------------------------------------------ ropes
def rope_of(E, st, v):
    for _ in range(8):
        v = E.expand(st, v)
        if isinstance(v, (SRef, StringV)):
            return v.r
        if isinstance(v, (Ref, BoxV)):
            v = E.deref(st, v)
            continue
        if isinstance(v, Opq) and v.kind == "str":
            return v.d
        if isinstance(v, Adt) and len(v.f) == 1:      # Cow
            v = v.f[0]
            continue
        break
    raise Unsupported("string expected, got %r" % (v if isinstance(v, Opq) else type(v).__name__,))


def find_len(st, r, n):
    """split rope r at byte length n when that is syntactically determined: (pre, post) or None;
    third result: the atom and constant offset when the cut is inside an atom"""
    r = st.rope(r)
    n = st.norm(n)
    acc = 0
    for i in range(len(r) + 1):
        d = st.norm(sub(n, acc))
        if d == 0:
            return ("ok", r[:i], r[i:])
        if i == len(r):
            return None
        p = r[i]
        if isinstance(p, bytes):
            if isinstance(d, int) and 0 < d < len(p):
                return ("ok", r[:i] + (p[:d],), (p[d:],) + r[i + 1:])
            acc = add(acc, len(p))
        else:
            if isinstance(d, int) and d > 0:
                return ("in", i, d)
            acc = add(acc, var("len:" + p))
    return None


def cut_at(E, st, r, n):
    """[(st, pre, post) | (st, None, None) when n > len]"""
    r = st.rope(r)
    n = st.norm(n)
    f = find_len(st, r, n)
    if f is None:
        # n == total - k for constant k?
        k = st.norm(sub(st.length(r), n))
        if isinstance(k, int):
            if k < 0:
                return [(st, None, None)]
            out = []
            for s, big in st.split(r, L.len_cmp(">=", k)):
                if not big:
                    out.append((s, None, None))
                else:
                    out.extend(s.cut(r, L.ALL, L.len_cmp("==", k)))
            return out
        if isinstance(n, int) and n < 0:
            return [(st, None, None)]
        # n + k where n matches a prefix (idx + 1)
        raise Unsupported("string index not aligned: %r in %r" % (n, r))
    if f[0] == "ok":
        return [(st, f[1], f[2])]
    _, i, d = f
    pre, rest = r[:i], r[i:]
    out = []
    for s, big in st.split(rest, L.len_cmp(">=", d)):
        if not big:
            out.append((s, None, None))
        else:
            for s2, u, v in s.cut(rest, L.len_cmp("==", d), L.ALL):
                out.append((s2, pre + u, v))
    return out


CONTSTART = L.CONT + L.ALL


def boundary(st, post):
    """[(st, ok)]: does post start at a char boundary"""
    return [(s, not b) for s, b in st.split(post, CONTSTART)]


def str_slice(E, st, r, a, b):
    """s[a..b] -> [(st, kind, rope|msg)]"""
    out = []
    if a is None:
        starts = [(st, (), st.rope(r))]
    else:
        starts = []
        for s, u, v in cut_at(E, st, r, a):
            if u is None:
                out.append((s, "panic", "byte index out of range of str"))
                continue
            for s2, okk in boundary(s, v):
                if okk:
                    starts.append((s2, u, v))
                else:
                    out.append((s2, "panic", "byte index is not a char boundary"))
    for s, u, v in starts:
        if b is None:
            out.append((s, "ret", v))
            continue
        n = b if a is None else sub(b, a)
        # begin <= end
        for s1, bad in s.branch(cmp("<", n, 0)):
            if bad:
                out.append((s1, "panic", "slice index starts after end"))
                continue
            for s2, x, y in cut_at(E, s1, v, n):
                if x is None:
                    out.append((s2, "panic", "byte index out of range of str"))
                    continue
                for s3, okk in boundary(s2, y):
                    if okk:
                        out.append((s3, "ret", x))
                    else:
                        out.append((s3, "panic", "byte index is not a char boundary"))
    return out


# ------------------------------------------------------------ char classes
def pattern(E, st, p):
    """a Pattern argument -> ('lit', bytes) | ('cls', intervals) | ('rope', rope)"""
    p = E.expand(st, p)
    if isinstance(p, (int, Lin)) and not isinstance(p, bool):
        p = st.norm(p)
        if isinstance(p, int):
            return ("lit", chr(p).encode())
        raise Unsupported("symbolic char pattern")
    if isinstance(p, (SRef, StringV)):
        c = st.const_str(p.r)
        return ("lit", c) if c is not None else ("rope", st.rope(p.r))
    if isinstance(p, (Clo, FnV)):
        return ("cls", char_class(E, st, p))
    if isinstance(p, (Arr, SliceV)):
        xs = [st.norm(x) for x in E.seq(st, p)]
        if all(isinstance(x, int) for x in xs):
            return ("cls", tuple((x, x) for x in sorted(xs)))
    if isinstance(p, Ref):
        return pattern(E, st, E.deref(st, p))
    raise Unsupported("pattern %r" % (type(p).__name__,))


def char_class(E, st, f, want=True, hi=0x10FFFF, byref=False):
    """set of chars (bytes) for which predicate f is true, as intervals (f must be pure in the char)"""
    s = st.fork()
    c = s.new_int(0, hi, "ch")
    n = c.v[0][0]
    res = []
    covered = 0

    def leaf(s2, v):
        rs = s2.branch(v) if not isinstance(v, bool) else [(s2, v)]
        for s3, b in rs:
            x = s3.norm(c)
            if isinstance(x, int):
                iv = [(x, x)]
            elif isinstance(x, Lin) and x.v == ((n, 1),) and x.c == 0:
                lo, hi = s3.rng[n]
                iv = [(lo, hi)]
                for q in s3.pc:
                    if any(m == n for m, _ in q.l.v):
                        if q.op == "!=" and len(q.l.v) == 1 and abs(q.l.v[0][1]) == 1:
                            k = -q.l.c * q.l.v[0][1]
                            niv = []
                            for a, b_ in iv:
                                if a <= k <= b_:
                                    if a < k:
                                        niv.append((a, k - 1))
                                    if k < b_:
                                        niv.append((k + 1, b_))
                                else:
                                    niv.append((a, b_))
                            iv = niv
                        else:
                            raise Unsupported("char predicate not an interval set")
            else:
                raise Unsupported("char predicate")
            if s3.lang.keys() != s.lang.keys() or any(s3.lang[k] is not s.lang[k] for k in s.lang) or s3.bv != s.bv:
                raise Unsupported("char predicate depends on other state")
            if b == want:
                res.extend(iv)
    outs = E.call_value(s, f, [E.ref(s, c) if byref else c])
    for s2, k, v in outs:
        if k != "ret":
            raise Unsupported("char predicate panics: %s" % (v,) if k == "panic" else "char predicate: %s" % (v,))
        leaf(s2, v)
    res.sort()
    m = []
    for a, b in res:
        if m and a <= m[-1][1] + 1:
            m[-1] = (m[-1][0], max(b, m[-1][1]))
        else:
            m.append((a, b))
    return tuple(m)


def iv_neg(iv):
    out = []
    p = 0
    for a, b in iv:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= 0x10FFFF:
        out.append((p, 0x10FFFF))
    return tuple(out)


def ptn_lang(pt):
    if pt[0] == "lit":
        return L.lit(pt[1])
    if pt[0] == "cls":
        return L.charset(pt[1])
    raise Unsupported("symbolic pattern language")


# ------------------------------------------------------------------- str
@model("core::str::<impl str>::len", "std::string::String::len")
def m_len(E, st, a, fn):
    return ret(st, st.length(rope_of(E, st, a[0])))


@model("core::str::<impl str>::is_empty", "std::string::String::is_empty")
def m_is_empty(E, st, a, fn):
    return ret(st, InL(rope_of(E, st, a[0]), L.EPS, False))


@model("core::str::<impl str>::is_char_boundary")
def m_is_cb(E, st, a, fn):
    out = []
    r = rope_of(E, st, a[0])
    for s, u, v in cut_at(E, st, r, a[1]):
        if u is None:
            out.append((s, "ret", False))
        else:
            for s2, b in boundary(s, v):
                out.append((s2, "ret", b))
    return out


@rmodel(r"^<std::string::String as std::ops::Deref>::deref$", r"^std::string::String::as_str$", r"^core::str::<impl str>::as_ref$",
        r"^<(std::string::String|str) as std::(convert::AsRef<str>|borrow::Borrow<str>)>::", r"^std::string::String::as_mut_str$",
        r"^std::(str|string)::.*std::(convert::AsRef<str>|borrow::Borrow<str>) for ")
def m_deref_string(E, st, a, fn):
    return ret(st, SRef(rope_of(E, st, a[0])))


@model("std::str::<impl std::borrow::ToOwned for str>::to_owned", "<std::string::String as std::convert::From<&str>>::from",
       "core::str::<impl str>::to_string", "std::str::<impl str>::to_string", "std::str::<impl str>::to_owned", "<std::string::String as std::clone::Clone>::clone",
       "std::str::<impl str>::into_string", "std::string::String::from_str", "<std::string::String as std::str::FromStr>::from_str__raw")
def m_to_owned(E, st, a, fn):
    return ret(st, StringV(rope_of(E, st, a[0])))


@rmodel(r"^<std::string::String as std::convert::From<&.*str>>::from$", r"^<std::string::String as std::convert::From<(char)>>::from$",
        r"^<std::string::String as std::convert::From<std::(borrow::Cow|boxed::Box).*>>::from$", r"^std::borrow::Cow::<.*str.*>::into_owned$")
def m_string_from(E, st, a, fn):
    v = E.expand(st, a[0])
    if isinstance(v, (int, Lin)):
        return char_rope_call(E, st, v, lambda s, r: (s, "ret", StringV(r)))
    return ret(st, StringV(rope_of(E, st, v)))


@rmodel(r"^<std::string::String as std::str::FromStr>::from_str$")
def m_string_fromstr(E, st, a, fn):
    return ret(st, ok(StringV(rope_of(E, st, a[0]))))


@model("std::string::String::new")
def m_string_new(E, st, a, fn):
    return ret(st, StringV(()))


@model("std::string::String::with_capacity")
def m_string_cap(E, st, a, fn):
    return ret(st, StringV(()))


@rmodel(r"^core::str::<impl std::default::Default for &str>::default$")
def m_str_default(E, st, a, fn):
    return ret(st, SRef(()))


@rmodel(r"^<T as std::borrow::ToOwned>::to_owned$")
def m_clone_owned(E, st, a, fn):
    return [(s, "ret", v) for s, v in clone_val(E, st, a[0])]


@rmodel(r"^<std::string::String as std::default::Default>::default$")
def m_string_default(E, st, a, fn):
    return ret(st, StringV(()))


def push_rope(E, st, ref, r):
    s = st.fork()
    cur = rope_of(E, s, ref)
    E.set_ref(s, ref, StringV(s.rope(cur + tuple(r))))
    return s


@model("std::string::String::push_str")
def m_push_str(E, st, a, fn):
    return ret(push_rope(E, st, a[0], rope_of(E, st, a[1])), UNIT)


@model("std::string::String::push")
def m_push(E, st, a, fn):
    return char_rope_call(E, st, a[1], lambda s, r: (push_rope(E, s, a[0], r), "ret", UNIT))


@rmodel(r"^std::string::String::clear$")
def m_clear(E, st, a, fn):
    s = st.fork()
    E.set_ref(s, a[0], StringV(()))
    return ret(s, UNIT)


@rmodel(r"^<std::string::String as std::ops::(Add|AddAssign)<&.*str>>::")
def m_str_add(E, st, a, fn):
    if "add_assign" in fn["name"]:
        return ret(push_rope(E, st, a[0], rope_of(E, st, a[1])), UNIT)
    return ret(st, StringV(st.rope(tuple(rope_of(E, st, a[0])) + tuple(rope_of(E, st, a[1])))))


def char_rope_call(E, st, c, k):
    """k(st, rope of char c) for each case"""
    c = st.norm(c)
    if isinstance(c, int):
        return [k(st, (chr(c).encode("utf-8", "surrogatepass"),))]
    if isinstance(c, Lin) and c.c == 0 and len(c.v) == 1 and c.v[0][1] == 1 and c.v[0][0].startswith("chr:"):
        return [k(st, (c.v[0][0][4:],))]
    lo, hi = st.bounds(c)
    s = st.fork()
    at = s.new_atom(L.charset(((max(lo or 0, 0), min(hi if hi is not None else 0x10FFFF, 0x10FFFF)),)), "c")
    if not s.bind(c, var("chr:" + at)):
        return []
    return [k(s, (at,))]


def first_char(E, st, r):
    """[(st, None) | (st, (c, rest))]"""
    r = st.rope(r)
    if not r:
        return [(st, None)]
    if isinstance(r[0], bytes):
        b = r[0]
        n = 1 if b[0] < 0x80 else 2 if b[0] < 0xE0 else 3 if b[0] < 0xF0 else 4
        if len(b) >= n:
            return [(st, (ord(b[:n].decode("utf-8")), ((b[n:],) if len(b) > n else ()) + r[1:]))]
    elif (st.lang[r[0]] - L.UCHAR).empty():      # exactly one character, whatever follows
        return [(st, (var("chr:" + r[0]), r[1:]))]
    out = []
    for s, e in st.split(r, L.EPS):
        if e:
            out.append((s, None))
            continue
        for s2, u, v in s.cut(r, L.UCHAR, L.ALL):
            u = s2.rope(u)
            if len(u) == 1 and isinstance(u[0], bytes):
                out.append((s2, (ord(u[0].decode("utf-8")), v)))
            elif len(u) == 1:
                out.append((s2, (var("chr:" + u[0]), v)))
            else:
                raise Unsupported("char spanning rope pieces")
    return out


def last_char(E, st, r):
    r = st.rope(r)
    if not r:
        return [(st, None)]
    out = []
    for s, e in st.split(r, L.EPS):
        if e:
            out.append((s, None))
            continue
        for s2, u, v in s.cut(r, L.UTF8, L.UCHAR):
            v = s2.rope(v)
            if len(v) == 1 and isinstance(v[0], bytes):
                out.append((s2, (ord(v[0].decode("utf-8")), u)))
            elif len(v) == 1:
                out.append((s2, (var("chr:" + v[0]), u)))
            else:
                raise Unsupported("char spanning rope pieces")
    return out


@model("core::str::<impl str>::contains")
def m_contains(E, st, a, fn):
    r = rope_of(E, st, a[0])
    pt = pattern(E, st, a[1])
    if pt[0] == "rope":
        if st.rope(r) == pt[1]:
            return ret(st, True)
        raise Unsupported("contains symbolic")
    return ret(st, InL(r, L.ALL + ptn_lang(pt) + L.ALL, False))


def sw(E, st, r, pt, suffix):
    """[(st, rest|None)] for strip_prefix/suffix"""
    r = st.rope(r)
    if pt[0] == "rope":
        q = st.rope(pt[1])
        if not suffix and r[:len(q)] == q:
            return [(st, r[len(q):])]
        if suffix and r[len(r) - len(q):] == q:
            return [(st, r[:len(r) - len(q)])]
        # constants-only prefix relation
        if not suffix:
            return sw_sym(E, st, r, q)
        raise Unsupported("strip symbolic affix")
    lg = ptn_lang(pt)
    whole = (L.ALL + lg) if suffix else (lg + L.ALL)
    out = []
    for s, b in st.split(r, whole):
        if not b:
            out.append((s, None))
        elif suffix:
            for s2, u, v in s.cut(r, L.ALL, lg):
                out.append((s2, u))
        else:
            for s2, u, v in s.cut(r, lg, L.ALL):
                out.append((s2, v))
    return out


def sw_sym(E, st, r, q):
    """does r start with rope q (both symbolic)?  cut r by the length language of q's first atom"""
    if not q:
        return [(st, r)]
    if isinstance(q[0], bytes):
        out = []
        for s, rest in sw(E, st, r, ("lit", q[0]), False):
            if rest is None:
                out.append((s, None))
            else:
                out.extend(sw_sym(E, s, rest, s.rope(q[1:])))
        return out
    raise Unsupported("strip symbolic prefix")


@rmodel(r"^core::str::<impl str>::(starts_with|ends_with)$", )
def m_starts(E, st, a, fn):
    r = rope_of(E, st, a[0])
    pt = pattern(E, st, a[1])
    suffix = "ends_with" in fn["def"]
    if pt[0] == "rope":
        return [(s, "ret", x is not None) for s, x in sw(E, st, r, pt, suffix)]
    lg = ptn_lang(pt)
    return ret(st, InL(r, (L.ALL + lg) if suffix else (lg + L.ALL), False))


@rmodel(r"^core::str::<impl str>::(strip_prefix|strip_suffix)$")
def m_strip(E, st, a, fn):
    r = rope_of(E, st, a[0])
    pt = pattern(E, st, a[1])
    return [(s, "ret", NONE if x is None else some(SRef(x))) for s, x in sw(E, st, r, pt, "suffix" in fn["def"])]


def opt_or(v):
    return NONE if v is None else some(v)


@rmodel(r"^core::str::<impl str>::(find|rfind)$")
def m_find(E, st, a, fn):
    r = rope_of(E, st, a[0])
    pt = pattern(E, st, a[1])
    lg = ptn_lang(pt)
    C = L.ALL + lg + L.ALL
    out = []
    for s, b in st.split(r, C):
        if not b:
            out.append((s, "ret", NONE))
            continue
        for s2, u, v in first_match(s, r, lg, "rfind" in fn["def"]):
            out.append((s2, "ret", some(s2.length(u))))
    return out


def first_match(s, r, lg, last=False):
    """cuts r = u v with the first (last) match of lg starting v"""
    if last:
        tail = lg + L.ALL
        later = L.ANYB + L.ANYB.star() + lg + L.ALL
        return s.cut(r, L.ALL, tail - later)
    # u such that no match starts inside u: v starts with match and u.v has no earlier match
    fixed = lg.fixed_len()
    if fixed == 1:
        return s.cut(r, ~(L.ALL + lg + L.ALL), lg + L.ALL)
    # whole-language approach: words whose first match starts exactly at |u|
    un = ~(L.ALL + lg + L.ALL)
    # matches may straddle; for multi-byte chars / literals without self-overlap this is exact
    if overlap_free(lg):
        return s.cut(r, un, lg + L.ALL)
    raise Unsupported("find with overlapping pattern")


def overlap_free(lg):
    # no proper suffix of a match is a proper prefix of another match -> cut by un . lg is unique
    A = L.ANYB + L.ANYB.star()
    if lg.len_range() is None or lg.len_range()[1] is None:
        return False
    # proper suffixes language
    suf = L.EMPTY
    for q in range(1, len(lg.acc)):
        if q in lg.live():
            suf = suf | (lg.from_state(q) - L.EPS)
    pre = L.EMPTY
    for q in lg.live():
        if not lg.acc[q]:
            pre = pre | (lg.upto(0, q) - L.EPS)
    return (suf & pre).empty()


def split_byte(pt):
    if pt[0] == "lit" and len(pt[1]) == 1:
        return pt[1][0]
    return None


LazySplit = namedtuple("LazySplit", "rope sep")         # pieces of rope split at a byte
LazyMatch = namedtuple("LazyMatch", "rope sep idx")     # occurrences of a byte (idx: (pos, str))


@model("core::str::<impl str>::split")
def m_split(E, st, a, fn):
    pt = pattern(E, st, a[1])
    b = split_byte(pt)
    r = rope_of(E, st, a[0])
    if b is None:
        c = st.const_str(r)
        if c is not None and pt[0] == "lit" and pt[1]:
            return ret(st, it_list([SRef((x,) if x else ()) for x in c.split(pt[1])]))
        raise Unsupported("split on %r" % (pt[1],))
    if E.abstract_split and bytes([b]) in E.abstract_split and st.const_str(r) is None:
        from . import abstract
        return ret(st, Opq("iter", AbsIt(abstract.pieces(L.UTF8 & L.byteset(set(range(256)) - {b}).star(), "part", "split " + chr(b), st.rope(r)))))
    return ret(st, Opq("iter", LazySplit(st.rope(r), b)))


@rmodel(r"^core::str::<impl str>::(split_whitespace|split_ascii_whitespace|lines|rsplit|splitn|rsplitn|split_terminator|split_once|rsplit_once|char_indices|bytes|as_bytes)$")
def m_split_other(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    r = rope_of(E, st, a[0])
    if nm in ("split_once", "rsplit_once"):
        pt = pattern(E, st, a[1])
        lg = ptn_lang(pt)
        out = []
        for s, b in st.split(r, L.ALL + lg + L.ALL):
            if not b:
                out.append((s, "ret", NONE))
                continue
            for s2, u, v in first_match(s, r, lg, nm == "rsplit_once"):
                for s3, m, w in s2.cut(v, lg, L.ALL):
                    out.append((s3, "ret", some(Tup((SRef(u), SRef(w))))))
        return out
    c = st.const_str(r)
    if nm == "rsplit":
        pt = pattern(E, st, a[1])
        if pt[0] == "lit" and pt[1]:
            return ret(st, Opq("iter", RSplitIt(st.rope(r), ptn_lang(pt), False)))
    if c is None and nm in ("lines", "split_whitespace") and getattr(E, "invariants", None):
        from . import abstract
        return ret(st, Opq("iter", AbsIt(abstract.pieces(abstract.NOLF, "line", nm, r) if nm == "lines" else abstract.pieces(abstract.WORD, "word", nm, r))))
    if c is not None:
        t = c.decode("utf-8")
        if nm == "split_whitespace":
            return ret(st, it_list([SRef((x.encode(),)) for x in re.split("[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+", t) if x]))
        if nm == "lines":
            xs = t.split("\n")
            if xs and xs[-1] == "":
                xs = xs[:-1]
            xs = [x[:-1] if x.endswith("\r") else x for x in xs]
            return ret(st, it_list([SRef((x.encode(),) if x else ()) for x in xs]))
        if nm == "char_indices":
            res, o = [], 0
            for ch in t:
                res.append(Tup((o, ord(ch))))
                o += len(ch.encode())
            return ret(st, it_list(res))
        if nm == "bytes":
            return ret(st, it_list(list(c)))
    if nm == "as_bytes":
        return ret(st, Opq("bytes", st.rope(r)))
    if nm == "bytes":
        return ret(st, Opq("iter", BytesIt(st.rope(r), 0, False)))
    if nm == "char_indices":
        return ret(st, Opq("iter", CharsIt(st.rope(r), 0)))
    raise Unsupported(nm + " on symbolic string")


@rmodel(r"^core::str::<impl str>::(matches|match_indices)$")
def m_matches(E, st, a, fn):
    r = rope_of(E, st, a[0])
    pt = pattern(E, st, a[1])
    b = split_byte(pt)
    if b is None:
        raise Unsupported("matches on %r" % (pt,))
    return ret(st, Opq("iter", LazyMatch(st.rope(r), b, "indices" in fn["def"])))


CharsIt = namedtuple("CharsIt", "rope idx")      # chars; idx None, or byte position for char_indices
BytesIt = namedtuple("BytesIt", "rope pend ref")     # bytes of a string; pend: further bytes of the character begun
RSplitIt = namedtuple("RSplitIt", "rope lg done")
ListIt = namedtuple("ListIt", "xs")
MapIt = namedtuple("MapIt", "it f")
FilterIt = namedtuple("FilterIt", "it f")
FilterMapIt = namedtuple("FilterMapIt", "it f")
EnumIt = namedtuple("EnumIt", "it n")
ChainIt = namedtuple("ChainIt", "a b")
FlatIt = namedtuple("FlatIt", "it f cur")        # f None: flatten


def flat_it(it, f):
    from . import abstract
    return abstract.flat(it, f) or FlatIt(it, f, None)


TakeIt = namedtuple("TakeIt", "it n")
SkipIt = namedtuple("SkipIt", "it n")
PeekIt = namedtuple("PeekIt", "it peeked")
ZipIt = namedtuple("ZipIt", "a b")
ByMutRef = namedtuple("ByMutRef", "ref")
AbsIt = namedtuple("AbsIt", "src")


def it_list(xs):
    return Opq("iter", ListIt(tuple(xs)))


@model("core::str::<impl str>::chars")
def m_chars(E, st, a, fn):
    return ret(st, Opq("iter", CharsIt(st.rope(rope_of(E, st, a[0])), None)))


def notsep(b):
    return L.byteset(set(range(256)) - {b}).star()


def it_next(E, st, it):
    """[(st, item|None, newit)]; 'panic' outcomes via exception-free triple (st, ('panic', msg), None)"""
    if isinstance(it, ListIt):
        if not it.xs:
            return [(st, None, it)]
        return [(st, it.xs[0], ListIt(it.xs[1:]))]
    if isinstance(it, CharsIt):
        out = []
        for s, x in first_char(E, st, it.rope):
            if x is None:
                out.append((s, None, it))
            else:
                c, rest = x
                if it.idx is None:
                    out.append((s, c, CharsIt(rest, None)))
                else:
                    w = sub(s.length(it.rope), s.length(rest))
                    out.append((s, Tup((it.idx, c)), CharsIt(rest, add(it.idx, w))))
        return out
    if isinstance(it, BytesIt):
        item = lambda s, b, n: (s, E.ref(s, b) if it.ref else b, n)
        if it.pend:
            s = st.fork()
            return [item(s, s.new_int(0x80, 0xBF, "byte"), it._replace(pend=it.pend - 1))]
        out = []
        for s, x in first_char(E, st, it.rope):
            if x is None:
                out.append((s, None, it))
                continue
            c, rest = x
            for n, lo, up, b0, b1 in ((0, 0, 0x80, 0, 0), (1, 0x80, 0x800, 0xC2, 0xDF), (2, 0x800, 0x10000, 0xE0, 0xEF), (3, 0x10000, 0x110000, 0xF0, 0xF4)):
                for s2, z in s.branch(cmp("<", c, up)) if up < 0x110000 else [(s, True)]:
                    if z:
                        for s3, z3 in s2.branch(cmp(">=", c, lo)):
                            if z3:
                                s3 = s3.fork()
                                out.append(item(s3, c if n == 0 else s3.new_int(b0, b1, "byte"), it._replace(rope=rest, pend=n)))
        return out
    if isinstance(it, LazySplit):
        if it.rope is None:
            return [(st, None, it)]
        out = []
        for s, has in st.split(it.rope, L.contains(bytes([it.sep]))):
            if not has:
                out.append((s, SRef(s.rope(it.rope)), LazySplit(None, it.sep)))
            else:
                for s2, u, v in s.cut(it.rope, notsep(it.sep), L.byteset([it.sep]) + L.ALL):
                    for s3, m, w in s2.cut(v, L.byteset([it.sep]), L.ALL):
                        out.append((s3, SRef(u), LazySplit(w, it.sep)))
        return out
    if isinstance(it, LazyMatch):
        raise Unsupported("next on match iterator")
    if isinstance(it, MapIt):
        out = []
        for s, x, n in it_next(E, st, it.it):
            if x is None or is_panic(x):
                out.append((s, x, it._replace(it=n)))
                continue
            for s2, k, v in E.call_value(s, it.f, [x]):
                out.append((s2, v, it._replace(it=n)) if k == "ret" else (s2, Panic(v), None))
        return out
    if isinstance(it, FilterIt):
        out = []
        todo = [(st, it.it)]
        while todo:
            s0, i0 = todo.pop()
            for s, x, n in it_next(E, s0, i0):
                if x is None or is_panic(x):
                    out.append((s, x, it._replace(it=n)))
                    continue
                s = s.fork()
                for s2, k, v in E.call_value(s, it.f, [as_ref(E, s, x)]):
                    if k != "ret":
                        out.append((s2, Panic(v), None))
                        continue
                    for s3, b in s2.branch(v):
                        if b:
                            out.append((s3, x, it._replace(it=n)))
                        elif not forgets(n) and n is not i0:
                            todo.append((s3, n))
                        else:
                            E.dropped.append(s3)
        return out
    if isinstance(it, FilterMapIt):
        out = []
        todo = [(st, it.it)]
        while todo:
            s0, i0 = todo.pop()
            for s, x, n in it_next(E, s0, i0):
                if x is None or is_panic(x):
                    out.append((s, x, it._replace(it=n)))
                    continue
                for s2, k, v in E.call_value(s, it.f, [x]):
                    if k != "ret":
                        out.append((s2, Panic(v), None))
                        continue
                    for s3, o in E.variants(s2, v):
                        if o.f:
                            out.append((s3, o.f[0], it._replace(it=n)))
                        elif not forgets(n) and n is not i0:
                            todo.append((s3, n))
                        else:
                            E.dropped.append(s3)
        return out
    if isinstance(it, EnumIt):
        return [(s, x if x is None or is_panic(x) else Tup((it.n, x)), EnumIt(n, add(it.n, 1)) if x is not None else it) for s, x, n in it_next(E, st, it.it)]
    if isinstance(it, ChainIt):
        out = []
        for s, x, n in it_next(E, st, it.a):
            if x is None:
                out.extend(it_next(E, s, it.b))
            else:
                out.append((s, x, ChainIt(n, it.b)))
        return out
    if isinstance(it, FlatIt):
        out = []
        todo = [(st, it)]
        while todo:
            s0, i0 = todo.pop()
            if i0.cur is not None:
                for s, x, n in it_next(E, s0, i0.cur):
                    if x is None:
                        todo.append((s, i0._replace(cur=None)))
                    else:
                        out.append((s, x, i0._replace(cur=n)))
                continue
            for s, x, n in it_next(E, s0, i0.it):
                if x is None or is_panic(x):
                    out.append((s, x, i0._replace(it=n)))
                    continue
                if i0.f is None:
                    for s2, j in to_iter(E, s, x):
                        todo.append((s2, FlatIt(n, None, j)))
                else:
                    for s2, k, v in E.call_value(s, i0.f, [x]):
                        if k != "ret":
                            out.append((s2, Panic(v), None))
                            continue
                        for s3, j in to_iter(E, s2, v):
                            todo.append((s3, FlatIt(n, i0.f, j)))
        return out
    if isinstance(it, TakeIt):
        k = st.norm(it.n)
        if k == 0:
            return [(st, None, it)]
        return [(s, x, TakeIt(n, sub(k, 1))) for s, x, n in it_next(E, st, it.it)]
    if isinstance(it, SkipIt):
        k = st.norm(it.n)
        if k == 0:
            return [(s, x, SkipIt(n, 0)) for s, x, n in it_next(E, st, it.it)]
        if not isinstance(k, int):
            raise Unsupported("skip symbolic")
        cur = [(st, it.it)]
        out = []
        for _ in range(k):
            nx = []
            for s0, i0 in cur:
                for s, x, n in it_next(E, s0, i0):
                    if x is None:
                        out.append((s, None, SkipIt(n, 0)))
                    else:
                        nx.append((s, n))
            cur = nx
        for s0, i0 in cur:
            out.extend((s, x, SkipIt(n, 0)) for s, x, n in it_next(E, s0, i0))
        return out
    if isinstance(it, PeekIt):
        if it.peeked is not None:
            return [(st, it.peeked[0], PeekIt(it.it, None))]
        return [(s, x, PeekIt(n, None)) for s, x, n in it_next(E, st, it.it)]
    if isinstance(it, ZipIt):
        out = []
        for s, x, n in it_next(E, st, it.a):
            if x is None:
                out.append((s, None, it))
                continue
            for s2, y, m in it_next(E, s, it.b):
                out.append((s2, None if y is None else Tup((x, y)), ZipIt(n, m)))
        return out
    if isinstance(it, ByMutRef):
        o = E.deref(st, it.ref)
        out = []
        for s, x, n in it_next(E, st, o.d):
            s = s.fork()
            E.set_ref(s, it.ref, Opq("iter", n))
            out.append((s, x, it))
        return out
    h = NEXT.get(type(it))
    if h:
        return h(E, st, it)
    raise Unsupported("next on %s" % type(it).__name__)


NEXT = {}


def basis(it):
    while isinstance(it, (MapIt, FilterIt, FilterMapIt)):
        it = it.it
    return it


def forgets(it):
    """abstract iterators: skipping an element leaves the state as it was"""
    while isinstance(it, (MapIt, FilterIt, FilterMapIt)):
        it = it.it
    return isinstance(it, AbsIt)


class Panic:
    def __init__(self, m):
        self.m = m


def is_panic(x):
    return isinstance(x, Panic)


def as_ref(E, st, x):
    """a reference to item x (for &T closures)"""
    if isinstance(x, Panic):
        return x
    return E.ref(st, x)


def to_iter(E, st, v):
    """IntoIterator for a value: [(st, it)]"""
    v = E.expand(st, v)
    if isinstance(v, Opq) and v.kind == "iter":
        return [(st, v.d)]
    if isinstance(v, Opq) and v.kind == "bytes":
        return [(st, BytesIt(st.rope(v.d), 0, True))]
    if isinstance(v, (VecV, Arr)):
        return [(st, ListIt(tuple(v.xs)))]
    if isinstance(v, SliceV):
        return [(st, ListIt(slice_refs(E, st, v)))]
    if isinstance(v, Adt) and (v.ty is None or E.T(v.ty).get("def") == "std::option::Option"):
        return [(st, ListIt(v.f))]
    if isinstance(v, Adt) and E.T(v.ty).get("def") == "std::result::Result":
        return [(st, ListIt(v.f if v.var == 0 else ()))]
    if isinstance(v, Sym):
        out = []
        for s, a in E.variants(st, v):
            out.extend(to_iter(E, s, a))
        return out
    if isinstance(v, Ref):
        t = E.load(st, ("c", v.cell, v.path))
        if isinstance(t, Opq) and t.kind == "iter":
            return [(st, ByMutRef(v))]
        if isinstance(t, (VecV, Arr)):
            return [(st, ListIt(tuple(Ref(v.cell, v.path + (("i", i),)) for i in range(len(t.xs)))))]
        if isinstance(t, Adt) and (t.ty is None or E.T(t.ty).get("def") == "std::option::Option"):
            return [(st, ListIt(tuple(Ref(v.cell, v.path + (("f", i),)) for i in range(len(t.f)))))]
        if isinstance(t, Opq) and t.kind in ITERREF:
            return ITERREF[t.kind](E, st, v, t)
        return to_iter(E, st, t)
    if isinstance(v, BoxV):
        return to_iter(E, st, Ref(v.cell, ()))
    if isinstance(v, Opq) and v.kind in INTOITER:
        return INTOITER[v.kind](E, st, v)
    if isinstance(v, Adt) and E.T(v.ty).get("def") in ("std::ops::Range", "std::ops::RangeInclusive"):
        a, b = st.norm(v.f[0]), st.norm(v.f[1])
        if isinstance(a, int) and isinstance(b, int) and b - a < 10000:
            return [(st, ListIt(tuple(range(a, b + (1 if "Incl" in E.T(v.ty)["def"] else 0)))))]
    raise Unsupported("iterate over %r" % (v if isinstance(v, Opq) else type(v).__name__,))


ITERREF = {}
INTOITER = {}


def slice_refs(E, st, v):
    if v.src is not None:
        n = len(E.seq(st, v))
        return tuple(Ref(v.src.cell, v.src.path + (("i", i),)) for i in range(n))
    return tuple(E.ref(st, x) for x in v.xs)


@rmodel(r"^<I as std::iter::IntoIterator>::into_iter$", r"^<.* as std::iter::IntoIterator>::into_iter$",
        r"^(core::slice::<impl \[T\]>|std::collections::.*)::iter$", r"^std::option::Option::<T>::iter$", r"^std::vec::Vec::.*::drain$")
def m_into_iter(E, st, a, fn):
    if fn["def"].endswith("drain"):
        v = E.deref(st, a[0])
        s = st.fork()
        E.set_ref(s, a[0], VecV(()))
        return ret(s, it_list(v.xs))
    st = st.fork()
    if fn["def"].startswith("core::slice") or "IntoIterator for &" in fn["def"]:
        v = E.expand(st, a[0])
        if isinstance(v, Opq) and v.kind in ("abslist", "lcat"):
            return [(s, "ret", Opq("iter", it)) for s, it in ITERREF[v.kind](E, st, None, v)]
        if isinstance(v, Opq) and v.kind != "iter" and v.kind not in INTOITER:
            return ret(st, Opq("iter", ByLazy(v)))
    return [(s, "ret", Opq("iter", it)) for s, it in to_iter(E, st, a[0])]


@rmodel(r"^core::slice::<impl \[T\]>::iter_mut$")
def m_iter_mut(E, st, a, fn):
    return [(s, "ret", Opq("iter", it)) for s, it in to_iter(E, st.fork(), a[0])]


ByLazy = namedtuple("ByLazy", "v")


def iter_of(E, st, v):
    v = E.expand(st, v)
    if isinstance(v, Opq) and v.kind == "iter":
        return v.d
    if isinstance(v, Ref):
        o = E.deref(st, v)
        if isinstance(o, Opq) and o.kind == "iter":
            return ByMutRef(v)
    r = to_iter(E, st, v)
    if len(r) == 1:
        return r[0][1]
    raise Unsupported("iterator expected: %r" % (v,))


@rmodel(r"^<.* as std::iter::Iterator>::next$", r"^<.* as std::iter::DoubleEndedIterator>::next_back$")
def m_next(E, st, a, fn):
    if "next_back" in fn["def"]:
        o = E.deref(st, a[0])
        it = o.d
        if isinstance(it, CharsIt) and it.idx is None:
            out = []
            for s, x in last_char(E, st, it.rope):
                s = s.fork()
                E.set_ref(s, a[0], Opq("iter", CharsIt((), None) if x is None else CharsIt(x[1], None)))
                out.append((s, "ret", NONE if x is None else some(x[0])))
            return out
        if isinstance(it, ListIt):
            s = st.fork()
            E.set_ref(s, a[0], Opq("iter", ListIt(it.xs[:-1])))
            return ret(s, some(it.xs[-1]) if it.xs else NONE)
        raise Unsupported("next_back")
    o = E.deref(st, a[0])
    if isinstance(o, Opq) and o.kind == "iter" and 0 in PICK and st.ghost.get("logpicks") and forgets(o.d):
        return PICK[0](E, st, o.d, "next")
    if isinstance(o, Adt) and E.T(o.ty).get("def") == "std::ops::Range":
        out = []
        for s, b in st.branch(cmp("<", o.f[0], o.f[1])):
            if b:
                s = s.fork()
                E.set_ref(s, a[0], o._replace(f=(add(o.f[0], 1), o.f[1])))
                out.append((s, "ret", some(o.f[0])))
            else:
                out.append((s, "ret", NONE))
        return out
    if not (isinstance(o, Opq) and o.kind == "iter"):
        if isinstance(o, Adt):
            return NotImplemented
        raise Unsupported("next on %r" % (o,))
    out = []
    for s, x, n in it_next(E, st.fork(), o.d):
        if is_panic(x):
            out.append((s, "panic", x.m))
            continue
        s = s.fork()
        if n is not None:
            E.set_ref(s, a[0], Opq("iter", n))
        out.append((s, "ret", opt_or(x)))
    return out


def wrap_it(f):
    def m(E, st, a, fn):
        st = st.fork()
        return ret(st, Opq("iter", f(iter_of(E, st, a[0]), *a[1:])))
    return m


for nm, f in {
    "map": lambda it, g: MapIt(it, g),
    "filter": lambda it, g: FilterIt(it, g),
    "filter_map": lambda it, g: FilterMapIt(it, g),
    "enumerate": lambda it: PICK[2](it) if forgets(it) and 2 in PICK else EnumIt(it, 0),
    "flat_map": lambda it, g: flat_it(it, g),
    "flatten": lambda it: flat_it(it, None),
    "take": lambda it, n: TakeIt(it, n),
    "skip": lambda it, n: SkipIt(it, n),
    "peekable": lambda it: PeekIt(it, None),
    "by_ref": None,
    "cloned": lambda it: ("cloned", it),
    "copied": lambda it: ("cloned", it),
}.items():
    if f is not None and nm not in ("cloned", "copied"):
        RMODELS.append((re.compile(r"^(std::iter::Iterator|<.* as std::iter::Iterator>)::" + nm + "$"), wrap_it(f)))

def n_rsplit(E, st, it):
    if it.done:
        return [(st, None, it)]
    out = []
    for s, b in st.split(it.rope, L.ALL + it.lg + L.ALL):
        if not b:
            out.append((s, SRef(s.rope(it.rope)), RSplitIt((), it.lg, True)))
            continue
        for s2, u, v in first_match(s, it.rope, it.lg, True):
            for s3, m, w in s2.cut(v, it.lg, L.ALL):
                out.append((s3, SRef(w), RSplitIt(u, it.lg, False)))
    return out


NEXT[RSplitIt] = n_rsplit


ClonedIt = namedtuple("ClonedIt", "it")


def n_cloned(E, st, it):
    out = []
    for s, x, n in it_next(E, st, it.it):
        if x is None or is_panic(x):
            out.append((s, x, ClonedIt(n)))
        else:
            for s2, v in clone_val(E, s, x):
                out.append((s2, v, ClonedIt(n)))
    return out


NEXT[ClonedIt] = n_cloned
RMODELS.append((re.compile(r"^std::iter::Iterator::(cloned|copied)$"), wrap_it(lambda it: ClonedIt(it))))


@rmodel(r"^std::iter::Iterator::by_ref$")
def m_by_ref(E, st, a, fn):
    return ret(st, a[0])


@rmodel(r"^std::iter::Iterator::(chain|zip)$")
def m_chain(E, st, a, fn):
    st = st.fork()
    x = iter_of(E, st, a[0])
    out = []
    for s, y in to_iter(E, st, a[1]):
        out.append((s, "ret", Opq("iter", ChainIt(x, y) if "chain" in fn["def"] else ZipIt(x, y))))
    return out


@rmodel(r"^std::iter::Iterator::rev$")
def m_rev(E, st, a, fn):
    it = iter_of(E, st, a[0])
    if isinstance(it, ListIt):
        return ret(st, it_list(tuple(reversed(it.xs))))
    raise Unsupported("rev")


@rmodel(r"^std::iter::Peekable::<I>::peek$")
def m_peek(E, st, a, fn):
    o = E.deref(st, a[0])
    it = o.d
    if it.peeked is not None:
        x = it.peeked[0]
        st = st.fork()
        return ret(st, NONE if x is None else some(as_ref(E, st, x)))
    out = []
    for s, x, n in it_next(E, st, it.it):
        s = s.fork()
        E.set_ref(s, a[0], Opq("iter", PeekIt(n, (x,))))
        out.append((s, "ret", NONE if x is None else some(as_ref(E, s, x))))
    return out


def drain(E, st, it, limit=400):
    """exhaust an iterator: [(st, [items])] (+ panics as (st, Panic))"""
    if isinstance(it, ListIt):
        return [(st, list(it.xs))]
    out = []
    todo = [(st, it, [])]
    while todo:
        s0, i0, xs = todo.pop()
        if len(xs) > limit:
            raise Unsupported("iterator bound")
        for s, x, n in it_next(E, s0, i0):
            if x is None:
                out.append((s, xs))
            elif is_panic(x):
                out.append((s, x))
            else:
                todo.append((s, n, xs + [x]))
    return out


@rmodel(r"^(std::iter::Iterator|<.* as std::iter::Iterator>)::count$")
def m_count(E, st, a, fn):
    it = iter_of(E, st, a[0])
    if isinstance(it, LazyMatch):
        return ret(st, st.count(it.rope, it.sep))
    if isinstance(it, LazySplit):
        return ret(st, add(st.count(it.rope, it.sep), 1))
    if forgets(it) and 0 in PICK:
        out = []
        for s, k, v in PICK[0](E, st, it, "count"):
            out.append((s, k, v if k != "ret" else 0 if v == NONE else s.new_int(1, 1 << 40, "count")))
        return out
    out = []
    for s, xs in drain(E, st, it):
        out.append((s, "panic", xs.m) if is_panic(xs) else (s, "ret", len(xs)))
    return out


@rmodel(r"^(std::iter::Iterator|<.* as std::iter::Iterator>)::(all|any)$")
def m_all(E, st, a, fn):
    isall = fn["def"].endswith("all")
    it = iter_of(E, st, a[0])
    if isinstance(it, ByMutRef):
        o = E.deref(st, it.ref)
        it = o.d
    if isinstance(it, CharsIt) and it.idx is None:
        try:
            iv = char_class(E, st, a[1])
            if isall:
                return ret(st, InL(st.rope(it.rope), L.charset(iv).star(), False))
            return ret(st, InL(st.rope(it.rope), L.ALL + L.charset(iv) + L.ALL, False))
        except Unsupported:
            if st.const_str(it.rope) is None:
                raise
    if isinstance(it, BytesIt) and not it.pend and st.const_str(it.rope) is None:
        lg = L.byteset({b for u, v in char_class(E, st, a[1], hi=255, byref=it.ref) for b in range(u, v + 1)})
        return ret(st, InL(st.rope(it.rope), lg.star() if isall else L.ALL + lg + L.ALL, False))
    if forgets(it) and 1 in PICK:
        return PICK[1](E, st, it, a[1], isall)
    if isinstance(it, ByLazy):
        out = []
        for s, v in resolve_lazy(E, st, it.v):
            out.extend(m_all(E, s, [it_list(E.ref(s, x) for x in v.xs), a[1]], fn))
        return out
    out = []
    todo = [(st.fork(), it)]
    while todo:
        s0, i0 = todo.pop()
        for s, x, n in it_next(E, s0, i0):
            if x is None:
                out.append((s, "ret", isall))
                continue
            if is_panic(x):
                out.append((s, "panic", x.m))
                continue
            for s2, k, v in E.call_value(s, a[1], [x]):
                if k != "ret":
                    out.append((s2, k, v))
                    continue
                for s3, b in s2.branch(v):
                    if b == isall:
                        todo.append((s3, n))
                    else:
                        out.append((s3, "ret", not isall))
    return out


@rmodel(r"^(std::iter::Iterator|<.* as std::iter::Iterator>)::(find|find_map|position|for_each|fold|last|nth|max|min|sum|max_by_key|try_for_each)$")
def m_iter_misc(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    it = iter_of(E, st, a[0])
    if isinstance(it, ByMutRef) and nm in ("find", "find_map") and forgets(E.deref(st, it.ref).d):
        it = E.deref(st, it.ref).d
    if nm in ("find", "find_map", "last") and forgets(it) and 0 in PICK:
        return PICK[0](E, st, FilterIt(it, a[1]) if nm == "find" else FilterMapIt(it, a[1]) if nm == "find_map" else it, "last" if nm == "last" else "first")
    if nm in ("find", "find_map", "position"):
        out = []
        todo = [(st.fork(), it, 0)]
        while todo:
            s0, i0, idx = todo.pop()
            for s, x, n in it_next(E, s0, i0):
                if x is None:
                    out.append((s, "ret", NONE))
                    continue
                if is_panic(x):
                    out.append((s, "panic", x.m))
                    continue
                s = s.fork()
                arg = as_ref(E, s, x) if nm == "find" else x
                for s2, k, v in E.call_value(s, a[1], [arg]):
                    if k != "ret":
                        out.append((s2, k, v))
                    elif nm == "find_map":
                        for s3, o in E.variants(s2, v):
                            if o.f:
                                out.append((s3, "ret", o))
                            else:
                                todo.append((s3, n, idx + 1))
                    else:
                        for s3, b in s2.branch(v):
                            if b:
                                out.append((s3, "ret", some(x if nm == "find" else idx)))
                            else:
                                todo.append((s3, n, idx + 1))
        return out
    if nm in ("for_each", "fold") and forgets(it):
        from . import abstract
        return abstract.fold(E, st, it, a[1] if nm == "fold" else UNIT, a[2] if nm == "fold" else a[1], nm)
    if nm == "for_each" and 3 in PICK and type(basis(it)).__name__ == "LcatIt":
        return PICK[3](E, st, it, a[1])
    if nm in ("for_each", "fold"):
        out = []
        todo = [(st.fork(), it, a[1] if nm == "fold" else UNIT)]
        f = a[2] if nm == "fold" else a[1]
        if isinstance(f, Clo):
            f = E.ref(st, f) if False else f
        while todo:
            s0, i0, acc = todo.pop()
            for s, x, n in it_next(E, s0, i0):
                if x is None:
                    out.append((s, "ret", acc))
                    continue
                if is_panic(x):
                    out.append((s, "panic", x.m))
                    continue
                for s2, k, v in E.call_value(s, f, [acc, x] if nm == "fold" else [x]):
                    if k != "ret":
                        out.append((s2, k, v))
                    else:
                        todo.append((s2, n, v if nm == "fold" else UNIT))
        return out
    if nm in ("last", "nth"):
        if isinstance(it, LazyMatch) and nm == "nth":
            return [(s, "ret", some(x)) if x is not None else (s, "ret", NONE) for s, x in lazy_index(E, st, it, st.norm(a[1]))]
        if isinstance(it, LazySplit) and nm == "last" and it.rope is not None:
            out = []
            for s, has in st.split(it.rope, L.contains(bytes([it.sep]))):
                if not has:
                    out.append((s, "ret", some(SRef(s.rope(it.rope)))))
                else:
                    for s2, u, v in s.cut(it.rope, L.ALL + L.byteset([it.sep]), notsep(it.sep)):
                        out.append((s2, "ret", some(SRef(v))))
            return out
        if isinstance(it, CharsIt) and nm == "last":
            return [(s, "ret", NONE if x is None else some(x[0])) for s, x in last_char(E, st, it.rope)]
        if nm == "nth":
            n = st.norm(a[1])
            cur = [(st, it)]
            out = []
            for i in range(n + 1):
                nx = []
                for s0, i0 in cur:
                    for s, x, m in it_next(E, s0, i0):
                        if is_panic(x):
                            out.append((s, "panic", x.m))
                        elif x is None:
                            out.append((s, "ret", NONE))
                        elif i == n:
                            out.append((s, "ret", some(x)))
                        else:
                            nx.append((s, m))
                cur = nx
            return out
        out = []
        for s, xs in drain(E, st, it):
            out.append((s, "panic", xs.m) if is_panic(xs) else (s, "ret", some(xs[-1]) if xs else NONE))
        return out
    raise Unsupported("iterator " + nm)


@rmodel(r"^(std::iter::Iterator|<.* as std::iter::Iterator>)::collect$", r"^<std::vec::Vec<T.*> as std::iter::FromIterator<T>>::from_iter$")
def m_collect(E, st, a, fn):
    it = iter_of(E, st, a[0])
    tgt = fn["name"].split("::collect::<", 1)[1] if "::collect::<" in fn["name"] else "std::vec::Vec<"
    if tgt.startswith("std::vec::Vec<"):
        if isinstance(it, (LazySplit, LazyMatch)):
            return ret(st, Opq("lazyvec", it))
        if forgets(it):
            from . import abstract
            return abstract.collect(E, st, it, tgt)
        h = COLLECT.get(type(it)) or COLLECT.get(type(basis(it)))
        if h:
            return h(E, st, it, tgt)
        out = []
        for s, xs in drain(E, st, it):
            out.append((s, "panic", xs.m) if is_panic(xs) else (s, "ret", VecV(tuple(xs))))
        return out
    if tgt.startswith("std::string::String"):
        if forgets(it):
            from . import abstract
            out = []
            for s, k, v in abstract.collect(E, st, it, tgt):
                out += [(s, k, v)] if k != "ret" else abstract.join(E, s, v, ())
            return out
        return collect_string(E, st, it)
    if tgt.startswith("std::result::Result<std::vec::Vec<") or tgt.startswith("std::option::Option<std::vec::Vec<"):
        out = []
        isres = "Result" in tgt.split("<")[0]
        if forgets(it):
            from . import abstract
            return abstract.collect_result(E, st, it, isres)
        todo = [(st, it, [])]
        while todo:
            s0, i0, xs = todo.pop()
            for s, x, n in it_next(E, s0, i0):
                if x is None:
                    out.append((s, "ret", ok(VecV(tuple(xs))) if isres else some(VecV(tuple(xs)))))
                elif is_panic(x):
                    out.append((s, "panic", x.m))
                else:
                    for s2, o in E.variants(s, x):
                        good = (o.var == 0) if isres else (o.var == 1)
                        if good:
                            todo.append((s2, n, xs + [o.f[0]]))
                        else:
                            out.append((s2, "ret", err(o.f[0]) if isres else NONE))
        return out
    for pre, mk_ in (("std::collections::HashSet<", "set"), ("std::collections::BTreeSet<", "set"), ("std::collections::HashMap<", "map"), ("std::collections::BTreeMap<", "map")):
        if tgt.startswith(pre):
            out = []
            for s, xs in drain(E, st, it):
                if is_panic(xs):
                    out.append((s, "panic", xs.m))
                else:
                    out.extend(collect_map(E, s, xs, mk_, "BTree" in pre))
            return out
    raise Unsupported("collect into " + tgt[:60])


COLLECT = {}


def collect_map(E, s, xs, kind, sorted_):
    raise Unsupported("collect into map")


def collect_string(E, st, it):
    out = []
    for s, xs in drain(E, st, it):
        if is_panic(xs):
            out.append((s, "panic", xs.m))
            continue
        cur = [(s, ())]
        for x in xs:
            nx = []
            for s1, r in cur:
                if isinstance(x, (int, Lin)):
                    nx.extend(char_rope_call(E, s1, x, lambda s2, q, r=r: (s2, r + q)))
                else:
                    nx.append((s1, r + tuple(rope_of(E, s1, x))))
            cur = nx
        out.extend((s1, "ret", StringV(s1.rope(r))) for s1, r in cur)
    return out


def lazy_len(st, it):
    c = st.count(it.rope, it.sep)
    return add(c, 1) if isinstance(it, LazySplit) else c


def lazy_index(E, st, it, k):
    """k-th element of a lazily split string: [(st, value | None)]"""
    out = []
    need = k if isinstance(it, LazySplit) else k + 1
    for s, has in st.split(it.rope, L.count_cmp(it.sep, ">=", need)):
        if not has:
            out.append((s, None))
            continue
        sepl = L.byteset([it.sep])
        if isinstance(it, LazyMatch):
            for s2, u, v in s.cut(it.rope, L.count_cmp(it.sep, "==", k), sepl + L.ALL):
                m = SRef((bytes([it.sep]),))
                out.append((s2, Tup((s2.length(u), m)) if it.idx else m))
        else:
            cur = [(s, it.rope)]
            for _ in range(k):
                nx = []
                for s1, r in cur:
                    for s2, u, v in s1.cut(r, notsep(it.sep), sepl + L.ALL):
                        for s3, m, w in s2.cut(v, sepl, L.ALL):
                            nx.append((s3, w))
                cur = nx
            for s1, r in cur:
                for s2, has2 in s1.split(r, L.contains(bytes([it.sep]))):
                    if has2:
                        for s3, u, v in s2.cut(r, notsep(it.sep), sepl + L.ALL):
                            out.append((s3, SRef(u)))
                    else:
                        out.append((s2, SRef(s2.rope(r))))
    return out


def resolve_lazy(E, st, v):
    """materialise a lazy vector whose length is determined: [(st, VecV)]"""
    it = v.d
    n = st.norm(lazy_len(st, it))
    if not isinstance(n, int):
        raise Unsupported("vector of unknown length")
    cur = [(st, [])]
    for i in range(n):
        nx = []
        for s, xs in cur:
            for s2, x in lazy_index(E, s, it, i):
                if x is not None:
                    nx.append((s2, xs + [x]))
        cur = nx
    return [(s, VecV(tuple(xs))) for s, xs in cur]


def mat(E, st, r):
    """if r refers to a lazy vector make it concrete in place: [(st)]"""
    v = E.deref(st, r)
    if isinstance(v, Opq) and v.kind == "lazyvec":
        out = []
        for s, vv in resolve_lazy(E, st, v):
            s = s.fork()
            E.set_ref(s, r, vv)
            out.append(s)
        return out
    return [st]


# ------------------------------------------------------------ Vec / slices
@rmodel(r"^std::vec::Vec::<T, A>::len$", r"^core::slice::<impl \[T\]>::len$")
def m_vec_len(E, st, a, fn):
    v = E.expand(st, a[0])
    if isinstance(v, Ref):
        v = E.deref(st, v)
    if isinstance(v, Opq) and v.kind == "lazyvec":
        return ret(st, lazy_len(st, v.d))
    if isinstance(v, Opq) and v.kind == "bytes":
        return ret(st, st.length(v.d))
    if isinstance(v, Opq) and v.kind in LEN:
        return ret(st, LEN[v.kind](E, st, v))
    return ret(st, len(E.seq(st, v)))


LEN = {}


@rmodel(r"^std::vec::Vec::<T, A>::is_empty$", r"^core::slice::<impl \[T\]>::is_empty$")
def m_vec_empty(E, st, a, fn):
    r = m_vec_len(E, st, a, fn)
    return [(s, k, cmp("==", v, 0) if k == "ret" else v) for s, k, v in r]


@rmodel(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<T, A>::as_(mut_)?slice$",
        r"^<std::vec::Vec<T, A> as std::(convert::AsRef<\[T\]>|borrow::Borrow<\[T\]>)>::")
def m_vec_deref(E, st, a, fn):
    v = E.expand(st, a[0])
    t = E.deref(st, v)
    if isinstance(t, Opq):
        if t.kind == "lazyvec":
            try:
                out = []
                for s in mat(E, st, v):
                    out.append((s, "ret", SliceV(E.deref(s, v).xs, v)))
                return out
            except Unsupported:
                return ret(st, t)
        if isinstance(v, Ref) and t.kind in ("abslist", "lcat") and "mut" in fn["def"].split("::")[-1]:
            return ret(st, v)
        return ret(st, t)
    return ret(st, SliceV(t.xs, v if isinstance(v, Ref) else Ref(v.cell, ())))


def idx_range(E, st, v):
    """range value -> (a|None, b|None)"""
    d = E.T(v.ty)["def"].split("::")[-1]
    if d == "RangeFull":
        return None, None
    if d == "RangeFrom":
        return v.f[0], None
    if d == "RangeTo":
        return None, v.f[0]
    if d == "Range":
        return v.f[0], v.f[1]
    if d == "RangeInclusive":
        return v.f[0], add(v.f[1], 1)
    if d == "RangeToInclusive":
        return None, add(v.f[0], 1)
    raise Unsupported("range " + d)


@rmodel(r"^core::str::traits::<impl std::ops::Index<.*> for str>::index$", r"^<std::string::String as std::ops::Index<.*>>::index$",
        r"^std::string::.*<impl std::ops::Index<.*> for std::string::String>::index$")
def m_str_index(E, st, a, fn):
    r = rope_of(E, st, a[0])
    lo, hi = idx_range(E, st, a[1])
    return [(s, k, SRef(v) if k == "ret" else v) for s, k, v in str_slice(E, st, r, lo, hi)]


@rmodel(r"^core::str::<impl str>::get$")
def m_str_get(E, st, a, fn):
    r = rope_of(E, st, a[0])
    lo, hi = idx_range(E, st, a[1])
    return [(s, "ret", some(SRef(v)) if k == "ret" else NONE) for s, k, v in str_slice(E, st, r, lo, hi)]


@rmodel(r"^core::str::<impl str>::split_at$")
def m_split_at(E, st, a, fn):
    r = rope_of(E, st, a[0])
    out = []
    for s, u, v in cut_at(E, st, r, a[1]):
        if u is None:
            out.append((s, "panic", "failed to slice string"))
            continue
        for s2, b in boundary(s, v):
            out.append((s2, "ret", Tup((SRef(u), SRef(v)))) if b else (s2, "panic", "failed to slice string"))
    return out


@rmodel(r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
        r"^core::array::<impl std::ops::Index<I> for \[T; N\]>::index$")
def m_vec_index(E, st, a, fn):
    v = E.expand(st, a[0])
    i = E.expand(st, a[1])
    t = E.deref(st, v) if isinstance(v, (Ref, BoxV)) else v
    if isinstance(i, (int, Lin)):
        i = st.norm(i)
        if isinstance(t, Opq) and t.kind == "lazyvec":
            if not isinstance(i, int):
                raise Unsupported("symbolic index")
            out = []
            for s, x in lazy_index(E, st, t.d, i):
                if x is None:
                    out.append((s, "panic", "index out of bounds"))
                else:
                    s = s.fork()
                    out.append((s, "ret", E.ref(s, x)))
            return out
        n = len(E.seq(st, t))
        cases = [(st, i)] if isinstance(i, int) else []
        out = []
        if not cases:
            rest = [st]
            for j in range(n):
                nx = []
                for s in rest:
                    for s2, b in s.branch(cmp("==", i, j)):
                        (cases.append((s2, j)) if b else nx.append(s2))
                rest = nx
            out.extend((s, "panic", "index out of bounds") for s in rest)
        for s, j in cases:
            if j >= n or j < 0:
                out.append((s, "panic", "index out of bounds"))
                continue
            if isinstance(v, Ref):
                out.append((s, "ret", Ref(v.cell, v.path + (("i", j),))))
            elif isinstance(v, BoxV):
                out.append((s, "ret", Ref(v.cell, (("i", j),))))
            elif isinstance(v, SliceV) and v.src is not None:
                out.append((s, "ret", Ref(v.src.cell, v.src.path + (("i", j),))))
            else:
                s = s.fork()
                out.append((s, "ret", E.ref(s, E.seq(s, t)[j])))
        return out
    lo, hi = idx_range(E, st, i)
    xs = E.seq(st, t)
    lo = 0 if lo is None else st.norm(lo)
    hi = len(xs) if hi is None else st.norm(hi)
    if not isinstance(lo, int) or not isinstance(hi, int):
        raise Unsupported("symbolic slice range")
    if lo > hi or hi > len(xs):
        return panic(st, "slice index out of range")
    return ret(st, SliceV(tuple(xs[lo:hi]), None))


@rmodel(r"^core::slice::<impl \[T\]>::(get|first|last|get_mut|last_mut|first_mut|split_first|split_last)$")
def m_slice_get(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    v = E.expand(st, a[0])
    t = v
    if isinstance(t, Opq) and t.kind == "lazyvec":
        n = st.norm(lazy_len(st, t.d))
        if nm in ("get", "first"):
            i = 0 if nm == "first" else st.norm(a[1])
            out = []
            for s, x in lazy_index(E, st, t.d, i):
                s = s.fork()
                out.append((s, "ret", NONE if x is None else some(E.ref(s, x))))
            return out
        if not isinstance(n, int):
            raise Unsupported("last of unknown-length vector")
        out = []
        for s, x in lazy_index(E, st, t.d, n - 1):
            s = s.fork()
            out.append((s, "ret", NONE if x is None else some(E.ref(s, x))))
        return out
    if isinstance(t, Opq) and t.kind == "lcat" and nm in ("first", "last") and t.d[0 if nm == "first" else -1][0] == "one":
        st = st.fork()
        return ret(st, some(E.ref(st, t.d[0 if nm == "first" else -1][1])))
    xs = E.seq(st, t)
    n = len(xs)
    if nm.startswith("split"):
        if not n:
            return ret(st, NONE)
        st = st.fork()
        h = xs[0] if "first" in nm else xs[-1]
        r = xs[1:] if "first" in nm else xs[:-1]
        return ret(st, some(Tup((E.ref(st, h), SliceV(tuple(r), None)))))
    if nm.startswith("get"):
        i = E.expand(st, a[1])
        if isinstance(i, Adt):
            lo, hi = idx_range(E, st, i)
            lo = 0 if lo is None else st.norm(lo)
            hi = n if hi is None else st.norm(hi)
            return ret(st, some(SliceV(tuple(xs[lo:hi]), None)) if lo <= hi <= n else NONE)
        i = st.norm(i)
    else:
        i = 0 if nm.startswith("first") else n - 1
    if not isinstance(i, int):
        raise Unsupported("symbolic index")
    if i < 0 or i >= n:
        return ret(st, NONE)
    if isinstance(v, SliceV) and v.src is not None:
        return ret(st, some(Ref(v.src.cell, v.src.path + (("i", i),))))
    if isinstance(v, Ref):
        return ret(st, some(Ref(v.cell, v.path + (("i", i),))))
    st = st.fork()
    return ret(st, some(E.ref(st, xs[i])))


@rmodel(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^<std::vec::Vec<T> as std::default::Default>::default$")
def m_vec_new(E, st, a, fn):
    return ret(st, VecV(()))


@rmodel(r"^std::vec::Vec::<T, A>::(push|pop|append|clear|truncate|insert|remove|reserve|extend_from_slice|reverse|dedup|retain)$",
        r"^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$")
def m_vec_mut(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    st = st.fork()
    v = E.deref(st, a[0])
    if nm == "extend":
        w = E.expand(st, a[1])
        lists = [x for x in (v, w) if isinstance(x, Opq) and ("append", x.kind) in VECMUT]
        if lists and all(isinstance(x, VecV) or x in lists for x in (v, w)):      # extended by a whole list: like append
            nm, a = "append", [a[0], E.ref(st, w)]
    if isinstance(v, Opq) and (nm, v.kind) in VECMUT:
        return VECMUT[(nm, v.kind)](E, st, a, v)
    if not isinstance(v, VecV):
        raise Unsupported("vec %s on %r" % (nm, v if isinstance(v, Opq) else type(v).__name__))
    if nm == "push":
        E.set_ref(st, a[0], VecV(v.xs + (a[1],)))
        return ret(st, UNIT)
    if nm == "pop":
        E.set_ref(st, a[0], VecV(v.xs[:-1]))
        return ret(st, some(v.xs[-1]) if v.xs else NONE)
    if nm == "append":
        w = E.deref(st, a[1])
        if isinstance(w, Opq):
            h = VECMUT.get(("append_from", w.kind))
            if h:
                return h(E, st, a, v, w)
        E.set_ref(st, a[0], VecV(v.xs + w.xs))
        E.set_ref(st, a[1], VecV(()))
        return ret(st, UNIT)
    if nm == "clear":
        E.set_ref(st, a[0], VecV(()))
        return ret(st, UNIT)
    if nm == "reserve":
        return ret(st, UNIT)
    if nm == "reverse":
        E.set_ref(st, a[0], VecV(tuple(reversed(v.xs))))
        return ret(st, UNIT)
    if nm == "truncate":
        E.set_ref(st, a[0], VecV(v.xs[:st.norm(a[1])]))
        return ret(st, UNIT)
    if nm == "insert":
        i = st.norm(a[1])
        if i > len(v.xs):
            return panic(st, "insertion index out of bounds")
        E.set_ref(st, a[0], VecV(v.xs[:i] + (a[2],) + v.xs[i:]))
        return ret(st, UNIT)
    if nm == "remove":
        i = st.norm(a[1])
        if i >= len(v.xs):
            return panic(st, "removal index out of bounds")
        E.set_ref(st, a[0], VecV(v.xs[:i] + v.xs[i + 1:]))
        return ret(st, v.xs[i])
    if nm in ("extend", "extend_from_slice"):
        out = []
        for s, it in to_iter(E, st, a[1]):
            if not isinstance(it, ListIt):
                h = COLLECT.get(type(it))
                if h:
                    for s2, k, w in h(E, s, it, "std::vec::Vec<"):
                        out.extend(VECMUT[("extend", "cat")](E, s2, a, v, w))
                    continue
            for s1, xs in drain(E, s, it):
                if is_panic(xs):
                    out.append((s1, "panic", xs.m))
                    continue
                cur = [(s1, [])]
                if nm == "extend_from_slice" or "&'a T" in fn["def"] or "Extend<&" in fn["def"]:
                    for x in xs:
                        cur = [(s3, ys + [y]) for s2, ys in cur for s3, y in clone_val(E, s2, x)]
                else:
                    cur = [(s1, xs)]
                for s2, ys in cur:
                    s2 = s2.fork()
                    E.set_ref(s2, a[0], VecV(v.xs + tuple(ys)))
                    out.append((s2, "ret", UNIT))
        return out
    if nm == "retain":
        cur = [(st, [])]
        out = []
        for x in v.xs:
            nx = []
            for s, ys in cur:
                s = s.fork()
                for s2, k, b in E.call_value(s, a[1], [E.ref(s, x)]):
                    if k != "ret":
                        out.append((s2, k, b))
                        continue
                    for s3, bb in s2.branch(b):
                        nx.append((s3, ys + [x] if bb else ys))
            cur = nx
        for s, ys in cur:
            s = s.fork()
            E.set_ref(s, a[0], VecV(tuple(ys)))
            out.append((s, "ret", UNIT))
        return out
    raise Unsupported("vec " + nm)


VECMUT = {}


@rmodel(r"^std::slice::<impl \[T\]>::(to_vec|into_vec|to_owned)$", r"^std::slice::<impl std::borrow::ToOwned for \[T\]>::to_owned$", r"^std::slice::.*into_vec.*$")
def m_to_vec(E, st, a, fn):
    v = E.expand(st, a[0])
    if isinstance(v, Opq):
        return ret(st, v)
    if isinstance(v, BoxV):
        return ret(st, VecV(tuple(E.seq(st, E.deref(st, v)))))
    cur = [(st, [])]
    for x in E.seq(st, v):
        cur = [(s2, ys + [y]) for s, ys in cur for s2, y in clone_val(E, s, x)]
    return [(s, "ret", VecV(tuple(ys))) for s, ys in cur]


def clone_val(E, st, x, depth=0):
    """structural clone of the value x (or of the target of reference x at depth 0)"""
    if isinstance(x, Ref) and depth == 0:
        x = E.deref(st, x)
    x = E.expand(st, x)
    if isinstance(x, BoxV):
        if x.kind == "rc":
            return [(st, x)]
        out = []
        for s, v in clone_val(E, st, st.cells[x.cell], 1):
            s = s.fork()
            out.append((s, BoxV(s.new_cell(v), x.kind)))
        return out
    if isinstance(x, CellV):
        s = st.fork()
        return [(s, CellV(s.new_cell(s.cells[x.cell])))]
    if isinstance(x, (Adt, Tup)):
        cur = [(st, [])]
        for f in x.f:
            cur = [(s2, ys + [y]) for s, ys in cur for s2, y in clone_val(E, s, f, 1)]
        return [(s, x._replace(f=tuple(ys))) for s, ys in cur]
    if isinstance(x, (VecV, Arr)):
        cur = [(st, [])]
        for f in x.xs:
            cur = [(s2, ys + [y]) for s, ys in cur for s2, y in clone_val(E, s, f, 1)]
        return [(s, x._replace(xs=tuple(ys))) for s, ys in cur]
    return [(st, x)]


@rmodel(r"^<std::vec::Vec<.*> as std::clone::Clone>::clone$", r"^<std::(boxed::Box|rc::Rc|collections::.*|string::String|sync::Arc).* as std::clone::Clone>::clone$",
        r"^<std::iter::.* as std::clone::Clone>::clone$", r"^<std::str::.* as std::clone::Clone>::clone$", r"^<std::slice::.* as std::clone::Clone>::clone$")
def m_clone(E, st, a, fn):
    return [(s, "ret", v) for s, v in clone_val(E, st, a[0])]


@rmodel(r"^(core|std)::slice::<impl \[T\]>::(join|concat)$", r"^std::slice::<impl \[.*\]>::(join|concat)$")
def m_join(E, st, a, fn):
    sep = rope_of(E, st, a[1]) if len(a) > 1 else ()
    v = E.expand(st, a[0])
    if isinstance(v, Opq) and v.kind in JOIN:
        return JOIN[v.kind](E, st, v, sep)
    r = ()
    for i, x in enumerate(E.seq(st, v)):
        if i:
            r += tuple(sep)
        r += tuple(rope_of(E, st, x))
    return ret(st, StringV(st.rope(r)))


JOIN = {}


# ------------------------------------------------------------ char methods
def char_cls(iv):
    def m(E, st, a, fn):
        c = a[0]
        if isinstance(c, Ref):
            c = E.deref(st, c)
        if len(iv) > 12:
            if isinstance(c, int):
                return ret(st, any(lo <= c <= hi for lo, hi in iv))
            n = st.norm(c)
            if isinstance(n, Lin) and n.c == 0 and len(n.v) == 1 and n.v[0][1] == 1 and n.v[0][0].startswith("chr:"):
                return ret(st, InL((n.v[0][0][4:],), L.charset(iv), False))
            out = []
            rest = [st]
            for lo, hi in iv:
                nx = []
                for s in rest:
                    for s2, below in s.branch(cmp("<", c, lo)):
                        if below:
                            out.append((s2, "ret", False))
                            continue
                        for s3, inn in s2.branch(cmp("<=", c, hi)):
                            if inn:
                                out.append((s3, "ret", True))
                            else:
                                nx.append(s3)
                rest = nx
            return out + [(s, "ret", False) for s in rest]
        return ret(st, disj([conj([cmp("<=", lo, c), cmp("<=", c, hi)]) for lo, hi in iv]))
    return m


ALNUM = ((48, 57), (65, 90), (97, 122))
for nm, iv in {
    "is_ascii_digit": ((48, 57),), "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_alphanumeric": ALNUM,
    "is_ascii_uppercase": ((65, 90),), "is_ascii_lowercase": ((97, 122),), "is_ascii": ((0, 127),),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)), "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_whitespace": ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)),
    "is_control": ((0, 31), (127, 159)),
}.items():
    MODELS["std::char::methods::<impl char>::" + nm] = char_cls(iv)


def _unicode():
    import json
    import os
    # tables computed by the real standard library (see DESIGN.md)
    for nm, iv in json.load(open(os.path.join(os.path.dirname(__file__), "unicode.json"))).items():
        MODELS["std::char::methods::<impl char>::" + nm] = char_cls(tuple((a, b) for a, b in iv))


_unicode()


@model("std::char::methods::<impl char>::to_digit")
def m_to_digit(E, st, a, fn):
    c = a[0]
    rad = st.norm(a[1])
    if rad != 10:
        raise Unsupported("to_digit radix")
    out = []
    for s, b in st.branch(conj([cmp("<=", 48, c), cmp("<=", c, 57)])):
        out.append((s, "ret", some(s.norm(sub(c, 48))) if b else NONE))
    return out


@rmodel(r"^std::char::methods::<impl char>::is_digit$")
def m_is_digit(E, st, a, fn):
    if st.norm(a[1]) != 10:
        raise Unsupported("is_digit radix")
    c = a[0]
    return ret(st, conj([cmp("<=", 48, c), cmp("<=", c, 57)]))


@rmodel(r"^std::char::methods::<impl char>::len_utf8$")
def m_len_utf8(E, st, a, fn):
    return [(s, "ret", n) for lo, hi, n in ((0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, 0x10FFFF, 4))
            for s in st.assume(conj([cmp("<=", lo, a[0]), cmp("<=", a[0], hi)]))]


@rmodel(r"^core::num::<impl (u8|i32|u32|i64|u64|usize|isize)>::(is_ascii_digit)$")
def m_u8_digit(E, st, a, fn):
    c = E.deref(st, a[0]) if isinstance(a[0], Ref) else a[0]
    return ret(st, conj([cmp("<=", 48, c), cmp("<=", c, 57)]))


# ------------------------------------------------------------ integers
def euclid(E, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if isinstance(a, int) and isinstance(b, int):
        q, r = divmod(a, abs(b))
        return [(st, q if b > 0 else -q, r)]
    if not isinstance(b, int) or b <= 0:
        raise Unsupported("euclid by symbolic")
    lo, hi = st.bounds(a)
    # syntactic division
    if isinstance(a, Lin) and all(k % b == 0 for _, k in a.v):
        q = mk(a.c // b, {n: k // b for n, k in a.v})
        return [(st, q, a.c % b)]
    if isinstance(a, Lin):
        # a = b*q + r with 0 <= r < b already visible
        qv = {n: k // b for n, k in a.v if k % b == 0}
        rv = {n: k for n, k in a.v if k % b != 0}
        for cq in (a.c // b, 0):
            r = mk(a.c - cq * b, rv)
            l, h = st.bounds(r)
            if l is not None and h is not None and l >= 0 and h < b:
                return [(st, mk(cq, qv), r)]
    s = st.fork()
    q = s.new_int(None if lo is None else lo // b, None if hi is None else hi // b, "q")
    r = s.new_int(0, b - 1, "r")
    if not s.add_pc(cmp("==", a, add(scale(q, b), r))):
        return []
    return [(s, q, r)]


@rmodel(r"^core::num::<impl [iu](8|16|32|64|128|size)>::(div_euclid|rem_euclid)$")
def m_euclid(E, st, a, fn):
    return [(s, "ret", q if "div" in fn["def"] else r) for s, q, r in euclid(E, st, a[0], a[1])]


def num_ty(E, fn):
    m = re.search(r"<impl ([iu](?:8|16|32|64|128|size))>", fn["def"])
    t = m.group(1)
    bits = 64 if t.endswith("size") else int(t[1:])
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if t[0] == "i" else (0, (1 << bits) - 1)


@rmodel(r"^core::num::<impl [iu](8|16|32|64|128|size)>::(checked|overflowing|wrapping|saturating)_(add|sub|mul|neg|pow)$",
        r"^core::num::<impl [iu](8|16|32|64|128|size)>::(abs|unsigned_abs|pow|signum|abs_diff)$")
def m_checked(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    lo, hi = num_ty(E, fn)
    a = [st.norm(x) for x in a]
    if nm in ("abs", "unsigned_abs"):
        out = []
        for s, b in st.branch(cmp("<", a[0], 0)):
            if not b:
                out.append((s, "ret", a[0]))
                continue
            for s2, m in s.branch(cmp("==", a[0], lo)):
                if m and nm == "abs":
                    out.append((s2, "panic", "attempt to negate with overflow"))
                else:
                    out.append((s2, "ret", scale(s2.norm(a[0]), -1)))
        return out
    if nm == "signum":
        return [(s2, "ret", 0 if z else 1 if p_ else -1) for s, z in st.branch(cmp("==", a[0], 0)) for s2, p_ in ([(s, False)] if z else s.branch(cmp("<", 0, a[0])))]
    if nm == "abs_diff":
        return [(s, "ret", sub(a[1], a[0]) if b else sub(a[0], a[1])) for s, b in st.branch(cmp("<", a[0], a[1]))]
    op = nm.split("_")[-1]
    if op == "pow":
        if not (isinstance(a[0], int) and isinstance(a[1], int)):
            raise Unsupported("symbolic pow")
        v = a[0] ** a[1]
    elif op == "neg":
        v = scale(a[0], -1)
    elif op == "add":
        v = add(a[0], a[1])
    elif op == "sub":
        v = sub(a[0], a[1])
    elif op == "mul":
        if isinstance(a[0], int):
            v = scale(a[1], a[0])
        elif isinstance(a[1], int):
            v = scale(a[0], a[1])
        else:
            raise Unsupported("nonlinear")
    else:
        raise Unsupported(nm)
    mode = nm.split("_")[0]
    out = []
    for s, b in st.branch(conj([cmp("<=", lo, v), cmp("<=", v, hi)])):
        if mode == "checked":
            out.append((s, "ret", some(v) if b else NONE))
        elif mode == "pow":
            out.append((s, "ret", v) if b else (s, "panic", "attempt to multiply with overflow"))
        elif b:
            out.append((s, "ret", Tup((v, False)) if mode == "overflowing" else v))
        elif mode == "saturating":
            for s2, low in s.branch(cmp("<", v, lo)):
                out.append((s2, "ret", lo if low else hi))
        else:
            for s2, w in E.wrap(s, v, lo, hi):
                out.append((s2, "ret", Tup((w, True)) if mode == "overflowing" else w))
    return out


@rmodel(r"^(std|core)::intrinsics::integer_(max|min)$")
def m_int_max(E, st, a, fn):
    x, y = st.norm(a[0]), st.norm(a[1])
    mx = fn["def"].endswith("max")
    return [(s, "ret", y if b is mx else x) for s, b in st.branch(cmp("<", x, y))]


@rmodel(r"^core::num::<impl std::str::FromStr for ([iu](8|16|32|64|128|size))>::from_str$", r"^core::num::<impl [iu](8|16|32|64|128|size)>::from_str_radix$")
def m_int_parse(E, st, a, fn):
    m = re.search(r"([iu](?:8|16|32|64|128|size))>::from_str", fn["def"])
    t = m.group(1)
    if "radix" in fn["def"] and st.norm(a[1]) != 10:
        raise Unsupported("radix")
    bits = 64 if t.endswith("size") else int(t[1:])
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if t[0] == "i" else (0, (1 << bits) - 1)
    r = rope_of(E, st, a[0])
    D = L.DIG + L.DIG.star()
    pos = L.opt(L.lit("+")) + (D & L.dec_cmp("<=", hi))
    good = pos
    if lo < 0:
        ng = L.lit("-") + (D & L.dec_cmp("<=", -lo))
        good = pos | ng
    out = []
    for s, g in st.split(r, good):
        if not g:
            out.append((s, "ret", err(Opq("ParseIntError", ()))))
            continue
        for pre, sg in ((b"-", -1), (b"+", 1), (b"", 1)):
            lg = L.lit(pre)
            body = D
            cases = s.cut(r, lg, body) if pre else [(x, (), s.rope(r)) for x, y in s.split(r, D) if y]
            for s2, u, v in cases:
                out.append((s2, "ret", ok(scale(dec_of(s2, v), sg))))
    return out


def dec_of(st, r):
    try:
        return st.dec(r)
    except Unsupported:
        lg = st.rope_lang(r)
        raise


# ------------------------------------------------------------ equality
@rmodel(r"^core::str::traits::<impl std::cmp::(PartialEq|Eq).*for str>::(eq|ne)$", r"^<(std::string::String|str|&.*str) as std::cmp::PartialEq<.*>>::(eq|ne)$",
        r"^<std::string::String as std::cmp::PartialEq>::(eq|ne)$", r"^std::string::.*<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
        r"^std::(string|str)::<impl std::cmp::PartialEq.*>::(eq|ne)$", r"^<&str as std::cmp::PartialEq>::(eq|ne)$",
        r"^<str as std::cmp::PartialEq>::(eq|ne)$", r"^std::borrow::.*PartialEq.*::(eq|ne)$")
def m_str_eq(E, st, a, fn):
    x, y = rope_of(E, st, a[0]), rope_of(E, st, a[1])
    b = eq_ropes(st, x, y)
    return ret(st, neg(b) if fn["def"].endswith("::ne") else b)


def eq_ropes(st, x, y):
    x, y = st.rope(x), st.rope(y)
    if x == y:
        return True
    cx, cy = st.const_str(x), st.const_str(y)
    if cx is not None and cy is not None:
        return cx == cy
    if cy is not None:
        return InL(x, L.lit(cy), False)
    if cx is not None:
        return InL(y, L.lit(cx), False)
    return SEq(x, y, False)


def values_eq(E, st, x, y, d=0):
    """structural equality: [(st, bool)]"""
    if d > 30:
        raise Unsupported("deep equality")
    x, y = E.expand(st, x), E.expand(st, y)
    if isinstance(x, (Ref, BoxV)):
        x = E.deref(st, x)
    if isinstance(y, (Ref, BoxV)):
        y = E.deref(st, y)
    if isinstance(x, Sym) or isinstance(y, Sym):
        if isinstance(x, Sym) and isinstance(y, Sym) and x.id == y.id:
            return [(st, True)]
        for h in LAZYEQ:
            r = h(E, st, x, y)
            if r is not None:
                return r
        out = []
        for s, a in E.variants(st, x):
            for s2, b in E.variants(s, y):
                out.extend(values_eq(E, s2, a, b, d + 1))
        return out
    if isinstance(x, (SRef, StringV)) and isinstance(y, (SRef, StringV)):
        return st.branch(eq_ropes(st, x.r, y.r))
    if isb(x) and isb(y):
        out = []
        for s, b in st.branch(x):
            for s2, c in s.branch(y):
                out.append((s2, b == c))
        return out
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        return st.branch(cmp("==", x, y))
    if isinstance(x, Adt) and isinstance(y, Adt):
        if x.var != y.var:
            return [(st, False)]
        return seq_eq(E, st, x.f, y.f, d)
    if isinstance(x, Tup) and isinstance(y, Tup):
        return seq_eq(E, st, x.f, y.f, d)
    if isinstance(x, (VecV, Arr, SliceV)) and isinstance(y, (VecV, Arr, SliceV)):
        a, b = E.seq(st, x), E.seq(st, y)
        if len(a) != len(b):
            return [(st, False)]
        return seq_eq(E, st, a, b, d)
    if isinstance(x, Opq) and isinstance(y, Opq):
        if x.kind == "f64" and y.kind == "f64":
            from .engine import fop
            r = fop("Eq", x, y)
            if isinstance(r, bool):
                return [(st, r)]
        elif x == y:
            return [(st, True)]
        if (x.kind, "eq") in OPQEQ:
            return OPQEQ[(x.kind, "eq")](E, st, x, y)
    raise Unsupported("equality of %r and %r" % (x if isinstance(x, Opq) else type(x).__name__, y if isinstance(y, Opq) else type(y).__name__))


OPQEQ = {}
LAZY = {}           # variants of lazily known enum values, by the first component of their id
LAZYEQ = []
PICK = {}           # find/last/next, all/any, enumerate on abstract sequences


def seq_eq(E, st, a, b, d):
    cur = [st]
    out = []
    for x, y in zip(a, b):
        nx = []
        for s in cur:
            for s2, r in values_eq(E, s, x, y, d + 1):
                (nx if r else out).append(s2)
        cur = nx
    return [(s, False) for s in out] + [(s, True) for s in cur]


@rmodel(r"^<std::vec::Vec<.*> as std::cmp::PartialEq<.*>>::(eq|ne)$", r"^core::slice::cmp::<impl std::cmp::PartialEq<.*> for \[.*\]>::(eq|ne)$",
        r"^std::vec::partial_eq::.*::(eq|ne)$", r"^core::array::equality::.*::(eq|ne)$", r"^<std::boxed::Box<T, A> as std::cmp::PartialEq>::(eq|ne)$",
        r"^core::tuple::.*PartialEq.*::(eq|ne)$")
def m_vec_eq(E, st, a, fn):
    ng = fn["def"].endswith("::ne")
    return [(s, "ret", b != ng) for s, b in values_eq(E, st, a[0], a[1])]


@rmodel(r"^core::slice::<impl \[T\]>::contains$")
def m_slice_contains(E, st, a, fn):
    v = E.expand(st, a[0])
    y = a[1]
    if isinstance(v, Opq) and v.kind in CONTAINS:
        return CONTAINS[v.kind](E, st, v, y)
    out = []
    cur = [st]
    xs = E.seq(st, v)
    # constant string set: one language test
    try:
        cs = [st.const_str(rope_of(E, st, x)) for x in xs]
        if all(c is not None for c in cs):
            return ret(st, InL(rope_of(E, st, y), L.union(L.lit(c) for c in cs), False))
    except Unsupported:
        pass
    for x in xs:
        nx = []
        for s in cur:
            for s2, b in values_eq(E, s, x, y):
                if b:
                    out.append((s2, "ret", True))
                else:
                    nx.append(s2)
        cur = nx
    return out + [(s, "ret", False) for s in cur]


CONTAINS = {}


# ------------------------------------------------------------ panics
@rmodel(r"^std::option::(unwrap_failed|expect_failed)$", r"^std::result::unwrap_failed", r"^core::panicking::", r"^std::rt::(begin_panic|panic_fmt)", r"^std::panicking::",
        r"^std::rt::panic_display$", r"^core::panicking::panic_display$", r"^core::str::slice_error_fail$", r"^core::slice::index::slice_.*_fail$", r"^std::process::abort$",
        r"^core::option::(unwrap_failed|expect_failed)$", r"^std::cell::panic_already")
def m_panic(E, st, a, fn):
    msg = fn["def"].split("::")[-1]
    try:
        if a:
            x = E.expand(st, a[0])
            if isinstance(x, SRef):
                c = st.const_str(x.r)
                if c:
                    msg += ": " + c.decode("utf-8", "replace")
            elif isinstance(x, Opq) and x.kind == "args":
                msg += ": " + "".join(p.decode("utf-8", "replace") if isinstance(p, bytes) else "{}" for p in x.d[0])
    except Exception:
        pass
    return panic(st, msg)


# ------------------------------------------------------------ formatting
def decode_template(b):
    """pieces of core::fmt::Arguments (this toolchain's encoding): list of bytes | (arg, flags, width, prec)"""
    out = []
    i = 0
    arg = 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(b[i:i + c])
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(b[i:i + n])
            i += n
        elif c >= 0xC0:
            fl, w, p = 0x20, None, None
            fl = None
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if c & 2:
                w = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 4:
                p = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 8:
                arg = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if c & 0x30:
                raise Unsupported("format: runtime width/precision")
            out.append((arg, fl, w, p))
            arg += 1
        else:
            raise Unsupported("format template byte %02x" % c)
    return out


@rmodel(r"^std::fmt::Arguments::<'a>::new$", r"^core::fmt::rt::<impl std::fmt::Arguments<'_>>::new.*$")
def m_args_new(E, st, a, fn):
    t = E.deref(st, a[0])
    bs = bytes(st.norm(x) for x in E.seq(st, t))
    args = E.deref(st, a[1]) if len(a) > 1 else Arr(())
    return ret(st, Opq("args", (tuple(decode_template(bs)), tuple(E.seq(st, args)))))


@rmodel(r"^std::fmt::Arguments::<'a>::(from_str|new_const|from_str_nonconst)$")
def m_args_str(E, st, a, fn):
    v = E.expand(st, a[0])
    if isinstance(v, SRef):
        c = st.const_str(v.r)
        return ret(st, Opq("args", ((c,), ())))
    raise Unsupported("Arguments::" + fn["def"])


@rmodel(r"^core::fmt::rt::Argument::<'_>::new_(display|debug|lower_exp|upper_exp|lower_hex|upper_hex|pointer|octal|binary)$")
def m_argument(E, st, a, fn):
    return ret(st, Opq("farg", (a[0], fn["fmtfn"], fn["def"].split("new_")[-1])))


FmtSpec = namedtuple("FmtSpec", "fill zero plus alt align width prec debug")
NOSPEC = FmtSpec(" ", False, False, False, None, None, None, False)


def spec_of(fl, w, p):
    if fl is None:
        return NOSPEC._replace(width=w, prec=p)
    fill = chr(fl & 0x1FFFFF)
    plus = bool(fl >> 21 & 1)
    alt = bool(fl >> 23 & 1)
    zero = bool(fl >> 24 & 1)
    al = fl >> 29 & 3
    align = {0: "<", 1: ">", 2: "^", 3: None}[al]
    return FmtSpec(fill, zero, plus, alt, align, w, p, False)


def run_args(E, st, argsv, sink, spec0=None):
    """format Arguments through a formatter writing to sink: [(st, kind, ok?)]"""
    pieces, args = argsv.d
    cur = [st]
    out = []
    for p in pieces:
        nx = []
        for s in cur:
            if isinstance(p, bytes):
                r = sink_write(E, s, sink, (p,))
            else:
                ai, fl, w, pr = p
                r = fmt_arg(E, s, args[ai], spec_of(fl, w, pr), sink)
            for s2, k, v in r:
                if k != "ret":
                    out.append((s2, k, v))
                elif v is True:
                    nx.append(s2)
                else:
                    out.append((s2, "ret", False))
        cur = nx
    return out + [(s, "ret", True) for s in cur]


def sink_write(E, st, sink, rope):
    """write to a sink (Ref to StringV cell or user Write object): (st, 'ret', ok)"""
    if isinstance(sink, Ref):
        return [(push_rope(E, st, sink, rope), "ret", True)]
    raise Unsupported("fmt sink")


def fmt_result(v):
    return ok(UNIT) if v else err(UNIT)


def fmt_arg(E, st, farg, spec, sink):
    if not (isinstance(farg, Opq) and farg.kind == "farg"):
        raise Unsupported("format argument %r" % (farg,))
    ref, fk, how = farg.d
    if how not in ("display", "debug"):
        raise Unsupported("format with " + how)
    fn = E.p.fns.get(fk)
    if fn is None:
        raise Unsupported("format function missing")
    s = st.fork()
    f = E.ref(s, Opq("formatter", (sink, spec._replace(debug=(how == "debug")))))
    out = []
    for s2, k, v in E.dispatch(fk, fn, [ref, f], s):
        if k != "ret":
            out.append((s2, k, v))
            continue
        for s3, a in E.variants(s2, v):
            out.append((s3, "ret", a.var == 0))
    return out


def formatter_of(E, st, v):
    o = E.deref(st, v)
    for _ in range(3):
        if isinstance(o, (Ref,)):
            o = E.deref(st, o)
    if isinstance(o, Opq) and o.kind == "formatter":
        return o.d
    raise Unsupported("formatter %r" % (o,))


@rmodel(r"^std::fmt::Formatter::<'a>::write_fmt$", r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt$")
def m_f_write_fmt(E, st, a, fn):
    sink, _ = formatter_of(E, st, a[0])
    return [(s, k, fmt_result(v) if k == "ret" else v) for s, k, v in run_args(E, st, a[1], sink)]


@rmodel(r"^std::fmt::Formatter::<'a>::write_str$", r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_str$")
def m_f_write_str(E, st, a, fn):
    sink, _ = formatter_of(E, st, a[0])
    return [(s, k, fmt_result(v)) for s, k, v in sink_write(E, st, sink, rope_of(E, st, a[1]))]


@rmodel(r"^<std::fmt::Formatter<'_> as std::fmt::Write>::write_char$", r"^std::fmt::Formatter::<'a>::write_char$")
def m_f_write_char(E, st, a, fn):
    sink, _ = formatter_of(E, st, a[0])
    return char_rope_call(E, st, a[1], lambda s, r: (sink_write(E, s, sink, r)[0][0], "ret", ok(UNIT)))


@rmodel(r"^std::fmt::Write::write_fmt$", r"^<std::string::String as std::fmt::Write>::write_fmt$")
def m_w_write_fmt(E, st, a, fn):
    sink = a[0]
    o = E.deref(st, sink)
    if isinstance(o, Ref):
        sink = o
        o = E.deref(st, sink)
    if isinstance(o, Opq) and o.kind == "formatter":
        sink = o.d[0]
    elif not isinstance(o, StringV):
        raise Unsupported("write_fmt sink %r" % (o,))
    return [(s, k, fmt_result(v) if k == "ret" else v) for s, k, v in run_args(E, st, a[1], sink)]


@rmodel(r"^<std::string::String as std::fmt::Write>::write_(str|char)$")
def m_w_write_str(E, st, a, fn):
    if fn["def"].endswith("char"):
        return char_rope_call(E, st, a[1], lambda s, r: (push_rope(E, s, a[0], r), "ret", ok(UNIT)))
    return ret(push_rope(E, st, a[0], rope_of(E, st, a[1])), ok(UNIT))


@model("std::fmt::format")
def m_format(E, st, a, fn):
    s = st.fork()
    sink = E.ref(s, StringV(()))
    out = []
    for s2, k, v in run_args(E, s, a[0], sink):
        if k != "ret":
            out.append((s2, k, v))
        elif v:
            out.append((s2, "ret", E.deref(s2, sink)))
        else:
            out.append((s2, "panic", "a formatting trait implementation returned an error"))
    return out


@rmodel(r"^<T as std::string::ToString>::to_string$")
def m_to_string(E, st, a, fn):
    if fn["fmtfn"] is None:
        n = fn["name"]
        if n.startswith("<str as") or n.startswith("<std::string::String as"):
            return ret(st, StringV(rope_of(E, st, a[0])))
        if n.startswith("<&"):
            v = a[0]
            try:
                return ret(st, StringV(rope_of(E, st, v)))
            except Unsupported:
                pass
        if n.startswith("<char as") or re.match(r"<[iu]\d+ as|<[iu]size as", n):
            v = E.deref(st, a[0])
            if n.startswith("<char"):
                return char_rope_call(E, st, v, lambda s, r: (s, "ret", StringV(r)))
            return [(s, "ret", StringV(r)) for s, r in int_rope(E, st, v, NOSPEC)]
        raise Unsupported("to_string " + n)
    s = st.fork()
    sink = E.ref(s, StringV(()))
    out = []
    for s2, k, v in fmt_arg(E, s, Opq("farg", (a[0], fn["fmtfn"], "display")), NOSPEC, sink):
        if k != "ret":
            out.append((s2, k, v))
        elif v:
            out.append((s2, "ret", E.deref(s2, sink)))
        else:
            out.append((s2, "panic", "a Display implementation returned an error unexpectedly"))
    return out


@model("std::hint::must_use")
def m_must_use(E, st, a, fn):
    return ret(st, a[0])


def pad_rope(E, st, r, spec):
    """Formatter::pad: [(st, rope)]"""
    if spec.width is None and spec.prec is None:
        return [(st, r)]
    raise Unsupported("padded string")


@rmodel(r"^<str as std::fmt::Display>::fmt$", r"^<std::string::String as std::fmt::Display>::fmt$", r"^std::fmt::Formatter::<'a>::pad$",
        r"^<std::borrow::Cow<.*> as std::fmt::Display>::fmt$")
def m_str_display(E, st, a, fn):
    if fn["def"].endswith("::pad"):
        sv, fv = a[1], a[0]
    else:
        sv, fv = a[0], a[1]
    sink, spec = formatter_of(E, st, fv)
    out = []
    for s, r in pad_rope(E, st, rope_of(E, st, sv), spec):
        for s2, k, v in sink_write(E, s, sink, r):
            out.append((s2, k, fmt_result(v)))
    return out


@rmodel(r"^<char as std::fmt::Display>::fmt$")
def m_char_display(E, st, a, fn):
    sink, spec = formatter_of(E, st, a[1])
    if spec.width is not None:
        raise Unsupported("padded char")
    c = E.deref(st, a[0])
    return char_rope_call(E, st, c, lambda s, r: (sink_write(E, s, sink, r)[0][0], "ret", ok(UNIT)))


def int_rope(E, st, v, spec):
    """decimal text of integer v under the format spec: [(st, rope)]"""
    if spec.prec is not None or spec.alt or (spec.fill != " " and not spec.zero and spec.width):
        raise Unsupported("integer format spec")
    v = st.norm(v)
    w = spec.width or 0
    if w and not spec.zero:
        raise Unsupported("space-padded integer")
    if isinstance(v, int):
        t = str(abs(v))
        sg = "-" if v < 0 else ("+" if spec.plus else "")
        t = sg + t.rjust(w - len(sg), "0")
        return [(st, (t.encode(),))]
    out = []
    for s, ng in st.branch(cmp("<", v, 0)):
        sg = b"-" if ng else (b"+" if spec.plus else b"")
        m = s.norm(scale(s.norm(v), -1) if ng else v)
        if isinstance(m, int):
            out.append((s, (sg + str(m).rjust(w - len(sg), "0").encode(),)))
            continue
        # same digits already known?
        k = max(w - len(sg), 1)
        lo, hi = s.bounds(m)
        lg = L.rx("[0-9]{%d}|[1-9][0-9]{%d,}" % (k, k)) if k > 1 else L.rx("[0-9]|[1-9][0-9]+")
        if isinstance(m, Lin) and m.c == 0 and len(m.v) == 1 and m.v[0][1] == 1 and m.v[0][0].startswith("dec:"):
            a = m.v[0][0][4:]
            if s.lang[a].subset(lg):
                out.append((s, ((sg,) if sg else ()) + (a,)))
                continue
        lo = max(lo or 0, 0)
        lg = lg & L.dec_cmp(">=", lo)
        if hi is not None:
            lg = lg & L.dec_cmp("<=", hi)
        if lg.empty():
            continue
        s = s.fork()
        t = s.new_atom(lg, "n")
        if not s.bind(m, var("dec:" + t)):
            continue
        out.append((s, s.rope(((sg,) if sg else ()) + (t,))))
    return out


@rmodel(r"^core::fmt::num::imp::<impl std::fmt::Display for .*>::fmt$", r"^<[iu](8|16|32|64|128|size) as std::fmt::Display>::fmt$",
        r"^core::fmt::num::<impl std::fmt::Debug for .*>::fmt$")
def m_int_display(E, st, a, fn):
    sink, spec = formatter_of(E, st, a[1])
    v = E.deref(st, a[0])
    out = []
    for s, r in int_rope(E, st, v, spec):
        for s2, k, x in sink_write(E, s, sink, r):
            out.append((s2, k, fmt_result(x)))
    return out


@rmodel(r"^<std::num::ParseIntError as std::fmt::(Display|Debug)>::fmt$", r"^<.*Error as std::fmt::(Display|Debug)>::fmt$", r"^<bool as std::fmt::Display>::fmt$")
def m_err_display(E, st, a, fn):
    if fn["krate"] in ("xsd_types", "xsd_parser", "wsdl_parser"):
        return NotImplemented
    sink, spec = formatter_of(E, st, a[1])
    s = st.fork()
    if fn["def"].startswith("<bool"):
        return [(sink_write(E, s2, sink, (b"true" if b else b"false",))[0][0], "ret", ok(UNIT)) for s2, b in s.branch(E.deref(s, a[0]))]
    t = s.new_atom(L.UTF8, "errmsg")
    return [(x, k, fmt_result(v)) for x, k, v in sink_write(E, s, sink, (t,))]


@rmodel(r"^std::fmt::Formatter::<'a>::(debug_struct|debug_tuple|debug_list|debug_.*|width|precision|alternate|fill|sign_plus)")
def m_f_debug(E, st, a, fn):
    raise Unsupported("debug formatting")


# ------------------------------------------------------------ misc
@rmodel(r"^std::ops::RangeInclusive::<Idx>::(new)$")
def m_ri(E, st, a, fn):
    return NotImplemented


@rmodel(r"^core::str::<impl str>::(trim|trim_start|trim_end|trim_matches|trim_start_matches|trim_end_matches)$")
def m_trim(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    r = st.rope(rope_of(E, st, a[0]))
    if "matches" in nm:
        pt = pattern(E, st, a[1])
        one = ptn_lang(pt)
    else:
        one = L.charset(((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)))
    cur = [(st, r)]
    if "end" not in nm:
        nx = []
        for s, x in cur:
            for s2, u, v in s.cut(x, one.star(), L.UTF8 - (one + L.ALL)):
                nx.append((s2, v))
        cur = nx
    if "start" not in nm:
        nx = []
        for s, x in cur:
            for s2, u, v in s.cut(x, L.UTF8 - (L.ALL + one), one.star()):
                nx.append((s2, u))
        cur = nx
    return [(s, "ret", SRef(s.rope(x))) for s, x in cur]


@rmodel(r"^std::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)$")
def m_case(E, st, a, fn):
    c = st.const_str(rope_of(E, st, a[0]))
    if c is None:
        raise Unsupported("case mapping of symbolic string")
    t = c.decode()
    t = t.lower() if "lower" in fn["def"] else t.upper()
    return ret(st, StringV((t.encode(),)))


@rmodel(r"^core::str::<impl str>::eq_ignore_ascii_case$")
def m_eq_ic(E, st, a, fn):
    x, y = st.rope(rope_of(E, st, a[0])), st.rope(rope_of(E, st, a[1]))
    cx, cy = st.const_str(x), st.const_str(y)
    if cx is not None and cy is not None:
        return ret(st, 1 if cx.lower() == cy.lower() else 0)        # bytes.lower is ASCII only
    if cx is None and cy is None:
        raise Unsupported("eq_ignore_ascii_case of two symbolic texts")
    r, c = (x, cy) if cx is None else (y, cx)
    lang = L.EPS
    for b in c:
        lang = lang + L.byteset({ord(bytes([b]).lower()), ord(bytes([b]).upper())})
    return [(s, "ret", 1 if t else 0) for s, t in st.split(r, lang)]


@rmodel(r"^std::str::<impl str>::(replace|replacen|repeat)$")
def m_replace(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    r = st.rope(rope_of(E, st, a[0]))
    c = st.const_str(r)
    if nm == "repeat":
        n = st.norm(a[1])
        if c is not None and isinstance(n, int):
            return ret(st, StringV((c * n,) if c * n else ()))
        if c is not None and len(c) == 1 and isinstance(n, Lin) and n.c >= 0 and all(k == 1 and v.startswith("len:") for v, k in n.v):
            # a word over one byte is determined by its length
            out = (c * n.c,) if n.c else ()
            if all(st.lang[v[4:]].subset(L.lit(c).star()) for v, k in n.v):
                return ret(st, StringV(st.rope(out + tuple(v[4:] for v, k in n.v))))
        raise Unsupported("repeat")
    pt = pattern(E, st, a[1])
    to = rope_of(E, st, a[2])
    if pt[0] == "lit" and c is not None:
        tc = st.const_str(to)
        if tc is not None:
            v = c.replace(pt[1], tc)
            return ret(st, StringV((v,) if v else ()))
    if pt[0] in ("lit", "cls"):
        # no occurrence: unchanged; otherwise outside the subset unless homomorphic (see REPL)
        lg = ptn_lang(pt)
        out = []
        for s, has in st.split(r, L.ALL + lg + L.ALL):
            if not has:
                out.append((s, "ret", StringV(s.rope(r))))
            else:
                out.extend(REPL[0](E, s, r, pt, to))
        return out
    raise Unsupported("replace")


def _repl(E, s, r, pt, to):
    raise Unsupported("replace on symbolic string")


REPL = [_repl]


@rmodel(r"^std::mem::drop$", r"^core::mem::drop$", r"^std::mem::forget$")
def m_drop(E, st, a, fn):
    return ret(st, UNIT)


@rmodel(r"^std::boxed::Box::<T>::new$", r"^std::rc::Rc::<T>::new$")
def m_box_new(E, st, a, fn):
    s = st.fork()
    return ret(s, BoxV(s.new_cell(a[0]), "rc" if "Rc" in fn["def"] else "box"))


@rmodel(r"^std::boxed::Box::<T>::new_uninit$")
def m_box_uninit(E, st, a, fn):
    s = st.fork()
    return ret(s, BoxV(s.new_cell(Opq("uninit", ())), "box"))


@rmodel(r"^std::boxed::box_assume_init_into_vec_unsafe$")
def m_box_vec(E, st, a, fn):
    """vec![..]: Box<MaybeUninit<[T; N]>> -> Vec<T>; the elements were written through the fields of MaybeUninit"""
    v = st.cells[a[0].cell]
    while isinstance(v, Tup):
        v = [x for x in v.f if not (isinstance(x, Opq) and x.kind == "undef")][0]
    if not isinstance(v, Arr):
        raise Unsupported("vec! of %s" % type(v).__name__)
    return ret(st, VecV(tuple(v.xs)))


@rmodel(r"^<(std::boxed::Box|std::rc::Rc)<.*> as std::(ops::Deref(Mut)?|convert::As(Ref|Mut)<.*>|borrow::Borrow<.*>)>::")
def m_box_deref(E, st, a, fn):
    v = E.deref(st, a[0])
    if isinstance(v, BoxV):
        return ret(st, Ref(v.cell, ()))
    if isinstance(v, DynP):
        return ret(st, v)
    raise Unsupported("box deref")


@rmodel(r"^std::cell::RefCell::<T>::new$")
def m_refcell(E, st, a, fn):
    s = st.fork()
    return ret(s, CellV(s.new_cell(a[0])))


@rmodel(r"^std::cell::RefCell::<T>::(borrow|borrow_mut|get_mut)$")
def m_borrow(E, st, a, fn):
    r = E.expand(st, a[0])
    v = E.deref(st, r)
    if isinstance(v, Adt) and len(v.f) == 2 and isinstance(r, Ref):
        return ret(st, Ref(r.cell, r.path + (("f", 1), ("f", 0))))      # RefCell{borrow, UnsafeCell{value}}
    if not isinstance(v, CellV):
        raise Unsupported("RefCell borrow")
    return ret(st, Ref(v.cell, ()))


@rmodel(r"^std::cell::RefCell::<T>::(take|replace)$")
def m_cell_take(E, st, a, fn):
    r = E.expand(st, a[0])
    v = E.deref(st, r)
    s = st.fork()
    if isinstance(v, Adt) and len(v.f) == 2 and isinstance(r, Ref) and fn["def"].endswith("::replace"):
        r = Ref(r.cell, r.path + (("f", 1), ("f", 0)))
        old = E.deref(s, r)
        E.set_ref(s, r, a[1])
        return ret(s, old)
    if not isinstance(v, CellV):
        raise Unsupported("RefCell take")
    old = E.expand(s, s.cells[v.cell])
    if fn["def"].endswith("::replace"):
        s.cells[v.cell] = a[1]
    elif isinstance(old, VecV) or isinstance(old, Opq) and old.kind in ("abslist", "lcat"):
        s.cells[v.cell] = VecV(())
    else:
        raise Unsupported("take of unknown contents")
    return ret(s, old)


@rmodel(r"^<std::cell::Ref(Mut)?<.*> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def m_ref_deref(E, st, a, fn):
    v = E.deref(st, a[0])
    return ret(st, v)


@rmodel(r"^std::borrow::Cow::", r"^<std::borrow::Cow<.*> as std::(ops::Deref|convert::AsRef.*)>::")
def m_cow(E, st, a, fn):
    nm = fn["def"].split("::")[-1]
    if nm in ("deref", "as_ref"):
        return ret(st, SRef(rope_of(E, st, a[0])))
    if nm in ("into_owned", "to_string"):
        return ret(st, StringV(rope_of(E, st, a[0])))
    raise Unsupported("Cow::" + nm)


def install(E):
    E.models.update(MODELS)
    E.rmodels.extend(RMODELS)
