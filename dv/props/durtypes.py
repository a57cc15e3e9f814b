"""xs:duration: lexical form, decoding, printing (shared by C09-C11)."""
import struct
from .common import *
from .. import loops
from ..depmodels import secs_f64

N = D + D.star()
SEC = N + (L.EPS | L.lit(b".") + N)
U64 = 2**64 - 1
# component name, designator, number language
DATEC = [("years", b"Y"), ("months", b"M"), ("days", b"D")]
TIMEC = [("hours", b"H"), ("minutes", b"M")]
FIELDS = ["years", "months", "days", "hours", "minutes", "seconds"]


def opt(n, d):
    return L.opt(n + L.lit(d))


DATEL = opt(N, b"Y") + opt(N, b"M") + opt(N, b"D")
TIMEL = (opt(N, b"H") + opt(N, b"M") + opt(SEC, b"S")) - L.EPS
DUR = L.opt(L.lit(b"-")) + L.lit(b"P") + ((DATEL - L.EPS) | DATEL + L.lit(b"T") + TIMEL)
PYDUR = re.compile(r"(-)?P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+(?:\.[0-9]+)?)S)?)?", re.A)


# plain decimal text of a positive double, as core prints it: no superfluous zeros
PLAIN = (L.lit(b"0") | L.byteset(b"123456789") + D.star()) + (L.EPS | L.lit(b".") + D.star() + L.byteset(b"123456789"))
SECTXT = PLAIN & (L.ALL + L.byteset(b"123456789") + L.ALL)


def bits(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


def fl(b):
    return struct.unpack(">d", struct.pack(">Q", int(b, 16)))[0]


def py_dur(s):
    """('ok', neg, y, mo, d, h, mi, secbits) | ('err',) ; the empty text is the zero duration (fixed by the repository's tests)"""
    if s == "":
        return ("ok", "0", "0", "0", "0", "0", "0", bits(0.0))
    m = PYDUR.fullmatch(s)
    if not m or not any(m.groups()[1:]) or s[-1] == "T":
        return ("err",)
    c = [int(x) if x else 0 for x in m.groups()[1:6]]
    if any(x > U64 for x in c):
        return ("err",)
    return ("ok", "1" if m.group(1) else "0") + tuple(str(x) for x in c) + (bits(float(m.group(7) or 0)),)


def decode(st, r):
    """r in DUR: [(state, neg, [value term or 0 x5], seconds rope or None)]"""
    out = []
    langs = [L.opt(L.lit(b"-")), L.lit(b"P"), opt(N, b"Y"), opt(N, b"M"), opt(N, b"D"), L.opt(L.lit(b"T")), opt(N, b"H"), opt(N, b"M"), opt(SEC, b"S")]
    # the designators of the date part cannot be confused with those of the time part: T separates them
    for s0, hast in st.split(r, L.ALL + L.lit(b"T") + L.ALL):
        lg = langs if hast else langs[:5]
        if hast:
            lg = langs[:5] + [L.lit(b"T")] + langs[6:]
        for s, ps in cutn(s0, r, lg):
            for s1, neg_ in [(x, not e) for x, e in s.split(ps[0], L.EPS)]:
                todo = [(s1, [])]
                for i, k in enumerate((2, 3, 4, 6, 7)):
                    nx = []
                    for t, vals in todo:
                        if k >= len(ps):
                            nx.append((t, vals + [0]))
                            continue
                        for t1, e in t.split(ps[k], L.EPS):
                            if e:
                                nx.append((t1, vals + [0]))
                            else:
                                for t2, q in cutn(t1, ps[k], [N, L.byteset(b"YMDH")]):
                                    nx.append((t2, vals + [t2.dec(q[0])]))
                    todo = nx
                for t, vals in todo:
                    if not hast:
                        out.append((t, neg_, vals, None))
                        continue
                    for t1, e in t.split(ps[8], L.EPS):
                        if e:
                            out.append((t1, neg_, vals, None))
                        else:
                            for t2, q in cutn(t1, ps[8], [SEC, L.lit(b"S")]):
                                out.append((t2, neg_, vals, t2.rope(q[0])))
    return out


def spec(st, r):
    """[(state, None | (neg, vals, sec))]"""
    out = []
    for s, e in st.split(r, L.EPS):
        if e:
            out.append((s, (False, [0] * 5, None)))
            continue
        for s1, b in s.split(r, DUR):
            if not b:
                out.append((s1, None))
                continue
            for s2, ng, vals, sec in decode(s1, r):
                for s3, fits in s2.branch(conj([cmp("<=", v, U64) for v in vals])):
                    out.append((s3, (ng, vals, sec) if fits else None))
    return out


def dur_ne(E, s, got, w):
    got = E.expand(s, got)
    f = [E.expand(s, x) for x in got.f]
    bad = [t for t, b in s.branch(f[0]) if b != w[0]]
    for i in range(5):
        bad += ne_states(s, f[1 + i], w[1][i])
    return bad + sec_ne(s, f[6], w[2])


def sec_ne(s, v, w):
    """f64 value against a decimal text (None: zero)"""
    if isinstance(v.d, float):
        if w is None:
            return [s] if v.d != 0.0 else []
        c = s.const_str(w)
        if c is not None:
            return [] if float(c) == v.d else [s]
        raise Unsupported("seconds constant")
    if isinstance(v.d, tuple) and v.d[0] in ("parse", "sym"):
        return [s] if w is None else str_states_ne(s, v.d[1], w)
    raise Unsupported("seconds value %r" % (v.d,))


def show(E, s, m, got):
    got = E.expand(s, got)
    f = [E.expand(s, x) for x in got.f]
    b = [t for t, x in s.branch(f[0])]
    if len(b) != 1 or not isinstance(f[6].d, (float, tuple)):
        return None
    sec = f[6].d if isinstance(f[6].d, float) else float(ev(s, m, f[6].d[1]).decode()) if f[6].d[0] in ("parse", "sym") else None
    if sec is None:
        return None
    return (("1" if s.branch(f[0])[0][1] else "0"),) + tuple(str(ev(s, m, x)) for x in f[1:6]) + (bits(sec),)
