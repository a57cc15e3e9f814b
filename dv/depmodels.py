"""Assumed contracts on dependencies: chrono 0.4.35, num-bigint 0.4.4, bigdecimal 0.4.3, f64 text conversion.

Values of dependency types are opaque terms whose parts are ropes (digits) in the same regular-language state:
  ndate(r)            r = YYYY-MM-DD (a calendar date of the years 0000-9999) or None (some other date)
  ntime(hms, n)       hms = HH:MM:SS, n = nine digits of nanoseconds; None = a leap second
  dtz(d, hms, n, off) local date, local time, offset in seconds; d None = accepted through a lenient form
  big(sgn, D)         sgn * D, D canonical decimal digits
  bigdec(sgn, D, k)   sgn * D * 10^-k
  f64p(r)             the double nearest to the decimal literal r
Every contract is compared with the real library on every path witness and sweep case of every run.
"""
import re
from . import lang as L
from . import models as M
from .models import model, rmodel, ret, panic, rope_of
from .terms import *

D = L.DIG
LEAP = L.rx(r"[0-9][0-9](0[48]|[2468][048]|[13579][26])|([02468][048]|[13579][26])00")
Y4 = D + D + D + D
MD = L.rx(r"(0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])|(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8])")
MD29 = L.lit(b"02-29")
VALID4 = Y4 + L.lit(b"-") + MD | LEAP + L.lit(b"-") + MD29
SHAPE_D = Y4 + L.rx("-[0-9][0-9]-[0-9][0-9]")
HMS = L.rx("([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]")
HMSL = L.rx("([01][0-9]|2[0-3]):[0-5][0-9]:60")
SHAPE_T = L.rx("[0-9][0-9]:[0-9][0-9]:[0-9][0-9]")
FRAC = L.lit(b".") + D + D.star()
N9 = L.power(D, 9)


def ws():
    return L.charset(((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)))


_WS = []


def WS():
    if not _WS:
        _WS.append(ws().star())
    return _WS[0]


D12 = D | D + D
TOK = {  # strftime token -> (strict language, lenient language for parsing)
    "Y": (Y4, lambda: (D | D + D | D + D + D | Y4) | L.byteset(b"+-") + D + D.star()),
    "m": (D + D, lambda: D12), "d": (D + D, lambda: D12),
    "H": (D + D, lambda: D12), "M": (D + D, lambda: D12), "S": (D + D, lambda: D12),
}
ALIAS = {"F": "%Y-%m-%d", "T": "%H:%M:%S"}


def tokens(fmt):
    """format string -> list of ('lit', bytes) / ('tok', name)"""
    for k, v in ALIAS.items():
        fmt = fmt.replace("%" + k, v)
    out = []
    i = 0
    while i < len(fmt):
        if fmt[i] == "%":
            if fmt.startswith("%.f", i):
                out.append(("tok", ".f"))
                i += 3
                continue
            t = fmt[i + 1:i + 2]
            if t == "%":
                out.append(("lit", b"%"))
            elif t in TOK:
                out.append(("tok", t))
            else:
                raise Unsupported("strftime " + fmt)
            i += 2
        else:
            if fmt[i].isspace():
                raise Unsupported("strftime " + fmt)
            out.append(("lit", fmt[i].encode()))
            i += 1
    return out


def fmt_langs(toks):
    strict, len_ = L.EPS, L.EPS
    for k, v in toks:
        if k == "lit":
            strict, len_ = strict + L.lit(v), len_ + L.lit(v)
        elif v == ".f":
            strict, len_ = strict + (L.EPS | FRAC), len_ + (L.EPS | FRAC)
        else:
            strict, len_ = strict + TOK[v][0], len_ + WS() + TOK[v][1]()
    return strict, len_


def cutn(st, rope, langs):
    if len(langs) == 1:
        return [(s, (rope,)) for s, r in st.split(rope, langs[0]) if r]
    rest = L.seq(*langs[1:])
    out = []
    for s, u, v in st.cut(rope, langs[0], rest):
        for s2, ps in cutn(s, v, langs[1:]):
            out.append((s2, (u,) + ps))
    return out


def perr():
    return err(Opq("ParseError", ()))


def pad9(st, f):
    """fraction digits -> nine digits of nanoseconds"""
    out = []
    for s, big in st.split(f, L.len_cmp(">=", 9)):
        if big:
            for s2, u, v in s.cut(f, N9, D.star()):
                out.append((s2, u))
        else:
            todo = [s]
            for k in range(0, 9):
                nx = []
                for t in todo:
                    for t2, y in t.split(f, L.len_cmp("==", k)):
                        if y:
                            out.append((t2, t2.rope(f) + (b"0" * (9 - k),)))
                        else:
                            nx.append(t2)
                todo = nx
    return out


def autosi(st, n):
    """nanosecond digits -> printed fraction (0, 3, 6 or 9 digits)"""
    out = []
    for s, z in st.split(n, L.lit(b"0" * 9)):
        if z:
            out.append((s, ()))
            continue
        for s2, k3 in s.split(n, L.power(D, 3) + L.lit(b"0" * 6)):
            if k3:
                for s3, ps in cutn(s2, n, [L.power(D, 3), L.lit(b"0" * 6)]):
                    out.append((s3, (b".",) + ps[0]))
                continue
            for s3, k6 in s2.split(n, L.power(D, 6) + L.lit(b"000")):
                if k6:
                    for s4, ps in cutn(s3, n, [L.power(D, 6), L.lit(b"000")]):
                        out.append((s4, (b".",) + ps[0]))
                else:
                    out.append((s3, (b".",) + tuple(s3.rope(n))))
    return out


def const_fmt(E, st, v):
    v = E.deref(st, v) if isinstance(v, Ref) else E.expand(st, v)
    if isinstance(v, Opq) and v.kind == "strftime":
        return v.d
    c = st.const_str(rope_of(E, st, v))
    if c is None:
        raise Unsupported("symbolic strftime format")
    return c.decode()


@rmodel(r"^chrono::NaiveDate::parse_from_str$", r"^chrono::NaiveTime::parse_from_str$", r"^<chrono::Naive(Date|Time) as std::str::FromStr>::from_str$")
def m_naive_parse(E, st, a, fn):
    date = "NaiveDate" in fn["def"]
    if fn["def"].endswith("::from_str"):
        raise Unsupported("chrono FromStr")
    toks = tokens(const_fmt(E, st, a[1]))
    names = [v for k, v in toks if k == "tok"]
    need = {"Y", "m", "d"} if date else {"H", "M", "S"}
    opt = set() if date else {".f"}
    if len(set(names)) != len(names) or not need <= set(names) <= need | opt:
        raise Unsupported("strftime fields " + repr(names))
    strict, lenient = fmt_langs(toks)
    r = rope_of(E, st, a[0])
    out = []
    for s, len_ok in st.split(r, lenient):
        if not len_ok:
            out.append((s, "ret", perr()))
            continue
        for s1, ok_ in s.split(r, strict):
            if not ok_:
                # unpadded or blank-padded numbers: accepted or not, value unspecified
                out.append((s1.fork(), "ret", perr()))
                out.append((s1, "ret", ok(Opq("ndate" if date else "ntime", (None,) if date else (None, None)))))
                continue
            langs = [L.lit(v) if k == "lit" else ((L.EPS | FRAC) if v == ".f" else TOK[v][0]) for k, v in toks]
            for s2, ps in cutn(s1, r, langs):
                f = {v: p for (k, v), p in zip(toks, ps) if k == "tok"}
                if date:
                    rr = f["Y"] + (b"-",) + f["m"] + (b"-",) + f["d"]
                    for s3, good in s2.split(rr, VALID4):
                        out.append((s3, "ret", ok(Opq("ndate", (s3.rope(rr),))) if good else perr()))
                else:
                    rr = f["H"] + (b":",) + f["M"] + (b":",) + f["S"]
                    for s3, good in s2.split(rr, HMS):
                        if good:
                            fr = f.get(".f", ())
                            for s4, e in s3.split(fr, L.EPS):
                                if e:
                                    out.append((s4, "ret", ok(Opq("ntime", (s4.rope(rr), (b"0" * 9,))))))
                                else:
                                    for s5, q in cutn(s4, fr, [L.lit(b"."), D + D.star()]):
                                        for s6, n in pad9(s5, q[1]):
                                            out.append((s6, "ret", ok(Opq("ntime", (s6.rope(rr), n)))))
                        else:
                            for s4, leap in s3.split(rr, HMSL):
                                out.append((s4, "ret", ok(Opq("ntime", (None, None))) if leap else perr()))
    return out


@rmodel(r"^chrono::NaiveDate::from_ymd_opt$", r"^chrono::NaiveTime::from_hms_opt$")
def m_naive_const(E, st, a, fn):
    v = [st.norm(x) for x in a]
    if not all(isinstance(x, int) for x in v):
        raise Unsupported("symbolic calendar constructor")
    if "NaiveDate" in fn["def"]:
        b = b"%04d-%02d-%02d" % tuple(v) if v[0] >= 0 else b""
        return ret(st, some(Opq("ndate", ((b,),))) if VALID4.accepts(b) else NONE)
    b = b"%02d:%02d:%02d" % tuple(v)
    return ret(st, some(Opq("ntime", ((b,), (b"0" * 9,)))) if HMS.accepts(b) else NONE)


@rmodel(r"^chrono::format::StrftimeItems::<'a>::new$")
def m_items(E, st, a, fn):
    return ret(st, Opq("strftime", const_fmt(E, st, a[0])))


@rmodel(r"^<chrono::format::StrftimeItems<'a> as std::clone::Clone>::clone$")
def m_items_clone(E, st, a, fn):
    return ret(st, Opq("strftime", const_fmt(E, st, a[0])))


@rmodel(r"^chrono::Naive(Date|Time)::(format|format_with_items)$")
def m_format(E, st, a, fn):
    return ret(st, Opq("delayed", (E.deref(st, a[0]), const_fmt(E, st, a[1]))))


def fmt_value(st, v, fmt):
    toks = tokens(fmt)
    if v.kind == "ndate":
        if v.d[0] is None:
            return [(st, (st.new_atom(L.UTF8, "date"),))]
        cases = [(s, {"Y": p[0], "m": p[2], "d": p[4]}) for s, p in cutn(st, v.d[0], [Y4, L.lit(b"-"), D + D, L.lit(b"-"), D + D])]
    else:
        if v.d[0] is None:
            return [(st, (st.new_atom(L.UTF8, "time"),))]
        cases = []
        for s, p in cutn(st, v.d[0], [D + D, L.lit(b":"), D + D, L.lit(b":"), D + D]):
            for s2, fr in (autosi(s, v.d[1]) if ("tok", ".f") in toks else [(s, ())]):
                cases.append((s2, {"H": p[0], "M": p[2], "S": p[4], ".f": fr}))
    out = []
    for s, f in cases:
        r = ()
        for k, x in toks:
            if k == "tok" and x not in f:
                raise Unsupported("strftime field")
            r += (x,) if k == "lit" else f[x]
        out.append((s, r))
    return out


@rmodel(r"^<chrono::format::DelayedFormat<I> as std::fmt::Display>::fmt$", r"^<chrono::Naive(Date|Time) as std::fmt::Display>::fmt$")
def m_delayed(E, st, a, fn):
    sink, spec = M.formatter_of(E, st, a[1])
    v = E.deref(st, a[0])
    if v.kind == "delayed":
        v, f = v.d
    else:
        f = "%Y-%m-%d" if v.kind == "ndate" else "%H:%M:%S%.f"
    out = []
    s = st.fork()
    for s1, r in fmt_value(s, v, f):
        for s2, r2 in M.pad_rope(E, s1, r, spec):
            out += [(s3, k, M.fmt_result(x)) for s3, k, x in M.sink_write(E, s2.fork(), sink, r2)]
    return out


# ---------------------------------------------------------------- date-time
DT = VALID4 + L.lit(b"T") + HMS + (L.EPS | FRAC)
OFF_HM = L.rx(r"[+\-]([01][0-9]|2[0-3]):[0-5][0-9]")
OFF = L.lit(b"Z") | OFF_HM
DT_LEN = VALID4 + L.byteset(b"Tt ") + (HMS | HMSL) + (L.EPS | FRAC) + (L.byteset(b"Zz") | (L.byteset(b"+-") | L.lit("\u2212".encode())) + L.rx("([01][0-9]|2[0-3]):[0-5][0-9]"))
DT_DEC = VALID4 + L.lit(b"T") + HMS + (L.EPS | FRAC) + OFF


def off_cases(st, r):
    out = []
    for s, z in st.split(r, L.lit(b"Z")):
        if z:
            out.append((s, 0))
            continue
        for s2, ng in s.split(r, L.lit(b"-") + L.ALL):
            for s3, ps in cutn(s2, r, [L.byteset(b"+-"), D + D, L.lit(b":"), D + D]):
                sec = add(scale(s3.dec(ps[1]), 3600), scale(s3.dec(ps[3]), 60))
                out.append((s3, scale(sec, -1) if ng else sec))
    return out


@rmodel(r"^chrono::DateTime::<chrono::FixedOffset>::parse_from_rfc3339$")
def m_rfc3339(E, st, a, fn):
    r = rope_of(E, st, a[0])
    out = []
    for s, len_ok in st.split(r, DT_LEN):
        if not len_ok:
            out.append((s, "ret", perr()))
            continue
        for s1, dec in s.split(r, DT_DEC):
            if not dec:
                out.append((s1.fork(), "ret", perr()))
                out.append((s1, "ret", ok(Opq("dtz", (None, None, None, None)))))
                continue
            for s2, good in s1.split(r, DT + OFF):
                if not good:
                    out.append((s2, "ret", perr()))
                    continue
                for s3, ps in cutn(s2, r, [VALID4, L.lit(b"T"), HMS, L.EPS | FRAC, OFF]):
                    for s4, e in s3.split(ps[3], L.EPS):
                        ns = [(s4, (b"0" * 9,))] if e else [x for s5, q in cutn(s4, ps[3], [L.lit(b"."), D + D.star()]) for x in pad9(s5, q[1])]
                        for s5, n in ns:
                            for s6, o in off_cases(s5, ps[4]):
                                out.append((s6, "ret", ok(Opq("dtz", (ps[0], ps[2], n, o)))))
    return out


@rmodel(r"^chrono::DateTime::<Tz>::to_rfc3339$")
def m_to_rfc3339(E, st, a, fn):
    v = E.deref(st, a[0])
    d, hms, n, off = v.d
    if d is None:
        raise Unsupported("unspecified date-time")
    out = []
    off = st.norm(off)
    for s, fr in autosi(st.fork(), n):
        for s2, o in off_rope(E, s, off):
            out.append((s2, "ret", StringV(s2.rope(tuple(d) + (b"T",) + tuple(hms) + fr + o))))
    return out


def off_rope(E, st, off):
    """+HH:MM of an offset that is a whole number of minutes (off = 60*m)"""
    out = []
    m = None
    off = st.norm(off)
    if isinstance(off, int):
        if off % 60:
            raise Unsupported("offset with seconds")
        x = abs(off) // 60
        return [(st, (b"%s%02d:%02d" % (b"-" if off < 0 else b"+", x // 60, x % 60),))]
    if off.c % 60 or any(k % 60 for _, k in off.v):
        raise Unsupported("offset with seconds")
    m = mk(off.c // 60, {n: k // 60 for n, k in off.v})
    for s, ng in st.branch(cmp("<", m, 0)):
        x = scale(m, -1) if ng else m
        for s2, q, r in M.euclid(E, s, x, 60):
            for s3, hh in M.int_rope(E, s2, q, M.NOSPEC._replace(zero=True, width=2)):
                for s4, mm in M.int_rope(E, s3, r, M.NOSPEC._replace(zero=True, width=2)):
                    out.append((s4, (b"-" if ng else b"+",) + tuple(hh) + (b":",) + tuple(mm)))
    return out


# ---------------------------------------------------------------- big numbers
CANON = L.lit(b"0") | L.rx("[1-9][0-9]*")
DP = D + D.star()
ZERO = Opq("big", (0, (b"0",)))


def strip_zeros(st, digits):
    """[(st, sgn in 0/1, canonical digits)] of a digit rope"""
    out = []
    for s, z in st.split(digits, L.lit(b"0").star()):
        if z:
            out.append((s, 0, (b"0",)))
        else:
            for s2, ps in cutn(s, digits, [L.lit(b"0").star(), L.rx("[1-9][0-9]*")]):
                out.append((s2, 1, s2.rope(ps[1])))
    return out


def signed_cases(st, r):
    """r in [+-]?X : [(st, sign, X)]"""
    out = []
    for s, sg in st.split(r, L.byteset(b"+-") + L.ALL):
        if not sg:
            out.append((s, 1, s.rope(r)))
            continue
        for s2, u, v in s.cut(r, L.byteset(b"+-"), L.ALL):
            for s3, ng in s2.split(u, L.lit(b"-")):
                out.append((s3, -1 if ng else 1, v))
    return out


def big_parse(E, st, r, signed=True):
    out = []
    lg = L.opt(L.byteset(b"+-") if signed else L.lit(b"+")) + D + L.byteset(b"0123456789_").star()
    for s, good in st.split(r, lg):
        if not good:
            out.append((s, "ret", err(Opq("ParseBigIntError", ()))))
            continue
        for s1, us in s.split(r, L.ALL + L.lit(b"_") + L.ALL):
            if us:
                out.append((s1, "ret", ok(Opq("big", ("?", None)))))
                continue
            for s2, sg, ds in signed_cases(s1, r):
                for s3, z, c in strip_zeros(s2, ds):
                    out.append((s3, "ret", ok(Opq("big", (sg * z, c)))))
    return out


@rmodel(r"^num_bigint::bigint::convert::<impl std::str::FromStr for num_bigint::bigint::BigInt>::from_str$")
def m_bigint_parse(E, st, a, fn):
    return big_parse(E, st, rope_of(E, st, a[0]))


@rmodel(r"^num_bigint::biguint::convert::<impl std::str::FromStr for num_bigint::biguint::BigUint>::from_str$")
def m_biguint_parse(E, st, a, fn):
    return big_parse(E, st, rope_of(E, st, a[0]), False)


def bigv(E, st, v):
    v = E.deref(st, v) if isinstance(v, (Ref, BoxV)) else E.expand(st, v)
    if isinstance(v, Opq) and v.kind == "big":
        if v.d[0] == "?":
            raise Unsupported("big integer read from a text with separators")
        return v
    raise Unsupported("big integer expected, got %r" % (v,))


@rmodel(r"^num_bigint::(bigint|biguint)::Big(Int|Uint)::to_str_radix$")
def m_to_radix(E, st, a, fn):
    if st.norm(a[1]) != 10:
        raise Unsupported("radix")
    v = bigv(E, st, a[0])
    return ret(st, StringV(((b"-",) if v.d[0] < 0 else ()) + tuple(v.d[1])))


@rmodel(r"^num_bigint::(bigint|biguint)::convert::<impl num_bigint::(bigint|biguint)::ToBig(Int|Uint) for [iu](8|16|32|64|size)>::to_big(int|uint)$")
def m_prim_to_big(E, st, a, fn):
    n = st.norm(E.deref(st, a[0]))
    if not isinstance(n, int):
        raise Unsupported("symbolic primitive to big integer")
    if fn["def"].endswith("biguint") and n < 0:
        return ret(st, NONE)
    return ret(st, some(Opq("big", ((n > 0) - (n < 0), (b"%d" % abs(n),)))))


@rmodel(r"^num_bigint::bigint::convert::<impl num_bigint::(bigint::ToBigInt|biguint::ToBigUint) for num_bigint::(bigint::BigInt|biguint::BigUint)>::to_big(int|uint)$",
        r"^num_bigint::bigint::BigInt::to_biguint$", r"^num_bigint::biguint::convert::<impl num_bigint::.* for num_bigint::.*>::to_big(int|uint)$",
        r"^num_bigint::.*::<impl num_bigint::.*ToBig(Int|Uint) for num_bigint::.*Big(Int|Uint)>::to_big(int|uint)$")
def m_big_to_big(E, st, a, fn):
    v = bigv(E, st, a[0])
    if fn["def"].endswith("to_biguint") and v.d[0] < 0:
        return ret(st, NONE)
    return ret(st, some(v))


@rmodel(r"^<num_bigint::(bigint::BigInt|biguint::BigUint) as (num_traits::)?(identities::)?(Zero|One|std::default::Default)>::(zero|one|default)$",
        r"^<num_bigint::.* as num_traits::(Zero|One)>::(zero|one)$", r"^num_bigint::.*<impl num_traits::.*(Zero|One) for .*>::(zero|one)$")
def m_big_const(E, st, a, fn):
    return ret(st, Opq("big", (1, (b"1",))) if fn["def"].endswith("::one") else ZERO)


@rmodel(r"^<num_bigint::.* as num_traits::(Zero|One)>::is_(zero|one)$", r"^num_bigint::.*<impl num_traits::.*(Zero|One) for .*>::is_(zero|one)$")
def m_big_is(E, st, a, fn):
    v = bigv(E, st, a[0])
    if fn["def"].endswith("zero"):
        return ret(st, v.d[0] == 0)
    if v.d[0] != 1:
        return ret(st, False)
    return [(s, "ret", b) for s, b in st.split(v.d[1], L.lit(b"1"))]


@rmodel(r"^num_bigint::bigint::BigInt::(is_negative|is_positive)$", r"^<num_bigint::.*BigInt as num_traits::Signed>::is_(negative|positive)$", r"^num_bigint::.*Signed for .*>::is_(negative|positive)$")
def m_big_sgn(E, st, a, fn):
    v = bigv(E, st, a[0])
    return ret(st, v.d[0] < 0 if fn["def"].endswith("negative") else v.d[0] > 0)


@rmodel(r"^num_bigint::bigint::BigInt::sign$")
def m_big_sign(E, st, a, fn):
    v = bigv(E, st, a[0])
    return ret(st, Adt(None, v.d[0] + 1, ()))


@rmodel(r"^num_bigint::bigint::BigInt::(magnitude|into_parts)$")
def m_big_mag(E, st, a, fn):
    v = bigv(E, st, a[0])
    m = Opq("big", (abs(v.d[0]), v.d[1]))
    if fn["def"].endswith("parts"):
        return ret(st, Tup((Adt(None, v.d[0] + 1, ()), m)))
    s = st.fork()
    return ret(s, E.ref(s, m))


@rmodel(r"^<num_bigint::sign::Sign as std::cmp::PartialEq>::(eq|ne)$", r"^<num_bigint::(bigint::)?Sign as std::cmp::PartialEq>::(eq|ne)$")
def m_sign_eq(E, st, a, fn):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    return ret(st, (x.var == y.var) == fn["def"].endswith("::eq"))


def ordering(E, i):
    for k, t in E.p.types.items():
        if t["k"] == "adt" and t["def"] == "std::cmp::Ordering":
            return Adt(k, i + 1, ())
    raise Unsupported("Ordering type")


def big_cmp(E, st, x, y):
    """[(st, -1|0|1)]"""
    if x.d[0] != y.d[0]:
        return [(st, -1 if x.d[0] < y.d[0] else 1)]
    if x.d[0] == 0:
        return [(st, 0)]
    sg = x.d[0]
    cx, cy = st.const_str(x.d[1]), st.const_str(y.d[1])
    if cy is None and cx is None:
        raise Unsupported("comparison of symbolic big integers")
    out = []
    if cy is not None:
        c, r, f = int(cy), x.d[1], sg
    else:
        c, r, f = int(cx), y.d[1], -sg
    for s, lt in st.split(r, L.dec_cmp("<", c)):
        if lt:
            out.append((s, -f))
            continue
        for s2, eq in s.split(r, L.dec_cmp("==", c)):
            out.append((s2, 0 if eq else f))
    return out


@rmodel(r"^<num_bigint::(bigint::BigInt|biguint::BigUint) as std::cmp::(PartialOrd|Ord)>::(partial_cmp|cmp)$")
def m_big_cmp(E, st, a, fn):
    x, y = bigv(E, st, a[0]), bigv(E, st, a[1])
    p = fn["def"].endswith("partial_cmp")
    return [(s, "ret", some(ordering(E, c)) if p else ordering(E, c)) for s, c in big_cmp(E, st, x, y)]


@rmodel(r"^<num_bigint::(bigint::BigInt|biguint::BigUint) as std::cmp::PartialEq>::(eq|ne)$")
def m_big_eq(E, st, a, fn):
    x, y = bigv(E, st, a[0]), bigv(E, st, a[1])
    return [(s, "ret", (c == 0) == fn["def"].endswith("::eq")) for s, c in big_cmp(E, st, x, y)]


@rmodel(r"^<num_bigint::(bigint::BigInt|biguint::BigUint) as std::fmt::Display>::fmt$", r"^num_bigint::.*<impl std::fmt::Display for num_bigint::.*>::fmt$")
def m_big_display(E, st, a, fn):
    sink, spec = M.formatter_of(E, st, a[1])
    if spec.plus or spec.alt or spec.width is not None:
        raise Unsupported("big integer format flags")
    v = bigv(E, st, a[0])
    s = st.fork()
    return [(s3, k, M.fmt_result(x)) for s3, k, x in M.sink_write(E, s, sink, ((b"-",) if v.d[0] < 0 else ()) + tuple(v.d[1]))]


@rmodel(r"^<num_bigint::.* as std::clone::Clone>::clone$", r"^<bigdecimal::BigDecimal as std::clone::Clone>::clone$", r"^<chrono::.* as std::clone::Clone>::clone$")
def m_dep_clone(E, st, a, fn):
    v = E.deref(st, a[0])
    if not isinstance(v, Opq):
        return NotImplemented
    return ret(st, v)


# ---------------------------------------------------------------- BigDecimal
DEC_PLAIN = L.rx(r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")


@rmodel(r"^bigdecimal::impl_trait_from_str::<impl std::str::FromStr for bigdecimal::BigDecimal>::from_str$")
def m_bigdec_parse(E, st, a, fn):
    r = rope_of(E, st, a[0])
    out = []
    for s, plain in st.split(r, DEC_PLAIN):
        if not plain:
            for s2, simple in s.split(r, L.byteset(b"+-").star() + L.byteset(b"0123456789.").star()):
                if not simple:
                    # exponents, separators, inner signs: accepted or not, value unspecified
                    out.append((s2.fork(), "ret", ok(Opq("bigdec", ("?", None, None)))))
                    out.append((s2, "ret", err(Opq("ParseBigDecimalError", ()))))
                else:
                    out.append((s2, "ret", err(Opq("ParseBigDecimalError", ()))))
            continue
        for s2, sg, body in signed_cases(s, r):
            for s3, dot in s2.split(body, L.ALL + L.lit(b".") + L.ALL):
                if not dot:
                    for s4, z, c in strip_zeros(s3, body):
                        out.append((s4, "ret", ok(Opq("bigdec", (sg * z, c, 0)))))
                    continue
                for s4, ps in cutn(s3, body, [D.star(), L.lit(b"."), D.star()]):
                    for s5, z, c in strip_zeros(s4, ps[0] + ps[2]):
                        out.append((s5, "ret", ok(Opq("bigdec", (sg * z, c, s5.length(ps[2]))))))
    return out


@rmodel(r"^bigdecimal::BigDecimal::(as_bigint_and_exponent|into_bigint_and_exponent|as_bigint_and_scale|into_bigint_and_scale)$")
def m_bigdec_parts(E, st, a, fn):
    v = E.deref(st, a[0]) if isinstance(a[0], Ref) else a[0]
    if v.d[0] == "?":
        raise Unsupported("unspecified decimal")
    return ret(st, Tup((Opq("big", (v.d[0], v.d[1])), v.d[2])))


# ---------------------------------------------------------------- f64 <-> text
F64LIT = L.rx(r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")


@rmodel(r"^core::num::.*<impl std::str::FromStr for f64>::from_str$", r"^<f64 as std::str::FromStr>::from_str$")
def m_f64_parse(E, st, a, fn):
    r = rope_of(E, st, a[0])
    out = []
    for s, good in st.split(r, F64LIT):
        if good:
            out.append((s, "ret", ok(Opq("f64", ("parse", s.rope(r))))))
        else:
            for s2, odd in s.split(r, L.ALL + L.byteset(b"eEiInN") + L.ALL):
                if odd:
                    out.append((s2.fork(), "ret", ok(Opq("f64", ("other", s2.fresh("f"))))))
                out.append((s2, "ret", err(Opq("ParseFloatError", ()))))
    return out


@rmodel(r"^<f64 as std::fmt::Display>::fmt$", r"^core::fmt::float::<impl std::fmt::Display for f64>::fmt$")
def m_f64_display(E, st, a, fn):
    sink, spec = M.formatter_of(E, st, a[1])
    v = E.deref(st, a[0])
    if spec.width is not None or spec.prec is not None or spec.plus:
        raise Unsupported("f64 format flags")
    if isinstance(v, Opq) and v.kind == "f64" and isinstance(v.d, tuple) and v.d[0] == "sym":
        s = st.fork()
        return [(s3, k, M.fmt_result(x)) for s3, k, x in M.sink_write(E, s, sink, v.d[1])]
    raise Unsupported("f64 display of %r" % (v,))


# ---------------------------------------------------------------- std::time::Duration
# Opq("stddur", (seconds, nanos)), nanos < 10^9; the nearest nanosecond of a symbolic double is the
# pair of integers recorded for that double (ghost "ns"), or no pair when it does not fit
NS = 10 ** 9


def nanos_of(x):
    """seconds, nanos nearest to the double x (ties to even), None when not representable"""
    import fractions
    if x != x or x in (float("inf"), float("-inf")) or x < 0:
        return None
    q = fractions.Fraction(x) * NS
    n = q.numerator // q.denominator
    rem = q - n
    if rem > fractions.Fraction(1, 2) or rem == fractions.Fraction(1, 2) and n % 2:
        n += 1
    return None if n // NS >= 1 << 64 else (n // NS, n % NS)


def secs_f64(E, st, x):
    """[(state, Opq stddur | None)]"""
    d = x.d
    if isinstance(d, float):
        r = nanos_of(d)
        return [(st, Opq("stddur", r) if r else None)]
    if not isinstance(d, tuple) or d[0] not in ("sym", "bad"):
        raise Unsupported("nanoseconds of %r" % (d,))
    if d[0] == "bad":
        return [(st, None)]
    known = st.ghost.get("ns", {})
    if d in known:
        return [(st, known[d])]
    a, b = st.fork(), st.fork()
    v = Opq("stddur", (a.new_int(0, (1 << 64) - 1, "ns_s"), a.new_int(0, NS - 1, "ns_n")))
    a.ghost["ns"] = dict(known) | {d: v}
    b.ghost["ns"] = dict(known) | {d: None}
    return [(a, v), (b, None)]


@rmodel(r"^std::time::Duration::try_from_secs_f64$", r"^core::time::Duration::try_from_secs_f64$")
def m_try_secs(E, st, a, fn):
    return [(s, "ret", ok(v) if v is not None else err(Opq("TryFromFloatSecsError", ()))) for s, v in secs_f64(E, st, a[0])]


@rmodel(r"^(std|core)::time::Duration::from_secs_f64$")
def m_secs_f64(E, st, a, fn):
    return [(s, "ret", v) if v is not None else (s, "panic", "from_secs_f64: not representable") for s, v in secs_f64(E, st, a[0])]


@rmodel(r"^(std|core)::time::Duration::from_secs$")
def m_from_secs(E, st, a, fn):
    return [(st, "ret", Opq("stddur", (a[0], 0)))]


@rmodel(r"^(std|core)::time::Duration::new$")
def m_dur_new(E, st, a, fn):
    out = []
    for s, small in st.branch(cmp("<=", a[1], NS - 1)):
        if not small:
            raise Unsupported("Duration::new with a carry")
        out.append((s, "ret", Opq("stddur", (a[0], a[1]))))
    return out


def dur_sum(E, st, x, y):
    out = []
    x, y = E.expand(st, x), E.expand(st, y)
    n = add(x.d[1], y.d[1])
    for s, small in st.branch(cmp("<=", n, NS - 1)):
        sec = add(x.d[0], y.d[0]) if small else add(add(x.d[0], y.d[0]), 1)
        for s2, fits in s.branch(cmp("<=", sec, (1 << 64) - 1)):
            out.append((s2, Opq("stddur", (sec, n if small else sub(n, NS))) if fits else None))
    return out


@rmodel(r"^(std|core)::time::Duration::checked_add$")
def m_dur_cadd(E, st, a, fn):
    return [(s, "ret", some(v) if v is not None else NONE) for s, v in dur_sum(E, st, a[0], a[1])]


@rmodel(r"^<(std|core)::time::Duration as std::ops::Add>::add$")
def m_dur_add(E, st, a, fn):
    return [(s, "ret", v) if v is not None else (s, "panic", "overflow when adding durations") for s, v in dur_sum(E, st, a[0], a[1])]


@rmodel(r"^(std|core)::time::Duration::as_secs$", r"^(std|core)::time::Duration::subsec_nanos$")
def m_dur_get(E, st, a, fn):
    v = E.expand(st, E.deref(st, a[0]))
    return [(st, "ret", v.d[0 if fn["name"].endswith("as_secs") else 1])]
