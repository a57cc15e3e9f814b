"""Specification functions shared by the lexical properties (written from XML Schema Part 2, not from the code)."""
import re
from .. import lang as L, solve
from ..state import State
from ..terms import *

D = L.DIG
TZ_HM = L.rx(r"[+\-](0[0-9]|1[0-3]):[0-5][0-9]|[+\-]14:00")
TZ_Z = L.lit(b"Z")
TZ = TZ_Z | TZ_HM
UTF8 = L.UTF8

RTZ = re.compile(r"Z|([+-])((?:0[0-9]|1[0-3]):[0-5][0-9]|14:00)")


def py_tz(s):
    """seconds east of UTC, or None when s is no designator"""
    if s == "Z":
        return 0
    m = re.fullmatch(r"([+-])([0-9]{2}):([0-9]{2})", s, re.A)
    if not m:
        return None
    h, mi = int(m.group(2)), int(m.group(3))
    if mi > 59 or h * 60 + mi > 14 * 60:
        return None
    v = 60 * (60 * h + mi)
    return -v if m.group(1) == "-" else v


def cutn(st, rope, langs):
    """all ways rope = p1 p2 ... pn, pi in langs[i] (deterministic formats: exactly one per string)"""
    if len(langs) == 1:
        return [(s, (rope,)) for s, r in st.split(rope, langs[0]) if r]
    rest = L.seq(*langs[1:])
    out = []
    for s, u, v in st.cut(rope, langs[0], rest):
        for s2, ps in cutn(s, v, langs[1:]):
            out.append((s2, (u,) + ps))
    return out


def tz_cases(st, rope):
    """rope in TZ: [(state, seconds term)]"""
    out = []
    for s, z in st.split(rope, TZ_Z):
        if z:
            out.append((s, 0))
            continue
        for s2, neg_ in s.split(rope, L.lit(b"-") + L.ALL):
            for s3, ps in cutn(s2, rope, [L.rx(r"[+\-]"), D + D, L.lit(b":"), D + D]):
                sec = add(scale(s3.dec(ps[1]), 3600), scale(s3.dec(ps[3]), 60))
                out.append((s3, scale(sec, -1) if neg_ else sec))
    return out


def opt_tz_cases(st, rope):
    """rope is empty or a designator: [(state, None | seconds)]"""
    out = []
    for s, e in st.split(rope, L.EPS):
        if e:
            out.append((s, None))
        else:
            out.extend(tz_cases(s, rope))
    return out


def is_ok(E, s, v):
    """variant index of a Result/Option-like value"""
    v = E.expand(s, v)
    return v.var == 0


def variants(E, s, v):
    return E.variants(s, v)


def off_secs(E, s, v):
    """FixedOffset value -> seconds term"""
    v = E.expand(s, v)
    while isinstance(v, (Adt, Tup)):
        v = E.expand(s, v.f[0])
    return v


def ne_states(s, a, b):
    """states in which int terms a and b differ"""
    return [t for t, r in s.branch(cmp("!=", a, b)) if r]


def opt_tz_ne(E, s, got, want):
    """states in which Option<FixedOffset> got differs from want (None | seconds term)"""
    bad = []
    for s2, g in E.variants(s, got):
        if g.var == 0:
            if want is not None:
                bad.append(s2)
        elif want is None:
            bad.append(s2)
        else:
            bad.extend(ne_states(s2, off_secs(E, s2, g.f[0]), want))
    return bad


def str_states_ne(s, a, b):
    return [t for t, r in s.str_eq(a, b) if not r]


def ev(s, m, x):
    """concrete value of an int term / rope under a model"""
    ints, words = m
    if is_rope(x):
        return solve.eval_rope(s, x, words)
    return solve.eval_int(s, x, ints, words)


def ev_tz(E, s, m, o):
    o = E.expand(s, o)
    if isinstance(o, Sym):
        return "-"
    if o.var == 0:
        return "-"
    return str(ev(s, m, off_secs(E, s, o.f[0])))


def utf8(b):
    try:
        b.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def mutations(rng, base, alphabet, n):
    """n random edits of the base strings"""
    out = []
    for _ in range(n):
        s = list(rng.choice(base))
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            k = rng.randrange(4)
            i = rng.randrange(len(s) + 1)
            if k == 0:
                s.insert(i, rng.choice(alphabet))
            elif k == 1 and s:
                s.pop(min(i, len(s) - 1))
            elif k == 2 and s:
                s[min(i, len(s) - 1)] = rng.choice(alphabet)
            elif s:
                j = rng.randrange(len(s))
                i = min(i, len(s) - 1)
                s[i], s[j] = s[j], s[i]
        out.append("".join(s))
    return out


SYMS = [chr(i) for i in range(32, 127)] + ["\t", "\n", "\0", "\x7f", "é", "²", "½", "Ⅷ", "٣", "०", "７", "€", "𝟙", "−", "\u00a0", "\u2003", "ß", "İ", "日"]


def edits1(bases, syms=None, dup=True):
    """every single-symbol deletion, substitution and insertion (and doubled symbol) of the base strings"""
    syms = syms or SYMS
    out = []
    for b in bases:
        for i in range(len(b) + 1):
            if i < len(b):
                out.append(b[:i] + b[i + 1:])
                for c in syms:
                    out.append(b[:i] + c + b[i + 1:])
            for c in syms:
                out.append(b[:i] + c + b[i:])
        for i in range(len(b)):
            for j in range(i + 1, len(b) + 1):
                out.append(b[i:j])
    return out


ALPHA = list("0123456789") + list("ZTz+-:. PYMDHS-+_") + ["é", "٣", "€", "𝟙", "−", "\u00a0", "\t", "\n"]
TZS = ["", "Z", "+00:00", "-00:00", "+14:00", "-14:00", "+14:01", "-14:01", "+13:59", "-13:59", "+00:01", "-00:01", "+06:30", "-06:30", "+15:00",
       "+23:59", "-24:00", "+05:60", "-05:59", "+5:00", "+05:0", "+050:00", "+0500", "Z+00:00", "+00:00Z", "+-1:00", "+0+:00", "+00:-1", "+00:00:00",
       "z", "UTC", "+é1:00", "é", "é0:00", "+1é:00", "*00:00", " 00:00", "é05:00", "−05:00", "+٠٥:٠٠"]
