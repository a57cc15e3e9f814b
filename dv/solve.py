"""SMT back end for the integer part of a path, and model extraction."""
import time
import z3
from . import lang as L
from .terms import *
from .state import STATS, dec_bounds

_CACHE = {}
RECORD = []          # (name, smt2 text) of discharged queries when recording is on
REC_ON = [False]


def zlin(st, l, env):
    l = lin(st.norm(l))
    e = z3.IntVal(l.c)
    for n, k in l.v:
        if n not in env:
            env[n] = z3.Int(n)
        e = e + k * env[n]
    return e


def zcmp(st, b, env):
    l = zlin(st, b.l, env)
    return {"==": l == 0, "!=": l != 0, "<=": l <= 0}[b.op]


def constraints(st, extra=()):
    env = {}
    cs = [zcmp(st, b, env) for b in st.pc]
    for b in extra:
        cs.append(zbool(st, b, env))
    done = set()
    while True:
        todo = [n for n in env if n not in done]
        if not todo:
            break
        for n in todo:
            done.add(n)
            lo, hi = st.var_bounds(n)
            if lo is not None:
                cs.append(env[n] >= lo)
            if hi is not None:
                cs.append(env[n] <= hi)
    return env, cs


def zbool(st, b, env):
    if b is True or b is False:
        return z3.BoolVal(b)
    if isinstance(b, Cmp):
        return zcmp(st, b, env)
    if isinstance(b, And):
        return z3.And([zbool(st, x, env) for x in b.xs])
    if isinstance(b, Or):
        return z3.Or([zbool(st, x, env) for x in b.xs])
    raise Unsupported("smt bool %r" % (b,))


def check(st, extra=(), timeout=4000):
    """'sat' | 'unsat' | 'unknown' for the integer part of the path plus extra"""
    if not st.pc and not extra:
        return "sat"
    env, cs = constraints(st, extra)
    key = tuple(sorted(c.sexpr() for c in cs))
    if key in _CACHE:
        return _CACHE[key]
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(cs)
    t = time.time()
    r = str(s.check())
    STATS["smt"] += 1
    STATS["smt_ms"] += int((time.time() - t) * 1000)
    if r == "unknown":
        STATS["smt_unknown"] += 1
    if r == "unsat" and REC_ON[0]:
        RECORD.append(s.to_smt2())
    _CACHE[key] = r
    return r


def model(st, extra=(), tries=30, prefer=None, rng=None):
    """concrete values: (ints, words) satisfying the path; None if not found.  With rng, words are drawn at random."""
    env, cs = constraints(st, extra)
    # special vars for atoms that carry languages
    s = z3.Solver()
    s.set("timeout", 4000)
    s.add(cs)
    for _ in range(tries):
        if str(s.check()) != "sat":
            return None
        m = s.model()
        ints = {n: m.eval(v, model_completion=True).as_long() for n, v in env.items()}
        words = {}
        bad = None
        for a, lg in st.lang.items():
            if a in st.sub:
                continue
            x = lg
            used = []
            if "dec:" + a in ints:
                x = x & L.dec_cmp("==", ints["dec:" + a])
                used.append("dec:" + a)
            if "len:" + a in ints:
                x = x & L.len_cmp("==", ints["len:" + a])
                used.append("len:" + a)
            for n in ints:
                if n.startswith("cnt:") and n.split(":", 2)[2] == a:
                    x = x & L.count_cmp(int(n.split(":", 2)[1]), "==", ints[n])
                    used.append(n)
            w = x.witness()
            if w is None:
                bad = used
                break
            if rng is not None:
                w = varied(x, w, rng)
            words[a] = w
        if bad is None:
            from .state import JOIN
            for n in ints:
                if n[:4] == "dec:" and n[4:] in JOIN and int(eval_rope(st, JOIN[n[4:]], words) or b"0") != ints[n]:
                    bad = [n]
                    break
        if bad is None:
            # disequalities between symbolic strings: vary words
            ok_ = fix_ne(st, words)
            if ok_:
                return ints, words
            return None
        s.add(z3.Or([env[n] != ints[n] for n in bad]))
    return None


BATTERY = [b"1", b"0", b"-7", b"12", b"300", b" 5", b"5 ", b" 5 ", b"5\n", b"\xc2\xa05", b"5\xc2\xa0", b"1 2", b"1  2", b"+1", b"007", b"1.5", b"true", b"TRUE", b"2020-01-01", b"text", b"Two Words", b"a b", b"A", b"aB", b"x-y", b"x.y", b"x_y", b"x:y",
           b"", b" ", b"\n", b"//", b"</a", b"/* b", b"\xc3\xa9t\xc3\xa9", b"type", b"Self", b"_", b"__", b"a1", b"1a", b"a\tb", b"a\nb", b"\"q\"", b"'q'", b"\\", b"{}", b"#x", b"@x", b"%s", b"long-word" * 12]


def varied(x, w, rng):
    """some word of the language: the shortest, a familiar text or a random one"""
    k = rng.random()
    if k < .2:
        return w
    if k < .8:
        c = [b for b in (rng.choice(BATTERY) for _ in range(4)) if x.accepts(b)]
        if c:
            return c[0]
    return x.random_word(rng, 12) or w


def fix_ne(st, words):
    for _ in range(8):
        badp = None
        for p, q in st.ne:
            if eval_rope(st, p, words) == eval_rope(st, q, words):
                badp = (p, q)
                break
        if badp is None:
            return True
        changed = False
        for side in badp:
            for a in st.rope(side):
                if isinstance(a, bytes):
                    continue
                for w in st.lang[a].words(12):
                    if w != words[a]:
                        old = words[a]
                        words[a] = w
                        if eval_rope(st, badp[0], words) != eval_rope(st, badp[1], words):
                            changed = True
                            break
                        words[a] = old
                if changed:
                    break
            if changed:
                break
        if not changed:
            return False
    return False


def eval_rope(st, r, words):
    return b"".join(p if isinstance(p, bytes) else words[p] for p in st.rope(r))


def eval_int(st, x, ints, words):
    x = lin(st.norm(x))
    t = x.c
    for n, k in x.v:
        if n in ints:
            v = ints[n]
        elif n.startswith("dec:"):
            from .state import JOIN
            v = int(eval_rope(st, JOIN[n[4:]], words)) if n[4:] in JOIN else int(words[n[4:]])
        elif n.startswith("len:"):
            v = len(words[n[4:]])
        elif n.startswith("cnt:"):
            _, ch, a = n.split(":", 2)
            v = words[a].count(bytes([int(ch)]))
        else:
            lo, hi = st.var_bounds(n)
            v = lo if lo is not None else (hi if hi is not None else 0)
            if lo is not None and hi is not None and lo <= 0 <= hi:
                v = 0
        t += k * v
    return t
