"""Symbolic state: independent per-atom regular languages + linear integer constraints.

String knowledge is kept in *decomposed normal form*: every symbolic string is a rope of
byte constants and atoms; every atom ranges over a regular language (lang.Lang), atoms are
independent.  A string test splits the path into finitely many disjoint states that are
again of this form, so emptiness of an atom's language decides feasibility exactly.
Integers linked to strings (length, number of occurrences of a byte, decimal value) are
variables len:a, cnt:<byte>:a, dec:a that are rewritten when an atom is split.
"""
from . import lang as L
from .lang import Lang
from .terms import *

STATS = {"splits": 0, "smt": 0, "smt_ms": 0, "smt_unknown": 0, "regular": 0}


MAXLEN = 1 << 60     # assumption: no string is longer (the allocator cannot supply one)


class State:
    __slots__ = ("cells", "pc", "lang", "sub", "res", "bv", "rng", "alias", "memo", "ne", "n", "log", "ghost")

    def __init__(self):
        self.cells = {}
        self.pc = ()
        self.lang = {}
        self.sub = {}
        self.res = {}
        self.bv = {}
        self.rng = {}
        self.alias = {}
        self.memo = ()
        self.ne = ()
        self.n = [0]
        self.log = ()
        self.ghost = {}

    def fork(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = self.pc
        s.lang = dict(self.lang)
        s.sub = dict(self.sub)
        s.res = dict(self.res)
        s.bv = dict(self.bv)
        s.rng = dict(self.rng)
        s.alias = dict(self.alias)
        s.memo = self.memo
        s.ne = self.ne
        s.n = self.n
        s.log = self.log
        s.ghost = dict(self.ghost)
        return s

    # --- fresh things -------------------------------------------------
    def fresh(self, p):
        self.n[0] += 1
        return "%s%d" % (p, self.n[0])

    def new_cell(self, v):
        self.n[0] += 1
        c = self.n[0]
        self.cells[c] = v
        return c

    def new_atom(self, lang, name="a"):
        a = self.fresh(name + "#")
        self.lang[a] = lang
        return a

    def atom_rope(self, lang, name="a"):
        w = lang.singleton()
        if w is not None:
            return (w,) if w else ()
        return (self.new_atom(lang, name),)

    def new_int(self, lo, hi, name="i"):
        v = self.fresh(name + "$")
        self.rng[v] = (lo, hi)
        return var(v)

    # --- normal forms ---------------------------------------------------
    def rope(self, r):
        """normalise: expand substitutions, merge constants"""
        out = []
        stack = list(reversed(r))
        while stack:
            p = stack.pop()
            if isinstance(p, bytes):
                if not p:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
            else:
                s = self.sub.get(p)
                if s is not None:
                    stack.extend(reversed(s))
                else:
                    w = self.lang[p].singleton()
                    if w is not None:
                        stack.append(w)
                    else:
                        out.append(p)
        return tuple(out)

    def norm(self, x):
        """normalise a linear term"""
        if isinstance(x, int):
            return x
        for _ in range(10000):
            ch = False
            acc = x.c
            d = {}
            for n, k in x.v:
                r = self.expand_var(n)
                if r is None:
                    d[n] = d.get(n, 0) + k
                else:
                    ch = True
                    r = lin(r)
                    acc += k * r.c
                    for m, j in r.v:
                        d[m] = d.get(m, 0) + k * j
            x = mk(acc, d)
            if not ch or isinstance(x, int):
                return x
        raise Unsupported("norm loop")

    def expand_var(self, n):
        if n in self.alias:
            return self.alias[n]
        if n[0:4] in ("len:", "dec:", "cnt:", "chr:"):
            kind = n[0:3]
            a = n[4:] if kind != "cnt" else n.split(":", 2)[2]
            if a in JOIN:
                r = self.rope(JOIN[a])
                return None if r == JOIN[a] else self.dec(r)
            if a in self.sub or self.lang[a].singleton() is not None:
                r = self.rope((a,))
                if kind == "len":
                    return self.length(r)
                if kind == "dec":
                    return self.dec(r)
                if kind == "chr":
                    if len(r) == 1 and isinstance(r[0], bytes):
                        return ord(r[0].decode("utf-8"))
                    if len(r) == 1:
                        return var("chr:" + r[0])
                    raise Unsupported("char rope")
                return self.count(r, int(n.split(":", 2)[1]))
            if kind == "len":
                f = self.lang[a].fixed_len()
                if f is not None:
                    return f
            if kind == "cnt":
                return fixed_count(self.lang[a], int(n.split(":", 2)[1]))
            if kind == "chr" and self.lang[a].subset(L.DIG):
                return add(var("dec:" + a), 48)
        return None

    def bind(self, v, t):
        """record v == t where t is a fresh variable (dec:/chr: of a fresh atom)"""
        v = self.norm(v)
        if isinstance(v, Lin):
            for n, k in v.v:
                if abs(k) == 1 and n in self.rng and n not in self.alias:
                    rest = mk(v.c, {m: j for m, j in v.v if m != n})
                    self.alias[n] = scale(sub(t, rest), k)
                    lo, hi = self.rng[n]
                    r = self.alias[n]
                    blo, bhi = self.bounds(r)
                    for x, need in ((cmp("<=", lo, r) if lo is not None else True, not (lo is not None and blo is not None and blo >= lo)),
                                    (cmp("<=", r, hi) if hi is not None else True, not (hi is not None and bhi is not None and bhi <= hi))):
                        if x is False:
                            return False
                        if x is not True and need:
                            self.pc = self.pc + (x,)
                    return self.link_pc(n)
        self.pc = self.pc + (cmp("==", v, t),)
        return self.feasible()

    def link_pc(self, n):
        if any(any(m == n for m, _ in c.l.v) for c in self.pc):
            return self.feasible()
        return True

    def length(self, r):
        r = self.rope(r)
        t = 0
        for p in r:
            t = add(t, len(p) if isinstance(p, bytes) else var("len:" + p))
        return t

    def count(self, r, ch):
        t = 0
        for p in self.rope(r):
            if isinstance(p, bytes):
                t = add(t, p.count(bytes([ch])))
            else:
                if (self.lang[p] & L.contains(bytes([ch]))).empty():
                    continue
                t = add(t, var("cnt:%d:%s" % (ch, p)))
        return t

    def dec(self, r):
        """value of a digit rope"""
        r = self.rope(r)
        t = 0
        scale_ = 1
        for p in reversed(r):
            if scale_ is None:
                return var("dec:" + joined(r))      # one value for the whole text
            if isinstance(p, bytes):
                t = add(t, scale_ * int(p))
                scale_ *= 10 ** len(p)
            else:
                t = add(t, scale(var("dec:" + p), scale_))
                f = self.lang[p].fixed_len()
                scale_ = None if f is None else scale_ * 10 ** f
        return t

    def join_lang(self, a):
        if a not in JOIN:
            return self.lang[a]
        x = L.EPS
        for p in JOIN[a]:
            x = x + (L.lit(p) if isinstance(p, bytes) else self.lang[p])
        return x

    def const_str(self, r):
        r = self.rope(r)
        if not r:
            return b""
        if len(r) == 1 and isinstance(r[0], bytes):
            return r[0]
        return None

    # --- intervals ------------------------------------------------------
    def bounds(self, x):
        x = self.norm(x)
        if isinstance(x, int):
            return x, x
        lo, hi = x.c, x.c
        for n, k in x.v:
            a, b = self.var_bounds(n)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def var_bounds(self, n):
        r = self.rng.get(n)
        if n.startswith("len:"):
            lr = self.lang[n[4:]].len_range() or (0, None)
            if lr[1] is None:
                lr = (lr[0], MAXLEN)
            if r:
                return max(lr[0], r[0] or 0), lr[1]
            return lr
        if n.startswith("dec:"):
            b = dec_bounds(self.join_lang(n[4:]))
            return b
        if n.startswith("cnt:"):
            return 0, MAXLEN
        if n.startswith("chr:"):
            return 0, 0x10FFFF
        return r if r else (None, None)

    # --- branching -------------------------------------------------------
    def branch(self, b):
        """list of (state, bool); feasible sides only"""
        if b is True or b is False:
            return [(self, b)]
        if isinstance(b, And):
            out = []
            todo = [self]
            for x in b.xs:
                nxt = []
                for s in todo:
                    for s2, r in s.branch(x):
                        (nxt if r else out).append(s2)
                todo = nxt
            return [(s, False) for s in out] + [(s, True) for s in todo]
        if isinstance(b, Or):
            return [(s, not r) for s, r in self.branch(neg(b))]
        if isinstance(b, BV):
            if b.n in self.bv:
                return [(self, self.bv[b.n] != b.neg)]
            s = self.fork()
            s.bv[b.n] = True
            t = self.fork()
            t.bv[b.n] = False
            return [(s, not b.neg), (t, b.neg)]
        if isinstance(b, InL):
            return [(s, r != b.neg) for s, r in self.split(b.rope, b.lang)]
        if isinstance(b, SEq):
            return [(s, r != b.neg) for s, r in self.str_eq(b.a, b.b)]
        assert isinstance(b, Cmp), b
        return self.branch_cmp(b)

    def assume(self, b):
        return [s for s, r in self.branch(b) if r]

    def branch_cmp(self, b):
        l = self.norm(b.l)
        op = b.op
        if isinstance(l, int):
            return [(self, {"==": l == 0, "!=": l != 0, "<=": l <= 0}[op])]
        lo, hi = self.bounds(l)
        if op == "<=":
            if hi is not None and hi <= 0:
                return [(self, True)]
            if lo is not None and lo > 0:
                return [(self, False)]
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return [(self, op == "!=")]
        kinds = set(n[:4] if n[:4] in ("len:", "dec:", "cnt:", "chr:") else "x" for n, _ in l.v)
        if len(kinds) == 1:
            kd = kinds.pop()
            coefs = set(k for _, k in l.v)
            if kd in ("len:", "cnt:") and len(coefs) == 1 and abs(list(coefs)[0]) == 1:
                k = list(coefs)[0]
                atoms = tuple((n[4:] if kd == "len:" else n.split(":", 2)[2]) for n, _ in l.v)
                # k*S + c op 0
                rop, c = op, -l.c
                if k == -1:
                    c = l.c
                    rop = {"<=": ">=", "==": "==", "!=": "!="}[op]
                if kd == "len:":
                    lg = L.len_cmp(rop, c)
                else:
                    chs = set(n.split(":", 2)[1] for n, _ in l.v)
                    if len(chs) > 1:
                        raise Unsupported("mixed counts")
                    lg = L.count_cmp(int(chs.pop()), rop, c)
                return self.split(atoms, lg)
            if kd == "chr:" and len(l.v) == 1 and abs(l.v[0][1]) == 1:
                n, k = l.v[0]
                M = 0x10FFFF
                if op == "<=":
                    iv = ((0, min(M, -l.c)),) if k == 1 else ((max(0, l.c), M),)
                    iv = tuple(x for x in iv if x[0] <= x[1])
                else:
                    c = -l.c * k
                    iv = ((c, c),) if 0 <= c <= M else ()
                lg = L.charset(iv) if iv else L.EMPTY
                if op == "!=":
                    lg = L.UCHAR - lg
                return self.split((n[4:],), lg)
            if kd == "dec:" and len(l.v) == 1:
                n, k = l.v[0]
                a = n[4:]
                # k*x + c op 0
                if k < 0:
                    k, c = -k, l.c      # x >= c/k for <=
                    if op == "<=":
                        rop, v = ">=", -((-c) // k)
                    else:
                        rop, v = op, (c // k if c % k == 0 else None)
                else:
                    c = -l.c            # x <= c/k
                    if op == "<=":
                        rop, v = "<=", c // k
                    else:
                        rop, v = op, (c // k if c % k == 0 else None)
                if v is None:
                    return [(self, op == "!=")]
                lg = L.dec_cmp(rop, v)
                return self.split(JOIN.get(a) or (a,), lg)
        # single plain variable: interval update
        out = []
        for val in (True, False):
            bb = Cmp(op, l) if val else neg(Cmp(op, l))
            s = self.fork()
            if s.add_pc(bb):
                out.append((s, val))
        return out

    def add_pc(self, b):
        """record an integer constraint; False if infeasible"""
        l = b.l
        if len(l.v) == 1 and l.v[0][0] in self.rng and abs(l.v[0][1]) == 1:
            n, k = l.v[0]
            lo, hi = self.rng[n]
            if b.op == "<=":
                if k == 1:
                    v = -l.c
                    hi = v if hi is None else min(hi, v)
                else:
                    v = l.c
                    lo = v if lo is None else max(lo, v)
            elif b.op == "==":
                v = -l.c * k
                if (lo is not None and v < lo) or (hi is not None and v > hi):
                    return False
                lo = hi = v
            else:
                v = -l.c * k
                if lo == v:
                    lo += 1
                elif hi == v:
                    hi -= 1
                else:
                    self.pc = self.pc + (b,)
                    self.rng[n] = (lo, hi)
                    return self.feasible_quick(n)
            if lo is not None and hi is not None and lo > hi:
                return False
            self.rng[n] = (lo, hi)
            if lo is not None and lo == hi:
                self.alias[n] = lo
            return self.feasible_quick(n)
        if b.op == "==":
            for n, k in l.v:
                if abs(k) == 1 and n in self.rng:
                    rest = mk(l.c, {m: j for m, j in l.v if m != n})
                    rest = scale(rest, -k)
                    lo, hi = self.rng[n]
                    self.alias[n] = rest
                    for x in ((cmp("<=", lo, rest) if lo is not None else True), (cmp("<=", rest, hi) if hi is not None else True)):
                        if x is False:
                            return False
                        if x is not True:
                            self.pc = self.pc + (x,)
                    return self.feasible()
        self.pc = self.pc + (b,)
        return self.feasible()

    def feasible_quick(self, n):
        if not self.pc:
            return True
        if any(any(m == n for m, _ in c.l.v) for c in self.pc):
            return self.feasible()
        return True

    def feasible(self):
        from . import solve
        return solve.check(self) != "unsat"

    # --- strings ----------------------------------------------------------
    def refine(self, a, lg):
        n = self.lang[a] & lg
        if n.empty():
            return False
        self.lang[a] = n
        return True

    def split(self, rope, lg):
        """split on rope in lg"""
        STATS["splits"] += 1
        r = self.rope(rope)
        if not r:
            return [(self, lg.acc[0])]
        # quick decisions for a single atom
        if len(r) == 1:
            if isinstance(r[0], bytes):
                return [(self, lg.accepts(r[0]))]
            A = self.lang[r[0]]
            p = A & lg
            if p.empty():
                return [(self, False)]
            m = A - lg
            if m.empty():
                return [(self, True)]
            s, t = self.fork(), self.fork()
            s.lang[r[0]] = p
            t.lang[r[0]] = m
            return [(x, v) for x, v in ((s, True), (t, False)) if x.link_ok(r[0])]
        out = []
        live = lg.live()

        def go(st, i, q):
            if i == len(r):
                out.append((st, lg.acc[q]))
                return
            p = r[i]
            if isinstance(p, bytes):
                go(st, i + 1, lg.run(q, p))
                return
            A = st.lang[p]
            if i == len(r) - 1:
                groups = [([x for x in range(len(lg.acc)) if lg.acc[x]], True), ([x for x in range(len(lg.acc)) if not lg.acc[x]], False)]
                for ms, v in groups:
                    n = A & lg.upto_set(q, ms)
                    if not n.empty():
                        s2 = st.fork()
                        s2.lang[p] = n
                        if s2.link_ok(p):
                            out.append((s2, v))
                return
            for m in _reach(A, lg, q):
                n = A & lg.upto(q, m)
                if not n.empty():
                    s2 = st.fork()
                    s2.lang[p] = n
                    if s2.link_ok(p):
                        go(s2, i + 1, m)
        go(self, 0, 0)
        vals = set(v for _, v in out)
        if len(vals) == 1:
            return [(self, vals.pop())]
        return out

    def link_ok(self, a):
        """after refining atom a: integer constraints mentioning it still feasible?"""
        names = ("dec:" + a, "len:" + a, "chr:" + a)
        for c in self.pc:
            for n, _ in c.l.v:
                if n in names or (n[4:] in JOIN and n[:4] == "dec:"):
                    return self.feasible()
        return True

    def cut(self, rope, pre, post):
        """all ways rope = u v with u in pre, v in post (disjoint cases); strings that admit
        no such cut are dropped (callers split on membership first)"""
        r = self.rope(rope)
        out = []

        def finish(st, j, q, u, v, k):
            """run post over remaining parts"""
            if j == len(r):
                if post.acc[q]:
                    out.append((st, u, v))
                return
            p = r[j]
            if isinstance(p, bytes):
                finish(st, j + 1, post.run(q, p), u, v + (p,), k)
                return
            A = st.lang[p]
            if j == len(r) - 1:
                n = A & post.upto_set(q, [x for x in range(len(post.acc)) if post.acc[x]])
                if not n.empty():
                    s2 = st.fork()
                    s2.lang[p] = n
                    if s2.link_ok(p):
                        out.append((s2, u, v + (p,)))
                return
            for m in _reach(A, post, q):
                if m not in post.live():
                    continue
                n = A & post.upto(q, m)
                if not n.empty():
                    s2 = st.fork()
                    s2.lang[p] = n
                    if s2.link_ok(p):
                        finish(s2, j + 1, m, u, v + (p,), k)

        def go(st, i, q, u):
            if i == len(r):
                if pre.acc[q] and post.acc[0]:
                    out.append((st, u, ()))
                return
            p = r[i]
            if isinstance(p, bytes):
                qq = q
                for o in range(len(p)):
                    if pre.acc[qq]:
                        rest = p[o:]
                        finish(st, i + 1, post.run(0, rest), u + ((p[:o],) if o else ()), (rest,), i)
                    qq = pre.step(qq, p[o])
                go(st, i + 1, qq, u + (p,))
                return
            A = st.lang[p]
            acc = [x for x in range(len(pre.acc)) if pre.acc[x]]
            # cut strictly before some byte of this atom
            alive = A.live()
            for m in range(len(A.acc)):
                if m not in alive:
                    continue
                U = A.upto(0, m) & pre.upto_set(q, acc)
                if U.empty():
                    continue
                V = A.from_state(m) - L.EPS
                if V.empty():
                    continue
                s2 = st.fork()
                ur = s2.atom_rope(U, "u")
                vr = s2.atom_rope(V, "v")
                s2.sub[p] = ur + vr
                if not s2.link_ok2(p):
                    continue
                # run post over V then the rest
                if i == len(r) - 1 or not vr or isinstance(vr[0], bytes):
                    if not vr or isinstance(vr[0], bytes):
                        finish(s2, i + 1, post.run(0, vr[0] if vr else b""), u + ur, vr, i)
                    else:
                        n = V & post
                        if not n.empty():
                            s2.lang[vr[0]] = n
                            out.append((s2, u + ur, vr))
                else:
                    for mm in _reach(V, post, 0):
                        if mm not in post.live():
                            continue
                        n = V & post.upto(0, mm)
                        if not n.empty():
                            s3 = s2.fork()
                            s3.lang[vr[0]] = n
                            finish(s3, i + 1, mm, u + ur, vr, i)
            # cut later
            for m in _reach(A, pre, q):
                if m not in pre.live():
                    continue
                n = A & pre.upto(q, m)
                if not n.empty():
                    s2 = st.fork()
                    s2.lang[p] = n
                    if s2.link_ok(p):
                        go(s2, i + 1, m, u + (p,))
        go(self, 0, 0, ())
        return out

    def link_ok2(self, a):
        names = ("dec:" + a, "len:" + a, "chr:" + a)
        for c in self.pc:
            for n, _ in c.l.v:
                if n in names or (n[4:] in JOIN and n[:4] == "dec:"):
                    return self.feasible()
        return True

    def str_eq(self, a, b):
        a, b = self.rope(a), self.rope(b)
        if a == b:
            return [(self, True)]
        ca, cb = self.const_str(a), self.const_str(b)
        if ca is not None and cb is not None:
            return [(self, ca == cb)]
        if cb is not None:
            return self.split(a, L.lit(cb))
        if ca is not None:
            return self.split(b, L.lit(ca))
        # strip common prefix / suffix
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if not a or not b:
            return self.split(a or b, L.EPS)
        if len(a) == 1 and len(b) == 1 and not isinstance(a[0], bytes) and not isinstance(b[0], bytes):
            x, y = a[0], b[0]
            common = self.lang[x] & self.lang[y]
            if common.empty():
                return [(self, False)]
            for p, q in self.ne:
                if (self.rope(p), self.rope(q)) in ((a, b), (b, a)):
                    return [(self, False)]
            s = self.fork()
            s.lang[y] = common
            s.sub[x] = (y,)
            t = self.fork()
            t.ne = t.ne + ((a, b),)
            out = [(t, False)]
            if s.ne_ok():
                out.insert(0, (s, True))
            return out
        # general: languages of both sides disjoint?
        la, lb = self.rope_lang(a), self.rope_lang(b)
        if la.disjoint(lb):
            return [(self, False)]
        # align on constants: try a cut of the longer pure atom by the other side's structure
        for x, y in ((a, b), (b, a)):
            if len(x) == 1 and not isinstance(x[0], bytes) and x[0] not in y:
                # x := y if language constraint allows
                out = []
                for s, r in self.split(y, self.lang[x[0]]):
                    if r:
                        s1 = s.fork()
                        s1.sub[x[0]] = y
                        if s1.ne_ok():
                            out.append((s1, True))
                        s2 = s.fork()
                        s2.ne = s2.ne + ((a, b),)
                        out.append((s2, False))
                    else:
                        out.append((s, False))
                return out
        # constants at an end
        if isinstance(a[0], bytes) and isinstance(b[0], bytes):
            n = min(len(a[0]), len(b[0]))
            if a[0][:n] != b[0][:n]:
                return [(self, False)]
            return self.str_eq((a[0][n:],) + a[1:], (b[0][n:],) + b[1:])
        if isinstance(a[-1], bytes) and isinstance(b[-1], bytes):
            n = min(len(a[-1]), len(b[-1]))
            if a[-1][-n:] != b[-1][-n:]:
                return [(self, False)]
            return self.str_eq(a[:-1] + (a[-1][:-n],), b[:-1] + (b[-1][:-n],))
        s, t = self.fork(), self.fork()
        s.ghost["streq"] = s.ghost.get("streq", ()) + ((a, b),)
        t.ne = t.ne + ((a, b),)
        return [(s, True), (t, False)]

    def ne_ok(self):
        for p, q in self.ne:
            if self.rope(p) == self.rope(q):
                return False
        return True

    def rope_lang(self, r):
        x = L.EPS
        for p in self.rope(r):
            x = x + (L.lit(p) if isinstance(p, bytes) else self.lang[p])
        return x


def _reach(A, lg, q):
    """states of lg reachable from q by words of A"""
    seen = {(0, q)}
    st = [(0, q)]
    la = A.live()
    res = []
    if 0 in la and A.acc[0]:
        res.append(q)
    while st:
        x, y = st.pop()
        for _, (dx, dy) in L._merge([A.trans[x], lg.trans[y]]):
            if dx in la and (dx, dy) not in seen:
                seen.add((dx, dy))
                st.append((dx, dy))
                if A.acc[dx] and dy not in res:
                    res.append(dy)
    return res


_FC = {}


def fixed_count(lg, ch):
    k = (lg, ch)
    if k not in _FC:
        w = lg.witness()
        n = w.count(bytes([ch]))
        _FC[k] = n if lg.subset(L.count_cmp(ch, "==", n)) else None
    return _FC[k]


_DB = {}


JOIN = {}


def joined(r):
    """name for the value of a multi-piece digit text"""
    k = "j(" + "|".join(p if isinstance(p, str) else repr(p) for p in r) + ")"
    JOIN[k] = r
    return k


def dec_bounds(lg):
    r = _DB.get(lg)
    if r is None:
        lg2 = lg & (L.DIG + L.DIG.star())
        if lg2.empty():
            return (0, 0)
        big = 10 ** 25

        def search(f):
            lo, hi = 0, big
            while lo < hi:
                mid = (lo + hi) // 2
                if f(mid):
                    hi = mid
                else:
                    lo = mid + 1
            return lo
        mn = search(lambda m: not (lg2 & L.dec_cmp("<=", m)).empty())
        if not (lg2 & L.dec_cmp(">", big)).empty():
            mx = None
        else:
            mx = search(lambda m: (lg2 & L.dec_cmp(">", m)).empty())
        r = (mn, mx)
        _DB[lg] = r
    return r
