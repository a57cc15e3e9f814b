"""Regular languages over bytes: canonical minimal complete DFAs with interval transitions.

This is one of the two back ends that discharge obligations (the other is an SMT solver,
see solve.py).  Every Lang is minimal and canonically numbered, so structural equality is
language equality.
"""
from functools import lru_cache

NICE = b"0123456789ZTPYMDHS-+:.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLNOQRUVWX _/\"'<>&"


class Lang:
    __slots__ = ("trans", "acc", "_h", "_cache")

    def __init__(self, trans, acc):
        self.trans = trans
        self.acc = acc
        self._h = hash((trans, acc))
        self._cache = {}

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lang) and self._h == o._h and self.trans == o.trans and self.acc == o.acc)

    def __repr__(self):
        w = self.witness()
        return "Lang(%d st, eg %r)" % (len(self.acc), w)

    # --- basics -------------------------------------------------------
    def step(self, q, b):
        t = self.trans[q]
        r = t[0][1]
        for s, d in t:
            if s > b:
                break
            r = d
        return r

    def run(self, q, bs):
        for b in bs:
            q = self.step(q, b)
        return q

    def accepts(self, bs):
        return self.acc[self.run(0, bs)]

    def empty(self):
        return len(self.acc) == 1 and not self.acc[0]

    def full(self):
        return len(self.acc) == 1 and self.acc[0]

    def live(self):
        """states from which acceptance is reachable"""
        r = self._cache.get("live")
        if r is None:
            rev = {}
            for q, t in enumerate(self.trans):
                for _, d in t:
                    rev.setdefault(d, set()).add(q)
            r = set(q for q, a in enumerate(self.acc) if a)
            st = list(r)
            while st:
                for p in rev.get(st.pop(), ()):
                    if p not in r:
                        r.add(p)
                        st.append(p)
            self._cache["live"] = r
        return r

    def from_state(self, q):
        k = ("from", q)
        if k not in self._cache:
            self._cache[k] = build(q, lambda s: self.trans[s], lambda s: self.acc[s])
        return self._cache[k]

    def upto(self, q, m):
        """words leading from q to m"""
        k = ("upto", q, m)
        if k not in self._cache:
            self._cache[k] = build(q, lambda s: self.trans[s], lambda s: s == m)
        return self._cache[k]

    def upto_set(self, q, ms):
        ms = frozenset(ms)
        k = ("uptos", q, ms)
        if k not in self._cache:
            self._cache[k] = build(q, lambda s: self.trans[s], lambda s: s in ms)
        return self._cache[k]

    def __and__(self, o):
        return product(self, o, "and")

    def __or__(self, o):
        return product(self, o, "or")

    def __sub__(self, o):
        return product(self, o, "sub")

    def __invert__(self):
        k = "inv"
        if k not in self._cache:
            self._cache[k] = Lang(self.trans, tuple(not a for a in self.acc))
        return self._cache[k]

    def subset(self, o):
        return product(self, o, "sub").empty()

    def disjoint(self, o):
        return product(self, o, "and").empty()

    def __add__(self, o):
        return concat(self, o)

    def star(self):
        return star(self)

    # --- measures -----------------------------------------------------
    def witness(self):
        """a shortest accepted word (bytes), preferring readable bytes; None if empty"""
        if "wit" in self._cache:
            return self._cache["wit"]
        live = self.live()
        w = None
        if 0 in live:
            # BFS by length then rank
            prev = {0: None}
            frontier = [0]
            goal = 0 if self.acc[0] else None
            while goal is None:
                nxt = []
                for q in frontier:
                    for b, d in self.nice_edges(q):
                        if d in live and d not in prev:
                            prev[d] = (q, b)
                            nxt.append(d)
                            if self.acc[d] and goal is None:
                                goal = d
                frontier = nxt
            out = []
            q = goal
            while prev[q] is not None:
                p, b = prev[q]
                out.append(b)
                q = p
            w = bytes(reversed(out))
        self._cache["wit"] = w
        return w

    def nice_edges(self, q):
        t = self.trans[q]
        res = []
        for i, (s, d) in enumerate(t):
            e = t[i + 1][0] - 1 if i + 1 < len(t) else 255
            best = None
            for n in NICE:
                if s <= n <= e:
                    best = n
                    break
            if best is None:
                best = s if s > 31 or e < 32 else 32
            res.append((best, d))
        rank = {b: i for i, b in enumerate(NICE)}
        res.sort(key=lambda x: rank.get(x[0], 1000 + x[0]))
        return res

    def words(self, n, maxlen=400, seed=0):
        """up to n distinct accepted words: shortest-first over transitions, plus longer ones"""
        out = []
        live = self.live()
        if 0 not in live:
            return out
        from collections import deque
        dq = deque([(0, b"")])
        steps = 0
        while dq and len(out) < n and steps < 20000:
            q, w = dq.popleft()
            steps += 1
            if self.acc[q]:
                out.append(w)
            if len(w) < maxlen:
                t = self.trans[q]
                for i, (s, d) in enumerate(t):
                    if d not in live:
                        continue
                    e = t[i + 1][0] - 1 if i + 1 < len(t) else 255
                    for b in sorted(set((s, e, (s + e) // 2))):
                        if len(dq) < 50000:
                            dq.append((d, w + bytes([b])))
        return out

    def random_word(self, rng, maxlen=40):
        live = self.live()
        if 0 not in live:
            return None
        dist = self.dist()
        q = 0
        w = bytearray()
        while True:
            if self.acc[q] and (rng.random() < 0.25 or len(w) >= maxlen):
                return bytes(w)
            t = self.trans[q]
            opts = []
            for i, (s, d) in enumerate(t):
                if d in live:
                    e = t[i + 1][0] - 1 if i + 1 < len(t) else 255
                    if len(w) >= maxlen and dist[d] >= dist[q]:
                        continue
                    opts.append((s, e, d))
            if not opts:
                return bytes(w)
            s, e, d = rng.choice(opts)
            if rng.random() < 0.7:
                nice = [b for b in NICE if s <= b <= e]
                b = rng.choice(nice) if nice else rng.randint(s, e)
            else:
                b = rng.randint(s, e)
            w.append(b)
            q = d

    def dist(self):
        r = self._cache.get("dist")
        if r is None:
            r = {q: 0 for q, a in enumerate(self.acc) if a}
            ch = True
            while ch:
                ch = False
                for q, t in enumerate(self.trans):
                    for _, d in t:
                        if d in r and r.get(q, 10 ** 9) > r[d] + 1:
                            r[q] = r[d] + 1
                            ch = True
            self._cache["dist"] = r
        return r

    def len_range(self):
        """(min,max) length; max None if infinite; None if empty"""
        if "lr" in self._cache:
            return self._cache["lr"]
        live = self.live()
        if 0 not in live:
            r = None
        else:
            mn = self.dist()[0]
            color = {}

            def longest(q):
                if color.get(q) == "g":
                    raise OverflowError
                if q in color:
                    return color[q]
                color[q] = "g"
                best = 0 if self.acc[q] else None
                for _, d in self.trans[q]:
                    if d in live:
                        x = longest(d)
                        if x is not None and (best is None or x + 1 > best):
                            best = x + 1
                color[q] = best
                return best
            try:
                mx = longest(0)
            except OverflowError:
                mx = None
            r = (mn, mx)
        self._cache["lr"] = r
        return r

    def fixed_len(self):
        r = self.len_range()
        return r[0] if r and r[0] == r[1] else None

    def singleton(self):
        """the only word, or None"""
        if "sing" in self._cache:
            return self._cache["sing"]
        w = None
        live = self.live()
        q = 0
        out = []
        ok = 0 in live
        seen = set()
        while ok:
            if q in seen:
                ok = False
                break
            seen.add(q)
            t = self.trans[q]
            nx = []
            for i, (s, d) in enumerate(t):
                if d in live:
                    e = t[i + 1][0] - 1 if i + 1 < len(t) else 255
                    nx.append((s, e, d))
            if self.acc[q]:
                if nx:
                    ok = False
                else:
                    w = bytes(out)
                break
            if len(nx) != 1 or nx[0][0] != nx[0][1]:
                ok = False
                break
            out.append(nx[0][0])
            q = nx[0][2]
        self._cache["sing"] = w
        return w


def _norm(t):
    out = []
    for s, d in t:
        if out and out[-1][1] == d:
            continue
        out.append((s, d))
    return tuple(out)


def build(start, succ, acc):
    """explore a DFA given by functions, then minimise and canonicalise"""
    idx = {start: 0}
    order = [start]
    trans = []
    accs = []
    i = 0
    while i < len(order):
        s = order[i]
        i += 1
        accs.append(bool(acc(s)))
        row = []
        for b, d in succ(s):
            if d not in idx:
                idx[d] = len(order)
                order.append(d)
            row.append((b, idx[d]))
        trans.append(_norm(row))
        if len(order) > 20000:
            raise RuntimeError("DFA too large")
    return minimise(trans, accs)


_INTERN = {}


def intern(l):
    return _INTERN.setdefault(l, l)


def refine(trans, acc):
    """coarsest partition of the states (Hopcroft): class per state"""
    n = len(acc)
    cuts = sorted(set(s for t in trans for s, _ in t))
    cols = {}
    # bytes with equal columns are one symbol
    delta = []
    for t in trans:
        row, j = [], 0
        for c in cuts:
            while j + 1 < len(t) and t[j + 1][0] <= c:
                j += 1
            row.append(t[j][1])
        delta.append(row)
    syms = list(set(zip(*delta)))
    inv = []
    for col in syms:
        iv = [[] for _ in range(n)]
        for q, d in enumerate(col):
            iv[d].append(q)
        inv.append(iv)
    cls = [1 if a else 0 for a in acc]
    if len(set(cls)) == 1:
        return [0] * n
    blocks = [{q for q in range(n) if not acc[q]}, {q for q in range(n) if acc[q]}]
    small = 0 if len(blocks[0]) <= len(blocks[1]) else 1
    work = [(small, a) for a in range(len(syms))]
    inw = set(work)
    while work:
        x = work.pop()
        inw.discard(x)
        b, a = x
        iv = inv[a]
        hit = {}
        for d in blocks[b]:
            for q in iv[d]:
                hit.setdefault(cls[q], []).append(q)
        for c, qs in hit.items():
            if len(qs) == len(blocks[c]):
                continue
            new = set(qs)
            blocks[c] -= new
            k = len(blocks)
            blocks.append(new)
            for q in new:
                cls[q] = k
            for s in range(len(syms)):
                if (c, s) in inw:
                    y = (k, s)
                else:
                    y = (c, s) if len(blocks[c]) <= len(new) else (k, s)
                if y not in inw:
                    inw.add(y)
                    work.append(y)
    return cls


def minimise(trans, acc):
    n = len(acc)
    big = n > 120
    cls = refine(trans, acc) if big else [1 if a else 0 for a in acc]
    k = len(set(cls))
    while not big:
        sig = {}
        new = [0] * n
        for q in range(n):
            key = (cls[q], _norm([(s, cls[d]) for s, d in trans[q]]))
            if key not in sig:
                sig[key] = len(sig)
            new[q] = sig[key]
        if len(sig) == k:
            cls = new
            break
        k = len(sig)
        cls = new
    rep = {}
    for q in range(n):
        rep.setdefault(cls[q], q)
    order = [cls[0]]
    idx = {cls[0]: 0}
    rows = []
    ac = []
    i = 0
    while i < len(order):
        c = order[i]
        i += 1
        q = rep[c]
        row = []
        for s, d in trans[q]:
            cd = cls[d]
            if cd not in idx:
                idx[cd] = len(order)
                order.append(cd)
            row.append((s, idx[cd]))
        rows.append(_norm(row))
        ac.append(acc[q])
    return intern(Lang(tuple(rows), tuple(bool(a) for a in ac)))


def _merge(rows):
    """merge several interval rows into [(start, (d0,d1,..))]"""
    cuts = sorted(set(s for r in rows for s, _ in r))
    out = []
    ptr = [0] * len(rows)
    for c in cuts:
        ds = []
        for i, r in enumerate(rows):
            while ptr[i] + 1 < len(r) and r[ptr[i] + 1][0] <= c:
                ptr[i] += 1
            ds.append(r[ptr[i]][1])
        out.append((c, tuple(ds)))
    return out


@lru_cache(maxsize=200000)
def product(a, b, op):
    if op == "and":
        if a is b or b.full():
            return a
        if a.full():
            return b
        f = lambda x, y: x and y
    elif op == "or":
        f = lambda x, y: x or y
    else:
        f = lambda x, y: x and not y
    la, lb = a.live(), b.live()

    def norm(p):
        x, y = p
        if op == "and" and (x not in la or y not in lb):
            return (-1, -1)
        if op == "sub" and x not in la:
            return (-1, -1)
        return p

    def succ(p):
        if p[0] == -1:
            return [(0, p)]
        return [(s, norm(d)) for s, d in _merge([a.trans[p[0]], b.trans[p[1]]])]

    return build(norm((0, 0)), succ, lambda p: False if p[0] == -1 else f(a.acc[p[0]], b.acc[p[1]]))


@lru_cache(maxsize=50000)
def concat(a, b):
    # state: (qa or -1, frozenset of b states)
    lb = b.live()
    la = a.live()

    def mk(qa, bs):
        if qa != -1 and a.acc[qa]:
            bs = bs | {0}
        if qa != -1 and qa not in la:
            qa = -1
        return (qa, frozenset(x for x in bs if x in lb))

    def succ(p):
        qa, bs = p
        bl = sorted(bs)
        rows = ([a.trans[qa]] if qa != -1 else []) + [b.trans[x] for x in bl]
        if not rows:
            return [(0, p)]
        out = []
        for s, ds in _merge(rows):
            if qa != -1:
                out.append((s, mk(ds[0], frozenset(ds[1:]))))
            else:
                out.append((s, mk(-1, frozenset(ds))))
        return out

    return build(mk(0, frozenset()), succ, lambda p: any(b.acc[x] for x in p[1]))


@lru_cache(maxsize=5000)
def star(a):
    la = a.live()

    # subset of a-states, with restart; initial special state accepts
    def norm(s):
        s = frozenset(x for x in s if x in la)
        if any(a.acc[x] for x in s):
            s = s | {0}
        return s

    def succ(p):
        s = p[1]
        bl = sorted(s)
        if not bl:
            return [(0, (False, frozenset()))]
        return [(c, (False, norm(frozenset(ds)))) for c, ds in _merge([a.trans[x] for x in bl])]

    return build((True, norm(frozenset([0]))), succ, lambda p: p[0] or any(a.acc[x] for x in p[1]))


def byteset(bs):
    """one byte from the set"""
    bs = set(bs)
    row = []
    cur = None
    for b in range(256):
        d = 1 if b in bs else 2
        if d != cur:
            row.append((b, d))
            cur = d
    return minimise([tuple(row), ((0, 2),), ((0, 2),)], [False, True, False])


def lit(b):
    if isinstance(b, str):
        b = b.encode("utf-8")
    return _lit(bytes(b))


@lru_cache(maxsize=20000)
def _lit(b):
    n = len(b)
    trans = []
    dead = n + 1
    for i, c in enumerate(b):
        row = []
        if c > 0:
            row.append((0, dead))
        row.append((c, i + 1))
        if c < 255:
            row.append((c + 1, dead))
        trans.append(tuple(row))
    trans.append(((0, dead),))
    trans.append(((0, dead),))
    return minimise(trans, [False] * n + [True, False])


EMPTY = minimise([((0, 0),)], [False])
ALL = minimise([((0, 0),)], [True])
EPS = lit(b"")
ANYB = byteset(range(256))


def union(ls):
    ls = list(ls)
    if not ls:
        return EMPTY
    while len(ls) > 1:
        ls = [ls[i] | ls[i + 1] if i + 1 < len(ls) else ls[i] for i in range(0, len(ls), 2)]
    return ls[0]


def power(l, n):
    r = EPS
    for _ in range(n):
        r = r + l
    return r


def opt(l):
    return l | EPS


def seq(*ls):
    r = EPS
    for x in ls:
        r = r + (lit(x) if isinstance(x, (str, bytes)) else x)
    return r


# --- regex syntax -----------------------------------------------------
@lru_cache(maxsize=5000)
def rx(p):
    """small regex dialect over bytes: literals, [..], ., |, *, +, ?, {m}, {m,}, {m,n}, (..), \\d"""
    pos = 0

    def peek():
        return p[pos] if pos < len(p) else ""

    def alt():
        nonlocal pos
        r = cat()
        while peek() == "|":
            pos += 1
            r = r | cat()
        return r

    def cat():
        r = EPS
        while peek() and peek() not in "|)":
            r = r + rep()
        return r

    def rep():
        nonlocal pos
        a = atom()
        while True:
            c = peek()
            if c == "*":
                pos += 1
                a = a.star()
            elif c == "+":
                pos += 1
                a = a + a.star()
            elif c == "?":
                pos += 1
                a = opt(a)
            elif c == "{":
                e = p.index("}", pos)
                body = p[pos + 1:e]
                pos = e + 1
                if "," in body:
                    m, n = body.split(",")
                    m = int(m)
                    if n == "":
                        a = power(a, m) + a.star()
                    else:
                        r = power(a, m)
                        for _ in range(int(n) - m):
                            pass
                        o = EPS
                        for _ in range(int(n) - m):
                            o = opt(a + o)
                        a = r + o
                else:
                    a = power(a, int(body))
            else:
                return a

    def esc(c):
        if c == "d":
            return set(range(48, 58))
        if c == "n":
            return {10}
        if c == "r":
            return {13}
        if c == "t":
            return {9}
        if c == "x":
            return None
        return {ord(c)}

    def atom():
        nonlocal pos
        c = p[pos]
        pos += 1
        if c == "(":
            r = alt()
            assert peek() == ")", p
            pos += 1
            return r
        if c == ".":
            return ANYB
        if c == "\\":
            c = p[pos]
            pos += 1
            return byteset(esc(c))
        if c == "[":
            neg = False
            if peek() == "^":
                neg = True
                pos += 1
            s = set()
            while peek() != "]":
                c = p[pos]
                pos += 1
                if c == "\\":
                    c = p[pos]
                    pos += 1
                    es = esc(c)
                    if len(es) > 1:
                        s |= es
                        continue
                    c = chr(list(es)[0])
                if peek() == "-" and p[pos + 1] != "]":
                    hi = p[pos + 1]
                    pos += 2
                    s |= set(range(ord(c), ord(hi) + 1))
                else:
                    s.add(ord(c))
            pos += 1
            if neg:
                s = set(range(256)) - s
            return byteset(s)
        return lit(c)
    r = alt()
    assert pos == len(p), (p, pos)
    return r


def _utf8char():
    c = byteset(range(0x80, 0xC0))
    r = byteset(range(0, 0x80))
    r = r | (byteset(range(0xC2, 0xE0)) + c)
    r = r | (byteset([0xE0]) + byteset(range(0xA0, 0xC0)) + c)
    r = r | (byteset(list(range(0xE1, 0xED)) + [0xEE, 0xEF]) + c + c)
    r = r | (byteset([0xED]) + byteset(range(0x80, 0xA0)) + c)
    r = r | (byteset([0xF0]) + byteset(range(0x90, 0xC0)) + c + c)
    r = r | (byteset([0xF1, 0xF2, 0xF3]) + c + c + c)
    r = r | (byteset([0xF4]) + byteset(range(0x80, 0x90)) + c + c)
    return r


UCHAR = _utf8char()
UTF8 = UCHAR.star()
CONT = byteset(range(0x80, 0xC0))
DIG = byteset(range(48, 58))


@lru_cache(maxsize=2000)
def charset(intervals):
    """UTF-8 encodings of code points in the given tuple of (lo,hi) intervals"""
    if intervals == ((0, 0x10FFFF),):
        return UCHAR
    rs = []
    for lo, hi in intervals:
        for (a, b) in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)):
            x, y = max(lo, a), min(hi, b)
            if x <= y:
                rs.append(_utf8range(x, y))
    return union(rs)


def _utf8range(lo, hi):
    a = chr(lo).encode("utf-8")
    b = chr(hi).encode("utf-8")

    def rng(x, y):
        n = len(x)
        if n == 1:
            return byteset(range(x[0], y[0] + 1))
        if x[0] == y[0]:
            return byteset([x[0]]) + rng(x[1:], y[1:])
        lo_rest = bytes([0x80] * (n - 1))
        hi_rest = bytes([0xBF] * (n - 1))
        r = byteset([x[0]]) + rng(x[1:], hi_rest)
        r = r | (byteset([y[0]]) + rng(lo_rest, y[1:]))
        if y[0] - x[0] > 1:
            r = r | (byteset(range(x[0] + 1, y[0])) + rng(lo_rest, hi_rest))
        return r
    return rng(a, b) & UCHAR


@lru_cache(maxsize=5000)
def dec_cmp(op, c):
    """digit strings (nonempty, leading zeros allowed) w with value(w) op c"""
    D = DIG + DIG.star()
    if op == "<":
        return dec_cmp("<=", c - 1)
    if op == ">":
        return D - dec_cmp("<=", c)
    if op == ">=":
        return D - dec_cmp("<=", c - 1)
    if op == "==":
        if c < 0:
            return EMPTY
        return rx("0*") + lit(str(c))
    if op == "!=":
        return D - dec_cmp("==", c)
    assert op == "<="
    if c < 0:
        return EMPTY
    s = str(c).encode()
    n = len(s)
    rs = [lit(s)]
    for i, ch in enumerate(s):
        if ch > 48:
            rs.append(lit(s[:i]) + byteset(range(48, ch)) + power(DIG, n - i - 1))
    short = EPS
    for _ in range(n - 1):
        short = opt(DIG + short)
    return (rx("0*") + (union(rs) | short)) & D


def chain(k, acc):
    """byte strings by their length, up to k"""
    return build(0, lambda q: [(0, min(q + 1, k + 1))], acc)


@lru_cache(maxsize=5000)
def len_cmp(op, k):
    """byte strings with len op k"""
    if k > 18000:
        raise RuntimeError("DFA too large")
    if op == "==":
        return chain(k, lambda q: q == k) if k >= 0 else EMPTY
    if op == "!=":
        return ~len_cmp("==", k)
    if op == "<=":
        return chain(k, lambda q: q <= k) if k >= 0 else EMPTY
    if op == "<":
        return len_cmp("<=", k - 1)
    if op == ">":
        return ~len_cmp("<=", k)
    if op == ">=":
        return ~len_cmp("<=", k - 1)


@lru_cache(maxsize=5000)
def count_cmp(sep, op, k):
    """byte strings where single-byte sep occurs (op k) times"""
    s = byteset([sep])
    ns = byteset(set(range(256)) - {sep}).star()
    ex = ns
    if op == "==":
        if k < 0:
            return EMPTY
        for _ in range(k):
            ex = ex + s + ns
        return ex
    if op == "!=":
        return ~count_cmp(sep, "==", k)
    if op == "<=":
        return union(count_cmp(sep, "==", i) for i in range(0, k + 1)) if k >= 0 else EMPTY
    if op == "<":
        return count_cmp(sep, "<=", k - 1)
    if op == ">":
        return ~count_cmp(sep, "<=", k)
    return ~count_cmp(sep, "<=", k - 1)


def contains(b):
    return ALL + lit(b) + ALL


if __name__ == "__main__":
    import time
    t = time.time()
    tz = rx("Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00)")
    print(len(tz.acc), tz.witness(), tz.words(5))
    g = rx("---") + ((rx("[0-9]{2}") & dec_cmp("<=", 31)) & dec_cmp(">=", 1)) + opt(tz)
    print(len(g.acc), g.witness(), len(UTF8.acc), (UTF8 & ~g).witness())
    for n in (0, 5, 9, 10, 99, 100, 2147483647):
        L = dec_cmp("<=", n)
        for x in (0, 1, 4, 5, 6, 9, 10, 11, 98, 99, 100, 101, 2147483646, 2147483647, 2147483648):
            for z in ("", "0", "00"):
                assert L.accepts((z + str(x)).encode()) == (x <= n)
    assert charset(((0, 0x10FFFF),)) == UCHAR
    assert charset(((0, 0x40), (0x41, 0x900), (0x901, 0x10FFFF))) == UCHAR
    assert rx("(a|b)*abb").accepts(b"babb")
    print(time.time() - t)
