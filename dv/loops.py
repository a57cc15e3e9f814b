"""Loop rule for scanners: compression of runs of one character class.

At a loop head whose iterator walks the characters of a symbolic string, let K be a set of
characters (the decimal digits).  For the state S reached after consuming one K-character the
rule *checks* the invariant

    one further iteration on an arbitrary K-character, at an arbitrary position, with arbitrary
    remaining text, returns to the head on exactly one path, with every live location unchanged
    and no new constraint on anything that existed before

by executing that iteration symbolically.  If it holds, induction on the run length gives: any
number of further K-characters only advances the iterator, so the whole maximal run is skipped at
once.  If it does not hold, the rule does nothing (the loop is unrolled and, when unbounded,
reported as undecided).
"""
from . import lang as L
from . import models as M
from .terms import *

UTF8 = L.UTF8


def places(x, out):
    """(local, whole) mentions inside an operand/rvalue JSON"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("m", "c"):
                place(v, out)
            elif k == "k":
                pass
            else:
                places(v, out)
    elif isinstance(x, list):
        for v in x:
            places(v, out)


def place(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == "[]":
            out.add(e[1])


def rv_uses(r, out):
    if r[0] in ("ref", "addr", "discr", "len"):
        place(r[1], out)
    else:
        places(r, out)


_LIVE = {}


def live_in(body, bb):
    """locals live at entry of bb (backward dataflow; taking a reference counts as a use)"""
    key = id(body)
    if key not in _LIVE:
        blocks = body["blocks"]
        n = len(blocks)
        gen, kill, succ = [], [], []
        for b in blocks:
            g, k = set(), set()

            def use(s):
                g.update(x for x in s if x not in k)
            for s in b["s"]:
                if s[0] != "=":
                    u = set()
                    places(s[1:], u)
                    use(u)
                    continue
                u = set()
                rv_uses(s[2], u)
                if s[1][1]:
                    place(s[1], u)
                use(u)
                if not s[1][1]:
                    k.add(s[1][0])
            t = b["t"]
            u, sc = set(), []
            if t["k"] == "call":
                places(t["args"], u)
                places(t.get("f"), u)
                if t["dst"][1]:
                    place(t["dst"], u)
                use(u)
                if not t["dst"][1]:
                    k.add(t["dst"][0])
                sc = [t["to"]] if t["to"] is not None else []
            elif t["k"] == "switch":
                places(t["on"], u)
                use(u)
                sc = [to for _, to in t["br"]] + [t["else"]]
            elif t["k"] == "return":
                use({0})
            else:
                places({a: b_ for a, b_ in t.items() if a not in ("k", "to", "p", "msg")}, u)
                use(u)
                sc = [t["to"]] if t.get("to") is not None else []
            gen.append(g)
            kill.append(k)
            succ.append(sc)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                v = gen[i] | (o - kill[i])
                if v != live[i]:
                    live[i] = v
                    ch = True
        _LIVE[key] = (body, live)
    return _LIVE[key][1][bb]


_SCC = {}


def is_head(body, bb, visits):
    """first block of its cycle that this activation reaches"""
    key = id(body)
    if key not in _SCC:
        blocks = body["blocks"]
        succ = []
        for b in blocks:
            t = b["t"]
            if t["k"] == "switch":
                succ.append([to for _, to in t["br"]] + [t["else"]])
            else:
                succ.append([t["to"]] if t.get("to") is not None else [])
        reach = []
        for i in range(len(blocks)):
            seen, todo = set(), list(succ[i])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += succ[x]
            reach.append(seen)
        _SCC[key] = (body, [set(j for j in reach[i] if i in reach[j]) for i in range(len(blocks))])
    cyc = _SCC[key][1][bb]
    return bb in cyc and not any(visits.get(x, 0) for x in cyc)


def run_to_head(E, st, fr, body, head):
    """one loop iteration from the head: (states back at the head, outcomes that left the function)"""
    back, out = [], []
    work = []
    t = body["blocks"][head]
    E.loop_stop.append((fr, head, back))
    try:
        work.append((st, head, {"first": True}))
        while work:
            s, bb, vis = work.pop()
            E.step_block(s, fr, body, bb, vis, work, out)
            if len(back) > 400:
                raise Unsupported("loop iteration splits into too many cases")
    finally:
        E.loop_stop.pop()
    return back, out


def find_iter(E, st, fr, live):
    for l in live:
        v = st.cells.get(fr.locals[l])
        if isinstance(v, Opq) and v.kind == "iter":
            it = v.d
            if isinstance(it, M.EnumIt) and isinstance(it.it, M.CharsIt):
                return fr.locals[l], it
            if isinstance(it, M.CharsIt):
                return fr.locals[l], it
    return None, None


def rope_idx(it):
    if isinstance(it, M.EnumIt):
        return it.it.rope, it.n
    return it.rope, it.idx


def with_rope(it, rope, idx):
    if isinstance(it, M.EnumIt):
        return M.EnumIt(it.it._replace(rope=rope), idx)
    return it._replace(rope=rope, idx=idx)


def same(a, b, cells):
    keys = ("pc", "lang", "sub", "rng", "alias", "bv", "ne")
    for k in keys:
        x, y = getattr(a, k), getattr(b, k)
        if isinstance(x, dict):
            for n, v in x.items():
                if y.get(n, v) != v or n not in y:
                    return False
        elif x != y:
            return False
    for c in cells:
        if a.cells.get(c) != b.cells.get(c):
            return False
    return True


def invariant(E, st, fr, body, head, cell, it, K, live):
    """K-run invariant at state st (already inside a run)?"""
    t = st.fork()
    d = t.new_atom(K, "k")
    tail = t.new_atom(UTF8, "tail")
    idx = None
    rope, i = rope_idx(it)
    if i is not None:
        lo = t.bounds(i)[0]
        idx = t.new_int(max(1, lo or 0), 1 << 59, "pos")
    t.cells[cell] = Opq("iter", with_rope(it, (d, tail), idx))
    try:
        back, out = run_to_head(E, t.fork(), fr, body, head)
    except Unsupported:
        return False
    if out or len(back) != 1:
        return False
    b = back[0]
    v = b.cells.get(cell)
    if not (isinstance(v, Opq) and v.kind == "iter"):
        return False
    r2, i2 = rope_idx(v.d)
    if b.rope(r2) != (tail,) or (idx is not None and b.norm(sub(i2, add(idx, 1))) != 0):
        return False
    own = set(fr.locals.values())
    lv = set(fr.locals[l] for l in live)
    cells = [c for c in t.cells if c != cell and (c not in own or c in lv)]
    return same(t, b, cells)


def NOTK(K):
    return L.EPS | (L.ALL - (K + L.ALL))


def unsplit(b, s1, fr, live, cell, run):
    """b: state after the first character of the run, s1: before the run was split into
    first character and remainder.  When nothing in b depends on that split the run is one piece
    again (state s1's text facts with b's memory); otherwise None"""
    if len(run) != 1 or isinstance(run[0], bytes):
        return None
    w = b.fork()
    for k in ("lang", "sub", "rng", "alias", "bv"):
        x, y = getattr(s1, k), getattr(b, k)
        gone = [n for n in y if n not in x]
        chg = [n for n in x if n in y and y[n] != x[n] and n != run[0]]
        if chg or any(n not in y for n in x) or (k not in ("lang", "sub") and gone):
            return None
        setattr(w, k, x.copy() if hasattr(x, "copy") else x)
    if b.pc != s1.pc or b.ne != s1.ne:
        return None
    new = [n for n in b.lang if n not in s1.lang]
    own = set(fr.locals.values())
    lv = set(fr.locals[l] for l in live)
    for c, v in b.cells.items():
        if c == cell or s1.cells.get(c) is v or (c in own and c not in lv):
            continue
        t = repr(v)
        if any("'" + n in t or ":" + n in t for n in new):
            return None
    return w


def agree(x, y, fr, live):
    own = set(fr.locals.values())
    lv = set(fr.locals[l] for l in live)
    return all(y.cells.get(c) == v for c, v in x.cells.items() if c in y.cells and (c not in own or c in lv))


def scanner_rule(K=L.DIG, limit=22):
    def hook(E, st, fr, body, bb, visits):
        if "scan" in visits:            # directly after this rule: take the iteration
            visits.pop("scan")
            return None
        if ("head", bb) not in visits:
            if not is_head(body, bb, visits):
                return None
        live = live_in(body, bb)
        cell, it = find_iter(E, st, fr, live)
        if cell is None:
            return None
        cnt = visits.get(("head", bb), 0) + 1
        if cnt > limit:
            raise Unsupported("scanner loop in %s: no bound on the number of tokens" % fr.inst["name"])
        nv = {("head", bb): cnt, bb: 1, "scan": True}
        rope, idx = rope_idx(it)
        out = []
        for s, dig in st.split(rope, K + L.ALL):
            if not dig:
                out.append((s, bb, dict(nv)))
                continue
            for s1, run, rest in s.cut(rope, K + K.star(), NOTK(K)):
                run, rest = s1.rope(run), s1.rope(rest)
                merged, sep, ok = [], [], True
                for s2, u, v in s1.cut(run, K, K.star()):
                    s2 = s2.fork()
                    s2.cells[cell] = Opq("iter", with_rope(it, u + v + rest, idx))
                    back, left = run_to_head(E, s2, fr, body, bb)
                    for x in left:
                        E.loop_out.append(x)
                    ok = ok and len(back) == 1 and not left
                    for b in back:
                        it2 = b.cells[cell].d
                        if not invariant(E, b, fr, body, bb, cell, it2, K, live):
                            sep.append(b)
                            ok = False
                            continue
                        if ok and b.rope(rope_idx(it2)[0]) == b.rope(v + rest):
                            w = unsplit(b, s1, fr, live, cell, run)
                            if w is not None:
                                w.cells[cell] = Opq("iter", with_rope(it2, rest, None if idx is None else add(idx, w.length(run))))
                                merged.append(w)
                            else:
                                ok = False
                        else:
                            ok = False
                        r2, i2 = rope_idx(it2)
                        for s3, w, tail in b.cut(r2, K.star(), NOTK(K)):
                            s3 = s3.fork()
                            s3.cells[cell] = Opq("iter", with_rope(it2, s3.rope(tail), None if i2 is None else add(i2, s3.length(w))))
                            sep.append(s3)
                if ok and merged and all(agree(merged[0], w, fr, live) for w in merged[1:]):
                    sep = merged[:1]
                out += [(w, bb, dict(nv)) for w in sep]
        return out
    return hook
