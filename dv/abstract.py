"""Sequences of unknown length: the words or lines of a text, the fields or alternatives of a type.

AbsIt(gen) stands for an iterator over any number of elements, each of which is an arbitrary value of
gen(E, st) -> [(state, value)].  A loop over it is decided by induction:

  * Iterator::fold / MIR loops: for a candidate invariant (a regular language for each text local, an interval
    for each integer local) the rule checks that it holds on entry and that one iteration from an arbitrary state
    satisfying it - with an arbitrary element - re-establishes it.  Everything else live must be unchanged.
    The code after the loop then runs from an arbitrary state satisfying the invariant.
  * collect into a Vec<String> gives a list whose elements all lie in the union of the languages one abstract
    step can produce; join gives E (sep E)* or the empty text.

If no candidate is inductive the loop is reported as unsupported, hence undecided; nothing is assumed.
"""
from . import lang as L
from . import models as M
from . import loops
from .models import AbsIt, it_next, rmodel, rope_of, is_panic, Panic
from .terms import *

IMAX = 1 << 62


def memoryless(it):
    if isinstance(it, AbsIt):
        return True
    if isinstance(it, (M.MapIt, M.FilterIt, M.FilterMapIt, M.ClonedIt)):
        return memoryless(it.it)
    return False


def flat(it, f):
    """flat_map over an abstract sequence: an arbitrary element of the sequence of an arbitrary element"""
    if not memoryless(it):
        return None

    def gen(E, st):
        out = []
        for s, x, n in it_next(E, st, it):
            if x is None:
                continue
            if is_panic(x):
                out.append((s, x))
                continue
            for s2, k, v in E.call_value(s, f, [x]) if f is not None else [(s, "ret", x)]:
                if k != "ret":
                    out.append((s2, Panic(v)))
                    continue
                for s3, o in E.variants(s2, v) if isinstance(v, Adt) else [(s2, v)]:
                    for s4, j in M.to_iter(E, s3, o):
                        if isinstance(j, M.ListIt) and len(j.xs) <= 1:
                            out += [(s4, y) for y in j.xs]
                            if not j.xs:
                                E.dropped.append(s4)
                            continue
                        if not memoryless(j):
                            raise Unsupported("flat_map of an abstract sequence into a concrete one")
                        out += [(s5, y) for s5, y, n2 in it_next(E, s4, j) if y is not None]
        return out
    return AbsIt(gen)


DROPPED = ("dropped",)


def dropping(E, f):
    """f(), and the states in which a filter left out an element meanwhile"""
    old, E.dropped = E.dropped, []
    try:
        return f(), E.dropped
    finally:
        E.dropped = old


def nothing(E, st):
    return []


def n_abs(E, st, it):
    w = st.ghost.get("watch")
    end = st
    if w is not None and w[0] is it.src:
        # the loop under the append rule asks for its next element: at the end, its text is complete
        end, st = st.fork(), st.fork()
        end.ghost["watch"] = st.ghost["watch"] = None
        end.ghost["joined"] = end.ghost.get("joined", ()) + (w[1],)
    out = [(end, None, AbsIt(nothing))]
    for s, v in it.src(E, st.fork()):
        out.append((s, v, it))
    return out


M.NEXT[AbsIt] = n_abs


def pieces(lg, name, how, text):
    """the lines or words of a text: an arbitrary one is an arbitrary member of lg"""
    def gen(E, st):
        r = st.atom_rope(lg, name)
        st.ghost["elem"], st.ghost["elemof"] = r, (how, text)
        return [(st, SRef(r))]
    gen.how, gen.text = how, text
    return gen


NOLF = L.UTF8 & L.byteset(set(range(256)) - {10}).star()
# White_Space characters of Unicode, as split_whitespace uses them
WS = L.charset(((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)))
WORD = (L.UTF8 - L.EPS) - (L.ALL + WS + L.ALL)


def inv_list(E):
    return getattr(E, "invariants", ())


def unchanged(a, b, skip=()):
    """no cell of a differs in b"""
    return all(b.cells.get(c) is v or b.cells.get(c) == v for c, v in a.cells.items() if c not in skip)


def in_lang(E, s, v, lg):
    return all(r for t, r in s.split(rope_of(E, s, v), lg) if t.feasible())


# ------------------------------------------------------------------ loops that only append
def appended(E, st, a0, step):
    """A loop whose every iteration turns the accumulated text r into r + t with t independent of r: afterwards the text
    is a0 followed by the texts t of all elements, in order.  The base case is a0 itself; the step is checked for an
    arbitrary element and an arbitrary r = a0 + j.  Returns (state, text, ghost record, panics) or None."""
    lg = L.UTF8
    for rnd in range(2):
        h = st.fork()
        j = h.atom_rope(lg, "joined")
        r = tuple(a0) + tuple(j)
        back, out = step(h, r)
        if back is None:
            return None
        r = h.rope(r)
        outs, sl = [], None
        for s, x in back:
            if not s.feasible():
                continue
            x, q = s.rope(x), s.rope(r)
            suf = strip_prefix(x, q)
            if suf is None:
                return None
            if any(not isinstance(p, bytes) and p in j for p in suf):
                return None
            outs.append((s, suf))
            l = s.rope_lang(suf)
            sl = l if sl is None else sl | l
        lg = sl.star() if sl is not None else L.EPS
    return h, r, (j, (), tuple(outs)), out


def strip_prefix(x, q):
    """x without its prefix q (ropes in normal form), None when q is no prefix"""
    x, i = list(x), 0
    for k, p in enumerate(q):
        if i >= len(x):
            return None
        if x[i] == p:
            i += 1
        elif isinstance(p, bytes) and isinstance(x[i], bytes) and k == len(q) - 1 and x[i].startswith(p):
            x[i] = x[i][len(p):]
        else:
            return None
    return tuple(x[i:])


# ------------------------------------------------------------------ fold
def fold(E, st, it, acc, f, nm):
    if nm == "for_each":
        out, logs = [], []
        logged = "fs" in st.ghost
        h = st.fork()
        if logged:
            h.ghost["fs"], h.ghost["trail"] = (), ()
        nx, dr = dropping(E, lambda: it_next(E, h, it))
        logs += [(s, s.ghost.get("fs", ())) for s in dr]
        for s, x, n in nx:
            if x is None:
                continue
            if is_panic(x):
                out.append((s, "panic", x.m))
                continue
            before = s.fork()
            for s2, k, v in E.call_value(s, f, [x]):
                if k != "ret":
                    out.append((s2, k, v))
                elif not unchanged(before, s2):
                    raise Unsupported("for_each over an abstract sequence changes memory")
                else:
                    logs.append((s2, s2.ghost.get("fs", ())))
        if logged:
            st = st.fork()
            st.ghost["fs"] = st.ghost["fs"] + (("each", tuple(logs)),)
        return [(st, "ret", UNIT)] + out
    acc = E.expand(st, acc)
    if not isinstance(acc, StringV):
        raise Unsupported("fold over an abstract sequence")
    a0 = st.rope(acc.r)

    def step(h, r):
        back, out = [], []
        nx, dr = dropping(E, lambda: it_next(E, h.fork(), it))
        back += [(s, r) for s in dr]
        for s, x, n in nx:
            if x is None:
                continue
            if is_panic(x):
                out.append((s, "panic", x.m))
                continue
            before = s.fork()
            for s2, k, v in E.call_value(s, f, [StringV(r), x]):
                if k == "panic":
                    out.append((s2, k, v))
                elif k != "ret" or not unchanged(before, s2):
                    return None, None
                else:
                    back.append((s2, rope_of(E, s2, v)))
        return back, out
    j = appended(E, st, a0, step)
    if j is not None:
        h, r, rec, out = j
        h.ghost["joined"] = h.ghost.get("joined", ()) + (rec,)
        return out + [(h, "ret", StringV(r))]
    for inv in inv_list(E):
        if not in_lang(E, st, acc, inv):
            continue
        h = st.fork()
        r = h.atom_rope(inv, "acc")
        out, good = [(h, "ret", StringV(r))], True
        for s, x, n in it_next(E, h.fork(), it):
            if x is None:
                continue
            if is_panic(x):
                out.append((s, "panic", x.m))
                continue
            before = s.fork()
            for s2, k, v in E.call_value(s, f, [StringV(r), x]):
                if k == "panic":
                    out.append((s2, k, v))
                elif k != "ret" or not unchanged(before, s2) or not in_lang(E, s2, v, inv):
                    good = False
                if not good:
                    break
            if not good:
                break
        if good:
            return out
    raise Unsupported("no inductive invariant for a fold")


# ------------------------------------------------------------------ collect and join
def element_lang(E, st, it):
    lg, pan, outs = None, [], []
    nx, dr = dropping(E, lambda: it_next(E, st.fork(), it))
    outs += [(s, ()) for s in dr]
    for s, x, n in nx:
        if x is None:
            outs.append((s, None))
            continue
        if is_panic(x):
            pan.append((s, "panic", x.m))
            continue
        x = E.expand(s, x)
        if not isinstance(x, (StringV, SRef)):
            raise Unsupported("collect of an abstract sequence of %s" % type(x).__name__)
        if not unchanged(st, s):
            raise Unsupported("elements of an abstract sequence change memory")
        r = rope_of(E, s, x)
        outs.append((s, r))
        l = s.rope_lang(r)
        lg = l if lg is None else lg | l
    return lg, pan, tuple(outs)


def collect(E, st, it, tgt):
    nx, dr = dropping(E, lambda: it_next(E, st.fork(), it))
    xs = [(s, x) for s, x, n in nx if x is not None]
    if xs and not any(isinstance(E.expand(s, x), (StringV, SRef)) for s, x in xs if not is_panic(x)):
        if not all(unchanged(st, s) for s, x in xs):
            raise Unsupported("elements of an abstract sequence change memory")

        def gen(E_, s0):
            return [(s, x) for s, x, n in it_next(E_, s0.fork(), it) if x is not None and not is_panic(x)]
        return [(s, "panic", x.m) for s, x in xs if is_panic(x)] + [(st, "ret", Opq("abslist", asof(st, gen)))]
    lg, pan, outs = element_lang(E, st, it)
    return pan + [(st, "ret", Opq("abstexts", (lg if lg is not None else (L.ALL - L.ALL), outs)))]


def asof(st, gen):
    """an element of a list is worked out in the memory there was when the list was made"""
    def g(E, s0):
        diff = [c for c, v in st.cells.items() if not (s0.cells.get(c) is v or s0.cells.get(c) == v)]
        if not diff:
            return gen(E, s0)
        now = {c: s0.cells[c] for c in diff if c in s0.cells}
        h = s0.fork()
        for c in diff:
            h.cells[c] = st.cells[c]
        res, dr = dropping(E, lambda: gen(E, h))
        for s in [s for s, x in res] + dr:
            for c in diff:
                if c in now:
                    s.cells[c] = now[c]
        E.dropped += dr
        return res
    g.__dict__.update(gen.__dict__)
    return g


def collect_result(E, st, it, isres):
    """collect into Result/Option: the first failing element's outcome, or the list of all values"""
    out, oks = [], []
    nx, dr = dropping(E, lambda: it_next(E, st.fork(), it))
    oks += [(s, DROPPED) for s in dr]
    for s, x, n in nx:
        if x is None:
            oks.append((s, None))
            continue
        if is_panic(x):
            out.append((s, "panic", x.m))
            continue
        if not unchanged(st, s):
            raise Unsupported("elements of an abstract sequence change memory")
        for s2, o in E.variants(s, x):
            if o.var == (0 if isres else 1):
                oks.append((s2, o.f[0]))
            else:
                out.append((s2, "ret", err(o.f[0]) if isres else NONE))

    def gen(E_, st):
        # an arbitrary element: one of the outcomes seen for an arbitrary element of the source
        res = []
        for s, x, n in it_next(E_, st.fork(), it):
            if x is None or is_panic(x):
                continue
            for s2, o in E_.variants(s, x):
                if o.var == (0 if isres else 1):
                    res.append((s2, o.f[0]))
        return res
    v = Opq("abslist", gen)
    s = st.fork()
    s.ghost["collected"] = s.ghost.get("collected", ()) + ((v, tuple(oks), it),)
    return out + [(s, "ret", ok(v) if isres else some(v))]


def join(E, st, v, sep):
    """the texts of all elements, in order, with separators; what the text of one arbitrary element is, is kept as a ghost"""
    e, outs = v.d
    sl = st.rope_lang(sep)
    s = st.fork()
    r = s.atom_rope(L.EPS | (e + (sl + e).star()), "joined")
    s.ghost["joined"] = s.ghost.get("joined", ()) + ((r, sep, outs),)
    return [(s, "ret", StringV(r))]


M.JOIN["abstexts"] = join


def push(E, st, a, v):
    base, extra = v.d if v.kind == "abscat" else (v, ())
    E.set_ref(st, a[0], Opq("abscat", (base, extra + (rope_of(E, st, a[1]),))))
    return [(st, "ret", UNIT)]


def joincat(E, st, v, sep):
    """all texts of an abstract list, then a few more"""
    if sep != ():
        raise Unsupported("join with separator")
    out = []
    for s, k, x in join(E, st, v.d[0], sep):
        r = tuple(x.r)
        for y in v.d[1]:
            r += tuple(y)
        out.append((s, k, StringV(s.rope(r))))
    return out


M.VECMUT[("push", "abstexts")] = M.VECMUT[("push", "abscat")] = push
M.JOIN["abscat"] = joincat


def refs(gen):
    """the elements by reference"""
    def g(E, st):
        return [(s, x if is_panic(x) or isinstance(x, Ref) else E.ref(s, x)) for s, x in gen(E, st)]
    g.__dict__.update(gen.__dict__)
    g.of = gen
    return g


def iterref(E, st, r, t):
    return [(st, AbsIt(refs(t.d)))]


M.ITERREF["abslist"] = iterref
M.INTOITER["abslist"] = lambda E, st, v: [(st, AbsIt(v.d))]


# ------------------------------------------------------------------ MIR loops
def inner(E, fr, body, live):
    """locals that are live at the head, but not at the head of a loop around it"""
    for f, h, back in E.loop_stop:
        if f is fr:
            live = set(live) - set(loops.live_in(body, h))
    return live


def find_abs(st, fr, live):
    for l in live:
        v = st.cells.get(fr.locals[l])
        if isinstance(v, Opq) and v.kind == "iter" and memoryless(v.d):
            return fr.locals[l]
    return None


def loop_rule(E, st, fr, body, bb):
    """called on entry of a block not yet visited: outcomes of the function, or None when the rule does not apply"""
    if not getattr(E, "invariants", None) or not loops.is_head(body, bb, {}):
        return None
    live = loops.live_in(body, bb)
    own_live = inner(E, fr, body, live)
    cell = find_abs(st, fr, own_live)
    if cell is None:
        cell = find_lcat(st, fr, own_live)
        return None if cell is None else stutter_rule(E, st, fr, body, bb, cell)
    r = append_rule(E, st, fr, body, bb, live, cell)
    if r is None:
        r = list_rule(E, st, fr, body, bb, live, cell)
    if r is not None:
        return r
    own = {fr.locals[l] for l in live}
    key = (id(body), bb)
    # which live locals does an iteration change?  texts and integers may, nothing else
    texts = [c for c in own if c != cell and isinstance(st.cells.get(c), StringV)]
    ints = [c for c in own if c != cell and isinstance(st.cells.get(c), (int, Lin)) and not isinstance(st.cells.get(c), bool)]
    back, left = loops.run_to_head(E, st.fork(), fr, body, bb)
    ct = {c for c in texts for b in back if b.cells[c] != st.cells[c]}
    ci = {c for c in ints for b in back if b.cells[c] != st.cells[c]}

    logged = "fs" in st.ghost

    def attempt(pick, each=None):
        h = st.fork()
        if logged:
            h.ghost["fs"] = st.ghost["fs"] + (("each", each),) if each is not None else ()
            if each is None:
                h.ghost["trail"] = ()
        for c in ct:
            h.cells[c] = StringV(h.atom_rope(pick[c], "loop"))
        for c in ci:
            h.cells[c] = h.new_int(0, IMAX, "loop")
        (back, left), dr = dropping(E, lambda: loops.run_to_head(E, h.fork(), fr, body, bb))
        for b in back:
            if not b.feasible():
                continue
            for c, v in h.cells.items():
                if c in ct:
                    if not in_lang(E, b, b.cells[c], pick[c]):
                        return None
                elif c in ci:
                    x = b.norm(b.cells[c])
                    for t, r in b.branch(cmp("<=", x, IMAX)):
                        if not r:
                            return None
                    for t, r in b.branch(cmp(">=", x, 0)):
                        if not r:
                            return None
                elif c in own or c not in set(fr.locals.values()):
                    if b.cells.get(c) != v:
                        return None
        if logged and each is None:
            # what one arbitrary iteration does is kept as a ghost
            return attempt(pick, tuple((b, b.ghost["fs"]) for b in list(back) + dr if b.feasible()))
        return left
    for inv in inv_list(E):
        if not all(in_lang(E, st, st.cells[c], inv) for c in ct):
            continue
        r = attempt({c: inv for c in ct})
        if r is not None:
            return r
    raise Unsupported("no inductive invariant for the loop in %s" % fr.inst["name"])


def src_of(it):
    while not isinstance(it, AbsIt):
        it = it.it
    return it.src


def append_rule(E, st, fr, body, bb, live, cell):
    """exactly one text anywhere in memory changes in an iteration, by appending to it; integer locals of the loop may change
    too: they are then arbitrary in 0..IMAX, which an iteration has to re-establish"""
    dead = {c for l, c in fr.locals.items() if l not in live} if isinstance(fr.locals, dict) else {c for l, c in enumerate(fr.locals) if l not in live}
    back, left = loops.run_to_head(E, st.fork(), fr, body, bb)
    back = [b for b in back if b.feasible()]
    ch = {c for b in back for c, v in st.cells.items() if c not in dead and b.cells.get(c) != v}
    own = {fr.locals[l] for l in live}
    ints = {c for c in ch if c in own and isinstance(st.cells[c], (int, Lin)) and not isinstance(st.cells[c], bool)}
    ch -= ints
    if len(ch) != 1:
        return None
    c = ch.pop()
    if not isinstance(st.cells[c], StringV):
        return None
    if any(not r for i in ints for q in (cmp("<=", st.norm(st.cells[i]), IMAX), cmp(">=", st.norm(st.cells[i]), 0)) for t, r in st.branch(q)):
        return None
    a0 = st.rope(st.cells[c].r)
    src = src_of(st.cells[cell].d)

    def havoc(h):
        for i in ints:
            h.cells[i] = h.new_int(0, IMAX, "loop")

    def step(h, r):
        h = h.fork()
        h.cells[c] = StringV(r)
        havoc(h)
        (back, left), dr = dropping(E, lambda: loops.run_to_head(E, h.fork(), fr, body, bb))
        back = list(back) + dr
        for b in back:
            if not b.feasible():
                continue
            if any(x != c and x not in dead and x != cell and x not in ints and b.cells.get(x) != v for x, v in h.cells.items()):
                return None, None
            if any(not r for i in ints for q in (cmp("<=", b.norm(b.cells[i]), IMAX), cmp(">=", b.norm(b.cells[i]), 0)) for t, r in b.branch(q)):
                return None, None
        return [(b, b.cells[c].r) for b in back], []
    j = appended(E, st, a0, step)
    if j is None:
        return None
    h, r, rec, _ = j
    h.cells[c] = StringV(r)
    havoc(h)
    h.ghost["watch"] = (src, rec)
    back, left = loops.run_to_head(E, h, fr, body, bb)
    return left


# ------------------------------------------------------------------ loops over a list in parts
def find_lcat(st, fr, live):
    from .xmlmodels import LcatIt, base_it
    for l in live:
        v = st.cells.get(fr.locals[l])
        if isinstance(v, Opq) and v.kind == "iter" and isinstance(base_it(v.d), LcatIt):
            return fr.locals[l]
    return None


def stutter_rule(E, st, fr, body, bb, cell):
    """An iteration either makes no difference (an element of an abstract part that the loop passes over: what follows is what
    followed before), or moves on to a later part."""
    live = loops.live_in(body, bb)
    dead = set(fr.locals.values()) - {fr.locals[l] for l in live}
    if "fs" in st.ghost:
        return logged_parts(E, st, fr, body, bb, cell, dead)
    out, todo = [], [st]
    while todo:
        s0 = todo.pop()
        (back, left), dr = dropping(E, lambda: loops.run_to_head(E, s0.fork(), fr, body, bb))
        out += left
        for b in back:
            if not b.feasible():
                continue
            if b.cells[cell] == s0.cells[cell]:
                if not unchanged(s0, b, dead):
                    raise Unsupported("an element that is passed over changes memory")
                continue
            todo.append(b)
    return out


def logged_parts(E, st, fr, body, bb, cell, dead):
    """the same, part by part: what the iterations over a part are logged to do is kept as a ghost"""
    from .xmlmodels import LcatIt, base_it, rebase
    out, todo = [], [st]
    while todo:
        s0 = todo.pop()
        it = s0.cells[cell].d
        parts = base_it(it).parts
        if not parts:
            b, left = loops.run_to_head(E, s0.fork(), fr, body, bb)
            out += left
            continue
        k, x = parts[0]
        if k == "one" and it != base_it(it):
            raise Unsupported("filtered list in parts")
        h = s0.fork()
        h.cells[cell] = here = Opq("iter", rebase(it, LcatIt((parts[0],))))
        over = Opq("iter", rebase(it, LcatIt(())))
        rest = Opq("iter", rebase(it, LcatIt(parts[1:])))
        if k == "all":
            h.ghost["fs"], h.ghost["trail"] = (), ()
        (back, left), dr = dropping(E, lambda: loops.run_to_head(E, h, fr, body, bb))
        if k == "one":
            for b in back:
                b = b.fork()
                b.cells[cell] = rest
                todo.append(b)
            out += left
            continue
        logs = []
        for b in list(back) + dr:
            if not b.feasible():
                continue
            if b.cells[cell] != here:
                raise Unsupported("an iteration that moves on")
            if not unchanged(s0, b, dead | {cell}):
                raise Unsupported("an element that is passed over changes memory")
            logs.append((b, b.ghost["fs"]))
        if any(o[0].cells.get(cell) != over for o in left):
            raise Unsupported("a loop over a list in parts that is left early")
        n = s0.fork()
        n.cells[cell] = rest
        n.ghost["fs"] = s0.ghost["fs"] + (("each", tuple(logs)),)
        todo.append(n)
    return out


# ------------------------------------------------------------------ loops that append to lists
def leaves(a, b, path=()):
    """paths at which two values differ, down to lists"""
    if a == b:
        return []
    if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var and len(a.f) == len(b.f):
        return [p for i, (x, y) in enumerate(zip(a.f, b.f)) for p in leaves(x, y, path + (i,))]
    return [path]


def leaf(v, path):
    for i in path:
        v = v.f[i]
    return v


def with_leaf(v, path, x):
    if not path:
        return x
    return v._replace(f=tuple(with_leaf(y, path[1:], x) if i == path[0] else y for i, y in enumerate(v.f)))


def list_rule(E, st, fr, body, bb, live, cell):
    """every iteration does no more than append to lists: afterwards a list is what it was, followed by what the iterations
    append, in order (kept as gen.iters: for one arbitrary iteration, the states and the parts appended)"""
    from .xmlmodels import parts, lcat
    dead = set(fr.locals.values()) - {fr.locals[l] for l in live}
    back, left = loops.run_to_head(E, st.fork(), fr, body, bb)
    ch = {(c, p) for b in back if b.feasible() for c, v in st.cells.items() if c not in dead and c != cell for p in leaves(v, b.cells.get(c))}
    if not ch:
        return None

    def islist(v):
        return isinstance(v, VecV) or isinstance(v, Opq) and v.kind in ("abslist", "lcat")
    if not all(islist(leaf(st.cells[c], p)) for c, p in ch):
        return None
    old = {(c, p): parts(leaf(st.cells[c], p)) for c, p in ch}
    logged = "fs" in st.ghost

    def start(mk, log=()):
        h = st.fork()
        if logged:
            h.ghost["fs"], h.ghost["trail"] = log, ()
        for c, p in ch:
            h.cells[c] = with_leaf(h.cells[c], p, lcat(old[(c, p)] + (("all", mk[(c, p)]),)))
        return h

    def nothing_(E_, s):
        return []
    marks = {}
    for q in ch:
        def g(E_, s):
            return []
        marks[q] = Opq("abslist", g)
    h = start(marks)
    (back, left), dr = dropping(E, lambda: loops.run_to_head(E, h.fork(), fr, body, bb))
    its = {q: [] for q in ch}
    log = []
    for b in list(back) + dr:
        if not b.feasible():
            continue
        for c, v in h.cells.items():
            if c in dead or c == cell:
                continue
            for p in leaves(v, b.cells.get(c)):
                if (c, p) not in ch:
                    return None
        for c, p in ch:
            n = parts(leaf(b.cells[c], p))
            k = len(old[(c, p)]) + 1
            if n[:k] != old[(c, p)] + (("all", marks[(c, p)]),):
                return None
            its[(c, p)].append((b, n[k:]))
        log.append((b, b.ghost.get("fs", ())))
    res = {}
    for q in ch:
        def gen(E_, s, q=q):
            out = []
            for b, ps in its[q]:
                for k, x in ps:
                    out += [(b.fork(), x)] if k == "one" else x.d(E_, b.fork())
            return out
        gen.iters = tuple(its[q])
        gen.over = src_of(st.cells[cell].d)
        res[q] = Opq("abslist", gen)
    h = start(res, st.ghost.get("fs", ()) + (("each", tuple(log)),))
    back, left = loops.run_to_head(E, h, fr, body, bb)
    return left


# ------------------------------------------------------------------ str::replace and str::split on any text
def used_bytes(lg):
    """bytes that occur in some word of the language"""
    live = lg.live()
    out = set()
    for q in live:
        for i, (b, d) in enumerate(lg.trans[q]):
            if d in live:
                e = lg.trans[q][i + 1][0] if i + 1 < len(lg.trans[q]) else 256
                out.update(range(b, e))
    return out


def replaced(E, s, r, pt, to):
    """text with at least one occurrence: an uninterpreted function of the text, over-approximated by its alphabet"""
    from .genmodels import apply_fn
    tc = s.const_str(to)
    if tc is None or pt[0] != "lit" or not pt[1]:
        raise Unsupported("replace on symbolic string")
    if len(pt[1]) == 1 and pt[1][0] < 128:
        keep = L.byteset(set(range(256)) - {pt[1][0]})
        lg = (keep | L.lit(tc)).star() if tc else keep.star()
        # bytes of the input that cannot occur stay absent
        lg = lg & L.byteset(used_bytes(s.rope_lang(r)) | set(tc)).star()
    else:
        lg = L.ALL
    return [(s2, "ret", StringV(s2.rope(x))) for s2, x in apply_fn(s, "replace:%s:%s" % (pt[1].hex(), tc.hex()), r, lambda s, r: [(s, lg & L.UTF8)], "repl")]


M.REPL[0] = replaced


def suffix_free(x, q):
    """x without its suffix q (ropes in normal form), None when q is no suffix"""
    x, q = list(x), list(q)
    while q:
        if not x:
            return None
        if x[-1] == q[-1]:
            x.pop()
            q.pop()
        elif isinstance(q[-1], bytes) and isinstance(x[-1], bytes) and len(q) == 1 and x[-1].endswith(q[-1]):
            x[-1] = x[-1][:-len(q[-1])]
            q.pop()
        else:
            return None
    return tuple(x)
