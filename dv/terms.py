"""Terms: linear integer expressions, boolean atoms, symbolic values."""
from collections import namedtuple


class Unsupported(Exception):
    """construct outside the verifier's subset: the obligation stays undischarged, never an alarm"""


class Budget(Unsupported):
    """exploration budget used up"""


class Lin:
    __slots__ = ("c", "v", "_h")

    def __init__(self, c, v):
        self.c = c
        self.v = v  # tuple of (var, coef) sorted, no zero coefs
        self._h = hash((c, v))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.v == o.v

    def __repr__(self):
        return "(" + " + ".join([str(self.c)] * (self.c != 0 or not self.v) + ["%s%s" % ("" if k == 1 else "%d*" % k, n) for n, k in self.v]) + ")"


def var(n):
    return Lin(0, ((n, 1),))


def mk(c, d):
    v = tuple(sorted((n, k) for n, k in d.items() if k != 0))
    return Lin(c, v) if v else c


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, bool):
        raise TypeError("bool as int")
    return Lin(int(x), ())


def add(a, b, kb=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + kb * b
    a, b = lin(a), lin(b)
    d = dict(a.v)
    for n, k in b.v:
        d[n] = d.get(n, 0) + kb * k
    return mk(a.c + kb * b.c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(a, int):
        return a * k
    return mk(a.c * k, {n: c * k for n, c in a.v})


# booleans: True/False or one of these
Cmp = namedtuple("Cmp", "op l")          # l op 0, op in == != <=
And = namedtuple("And", "xs")
Or = namedtuple("Or", "xs")
InL = namedtuple("InL", "rope lang neg")  # rope in lang (xor neg)
SEq = namedtuple("SEq", "a b neg")        # rope equality, both symbolic
BV = namedtuple("BV", "n neg")            # boolean variable


def cmp(op, a, b):
    """a op b -> bool term"""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    d = sub(a, b)
    if op == "<":
        d = add(d, 1)
        op = "<="
    if isinstance(d, int):
        return {"==": d == 0, "!=": d != 0, "<=": d <= 0}[op]
    if op in ("==", "!=") and d.v[0][1] < 0:
        d = scale(d, -1)
    return Cmp(op, d)


def neg(b):
    if b is True:
        return False
    if b is False:
        return True
    if isinstance(b, Cmp):
        if b.op == "==":
            return Cmp("!=", b.l)
        if b.op == "!=":
            return Cmp("==", b.l)
        return cmp("<=", add(scale(b.l, -1), 1), 0)
    if isinstance(b, And):
        return Or(tuple(neg(x) for x in b.xs))
    if isinstance(b, Or):
        return And(tuple(neg(x) for x in b.xs))
    if isinstance(b, InL):
        return InL(b.rope, b.lang, not b.neg)
    if isinstance(b, SEq):
        return SEq(b.a, b.b, not b.neg)
    if isinstance(b, BV):
        return BV(b.n, not b.neg)
    raise Unsupported("neg %r" % (b,))


def conj(xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, And):
            out.extend(x.xs)
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else And(tuple(out))


def disj(xs):
    return neg(conj([neg(x) for x in xs]))


# ---- values ------------------------------------------------------------
class V:
    pass


def _val(name, fields):
    base = namedtuple(name, fields)
    return base


Adt = namedtuple("Adt", "ty var f")        # struct/enum value; ty = type id or None
Tup = namedtuple("Tup", "f")
Arr = namedtuple("Arr", "xs")              # arrays
VecV = namedtuple("VecV", "xs")            # Vec<T>
SliceV = namedtuple("SliceV", "xs src")    # &[T] snapshot; src = Ref to the Vec/array or None (mutable view)
SRef = namedtuple("SRef", "r")             # &str by value
StringV = namedtuple("StringV", "r")       # String
Ref = namedtuple("Ref", "cell path")
BoxV = namedtuple("BoxV", "cell kind")     # Box / Rc
Clo = namedtuple("Clo", "ty f")
FnV = namedtuple("FnV", "key ty")
DynP = namedtuple("DynP", "p ty trait")    # fat pointer to dyn
Sym = namedtuple("Sym", "ty id")           # lazily expanded symbolic value
Opq = namedtuple("Opq", "kind d")          # opaque model value
CellV = namedtuple("CellV", "cell")        # RefCell contents
UNIT = Tup(())
UNINIT = Opq("uninit", ())


def some(x):
    return Adt(None, 1, (x,))


NONE = Adt(None, 0, ())


def ok(x):
    return Adt(None, 0, (x,))


def err(x):
    return Adt(None, 1, (x,))


def is_rope(x):
    return isinstance(x, tuple) and not hasattr(x, "_fields")


class Raw(str):
    """replay argument passed through unencoded"""


NOTZ = Raw("-")
