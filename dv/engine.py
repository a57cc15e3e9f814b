"""Path-splitting symbolic execution of MIR.

run(fn, args, st) returns a list of (state, 'ret', value) / (state, 'panic', message).
Every construct outside the supported subset raises Unsupported.
"""
import json
import re
import sys
from . import lang as L
from .terms import *
from .state import State

sys.setrecursionlimit(100000)


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.types = d["types"]
        self.allocs = d["allocs"]
        self.vtables = d["vtables"]
        self.roots = d["roots"]
        self.by_name = {}
        for k, f in self.fns.items():
            self.by_name.setdefault(f["name"], k)
        self.tyname = {}
        for k, t in self.types.items():
            if t["k"] == "adt":
                self.tyname.setdefault(t["name"], k)

    def find(self, name):
        k = self.by_name.get(name) or self.by_name.get("dvharness::" + name)
        if k is None:
            raise Unsupported("anchor not found: " + name)
        return k


class NeedConcrete(Exception):
    def __init__(self, cell, val, n):
        self.cell, self.val, self.n = cell, val, n


class Frame:
    __slots__ = ("fn", "locals", "visits", "inst")

    def __init__(self, fn, inst):
        self.fn = fn
        self.inst = inst
        self.locals = {}
        self.visits = {}


MAXVISITS = 80
MAXDEPTH = 90
MAXPATHS = 60000


class Work:
    """pending states, fewest passes through the loop head first (short inputs before long ones)"""

    def __init__(self):
        self.b = {}

    def append(self, w):
        d = max([v for k, v in w[2].items() if isinstance(k, tuple)] or [0])
        self.b.setdefault(d, []).append(w)

    def pop(self):
        d = min(self.b)
        w = self.b[d].pop()
        if not self.b[d]:
            del self.b[d]
        return w

    def __len__(self):
        return sum(len(x) for x in self.b.values())

    def __iter__(self):
        for d in sorted(self.b):
            yield from self.b[d]


class Engine:
    def __init__(self, prog):
        self.p = prog
        self.models = {}
        self.rmodels = []
        self.contracts = {}
        self.dropped = []       # states in which a filter left out an element of an abstract sequence
        self.depth = 0
        self.used_models = {}
        self.used_fns = {}
        self.used_contracts = {}
        self.cls_cache = {}
        self.paths = 0
        self.loop_rules = {}
        self.loop_stop = []
        self.loop_out = []
        self.maxvisits = MAXVISITS
        self.bounded = {}
        self.budget = None
        self.abstract_split = ()    # separators whose splits are treated as sequences of unknown length
        self.invariants = ()        # candidate loop invariants for texts (abstract.py)

    # ---------------------------------------------------------------- types
    def T(self, t):
        return self.p.types[t]

    def int_range(self, t):
        ty = self.T(t)
        if ty["k"] == "int":
            if ty["signed"]:
                return -(1 << (ty["bits"] - 1)), (1 << (ty["bits"] - 1)) - 1
            return 0, (1 << ty["bits"]) - 1
        if ty["k"] == "char":
            return 0, 0x10FFFF
        raise Unsupported("int_range of " + json.dumps(ty)[:80])

    def type_by_name(self, name):
        k = self.p.tyname.get(name)
        if k is None:
            raise Unsupported("type not found: " + name)
        return k

    # ------------------------------------------------------------- symbolic
    def fresh(self, st, t, name="x"):
        """fresh symbolic value of type t"""
        ty = self.T(t)
        k = ty["k"]
        if k == "int":
            lo, hi = self.int_range(t)
            return st.new_int(lo, hi, name)
        if k == "bool":
            return BV(st.fresh(name + "?"), False)
        if k == "char":
            return st.new_int(0, 0x10FFFF, name)
        if k == "ref":
            e = self.T(ty["e"])
            if e["k"] == "str":
                return SRef((st.new_atom(L.UTF8, name),))
            return Ref(st.new_cell(self.fresh(st, ty["e"], name)), ())
        if k == "tuple":
            return Tup(tuple(self.fresh(st, x, name) for x in ty["f"]))
        if k == "adt":
            if ty["def"] == "std::string::String":
                return StringV((st.new_atom(L.UTF8, name),))
            if ty["kind"] == "enum":
                return Sym(t, st.fresh("sym"))
            if ty["def"].startswith("chrono::FixedOffset"):
                return Adt(t, 0, (st.new_int(-86399, 86399, name),))
            if ty["kind"] == "struct" and ty["def"].split("::")[0] not in ("std", "alloc", "core"):
                return Adt(t, 0, tuple(self.fresh(st, f["t"], name + "." + f["n"]) for f in ty["v"][0]["f"]))
        raise Unsupported("fresh value of type " + str(ty.get("name", ty["k"])))

    def expand(self, st, v):
        """resolve a Sym if already decided"""
        while isinstance(v, Sym):
            r = st.res.get(v.id)
            if r is None:
                return v
            v = r
        return v

    def variants(self, st, v):
        """fork a symbolic enum value over its variants: [(state, Adt)]"""
        v = self.expand(st, v)
        if not isinstance(v, Sym):
            return [(st, v)]
        if isinstance(v.id, tuple):
            from .models import LAZY
            return LAZY[v.id[0]](self, st, v)
        ty = self.T(v.ty)
        out = []
        for i, var_ in enumerate(ty["v"]):
            if any(self.T(f["t"])["k"] == "never" for f in var_["f"]):
                continue
            s = st.fork()
            a = Adt(v.ty, i, tuple(self.fresh(s, f["t"], v.id + "." + var_["n"]) for f in var_["f"]))
            s.res[v.id] = a
            out.append((s, a))
        return out

    # -------------------------------------------------------------- places
    # a resolved place is ('c', cell, path) or ('v', value)
    def place(self, st, fr, pl):
        l, proj = pl
        cur = ("c", fr.locals[l], ())
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.expand(st, self.load(st, cur))
                if isinstance(v, Ref):
                    cur = ("c", v.cell, v.path)
                elif isinstance(v, BoxV):
                    cur = ("c", v.cell, ())
                elif isinstance(v, (SRef, SliceV)):
                    cur = ("v", v)
                elif isinstance(v, DynP):
                    cur = ("v", v)
                elif isinstance(v, Opq):
                    cur = ("v", v)
                else:
                    raise Unsupported("deref of %r" % (type(v).__name__,))
            elif k == ".":
                if cur[0] == "c":
                    v = self.load_raw(st, cur)
                    if isinstance(v, BoxV) or isinstance(v, DynP) and isinstance(v.p, BoxV):
                        continue     # Box(Unique(NonNull(ptr)))
                    cur = ("c", cur[1], cur[2] + (("f", e[1]),))
                else:
                    v = cur[1]
                    if isinstance(v, BoxV) or isinstance(v, DynP) and isinstance(v.p, BoxV):
                        continue
                    cur = ("v", self.field(st, v, e[1]))
            elif k == "dc":
                pass
            elif k == "[]":
                i = st.norm(self.load(st, ("c", fr.locals[e[1]], ())))
                if not isinstance(i, int):
                    raise NeedConcrete(fr.locals[e[1]], i, self.seq_len(st, self.load(st, cur)))
                cur = self.index_place(st, cur, i)
            elif k == "ci":
                off = e[1]
                if e[3]:
                    off = self.seq_len(st, self.load(st, cur)) - off
                cur = self.index_place(st, cur, off)
            elif k == "sub":
                v = self.load(st, cur)
                xs = self.seq(st, v)
                to = len(xs) - e[2] if e[3] else e[2]
                cur = ("v", SliceV(tuple(xs[e[1]:to]), None))
            elif k == "oc":
                pass
            else:
                raise Unsupported("projection " + k)
        return cur

    def index_place(self, st, cur, i):
        if cur[0] == "c":
            return ("c", cur[1], cur[2] + (("i", i),))
        v = cur[1]
        if isinstance(v, SliceV) and v.src is not None:
            return ("c", v.src.cell, v.src.path + (("i", i),))
        return ("v", self.seq(st, v)[i])

    def seq(self, st, v):
        v = self.expand(st, v)
        if isinstance(v, (Arr, VecV, SliceV)):
            if isinstance(v, SliceV) and v.src is not None:
                return self.seq(st, self.load(st, ("c", v.src.cell, v.src.path)))
            return v.xs
        if isinstance(v, Ref):
            return self.seq(st, self.load(st, ("c", v.cell, v.path)))
        raise Unsupported("sequence view of %r" % (v if isinstance(v, Opq) else type(v).__name__,))

    def seq_len(self, st, v):
        return len(self.seq(st, v))

    def field(self, st, v, i):
        v = self.expand(st, v)
        if isinstance(v, (Adt, Tup, Clo)):
            return v.f[i]
        if isinstance(v, Opq) and v.kind in ("undef", "uninit"):
            return v
        raise Unsupported("field %s of %r" % (i, v if isinstance(v, (Opq, Sym)) else type(v).__name__))

    def load_raw(self, st, pl):
        if pl[0] == "v":
            return pl[1]
        v = st.cells[pl[1]]
        for k, i in pl[2]:
            if k == "f":
                v = self.field(st, v, i)
            else:
                xs = self.seq(st, v)
                if i >= len(xs):
                    raise Unsupported("index out of bounds in load")
                v = xs[i]
        return v

    def load(self, st, pl):
        return self.expand(st, self.load_raw(st, pl))

    def store(self, st, pl, val):
        if pl[0] == "v":
            raise Unsupported("store through value place")
        st.cells[pl[1]] = self._upd(st, st.cells.get(pl[1]), pl[2], val)

    def _upd(self, st, v, path, val):
        if not path:
            return val
        v = self.expand(st, v)
        k, i = path[0]
        if k == "f":
            if v is None or (isinstance(v, Opq) and v.kind in ("uninit", "undef")):
                fs = [Opq("undef", ())] * (i + 1)
                fs[i] = self._upd(st, fs[i], path[1:], val)
                return Tup(tuple(fs))
            fs = list(v.f)
            while len(fs) <= i:
                fs.append(Opq("undef", ()))
            fs[i] = self._upd(st, fs[i], path[1:], val)
            return v._replace(f=tuple(fs))
        xs = list(v.xs)
        xs[i] = self._upd(st, xs[i], path[1:], val)
        return v._replace(xs=tuple(xs))

    def deref(self, st, v):
        """value behind a reference"""
        v = self.expand(st, v)
        if isinstance(v, Ref):
            return self.load(st, ("c", v.cell, v.path))
        if isinstance(v, BoxV):
            return self.load(st, ("c", v.cell, ()))
        if isinstance(v, (SRef, SliceV, Opq)):
            return v
        if isinstance(v, DynP):
            return self.deref(st, v.p)
        raise Unsupported("deref %r" % (type(v).__name__,))

    def set_ref(self, st, r, val):
        r = self.expand(st, r)
        if isinstance(r, DynP):
            r = r.p
        if isinstance(r, BoxV):
            st.cells[r.cell] = val
            return
        if not isinstance(r, Ref):
            raise Unsupported("write through %r" % (type(r).__name__,))
        self.store(st, ("c", r.cell, r.path), val)

    def ref(self, st, v):
        return Ref(st.new_cell(v), ())

    # ------------------------------------------------------------ constants
    def konst(self, st, k):
        t = k["t"]
        ty = self.T(t)
        if k.get("zst"):
            return self.zst(t)
        if "n" in k and k["n"] is not None:
            return k["n"]
        if "a" not in k:
            raise Unsupported("constant " + str(k)[:100])
        return self.decode(st, t, bytes.fromhex(k["a"]["b"]), 0, {o: a for o, a in k["a"]["p"]})

    def zst(self, t):
        ty = self.T(t)
        if ty["k"] == "fndef":
            return FnV(ty["fn"], t)
        if ty["k"] == "tuple":
            return Tup(tuple(self.zst(x) for x in ty["f"]))
        if ty["k"] == "closure":
            return Clo(t, ())
        if ty["k"] == "array":
            return Arr(())
        if ty["k"] == "adt":
            vs = [i for i, v in enumerate(ty["v"]) if not any(self.empty(f["t"]) for f in v["f"])]
            if len(vs) != 1:
                raise Unsupported("zst enum " + ty["name"])
            return Adt(t, vs[0], tuple(self.zst(f["t"]) for f in ty["v"][vs[0]]["f"]))
        return UNIT

    def empty(self, t):
        """type without values"""
        ty = self.T(t)
        return ty["k"] == "never" or ty["k"] == "adt" and not ty["v"] and not ty.get("union")

    def decode(self, st, t, b, off, prov):
        ty = self.T(t)
        k = ty["k"]
        if k == "int":
            n = ty["bits"] // 8
            return int.from_bytes(b[off:off + n], "little", signed=ty["signed"])
        if k == "bool":
            return b[off] != 0
        if k == "char":
            return int.from_bytes(b[off:off + 4], "little")
        if k == "float":
            import struct
            n = 8 if "64" in ty["name"] else 4
            return Opq("f64", struct.unpack("<d" if n == 8 else "<f", b[off:off + n])[0])
        if k in ("ref", "ptr"):
            e = self.T(ty["e"])
            if off not in prov:
                if e["k"] == "slice" or e["k"] == "array":
                    return SliceV((), None) if e["k"] == "slice" else self.ref(st, Arr(()))
                if e["k"] == "str":
                    return SRef(())
                return self.ref(st, self.zst(ty["e"])) if self.size(ty["e"]) == 0 else Opq("ptr", int.from_bytes(b[off:off + 8], "little"))
            al = self.p.allocs[prov[off]]
            if al is None or ("mem" not in al):
                return Opq("ptrto", prov[off])
            mem = al["mem"]
            if mem is None:
                raise Unsupported("static without memory")
            base = int.from_bytes(b[off:off + 8], "little")
            mb = bytes.fromhex(mem["b"])
            mp = {o: a for o, a in mem["p"]}
            if e["k"] == "str":
                n = int.from_bytes(b[off + 8:off + 16], "little")
                s = mb[base:base + n]
                return SRef((s,) if s else ())
            if e["k"] == "slice":
                n = int.from_bytes(b[off + 8:off + 16], "little")
                sz = self.size(e["e"])
                return SliceV(tuple(self.decode(st, e["e"], mb, base + i * sz, mp) for i in range(n)), None)
            if e["k"] == "dyn":
                raise Unsupported("const dyn pointer")
            return self.ref(st, self.decode(st, ty["e"], mb, base, mp))
        if k == "array":
            sz = self.size(ty["e"])
            return Arr(tuple(self.decode(st, ty["e"], b, off + i * sz, prov) for i in range(ty["n"])))
        if k == "tuple":
            if not ty["f"]:
                return UNIT
            offs = ty["layout"]["offsets"]
            return Tup(tuple(self.decode(st, x, b, off + offs[i], prov) for i, x in enumerate(ty["f"])))
        if k == "adt":
            if ty["def"] == "std::string::String":
                return StringV(())
            if ty["def"] == "std::vec::Vec":
                return VecV(())
            lay = ty["layout"]
            if ty["kind"] == "struct":
                offs = lay["offsets"]
                return Adt(t, 0, tuple(self.decode(st, f["t"], b, off + offs[i], prov) for i, f in enumerate(ty["v"][0]["f"])))
            if ty["kind"] == "enum":
                if "single" in lay:
                    vi = lay["single"]
                    offs = lay.get("offsets", [])
                else:
                    m = re.match(r"(Int \{ length: I(\d+)|Pointer)", lay["tag"])
                    n = int(m.group(2)) // 8 if m.group(2) else 8
                    to = off + lay["offsets"][lay["tag_field"]]
                    isptr = to in prov
                    tag = int.from_bytes(b[to:to + n], "little")
                    if lay["enc"] == "direct":
                        vi = None
                        for i, v in enumerate(ty["v"]):
                            if int(v["d"]) % (1 << (8 * n)) == tag:
                                vi = i
                    else:
                        e = lay["enc"]
                        if isptr:
                            vi = e["untagged"]
                        else:
                            rel = (tag - int(e["start"])) % (1 << (8 * n))
                            if rel <= e["to"] - e["from"]:
                                vi = e["from"] + rel
                            else:
                                vi = e["untagged"]
                    offs = lay["voffsets"][vi]
                return Adt(t, vi, tuple(self.decode(st, f["t"], b, off + offs[i], prov) for i, f in enumerate(ty["v"][vi]["f"])))
        raise Unsupported("decode constant of " + str(ty.get("name", k)))

    def size(self, t):
        ty = self.T(t)
        k = ty["k"]
        if k == "int":
            return ty["bits"] // 8
        if k == "bool":
            return 1
        if k == "char":
            return 4
        if k == "float":
            return 8 if "64" in ty["name"] else 4
        if k in ("ref", "ptr"):
            return 16 if self.T(ty["e"])["k"] in ("str", "slice", "dyn") else 8
        if k == "array":
            return ty["n"] * self.size(ty["e"])
        if k in ("adt", "tuple", "closure"):
            return ty["layout"]["size"] if ty.get("layout") else 0
        if k in ("fndef", "never"):
            return 0
        if k == "fnptr":
            return 8
        raise Unsupported("size of " + k)

    # ------------------------------------------------------------- operands
    def operand(self, st, fr, o):
        if "c" in o:
            return self.load(st, self.place(st, fr, o["c"]))
        if "m" in o:
            return self.load(st, self.place(st, fr, o["m"]))
        if "k" in o:
            return self.konst(st, o["k"])
        if "rc" in o:
            return o["rc"] == "OverflowChecks"
        raise Unsupported("operand")

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dst_ty=None):
        """-> list of (state, value)"""
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k in ("ref", "addr"):
            pl = self.place(st, fr, r[1])
            if pl[0] == "v":
                v = pl[1]
                if isinstance(v, (SRef, SliceV, DynP, Opq)):
                    return [(st, v)]
                return [(st, self.ref(st, v))]
            v = self.load_raw(st, pl)
            return [(st, Ref(pl[1], pl[2]))]
        if k == "agg":
            kind, ops = r[1], [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == "tuple":
                return [(st, Tup(tuple(ops)))]
            if kind[0] == "array":
                return [(st, Arr(tuple(ops)))]
            if kind[0] == "adt":
                return [(st, Adt(kind[1], kind[2], tuple(ops)))]
            if kind[0] == "closure":
                return [(st, Clo(kind[1], tuple(ops)))]
            raise Unsupported("aggregate " + str(kind))
        if k == "bin" or k == "cbin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4], k == "cbin")
        if k == "un":
            x = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(x, bool) or isinstance(x, (Cmp, And, Or, InL, SEq, BV)):
                    return [(st, neg(x))]
                x = st.norm(x)
                if isinstance(x, int):
                    lo, hi = self.int_range(r[3])
                    return [(st, ~x if lo < 0 else hi - x)]
                raise Unsupported("bitwise not")
            if r[1] == "Neg":
                if isinstance(x, Opq):
                    return [(st, fop("neg", x))]
                lo, hi = self.int_range(r[3])
                out = []
                for s, b in st.branch(cmp("==", x, lo)):
                    out.append((s, lo if b else scale(s.norm(x), -1)))
                return out
            if r[1] == "PtrMetadata":
                if isinstance(x, SRef):
                    return [(st, st.length(x.r))]
                if isinstance(x, SliceV):
                    return [(st, len(self.seq(st, x)))]
                if isinstance(x, Ref):
                    return [(st, len(self.seq(st, x)))]
            raise Unsupported("unop " + r[1])
        if k == "discr":
            v = self.load(st, self.place(st, fr, r[1]))
            return [(s, self.discr_of(a, r[2])) for s, a in self.variants(st, v)]
        if k == "len":
            v = self.load(st, self.place(st, fr, r[1]))
            return [(st, len(self.seq(st, v)))]
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4])
        if k == "repeat":
            return [(st, Arr((self.operand(st, fr, r[1]),) * r[2]))]
        raise Unsupported("rvalue " + k)

    def discr_of(self, a, t):
        if isinstance(a, Adt):
            ty = self.T(a.ty or t)
            if ty["k"] == "adt" and ty["kind"] == "enum":
                d = int(ty["v"][a.var]["d"])
                m = re.match(r"Int \{ length: I(\d+), signed: true", (ty.get("layout") or {}).get("tag") or "")
                if m:
                    for bits in (int(m.group(1)), 64):
                        if 1 << (bits - 1) <= d < 1 << bits:
                            return d - (1 << bits)
                return d
            return a.var
        if isinstance(a, Opq) and a.kind == "enum":
            return a.d
        raise Unsupported("discriminant of %r" % (a,))

    def cast(self, st, kind, v, to, frm):
        tt = self.T(to)
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                ft = self.T(frm)
                # pointee types
                a, b = self.unsize_pair(frm, to)
                if self.T(b)["k"] == "dyn":
                    tr = self.T(b).get("trait")
                    if isinstance(v, DynP):
                        return [(st, v)]
                    return [(st, DynP(v, a, tr))]
                if self.T(b)["k"] == "slice":
                    if isinstance(v, Ref):
                        tgt = self.load(st, ("c", v.cell, v.path))
                        return [(st, SliceV(self.seq(st, tgt), v))]
                    if isinstance(v, BoxV):
                        return [(st, v)]
                raise Unsupported("unsize cast")
            return [(st, v)]
        if kind == "IntToInt":
            if isinstance(v, (bool, Cmp, And, Or, InL, SEq, BV)):
                return [(s, 1 if b else 0) for s, b in st.branch(v)]
            if isinstance(v, Adt):
                v = self.discr_of(v, frm)
            lo, hi = self.int_range(to)
            v = st.norm(v)
            a, b = st.bounds(v)
            if a is not None and b is not None and a >= lo and b <= hi:
                return [(st, v)]
            return self.wrap(st, v, lo, hi)
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "Subtype", "FnPtrToPtr"):
            if kind == "Transmute" and tt["k"] not in ("ref", "ptr", "adt"):
                raise Unsupported("transmute to " + tt["k"])
            return [(st, v)]
        if kind == "IntToFloat":
            return [(st, fop("int2f", v if not isinstance(v, Lin) else st.norm(v)))]
        if kind == "FloatToInt":
            return self.float_to_int(st, v, to)
        raise Unsupported("cast " + kind)

    def float_to_int(self, st, v, to):
        raise Unsupported("float to int")

    def unsize_pair(self, a, b):
        ta, tb = self.T(a), self.T(b)
        if ta["k"] in ("ref", "ptr") and tb["k"] in ("ref", "ptr"):
            return self.unsize_pair(ta["e"], tb["e"])
        if ta["k"] == "adt" and tb["k"] == "adt" and ta["def"] == tb["def"]:
            return self.unsize_pair(ta["args"][0], tb["args"][0])
        return a, b

    def wrap(self, st, v, lo, hi):
        """value of v modulo the type's range"""
        v = st.norm(v)
        m = hi - lo + 1
        if isinstance(v, int):
            return [(st, (v - lo) % m + lo)]
        out = []
        for s, b in st.branch(conj([cmp("<=", lo, v), cmp("<=", v, hi)])):
            if b:
                out.append((s, v))
            else:
                q = s.new_int(None, None, "q")
                r = s.new_int(lo, hi, "r")
                s2 = s.fork()
                if s2.add_pc(cmp("==", sub(v, r), scale(q, m))):
                    out.append((s2, r))
        return out

    def binop(self, st, op, a, b, t, checked):
        if isinstance(a, Opq) and a.kind == "f64" or isinstance(b, Opq) and b.kind == "f64":
            return [(st, self.fbin(st, op, a, b))]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            o = {"Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}[base]
            isb = lambda x: isinstance(x, (bool, Cmp, And, Or, InL, SEq, BV))
            if isb(a) or isb(b):
                if isinstance(a, bool):
                    a, b = b, a
                if isinstance(b, bool):
                    if o in ("==", "!="):
                        return [(st, a if (b == (o == "==")) else neg(a))]
                out = []
                for s, x in st.branch(a):
                    for s2, y in s.branch(b):
                        out.append((s2, {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]))
                return out
            if isinstance(a, (Ref, DynP, SRef)) or isinstance(b, (Ref, DynP, SRef)):
                raise Unsupported("pointer comparison")
            return [(st, cmp(o, self.as_int(a), self.as_int(b)))]
        if base in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, (bool, Cmp, And, Or, InL, SEq, BV)):
                if base == "BitAnd":
                    return [(st, conj([a, b]))]
                if base == "BitOr":
                    return [(st, disj([a, b]))]
                out = []
                for s, x in st.branch(a):
                    out.append((s, neg(b) if x else b))
                return out
            a, b = st.norm(a), st.norm(b)
            if isinstance(a, int) and isinstance(b, int):
                return [(st, {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[base])]
            raise Unsupported("bit operation on symbolic integers")
        a, b = st.norm(self.as_int(a)), st.norm(self.as_int(b))
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                v = add(a, b)
            elif base == "Sub":
                v = sub(a, b)
            elif isinstance(a, int):
                v = scale(b, a)
            elif isinstance(b, int):
                v = scale(a, b)
            else:
                raise Unsupported("nonlinear multiplication")
            lo, hi = self.int_range(t)
            inr = conj([cmp("<=", lo, v), cmp("<=", v, hi)])
            if "WithOverflow" in op or checked:
                return [(st, Tup((v, neg(inr))))]
            if "Unchecked" in op:
                return [(st, v)]
            return self.wrap(st, v, lo, hi)
        if base in ("Div", "Rem"):
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Unsupported("division by zero value")
                q = abs(a) // abs(b)
                if (a < 0) != (b < 0):
                    q = -q
                return [(st, q if base == "Div" else a - q * b)]
            if isinstance(b, int) and b != 0:
                out = []
                for s, ng in st.branch(cmp("<", a, 0)):
                    x = scale(a, -1) if ng else a
                    d = abs(b)
                    q = s.new_int(0, None, "q")
                    r = s.new_int(0, d - 1, "r")
                    s = s.fork()
                    if not s.add_pc(cmp("==", x, add(scale(q, d), r))):
                        continue
                    lo, hi = s.bounds(x)
                    if hi is not None:
                        n = q.v[0][0]
                        if n in s.rng and n not in s.alias:
                            s.rng[n] = (0, hi // d)
                    if base == "Div":
                        v = scale(q, -1) if (ng != (b < 0)) else q
                    else:
                        v = scale(r, -1) if ng else r
                    out.append((s, v))
                return out
            raise Unsupported("symbolic division")
        if base in ("Shl", "Shr"):
            if isinstance(a, int) and isinstance(b, int):
                lo, hi = self.int_range(t)
                v = a << b if base == "Shl" else a >> b
                return self.wrap(st, v, lo, hi)
        if base == "Cmp":
            out = []
            for s, lt in st.branch(cmp("<", a, b)):
                if lt:
                    out.append((s, Adt(None, 0, ())._replace(var=0)))
                else:
                    for s2, eq in s.branch(cmp("==", a, b)):
                        out.append((s2, Adt(None, 1 if eq else 2, ())))
            return [(s, self.ordering(x.var - 1)) for s, x in out]
        raise Unsupported("binop " + op)

    def ordering(self, i):
        t = None
        for k, ty in self.p.types.items():
            if ty["k"] == "adt" and ty["def"] == "std::cmp::Ordering":
                t = k
        return Adt(t, i + 1, ())

    def as_int(self, x):
        if isinstance(x, (int, Lin)) and not isinstance(x, bool):
            return x
        if isinstance(x, Adt) and not x.f:
            return self.discr_of(x, x.ty)
        raise Unsupported("integer expected, got %r" % (x if isinstance(x, Opq) else type(x).__name__,))

    def fbin(self, st, op, a, b):
        return fop(op, a, b)

    # ------------------------------------------------------------ execution
    def run(self, key, args, st):
        """execute function instance: list of (state, 'ret'|'panic', value)"""
        fn = self.p.fns.get(key)
        if fn is None:
            raise Unsupported("unknown function " + str(key))
        c = self.contracts.get(fn["name"])
        if c is not None:
            r = c(self, st, args, fn)
            if r is not NotImplemented:
                self.used_contracts[fn["name"]] = self.used_contracts.get(fn["name"], 0) + 1
                return r
        m = self.models.get(fn["name"]) or self.models.get(fn["def"])
        if m is None:
            for rxp, f in self.rmodels:
                if rxp.match(fn["name"]) or rxp.match(fn["def"]):
                    m = f
                    break
        if m is not None:
            nm = fn["def"]
            self.used_models[nm] = self.used_models.get(nm, 0) + 1
            r = m(self, st, args, fn)
            if r is not NotImplemented:
                return r
        if fn["body"] is None:
            c = self.ctor(fn["name"], args)
            if c is not None:
                return [(st, "ret", c)]
            raise Unsupported("no body or model for %s [%s]" % (fn["name"], fn["def"]))
        return self.exec_body(key, fn, args, st)

    def exec_body(self, key, fn, args, st):
        self.depth += 1
        if self.depth > MAXDEPTH:
            self.depth -= 1
            raise Unsupported("call depth at " + fn["name"])
        try:
            if fn["krate"] not in ("core", "alloc", "std"):
                self.used_fns[fn["name"]] = self.used_fns.get(fn["name"], 0) + 1
            body = fn["body"]
            fr = Frame(key, fn)
            n = len(body["locals"])
            st = st.fork()
            st.n[0] += 1
            base = st.n[0]
            st.n[0] += n
            for i in range(n):
                fr.locals[i] = base + i
                st.cells[base + i] = UNINIT
            st.cells[fr.locals[0]] = UNIT if self.T(body["locals"][0])["k"] == "tuple" and not self.T(body["locals"][0])["f"] else UNINIT
            sp = body.get("spread")
            if sp is not None and len(args) != body["nargs"]:
                args = list(args[:sp - 1]) + [Tup(tuple(args[sp - 1:]))]
            if len(args) != body["nargs"]:
                raise Unsupported("arity mismatch calling %s: %d vs %d" % (fn["name"], len(args), body["nargs"]))
            for i, a in enumerate(args):
                st.cells[fr.locals[i + 1]] = a
            out = []
            work = Work() if fn["name"] in self.loop_rules else []
            work.append((st, 0, {}))
            while work:
                s, bb, visits = work.pop()
                try:
                    self.step_block(s, fr, body, bb, visits, work, out)
                    if len(out) > MAXPATHS:
                        raise Budget("too many paths in " + fn["name"])
                    if self.budget is not None:
                        self.budget()
                except Budget as e:         # what is left is not explored
                    out.append((s, "unsup", str(e)))
                    out.extend((w[0], "unsup", str(e)) for w in work)
                    break
                except Unsupported as e:    # this path stays undecided, the others go on
                    out.append((s, "unsup", str(e)))
            # drop frame cells
            keep = []
            for s, k, v in out:
                keep.append((s, k, v))
            return keep
        finally:
            self.depth -= 1

    def step_block(self, st, fr, body, bb, visits, work, out):
        """execute one block; push continuations"""
        while True:
            blk = body["blocks"][bb]
            if self.loop_stop and self.loop_stop[-1][0] is fr and self.loop_stop[-1][1] == bb:
                if not visits.get("first"):
                    self.loop_stop[-1][2].append(st)
                    return
                visits = {"scan": bb}
            elif any(x[0] is fr and x[1] == bb for x in self.loop_stop):
                # a loop around the one being examined: it goes on there
                out.append((st, "head", (fr, bb)))
                return
            vc = visits.get(bb, 0) + 1
            if vc == 1 and self.invariants and visits.get("first") is None and visits.get("scan") != bb:
                from . import abstract
                r = abstract.loop_rule(self, st, fr, body, bb)
                if r is not None:
                    for o in r:
                        if o[1] == "head" and self.loop_stop and self.loop_stop[-1][0] is o[2][0] and self.loop_stop[-1][1] == o[2][1]:
                            self.loop_stop[-1][2].append(o[0])
                        else:
                            out.append(o)
                    return
            if vc > 1 or self.loop_rules:
                hook = self.loop_rules.get((fr.inst["name"]))
                if hook is not None:
                    visits = dict(visits)
                    self.loop_out = []
                    r = hook(self, st, fr, body, bb, visits)
                    if r is not None:
                        out.extend(self.loop_out)
                        for s2, b2, v2 in r:
                            work.append((s2, b2, v2))
                        return
                if vc > self.maxvisits and vc > 1:
                    b = self.bounded.get("loop")
                    raise Unsupported("loop bound in %s at %s" % (fr.inst["name"], blk["l"]))
            visits = dict(visits)
            visits[bb] = vc
            states = [st]
            for s_ in blk["s"]:
                nxt = []
                for s in states:
                    nxt.extend(self.stmt(s, fr, s_))
                states = nxt
            if len(states) != 1:
                for s in states:
                    self.term(s, fr, body, blk, visits, work, out)
                return
            st = states[0]
            t = blk["t"]
            if t["k"] == "goto":
                bb = t["to"]
                continue
            if t["k"] == "drop":
                bb = t["to"]
                continue
            self.term(st, fr, body, blk, visits, work, out)
            return

    def stmt(self, st, fr, s):
        try:
            return self.stmt1(st, fr, s)
        except NeedConcrete as e:
            out = []
            for s2 in self.concretise(st, e):
                out.extend(self.stmt(s2, fr, s))
            return out

    def concretise(self, st, e):
        """case split on the value of an index local"""
        out = []
        rest = [st]
        for j in range(e.n):
            nx = []
            for s in rest:
                for s2, b in s.branch(cmp("==", e.val, j)):
                    if b:
                        s2 = s2.fork()
                        s2.cells[e.cell] = j
                        out.append(s2)
                    else:
                        nx.append(s2)
            rest = nx
        if rest:
            raise Unsupported("index not bounded")
        return out

    def stmt1(self, st, fr, s):
        if s[0] == "=":
            res = self.rvalue(st, fr, s[2])
            out = []
            for s2, v in res:
                if len(res) > 1 and s2 is st:
                    s2 = s2.fork()
                pl = self.place(s2, fr, s[1])
                self.store(s2, pl, v)
                out.append(s2)
            return out
        if s[0] == "setd":
            pl = self.place(st, fr, s[1])
            v = self.load(st, pl)
            self.store(st, pl, Adt(getattr(v, "ty", None), s[2], v.f if hasattr(v, "f") else ()))
            return [st]
        if s[0] == "assume":
            b = self.operand(st, fr, s[1])
            return st.assume(b)
        raise Unsupported("statement " + s[0])

    def term(self, st, fr, body, blk, visits, work, out):
        try:
            self.term1(st, fr, body, blk, visits, work, out)
        except NeedConcrete as e:
            for s2 in self.concretise(st, e):
                self.term(s2, fr, body, blk, visits, work, out)

    def term1(self, st, fr, body, blk, visits, work, out):
        t = blk["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            work.append((st, t["to"], visits))
        elif k == "return":
            out.append((st, "ret", self.expand(st, st.cells[fr.locals[0]])))
        elif k == "switch":
            v = self.operand(st, fr, t["on"])
            if isinstance(v, (bool, Cmp, And, Or, InL, SEq, BV)):
                for s, b in st.branch(v):
                    tgt = t["else"]
                    for val, to in t["br"]:
                        if int(val) == (1 if b else 0):
                            tgt = to
                    work.append((s if s is not st else s.fork(), tgt, visits))
                return
            v = self.as_int(v)
            cur = [st]
            for val, to in t["br"]:
                val = int(val)
                if isinstance(v, int) and v < 0 and any(v + (1 << b) == val for b in (8, 16, 32, 64, 128)):
                    val = v
                if val >= 1 << 63:
                    val2 = val
                    lo, hi = st.bounds(v)
                    if lo is not None and lo < 0:
                        for bits in (8, 16, 32, 64, 128):
                            if val < 1 << bits:
                                val2 = val - (1 << bits)
                                break
                    val = val2
                elif isinstance(v, (int, Lin)):
                    lo, hi = st.bounds(v)
                    if lo is not None and lo < 0:
                        # sign-extended small types: switch values are unsigned
                        for bits in (8, 16, 32, 64, 128):
                            if (1 << (bits - 1)) <= val < (1 << bits) and hi is not None and hi < (1 << (bits - 1)):
                                val -= 1 << bits
                                break
                nxt = []
                for s in cur:
                    for s2, b in s.branch(cmp("==", v, val)):
                        if b:
                            work.append((s2.fork() if s2 is st else s2, to, visits))
                        else:
                            nxt.append(s2)
                cur = nxt
                if not cur:
                    break
            for s in cur:
                work.append((s, t["else"], visits))
        elif k == "assert":
            c = self.operand(st, fr, t["cond"])
            if not t["exp"]:
                c = neg(c)
            for s, b in st.branch(c):
                if b:
                    work.append((s if s is not st else s.fork(), t["to"], visits))
                else:
                    out.append((s, "panic", "%s at %s" % ("/".join(str(x) for x in t["msg"] if isinstance(x, str)), blk["l"])))
        elif k == "call":
            self.call_term(st, fr, t, blk, visits, work, out)
        elif k == "unreachable":
            # reaching it would be undefined behaviour; only legal if infeasible
            if st.feasible():
                raise Unsupported("unreachable reached at " + blk["l"])
        elif k in ("resume", "abort"):
            raise Unsupported(k)
        else:
            raise Unsupported("terminator " + k)

    def call_term(self, st, fr, t, blk, visits, work, out):
        args = [self.operand(st, fr, a) for a in t["args"]]
        if t["callee"] is None:
            f = self.operand(st, fr, t["f"])
            res = self.call_value(st, f, args)
        else:
            key = t["callee"]
            fn = self.p.fns.get(key)
            if fn is None:
                raise Unsupported("unresolved callee " + str(key))
            if fn["body"] is not None and args and re.search(r"\{closure#\d+\}$", fn["def"]) :
                # rust-call ABI: (closure, (args...)) -> (closure, args...)
                a0 = self.expand(st, args[0])
                if len(args) == 2 and isinstance(args[1], Tup):
                    args = [a0] + list(args[1].f)
                st = st.fork()
                want_ref = self.T(fn["body"]["locals"][1])["k"] == "ref"
                if want_ref and isinstance(a0, Clo):
                    args[0] = self.ref(st, a0)
                elif not want_ref and isinstance(a0, Ref):
                    args[0] = self.deref(st, a0)
            try:
                res = self.dispatch(key, fn, args, st)
            except Unsupported as e:
                if not getattr(e, "tagged", False):
                    e.tagged = True
                    e.args = ("%s [in %s at %s]" % (e.args[0], fr.inst["name"], blk["l"]),)
                raise
        for s, k, v in res:
            if k == "ret":
                if t["to"] is None:
                    raise Unsupported("return from diverging call")
                if len(res) > 1:
                    s = s.fork()
                pl = self.place(s, fr, t["dst"])
                self.store(s, pl, v)
                work.append((s, t["to"], visits))
            else:
                out.append((s, k, v if " at " in str(v) else "%s at %s" % (v, blk["l"])))

    def dispatch(self, key, fn, args, st):
        if isinstance(fn["kind"], dict) and "virtual" in fn["kind"]:
            recv = args[0]
            d = self.find_dyn(st, recv)
            vt = self.p.vtables.get("%s|%s" % (d.ty, d.trait))
            if vt is None:
                raise Unsupported("vtable for " + str(d.trait))
            k2 = vt[fn["kind"]["virtual"]]
            return self.dispatch(k2, self.p.fns[k2], [d.p] + list(args[1:]), st)
        return self.run(key, args, st)

    def find_dyn(self, st, v):
        for _ in range(6):
            v = self.expand(st, v)
            if isinstance(v, DynP):
                return v
            if isinstance(v, (Ref, BoxV)):
                v = self.deref(st, v)
                continue
            break
        raise Unsupported("dyn receiver %r" % (type(v).__name__,))

    def call_value(self, st, f, args):
        """call a closure / fn item / fn pointer value with untupled args"""
        f = self.expand(st, f)
        for _ in range(4):
            if isinstance(f, Ref):
                g = self.load(st, ("c", f.cell, f.path))
                if isinstance(g, Clo):
                    return self.call_closure(st, g, f, args)
                f = g
            elif isinstance(f, (BoxV,)):
                f = self.deref(st, f)
            elif isinstance(f, DynP):
                f = f.p
            else:
                break
        if isinstance(f, Clo):
            return self.call_closure(st, f, None, args)
        if isinstance(f, FnV):
            fn = self.p.fns.get(f.key)
            if fn is None:
                # constructor
                raise Unsupported("fn value %r" % (f,))
            return self.dispatch(f.key, fn, args, st)
        if isinstance(f, Opq) and f.kind == "pyfn":
            return f.d(self, st, args)
        raise Unsupported("call of %r" % (f if isinstance(f, Opq) else type(f).__name__,))

    def ctor(self, name, args):
        """a tuple variant or tuple struct used as a function"""
        owner, _, var = name.rpartition("::")
        for t, ty in self.p.types.items():
            if ty["k"] == "adt" and ty.get("name") in (owner, name):
                for j, v in enumerate(ty["v"]):
                    if v["n"] == var and len(v["f"]) == len(args):
                        return Adt(t, j, tuple(args))
        return None

    def call_closure(self, st, clo, ref, args):
        ty = self.T(clo.ty)
        key = ty["fn"]
        fn = self.p.fns[key]
        body = fn["body"]
        if body is None:
            raise Unsupported("closure body missing: " + fn["name"])
        selfty = self.T(body["locals"][1])
        st = st.fork()
        if selfty["k"] == "ref":
            if ref is None:
                ref = self.ref(st, clo)
            a0 = ref
        else:
            a0 = clo
        return self.exec_body(key, fn, [a0] + list(args), st)


def fop(op, *xs):
    import operator
    vals = []
    for x in xs:
        if isinstance(x, Opq) and x.kind == "f64" and isinstance(x.d, float):
            vals.append(x.d)
        elif isinstance(x, Opq) and x.kind == "f64" and isinstance(x.d, tuple) and x.d[0] == "sym" and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            vals.append("pos")          # a positive finite double, known through its decimal text
        elif isinstance(x, int) and not isinstance(x, bool) and op == "int2f":
            return Opq("f64", float(x))
        else:
            vals = None
            break
    if vals is not None and "pos" in vals:
        o = [x for x in vals if x != "pos"]
        if len(o) != 1 or not o[0] <= 0.0:
            raise Unsupported("comparison of a symbolic double")
        return (op in ("Gt", "Ge", "Ne")) if vals[0] == "pos" else (op in ("Lt", "Le", "Ne"))
    if vals is not None and len(vals) == 2 and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Add", "Sub", "Mul"):
        f = {"Eq": operator.eq, "Ne": operator.ne, "Lt": operator.lt, "Le": operator.le, "Gt": operator.gt, "Ge": operator.ge,
             "Add": operator.add, "Sub": operator.sub, "Mul": operator.mul}[op]
        r = f(*vals)
        return r if isinstance(r, bool) else Opq("f64", r)
    return Opq("f64", (op,) + tuple(x.d if isinstance(x, Opq) else x for x in xs))
