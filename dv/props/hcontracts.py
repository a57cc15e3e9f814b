"""Contracts of the functions that give a structure the fields of its bases and attribute groups
(xsd_parser::parser::types, xsd_parser::parser::parse_schema_element), each verified for its own body in c18.py.

A structure is opaque: its lists are named by its tag.  Struct::extend_base turns its fields into the list ("ext", tag), whatever that is: the
postcondition says which list it is, given those of the bases (recursion is decided by the contract, for extensions without
a cycle).  What is called for its effect is logged in the ghost "fs"."""
from .pcontracts import *
from .wcontracts import with_contracts, map_get, wstate
from .. import models as M
from .. import xmlmodels as X
from .. import abstract as A
from ..models import rmodel, ret, AbsIt, it_next, iter_of, is_panic, rope_of
from ..terms import Ref

TY = PP + "types::"
STRUCT_T, FIELD_T, ENTITY_T = TY + "Struct", TY + "StructField", TY + "RsEntity"


# ------------------------------------------------------------------ models
@rmodel(r"^std::iter::Iterator::partition$")
def m_partition(E, st, a, fn):
    it, f = iter_of(E, st, a[0]), a[1]
    if not isinstance(it, AbsIt):
        raise Unsupported("partition")

    def half(E_, s0, want):
        out = []
        for s, x, n in it_next(E_, s0.fork(), it):
            if x is None:
                continue
            if is_panic(x):
                raise Unsupported("panic in partition")
            s = s.fork()
            for s2, k, v in E_.call_value(s, f, [E_.ref(s, x)]):
                if k != "ret":
                    raise Unsupported("panic in partition")
                for s3, b in s2.branch(v):
                    if b == want:
                        out.append((s3, x))
                    else:
                        E_.dropped.append(s3)
        return out
    st = st.fork()
    at = st.fork()
    return ret(st, Tup(tuple(Opq("abslist", A.asof(at, lambda E_, s, b=b: half(E_, s, b))) for b in (True, False))))


@rmodel(r"^<std::collections::HashMap<.*> as std::iter::Extend<.*>>::extend$")
def m_map_extend(E, st, a, fn):
    v, w = E.deref(st, a[0]), E.expand(st, a[1])
    if not (isinstance(v, Opq) and v.kind == "omap" and isinstance(w, Opq) and w.kind == "omap" and "fs" in st.ghost):
        raise Unsupported("extend of a map")
    return ret(log(st, ("extend", v.d, w.d)), UNIT)


def log(st, ev):
    s = st.fork()
    s.ghost["fs"] = s.ghost.get("fs", ()) + (ev,)
    return s


# ------------------------------------------------------------------ contracts at call sites
def field_of(E, st, r, name):
    v = E.deref(st, r)
    for f, x in zip(E.T(v.ty)["v"][v.var]["f"], v.f):
        if f["n"] == name:
            return E.expand(st, x)
    raise Unsupported("field " + name)


def tag_of(E, st, r, name):
    """the tag of an opaque value, from one of its lists"""
    x = field_of(E, st, r, name)
    if isinstance(x, CellV):
        x = E.expand(st, st.cells[x.cell])
    t = getattr(x.d, "term", None) if isinstance(x, Opq) and x.kind == "abslist" else None
    if t is None or t[-1] != name:
        return None
    return t[:-1]


def is_root(st, key):
    if st.ghost.get("self") == key:
        st.ghost["self"] = None
        return True
    return False


def mapof(E, st, r):
    v = E.deref(st, r)
    while isinstance(v, Ref):
        v = E.deref(st, v)
    if not (isinstance(v, Opq) and v.kind == "omap"):
        raise Unsupported("map of unknown form")
    return v.d


def changed(E, st, a, what):
    """the fields of the structure become the list (what, tag)"""
    t = tag_of(E, st, a[0], "subtypes")
    if t is None:
        raise Unsupported("structure of unknown form")
    c = field_of(E, st, a[0], "fields")
    m = mapof(E, st, a[1])
    cur = E.expand(st, st.cells[c.cell])
    term = getattr(cur.d, "term", None) if isinstance(cur, Opq) else None
    new = (what,) + t + ("fields",)
    if term not in (new, t + ("fields",)):
        raise Unsupported("a structure that is being changed")
    s = log(st, (what, t, m))
    s.cells[c.cell] = olist(E, new, E.type_by_name(FIELD_T))
    return [(s, "ret", UNIT)]


def c_extend(E, st, a, fn):
    if is_root(st, "extend_base"):
        return NotImplemented
    return changed(E, st, a, "ext")


def c_groups(E, st, a, fn):
    if is_root(st, "extend_attribute_group"):
        return NotImplemented
    return changed(E, st, a, "grp")


def c_field(E, st, a, fn):
    if is_root(st, "field"):
        return NotImplemented
    t = tag_of(E, st, a[0], "subtypes")
    if t is None:
        raise Unsupported("field of unknown form")
    return [(log(st, ("fext", t, mapof(E, st, a[1]))), "ret", UNIT)]


def c_map(E, st, a, fn):
    if is_root(st, "get_types_map"):
        return NotImplemented
    t = tag_of(E, st, a[0], "subtypes")
    if t is None:
        raise Unsupported("structure of unknown form")
    return [(st, "ret", Opq("omap", ("typesof", t)))]


def c_structs(E, st, a, fn):
    if is_root(st, "structs"):
        return NotImplemented
    v = E.deref(st, a[0])
    if isinstance(v, Adt):
        v = next((Sym(v.ty, i) for i, x in st.res.items() if x == v and isinstance(i, tuple)), v)
    if not (isinstance(v, Sym) and isinstance(v.id, tuple)):
        raise Unsupported("structs of unknown form")
    tag = ("structs",) + v.id[1]

    def gen(E_, s0):
        s = s0.fork()
        r = s.fresh("item")
        trail(s, ("item", tag, r))
        return [(s, E_.ref(s, opaque(E_, s, E_.type_by_name(STRUCT_T), tag + (r,))))]
    gen.term = tag
    return [(st, "ret", Opq("abslist", gen))]


HCALLS = {TY + "Struct::extend_base": c_extend, TY + "Struct::extend_attribute_group": c_groups, TY + "StructField::extend_base": c_field,
          TY + "Struct::get_types_map": c_map, TY + "RsEntity::structs": c_structs}


# ------------------------------------------------------------------ postconditions
def drawn(E, s, lst):
    """an arbitrary element of the list: [(state, value, trail)], and the states in which an element is left out: [(state, trail)]"""
    n = len(s.ghost.get("trail", ()))
    recs, dr = elements(E, s, lst)
    return [(t, v, t.ghost.get("trail", ())[n:]) for t, v in recs], [(t, t.ghost.get("trail", ())[n:]) for t in dr]


def op(t, tag):
    x = t.ghost.get("op", {}).get(tag)
    if not isinstance(x, tuple):
        raise Unsupported("text of " + str(tag[-1]))
    return t.rope(x)


def isbase(t, tag, want):
    """states in which it is not so that the field is (is not) a base"""
    return [u for u, b in t.str_eq(op(t, tag + ("name",)), (b"__base__",)) if b != want]


def unchanged_item(E, t, v, tag):
    """the value is the opaque structure field of that tag"""
    from .pspec import match, St_, Op
    while isinstance(v, Ref):
        v = E.deref(t, v)
    return match(E, t, v, St_(base=tag))


def is_key(t, key, r):
    """key is what follows the last colon of r"""
    key, r = t.rope(key), t.rope(r)
    nocolon = L.UTF8 & L.byteset(set(range(256)) - {58}).star()
    if any(b.feasible() and not ok_ for b, ok_ in t.split(key, nocolon)):
        return False
    pre = A.suffix_free(r, key)
    if pre is None:
        return False
    return pre == () or all(ok_ or not b.feasible() for b, ok_ in t.split(pre, L.ALL + L.lit(b":")))


def mapkey(t, tab):
    """the last key asked for, and whether it is there"""
    ks = [(k, x) for (m, k), x in t.ghost.get("mget", {}).items() if m == tab]
    return ks[-1] if ks else None


def clash(E, t, tag, want, own):
    """states in which it is not (want: is) so that no own field has the same name as the field of that tag"""
    rs = t.ghost.get("alls", ())
    if not rs:
        return [t]
    src, recs, dr, b, isall = rs[-1]
    if b != (want != isall):
        return [t]
    nm = t.ghost["op"][tag + ("name",)]
    bad, seen = [], False
    for u, r in recs:
        it = u.ghost["elem"]
        if it[:2] != ("item", own):
            return [t]
        seen = True
        bad += [w for w, e in u.str_eq(op(u, it[1] + (it[2], "name")), u.rope(nm)) if e != (r != isall)]
    for u in dr:
        it = u.ghost["elem"]
        if it[:2] != ("item", own):
            return [t]
        bad += isbase(u, it[1] + (it[2],), True)
    return bad if seen or not recs else [t]


def own_part(E, s, x, own, based):
    """part of the list: every own field that is no base, unchanged and in order"""
    if getattr(x.d, "term", None) == own:
        if not based:
            return []
        # nothing was left out: there was no base
        for src, recs, dr, b, isall in s.ghost.get("alls", ()):
            if b is isall and recs and not dr and all(u.ghost["elem"][:2] == ("item", own) for u, r in recs):
                return [w for u, r in recs for w in isbase(u, own + (u.ghost["elem"][2],), r != isall)]
        return [s]
    recs, dr = drawn(E, s, x)
    bad = []
    for t, v, tr in recs:
        if len(tr) != 1 or tr[0][:2] != ("item", own):
            return [t]
        tag = own + (tr[0][2],)
        bad += unchanged_item(E, t, v, tag) + (isbase(t, tag, False) if based else [])
    for t, tr in dr:
        if len(tr) < 1 or tr[0][:2] != ("item", own) or not based:
            return [t]
        bad += isbase(t, own + (tr[0][2],), True)
    return bad if recs else [s]


def given_part(E, s, x, src, what, own, keyname, tab, based):
    """part of the list: for every base (reference to a group), in order, the fields of the structure of that name after extension,
    unchanged and in order, except those with the name of an own field"""
    recs, dr = drawn(E, s, x)
    bad = []
    for t, v, tr in recs:
        if len(tr) < 2 or tr[0][:2] != ("item", src) or tr[1][1][:2] != (what, "T") or tr[1][1][-1] != "fields" or len(tr[1][1]) != 4:
            return [t]
        o, g = src + (tr[0][2],), tr[1][1] + (tr[1][2],)
        if not is_key(t, tr[1][1][2], op(t, o + (keyname,))):
            return [t]
        bad += unchanged_item(E, t, v, g)
        if based:
            bad += isbase(t, o, True) + clash(E, t, g, False, own)
    for t, tr in dr:
        if len(tr) < 1 or tr[0][:2] != ("item", src):
            return [t]
        o = src + (tr[0][2],)
        if len(tr) == 1:
            k = mapkey(t, tab)
            if based and not isbase(t, o, False):
                continue
            if k is None or k[1] is not None or not is_key(t, k[0], op(t, o + (keyname,))):
                return [t]
        elif not based:
            return [t]
        else:
            bad += clash(E, t, tr[1][1] + (tr[1][2],), True, own)
    return bad if recs else [s]


def each_struct(E, evs, listtag, what, tab):
    """some event: for every structure in the list, in order, what(structure); nothing for other entities: (found, failing states)"""
    for e in evs:
        if e[0] != "each" or not e[1]:
            continue
        if not all(t.ghost.get("trail", ()) and t.ghost["trail"][-1][:2] == ("item", listtag) for t, l in e[1]):
            continue
        bad, n = [], 0
        for t, l in e[1]:
            tag = listtag + (t.ghost["trail"][-1][2],)
            x = t.res.get(("op", tag))
            if x is None:
                return True, [t]
            if var_name(E, x) == "Struct":
                n += 1
                if l != ((what, tag + ("Struct",), tab),):
                    bad.append(t)
            elif l:
                bad.append(t)
        return True, bad if n else [e[1][0][0]]
    return False, []


def each_field(E, evs, own, what, tab, based):
    """some event: for every own field (that is no base), what its anonymous types need"""
    for e in evs:
        if e[0] != "each":
            continue
        mine = [(t, l) for t, l in e[1] if t.ghost.get("trail", ()) and t.ghost["trail"][0][:2] == ("item", own)]
        hit, bad = False, []
        for t, l in mine:
            tag = own + (t.ghost["trail"][0][2],)
            if based and not isbase(t, tag, True):
                continue
            if ("fext", tag, tab) in l and what == "ext":
                hit = True
                continue
            f, b = each_struct(E, l, tag + ("subtypes",), what, tab)
            hit |= f
            bad += b if f else [t]
        if hit:
            return True, bad
    return False, []


def right_map(evs, tab):
    """nothing is extended from any other map"""
    return all(right_map([x for t, l in e[1] for x in l], tab) if e[0] == "each" else e[2] == tab for e in evs)


# ------------------------------------------------------------------ the functions
def struct_state(E, key, tn=STRUCT_T):
    st = wstate()
    st.ghost["fs"], st.ghost["self"] = (), key
    st.ghost["mval"] = {("types",): lambda E_, s, k: [(s, E_.ref(s, opaque(E_, s, E_.type_by_name(STRUCT_T), ("T", s.rope(k)))))]}
    a = E.ref(st, opaque(E, st, E.type_by_name(tn), ("self",)))
    return st, a, E.ref(st, Opq("omap", ("types",)))


def p_extend(E, s, k, v, g, groups=False):
    what, tab = "grp" if groups else "ext", ("types",)
    own = ("self", "fields")
    evs = s.ghost["fs"]
    ps = X.parts(E.expand(s, s.cells[field_of(E, s, g, "fields").cell]))
    if any(kd != "all" for kd, x in ps) or not ps:
        raise Unsupported("fields of unknown form")
    yield "own fields kept, in order", own_part(E, s, ps[0][1], own, not groups)
    if len(ps) == 1:
        # nothing is given when there is nothing to give
        yield "fields of the bases", [s] if groups or getattr(ps[0][1].d, "term", None) != own else []
    elif len(ps) == 2:
        yield "fields of the bases", given_part(E, s, ps[1][1], ("self", "attribute_groups") if groups else own, what, own, "original" if groups else "type_name", tab, not groups)
    else:
        raise Unsupported("fields of unknown form")
    f, bad = each_struct(E, evs, ("self", "subtypes"), what, tab)
    yield "anonymous types", bad if f else [s]
    f, bad = each_field(E, evs, own, what, tab, not groups)
    yield "anonymous types of fields", bad if f else [s]
    yield "one map", [] if right_map(evs, tab) else [s]


def p_field(E, s, k, v, g):
    f, bad = each_struct(E, s.ghost["fs"], ("self", "subtypes"), "ext", ("types",))
    yield "anonymous types", bad if f else [s]


def p_map(E, s, k, v, g):
    """the structure itself by its name, and those declared in it"""
    v = E.expand(s, v)
    if not (isinstance(v, Opq) and v.kind == "omap"):
        raise Unsupported("map of unknown form")
    evs = s.ghost["fs"]
    ins = [e for e in evs if e[0] == "insert"]
    nm = s.ghost["op"][("self", "name")]

    def own(e):
        x = e[3]
        return e[1] == v.d and s.rope(e[2]) == s.rope(nm) and isinstance(x, Ref) and E.deref(s, x) == E.deref(s, g)
    yield "itself by its name", [] if len(ins) == 1 and own(ins[0]) else [s]
    ok_ = [e for e in evs if e[0] == "each" and e[1] and all(t.ghost.get("trail", ()) and t.ghost["trail"][-1][:2] == ("item", ("self", "subtypes")) for t, l in e[1])]
    bad = []
    for t, l in ok_[0][1] if ok_ else []:
        tag = ("self", "subtypes", t.ghost["trail"][-1][2])
        x = t.res.get(("op", tag))
        if x is None or l != ((("extend", v.d, ("typesof", tag + ("Struct",))),) if var_name(E, x) == "Struct" else ()):
            bad.append(t)
    yield "those declared in it", bad if ok_ else [s]


def p_structs(E, s, k, v, g):
    """a structure itself; the structures of the alternatives of a choice; nothing else"""
    x = E.expand(s, E.deref(s, g))
    kind = var_name(E, x) if isinstance(x, Adt) else None
    v = E.expand(s, v)
    if kind is None:
        # not looked at
        yield "structures", [s]
    elif kind == "Struct":
        yield "structures", [] if isinstance(v, VecV) and len(v.xs) == 1 and E.deref(s, v.xs[0]) == E.expand(s, x.f[0]) else [s]
    elif kind == "Enum":
        recs, dr = drawn(E, s, v)
        sub = ("self", "Enum", "subtypes")
        bad = [t for t, y, tr in recs if not (len(tr) == 2 and tr[0][:2] == ("item", sub) and tr[1][:2] == ("item", ("structs",) + sub + (tr[0][2],)))]
        for t, y, tr in recs:
            if t not in bad:
                bad += unchanged_item(E, t, y, tr[1][1] + (tr[1][2],))
        yield "structures", bad + [t for t, tr in dr] if recs else [s]
    else:
        yield "structures", [] if isinstance(v, VecV) and not v.xs else [s]


def p_schema(E, s, k, v, g):
    """groups of the schema's attribute groups, then bases of the schema's types, for every structure of the schema"""
    evs = s.ghost["fs"]
    ty = ("file", "types")

    def over(e, l):
        return e[0] == "each" and e[1] and all(t.ghost.get("trail", ()) and t.ghost["trail"][0][:2] == ("item", l) for t, x in e[1])

    def structs(e, ev):
        """for every structure of every type: that event"""
        for t, x in e[1]:
            tr = t.ghost["trail"]
            if len(tr) == 1 and not x:
                continue            # a type without structures
            if len(tr) != 2 or tr[1][1] != ("structs",) + ty + (tr[0][2],) or x != (ev(tr[1][1] + (tr[1][2],)),):
                return False
        return any(x for t, x in e[1])
    named = [m for e in evs if over(e, ty) for t, x in e[1] for w, m, y in x if w == "extend"]
    grp = [m for e in evs if over(e, ("file", "attribute_groups")) for t, x in e[1] for w, m, y in x if w == "extend"]
    if not named or not grp:
        raise Unsupported("maps made in an unknown way")
    M1, M2 = named[0], grp[0]
    order = []
    for e in evs:
        if over(e, ty) and structs(e, lambda tag: ("extend", M1, ("typesof", tag))):
            order.append("map")
        elif over(e, ty) and structs(e, lambda tag: ("grp", tag, M2)):
            order.append("grp")
        elif over(e, ty) and structs(e, lambda tag: ("ext", tag, M1)):
            order.append("ext")
        elif over(e, ("file", "attribute_groups")):
            bad = [t for t, x in e[1] if (x != (("extend", M2, ("typesof", ("file", "attribute_groups", t.ghost["trail"][0][2], "Struct"))),)) == (var_name(E, t.res[("op", t.ghost["trail"][0][1] + (t.ghost["trail"][0][2],))]) == "Struct")
                   or x and var_name(E, t.res[("op", t.ghost["trail"][0][1] + (t.ghost["trail"][0][2],))]) != "Struct"]
            order.append("other" if bad else "gmap")
        else:
            order.append("other")
    yield "maps of the types and of the groups", [] if M1 != M2 and "map" in order and "gmap" in order else [s]
    yield "groups first, then bases", [] if sorted(order) == ["ext", "gmap", "grp", "map"] and order.index("grp") < order.index("ext") and order.index("gmap") < order.index("grp") and order.index("map") < order.index("ext") else [s]
    v = E.expand(s, v)
    yield "the file itself", [] if v == s.ghost["file"] else [s]


def c_parse_schema(E, st, a, fn):
    s = st.fork()
    t = fn["body"]["locals"][0]
    v = Adt(t, 0, tuple(olist(E, ("file", f["n"]), E.T(f["t"])["args"][0]) if f["n"] in ("types", "attribute_groups") else E.fresh(s, f["t"], "file." + f["n"]) for f in E.T(t)["v"][0]["f"]))
    s.ghost["file"] = v
    return [(s, "ret", v)]


def verify_hierarchy(cx, conc, judge, unc):
    from .gspec import abstracting
    calls = dict(HCALLS, **{PP + "schema::parse_schema": c_parse_schema})
    for name, fn, key, tn, post, two, clauses in (
            ("extend_base", "types::Struct::extend_base", "extend_base", STRUCT_T, p_extend, True, ("own fields kept, in order", "fields of the bases", "anonymous types", "anonymous types of fields", "one map")),
            ("extend_attribute_group", "types::Struct::extend_attribute_group", "extend_attribute_group", STRUCT_T, lambda *a: p_extend(*a, groups=True), True,
             ("own fields kept, in order", "fields of the bases", "anonymous types", "anonymous types of fields", "one map")),
            ("StructField::extend_base", "types::StructField::extend_base", "field", FIELD_T, p_field, True, ("anonymous types",)),
            ("get_types_map", "types::Struct::get_types_map", "get_types_map", STRUCT_T, p_map, False, ("itself by its name", "those declared in it")),
            ("RsEntity::structs", "types::RsEntity::structs", "structs", ENTITY_T, p_structs, False, ("structures",)),
            ("parse_schema_element", "parse_schema_element", None, None, p_schema, False, ("maps of the types and of the groups", "groups first, then bases", "the file itself"))):
        def mk(key=key, tn=tn, two=two):
            E = cx.E
            st, a, m = struct_state(E, key, tn or STRUCT_T)
            if tn is None:
                a = E.ref(st, node(("n", "n")))
            return st, [a, m] if two else [a], a

        def root(E, st, args, g, fn=fn):
            with with_contracts(E, calls), abstracting(E, split=b" "):
                return E.run(cx.prog.find(PP + fn), args, st)

        def post_(s, k, v, g, post=post):
            E = cx.E
            if k != "ret":
                return [("returns", [s])]
            with with_contracts(E, calls), abstracting(E, split=b" "):
                return list(post(E, s, k, v, g))
        cx.verify(name, root, mk, post_, conc, judge, pred=unc, clauses=clauses)
