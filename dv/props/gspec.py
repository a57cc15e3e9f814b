"""Shared by C13-C26: entity builders, per-item projections of generated code, oracles over whole schemas."""
from .gcontracts import *
from .xsdref import *
from .xsdgen import schemas
from ..check import HARDER

UNC = lambda *a: None       # results rest on uninterpreted callee contracts: a failing path needs a failing input


def sfield(E, src, name, ty, mods="", comment=None):
    return adt(E, PT + "StructField", name=StringV(name), type_name=StringV(ty), source=enumv(E, PT + "StructFieldSource", src), type_modifiers=mod_vec(E, mods),
               **({} if comment is None else {"comment": some(StringV(comment))}))


def ecase(E, src, name, ty=None, mods="", comment=None):
    return adt(E, PT + "EnumCase", name=StringV(name), type_name=NONE if ty is None else some(StringV(ty)), source=enumv(E, PT + "EnumSource", src),
               type_modifiers=mod_vec(E, mods), **({} if comment is None else {"comment": some(StringV(comment))}))


SRC = {"Attribute": "A", "Element": "E", "Base": "B", "Choice": "C", "NA": "N"}
ESRC = {"Restriction": "R", "Choice": "C", "Union": "U"}


def sym_ns(st, k, what):
    """namespace argument: '-' none, 'd' default namespace, 'p' prefixed (symbolic prefix and URI)"""
    if k == "-":
        return None, None, None
    u = st.atom_rope(URITEXT, what + ".uri")
    p = st.atom_rope(NCNAME, what) if k == "p" else None
    return ns_value(p, u), p, u


_NQ = L.byteset(set(range(33, 256)) - set(b'"\\'))
URITEXT = L.UTF8 & (_NQ + _NQ.star())


def ns_conc(s, m, k, p, u):
    if k == "-":
        return "-"
    t = ev(s, m, u).decode()
    return "d" + t if p is None else "p%s %s" % (ev(s, m, p).decode(), t)


def code_text(t):
    """generated text without comment lines"""
    return "\n".join(l for l in t.split("\n") if not l.lstrip().startswith("//"))


def nows(t):
    return re.sub(r"\s+", "", t)


def wraps(t):
    out = []
    t = nows(t)
    while True:
        m = re.match(r"(Vec|Option)<(.*)>$", t)
        if not m:
            return out
        out.append(m.group(1))
        t = m.group(2)


def mods_wraps(mods):
    if "R" in mods:
        return ["Vec"]
    return [{"A": "Vec", "O": "Option"}[m] for m in reversed(mods) if m in "AO"]


# ------------------------------------------------------------------ whole schemas
def ikey(i):
    return "::".join(i["mod"] + (i["n"],))


def ast_items(a, r):
    """(expected, real) items of a schema, or a message"""
    text = dec(a)[0]
    if r[0] != "ok":
        return "generation fails (%s) for schema %s" % (r[1] and bytes.fromhex(r[1]).decode("utf-8", "replace")[:200] if len(r) > 1 else r[0], text[:3000]), None
    j = load(r)
    return Ref(text).items(), real_items(j)


def compare(a, r, proj, what):
    """first difference between expected and real projections, items in order"""
    e, g = ast_items(a, r)
    if isinstance(e, str):
        return e
    x = [p for p in (proj(i, True) for i in e) if p is not None]
    y = [p for p in (proj(i, False) for i in g) if p is not None]
    if x == y:
        return None
    for p, q in zip(x, y):
        if p != q:
            return "%s: expected %r, generated %r in schema %s" % (what, p, q, dec(a)[0][:4000])
    return "%s: expected %d items, generated %d (%r) in schema %s" % (what, len(x), len(y), (x[len(y):] or y[len(x):])[:1], dec(a)[0][:4000])


def fields_of(i):
    """struct fields, enum variants (without the catch-all) or the tuple's inner type"""
    if i["k"] == "struct":
        return i["f"]
    if i["k"] == "enum":
        return [v for v in i["v"] if v["n"] != "__Unknown__"]
    return [{"n": "0", "t": i["t"]}]


def corpus(n, seed):
    for t in schemas(2 * n * HARDER[0], seed):
        yield "ast", [t]


def hdr(xp="xs", tp="tt", tns="urn:t"):
    return '<%sschema xmlns%s="%s"%s>' % (xp + ":" if xp else "", ":" + xp if xp else "", XS,
                                         '' if tns is None else ' xmlns%s="%s" targetNamespace="%s"' % (":" + tp if tp else "", tns, tns))


def schema_of(body, xp="xs", tp="tt", tns="urn:t"):
    """body written with xs: and tt: prefixes"""
    x = xp + ":" if xp else ""
    t = tp + ":" if tp else ""
    return hdr(xp, tp, tns) + re.sub(r"(?<=[<\"/ ])xs:", x, re.sub(r"(?<=[\" ])tt:", t, body)) + "</%sschema>" % x


# ------------------------------------------------------------------ contracts of the field and case generators
NAME = QNAME_LIKE - L.EPS


def split_field(sk):
    """skeleton of a generated field -> (attributes, name, type)"""
    m = re.match(r"(?s)^(.*?)pub\s+(\S*?)\s*:\s*(.*?)\s*,\s*$", sk)
    return m.groups() if m else None


def verify_field(cx, group, src, tk, mods, judge, post, clauses, budget=60, comment=False):
    """contract of StructFieldGenerator::generate for every name, type and comment; post(s, text, g) -> (clause, bad states)"""
    E = cx.E

    def mk():
        st = State()
        tns, tp, tu = sym_ns(st, tk, "tns")
        g = {"n": st.atom_rope(NAME, "name"), "t": st.atom_rope(NAME, "type"), "tp": tp, "tu": tu, "c": st.atom_rope(UTF8, "doc") if comment else None}
        return st, [sfield(E, src, g["n"], g["t"], mods, g["c"]), opt_ns(tns), NONE], g

    def post2(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield from post(s, E.expand(s, v).r, g)

    def conc(s, m, g):
        c = None if g["c"] is None else ev(s, m, g["c"])
        return "ent", ["field", sx([ev(s, m, g["n"]), ev(s, m, g["t"]), SRC[src], mods, c]), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
    with using(E):
        cx.verify(group, "r_gen_field", mk, post2, conc, judge, pred=UNC, budget=budget, clauses=("no-panic",) + clauses)


def verify_case(cx, group, src, tk, mods, typed, judge, post, clauses, budget=60, comment=False):
    E = cx.E

    def mk():
        st = State()
        tns, tp, tu = sym_ns(st, tk, "tns")
        g = {"n": st.atom_rope(NAME, "name"), "t": st.atom_rope(NAME, "type") if typed else None, "tp": tp, "tu": tu, "c": st.atom_rope(UTF8, "doc") if comment else None}
        return st, [ecase(E, src, g["n"], g["t"], mods, g["c"]), opt_ns(tns), NONE], g

    def post2(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield from post(s, E.expand(s, v).r, g)

    def conc(s, m, g):
        c = None if g["c"] is None else ev(s, m, g["c"])
        t = None if g["t"] is None else ev(s, m, g["t"])
        return "ent", ["case", sx([ev(s, m, g["n"]), t, ESRC[src], mods, c]), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
    with using(E):
        cx.verify(group, "r_gen_case", mk, post2, conc, judge, pred=UNC, budget=budget, clauses=("no-panic",) + clauses)


def usx(t):
    """decode the replay's nested lists"""
    pos = [0]

    def go():
        if t[pos[0]] == "(":
            pos[0] += 1
            out = []
            while t[pos[0]] != ")":
                out.append(go())
            pos[0] += 1
            return out
        j = t.index(";", pos[0])
        b = bytes.fromhex(t[pos[0] + 1:j]).decode()
        pos[0] = j + 1
        return b
    return go()


def want_mods(t, mods):
    """skeleton of the type with its modifiers"""
    return py_modify(t, mods)


# ------------------------------------------------------------------ types with any number of fields, alternatives, nested types
def any_field(E):
    def gen(E_, st):
        s = st.fork()
        return [(s, E.ref(s, sfield(E, "Element", s.atom_rope(NAME, "fname"), s.atom_rope(NAME, "ftype"), "O", s.atom_rope(UTF8, "fdoc"))))]
    return Opq("abslist", gen)


def any_case(E):
    def gen(E_, st):
        s = st.fork()
        return [(s, E.ref(s, ecase(E, "Choice", s.atom_rope(NAME, "cname"), s.atom_rope(NAME, "ctype"), "O", s.atom_rope(UTF8, "cdoc"))))]
    return Opq("abslist", gen)


def any_entity(E):
    """an entity of unknown kind: only its text is used"""
    def gen(E_, st):
        s = st.fork()
        return [(s, E.ref(s, enumv(E, PT + "RsEntity", "Alias", adt(E, PT + "Alias", name=StringV(s.atom_rope(NAME, "sub"))))))]
    return Opq("abslist", gen)


def fields_cell(E, v):
    t = E.type_by_name(PT + "Struct")
    for f in E.T(t)["v"][0]["f"]:
        if f["n"] == "fields":
            return Adt(f["t"], 0, (0, Adt(E.T(f["t"])["v"][0]["f"][1]["t"], 0, (v,))))
    raise Unsupported("Struct.fields")


ENT_ROOT = {"struct": "r_gen_struct", "tuple": "r_gen_tuple", "enum": "r_gen_enum", "alias": "r_gen_alias", "import": "r_gen_import"}


def verify_entity(cx, group, kind, tk, build, judge, post, clauses, sexpr, names=CORE + ("generate", "field", "case"), budget=60, xk="-"):
    """contract of an entity generator; build(st, g) -> entity value, sexpr(g, e) -> the same entity for the replay (e evaluates a rope)"""
    E = cx.E

    def mk():
        st = State()
        tns, tp, tu = sym_ns(st, tk, "tns")
        g = {"tp": tp, "tu": tu}
        v = build(st, g)
        return st, [v, opt_ns(tns), NONE if xk == "-" else some(NSX)], g

    def post2(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield from post(s, E.expand(s, v).r, g)

    def conc(s, m, g):
        return "ent", [kind, sx(sexpr(g, lambda r: None if r is None else ev(s, m, r))), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
    with using(E, names), abstracting(E):
        cx.verify(group, ENT_ROOT[kind], mk, post2, conc, judge, pred=UNC, budget=budget, clauses=("no-panic",) + clauses)


@contextmanager
def abstracting(E, inv=(COMMENT, UTF8), split=(b"\n",)):
    old = E.invariants, E.abstract_split
    E.invariants, E.abstract_split = inv, split
    try:
        yield
    finally:
        E.invariants, E.abstract_split = old


def joined_ok(s, kind, sep):
    """the joined texts are exactly those of the list's elements, one each, in order: for an arbitrary element the text is the
    one the part generator gives for that very element (or it is left out when empty)"""
    for r, sp, outs in s.ghost.get("joined", ()):
        texts = [(t, x) for t, x in outs if x is not None]
        if not texts or s.const_str(sp) != sep:
            continue
        if all(lookup_part(t, kind, x) for t, x in texts):
            return r
    return None


def lookup_part(t, kind, x):
    tab = t.ghost.get(kind, ())
    return len(tab) >= 1 and t.rope(tab[-1][1]) == t.rope(x)
