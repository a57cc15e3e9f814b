"""The parser functions under contract: one entry per function, its precondition (kinds of the node and its parent, valid attributes)
and the form of its result.  verify_parser(cx, groups, judge) discharges those a property depends on."""
from .pspec import *
from ..genmodels import UNI

NCN = NAME
QN = (L.lit(b"tt:") | L.EPS) + NAME | L.lit(b"xs:string") | L.lit(b"xs:int")
NUM = L.rx("[0-9]{1,9}")
MANY = NUM & L.dec_cmp(">=", 2)
ZERO = NUM & L.dec_cmp("==", 0)
ATTR = {"name": NCN, "type": QN, "ref": QN, "base": QN, "itemType": QN, "use": L.lit(b"optional") | L.lit(b"required") | L.lit(b"prohibited"),
        "minOccurs": NUM, "maxOccurs": NUM | L.lit(b"unbounded"), "memberTypes": L.EPS | QN + (L.lit(b" ") + (QN | L.EPS)).star()}
CH = sorted(set((a, b) for a, b in UNI["is_alphanumeric"]) | {(45, 45)})
ASCII = L.byteset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)))
SIMPLE_ENUM = L.charset(tuple(CH)).star() & (L.ALL + ASCII + L.ALL)


def bad(b, s):
    return [] if b else [s]


# ---- specs: (E, s, v, n, p) -> pattern of the result, or a list of (clause, failing states)
def field(n, **o):
    return St_(**o)


def content(E, s, n, names):
    """id of the last child with one of these names"""
    c = picked(E, s, n, names, "last")
    if c is False:
        raise Unsupported("the content of the node is chosen in an unknown way")
    return c


CT = {"all", "choice", "complexContent", "group", "sequence", "simpleContent"}
EXT = {"all", "choice", "group", "sequence"}


def grp(n):
    return Li(("all", ("groups", n)))


def ats(n):
    return ("all", ("attrs", n))


def has_elements(E, s, c):
    """whether the node has a child element, as the code found out (by counting, or with any or all)"""
    for src, recs, dr, res, isall in s.ghost.get("alls", ()):
        if getattr(src, "children", None) == c:
            el = [(kinds(t, t.ghost["elem"]), b) for t, b in recs]
            if all(k <= ELEMENTS and b != isall or not k & ELEMENTS and b == isall for k, b in el) and not any(kinds(t, t.ghost["elem"]) & ELEMENTS for t in dr):
                return res != isall
    return picked(E, s, c, ELEMENTS, "count") is not None


def s_complex_type(E, s, v, n, p):
    nm = Tx(at(s, n, "name") if kinds(s, p) == {"schema"} else s.ghost.get("pname", {}).get(n))
    c = content(E, s, n, CT)
    if c is None or not has_elements(E, s, c):
        return Va(STRUCT, St_(name=nm, fields=Li(ats(n)), attribute_groups=grp(n), comment=Doc(n)))
    k, b = variant_of(E, s, c), ("ent", c)
    if k == STRUCT:
        return Va(STRUCT, St_(b, name=nm, fields=Li(("all", b + ("fields",)), ats(n)), attribute_groups=Li(("all", b + ("attribute_groups",)), ("all", ("groups", n)))))
    if k == ENUM:
        ch = Tx(tuple(nm.r) + (b"Choice",))
        f = St_(name=ch, type_name=ch, source=Va("Choice"))
        return Va(ENUM, St_(b, name=ch, subtypes=Li(Va(STRUCT, St_(name=nm, comment=Doc(n), fields=Li(ats(n), f), attribute_groups=grp(n))))))
    raise Unsupported("content of an unknown kind")


def base_field(E, s, n):
    return St_(name=Tx((b"__base__",)), type_name=Tx(at(s, n, "base")), comment=Doc(n), source=Va("Base"))


def s_extension(E, s, v, n, p):
    own = (ats(n), base_field(E, s, n))
    plain = Va(STRUCT, St_(fields=Li(*own), attribute_groups=grp(n), comment=Doc(n)))
    if kinds(s, p) == {"simpleContent"}:
        return plain
    c = content(E, s, n, EXT)
    if c is None or variant_of(E, s, c) != STRUCT:
        return plain
    b = ("ent", c)
    return Va(STRUCT, St_(b, fields=Li(("all", b + ("fields",)), *own), attribute_groups=Li(("all", b + ("attribute_groups",)), ("all", ("groups", n))), comment=Doc(n)))


def s_restriction(E, s, v, n, p):
    if kinds(s, p) == {"complexContent"}:
        return s_extension(E, s, v, n, p)
    w = inner(E, s, v, ENUM)
    plain = s.ghost.get("flags", {}).get(("plain", n))
    if w is not None:
        nm = s.ghost.get("pname", {}).get(n)
        return [("kind", bad(plain is not None and not [t for t, b in s.branch(plain) if not b], s)),
                ("result", match(E, s, v, Va(ENUM, St_(name=Tx(tuple(nm or ()) + (b"Enum",)), type_name=Tx(at(s, n, "base")), cases=Li(("all", ("cases", n))), source=Va("Restriction")))))]
    e = s.ghost.get("xl", {}).get(("cases", n))
    return [("kind", [] if e is not None and not [t for t, b in s.branch(cmp("==", e, 0)) if not b] or plain is not None and not [t for t, b in s.branch(plain) if b] else [s]),
            ("result", match(E, s, v, Va(TUPLE, St_(type_name=Tx(at(s, n, "base")), facets=Li(("all", ("facets", n)))))))]


def s_simple_type(E, s, v, n, p):
    c = content(E, s, n, ELEMENTS - {"annotation"})
    f = {"comment": Doc(n)}
    if kinds(s, p) == {"schema"}:
        f["name"] = Tx(at(s, n, "name"))
    return Va(variant_of(E, s, c), St_(("ent", c), **f))


def arr(E):
    return Va("Array")


def s_list(E, s, v, n, p):
    r = at(s, n, "itemType")
    if r:
        return Va(TUPLE, St_(type_name=Tx(r), type_modifiers=Li(arr(E))))
    c = s.ghost.get("fc", {}).get((n, "simpleType"))
    if r is False or c is None:
        raise Unsupported("item type of an unknown form")
    b = ("ent", c)
    if variant_of(E, s, c) == ENUM:
        own, out = s.ghost["op"][b + ("name",)], []
        for t, e in s.branch(InL(own, L.EPS, False)):
            # an anonymous union is named by the enclosing declaration
            nm = tuple(t.ghost.get("pname", {}).get(n) or ()) + (b"Union",) if e else own
            out += match(E, t, v, Va(TUPLE, St_(type_name=Tx(nm), subtypes=Li(Va(ENUM, St_(b, name=Tx(nm)))), type_modifiers=Li(arr(E)))))
        return [("result", out)]
    return Va(TUPLE, St_(b, type_modifiers=Li(("all", b + ("type_modifiers",)), arr(E))))


def s_union(E, s, v, n, p):
    u = Va("Union")
    out = []
    w = inner(E, s, v, ENUM)
    if w is None:
        # only a union with attributes of its own, which XML Schema does not know
        return [("result", [])]
    cs = fld(E, s, w, "cases")
    mt = at(s, n, "memberTypes")
    if mt is False:
        raise Unsupported("memberTypes not read")

    def words(E_, s_, lst):
        """one member per word of memberTypes, in order: only empty pieces are left out"""
        recs, dr = elements(E, s_, lst)
        o = []
        of = lambda t: t.ghost.get("elemof", ("", None))
        word = lambda t: of(t)[0] in ("split  ", "split_whitespace") and of(t)[1] == t.rope(mt)
        for t, x in recs:
            if is_panic(x) or not word(t):
                o.append(t)
                continue
            r = t.ghost["elem"]
            o += [z for z, b in t.branch(InL(r, L.EPS, False)) if b] + match(E, t, x, St_(name=Tx(r), type_name=Opt(Tx(r)), source=u))
        for t in dr:
            o += [z for z, b in t.branch(InL(t.ghost["elem"], L.EPS, False)) if not b] if word(t) else [t]
        return o

    def inline_type(E_, t, c, x):
        x = E.expand(t, x)
        k = variant_of(E, t, c)
        pos = t.ghost.get("poss", ())
        nm = fld(E, t, E.expand(t, x.f[0]), "name") if isinstance(x, Adt) and x.f else None
        if k is None or nm is None or len(pos) != 1 or not numbered(E, t, nm, b"EnumCaseType_", pos[0]):
            return [t]
        return match(E, t, x, Va(k, St_(("ent", c), name=lambda *_: True)))

    def inline_case(E_, t, c, x):
        nm, tn = fld(E, t, x, "name"), fld(E, t, x, "type_name")
        pos = t.ghost.get("poss", ())
        if len(pos) != 2 or not numbered(E, t, nm, b"EnumCase_", pos[1]):
            return [t]
        return match(E, t, x, St_(name=lambda *_: True, type_name=Opt(lambda E2, s2, y: numbered(E2, s2, y, b"EnumCaseType_", pos[0])), source=u))
    subs = children_map(n, {"simpleType"}, inline_type)
    parts = ((("map", words),) if mt is not None else ()) + (children_map(n, {"simpleType"}, inline_case),)
    return [("members", match(E, s, cs, Li(*parts))), ("inline-types", match(E, s, fld(E, s, w, "subtypes"), Li(subs))),
            ("result", match(E, s, w, St_(cases=lambda *_: True, subtypes=lambda *_: True, comment=Doc(n), type_name=Tx((b"String",)), source=u)))]


def numbered(E, s, v, prefix, pos):
    r = txt(E, s, v)
    if not r or not isinstance(r[0], bytes) or r[0] != prefix or len(r) != 2:
        return False
    pos = s.norm(pos)
    return pos.c == 0 and tuple(pos.v) == (("dec:" + r[1], 1),)


def s_element(E, s, v, n, p):
    pk = kinds(s, p)
    nm, ty, rf = at(s, n, "name"), at(s, n, "type"), at(s, n, "ref")
    mod = Li(Op(("modifier", n)))
    if pk == {"schema"}:
        if ty:
            return Va(ALIAS, St_(name=Tx(nm), original=Tx(ty), comment=Doc(n)))
        c = content(E, s, n, {"simpleType", "complexType"})
        if c is None:
            return Va(STRUCT, St_(name=Tx(nm), comment=Doc(n)))
        return Va(variant_of(E, s, c), St_(("ent", c), name=Tx(nm)))
    if pk <= {"sequence", "all"}:
        own = Tx(nm or rf)
        if not own.r:
            return [("result", [])]         # an element without a name or a reference
        if ty or rf:
            return Va(FIELD, St_(name=own, type_name=Tx(ty or rf), comment=Doc(n), source=Va("Element"), type_modifiers=mod))
        c = content(E, s, n, {"simpleType", "complexType"})
        t = Tx(tuple(nm) + (b"Type",))
        return Va(FIELD, St_(name=own, type_name=t, comment=Doc(n), source=Va("Element"), type_modifiers=mod, subtypes=Li(Va(variant_of(E, s, c), St_(("ent", c), name=t)))))
    if pk == {"choice"}:
        if not (nm or rf):
            return [("result", [])]
        return Va(CASE, St_(name=Tx(rf or nm), type_name=Opt(Tx(rf or ty)) if rf or ty else DEF, comment=Doc(n), type_modifiers=mod, source=Va("Choice")))
    raise Unsupported("place of an element")


def s_attribute(E, s, v, n, p):
    nm, ty, rf, use = at(s, n, "name"), at(s, n, "type"), at(s, n, "ref"), at(s, n, "use")
    if kinds(s, p) == {"schema"}:
        if rf:
            return Va(ALIAS, St_(name=Tx(rf), original=Tx(rf), comment=Doc(n)))
        if ty:
            return Va(ALIAS, St_(name=Tx(nm), original=Tx(ty), comment=Doc(n)))
        c = content(E, s, n, {"simpleType"})
        if c is None:
            return Va(STRUCT, St_(name=Tx(nm)))
        return Va(variant_of(E, s, c), St_(("ent", c), name=Tx(nm)))
    if use is False:
        raise Unsupported("use not read")
    m = []
    for w, x in (("optional", "Option"), ("required", "None"), ("prohibited", "Empty")):
        t = [z for z, b in s.str_eq(use, (w.encode(),)) if b and solve.check(z) != "unsat"] if use is not None else [s] if w == "optional" else []
        if t:
            m.append(x)
    return Va(FIELD, St_(name=Tx(nm or rf), type_name=Tx(ty or rf or (b"String",)), comment=Doc(n), source=Va("Attribute"), type_modifiers=Li(Va(m[0] if len(m) == 1 else "?"))))


def s_attribute_group(E, s, v, n, p):
    if kinds(s, p) == {"schema"}:
        return Va(STRUCT, St_(name=Tx(at(s, n, "name")), fields=Li(("all", ("attrs", n))), attribute_groups=grp(n)))
    r = Tx(at(s, n, "ref"))
    return Va(ALIAS, St_(name=r, original=r, comment=Doc(n)))


def s_any(src, name):
    return lambda E, s, v, n, p: Va(FIELD, St_(name=lambda *_: True, type_name=Tx((b"String",)), comment=lambda *_: True, source=lambda *_: True, type_modifiers=Li(Va("Empty"))))


def s_import(E, s, v, n, p):
    return Va(IMPORT, St_(name=Tx(at(s, n, "namespace") or ()), location=Tx(at(s, n, "schemaLocation") or ()), comment=DEF))


def s_content(E, s, v, n, p):
    return Ent(content(E, s, n, ELEMENTS - {"annotation"}))


def s_particle(E, s, v, n, p):
    return Va(STRUCT, St_(name=Tx(s.ghost.get("pname", {}).get(n)), comment=Doc(p), fields=Li(("all", ("elements", n)))))


def elem_fields(E, s, v, n, p):
    pn = s.ghost["parent-name"]

    def pat(E_, t, c, x):
        k, b = variant_of(E, t, c), ("ent", c)
        if k == FIELD:
            ty = t.ghost["op"][b + ("type_name",)]
            m = raw(E, t, fld(E, t, x, "type_modifiers"))
            ps = X.parts(m)
            rec = len(ps) == 2 and ps[1][0] == "one"
            # held in a vector exactly when the local name of the type is the enclosing one
            own = t.split(ty, L.ALL + L.lit(b":") + L.ALL)
            o = []
            for z, has in own:
                for z2, l in ([(z, ty)] if not has else [(y, w) for y, u_, w in z.cut(ty, L.ALL + L.lit(b":"), L.ALL - (L.ALL + L.lit(b":") + L.ALL))]):
                    o += [y for y, e in z2.str_eq(l, pn) if e != rec]
            want = Li(("all", b + ("type_modifiers",)), *([Va("Recursive")] if rec else []))
            return o + match(E, t, x, St_(b, type_modifiers=want))
        if k == ENUM:
            ch = Tx(tuple(pn) + (b"Choice",))
            return match(E, t, x, St_(name=ch, type_name=ch, source=Va("Element"), subtypes=Li(Va(ENUM, St_(b, name=ch)))))
        return [t]
    return Li(children_map(n, ELEMENTS - {"annotation"}, pat))


def s_choice(E, s, v, n, p):
    def pat(E_, t, c, x):
        return match(E, t, x, payload(t, c))
    return Va(ENUM, St_(cases=Li(children_map(n, {"element"}, pat)), type_name=Tx((b"String",)), source=Va("Choice")))


def payload(t, c):
    """the content of the entity of a child, unchanged"""
    return lambda E, s, v: bool(s.res.get(("ent", c)) is not None and s.res[("ent", c)].f[0] == v)


def s_attrs(E, s, v, n, p):
    return Li(children_map(n, {"attribute", "anyAttribute"}, lambda E_, t, c, x: match(E, t, x, payload(t, c))))


def s_groups(E, s, v, n, p):
    return Li(children_map(n, {"attributeGroup"}, lambda E_, t, c, x: match(E, t, x, payload(t, c))))


def s_facets(E, s, v, n, p):
    def pat(E_, t, c, x):
        k = kinds(t, c)
        if len(k) != 1:
            return [t]
        k = list(k)[0]
        if k == "whiteSpace":
            r = at(t, c, "value")
            want = lambda E2, s2, y: [z for z, b in s2.str_eq(r, (var_name(E, raw(E, s2, y)).lower().encode(),)) if not b]
            return match(E, t, x, St_(facet_type=Va("WhiteSpace", want), comment=Doc(c)))
        return match(E, t, x, St_(facet_type=Va(X.cap(k), Tx(at(t, c, "value"))), comment=Doc(c)))
    return Li(children_map(n, set(FACETS), pat))


def s_doc(E, s, v, n, p):
    """text of the first documentation of the first annotation"""
    a = s.ghost.get("fc", {}).get((n, "annotation"), ())
    if a == ():
        raise Unsupported("documentation found in an unknown way")
    d = s.ghost.get("fc", {}).get((a, "documentation"), ()) if a is not None else None
    if d == ():
        raise Unsupported("documentation found in an unknown way")
    r = s.ghost.get("xd", {}).get(d) if d is not None else None
    return Opt(Tx(r)) if r is not None else DEF


def s_find_child(E, s, v, n, p):
    """the first element child of the given name"""
    nm = s.ghost["tag"].decode()
    c = picked(E, s, n, {nm}, "first")
    if c is False:
        raise Unsupported("child found in an unknown way")
    return DEF if c is None else Opt(lambda E2, s2, x: x == node(c))


def s_parent_name(E, s, v, n, p):
    x = s.ghost.get("xp", {}).get(n, ())
    if x == ():
        raise Unsupported("parent not read")
    if x is None:
        return lambda *_: True
    if kinds(s, x) == {"schema"}:
        return Tx((b"SchemaElement",))
    nm = at(s, x, "name")
    if nm is False:
        raise Unsupported("name of the parent not read")
    return Tx(nm) if nm is not None else Tx(s.ghost.get("pname", {}).get(x))


def s_schema(E, s, v, n, p):
    def pat(E_, t, c, x):
        return is_ent(x, c) or isinstance(x, Adt) and t.res.get(("ent", c)) == x
    names = ELEMENTS - {"annotation", "attributeGroup"}
    tn = s.ghost.get("tns", {}).get(n, ())
    if tn == ():
        raise Unsupported("target namespace found in an unknown way")
    xs = [x for h, src, recs, dr, x in s.ghost.get("picks", ()) if getattr(src, "namespaces", None) == n]
    X_NS = b"http://www.w3.org/2001/XMLSchema"

    def xsd_ns(E2, s2, y):
        """an in-scope namespace that is the one of XML Schema; none only when there is none"""
        y = raw(E2, s2, y)
        if isinstance(y, Adt) and y.f:
            return [z for z, b in s2.str_eq(raw(E2, s2, E.deref(s2, y.f[0])).d[1], (X_NS,)) if not b]
        for h, src, recs, dr, x in s2.ghost.get("picks", ()):
            if getattr(src, "namespaces", None) != n or x is not None:
                continue
            uri = lambda t: t.ghost["elem"][2][1]
            if not [z for t in dr for z, b in t.str_eq(uri(t), (X_NS,)) if b]:
                return []
        return [s2]
    return St_(types=Li(children_map(n, names, pat)), attribute_groups=Li(children_map(n, {"attributeGroup"}, pat)),
               target_ns=DEF if tn is None else Opt(lambda E2, s2, y: y == tn), xsd_ns=xsd_ns)


def s_ns(E, s, v, n, p):
    """an in-scope namespace whose URI is targetNamespace"""
    r = at(s, n, "targetNamespace")
    if r is False:
        raise Unsupported("targetNamespace not read")
    if r is None:
        return DEF
    for h, src, recs, dr, x in s.ghost.get("picks", ()):
        if getattr(src, "namespaces", None) != n:
            continue
        out = []
        for t, y in recs:
            e = t.ghost["elem"]
            out += [z for z, b in t.str_eq(e[2][1], r) if not b]
        for t in dr:
            e = t.ghost["elem"]
            out += [z for z, b in t.str_eq(e[2][1], r) if b]
        q = [("selects", out)]
        if x is None:
            return q + [("result", match(E, s, v, DEF))]
        return q + [("result", match(E, s, v, Opt(lambda E2, s2, y: E.deref(s2, y) == E.deref(s2, x))))]
    raise Unsupported("target namespace found in an unknown way")


def s_cases(E, s, v, n, p):
    def keep(E_, t, tag):
        x = t.ghost["op"].get(tag + ("facet_type",))
        if x is None:
            raise Unsupported("facet not read")
        x = E.expand(t, x)
        return isinstance(x, Adt) and var_name(E, x) == "Enumeration"

    def pat(E_, t, tag, x):
        f = E.expand(t, t.ghost["op"][tag + ("facet_type",)])
        r = Tx(E.expand(t, f.f[0]).r)
        return match(E, t, x, St_(name=r, value=r, comment=Op(tag + ("comment",)), source=Va("Restriction")))
    return Li(item_map(("facets", "F"), pat, keep))


PLAIN = None


def s_plain(E, s, v, n, p):
    """only letters, digits and hyphens, and an ASCII letter or digit"""
    r = at(s, n, "value")
    return [("result", [z for z, b in s.branch(v) for z, c in z.branch(InL(r, SIMPLE_ENUM, False)) if b != c])]


def s_all_plain(E, s, v, n, p):
    for src, recs, dr, res, _ in s.ghost.get("alls", ()):
        if getattr(src, "children", None) != n:
            continue
        out = []
        for t, b in recs:
            c = t.ghost["elem"]
            if not kinds(t, c) <= {"enumeration"}:
                out.append(t)
            w = t.ghost.get("flags", {}).get(("simple", c))
            out += [z for z, x in t.branch(w) if x != b] if w is not None else [t]
        out += [t for t in dr if kinds(t, t.ghost["elem"]) & {"enumeration"}]
        return [("every-value", out), ("result", [z for z, b in s.branch(v) if b != res])]
    raise Unsupported("values decided in an unknown way")


def s_modifier(E, s, v, n, p):
    """Array when it may occur more than once, Option when it may be absent, None otherwise"""
    lo, hi = at(s, n, "minOccurs"), at(s, n, "maxOccurs")
    if lo is False or hi is False:
        raise Unsupported("occurrence not read")
    v = raw(E, s, v)
    lom = InL(lo, MANY, False) if lo is not None else False
    him = InL(hi, MANY | L.lit(b"unbounded"), False) if hi is not None else False
    lo0 = InL(lo, ZERO, False) if lo is not None else False
    out = []
    for z, a in s.branch(lom):
        for z1, b in z.branch(him):
            for z2, c in z1.branch(lo0):
                w = "Array" if a or b else "Option" if c else "None"
                if var_name(E, v) != w and solve.check(z2) != "unsat":
                    out.append(z2)
    return [("result", out)]


# ------------------------------------------------------------------ xsd_type and the dispatch of parse_node
def s_xsd_type(E, s, v, n, p):
    """the type is that of the element's name; of extensions and restrictions with the parent's; of facets with the value"""
    k, pk = kinds(s, n), kinds(s, s.ghost.get("xp", {}).get(n)) if s.ghost.get("xp", {}).get(n) is not None else frozenset()
    if k <= {"#text", "#other"}:
        return Va("UnknownElement")
    if len(k) != 1:
        raise Unsupported("type of an element of several names")
    k = list(k)[0]
    if k in ("extension", "restriction"):
        if len(pk) != 1 or not pk <= {"complexContent", "simpleContent", "simpleType"} or k == "extension" and pk == {"simpleType"}:
            return Va("XsdError") if not pk & {"complexContent", "simpleContent", "simpleType"} or k == "extension" and pk == {"simpleType"} else [("result", [s])]
        return Va(X.cap(k), Va(X.cap(list(pk)[0])))
    if k == "whiteSpace":
        def same_word(E2, s2, y):
            return [z for z, b in s2.str_eq(at(s2, n, "value") or (), (var_name(E, raw(E, s2, y)).lower().encode(),)) if not b]
        return Va("Facet", Va("WhiteSpace", same_word))
    if k in FACETS:
        return Va("Facet", Va(X.cap(k), Tx(at(s, n, "value"))))
    return Va(X.cap(k))


def bad_value(s, n, p):
    if not kinds(s, n) <= set(FACETS):
        return False
    r = at(s, n, "value")
    if r is None:
        return True
    return r is not False and kinds(s, n) == {"whiteSpace"} and [t for w in (b"preserve", b"replace", b"collapse") for t, b in s.str_eq(r, (w,)) if b]


PARSERS = {"all": "all::parse_all", "any": "any::parse_any", "anyAttribute": "any_attribute::parse_any_attribute", "attribute": "attribute::parse_attribute",
           "attributeGroup": "attribute_group::parse_attribute_group", "choice": "choice::parse_choice", "complexContent": "complex_content::parse_complex_content",
           "complexType": "complex_type::parse_complex_type", "element": "element::parse_element", "extension": "extension::parse_extension", "import": "import::parse_import",
           "include": "import::parse_import", "list": "list::parse_list", "restriction": "restriction::parse_restriction", "sequence": "sequence::parse_sequence",
           "simpleContent": "simple_content::parse_simple_content", "simpleType": "simple_type::parse_simple_type", "union": "union::parse_union"}


def c_parser(q):
    def f(E, st, a, fn):
        st = st.fork()
        st.ghost["called"] = (q, nid(E, st, a[0]), nid(E, st, a[1]) if len(a) > 1 else None)
        return [(st, "ret", Sym(ret_ty(fn), ("ent", nid(E, st, a[0]))))]
    return f


def s_dispatch(E, s, v, n, p):
    """the function of the node's name, with the node and its parent; its result, unchanged"""
    c = s.ghost.get("called")
    if c is None:
        raise Unsupported("an entity made without one of the parser functions")
    return [("result", bad(is_ent(v, n) and c[1] == n and c[2] in (None, p) and all(PARSERS.get(k) == c[0] for k in kinds(s, n)), s))]


# ------------------------------------------------------------------ the functions
def top(n, *attrs):
    """precondition violated: a required attribute is missing (the code may panic)"""
    return lambda s, n_, p: any(at(s, n_, a) is None for a in attrs)


def bad_facet(s, n, p):
    """precondition violated: a facet without a value, or a whiteSpace other than the three"""
    out = []
    for c in s.ghost.get("xk", {}):
        if c[0] == "c" and c[1] == n and kinds(s, c) <= set(FACETS):
            r = at(s, c, "value")
            if r is None:
                return True
            if r is not False and kinds(s, c) == {"whiteSpace"}:
                return [t for w in (b"preserve", b"replace", b"collapse") for t, b in s.str_eq(r, (w,)) if b]
    return False


def no_content(names):
    def f(s, n, p):
        return any(getattr(src, "children", None) == n and x is None for h, src, recs, dr, x in s.ghost.get("picks", ())) or any(j == n and c is None for (j, t), c in s.ghost.get("fc", {}).items())
    return f


def either(*fs):
    return lambda s, n, p: any(f(s, n, p) for f in fs)


def local_name(s, n, p):
    return kinds(s, p) != {"schema"} and at(s, n, "name") not in (None, False) or kinds(s, p) == {"schema"} and at(s, n, "name") is None


def unplaced(s, n):
    """an extension or restriction in no place that knows them"""
    p = s.ghost.get("xp", {}).get(n, ())
    return p is None or p != () and not kinds(s, p) & {"complexContent", "simpleContent", "simpleType"} or p != () and kinds(s, n) == {"extension"} and kinds(s, p) == {"simpleType"}


# name: (function, kind of the node, kinds of the parent, further arguments, spec, when a panic is allowed, contracts not used)
ALLS = ("schema", "element")
FUNCS = {
    "complexType": ("complex_type::parse_complex_type", "complexType", ALLS, "p", s_complex_type, top("n", "name"), ()),
    "extension": ("extension::parse_extension", "extension", ("complexContent", "simpleContent"), "p", s_extension, top("n", "base"), ()),
    "restriction": ("restriction::parse_restriction", "restriction", ("complexContent", "simpleType"), "p", s_restriction, top("n", "base"), ()),
    "simpleType": ("simple_type::parse_simple_type", "simpleType", ("schema", "element", "attribute", "list", "union", "restriction"), "p", s_simple_type, either(local_name, no_content(())), ()),
    "list": ("list::parse_list", "list", ("simpleType",), "", s_list, no_content(()), ()),
    "union": ("union::parse_union", "union", ("simpleType",), "", s_union, None, ()),
    "element": ("element::parse_element", "element", ("schema", "sequence", "all", "choice"), "p", s_element, either(top("n", "name"), lambda s, n, p: kinds(s, p) <= {"sequence", "all"} and no_content(())(s, n, p)), ()),
    "attribute": ("attribute::parse_attribute", "attribute", ("schema", "complexType", "extension", "attributeGroup", "restriction"), "p", s_attribute, lambda s, n, p: at(s, n, "name") is None and not at(s, n, "ref"), ()),
    "attributeGroup": ("attribute_group::parse_attribute_group", "attributeGroup", ("schema", "complexType", "extension", "attributeGroup"), "p", s_attribute_group,
                       lambda s, n, p: at(s, n, "name" if kinds(s, p) == {"schema"} else "ref") is None, ()),
    "any": ("any::parse_any", "any", ("sequence", "choice"), "", s_any("Element", "any"), None, ()),
    "anyAttribute": ("any_attribute::parse_any_attribute", "anyAttribute", ("complexType", "extension", "attributeGroup"), "", s_any("Attribute", "any_attribute"), None, ()),
    "import": ("import::parse_import", "import", ("schema",), "", s_import, None, ()),
    "simpleContent": ("simple_content::parse_simple_content", "simpleContent", ("complexType",), "", s_content, no_content(()), ()),
    "complexContent": ("complex_content::parse_complex_content", "complexContent", ("complexType",), "", s_content, no_content(()), ()),
    "sequence": ("sequence::parse_sequence", "sequence", ("complexType", "extension", "restriction"), "p", s_particle, None, ()),
    "all": ("all::parse_all", "all", ("complexType", "extension", "restriction"), "p", s_particle, None, ()),
    "choice": ("choice::parse_choice", "choice", ("complexType", "sequence", "extension"), "", s_choice, None, ()),
    "sequence-fields": ("sequence::elements_to_fields", "sequence", ("complexType", "extension", "restriction"), "n", elem_fields, None, ("s_elements_to_fields",)),
    "all-fields": ("all::elements_to_fields", "all", ("complexType", "extension", "restriction"), "n", elem_fields, None, ("a_elements_to_fields",)),
    "attributes": ("utils::attributes_to_fields", "complexType", ALLS, "", s_attrs, None, ("attributes_to_fields",)),
    "group-attributes": ("attribute_group::attributes_to_fields", "attributeGroup", ("schema",), "", s_attrs, None, ("g_attributes_to_fields",)),
    "groups": ("utils::attribute_groups_to_aliases", "complexType", ALLS, "", s_groups, None, ("attribute_groups_to_aliases",)),
    "facets": ("restriction::facets", "restriction", ("simpleType",), "", s_facets, bad_facet, ("facets",)),
    "cases": ("restriction::cases", "restriction", ("simpleType",), "F", s_cases, None, ("cases",)),
    "plain-values": ("restriction::is_simple_enumerations", "restriction", ("simpleType",), "", s_all_plain, bad_facet, ("is_simple_enumerations",)),
    "plain-value": ("restriction::is_simple_enumeration", "enumeration", ("restriction",), "", s_plain, top("n", "value"), ("is_simple_enumeration",)),
    "documentation": ("utils::get_documentation", "complexType", ALLS, "", s_doc, None, ("get_documentation",)),
    "find-child": ("utils::find_child", "complexType", ALLS, "t", s_find_child, None, ("find_child",)),
    "parent-name": ("utils::get_parent_name", "sequence", None, "", s_parent_name, None, ()),
    "modifier": ("element::element_modifier", "element", ("sequence",), "", s_modifier, None, ("element_modifier",)),
    "target-namespace": ("utils::target_namespace", "schema", (), "", s_ns, None, ("target_namespace",)),
    "xsd-type": (XN.replace("'a", "'_") + "xsd_type", None, None, "", s_xsd_type, bad_value, ("xsd_type",)),
    "dispatch": ("node_parser::parse_node", None, None, "d", s_dispatch, lambda s, n, p: not kinds(s, n) & set(PARSERS) or kinds(s, n) <= {"extension", "restriction"} and unplaced(s, n), ("parse_node",)),
    "schema": ("schema::parse_schema", "schema", (), "", s_schema, None, ()),
}
SELFN = {"parent-name": "get_parent_name"}


def setup(E, label):
    fn, kind, pk, args, spec, pre, but = FUNCS[label]

    def mk():
        st = State()
        n, p = ("n", "n"), ("n", "p")
        st.ghost["xk"] = {n: frozenset([kind])} if kind else {}
        st.ghost["xdomattr"] = ATTR
        st.ghost["logpicks"] = True
        if pk is not None and pk:
            st.ghost["xk"][p] = frozenset(pk)
            st.ghost["xp"] = {n: p}
        dom = DOM.get(kind, {"annotation", "#text"})
        st.ghost["xdom"] = {n: dom} if kind else {}
        if label == "parent-name":
            st.ghost["xk"][("n", "parent of n")] = frozenset(ELEMENTS & set(DOM) - {"import"}) | {"#other"}
        if label in SELFN:
            st.ghost["self"] = SELFN[label]
        a = [E.ref(st, node(n))]
        if args in ("p", "d"):
            a.append(E.ref(st, node(p)))
        if args == "n":
            r = st.atom_rope(NAME, "pname")
            st.ghost["parent-name"] = r
            st.ghost["pname"] = {n: r}
            a.append(SRef(r))
        if args == "t":
            st.ghost["tag"] = b"annotation"
            a.append(SRef((b"annotation",)))
        if args == "F":
            t = E.T(E.T(E.prog_fn(fn)["body"]["locals"][1])["e"])["e"] if False else facet_type(E)
            a = [E.ref(st, olist(E, ("facets", "F"), t))]
        return st, a, {}
    return mk


def facet_type(E):
    for t, ty in E.p.types.items():
        if ty["k"] == "adt" and ty["def"] == PT + "Facet":
            return t
    raise Unsupported("no facet type")


def split_parents(E, st, args, name, label):
    """one run per kind of parent, where the kind of the parent matters"""
    n, p = ("n", "n"), ("n", "p")
    out = []
    for k in FUNCS[label][2] or (None,):
        s = st.fork()
        if k is not None and FUNCS[label][2]:
            s.ghost["xk"] = dict(s.ghost["xk"], **{})
            s.ghost["xk"][p] = frozenset([k])
            if label == "restriction" and k == "complexContent":
                s.ghost["xdom"] = {n: DOM["crestriction"]}
        out += E.run(E.p.find(name), args, s)
    return out


def verify_parser(cx, labels, op, judge, budget=25):
    E = cx.E
    for label in labels:
        fn, kind, pk, args, spec, pre, but = FUNCS[label]
        if cx.prog is None:
            cx.verify("parse:" + label, "x", None, None, None, judge, clauses=("no-panic", "result"))
            continue

        def post(s, k, v, g, spec=spec, pre=pre):
            n, p = ("n", "n"), ("n", "p")
            if k != "ret":
                r = pre is not None and pre(s, n, p)
                yield "no-panic", r if isinstance(r, list) else [] if r else [s]
                return
            yield "no-panic", []
            for s1, x in settle(E, s, v):
                r = spec(E, s1, x, n, p)
                for c, b in (r if isinstance(r, list) else [("result", match(E, s1, x, r))]):
                    yield c, b

        def conc(s, m, g):
            return op, [Wit(E, s, m).document(("n", "n"))]
        root = lambda E_, st, a, g, fn=fn, label=label: split_parents(E_, st, a, fn if fn.startswith("<") else PP + fn, label)
        root.__name__ = fn.split("::")[-1]
        extra = {PP + q: c_parser(q) for q in PARSERS.values()} if label == "dispatch" else {}
        with calling(E, *but, extra=extra), abstracting(E, split=b" "):
            cx.verify("parse:" + label, root, setup(E, label), post, conc, judge, pred=UNC, budget=budget, clauses=("no-panic", "result"))


def settle(E, s, v):
    """the kinds of a result that is the entity of a child"""
    return [(s, v)]
