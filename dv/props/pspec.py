"""Postconditions of the parser functions, each verified against the function's body for every node of an XML tree.

The expected entity is written as a pattern (texts, lists part by part, variants); match() gives the states in which the result is
not of that form.  witness() builds a schema document for a failing path, which goes to the real code.
"""
from .pcontracts import *


# ------------------------------------------------------------------ patterns
class P_:
    pass


class Tx(P_):
    """a text"""
    def __init__(self, r):
        self.r = r


class Opt(P_):
    """Some of a pattern"""
    def __init__(self, x):
        self.x = x


class St_(P_):
    """a struct: pattern per field; every other field is default, or as in the opaque value `base`"""
    def __init__(self, base=None, **f):
        self.base, self.f = base, f


class Li(P_):
    """a list: parts in order, each ("all", tag), ("map", f(E, state, list) -> failing states) or a pattern"""
    def __init__(self, *parts):
        self.parts = parts


class Va(P_):
    """an enum variant"""
    def __init__(self, name, x=None):
        self.name, self.x = name, x


class Op(P_):
    """the opaque value of that tag, unchanged"""
    def __init__(self, tag):
        self.tag = tag


class Ent(P_):
    """the entity of node i, unchanged"""
    def __init__(self, i):
        self.i = i


class Doc(P_):
    def __init__(self, i):
        self.i = i


DEF = object()      # the default value


def raw(E, s, v):
    v = E.expand(s, v)
    if isinstance(v, CellV):
        return raw(E, s, s.cells[v.cell])
    if isinstance(v, Adt) and v.ty is not None and E.T(v.ty).get("def") == "std::cell::RefCell":
        return raw(E, s, E.expand(s, v.f[1]).f[0])
    return v


def is_default(E, s, v):
    v = raw(E, s, v)
    if isinstance(v, StringV):
        return v.r == ()
    if isinstance(v, VecV):
        return v.xs == ()
    if isinstance(v, Adt) and (v.ty is None or E.T(v.ty)["kind"] == "enum"):
        return not v.f and (v.ty is None or E.T(v.ty)["v"][v.var]["n"] in ("None", "NA"))
    return False


WHY = []


def match(E, s, v, p):
    """states in which v is not of the form p (none: it always is)"""
    r = match1(E, s, v, p)
    if r and len(WHY) < 40:
        WHY.append((p if not isinstance(p, P_) else type(p).__name__, vars(p) if isinstance(p, P_) else None, raw(E, s, v)))
    return r


def match1(E, s, v, p):
    bad = [s]
    v = raw(E, s, v)
    if p is DEF:
        return [] if is_default(E, s, v) else bad
    if callable(p):
        r = p(E, s, v)
        return r if isinstance(r, list) else [] if r else bad
    if isinstance(p, Tx):
        if p.r is None or not isinstance(v, (StringV, SRef)):
            return bad
        return [] if s.rope(v.r) == s.rope(p.r) else [t for t, b in s.str_eq(v.r, p.r) if not b]
    if isinstance(p, Doc):
        return [] if is_doc(E, s, v, p.i) else bad
    if isinstance(p, Ent):
        return [] if is_ent(v, p.i) or isinstance(v, Adt) and s.res.get(("ent", p.i)) == v else bad
    if isinstance(p, Op):
        x = s.ghost.get("op", {}).get(p.tag)
        if x is None:
            x = getattr(v.d, "term", None) if isinstance(v, Opq) and v.kind == "abslist" else None
            return [] if x == p.tag else bad
        if type(x) is tuple:
            return match(E, s, v, Tx(x))
        return [] if E.expand(s, x) == v else bad
    if isinstance(p, Opt):
        if isinstance(v, Sym):
            raise Unsupported("option of unknown form")
        return match(E, s, v.f[0], p.x) if isinstance(v, Adt) and v.f else bad
    if isinstance(p, Va):
        if not isinstance(v, Adt) or E.T(v.ty)["v"][v.var]["n"] != p.name:
            return bad
        return match(E, s, v.f[0], p.x) if p.x is not None else []
    if isinstance(p, St_):
        out = []
        if not isinstance(v, Adt):
            return bad
        for f, x in zip(E.T(v.ty)["v"][v.var]["f"], v.f):
            q = p.f.get(f["n"], DEF if p.base is None else Op(p.base + (f["n"],)))
            out += match(E, s, x, q)
        return out
    if isinstance(p, Li):
        if is_default(E, s, v) and not p.parts:
            return []
        ps = X.parts(v)
        qs = list(p.parts)
        if len(ps) != len(qs):
            if len(qs) == 1 and isinstance(qs[0], tuple) and qs[0][0] == "map":
                return bad
            return bad
        out = []
        for (k, x), q in zip(ps, qs):
            if isinstance(q, tuple) and q[0] == "all":
                out += [] if k == "all" and getattr(x.d, "term", None) == q[1] else bad
            elif isinstance(q, tuple) and q[0] == "map":
                out += q[1](E, s, x) if k == "all" else bad
            else:
                out += match(E, s, x, q) if k == "one" else bad
        return out
    raise Unsupported("pattern")


def children_map(i, names, pat):
    """one element per child of i with one of these names, in order: pat(state, child, value) -> failing states"""
    def f(E, s, lst):
        recs, dr = elements(E, s, lst)
        if not recs:
            return [s]
        out = []
        for t, v in recs:
            if is_panic(v):
                continue            # covered by the no-panic clause
            c = t.ghost.get("elem")
            if c is None or c[0] != "c" or c[1] != i or not kinds(t, c) <= set(names):
                out.append(t)
            else:
                r = pat(E, t, c, v)
                out += r if isinstance(r, list) else [] if r else [t]
        for t in dr:
            c = t.ghost.get("elem")
            if c is None or c[0] != "c" or c[1] != i or kinds(t, c) & set(names) or t.ghost.get("poss"):
                out.append(t)
        return out
    return ("map", f)


def item_map(tag, pat, keep=None):
    """one element per element of the list `tag`, in order, of those that keep(state, tag of the element) says"""
    def f(E, s, lst):
        recs, dr = elements(E, s, lst)
        if not recs:
            return [s]
        out = []
        for t, v in recs:
            c = t.ghost.get("elem")
            if c is None or c[0] != "item" or c[1] != tag or keep is not None and not keep(E, t, tag + (c[2],)):
                out.append(t)
            else:
                r = pat(E, t, tag + (c[2],), v)
                out += r if isinstance(r, list) else [] if r else [t]
        for t in dr:
            c = t.ghost.get("elem")
            if keep is None or c is None or c[0] != "item" or c[1] != tag or keep(E, t, tag + (c[2],)):
                out.append(t)
        return out
    return ("map", f)


def at(s, i, name):
    """rope of an attribute the code looked at; None when it is absent, False when the code did not look"""
    return s.ghost.get("xa", {}).get((i, name), False)


def variant_of(E, s, i):
    v = s.res.get(("ent", i))
    return None if v is None else E.T(v.ty)["v"][v.var]["n"]


# ------------------------------------------------------------------ witnesses
PARENT = {"sequence": "complexType", "all": "complexType", "choice": "complexType", "extension": "complexContent", "complexContent": "complexType", "simpleContent": "complexType",
          "complexType": "schema", "simpleType": "schema", "restriction": "simpleType", "union": "simpleType", "list": "simpleType", "element": "sequence", "attribute": "complexType",
          "attributeGroup": "complexType", "any": "sequence", "anyAttribute": "complexType", "import": "schema", "include": "schema", "annotation": "complexType"}
PREFER = ("element", "sequence", "attribute", "restriction", "complexType", "simpleType", "extension", "enumeration", "choice", "all")


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")


def valid(k, pk):
    """only documents that obey the schema of schemas go to the real code"""
    if k not in X.DOMAIN.get(pk, ()):
        raise Unsupported("no document has %s in %s" % (k, pk))


NAMEATTR = re.compile(r' (name|type|ref|base|itemType|memberTypes)="([^"]*)"')


def in_domain(doc):
    """names of the documents for the real code: ASCII, with a letter or digit, as the properties state them"""
    for k, v in NAMEATTR.findall(doc):
        for q in v.split(" "):
            p, c, l = q.partition(":")
            if (c and (k == "name" or not re.fullmatch("[A-Za-z_][A-Za-z0-9_]*", p))) or not re.fullmatch("[A-Za-z0-9_.-]*", l if c else p) or q and not re.search("[A-Za-z0-9]", l if c else p):
                raise Unsupported("name outside the supported names")
    return doc


class Wit:
    def __init__(self, E, s, m):
        self.E, self.s, self.m, self.n, self.need = E, s, m, 0, {}

    def text(self, r):
        t = ev(self.s, self.m, r)
        t = t.decode("utf-8", "replace") if isinstance(t, bytes) else t
        return re.sub("[^\t\n\r\x20-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]", "x", t)

    def kind(self, i, default=None):
        ks = kinds(self.s, i) - {"#text", "#other"}
        for k in (default,) + PREFER:
            if k in ks:
                return k
        return sorted(ks)[0] if ks else "annotation"

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def ref(self, q, kind):
        """a declaration the reference needs"""
        p, _, l = q.rpartition(":")
        if p == "tt" or not p:
            self.need.setdefault(l, kind)

    def children(self, i):
        seen = []
        for tab in ("xk", "xd"):
            for c in self.s.ghost.get(tab, {}):
                if c[0] == "c" and c[1] == i and c not in seen:
                    seen.append(c)
        return seen

    def node(self, i, k, pk, name=None):
        s = self.s
        valid(k, pk)
        a = {}
        for (j, n), r in s.ghost.get("xa", {}).items():
            if j == i and r is not None:
                a[n] = self.text(r)
        known = {n for (j, n) in s.ghost.get("xa", {}) if j == i}
        kids = [(c, self.kind(c)) for c in self.children(i)]
        kk = [x for c, x in kids]
        absent = {c for (j, c), x in s.ghost.get("fc", {}).items() if j == i and x is None}
        v = variant_of(self.E, s, i)
        extra = ""
        return self.build(i, k, pk, a, known, kids, kk, absent, v, name)

    def build(self, i, k, pk, a, known, kids, kk, absent, v, name):
        s = self.s
        body = ""
        doc = s.ghost.get("doc", {}).get(i, ())
        if doc is not None and k not in ("schema", "annotation", "all", "sequence"):
            t = self.text(doc).strip() if doc else ""
            body += "<xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation>" % esc(t if len(t) > 1 else "Text %s" % self.fresh("about"))
        sub = {}
        for c, x in kids:
            if x != "annotation":
                sub.setdefault(x, []).append(self.node(c, x, k))

        def give(x, f):
            if x not in sub and x not in absent:
                sub[x] = [f()]
        if k == "element":
            if pk == "schema" or "ref" not in a:
                a.setdefault("name", name or self.fresh("el"))
            if pk == "schema":
                a.pop("ref", None)
            if "type" not in a and "ref" not in a and not ({"simpleType", "complexType"} & set(sub)) and pk in ("sequence", "all"):
                if "type" in known:
                    give("simpleType", lambda: self.simple())
                else:
                    a["type"] = "xs:int"
        if k == "attribute" and "ref" not in a:
            a.setdefault("name", name or self.fresh("at"))
        if k == "attributeGroup":
            if pk == "schema":
                a.setdefault("name", name or self.fresh("Group"))
            else:
                a.setdefault("ref", "tt:" + self.fresh("Group"))
                self.need[a["ref"].split(":")[-1]] = "g"
        if k in ("complexType", "simpleType"):
            if pk == "schema":
                a.setdefault("name", name or self.fresh("Type"))
            else:
                a.pop("name", None)
        if k == "simpleType" and not ({"restriction", "list", "union"} & set(sub)):
            own = s.ghost.get("op", {}).get(("ent", i, "name"))
            if v == ENUM and own is not None and not self.text(own):
                sub["union"] = ['<xs:union memberTypes="xs:int xs:boolean"/>']
            else:
                sub["restriction"] = [self.restriction(v)]
        if k == "complexType" and v == ENUM:
            give("choice", self.choice)
        if k in ("complexContent", "simpleContent") and not ({"extension", "restriction"} & set(sub)):
            a2 = "tt:" + self.fresh("Base")
            self.ref(a2, "c" if k == "complexContent" else "s")
            sub["extension"] = ['<xs:extension base="%s"><xs:attribute name="%s"/></xs:extension>' % (a2, self.fresh("at"))]
        if k in ("extension", "restriction"):
            if "base" not in a:
                a["base"] = "xs:string" if pk != "complexContent" else "tt:" + self.fresh("Base")
            self.ref(a["base"], "c" if pk == "complexContent" else "s")
            if k == "restriction" and pk == "simpleType" and not any(f in sub for f in FACETS):
                pl = [x for (t, j), x in s.ghost.get("flags", {}).items() if t == "plain" and j == i]
                if v == ENUM or pl:
                    ok = v == ENUM or all(self.truth(x) for x in pl)
                    sub["enumeration"] = ['<xs:enumeration value="Aa"/>', '<xs:enumeration value="%s"/>' % ("Bb" if ok else "b b")]
        if k == "list" and "itemType" not in a and "simpleType" not in sub:
            a["itemType"] = "xs:int"
        if k == "union" and "memberTypes" not in a and "simpleType" not in sub:
            a["memberTypes"] = "xs:int xs:string"
        if k in FACETS:
            a.setdefault("value", {"whiteSpace": "collapse", "pattern": "a", "enumeration": "Aa"}.get(k, "3"))
        # the real code judges the document by itself: a value that no schema has is replaced
        if k == "whiteSpace" and a["value"] not in ("preserve", "replace", "collapse"):
            a["value"] = "collapse"
        if k in FACETS and k not in ("whiteSpace", "enumeration", "pattern") and not re.fullmatch("[0-9]{1,6}", a["value"]):
            a["value"] = "3"
        if k == "pattern":
            a["value"] = "a"
        if k in ("sequence", "all") and not sub:
            sub["element"] = ['<xs:element name="%s" type="xs:int"/>' % self.fresh("el")]
        if k == "choice" and not sub:
            sub["element"] = [self.choice()[len("<xs:choice>"):-len("</xs:choice>")]]
        if k == "complexType" and not ({"sequence", "choice", "all", "complexContent", "simpleContent"} & set(sub)) and v != ENUM and not self.empty(i):
            sub["sequence"] = ['<xs:sequence><xs:element name="%s" type="xs:int"/></xs:sequence>' % self.fresh("el")]
        if k in ("complexType", "extension", "attributeGroup") and pk != "simpleType" and not (k == "attributeGroup" and pk != "schema") and not ({"complexContent", "simpleContent"} & set(sub)):
            give("attribute", lambda: '<xs:attribute name="%s" type="xs:int"/>' % self.fresh("at"))
        for n in ("type", "itemType", "base", "ref"):
            if n in a and not (k == "attributeGroup"):
                self.ref(a[n], "s" if n != "base" or pk != "complexContent" else "c")
        for w in a.get("memberTypes", "").split():
            self.ref(w, "s")
        order = [x for x in ("annotation", "import", "include", "simpleType", "simpleContent", "complexContent", "all", "choice", "sequence", "extension", "restriction", "list", "union", "complexType",
                             "element", "any") if x in sub]
        order += [x for x in sub if x not in order and x not in ("attribute", "attributeGroup", "anyAttribute")] + [x for x in ("attribute", "attributeGroup", "anyAttribute") if x in sub]
        for x in order:
            body += "".join(sub[x])
        return "<xs:%s%s>%s</xs:%s>" % (k, "".join(' %s="%s"' % (n, esc(x)) for n, x in a.items()), body, k)

    def truth(self, b):
        try:
            return bool(solve.value(self.m, b)) if hasattr(solve, "value") else all(self.s.branch(b)[0][1:])
        except Exception:
            return True

    def empty(self, i):
        return any(getattr(src, "children", None) == i and x is None and h == "last" for h, src, recs, dr, x in self.s.ghost.get("picks", ()))

    def simple(self):
        return '<xs:simpleType><xs:restriction base="xs:int"><xs:maxInclusive value="7"/></xs:restriction></xs:simpleType>'

    def restriction(self, v):
        return '<xs:restriction base="xs:string">%s</xs:restriction>' % ('<xs:enumeration value="Aa"/><xs:enumeration value="Bb"/>' if v == ENUM else '<xs:maxLength value="3"/>')

    def choice(self):
        return '<xs:choice><xs:element name="%s" type="xs:int"/><xs:element name="%s" type="xs:string"/></xs:choice>' % (self.fresh("el"), self.fresh("el"))

    def document(self, root):
        """a schema with the node in the middle"""
        s = self.s
        k = self.kind(root)
        p = s.ghost.get("xp", {}).get(root)
        pk = self.kind(p, PARENT.get(k)) if p is not None else PARENT.get(k, "schema")
        pn = s.ghost.get("pname", {}).get(root)
        pn = self.text(pn) if pn is not None else "Outer"
        if not re.fullmatch(r"[A-Za-z_][\w.-]*", pn):
            pn = "Outer"
        t = self.node(root, k, pk) if k != "schema" else None
        if t is None:
            kids = [(c, self.kind(c)) for c in self.children(root)]
            body = "".join(self.node(c, x, "schema") for c, x in kids)
            body += '<xs:element name="elA" type="xs:int"/><xs:attributeGroup name="Gg"><xs:attribute name="at"/></xs:attributeGroup><xs:complexType name="Zz"><xs:sequence><xs:element name="el"/></xs:sequence><xs:attributeGroup ref="tt:Gg"/></xs:complexType>'.replace('name="el"/>', 'name="el" type="xs:int"/>')
        else:
            while pk != "schema":
                a = {}
                k2, up = pk, PARENT.get(pk, "schema")
                nm = ""
                if k2 == "complexType" and (up == "schema" or True):
                    up = "schema"
                    nm = ' name="%s"' % pn
                elif k2 == "simpleType":
                    up = "schema"
                    nm = ' name="%s"' % pn
                elif k2 in ("extension", "restriction"):
                    b = "tt:" + self.fresh("Base")
                    up = "complexContent"
                    self.ref(b, "c")
                    nm = ' base="%s"' % b
                elif k2 == "element":
                    up = "sequence"
                    nm = ' name="%s"%s' % (pn, "" if k in ("simpleType", "complexType") else ' type="xs:int"')
                elif k2 == "attributeGroup":
                    nm = ' name="%s"' % pn
                    up = "schema"
                elif k2 == "attribute":
                    nm = ' name="%s"' % pn
                elif k2 == "union":
                    nm = ' memberTypes="xs:int"'
                valid(k2, up)
                t = "<xs:%s%s>%s</xs:%s>" % (k2, nm, t, k2)
                pk = up
            body = t
        done = set(re.findall(r'<xs:(?:complexType|simpleType|attributeGroup|element) name="([^"]*)"', body))
        for l, kd in sorted(self.need.items()):
            if l in done or not re.fullmatch(r"[A-Za-z_][\w.-]*", l):
                continue
            body += {"c": '<xs:complexType name="%s"><xs:sequence><xs:element name="inBase" type="xs:int"/></xs:sequence></xs:complexType>',
                     "s": '<xs:simpleType name="%s"><xs:restriction base="xs:int"/></xs:simpleType>',
                     "g": '<xs:attributeGroup name="%s"><xs:attribute name="ofGroup" type="xs:int"/></xs:attributeGroup>'}[kd] % l
        return in_domain(schema_of(body))
