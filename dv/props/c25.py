from .gspec import *
from .pverify import FUNCS, verify_parser
from .c16 import words, comment_words
from .c24 import tops
import random

LEVEL = "proof"
NOTE = "The text of alias and import declarations for every name, type and documentation, and the nested items of every entity kind (each generated once, in order); one item per declaration of whole schemas is bounded."


def proj(i, exp):
    return "::".join(i["mod"]), i["k"], i["n"]


def judge(op, a, r):
    return compare(a, r, proj, "items")


def judge_parts(op, a, r):
    """the declarations one by one: those that are no item of their own are comments only"""
    t = dec(a)[0]
    if r[0] != "ok":
        return "generation fails for %s" % t[:3000]
    ps = [bytes.fromhex(x).decode() for x in bytes.fromhex(r[1]).decode().split(" ")] if r[1] else []
    ref = Ref(t)
    es = ref.entities
    if len(ps) != len(es):
        return "%d declarations give %d texts for %s" % (len(es), len(ps), t[:3000])
    for p, e in zip(ps, es):
        code = [l for l in p.split("\n") if l.strip() and not l.lstrip().startswith("//")]
        if e["k"] in ("alias", "import"):
            if code:
                return "the %s %r gives code %r for %s" % (e["k"], e["n"], code[:3], t[:3000])
            if e["k"] == "alias":
                w = "// pub type %s = %s;" % (ref.ty(e["n"]), ref.ty(e["t"]))
                if p.rstrip("\n").split("\n")[-1] != w:
                    return "the alias %r of %r gives %r for %s" % (e["n"], e["t"], p, t[:3000])
            elif e["n"] not in p or e["loc"] not in p:
                return "the import %r gives %r for %s" % (e["n"], p, t[:3000])
        elif not code:
            return "the declaration %r gives no item for %s" % (e["n"], t[:3000])
    return None


DOC = ["", "", "", "<xs:annotation><xs:documentation>Some text.</xs:documentation></xs:annotation>", "<xs:annotation><xs:documentation>two\nlines } of</xs:documentation></xs:annotation>", "<xs:annotation/>"]
RES = ['<xs:restriction base="xs:int"/>', '<xs:restriction base="xs:string"><xs:enumeration value="on"/><xs:enumeration value="off"/></xs:restriction>', '<xs:restriction base="xs:string"><xs:enumeration value="a b"/></xs:restriction>',
       '<xs:list itemType="xs:int"/>', '<xs:union memberTypes="xs:int xs:string"/>', '<xs:union><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:union>',
       '<xs:list><xs:simpleType><xs:restriction base="xs:token"><xs:enumeration value="x"/></xs:restriction></xs:simpleType></xs:list>', '<xs:restriction base="xs:string"><xs:maxLength value="5"/></xs:restriction>']
CT = ['', '<xs:sequence/>', '<xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence>', '<xs:all><xs:element name="a" type="xs:int"/><xs:element name="b"><xs:simpleType><xs:restriction base="xs:int"/></xs:simpleType></xs:element></xs:all>',
      '<xs:choice><xs:element name="a" type="xs:int"/><xs:element name="b" type="xs:string"/></xs:choice>', '<xs:sequence><xs:choice><xs:element name="a" type="xs:int"/></xs:choice><xs:element name="c" type="xs:int"/></xs:sequence>',
      '<xs:simpleContent><xs:extension base="xs:string"><xs:attribute name="at" type="xs:int"/></xs:extension></xs:simpleContent>', '<xs:attribute name="at" type="xs:int"/>',
      '<xs:sequence><xs:element name="a"><xs:complexType><xs:sequence><xs:element name="deep"><xs:complexType><xs:attribute name="x"/></xs:complexType></xs:element></xs:sequence></xs:complexType></xs:element></xs:sequence>']
NAMES = ["Alpha", "beta", "GammaRay", "delta-x", "eps.lon", "zeta_y", "Eta9", "type", "Self", "IPAddr", "x", "Theta", "self-test", "HTTPServer", "aB"]


def decl(r, nm):
    d = r.choice(DOC)
    k = r.choice("ccssseeeaagin")
    if k == "c":
        return '<xs:complexType name="%s">%s%s</xs:complexType>' % (nm, d, r.choice(CT))
    if k == "s":
        return '<xs:simpleType name="%s">%s%s</xs:simpleType>' % (nm, d, r.choice(RES))
    if k == "e":
        j = r.randrange(4)
        if j == 0:
            return '<xs:element name="%s" type="%s">%s</xs:element>' % (nm, r.choice(["xs:int", "tt:Other", "xs:anyURI"]), d)
        return '<xs:element name="%s">%s%s</xs:element>' % (nm, d, ["", "<xs:simpleType>%s</xs:simpleType>" % r.choice(RES), "<xs:complexType>%s</xs:complexType>" % r.choice(CT[:4] + CT[6:])][j - 1])
    if k == "a":
        j = r.randrange(4)
        return ['<xs:attribute name="%s" type="xs:int">%s</xs:attribute>', '<xs:attribute name="%s">%s</xs:attribute>', '<xs:attribute name="%s">%s<xs:simpleType>' + r.choice(RES) + '</xs:simpleType></xs:attribute>',
                '<xs:attribute ref="tt:%s">%s</xs:attribute>'][j] % (nm, d)
    if k == "g":
        return '<xs:attributeGroup name="%s">%s<xs:attribute name="q" type="xs:int"/></xs:attributeGroup>' % (nm, d)
    if k == "i":
        return r.choice(['<xs:import namespace="urn:%s" schemaLocation="%s.xsd"/>', '<xs:include schemaLocation="%s-%s.xsd"/>']) % (nm, nm)
    return '<xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation>' % nm


def globals_(n, seed):
    for i in range(n):
        r = random.Random("%d/%d" % (seed, i))
        ns = r.sample(NAMES, r.randrange(0, 9))
        body = r.choice(["", "\n  "]).join(decl(r, x) for x in ns)
        if r.random() < .1:
            body = "<!-- a comment -->" + body + "<?pi x?>"
        yield schema_of(body, *r.choice([("xs", "tt"), ("xs", "tt"), ("", "tt"), ("xs", "")]))


def run(cx):
    E = cx.E
    if cx.prog is not None:
        for tk in "-dp":
            for doc in (False, True):
                def build(st, g):
                    g["n"], g["t"], g["c"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type"), st.atom_rope(UTF8, "doc") if doc else None
                    return adt(E, PT + "Alias", name=StringV(g["n"]), original=StringV(g["t"]), **({"comment": some(StringV(g["c"]))} if doc else {}))

                def post(s, r, g):
                    n, t = lookup(s, "tyname", g["n"]), lookup(s, "tyname", g["t"])
                    c = lookup(s, "comment", g["c"]) if doc else ()
                    ok = n is not None and t is not None and c is not None
                    yield "alias-is-a-comment", str_states_ne(s, r, tuple(c) + (b"// pub type ",) + tuple(n) + (b" = ",) + tuple(t) + (b";\n",)) if ok else [s]

                def jalias(op, a, r):
                    kind, v, tns, xsd = dec(a)
                    v = usx(v)
                    if r[0] != "ok":
                        return "no text for %s %r: %s" % (kind, v, r)
                    t = out_text(r)
                    w = "// pub type %s = %s;" % (py_type(v[0], ns_prefix(tns), ns_prefix(xsd)), py_type(v[1], ns_prefix(tns), ns_prefix(xsd)))
                    ls = t.rstrip("\n").split("\n")
                    return None if ls[-1] == w and all(l.startswith("//") for l in ls) else "alias %r gives %r" % (v, t)
                verify_entity(cx, "alias[tns:%s%s]" % (tk, ",doc" if doc else ""), "alias", tk, build, jalias, post, ("alias-is-a-comment",), lambda g, e: [e(g["n"]), e(g["t"]), None if g["c"] is None else e(g["c"])], budget=30)
            for kind in ("struct", "enum", "tuple"):
                def build(st, g, kind=kind):
                    g["n"], g["t"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type")
                    if kind == "struct":
                        return adt(E, PT + "Struct", name=StringV(g["n"]), subtypes=any_entity(E))
                    if kind == "enum":
                        return adt(E, PT + "Enum", name=StringV(g["n"]), type_name=StringV(g["t"]), subtypes=any_entity(E), source=enumv(E, PT + "EnumSource", "Choice"))
                    return adt(E, PT + "TupleStruct", name=StringV(g["n"]), type_name=StringV(g["t"]), subtypes=any_entity(E))

                def post(s, r, g, kind=kind):
                    sk = skel(s, r)
                    n = lookup(s, "tyname", g["n"])
                    word = {"struct": "struct", "enum": "enum", "tuple": "struct"}[kind]
                    yield "one-item", [] if n is not None and len(re.findall(r"pub (?:struct|enum) ", sk)) == 1 and re.search(r"pub %s %s\b|pub %s %s " % (word, re.escape(skel(s, n)), word, re.escape(skel(s, n))), sk) else [s]
                    rec = [x for x in s.ghost.get("joined", ()) if x is not None and x[0] and (s.rope(x[0]) == () or x[0][0] in r)]
                    ok = sk.count("impl Validate for ") == 1
                    yield "one-validate", [] if ok else [s]
                    good = None
                    for j, sep, outs in rec:
                        ts = [(t, x) for t, x in outs if x is not None]
                        if ts and all(len(t.ghost.get("gens", ())) == 1 and t.rope(t.ghost["gens"][0][2]) == t.rope(x) for t, x in ts):
                            good = j
                    if good is None:
                        raise Unsupported("nested items of an unknown form")
                    yield "nested-items-once-in-order", [] if s.rope(good) == () or list(r).count(good[0]) == 1 else [s]

                def jent(op, a, r):
                    k, v, tns, xsd = dec(a)
                    v = usx(v)
                    if r[0] != "ok":
                        return "no text for %s %r: %s" % (k, v, r)
                    t = code_text(out_text(r))
                    n = py_type(v[0], ns_prefix(tns), ns_prefix(xsd))
                    d = re.findall(r"pub (?:struct|enum) (\S+?)(?= |\()", t)
                    return None if d[:1] == [n] and t.count("impl Validate for %s " % n) == 1 else "%s %r gives %r" % (k, v, t)
                verify_entity(cx, "%s[tns:%s]" % (kind, tk), kind, tk, build, jent, post, ("one-item", "one-validate", "nested-items-once-in-order"),
                              {"struct": lambda g, e: [e(g["n"]), None, []], "enum": lambda g, e: [e(g["n"]), e(g["t"]), "C", None, []], "tuple": lambda g, e: [e(g["n"]), e(g["t"]), "", None, []]}[kind], budget=30)
    n = 1200 if cx.tier == "quick" else 12000
    ts = list(globals_(n, 25))
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("random sequences of global declarations of every kind: the items of the file", (("ast", [t]) for t in ts), judge)
    cx.sweep("the same schemas: one text per declaration, aliases and imports as comments", (("parts", [t]) for t in ts), judge_parts)
    cx.sweep("600 random schemas: the items of the file", corpus(600, 250), judge)
    cx.sweep("600 random schemas: one text per declaration", (("parts", a) for _, a in corpus(600, 250)), judge_parts)
