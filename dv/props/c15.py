from .gspec import *
from .pverify import FUNCS, verify_parser

LEVEL = "proof"
NOTE = "format_type_name on prefixed, plain and module-qualified references, and the names emitted by the item generators, for every name and target prefix; resolution of references inside whole schemas by a bounded sweep."


def judge(op, a, r):
    if op == "tyname":
        n, t, x = dec(a)
        if out_text(r) != py_type(n, ns_prefix(t), ns_prefix(x)):
            return "type reference %r with target namespace %r: the item is %r, the reference %r" % (n, t, py_type(n, ns_prefix(t), ns_prefix(x)), out_text(r) if r[0] == "ok" else r)
        return None
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = code_text(out_text(r))
        want = py_type(v[0], ns_prefix(tns), ns_prefix(xsd))
        got = re.findall(r"pub (?:struct|enum) ([^\s({]*)|impl (?:Validate|Default) for ([^\s{]*)", t)
        if not got or {x or y for x, y in got} != {want}:
            return "%s %r: items named %r, references use %r" % (kind, v[0], got, want)
        return None
    return schema_judge(a, r)


def base_of(t):
    while t is not None:
        m = re.match(r"(Vec|Option)<(.*)>$", t)
        if not m or t == "Vec<String>":
            return t
        t = m.group(2)


def schema_judge(a, r):
    text = dec(a)[0]
    m = compare(a, r, lambda i, e: (ikey(i), [(f["n"], base_of(nsq(f["t"]))) for f in fields_of(i)]), "references")
    if m:
        return m
    e, g = ast_items(a, r)
    have = {}
    mods = set()
    for i in g:
        have.setdefault(i["mod"], set()).add(i["n"])
        for k in range(len(i["mod"])):
            mods.add(i["mod"][:k + 1])
    ref = Ref(text)
    glob = {i["n"] for i in e if not i["mod"] and i["k"] in ("struct", "tuple", "enum")}
    for x, y in zip(e, g):
        for f, h in zip(fields_of(x), fields_of(y)):
            raw = f.get("raw")
            if raw is None or h["t"] is None:
                continue
            nested = raw.get("sub") is not None
            p = base_of(h["t"]).split("::")
            if not nested and not (len(p) == 1 and p[0] in glob and raw["t"].split(":")[0] in (ref.tp, raw["t"])):
                continue
            at = resolve(p, y["mod"], have, mods)
            if at is None:
                return "%s.%s has type %s, which names no item of the generated code, in schema %s" % (ikey(y), h["n"], h["t"], text[:3000])
            if nested and at[:-1] != y["mod"] + tuple(p[:-1]):
                return "%s.%s has type %s, which resolves to %s instead of the nested type, in schema %s" % (ikey(y), h["n"], h["t"], "::".join(at), text[:3000])
    return None


def resolve(p, mod, have, mods):
    """path of the item a type path denotes: innermost enclosing module (use super::*) that has the first segment"""
    for k in range(len(mod), -1, -1):
        m = mod[:k]
        if len(p) == 1:
            if p[0] in have.get(m, ()):
                return m + (p[0],)
        elif m + (p[0],) in mods:
            q = m + tuple(p[:-1])
            return q + (p[-1],) if p[-1] in have.get(q, ()) else None
    return None


def run(cx):
    cx.vary_on = True
    E = cx.E
    # references with the target prefix name the same item as the definition without prefix
    for tk in "-dp":
        def mk(tk=tk):
            st = State()
            loc = st.atom_rope(NOCOLON, "local")
            tns, tp, tu = sym_ns(st, tk, "tns")
            q = tp + (b":",) + loc if tk == "p" else loc
            return st, [SRef(q), opt_ns(tns), some(NSX)], {"q": q, "l": loc, "ns": opt_ns(tns), "tp": tp, "tu": tu}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            got = E.expand(s, v).r
            bad = []
            for s2, k2, v2 in E.run(cx.prog.find("r_type_name"), [SRef(g["l"]), g["ns"], some(NSX)], s):
                bad += [s2] if k2 != "ret" else str_states_ne(s2, got, E.expand(s2, v2).r)
            yield "reference-is-definition", bad
        cx.verify("reference[tns:%s]" % tk, "r_type_name", mk, post, lambda s, m, g, tk=tk: ("tyname", [ev(s, m, g["q"]), ns_conc(s, m, tk, g["tp"], g["tu"]), "pnoprefix urn:x"]),
                  judge, pred=UNC, budget=60, clauses=("no-panic", "reference-is-definition"))

        # foreign prefixes keep their module
        def mk(tk=tk):
            st = State()
            loc = st.atom_rope(NOCOLON, "local")
            p = st.atom_rope(NCNAME, "prefix")
            tns, tp, tu = sym_ns(st, tk, "tns")
            return st, [SRef(p + (b":",) + loc), opt_ns(tns), some(NSX)], {"q": p + (b":",) + loc, "p": p, "l": loc, "ns": opt_ns(tns), "tp": tp, "tu": tu}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            got = E.expand(s, v).r
            bad = []
            for s2, k2, v2 in E.run(cx.prog.find("r_type_name"), [SRef(g["l"]), g["ns"], some(NSX)], s):
                if k2 != "ret":
                    bad.append(s2)
                    continue
                for s3, same in (s2.str_eq(g["p"], g["tp"]) if g["tp"] is not None else [(s2, False)]):
                    bad += str_states_ne(s3, got, E.expand(s3, v2).r if same else s3.rope(tuple(g["p"]) + (b"::",) + tuple(E.expand(s3, v2).r)))
            yield "prefix-is-module", bad
        cx.verify("foreign[tns:%s]" % tk, "r_type_name", mk, post, lambda s, m, g, tk=tk: ("tyname", [ev(s, m, g["q"]), ns_conc(s, m, tk, g["tp"], g["tu"]), "pnoprefix urn:x"]),
                  judge, pred=UNC, budget=60, clauses=("no-panic", "prefix-is-module"))

        # nested types: module path plus the same identifier
        def mk(tk=tk):
            st = State()
            loc = st.atom_rope((ASCIIW & HASAN) & NOCOLON, "local")
            m_ = st.atom_rope(GOODID & L.rx("[a-z0-9_]*"), "module")
            tns, tp, tu = sym_ns(st, tk, "tns")
            return st, [SRef(m_ + (b"::",) + loc), opt_ns(tns), some(NSX)], {"q": m_ + (b"::",) + loc, "p": m_, "l": loc, "ns": opt_ns(tns), "tp": tp, "tu": tu}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            got = E.expand(s, v).r
            bad = []
            for s2, k2, v2 in E.run(cx.prog.find("r_type_name"), [SRef(g["l"]), g["ns"], some(NSX)], s):
                if k2 != "ret":
                    bad.append(s2)
                    continue
                for s3, same in (s2.str_eq(g["p"], g["tp"]) if g["tp"] is not None else [(s2, False)]):
                    if not same:        # a module named like the target prefix is excluded
                        bad += str_states_ne(s3, got, s3.rope(tuple(g["p"]) + (b"::",) + tuple(E.expand(s3, v2).r)))
            yield "nested-path", bad
        cx.verify("nested[tns:%s]" % tk, "r_type_name", mk, post, lambda s, m, g, tk=tk: ("tyname", [ev(s, m, g["q"]), ns_conc(s, m, tk, g["tp"], g["tu"]), "pnoprefix urn:x"]),
                  judge, pred=UNC, budget=60, clauses=("no-panic", "nested-path"))

    # every item generator names its item (and its impls) by the formatted type name
    for tk in "-dp":
        for kind in ("struct", "tuple", "enum"):
            def build(st, g, kind=kind):
                g["n"] = st.atom_rope(NAME, "name")
                g["t"] = st.atom_rope(NAME, "type")
                c = some(StringV(st.atom_rope(UTF8, "doc")))
                if kind == "struct":
                    return adt(E, PT + "Struct", name=StringV(g["n"]), comment=c, fields=fields_cell(E, any_field(E)))
                if kind == "tuple":
                    return adt(E, PT + "TupleStruct", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=c)
                return adt(E, PT + "Enum", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=c, cases=any_case(E), source=enumv(E, PT + "EnumSource", "Choice"))

            def post(s, r, g, kind=kind):
                n = lookup(s, "tyname", g["n"])
                sk = skel(s, r)
                got = re.findall(r"pub (?:struct|enum) ([^\s({]*)|impl (?:Validate|Default) for ([^\s{]*)", sk)
                yield "item-name", [] if n is not None and got and {x or y for x, y in got} == {skel(s, n)} else [s]
            verify_entity(cx, "item[%s,tns:%s]" % (kind, tk), kind, tk, build, judge, post, ("item-name",),
                          lambda g, e, kind=kind: [e(g["n"]), None, [["f", "xs:int", "E", "", None]]] if kind == "struct" else [e(g["n"]), e(g["t"]), "", None, []] if kind == "tuple" else [e(g["n"]), e(g["t"]), "C", None, []])

        # a field with a nested type refers to it in the module the nested type is put into
        def build(st, g):
            g["n"], g["f"], g["t"], g["s"] = (st.atom_rope(NAME, x) for x in ("name", "field", "type", "sub"))
            sub = enumv(E, PT + "RsEntity", "Struct", adt(E, PT + "Struct", name=StringV(g["t"])))
            return adt(E, PT + "Struct", name=StringV(g["n"]), fields=fields_cell(E, VecV((
                adt(E, PT + "StructField", name=StringV(g["f"]), type_name=StringV(g["t"]), source=enumv(E, PT + "StructFieldSource", "Element"), subtypes=VecV((sub,))),))))

        def post(s, r, g):
            sk = skel(s, r)
            m = lookup(s, "fname", g["n"])
            sub = s.ghost.get("gen", ())
            yield "nested-generated", [] if len(sub) == 1 else [s]
            if not (len(sub) == 1 and s.const_str(sub[0][1]) == b""):
                yield "nested-module", [] if m is not None and [x for x in re.findall(r"pub mod (\S*) \{\n\s*use super::\*;", sk)] == [skel(s, m)] else [s]
            q = None if m is None else lookup(s, "tyname", tuple(m) + (b"::",) + tuple(g["t"]))
            yield "nested-reference", [] if q is not None and (": %s," % skel(s, q)) in sk else [s]
        verify_entity(cx, "nested-field[tns:%s]" % tk, "struct", tk, build, judge, post, ("nested-generated", "nested-module", "nested-reference"),
                      lambda g, e: [e(g["n"]), None, [[e(g["f"]), e(g["t"]), "E", "", None]]], names=CORE + ("generate",))

    names = ["Foo", "foo", "fooBar", "foo-bar", "foo_bar", "foo.bar", "FooBar2", "eType", "IPAddress", "type", "Self", "x1", "String2", "ID", "try", "List", "a.b-c_d", "Zz9z", "ABC", "int", "string", "date"]

    def cases():
        for n in names:
            for q in (n, "tt:" + n, "o:" + n, "tt2:" + n, "t:" + n, "TT:" + n, "Tt:" + n, "xs:" + n, "O:" + n, "ttt:" + n, "mod1::" + n):
                for t in ("-", "durn:t", "ptt urn:t", "po urn:o"):
                    yield "tyname", [q, t, "pxs urn:x"]
            for tns in ("-", "durn:t", "ptt urn:t"):
                for q in (n, "o:" + n):
                    yield "ent", ["struct", sx([n, None, [["f", q, "E", "", None]]]), tns, "-"]
                    yield "ent", ["tuple", sx([n, q, "", None, []]), tns, "-"]
                    for src in "CRU":
                        yield "ent", ["enum", sx([n, q, src, None, [["c1", q, src, "", None]]]), tns, "-"]
    cx.vary_on = False
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("references with every prefix form, item names of every kind", cases(), judge)

    def cases2():
        for n in names:
            if n in TABLE:
                continue
            for xp, tp in (("xs", "tt"), ("", "tt"), ("xs", "")):
                yield "ast", [schema_of('<xs:simpleType name="%s"><xs:restriction base="xs:string"/></xs:simpleType><xs:complexType name="User"><xs:sequence><xs:element name="a" type="tt:%s"/>'
                                        '<xs:element name="b"><xs:complexType><xs:sequence><xs:element name="c" type="tt:%s"/><xs:element name="%s"><xs:complexType><xs:sequence><xs:element name="d" type="tt:%s"/></xs:sequence></xs:complexType></xs:element>'
                                        '</xs:sequence></xs:complexType></xs:element></xs:sequence><xs:attribute name="at" type="tt:%s"/></xs:complexType>'
                                        '<xs:complexType name="Ch"><xs:choice><xs:element name="x" type="tt:%s"/><xs:element ref="tt:User"/></xs:choice></xs:complexType>'
                                        '<xs:simpleType name="Un"><xs:union memberTypes="tt:%s xs:int"/></xs:simpleType><xs:simpleType name="Li"><xs:list itemType="tt:%s"/></xs:simpleType>' % ((n,) * 9), xp, tp)]
                yield "ast", [schema_of('<xs:complexType name="%s"><xs:sequence><xs:element name="b"><xs:complexType><xs:sequence><xs:element name="c" type="xs:int"/></xs:sequence></xs:complexType></xs:element>'
                                        '<xs:choice><xs:element name="p" type="xs:int"/><xs:element name="q" type="xs:int"/></xs:choice></xs:sequence></xs:complexType>' % n, xp, tp)]
    cx.sweep("schemas referring to each of these names from fields, attributes, nested types, choices, unions and lists", cases2(), judge)
    cx.sweep("1000 random schemas: every reference to a type of the schema resolves", corpus(1000, 15), judge)
