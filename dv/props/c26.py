from .gspec import *
from .pverify import FUNCS, verify_parser
from .c19 import unquote

LEVEL = "proof"
NOTE = "EnumGenerator for every name and any number of alternatives (each alternative's text is the alternative generator's, once, in order), the catch-all and the default; EnumCaseGenerator for every value of letters, digits and '-'; the choice of enumeration or wrapper and the values of whole schemas are bounded."
VALUE = L.rx("[A-Za-z0-9\\-]+")


def value_of(v):
    return v["ya"].get("rename", v["n"])


def judge(op, a, r):
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = code_text(out_text(r))
        if kind == "case":
            m = re.fullmatch(r'\s*(?:#\[yaserde\(rename = ("(?:[^"\\]|\\.)*")\)\]\n)?\s*([^\s(]*),\s*', t)
            got = None if not m else unquote(m.group(1)) if m.group(1) else m.group(2)
            if got != v[0]:
                return "enumeration value %r gives %r" % (v[0], t)
            return None
        name = py_type(v[0], ns_prefix(tns), ns_prefix(xsd))
        ty = py_type(v[1], ns_prefix(tns), ns_prefix(xsd))
        m = re.search(r"pub enum (\S+) \{(.*?)\n\}\n", t, re.S)
        vs = re.findall(r'(?:#\[yaserde\(rename = ("(?:[^"\\]|\\.)*")\)\]\n)?\s*([^\s(,]+)(\([^\n]*\))?,', m.group(2)) if m else []
        got = [unquote(x) if x else y for x, y, z in vs]
        if not m or m.group(1) != name or got != [c[0] for c in v[4]] + ["__Unknown__"] or vs[-1][2] != "(%s)" % ty:
            return "enumeration %r gives %r" % (v, t)
        d = re.search(r"impl Default for (\S+) \{(.*?)\n\}", t, re.S)
        if not d or d.group(1) != name or not re.search(r"fn default\(\)\s*->\s*(%s|Self)\s*\{\s*(%s|Self)::__Unknown__\(" % (re.escape(name), re.escape(name)), d.group(2)):
            return "enumeration %r has no default that is the catch-all: %r" % (v, t)
        return None
    text = dec(a)[0]
    m = compare(a, r, proj, "enumerations")
    if m:
        return m
    _, g = ast_items(a, r)
    for i in g:
        if i["k"] == "enum":
            last = i["v"][-1:] or [None]
            if last[0] is None or last[0]["n"] != "__Unknown__" or last[0]["t"] is None or sum(v["n"] == "__Unknown__" for v in i["v"]) != 1:
                return "enumeration %s has no single catch-all alternative at the end in schema %s" % (ikey(i), text[:3000])
    return None


def proj(i, exp):
    if i["k"] == "tuple":
        return ikey(i), "tuple", None
    if i["k"] == "enum":
        return ikey(i), "enum", [(value_of(v), v["t"] is None) for v in fields_of(i)]
    return None


def run(cx):
    E = cx.E
    for tk in "-dp":
        for src in ESRC:
            def build(st, g, src=src):
                g["n"], g["t"], g["c"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type"), st.atom_rope(UTF8, "doc")
                return adt(E, PT + "Enum", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=some(StringV(g["c"])), cases=any_case(E), subtypes=any_entity(E), source=enumv(E, PT + "EnumSource", src))

            def post(s, r, g):
                n, t = lookup(s, "tyname", g["n"]), lookup(s, "tyname", g["t"])
                sk = skel(s, r)
                j = joined_ok(s, "case", b"\n")
                yield "one-per-value", [] if j is not None and n is not None and t is not None and re.search(r"pub enum %s \{\s*%s\s*__Unknown__\(%s\),\s*\}" % tuple(re.escape(skel(s, x)) for x in (n, j, t)), sk) else [s]
                x = "(?:%s|Self)" % re.escape(skel(s, n)) if n is not None else "!"
                yield "default-is-catch-all", [] if re.search(r"impl Default for %s \{\s*fn default\(\) -> %s \{\s*%s::__Unknown__\(" % (re.escape(skel(s, n)), x, x), sk) else [s]
                sub = joined_ok(s, "gen", b"\n")
                yield "nested-types-kept", [] if sub is not None and (skel(s, sub) in sk) else [s]
            verify_entity(cx, "enum[%s,tns:%s]" % (src, tk), "enum", tk, build, judge, post, ("one-per-value", "default-is-catch-all", "nested-types-kept"),
                          lambda g, e, src=src: [e(g["n"]), e(g["t"]), ESRC[src], e(g["c"]), [["v1", None, "R", "", None], ["Two", None, "R", "", "doc"]] if src != "Union" else []])

        # an enumeration value is the alternative's wire name
        def mk(tk=tk):
            st = State()
            tns, tp, tu = sym_ns(st, tk, "tns")
            g = {"n": st.atom_rope(VALUE, "value"), "tp": tp, "tu": tu, "c": st.atom_rope(UTF8, "doc")}
            return st, [ecase(E, "Restriction", g["n"], None, "", g["c"]), opt_ns(tns), NONE], g

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            r = E.expand(s, v).r
            sk = skel(s, r)
            c = lookup(s, "comment", g["c"])
            if c is not None and skel(s, c) and sk.startswith(skel(s, c)):
                sk = sk[len(skel(s, c)):]
                r = s.rope(r)[1:]
            m = re.fullmatch(r'\s*(?:#\[yaserde\(rename = "(.*?)"\)\]\n)?\s*(\S*),', sk, re.S)
            if not m:
                yield "value", [s]
            elif m.group(1) is not None:
                yield "value", [] if m.group(1) == skel(s, g["n"]) else [s]
            else:
                yield "value", str_states_ne(s, r, (sk[:len(sk) - len(sk.lstrip())].encode(),) + tuple(g["n"]) + (b",",))
        with using(E):
            cx.verify("value[tns:%s]" % tk, "r_gen_case", mk, post, lambda s, m, g, tk=tk: ("ent", ["case", sx([ev(s, m, g["n"]), None, "R", "", ev(s, m, g["c"])]), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]),
                      judge, pred=UNC, budget=60, clauses=("no-panic", "value"))

    vals = ["a", "A", "one", "One", "ONE", "two-words", "Two-Words", "9", "1a", "a1", "--x", "x-", "type", "Self", "String", "NaN", "x-y-z", "aB", "Ab", "ABc", "é", "été", "日本", "Ünit", "unknown", "true", "-1", "0", "I", "iPhone", "4G", "a-B-c", "B-", "Default"]
    odd = ["a b", "", "a.b", "a_b", "a/b", "1.5", "+", "a:b", "x\"y", "a'b", " a", "é!", "*", "(x)"]

    def en(vs, extra="", base="xs:string", doc=False):
        q = lambda v: v.replace('"', "&quot;").replace("<", "&lt;")
        return '<xs:restriction base="%s">%s%s</xs:restriction>' % (base, "".join('<xs:enumeration value="%s"%s' % (q(v), "/>" if not doc else "><xs:annotation><xs:documentation>about %s</xs:documentation></xs:annotation></xs:enumeration>" % q(v)) for v in vs), extra)

    def cases():
        for v in vals:
            for tns in ("-", "durn:t", "ptt urn:t"):
                for d in (None, "some doc"):
                    yield "ent", ["case", sx([v, None, "R", "", d]), tns, "-"]
        for n in ("Foo", "foo-bar", "tt:Foo", "type"):
            for tns in ("-", "durn:t", "ptt urn:t"):
                for vs in ([], ["a"], ["one", "two-words", "9"]):
                    for b in ("xs:string", "xs:int", "tt:Other", "String"):
                        yield "ent", ["enum", sx([n, b, "R", "doc", [[v, None, "R", "", "d"] for v in vs]]), tns, "pxs urn:x"]
        for base in ("xs:string", "xs:token", "xs:int", "tt:Other", "xs:NMTOKENS"):
            for vs in [[v] for v in vals + odd] + [["a", o] for o in odd] + [[o, "a"] for o in odd] + [["b", o, "a"] for o in odd] + [["v%d" % i for i in range(n)] for n in (2, 3, 10, 40)] + [[str(i) for i in range(12)]]:
                ok = [v for v in vs if v in odd]
                ex = '<xs:pattern value="x"/>' if base == "xs:token" else '<xs:maxLength value="9"/>' if base == "xs:string" else ""
                yield "ast", [schema_of('<xs:simpleType name="En">%s</xs:simpleType><xs:element name="el"><xs:simpleType>%s</xs:simpleType></xs:element><xs:complexType name="Ct"><xs:sequence><xs:element name="f"><xs:simpleType>%s</xs:simpleType></xs:element></xs:sequence></xs:complexType>'
                                        '<xs:simpleType name="Li"><xs:list><xs:simpleType>%s</xs:simpleType></xs:list></xs:simpleType>' % (en(vs, ex, base), en(vs, "", base, True), en(vs, ex, base), en(vs, "", base)))]
        for vs in (["foobar", "fooBar"], ["fooBar", "foobar", "FOOBAR"], ["ab-c", "abc"], ["x1", "x-1"], ["AbC", "aBc", "ABc"], ["Abc_".rstrip("_"), "aBC"]):
            if len({py_ident(v) for v in vs}) == len(vs):
                yield "ast", [schema_of('<xs:simpleType name="En">%s</xs:simpleType>' % en(vs))]
        import random
        rng = random.Random(26)
        for _ in range(200):
            vs = list(dict.fromkeys("".join(rng.choice("abcXYZ019-é") for _ in range(rng.randrange(1, 7))) for _ in range(rng.randrange(1, 9))))
            if any(not any(c.isascii() and c.isalnum() for c in v) for v in vs):
                continue
            yield "ast", [schema_of('<xs:simpleType name="En">%s</xs:simpleType>' % en(vs))]
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("enumeration values (keywords, digits, case variants, hyphens, non-ASCII, values that are no identifiers, up to 40 values) x bases x places", cases(), judge)
    cx.sweep("800 random schemas: enumerations and their values", corpus(800, 26), judge)
