from .gspec import *
from .pverify import FUNCS, verify_parser

LEVEL = "proof"
NOTE = "StructFieldGenerator, EnumCaseGenerator, StructGenerator and EnumGenerator macros for every name, type, comment and target namespace (names of printable ASCII without quotes and backslashes); other names and whole schemas bounded."
PNAME = L.byteset(set(range(33, 127)) - set(b'"\\'))
PNAME = PNAME + PNAME.star()


def attrs(t):
    """yaserde attributes of a piece of generated code, None when malformed"""
    m = re.findall(r"#\[yaserde\(([^\n]*)\)\]", t)
    if len(m) > 1:
        return None
    d = {}
    for x in re.findall(r'\s*([A-Za-z_]+)\s*(?:=\s*("(?:[^"\\]|\\.)*"))?\s*(?:,|$)', m[0]) if m else ():
        if x[0] in d:
            return None
        d[x[0]] = True if not x[1] else unquote(x[1])
    return d


def unquote(q):
    return re.sub(r"\\(u\{([0-9a-f]+)\}|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1), m.group(1)), q[1:-1])


def want_field(src, name, tp):
    p, l = name.split(":", 1) if ":" in name else (None, name)
    if src == "C":
        return {"flatten": True}
    if src not in "AE":
        return {}
    d = {"rename": l}
    if src == "A":
        d["attribute"] = True
    elif p is None:
        p = tp
    if p is not None:
        d["prefix"] = p
    return d


def want_case(src, name, ident):
    if src == "U":
        return {}
    p, l = name.split(":", 1) if ":" in name else (None, name)
    return wire_of({"rename": l} if p is None else {"rename": l, "prefix": p}, ident)


def want_type(src, tns):
    if src == "U" or tns == "-":
        return {}
    if tns[0] == "d":
        return {"namespace": tns[1:]}
    p, u = tns[1:].split(" ", 1)
    return {"prefix": p, "namespace": "%s: %s" % (p, u)}


def judge(op, a, r):
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = code_text(out_text(r))
        if kind == "field":
            got, want = attrs(t), want_field(v[2], v[0], ns_prefix(tns))
            if "E" in v[3]:
                want = {}
        elif kind == "case":
            i = re.search(r"([^\s(]*)(\(.*\))?\s*,\s*$", t, re.S)
            i = i.group(1) if i else None
            got, want = attrs(t), want_case(v[2], v[0], i)
            got = got if got is None else wire_of(got, i)
        else:
            got, want = attrs(t.split("pub ")[0]), want_type(v[2] if kind == "enum" else "", tns)
        if got != want:
            return "%s %r (target namespace %r): expected yaserde attributes %r, generated %r" % (kind, v, tns, want, t)
        return None
    return compare(a, r, proj, "wire names")


def proj(i, exp):
    if i["k"] == "tuple":
        return ikey(i), None, []
    return ikey(i), i["ya"], [(f["n"], f["ya"]) for f in fields_of(i)]


def run(cx):
    E = cx.E
    NS = {"-": lambda s, g: {}, "d": lambda s, g: {"namespace": skel(s, g["tu"])}, "p": lambda s, g: {"prefix": skel(s, g["tp"]), "namespace": "%s: %s" % (skel(s, g["tp"]), skel(s, g["tu"]))}}
    for tk in "-dp":
        for src in SRC:
            for mods in ("N", "O", "A"):
                def post(s, r, g, src=src, tk=tk):
                    w = want_field(SRC[src], skel(s, g["n"]), skel(s, g["tp"]) if tk == "p" else None)
                    yield "attributes", [] if attrs(skel(s, r)) == w else [s]
                verify_field(cx, "field[%s,%s,tns:%s]" % (src, mods, tk), src, tk, mods, judge, post, ("attributes",), comment=True)
        for src in ESRC:
            for typed in (True, False):
                def mk(tk=tk, src=src, typed=typed):
                    st = State()
                    tns, tp, tu = sym_ns(st, tk, "tns")
                    g = {"n": st.atom_rope(PNAME, "name"), "t": st.atom_rope(NAME, "type") if typed else None, "tp": tp, "tu": tu, "c": st.atom_rope(UTF8, "doc")}
                    return st, [ecase(E, src, g["n"], g["t"], "N", g["c"]), opt_ns(tns), NONE], g

                def post(s, k, v, g, src=src):
                    yield "no-panic", [s] if k != "ret" else []
                    if k != "ret":
                        return
                    r = E.expand(s, v).r
                    sk = skel(s, r)
                    a = attrs(sk)
                    m = re.search(r"(?s)(?:^|[\s\U000f0000-\U000fffff]) *(\S*?)(\([^()]*\))?,\s*$", sk)
                    n = skel(s, g["n"])
                    bad = [s]
                    if a is not None:
                        w = want_case(ESRC[src], n, None)
                        if a == w:
                            bad = []
                        elif a == {} and list(w) == ["rename"]:
                            # left out: the identifier must be the name itself
                            i = last_ident(s, r)
                            bad = str_states_ne(s, i, g["n"]) if i is not None else [s]
                    yield "attributes", bad

                def conc(s, m, g, tk=tk, src=src):
                    return "ent", ["case", sx([ev(s, m, g["n"]), None if g["t"] is None else ev(s, m, g["t"]), ESRC[src], "N", ev(s, m, g["c"])]), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
                with using(E):
                    cx.verify("case[%s,%s,tns:%s]" % (src, "typed" if typed else "unit", tk), "r_gen_case", mk, post, conc, judge, pred=UNC, budget=60, clauses=("no-panic", "attributes"))
        for kind, src in (("struct", None), ("enum", "Choice"), ("enum", "Restriction"), ("enum", "Union")):
            def build(st, g, kind=kind, src=src):
                g["n"], g["t"], g["c"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type"), st.atom_rope(UTF8, "doc")
                c = some(StringV(g["c"]))
                if kind == "struct":
                    return adt(E, PT + "Struct", name=StringV(g["n"]), comment=c, fields=fields_cell(E, any_field(E)))
                return adt(E, PT + "Enum", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=c, cases=any_case(E), source=enumv(E, PT + "EnumSource", src))

            def post(s, r, g, kind=kind, src=src, tk=tk):
                h = skel(s, r).split("pub ")[0]
                yield "namespace", [] if attrs(h) == ({} if src == "Union" else NS[tk](s, g)) else [s]
                if src == "Union":
                    yield "union-serde", [] if "UtilsUnionSerDe" in h else [s]
                else:
                    yield "union-serde", [] if "YaSerialize" in h and "YaDeserialize" in h and h.index("derive") < h.find("yaserde(") else [s]
            verify_entity(cx, "%s[%s,tns:%s]" % (kind, src, tk), kind, tk, build, judge, post, ("namespace", "union-serde"),
                          lambda g, e, kind=kind, src=src: [e(g["n"]), e(g["c"]), []] if kind == "struct" else [e(g["n"]), e(g["t"]), ESRC[src], e(g["c"]), []])

    names = ["foo", "Foo", "fooBar", "foo-bar", "xml:lang", "tt:Foo", "o:foo-bar", "type", "Self", "x.y", "_a", "A", "é", "été", "a:b", "日本", "String", "one", "1", "a'b", "a\u00adb", "x\u200by"]

    def cases():
        for n in names:
            for tns in ("-", "durn:t", "ptt urn:t", "po urn:o"):
                for s in "AEBCN":
                    for m in ("", "O", "A", "E", "AR"):
                        yield "ent", ["field", sx([n, "tt:T", s, m, "doc #[yaserde(rename = \"no\")]" if m else None]), tns, "pxs urn:x"]
                for s in "CRU":
                    for t in (None, "xs:int", "tt:Foo"):
                        yield "ent", ["case", sx([n, t, s, "", None]), tns, "pxs urn:x"]
        for tns in ("-", "durn:t", "ptt urn:t", "pa-b http://www.onvif.org/ver10/schema", "d"):
            yield "ent", ["struct", sx(["St", "doc", [["f", "xs:int", "E", "", None]]]), tns, "-"]
            for s in "CRU":
                yield "ent", ["enum", sx(["En", "String", s, "doc", [["c", None, s, "", None]]]), tns, "-"]
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("fields, alternatives and types: names with and without prefixes, all sources, target namespaces with and without prefix", cases(), judge)

    def cases2():
        for xp, tp in (("xs", "tt"), ("", "tt"), ("xs", ""), ("xsd", "x1")):
            for n in ("foo", "fooBar", "foo-bar", "Foo.Bar", "type", "_x", "IP", "eType"):
                yield "ast", [schema_of('<xs:complexType name="Ty"><xs:sequence><xs:element name="%(n)s" type="xs:int"/><xs:element ref="tt:%(n)s1"/><xs:element ref="%(n)s2" minOccurs="0"/><xs:element name="nest"><xs:complexType><xs:sequence>'
                                        '<xs:element name="%(n)s3" type="xs:int" maxOccurs="4"/><xs:choice><xs:element name="%(n)s4" type="xs:int"/><xs:element ref="tt:%(n)s5"/></xs:choice></xs:sequence><xs:attribute name="%(n)s6"/></xs:complexType></xs:element></xs:sequence>'
                                        '<xs:attribute name="%(n)s7" type="xs:int"/><xs:attribute ref="tt:%(n)s8"/><xs:attribute ref="xml:lang" use="required"/></xs:complexType>'
                                        '<xs:complexType name="Ch"><xs:choice><xs:element name="%(n)s" type="xs:int"/><xs:element ref="tt:%(n)s9"/></xs:choice><xs:attribute name="%(n)s7" type="xs:int"/></xs:complexType>'
                                        '<xs:simpleType name="En"><xs:restriction base="xs:string"><xs:enumeration value="a-b"/><xs:enumeration value="Abc"/><xs:enumeration value="ABC"/><xs:enumeration value="9x"/></xs:restriction></xs:simpleType>'
                                        '<xs:simpleType name="Un"><xs:union memberTypes="xs:int tt:En"/></xs:simpleType>' % {"n": n}, xp, tp)]
    cx.sweep("schemas with prefixed, unprefixed and referenced fields in every position, four prefix layouts", cases2(), judge)
    cx.sweep("1200 random schemas: yaserde attributes of every type, field and alternative", corpus(1200, 19), judge)


def last_ident(s, r):
    """rope of the alternative's identifier: what stands before the type in parentheses or the final comma"""
    r = s.rope(r)
    i = len(r) - 1
    if not isinstance(r[i], bytes):
        return None
    for j in range(i, -1, -1):
        p = r[j]
        if isinstance(p, bytes) and b"(" in p:
            i = j
            break
    t = r[i][:r[i].rindex(b"(")] if b"(" in r[i] else r[i].rstrip()[:-1]
    out = [t] if t else []
    for j in range(i - 1, -1, -1):
        if out and isinstance(out[0], bytes) and re.search(rb"\s", out[0]):
            break
        out.insert(0, r[j])
    if out and isinstance(out[0], bytes):
        out[0] = re.split(rb"\s", out[0])[-1]
        if not out[0]:
            out.pop(0)
    return s.rope(tuple(out))
