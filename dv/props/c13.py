from itertools import product
from .gspec import *
from .pverify import FUNCS, verify_parser

LEVEL = "proof"
NOTE = "default_modify_type for every type text and every modifier list up to length 4; StructField/EnumCase generators for every name and type; occurrence attributes of whole schemas by a bounded sweep."
MODS = ["".join(p) for n in range(4) for p in product("NAORE", repeat=n)]


def judge(op, a, r):
    if op == "modify":
        n, m = dec(a)
        if out_text(r) is None or nows(out_text(r)) != nows(py_modify(n, m)):
            return "modifiers %s of %r: expected %r, real code gave %r" % (m, n, py_modify(n, m), out_text(r) if r[0] == "ok" else r)
        return None
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = code_text(out_text(r))
        mods = v[3]
        if kind == "field" and "E" in mods:
            return "prohibited attribute %r gives %r" % (v, t) if t.strip() else None
        want = py_modify(py_type(v[1], ns_prefix(tns), ns_prefix(xsd)), mods) if v[1] is not None else None
        m = re.search(r"pub\s+\S*?\s*:\s*(.*?),\s*$", t, re.S) if kind == "field" else re.search(r"\((.*)\)\s*,\s*$", re.sub(r"#\[yaserde\([^\n]*\)\]\n", "", t), re.S)
        got = m.group(1) if m else None
        if (got is None) != (want is None) or got is not None and nows(got) != nows(want):
            return "%s %r: expected type %r, real code gave %r" % (kind, v, want, t)
        return None
    return compare(a, r, proj, "occurrence")


def proj(i, exp):
    out = []
    for f in fields_of(i):
        if f["t"] is None:
            out.append((f["n"], None))
        elif exp and i["k"] != "tuple":
            # wrappers of the base type itself (xs:NMTOKENS is a list) plus those of the occurrence
            out.append((f["n"], wraps(f["t"])))
        else:
            out.append((f["n"], wraps(f["t"])))
    return ikey(i), out


def run(cx):
    cx.vary_on = True
    E = cx.E

    def mod_group(mods):
        def mk():
            st = State()
            n = st.atom_rope(UTF8, "type")
            return st, [SRef(n), SliceV(mod_vec(E, mods).xs, None)], {"n": n}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                w = skel(s, g["n"])
                got = E.expand(s, v).r
                yield "wrapped", [] if nows(skel(s, got)) == nows(py_modify(w, mods)) else str_states_ne(s, got, rope_sub(s, g["n"], mods))
        cx.verify("default_modify_type[%s]" % (mods or "none"), "r_modify", mk, post, lambda s, m, g: ("modify", [ev(s, m, g["n"]), mods]), judge,
                  pred=lambda s, k, v, g, m: ("ok", hexs(ev(s, m, E.expand(s, v).r))) if k == "ret" else None, budget=20, clauses=("no-panic", "wrapped"))
    for mods in MODS:
        mod_group(mods)

    # fields and choice alternatives: the type text is the formatted type in the wrappers of the modifiers
    for src in SRC:
        for mods in ("N", "O", "A", "E", "", "NR", "OR", "AR"):
            def post(s, got, g, mods=mods):
                if "E" in mods:
                    yield "omitted", [] if not skel(s, got).strip() else [s]
                    return
                t = lookup(s, "tyname", g["t"])
                p = split_field(skel(s, got))
                if p is None or t is None:
                    yield "type", [s]
                    return
                yield "type", [] if nows(p[2]) == nows(py_modify(skel(s, t), mods)) else [s]
            verify_field(cx, "field[%s,%s]" % (src, mods or "none"), src, "p", mods, judge, post, ("omitted",) if "E" in mods else ("type",))
    for src in ("Choice", "Union"):
        for mods in ("N", "O", "A", ""):
            def post(s, got, g, mods=mods):
                t = lookup(s, "tyname", g["t"])
                m = re.search(r"(?s)\(([^()]*)\)\s*,\s*$", skel(s, got))
                yield "type", [] if m and t is not None and nows(m.group(1)) == nows(py_modify(skel(s, t), mods)) else [s]
            verify_case(cx, "alternative[%s,%s]" % (src, mods or "none"), src, "p", mods, True, judge, post, ("type",))

    # whole schemas
    mins = [None, "0", "1", "2", "7", "+0", "00", "+1", "x", "", "18446744073709551615", "-1", " 0"]
    maxs = [None, "unbounded", "0", "1", "2", "9", "+1", "01", "x", "18446744073709551615", "18446744073709551616", "Unbounded"]

    def occ(mn, mx):
        return ("" if mn is None else ' minOccurs="%s"' % mn) + ("" if mx is None else ' maxOccurs="%s"' % mx)

    def cases():
        for mn in mins:
            for mx in maxs:
                o = occ(mn, mx)
                yield "ast", [schema_of('<xs:complexType name="Holder"><xs:sequence><xs:element name="e1" type="xs:int"%s/><xs:element name="e2" type="tt:Other"%s/><xs:element ref="tt:third"%s/>'
                                        '<xs:element name="e4"%s><xs:complexType><xs:sequence><xs:element name="in" type="xs:string"/></xs:sequence></xs:complexType></xs:element></xs:sequence></xs:complexType>'
                                        '<xs:complexType name="Alls"><xs:all><xs:element name="e1" type="xs:NMTOKENS"%s/></xs:all></xs:complexType>'
                                        '<xs:complexType name="Other"><xs:choice><xs:element name="c1" type="xs:string"%s/><xs:element ref="tt:third"%s/></xs:choice></xs:complexType>' % ((o,) * 7))]
        for u in (None, "optional", "required", "prohibited"):
            uu = "" if u is None else ' use="%s"' % u
            yield "ast", [schema_of('<xs:complexType name="Holder"><xs:attribute name="a1" type="xs:int"%s/><xs:attribute name="a2"%s/><xs:attribute ref="tt:a3"%s/></xs:complexType>'
                                    '<xs:attributeGroup name="gr"><xs:attribute name="b1" type="xs:NMTOKENS"%s/></xs:attributeGroup>'
                                    '<xs:complexType name="Hold2"><xs:simpleContent><xs:extension base="xs:string"><xs:attribute name="a1" type="xs:int"%s/></xs:extension></xs:simpleContent></xs:complexType>'
                                    '<xs:complexType name="Hold3"><xs:sequence><xs:element name="x" type="xs:int"/></xs:sequence><xs:attribute name="a1" type="xs:int"%s/><xs:attributeGroup ref="tt:gr"/></xs:complexType>' % ((uu,) * 6))]
        # types that contain themselves, and types whose name only ends like that of the enclosing type
        for o in ("", ' minOccurs="0"', ' maxOccurs="unbounded"', ' minOccurs="0" maxOccurs="3"'):
            for tag in ("sequence", "all"):
                for t in ("tt:Node", "Node", "tt:SubNode", "SubNode", "o:Node", "tt:Nod", "tt:NodeX"):
                    yield "ast", [schema_of('<xs:complexType name="Node"><xs:%s><xs:element name="kid" type="%s"%s/><xs:element name="val" type="xs:int"/></xs:%s></xs:complexType>' % (tag, t, o, tag))]
                    yield "ast", [schema_of('<xs:complexType name="Node"><xs:complexContent><xs:extension base="tt:B"><xs:%s><xs:element name="kid" type="%s"%s/></xs:%s></xs:extension></xs:complexContent></xs:complexType>' % (tag, t, o, tag))]
        for it in ("xs:int", "xs:string", "tt:Foo", "xs:NMTOKENS"):
            yield "ast", [schema_of('<xs:simpleType name="Items"><xs:list itemType="%s"/></xs:simpleType><xs:simpleType name="Deep"><xs:list><xs:simpleType><xs:list itemType="%s"/></xs:simpleType></xs:list></xs:simpleType>'
                                    '<xs:simpleType name="Lim"><xs:list><xs:simpleType><xs:restriction base="%s"><xs:length value="3"/></xs:restriction></xs:simpleType></xs:list></xs:simpleType>' % (it, it, it))]
    cx.vary_on = False
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("schemas with every combination of minOccurs and maxOccurs spellings, attribute uses, self-containing types, lists", cases(), judge)
    cx.sweep("1200 random schemas: wrappers of every field, alternative and list", corpus(1200, 13), judge)


def hexs(b):
    return b.hex()


def rope_sub(s, n, mods):
    t = py_modify("\0", mods)
    out = []
    for i, p in enumerate(t.split("\0")):
        if i:
            out += list(n)
        if p:
            out.append(p.encode())
    return tuple(out)
