from .gspec import *

LEVEL = "proof"
NOTE = "format_name, mod_name, format_type_name and EnumCaseGenerator::generate (split_name, sanitize, filter_type_name executed from MIR) for every ASCII name with a letter or digit; case conversion of Inflector is an assumed contract on its output alphabet."
LOCAL = (ASCIIW & HASAN) & NOCOLON
TAIL = (L.EPS | (L.ALL + L.lit(b"\n"))) + L.lit(b" ").star() + GOODID + L.lit(b",")


def in_domain(n):
    l = n.split(":")[-1]
    return l.isascii() and any(c.isalnum() for c in l) and n.count(":") <= 1


def judge(op, a, r):
    if op in ("fname", "mname"):
        n = dec(a)[0]
        if in_domain(n) and (out_text(r) is None or not ident_ok(out_text(r))):
            return "%s name of %r is %r, not a usable Rust identifier" % ({"fname": "field", "mname": "module"}[op], n, out_text(r) if r[0] == "ok" else r)
        return None
    if op == "tyname":
        n, t, x = dec(a)
        if not in_domain(n) or ":" not in n and ns_prefix(x) is None and n in TABLE:
            return None
        if ":" in n and n.split(":")[0] == ns_prefix(x) and n.split(":")[1] in TABLE:
            return None
        if out_text(r) is None or not ident_ok(out_text(r).split("::")[-1]):
            return "type name of %r is %r, not a usable Rust identifier" % (n, out_text(r) if r[0] == "ok" else r)
        return None
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if not in_domain(v[0]):
            return None
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = code_text(out_text(r))
        m = re.search(r"(\S*?)(\(.*\))?\s*,\s*$", t, re.S) if kind == "case" else re.search(r"pub (\S*?)\s*:", t)
        if not m or not ident_ok(m.group(1)):
            return "%s %r: %r does not start with a usable Rust identifier" % (kind, v, t)
        return None
    j = load(r)
    if j is None:
        return "no syntactically valid code (%s) for schema %s" % (r[0], dec(a)[0][:3000])
    return bad_ids(j, dec(a)[0])


def bad_ids(j, text):
    for i in j:
        ns = [("item", i["n"])] if "n" in i and i["k"] in ("struct", "tuple", "enum", "mod") else []
        if i["k"] == "struct":
            ns += [("field", f["n"]) for f in i["f"]]
        if i["k"] == "enum":
            ns += [("variant", v["n"]) for v in i["v"]]
        for k, n in ns:
            if not ident_ok(n):
                return "%s name %r is not a usable Rust identifier in the code for schema %s" % (k, n, text[:3000])
        if i["k"] == "mod":
            m = bad_ids(i["i"], text)
            if m:
                return m
    return None


def run(cx):
    cx.vary_on = True
    E = cx.E

    def name_group(name, root, op, npre):
        def mk():
            st = State()
            loc = st.atom_rope(LOCAL, "local")
            n = st.atom_rope(NCNAME, "prefix") + (b":",) + loc if npre else loc
            return st, [SRef(n)], {"n": n}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "identifier", [t for t, b in s.split(E.expand(s, v).r, GOODID) if not b]
        cx.verify(name, root, mk, post, lambda s, m, g: (op, [ev(s, m, g["n"])]), judge, pred=UNC, budget=60, clauses=("no-panic", "identifier"))
    for npre in (False, True):
        for root, op in (("r_field_name", "fname"), ("r_mod_name", "mname")):
            name_group("%s[%s]" % (root[2:], "p:l" if npre else "l"), root, op, npre)
        for tk in "-dp":
            def mk(npre=npre, tk=tk):
                st = State()
                loc = st.atom_rope(LOCAL, "local")
                pre = st.atom_rope(NCNAME, "prefix") if npre else None
                tns, tp, tu = sym_ns(st, tk, "tns")
                return st, [SRef(pre + (b":",) + loc if npre else loc), opt_ns(tns), some(NSX)], {"n": pre + (b":",) + loc if npre else loc, "tp": tp, "tu": tu, "pre": pre}

            def post(s, k, v, g):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                r = E.expand(s, v).r
                if g["pre"] is None:
                    yield "identifier", [t for t, b in s.split(r, GOODID) if not b]
                else:
                    yield "identifier", [t for t, b in s.split(r, (L.EPS | (NCNAME + L.lit(b"::"))) + GOODID) if not b]
            cx.verify("type_name[%s,tns:%s]" % ("p:l" if npre else "l", tk), "r_type_name", mk, post,
                      lambda s, m, g, tk=tk: ("tyname", [ev(s, m, g["n"]), ns_conc(s, m, tk, g["tp"], g["tu"]), "pnoprefix urn:x"]), judge, pred=UNC, budget=60, clauses=("no-panic", "identifier"))
    for src in ESRC:
        for npre in (False, True):
            for tk in "-dp":
                def mk(src=src, npre=npre, tk=tk):
                    st = State()
                    loc = st.atom_rope(LOCAL, "local")
                    n = st.atom_rope(NCNAME, "prefix") + (b":",) + loc if npre else loc
                    tns, tp, tu = sym_ns(st, tk, "tns")
                    return st, [ecase(E, src, n), opt_ns(tns), NONE], {"n": n, "tp": tp, "tu": tu}

                def post(s, k, v, g):
                    yield "no-panic", [s] if k != "ret" else []
                    if k == "ret":
                        r = E.expand(s, v).r
                        yield "identifier", [] if s.rope_lang(r).subset(TAIL) else [s]

                def conc(s, m, g, src=src, tk=tk):
                    return "ent", ["case", sx([ev(s, m, g["n"]), None, ESRC[src], "", None]), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
                cx.verify("variant[%s,%s,tns:%s]" % (src, "p:l" if npre else "l", tk), "r_gen_case", mk, post, conc, judge, pred=UNC, budget=60, clauses=("no-panic", "identifier"))

    kw = sorted(KEYWORDS)
    base = kw + [k.capitalize() for k in kw] + [k.upper() for k in kw] + ["-" + k for k in kw] + [k + "-" for k in kw] + [k + "." for k in kw] + ["_" + k for k in kw] + [k + "_" for k in kw] \
        + [k[0] + "-" + k[1:] for k in kw] + [k + "1" for k in kw] + ["1" + k for k in kw]
    extra = ["0", "9a", "a9", "-", "_", "-1", "_1", "1_", "1-1", "A", "a.b", "a:b", "A_B", "aB-c.D", "x y", "1.5", "+1", "a+b", "#a", "a$", "ABC", "aBC", "ABc", "9", "0x", "--a", "a--b", "a..b", "__a__b__", "é", "aé", "éa"]
    import random
    rng = random.Random(14)
    rnd = ["".join(rng.choice("abzABZ019_-. ~!+/") for _ in range(rng.randrange(1, 9))) for _ in range(400)]

    def cases():
        for n in base + extra + rnd:
            for p in ("", "tt:", "o:"):
                yield "fname", [p + n]
                yield "mname", [p + n]
                yield "tyname", [p + n, "ptt urn:t", "pxs urn:x"]
                for s in "RCU":
                    yield "ent", ["case", sx([p + n, None, s, "", None]), "ptt urn:t", "-"]
                yield "ent", ["field", sx([p + n, "xs:int", "E", "", None]), "ptt urn:t", "pxs urn:x"]
    cx.sweep("field, module, type and variant names: keywords in every casing and with separators, digits, symbols, 400 random ASCII names", cases(), judge)

    def cases2():
        good = [n for n in base + extra if re.fullmatch(r"[A-Za-z_][A-Za-z0-9_.\-]*", n) and in_domain(n) and n not in TABLE]
        for n in good:
            yield "ast", [schema_of('<xs:complexType name="%s"><xs:sequence><xs:element name="%s" type="tt:%s"/><xs:element name="in1"><xs:complexType><xs:sequence><xs:element name="%s" type="xs:int"/></xs:sequence>'
                                    '</xs:complexType></xs:element></xs:sequence></xs:complexType><xs:simpleType name="en"><xs:restriction base="xs:string"><xs:enumeration value="%s"/></xs:restriction></xs:simpleType>'
                                    % (n, n, n, n, re.sub("[_.]", "-", n)))]
    cx.sweep("schemas whose type, nested type, element and enumeration value have each of these names", cases2(), judge)
    cx.sweep("800 random schemas: every identifier", corpus(800, 14), judge)
