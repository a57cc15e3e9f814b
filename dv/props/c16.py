from .gspec import *
from .pverify import FUNCS, verify_parser
from ..check import Raw
from .. import abstract as AB

LEVEL = "proof"
NOTE = "default_format_comment and split_comment_line for every documentation text and line width (words and lines as sequences of unknown length, loop invariant checked inductively); where each generator puts the comment, for every name and any number of fields; whole schemas by a bounded sweep."
# comment lines; never a documentation comment (/// or //!), which would attach to what follows
LINE = L.lit(b" ").star() + L.lit(b"//") + (L.EPS | (L.lit(b" ") + (L.UTF8 & L.byteset(set(range(256)) - {10}).star()))) + L.lit(b"\n")
STRICT = LINE.star()
OPEN = STRICT + L.lit(b" ").star() + L.lit(b"//") + (L.EPS | (L.lit(b" ") + (L.UTF8 & L.byteset(set(range(256)) - {10}).star())))
ONELINE = L.lit(b"//") + (L.UTF8 & (L.byteset(set(range(256)) - {10, 33, 47}) + L.byteset(set(range(256)) - {10}).star())) + L.lit(b"\n")
WSP = "[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+"
RLINE = re.compile(r" *//( [^\n]*)?\n")


def words(doc):
    """words of the documentation, except lines that hold a single character"""
    out = []
    for l in (doc or "").split("\n"):
        l = re.sub("^%s|%s$" % (WSP, WSP), "", l)
        if len(l.encode()) > 1:
            out += [w for w in re.split(WSP, l) if w]
    return out


def comment_words(t):
    """words in the leading comment lines, and the rest"""
    out = []
    while True:
        m = RLINE.match(t)
        if not m:
            return out, t
        out += [w for w in re.split(WSP, (m.group(1) or "")) if w]
        t = t[m.end():]


def judge(op, a, r):
    if op == "comment":
        doc = None if isinstance(a[0], Raw) else dec([a[0]])[0]
        if r[0] != "ok":
            return "no comment for %r: %s" % (doc, r)
        ws, rest = comment_words(out_text(r))
        if rest or ws != words(doc):
            return "documentation %r (width %s, indentation %s) gives %r" % (doc, a[1], a[2], out_text(r))
        return None
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        if r[0] != "ok":
            return "no code for %s %r: %s" % (kind, v, r)
        t = out_text(r)
        if kind == "import":
            return None if re.fullmatch(r"//(?![/!])[^\n]*\n", t) else "import %r gives %r, not one comment line" % (v, t)
        doc = {"field": 4, "case": 4, "alias": 2, "tuple": 3, "struct": 1, "enum": 3}[kind]
        doc = v[doc] if isinstance(v[doc], str) else None
        ws, rest = comment_words(t)
        if kind == "alias":
            n = len(words(doc))
            return None if ws[:n] == words(doc) and not rest and ws[n:n + 2] == ["pub", "type"] and len(ws) == n + 5 else "alias %r gives %r, not only comment lines" % (v, t)
        rest = strip_inner(kind, v, rest)
        if ws != words(doc) or "//" in re.sub(r'"[^"\n]*"', "", rest) or doc and len(doc) > 12 and doc in rest:
            return "%s %r with documentation %r gives %r" % (kind, v, doc, t)
        return None
    text = dec(a)[0]
    m = compare(a, r, lambda i, e: (ikey(i), i["k"], [(f["n"], nsq(f["t"])) for f in fields_of(i)]), "items next to documentation")
    return m or foreign(load(r), text) or misplaced(a, r)


PUB = re.compile(r"pub\s+(struct|enum)\s+([\w#]+)")
FIELD = re.compile(r"pub\s+([\w#]+)\s*:")
VARIANT = re.compile(r"([\w#]+)\s*(?:[(,{]|$)")


def commented(text):
    """[(name, words of the comment lines before it, [(field or alternative, words)])] of the structures and enums, in order"""
    out, pend, cur, attr = [], [], None, 0
    for l in text.split("\n"):
        l = l.strip(" \t\r")
        if attr or l.startswith("#["):
            b = re.sub(r'"(?:[^"\\]|\\.)*"', "", l)
            attr += b.count("[") - b.count("]")
            continue
        if l.startswith("//"):
            pend += [w for w in re.split(WSP, l[2:]) if w]
            continue
        if not l:
            continue
        m, f = PUB.match(l), FIELD.match(l) if cur == "struct" else VARIANT.match(l) if cur == "enum" else None
        if m:
            out.append((m.group(2), pend, []))
            cur = m.group(1)
        elif f:
            if f.group(1) != "__Unknown__":
                out[-1][2].append((f.group(1), pend))
        elif l.startswith("}"):
            cur = None
        pend = []
    return out


def misplaced(a, r):
    """an item, field or alternative whose comment lines are not its documentation's words"""
    e, g = ast_items(a, r)
    if isinstance(e, str) or len(r) < 3:
        return None
    c = commented(bytes.fromhex(r[2]).decode())
    if [(i["n"], [] if i["k"] == "tuple" else [f["n"] for f in fields_of(i)]) for i in g] != [(n, [x for x, _ in fs]) for n, _, fs in c]:
        return None         # laid out in another way
    for x, (n, ws, fs) in zip(e, c):
        w = words(x["doc"])
        if ws[len(ws) - len(w):] != w:
            return "documentation %r of %s: the comment before it holds %r, in the code for schema %s" % (x["doc"], n, " ".join(ws), dec(a)[0][:2000])
        for y, (f, ws) in zip(fields_of(x) if fs else (), fs):
            if ws != words(y.get("doc")):
                return "documentation %r of %s in %s: the comment before it holds %r, in the code for schema %s" % (y.get("doc"), f, n, " ".join(ws), dec(a)[0][:2000])
    return None


def strip_inner(kind, v, rest):
    """code without the comments of fields and alternatives"""
    return re.sub(r"(?m)^ *//( .*)?$", "", rest) if kind in ("struct", "enum") else rest


def foreign(j, text):
    for i in j:
        if i["k"] == "mod":
            m = foreign(i["i"], text)
            if m:
                return m
        elif i["k"] not in ("struct", "tuple", "enum", "impl", "use"):
            return "unexpected %s item %r in the code for schema %s" % (i["k"], i, text[:3000])
        elif any("doc" in x for x in i.get("other", [])):
            return "documentation attribute in the code for schema %s" % text[:3000]
    return None


WSP_ = AB.WS.star()
SHORT = L.EPS | L.byteset(set(range(256)))
GAP = re.compile(rb" *(\n *//)? +")


def core(t, r):
    """rope without the white space around it"""
    r = list(t.rope(r))
    while r and t.rope_lang((r[0],)).subset(WSP_):
        r.pop(0)
    while r and t.rope_lang((r[-1],)).subset(WSP_):
        r.pop()
    return tuple(r)


def words_kept(s, r, doc):
    """states in which some line of the documentation with two or more bytes (white space around it aside) does not become comment
    text holding exactly its words, in order.  The text is the concatenation of the texts of the documentation's lines; the text
    of an arbitrary line is empty only when the line is that short, and is otherwise made of the texts of its words, each of
    which is the word behind a gap (spaces, possibly a new comment line)."""
    r = s.rope(r)
    rec = [x for x in s.ghost.get("joined", ()) if r == s.rope(x[0]) and s.rope(x[1]) == ()]
    if not rec:
        raise Unsupported("comment not made line by line")
    bad = []
    for t, x in rec[-1][2]:
        if x is None or not t.feasible():
            continue
        how, text = t.ghost.get("elemof", ("", None))
        if how != "lines" or t.rope(text) != t.rope(doc):
            raise Unsupported("comment not made of the documentation's lines")
        line, x = core(t, t.ghost["elem"]), t.rope(x)
        w = [y for y in t.ghost.get("joined", ()) if t.rope(y[0]) and t.rope(y[0])[0] in x and y[2]]
        if not w:
            bad += [t2 for t2, b in t.split(line, SHORT) if not b and t2.feasible()]
            continue
        w = w[-1]
        for t2, y in w[2]:
            if y is None or not t2.feasible():
                continue
            how, text = t2.ghost.get("elemof", ("", None))
            e = t2.rope(t2.ghost["elem"])
            y = t2.rope(y)
            g = t2.const_str(y[:-len(e)]) if e and y[-len(e):] == e else None
            if how != "split_whitespace" or core(t2, text) != t2.rope(line) or g is None or not GAP.fullmatch(g):
                bad.append(t2)
        i = x.index(t.rope(w[0])[0])
        if not re.fullmatch(rb" *// *", t.const_str(x[:i]) or b"!") or t.const_str(x[i + 1:]) != b"\n":
            bad.append(t)
    return bad


def run(cx):
    E = cx.E
    for ind in (0, 2, 4, 8):
        for has in (True, False):
            def mk(ind=ind, has=has):
                st = State()
                d = st.atom_rope(UTF8, "doc") if has else None
                mx = st.new_int(0, 1 << 40, "max")
                return st, [some(SRef(d)) if has else NONE, mx, ind], {"d": d, "m": mx}

            def post(s, k, v, g, has=has):
                yield "no-panic", [s] if k != "ret" else []
                if k == "ret":
                    r = E.expand(s, v).r
                    yield "only-comment-lines", [t for t, b in s.split(r, STRICT) if not b] if has else [t for t, b in s.split(r, L.EPS) if not b]
                    if has:
                        yield "words-kept", words_kept(s, r, g["d"])
            cx.vary_on = True
            with abstracting(E, (OPEN, STRICT)):
                cx.verify("default_format_comment[%s,indent:%d]" % ("doc" if has else "none", ind), "r_comment", mk, post,
                          lambda s, m, g, ind=ind: ("comment", [Raw("~") if g["d"] is None else ev(s, m, g["d"]), ev(s, m, g["m"]), ind]), judge, pred=UNC, budget=60, clauses=("no-panic", "only-comment-lines") + (("words-kept",) if has else ()))

    cx.vary_on = False
    # the comment of an entity comes first, once, and nothing else of the documentation is used
    def place(s, r, doc):
        c = lookup(s, "comment", doc)
        sk = skel(s, r)
        if c is None or skel(s, doc) and skel(s, doc) in sk:
            return [s]
        k = skel(s, c)
        return [] if not k or sk.startswith(k) and sk.count(k) == 1 else [s]
    for tk in "-p":
        for src in SRC:
            for mods in ("N", "O", "A"):
                verify_field(cx, "field[%s,%s,tns:%s]" % (src, mods, tk), src, tk, mods, judge, lambda s, r, g: [("comment-first", place(s, r, g["c"]))], ("comment-first",), comment=True)
        for src in ESRC:
            for typed in (True, False):
                verify_case(cx, "case[%s,%s,tns:%s]" % (src, "typed" if typed else "unit", tk), src, tk, "N", typed, judge, lambda s, r, g: [("comment-first", place(s, r, g["c"]))], ("comment-first",), comment=True)
        for kind in ("struct", "tuple", "enum", "alias"):
            def build(st, g, kind=kind):
                g["n"], g["t"], g["c"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type"), st.atom_rope(UTF8, "doc")
                c = some(StringV(g["c"]))
                if kind == "struct":
                    return adt(E, PT + "Struct", name=StringV(g["n"]), comment=c, fields=fields_cell(E, any_field(E)))
                if kind == "tuple":
                    return adt(E, PT + "TupleStruct", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=c)
                if kind == "alias":
                    return adt(E, PT + "Alias", name=StringV(g["n"]), original=StringV(g["t"]), comment=c)
                return adt(E, PT + "Enum", name=StringV(g["n"]), type_name=StringV(g["t"]), comment=c, cases=any_case(E), source=enumv(E, PT + "EnumSource", "Choice"))

            def post(s, r, g, kind=kind):
                yield "comment-first", place(s, r, g["c"])
                if kind == "alias":
                    c = lookup(s, "comment", g["c"])
                    yield "comment-only", [] if c is not None and s.rope_lang(r).subset(COMMENT) else [s]
            verify_entity(cx, "%s[tns:%s]" % (kind, tk), kind, tk, build, judge, post, ("comment-first",) + (("comment-only",) if kind == "alias" else ()),
                          lambda g, e, kind=kind: {"struct": [e(g["n"]), e(g["c"]), []], "tuple": [e(g["n"]), e(g["t"]), "", e(g["c"]), []], "alias": [e(g["n"]), e(g["t"]), e(g["c"])],
                                                   "enum": [e(g["n"]), e(g["t"]), "C", e(g["c"]), []]}[kind])

    def build(st, g):
        g["n"], g["l"] = st.atom_rope(UTF8, "namespace"), st.atom_rope(UTF8, "location")
        return adt(E, PT + "Import", name=StringV(g["n"]), location=StringV(g["l"]))
    verify_entity(cx, "import", "import", "-", build, judge, lambda s, r, g: [("one-comment-line", [t for t, b in s.split(r, ONELINE) if not b])], ("one-comment-line",), lambda g, e: [e(g["n"]), e(g["l"])])

    docs = ["", "a", "ab", "two words", "line one\nline two", "  padded  \n\n\n  more  ", "x\n}\npub struct Evil;\nfn main() {}", "*/ pub struct Evil; /*", "/// doc", "//! inner", "/ slash", "!bang", "a\r\nb\rcc", "tab\there", "nbsp\u00a0x",
            "ls\u2028pub struct Evil;", "nel\u0085pub struct E;", "vt\x0bff\x0cx", "w" * 100, ("word " * 40).strip(), "é" * 60 + " " + "日本語 " * 30, "\"quotes\" \\ backslash \\n {braces} {{}}", "#[derive(X)] #![feature(y)]", "a\nb\ncc\nd", "-\n--\n---", "\u2003em space", "`code` <tag> & entity",
            "😀 " * 50, "one\n\n\ntwo\n \n\t\nthree", "trailing backslash \\\nnext", "\u200b zero width", ("many words\n\nof text\r\nin lines\n" * 30), "x" * 76, "x" * 77, "x" * 78, "yy " + "x" * 74, "yy " + "x" * 75, "yy " + "x" * 71 + " zz"]
    # lines that begin, end or consist of marks of all kinds, as documentation copied from elsewhere does
    marks = ["//", "/*", "*/", "*", "**", "</", "<", "/>", "<p>", "</p>", "&lt;", "#", "##", "#[", "@", "@param", "-", "--", "- ", "=", "==", "+", "1.", "1)", "(", "[", "{", "}", "|", "~", "^", ";", ":", ",", ".", "...", "!", "?", "'", '"', "`", "```", "\\", "$", "%", "_", "TODO", "NOTE:", "0", "\ufeff", "\u200b", "\xa7", "\u2022", "<!--", "-->", "<![CDATA[", "]]>", "http://", "::", "pub", "fn", "r#"]
    docs += ["alpha beta\n%s gamma delta\nepsilon" % m for m in marks] + ["alpha\n%sgamma" % m for m in marks] + ["alpha\ngamma%s\nbeta" % m for m in marks] + ["alpha\n%s\nbeta" % m for m in marks] + ["alpha %s\nALPHA\n12 34\nalpha %s" % (m, m) for m in marks[:12]]

    def xdocs():
        return [d for d in docs if not re.search("[\x00-\x08\x0b\x0c\x0e-\x1f]", d)]

    def cases():
        import random
        rng = random.Random(16)
        rnd = ["".join(rng.choice("ab \n\n\r\t/!{}\"é\u2028") for _ in range(rng.randrange(30))) for _ in range(600)]
        for d in docs + rnd:
            for mx, ind in ((80, 0), (80, 4), (0, 0), (1, 2), (10, 8), (30, 2), (1000, 4)):
                yield "comment", [d, mx, ind]
        yield "comment", [Raw("~"), 80, 0]
        for d in docs:
            for tns in ("-", "ptt urn:t"):
                for s in "AEBCN":
                    for m in ("", "O", "A"):
                        yield "ent", ["field", sx(["fieldName", "xs:int", s, m, d]), tns, "pxs urn:x"]
                for s in "CRU":
                    yield "ent", ["case", sx(["caseName", "tt:Foo", s, "", d]), tns, "-"]
                    yield "ent", ["case", sx(["caseName", None, s, "", d]), tns, "-"]
                    yield "ent", ["enum", sx(["EnumName", "String", s, d, [["c1", None, s, "", d], ["c2", "tt:X", s, "", None]]]), tns, "-"]
                yield "ent", ["struct", sx(["StructName", d, [["f1", "xs:int", "E", "", d], ["f2", "xs:int", "A", "O", None]]]), tns, "pxs urn:x"]
                yield "ent", ["tuple", sx(["TupleName", "xs:int", "", d, []]), tns, "pxs urn:x"]
                yield "ent", ["alias", sx(["AliasName", "tt:Foo", d]), tns, "-"]
                yield "ent", ["import", sx([d, d]), tns, "-"]
                yield "ent", ["import", sx([d * 20, d * 9]), tns, "-"]
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("documentation texts (injection attempts, separators, long words, 600 random) x widths x indentations; every entity kind documented by them", cases(), judge)

    def esc(d):
        return "".join(c if c.isalnum() or c in " ./" else "&#%d;" % ord(c) for c in d)

    def cases2():
        for d in xdocs():
            x = "<xs:annotation><xs:documentation>%s</xs:documentation></xs:annotation>" % esc(d)
            yield "ast", [schema_of('<xs:import namespace="%(u)s" schemaLocation="%(u)s"/><xs:element name="el" type="xs:int">%(d)s</xs:element><xs:element name="el2">%(d)s<xs:complexType><xs:sequence><xs:element name="q" type="xs:int">%(d)s</xs:element></xs:sequence></xs:complexType></xs:element>'
                                    '<xs:attribute name="at" type="xs:int">%(d)s</xs:attribute><xs:complexType name="Ct">%(d)s<xs:sequence><xs:element name="f1" type="xs:int">%(d)s</xs:element><xs:element ref="tt:el">%(d)s</xs:element></xs:sequence>'
                                    '<xs:attribute name="a1" type="xs:int">%(d)s</xs:attribute></xs:complexType><xs:complexType name="Ch">%(d)s<xs:choice><xs:element name="c1" type="xs:int">%(d)s</xs:element></xs:choice></xs:complexType>'
                                    '<xs:complexType name="Ex">%(d)s<xs:complexContent><xs:extension base="tt:Ct">%(d)s<xs:sequence><xs:element name="e1" type="xs:int">%(d)s</xs:element></xs:sequence></xs:extension></xs:complexContent></xs:complexType>'
                                    '<xs:simpleType name="En">%(d)s<xs:restriction base="xs:string"><xs:enumeration value="one">%(d)s</xs:enumeration><xs:enumeration value="two"/></xs:restriction></xs:simpleType>'
                                    '<xs:simpleType name="Si">%(d)s<xs:restriction base="xs:int"><xs:minInclusive value="3">%(d)s</xs:minInclusive></xs:restriction></xs:simpleType>'
                                    '<xs:element name="em">%(d)s</xs:element><xs:complexType name="Emp">%(d)s</xs:complexType><xs:element name="es">%(d)s<xs:simpleType>%(d)s<xs:restriction base="xs:int">%(d)s<xs:maxInclusive value="3"/></xs:restriction></xs:simpleType></xs:element>'
                                    '<xs:complexType name="Sc">%(d)s<xs:simpleContent>%(d)s<xs:extension base="xs:string">%(d)s<xs:attribute name="sa" type="xs:int">%(d)s</xs:attribute></xs:extension></xs:simpleContent></xs:complexType>'
                                    '<xs:complexType name="Ne">%(d)s<xs:sequence>%(d)s<xs:element name="ne1">%(d)s<xs:complexType>%(d)s<xs:sequence><xs:element name="ne2" type="xs:int">%(d)s</xs:element></xs:sequence><xs:attribute name="na">%(d)s</xs:attribute></xs:complexType></xs:element>'
                                    '<xs:element name="ne3">%(d)s<xs:simpleType>%(d)s<xs:restriction base="xs:string"><xs:enumeration value="x">%(d)s</xs:enumeration></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType>'
                                    '<xs:simpleType name="Li">%(d)s<xs:list itemType="xs:int"/></xs:simpleType><xs:simpleType name="Un">%(d)s<xs:union memberTypes="xs:int tt:En"/></xs:simpleType>' % {"d": x, "u": esc(d)})]
    cx.sweep("schemas with each documentation text in every place documentation may stand: same items as without", cases2(), judge)
    cx.sweep("random schemas: the comment before every item, field and alternative holds the words of its documentation", corpus(300 if cx.tier == "quick" else 4000, 16), judge)
