"""Random schemas (fixed seeds) inside the supported subset, for the bounded checks."""
from .xsdref import *

WORDS = ["alpha", "Beta", "gammaRay", "delta-wave", "eps_lon", "zeta.x", "Eta9", "type", "Self", "try", "loop", "Vec", "ID", "XMLName", "a", "B2b", "x-1", "async", "dyn", "_priv", "Iota_Kappa",
         "HTTPServer", "move", "Ref", "abstract", "yield", "ConfigurationEntity", "n9.k", "Option", "where", "Element", "string", "final", "Box", "Unknown", "UnknownMode", "x_", "__b", "Type_", "mod", "union", "Default_2"]
BUILT = ["string", "int", "boolean", "dateTime", "decimal", "anyURI", "token", "unsignedByte", "integer", "duration", "gYear", "double", "NMTOKENS", "ID", "base64Binary", "long"]
ENUMV = ["One", "two", "three-3", "self", "Type", "H264", "9lives", "fooBar", "true", "Extended", "x", "NTP", "Self", "a-b-c", "Unknown", "-x", "y-", "0", "0x1F", "caf\u00e9", "A--b", "NO", "no-1", "macro", "z9", "Fahrenheit451", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8"]
DOCS = ["A short note.", "Two\n lines & more", "  ", "longer text that needs to be wrapped because it does not fit into one line of eighty characters }", "x", "*/ pub struct Evil; /*", "// nested",
        "first -- second --- third", "see http://www.example.com/very/long/path/without/any/space/at/all/that/is/longer/than/one/line/of/text/allows?x=1#frag for more", "\n\n  - item one\n  - item two;\n\n\ttabbed\there\n",
        "non\u00a0breaking \u2003 wide spaces \u2028 and \u00e9\u4e2d\u6587 letters", "ends with a backslash \\", "\"quoted\" {braces} #[derive(Debug)] // !", "one. two. three; four: five, six", "TODO: <b>bold</b> [link](x)",
        "\n".join("Line %d of a long text, with a few words." % i for i in range(40)), " ".join("word%d" % i for i in range(300)), "a\nbb\nccc\n\ndddd", "1. One\n2. Two\n#3 three"]


class Gen:
    def __init__(self, rng, xp="xs", tp="tt", tns="urn:t", elemdef=True):
        self.r, self.xp, self.tp, self.tns = rng, xp, tp, tns
        self.used = {"", "Vec", "Option", "String"}
        self.depth = 0
        self.types = []        # local names of complex types
        self.simple = []
        self.groups = []
        self.out = []
        self.big = rng.random() < .12

    def cnt(self, lo, hi):
        """how many parts: in a few schemas sometimes many more"""
        return self.r.randrange(hi, hi + 20) if self.big and self.r.random() < .3 else self.r.randrange(lo, hi)

    def x(self, t):
        return (self.xp + ":" if self.xp else "") + t

    def q(self, n):
        return (self.tp + ":" if self.tp else "") + n

    def name(self, used, f=py_ident):
        while True:
            n = "".join(self.r.choice(WORDS) for _ in range(self.r.choice((1, 1, 2)))) + self.r.choice(("", "", "", str(self.r.randrange(100))))
            k = f(n)
            if n in TABLE and used is self.used:
                continue
            if k and k not in used and py_field(n) not in (self.tp, "__base__", "any", "any_attribute") and ident_ok(k):
                used.add(k)
                return n

    def doc(self):
        if self.r.random() < .7:
            return ""
        t = self.r.choice(DOCS)
        return "<{0}><{1}>{2}</{1}></{0}>".format(self.x("annotation"), self.x("documentation"), t.replace("&", "&amp;").replace("<", "&lt;"))

    def tref(self):
        k = self.r.random()
        if k < .06:         # another namespace
            tp = self.tp or "tt"
            return self.r.choice([p for p in ("o", tp + "2", tp.upper(), "ext", (self.xp or "xs").upper()) if p not in (self.tp, self.xp)]) + ":" + self.r.choice(BUILT + WORDS)
        if k < .4 or not (self.types or self.simple):
            return self.x(self.r.choice(BUILT))
        return self.q(self.r.choice(self.types + self.simple))

    def occ(self):
        o = self.r.choice(["", "", 'minOccurs="0"', 'maxOccurs="unbounded"', 'minOccurs="0" maxOccurs="unbounded"', 'minOccurs="0" maxOccurs="1"', 'minOccurs="1" maxOccurs="1"', 'minOccurs="2" maxOccurs="5"',
                           'maxOccurs="3"', 'minOccurs="1"', 'maxOccurs="1"', 'minOccurs="0" maxOccurs="2"', 'minOccurs="1" maxOccurs="unbounded"', 'minOccurs="2" maxOccurs="unbounded"', 'minOccurs="+0"'])
        return " " + o if o else ""

    def element(self, used, inline=True):
        if inline and self.types and self.r.random() < .06:
            n = self.r.choice(self.types)
            if py_field(n) not in used:
                used.add(py_field(n))
                return '<{0} ref="{1}"{2}>{3}</{0}>'.format(self.x("element"), self.q(n), self.occ(), self.doc())
        n = self.name(used, py_field)
        if inline and self.depth < 2 and self.r.random() < .2:
            self.depth += 1
            body = self.complex(None) if self.r.random() < .7 else self.stype(None)
            self.depth -= 1
            return '<{0} name="{1}"{2}>{3}{4}</{0}>'.format(self.x("element"), n, self.occ(), self.doc(), body)
        return '<{0} name="{1}" type="{2}"{3}>{4}</{0}>'.format(self.x("element"), n, self.tref(), self.occ(), self.doc())

    def attribute(self, used):
        n = self.name(used, py_field)
        u = self.r.choice(["", ' use="optional"', ' use="required"', ' use="prohibited"', ' use="required"'])
        t = ' type="%s"' % (self.x(self.r.choice(BUILT)) if self.r.random() < .6 or not self.simple else self.q(self.r.choice(self.simple))) if self.r.random() < .9 else ""
        return '<{0} name="{1}"{2}{3}>{4}</{0}>'.format(self.x("attribute"), n, t, u, self.doc())

    def particles(self, used, lo=0):
        tag = self.x(self.r.choice(["sequence", "sequence", "sequence", "all"]))
        xs = [self.element(used) for _ in range(self.cnt(lo, 5))]
        if self.r.random() < .15:
            xs.insert(self.r.randrange(len(xs) + 1), "<%s/>" % self.x("any"))
        return "<{0}>{1}</{0}>".format(tag, "".join(xs))

    def tail(self, used):
        xs = [self.attribute(used) for _ in range(self.cnt(8, 9) if self.big and self.r.random() < .2 else self.r.choice((0, 0, 1, 2, 3)))]
        if self.groups and self.r.random() < .3:
            xs.append('<%s ref="%s"/>' % (self.x("attributeGroup"), self.q(self.r.choice(self.groups))))
        if self.r.random() < .15:
            xs.append("<%s/>" % self.x("anyAttribute"))
        return "".join(xs)

    def complex(self, name):
        used = set()
        k = self.r.random()
        a = ' name="%s"' % name if name else ""
        if k < .55:
            body = self.doc() + self.particles(used) + self.tail(used)
        elif k < .65:
            body = self.doc() + self.tail(used)
        elif k < .85 and self.types and name:
            b = self.r.choice(self.types)
            inner = (self.particles(used, 1) if self.r.random() < .7 else "") + self.tail(used)
            body = self.doc() + '<{0}><{1} base="{2}">{3}</{1}></{0}>'.format(self.x("complexContent"), self.x("extension"), self.q(b), inner)
        elif k < .93 and name:
            us = set()
            body = self.doc() + "<{0}>{1}</{0}>".format(self.x("choice"), "".join(self.case(us) for _ in range(self.cnt(1, 4)))) + self.tail(used)
        else:
            body = self.doc() + '<{0}><{1} base="{2}">{3}</{1}></{0}>'.format(self.x("simpleContent"), self.x("extension"), self.x(self.r.choice(BUILT)), self.tail(used))
        return "<{0}{1}>{2}</{0}>".format(self.x("complexType"), a, body)

    def case(self, used):
        n = self.name(used)
        return '<{0} name="{1}" type="{2}"{3}>{4}</{0}>'.format(self.x("element"), n, self.tref(), self.occ(), self.doc())

    def facet(self, k, v):
        return '<{0} value="{1}">{2}</{0}>'.format(self.x(k), v, self.doc())

    def enum(self):
        us, xs = set(), []
        for _ in range(self.cnt(1, 5)):
            v = self.r.choice(ENUMV)
            if py_ident(v) not in us:
                us.add(py_ident(v))
                xs.append(self.facet("enumeration", v))
        return '<{0} base="{1}">{2}</{0}>'.format(self.x("restriction"), self.x("string"), "".join(xs))

    def stype(self, name, deep=0):
        a = ' name="%s"' % name if name else ""
        k = self.r.random()
        if k < .3:
            fs = [self.facet(f, self.r.randrange(0, 70)) for f in FACETS[:7] if self.r.random() < .25]
            if self.r.random() < .2:
                fs[self.r.randrange(len(fs) + 1):0] = [self.facet("pattern", "[a-z]+")] * self.cnt(1, 3)
            if self.r.random() < .1:
                fs[0:0] = [self.facet("enumeration", "value %d" % i) for i in range(self.cnt(1, 5))]
            body = '<{0} base="{1}">{2}</{0}>'.format(self.x("restriction"), self.x(self.r.choice(["string", "int", "decimal", "token", "unsignedByte"])), "".join(fs))
        elif k < .6 and name:
            body = "<{0}><{1}>{2}</{1}></{0}>".format(self.x("list"), self.x("simpleType"), self.enum() if self.r.random() < .75 else '<%s memberTypes="%s %s"/>' % (self.x("union"), self.x("int"), self.x("boolean"))) if self.r.random() < .4 else '<%s itemType="%s"/>' % (self.x("list"), self.x(self.r.choice(BUILT[:6])))
        elif k < .8 and name and not deep:
            us, ms = set(), []
            for _ in range(self.cnt(1, 4)):
                m = self.tref()
                if py_ident(m.split(":")[-1]) not in us:
                    us.add(py_ident(m.split(":")[-1]))
                    ms.append(m)
            sub = ""
            if self.r.random() < .3 and "EnumCaseType0" not in self.used:
                sub = "".join("<{0}>{1}</{0}>".format(self.x("simpleType"), self.r.choice(('<%s itemType="%s"/>' % (self.x("list"), self.x("int")), '<%s base="%s"/>' % (self.x("restriction"), self.x("string"))))) for _ in range(self.cnt(1, 3)))
            if sub:
                self.used.add("EnumCaseType0")
            body = '<{0} memberTypes="{1}">{2}</{0}>'.format(self.x("union"), " ".join(ms), sub)
        elif deep == 0 and not name:
            body = self.enum()
        else:
            fs = "".join(self.facet("enumeration", v) for v in ("a b", "1/2", "Plain"))
            body = '<{0} base="{1}">{2}</{0}>'.format(self.x("restriction"), self.x("string"), fs)
        return "<{0}{1}>{2}{3}</{0}>".format(self.x("simpleType"), a, self.doc(), body)

    def schema(self, n=6):
        ag = []
        gu = set()
        for _ in range(self.r.randrange(0, 3)):
            g = self.name(self.used)
            self.groups.append(g)
            us = set()
            ag.append('<{0} name="{1}">{2}</{0}>'.format(self.x("attributeGroup"), g, "".join(self.attribute(us) for _ in range(self.r.randrange(1, 3)))))
        plan = []
        for _ in range(n):
            nm = self.name(self.used)
            k = self.r.random()
            kind = "c" if k < .55 else "s" if k < .85 else "e"
            if kind == "c":
                self.used.add(py_ident(nm + "Choice"))
            plan.append((kind, nm))
        fwd = self.r.random() < .5
        if fwd:
            self.types = [nm for k, nm in plan if k == "c"]
            self.simple = [nm for k, nm in plan if k == "s"]
        out = []
        order = list(plan)
        for kind, nm in order:
            if kind == "c":
                save = list(self.types)
                if fwd:
                    self.types = [t for t in self.types if t > nm]      # no cycles of extensions
                out.append(self.complex(nm))
                self.types = save if fwd else save + [nm]
            elif kind == "s":
                save = list(self.simple)
                if fwd:
                    self.simple = [t for t in self.simple if t != nm]
                out.append(self.stype(nm))
                self.simple = save if fwd else save + [nm]
            else:
                out.append('<{0} name="{1}" type="{2}">{3}</{0}>'.format(self.x("element"), nm, self.tref(), self.doc()) if self.r.random() < .5 else '<{0} name="{1}">{2}</{0}>'.format(self.x("element"), nm, self.complex(None)))
        if self.r.random() < .3:
            out.insert(0, '<{0} namespace="urn:other" schemaLocation="other.xsd"/>'.format(self.x("import")))
        self.r.shuffle(ag)
        out = ag + out if self.r.random() < .5 else out + ag
        ns = ' xmlns%s="%s"' % (":" + self.xp if self.xp else "", XS)
        if self.tns:
            ns += ' xmlns%s="%s" targetNamespace="%s"' % (":" + self.tp if self.tp else "", self.tns, self.tns)
        # other namespaces whose names look alike
        t = self.tns or "urn:none"
        near = [t + "/", t.upper() + "X", t[:-1], t + "#", " " + t, XS + "-instance", XS + "/", XS + "#", XS.replace("http:", "https:"), XS.replace("2001", "2000"), "http://schemas.xmlsoap.org/wsdl/"]
        for p in self.r.sample(["y0", "Xs", "x", "wsdl", "xsi", "T"], self.r.choice((0, 0, 0, 1, 2, 3))):
            d = ' xmlns:%s="%s"' % (p, self.r.choice(near))
            ns = d + ns if self.r.random() < .5 else ns + d
        return "<{0}{1}>{2}</{0}>".format(self.x("schema"), ns, "".join(out))


CFG = [("xs", "tt", "urn:t"), ("xsd", "tns", "http://example.com/a/b?c=1"), ("xs", None, "urn:def"), (None, "t", "urn:t"), ("xs", None, None), ("s", "xs2", "urn:a:b"), ("xs", "tt", "urn:t2"), ("xs", None, "urn:def2"), ("xs", "tt", "http://example.com/Tt/"), ("XS", "Tt", "urn:t")]


def schemas(n, seed=1):
    import random
    for i in range(n):
        r = random.Random("%d/%d" % (seed, i))
        xp, tp, tns = CFG[i % len(CFG)]
        if tns is None:
            tp = None
        yield Gen(r, xp, tp, tns).schema(r.randrange(2, 9))
