from .gspec import *
from .pverify import FUNCS, verify_parser
from .hcontracts import verify_hierarchy
import random

LEVEL = "proof"
NOTE = "contracts of the functions that resolve bases and attribute groups; whole schemas against the reference translation (bounded)"


def proj(i, exp):
    if i["k"] != "struct":
        return None
    return ikey(i), [(f["n"], nsq(f["t"])) for f in fields_of(i)]


def nsq(t):
    return None if t is None else nows(t)


def judge(op, a, r):
    return compare(a, r, proj, "extension")


ATTRS = ['<xs:attribute name="%s" type="xs:%s"%s/>' % (n, t, u) for n, t, u in (("id", "int", ""), ("kind", "string", ' use="required"'), ("lang", "token", ""), ("note", "string", ' use="prohibited"'))]


class Hier:
    """random hierarchies: extension chains and trees declared in any order, attribute groups, nested anonymous types, name clashes"""

    def __init__(self, r):
        self.r = r
        n = r.randrange(2, 7)
        self.names = r.sample(["Alpha", "beta", "Gamma", "delta-x", "Eps", "zeta_y", "Eta9", "Theta", "type"], n)
        self.groups = r.sample(["GrpA", "grpB", "Attrs", "common-attrs", self.names[0]], r.randrange(0, 4))
        self.fn = ["f1", "f2", "f3", "name", "Value", "kind", "id", "g1", "g2", "Name", "F1", "f-1", "f_1", "KIND"]
        body = []
        for i, nm in enumerate(self.names):
            body.append(self.ctype(nm, self.names[:i]))
        for i, g in enumerate(self.groups):
            refs = "".join('<xs:attributeGroup ref="tt:%s"/>' % h for h in self.groups[i + 1:] if r.random() < .3)
            body.append('<xs:attributeGroup name="%s">%s%s</xs:attributeGroup>' % (g, "".join(self.attr(u) for u in self.pick(set(), 1, 3)), refs))
        r.shuffle(body)
        self.text = schema_of("".join(body), *r.choice([("xs", "tt"), ("xs", "tt"), ("", "tt"), ("xs", "")]))

    def pick(self, used, lo, hi):
        xs = [f for f in self.fn if f not in used]
        xs = self.r.sample(xs, min(len(xs), self.r.randrange(lo, hi + 1)))
        used |= set(xs)
        return xs

    def attr(self, n):
        return '<xs:attribute name="%s" type="xs:%s"%s/>' % (n, self.r.choice(["int", "string", "token"]), self.r.choice(["", ' use="required"', ' use="prohibited"', ' use="optional"']))

    def elems(self, used, deep=0):
        out = []
        for n in self.pick(used, 0, 3):
            if deep < 2 and self.r.random() < .25:
                inner = self.content(deep + 1)
                out.append('<xs:element name="%s"%s><xs:complexType>%s</xs:complexType></xs:element>' % (n, self.r.choice(["", ' minOccurs="0"', ' maxOccurs="unbounded"']), inner))
            else:
                out.append('<xs:element name="%s" type="%s"%s/>' % (n, self.r.choice(["xs:int", "xs:string", "tt:" + self.r.choice(self.names)]), self.r.choice(["", ' minOccurs="0"', ' maxOccurs="unbounded"'])))
        tag = self.r.choice(["sequence", "sequence", "all"])
        return "<xs:%s>%s</xs:%s>" % (tag, "".join(out), tag) if out or self.r.random() < .5 else ""

    def tail(self, used):
        out = [self.attr(n) for n in self.pick(used, 0, 2)]
        out += ['<xs:attributeGroup ref="tt:%s"/>' % g for g in self.groups if self.r.random() < .35]
        return "".join(out)

    def content(self, deep, bases=None):
        used = set()
        bases = self.bases if bases is None else bases
        if bases and self.r.random() < .5:
            self_used = set()
            k = self.r.random()
            inner = self.elems(self_used, deep) + self.tail(self_used)
            return '<xs:complexContent><xs:extension base="%s%s">%s</xs:extension></xs:complexContent>' % ("tt:", self.r.choice(bases), inner)
        return self.elems(used, deep) + self.tail(used)

    def ctype(self, nm, bases):
        self.bases = list(bases)
        if self.r.random() < .12:
            us = set()
            return '<xs:complexType name="%s"><xs:choice><xs:element name="%s" type="xs:int"/><xs:element name="%s" type="xs:string"/></xs:choice>%s</xs:complexType>' % (nm, "c1", "c2", self.tail(us))
        return '<xs:complexType name="%s">%s</xs:complexType>' % (nm, self.content(0))


def distinct(ref):
    """attributes of a group do not clash with each other or with the fields of the type that refers to it"""
    for e in ref.types.values():
        own = [f["n"] for f in e["f"]]
        for g in e["g"]:
            own += [f["n"] for f in ref.gfields(g)]
        if len(set(own)) != len(own):
            return False
    return True


def hierarchies(n, seed):
    k = i = 0
    while k < n and i < 20 * n:
        i += 1
        t = Hier(random.Random("%d/%d" % (seed, i))).text
        r = Ref(t)
        r.items()
        if distinct(r):
            k += 1
            yield "ast", [t]


def parts():
    return ['<xs:complexType name="TopT"><xs:sequence><xs:element name="a" type="xs:int"/></xs:sequence><xs:attributeGroup ref="tt:Gr"/></xs:complexType>',
             '<xs:complexType name="MidT"><xs:complexContent><xs:extension base="tt:TopT"><xs:sequence><xs:element name="b" type="xs:string" minOccurs="0"/></xs:sequence><xs:attribute name="m" type="xs:int"/></xs:extension></xs:complexContent></xs:complexType>',
             '<xs:complexType name="LowT"><xs:complexContent><xs:extension base="tt:MidT"><xs:attributeGroup ref="tt:Gr2"/></xs:extension></xs:complexContent></xs:complexType>',
             '<xs:complexType name="LeafT"><xs:complexContent><xs:extension base="LowT"><xs:sequence><xs:element name="a" type="xs:string"/><xs:element name="in"><xs:complexType><xs:complexContent><xs:extension base="tt:MidT"><xs:sequence><xs:element name="z" type="xs:int"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType></xs:element></xs:sequence></xs:extension></xs:complexContent></xs:complexType>',
             '<xs:attributeGroup name="Gr"><xs:attribute name="g1" type="xs:int"/></xs:attributeGroup><xs:attributeGroup name="Gr2"><xs:attribute name="g2" type="xs:int" use="required"/><xs:attribute name="g3"/></xs:attributeGroup>']


def run(cx):
    def cases():
        # every order of a four-level chain with attribute groups at two levels
        from itertools import permutations
        for p in permutations(parts()):
            for xp, tp in (("xs", "tt"), ("", "tt")):
                yield "ast", [schema_of("".join(p), xp, tp)]
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    verify_hierarchy(cx, lambda s, m, g: ("ast", [schema_of("".join(reversed(parts())))]), judge, UNC)
    cx.sweep("a four-level extension chain with attribute groups and a nested extension, in every declaration order", cases(), judge)
    cx.sweep("1500 random hierarchies: extension trees in any order, attribute groups, nested anonymous types, name clashes, choices", hierarchies(1500 * HARDER[0], 18), judge)
    cx.sweep("800 random schemas: fields of every structure", corpus(800, 180), judge)
