"""Executable specification of the schema -> Rust mapping, used as oracle for concrete schemas (bounded checks and replays).

translate(xsd text) gives the expected items; items(ast json) brings the real output into the same form.  An item is
{"mod": (module path), "k": struct|tuple|enum, "n": name, ...}."""
import xml.parsers.expat
from .gcommon import *

XS = "http://www.w3.org/2001/XMLSchema"


class N:
    def __init__(self, tag, attrs, parent, ns):
        self.tag, self.a, self.parent, self.ns, self.c, self.text = tag, attrs, parent, ns, [], None

    def kids(self, *tags):
        return [x for x in self.c if x.tag in tags]


def parse(text):
    """tree of elements with the namespace declarations in scope"""
    root = []
    cur = [None]

    def start(name, at):
        ns = dict(cur[0].ns) if cur[0] is not None else {}
        for i in range(0, len(at), 2):
            if at[i] == "xmlns":
                ns[None] = at[i + 1]
            elif at[i].startswith("xmlns:"):
                ns[at[i][6:]] = at[i + 1]
        n = N(name.split(":")[-1], {at[i]: at[i + 1] for i in range(0, len(at), 2)}, cur[0], ns)
        if cur[0] is None:
            root.append(n)
        else:
            cur[0].c.append(n)
        cur[0] = n
        n.seen = False

    def end(name):
        cur[0] = cur[0].parent

    def data(t):
        n = cur[0]
        if n is not None and not n.c:
            n.text = (n.text or "") + t
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, data
    p.Parse(text.encode() if isinstance(text, str) else text, True)
    return root[0]


FACETS = ["length", "minLength", "maxLength", "minInclusive", "minExclusive", "maxInclusive", "maxExclusive", "enumeration", "pattern", "totalDigits",
          "fractionDigits", "whiteSpace"]
CONTENT = ("all", "choice", "complexContent", "sequence", "simpleContent")


class Ref:
    def __init__(self, text):
        self.root = parse(text)
        r = self.root
        tn = r.a.get("targetNamespace")
        self.tp = self.tu = None
        for p, u in r.ns.items():
            if tn is not None and u == tn:
                self.tp, self.tu = p, u
                break
        xs = [p for p, u in r.ns.items() if u == XS]
        self.xp = next((p for p in xs if p is not None), xs[0] if xs else None)
        self.types = {}
        self.entities = [self.node(c) for c in r.c if c.tag not in ("annotation", "attributeGroup")]
        self.groups = [self.agroup(c) for c in r.kids("attributeGroup")]
        for e in self.entities:
            self.collect(e)
        self.agroups = {g["n"]: g for g in self.groups}

    # entities: dicts with k = struct (fields, groups, sub), tuple, enum, alias, import
    def doc(self, n):
        for a in n.kids("annotation")[:1]:
            for d in a.kids("documentation")[:1]:
                return d.text
        return None

    def pname(self, n):
        p = n.parent
        if p.tag == "schema":
            return "SchemaElement"
        return p.a["name"] if "name" in p.a else self.pname(p)

    def agroup(self, n):
        return {"k": "struct", "n": n.a["name"], "f": self.attrs(n), "g": [c.a["ref"] for c in n.kids("attributeGroup")], "sub": [], "doc": None}

    def attrs(self, n):
        out = []
        for c in n.kids("attribute", "anyAttribute"):
            if c.tag == "anyAttribute":
                continue
            use = c.a.get("use", "optional")
            if use == "prohibited":
                out.append({"n": c.a.get("name", c.a.get("ref")), "t": "", "m": "E", "src": "A", "sub": None, "doc": None})
                continue
            nm = c.a.get("name", c.a.get("ref"))
            out.append({"n": nm, "t": c.a.get("type", c.a.get("ref", "String")), "m": "O" if use == "optional" else "N", "src": "A", "sub": None, "doc": self.doc(c)})
        return out

    def occ(self, c):
        def num(v):
            m = re.fullmatch(r"\+?[0-9]+", v or "", re.A)
            return int(v) if m and int(v) < 1 << 64 else None
        lo = num(c.a.get("minOccurs"))
        lo = 1 if lo is None else lo
        hi = c.a.get("maxOccurs")
        hi = 2 if hi == "unbounded" else num(hi)
        hi = 1 if hi is None else hi
        return "A" if lo > 1 or hi > 1 else "O" if lo == 0 else "N"

    def particle_fields(self, n):
        pn = self.pname(n)
        out = []
        for c in n.c:
            if c.tag == "annotation" or c.tag == "any":
                continue
            if c.tag == "choice":
                e = self.node(c)
                e["n"] = pn + "Choice"
                out.append({"n": e["n"], "t": e["n"], "m": "", "src": "E", "sub": e, "doc": None})
                continue
            nm = c.a.get("name", c.a.get("ref"))
            f = {"n": nm, "t": c.a.get("type", c.a.get("ref")), "m": self.occ(c), "src": "E", "sub": None, "doc": self.doc(c)}
            if f["t"] is None:
                f["sub"] = self.node(c.kids("simpleType", "complexType")[-1])
                f["sub"]["n"] = f["t"] = nm + "Type"
            if f["t"].split(":")[-1] == pn:
                f["m"] += "R"
            out.append(f)
        return out

    def node(self, n):
        t = n.tag
        if t in ("import", "include"):
            return {"k": "import", "n": n.a.get("namespace", ""), "loc": n.a.get("schemaLocation", "")}
        if t == "element" or t == "attribute":
            nm = n.a.get("name", n.a.get("ref"))
            if "ref" in n.a and t == "attribute":
                return {"k": "alias", "n": nm, "t": nm, "doc": self.doc(n)}
            if "type" in n.a:
                return {"k": "alias", "n": nm, "t": n.a["type"], "doc": self.doc(n)}
            ks = n.kids("simpleType") if t == "attribute" else n.kids("simpleType", "complexType")
            if ks:
                e = self.node(ks[-1])
                e["n"] = nm
                return e
            return {"k": "struct", "n": nm, "f": [], "g": [], "sub": [], "doc": self.doc(n) if t == "element" else None}
        if t == "simpleType":
            e = self.node([c for c in n.c if c.tag != "annotation"][-1])
            if "name" in n.a:
                e["n"] = n.a["name"]
            e["doc"] = self.doc(n)
            return e
        if t == "restriction" and n.parent.tag == "simpleType":
            fs = [(c.tag, c.a.get("value"), self.doc(c)) for c in n.kids(*FACETS)]
            ev = [(v, d) for k, v, d in fs if k == "enumeration"]
            if ev and all(v and any(c.isascii() and c.isalnum() for c in v) and all(isin("is_alphanumeric", c) or c == "-" for c in v) for v, _ in ev):
                return {"k": "enum", "n": self.pname(n) + "Enum", "src": "R", "t": n.a["base"], "v": [{"n": v, "t": None, "m": "", "doc": d} for v, d in ev], "sub": [], "doc": None}
            return {"k": "tuple", "n": "", "t": n.a["base"], "m": "", "facets": [(k, v) for k, v, _ in fs], "sub": [], "doc": None}
        if t == "list":
            if "itemType" in n.a:
                return {"k": "tuple", "n": "", "t": n.a["itemType"], "m": "A", "facets": [], "sub": [], "doc": None}
            e = self.node(n.kids("simpleType")[0])
            if e["k"] == "enum":
                e["n"] = e["n"] or self.pname(n) + "Union"
                return {"k": "tuple", "n": "", "t": e["n"], "m": "A", "facets": [], "sub": [e], "doc": None}
            e["m"] += "A"
            return e
        if t == "union":
            vs = [{"n": m, "t": m, "m": "", "doc": None} for m in n.a.get("memberTypes", "").split(" ") if m]
            sub = []
            for i, c in enumerate(n.kids("simpleType")):
                e = self.node(c)
                e["n"] = "EnumCaseType_%d" % i
                sub.append(e)
                vs.append({"n": "EnumCase_%d" % i, "t": e["n"], "m": "", "doc": None})
            return {"k": "enum", "n": "", "src": "U", "t": "String", "v": vs, "sub": sub, "doc": None}
        if t == "choice":
            vs = []
            for c in n.kids("element"):
                r = c.a.get("ref")
                vs.append({"n": r or c.a["name"], "t": r or c.a.get("type"), "m": self.occ(c), "doc": self.doc(c)})
            return {"k": "enum", "n": "", "src": "C", "t": "String", "v": vs, "sub": [], "doc": None}
        if t in ("sequence", "all"):
            return {"k": "struct", "n": self.pname(n), "f": self.particle_fields(n), "g": [], "sub": [], "doc": self.doc(n.parent)}
        if t in ("complexContent", "simpleContent"):
            return self.node([c for c in n.c if c.tag != "annotation"][-1])
        if t in ("extension", "restriction"):
            f = []
            cont = n.kids("all", "sequence")
            if cont and n.parent.tag == "complexContent":
                f = self.particle_fields(cont[-1])
            return {"k": "struct", "n": "", "f": f + self.attrs(n) + [{"n": "__base__", "t": n.a["base"], "m": "", "src": "B", "sub": None, "doc": self.doc(n)}],
                    "g": [c.a["ref"] for c in n.kids("attributeGroup")], "sub": [], "doc": self.doc(n)}
        if t == "complexType":
            nm = n.a.get("name") if n.parent.tag == "schema" else self.pname(n)
            gs = [c.a["ref"] for c in n.kids("attributeGroup")]
            ct = n.kids(*CONTENT)
            if not ct or not ct[-1].c:
                return {"k": "struct", "n": nm, "f": self.attrs(n), "g": gs, "sub": [], "doc": self.doc(n)}
            e = self.node(ct[-1])
            if e["k"] == "struct":
                e["f"] += self.attrs(n)
                e["g"] += gs
                e["n"] = nm
            else:
                e["n"] = nm + "Choice"
                e["sub"] = [{"k": "struct", "n": nm, "f": self.attrs(n) + [{"n": e["n"], "t": e["n"], "m": "", "src": "C", "sub": None, "doc": None}], "g": gs, "sub": [], "doc": self.doc(n)}]
            return e
        raise ValueError("no translation for " + t)

    def collect(self, e):
        if e["k"] == "struct":
            self.types[e["n"]] = e
        if e["k"] in ("struct", "enum"):
            for s in e["sub"]:
                self.collect(s)

    def gfields(self, g, seen=()):
        """attributes of a group, then those of the groups it refers to"""
        x = self.agroups.get(g.split(":")[-1])
        if x is None or x["n"] in seen:
            return []
        out = list(x["f"])
        for h in x["g"]:
            out += self.gfields(h, seen + (x["n"],))
        return out

    def fields(self, e, seen=()):
        """own fields, attribute groups, then those of the bases, own ones first"""
        own = [f for f in e["f"] if f["n"] != "__base__"]
        for g in e["g"]:
            own = own + self.gfields(g)
        names = {f["n"] for f in own}
        out = list(own)
        for f in e["f"]:
            if f["n"] == "__base__":
                b = self.types.get(f["t"].split(":")[-1])
                if b is not None and b is not e and b["n"] not in seen:
                    for x in self.fields(b, seen + (e["n"],)):
                        if x["n"] not in names:
                            out.append(x)
        return out

    # ------------------------------------------------------------ expected items
    def ty(self, n):
        return py_type(n, self.tp, self.xp)

    def wire(self, f):
        p, l = f["n"].split(":", 1) if ":" in f["n"] else (None, f["n"])
        if f["src"] == "C":
            return {"flatten": True}
        d = {"rename": l}
        if f["src"] == "A":
            d["attribute"] = True
        elif p is None:
            p = self.tp
        if p is not None:
            d["prefix"] = p
        return d if f["src"] in "AE" else {}

    def nswire(self):
        if self.tu is None:
            return {}
        return {"namespace": self.tu} if self.tp is None else {"prefix": self.tp, "namespace": "%s: %s" % (self.tp, self.tu)}

    def emit(self, e, mod, out):
        k = e["k"]
        if k == "struct":
            m = py_field(e["n"])
            it = {"mod": mod, "k": "struct", "n": self.ty(e["n"]), "ya": self.nswire(), "f": [], "doc": e["doc"]}
            out.append(it)
            inner = []
            for f in self.fields(e):
                if "E" in f["m"]:
                    continue
                t = self.ty(m + "::" + f["t"] if f["sub"] else f["t"])
                it["f"].append({"n": py_field(f["n"]), "t": py_modify(t, f["m"]).replace(" ", ""), "m": f["m"], "ya": self.wire(f), "doc": f["doc"], "raw": f})
                if f["sub"]:
                    self.emit(f["sub"], mod + (m,), inner)
            for s in e["sub"]:
                self.emit(s, mod + (m,), out)
            out += inner
        elif k == "tuple":
            out.append({"mod": mod, "k": "tuple", "n": self.ty(e["n"]), "t": py_modify(self.ty(e["t"]), e["m"]), "facets": e["facets"], "doc": e["doc"], "ft": py_modify(self.ty(e["t"]), e["m"])})
            for s in e["sub"]:
                self.emit(s, mod, out)
        elif k == "enum":
            it = {"mod": mod, "k": "enum", "n": self.ty(e["n"]), "src": e["src"], "t": self.ty(e["t"]), "ya": {} if e["src"] == "U" else self.nswire(), "v": [], "doc": e["doc"]}
            out.append(it)
            for v in e["v"]:
                i = py_type(v["n"], self.tp, "\0").split("::")[-1]
                p, l = v["n"].split(":", 1) if ":" in v["n"] else (None, v["n"])
                w = {} if e["src"] == "U" else {"rename": l, "prefix": p} if p is not None else {"rename": l}
                it["v"].append({"n": i, "t": None if v["t"] is None else py_modify(self.ty(v["t"]), v["m"]), "m": v["m"], "ya": wire_of(w, i), "doc": v["doc"], "raw": v})
            for s in e["sub"]:
                self.emit(s, mod, out)

    def items(self):
        out = []
        for e in self.entities:
            self.emit(e, (), out)
        return out


def wire_of(ya, n):
    """serde attributes without a rename to the name itself"""
    return {k: v for k, v in ya.items() if not (k == "rename" and v == n)}


def nsq(t):
    return None if t is None else re.sub(r"\s+", "", t)


def real_items(j, mod=()):
    out = []
    for i in j:
        if i["k"] == "mod":
            out += real_items(i["i"], mod + (i["n"],))
            continue
        if i["k"] not in ("struct", "tuple", "enum"):
            continue
        it = {"mod": mod, "k": i["k"], "n": i["n"], "ya": dict(i["ya"]), "der": i["der"], "vis": i["vis"]}
        if i["k"] == "struct":
            it["f"] = [{"n": f["n"], "t": nsq(f["t"]), "ya": dict(f["ya"]), "vis": f["vis"]} for f in i["f"]]
        elif i["k"] == "tuple":
            it["t"] = nsq(i["f"][0]["t"]) if len(i["f"]) == 1 else None
        else:
            it["v"] = [{"n": v["n"], "t": nsq(v["f"][0]["t"]) if v["f"] else None, "ya": wire_of(dict(v["ya"]), v["n"])} for v in i["v"]]
        out.append(it)
    return out


def ident_ok(n):
    return bool(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", n)) and n != "_" and n not in KEYWORDS


def load(r):
    return json.loads(out_text(r)) if r[0] == "ok" else None
