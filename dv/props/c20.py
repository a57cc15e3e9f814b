from .wcontracts import *
from .xsdref import parse as xparse
from .c16 import words, comment_words, words_kept, STRICT, OPEN
from .pspec import esc, Opt, match, DEF
import random

LEVEL = "proof"
NOTE = "contracts of the WSDL tool functions, and whole WSDL documents against a reference reading (bounded)"
WS = "http://schemas.xmlsoap.org/wsdl/"


def functions(text):
    """the functions a WSDL document stands for: (name, parameters, result, documentation)"""
    d = xparse(text)
    tn = d.a.get("targetNamespace")
    tp = next((p for p, u in d.ns.items() if tn is not None and u == tn), None)
    ty = lambda q: py_type(q, tp, "\0")
    msgs = {m.a["name"]: m.kids("part") for m in d.kids("message")}
    out = []
    for pt in sorted(d.kids("portType"), key=lambda p: p.a["name"].encode()):
        for op in pt.kids("operation"):
            i, o = op.kids("input"), op.kids("output")
            of = lambda p: p.a.get("element", p.a.get("type"))
            ps = msgs.get(i[0].a["message"].split(":")[-1], [])
            args = [("request" if len(ps) == 1 else p.a["name"], ty(of(p))) for p in ps]
            os_ = msgs.get(o[0].a["message"].split(":")[-1], []) if o else []
            res = ty(of(os_[0])) if os_ and of(os_[0]) else "()"
            doc = next((c.text for c in op.kids("documentation") if c.text is not None), None)
            out.append((py_field(op.a["name"]), [("transport", "T")] + args, res, doc))
    return out


def judge(op, a, r):
    text = dec(a)[0]
    if r[0] != "ok":
        return "no functions (%s) for %s" % (r, text[:3000])
    want = functions(text)
    if op == "wsdlast":
        j = load(r)
        got = []
        for f in j:
            if f["k"] != "fn" or not f["async"] or f["vis"] != "pub":
                return "unexpected item %r for %s" % (f, text[:3000])
            m = re.fullmatch(r"->Result<(.*),transport::Error>", f["out"])
            args = [tuple(x.split(":", 1)) for x in f["in"]]
            got.append((f["n"], [(n, t[1:] if t[:1] == "&" else "not a reference: " + t) for n, t in args], m.group(1) if m else f["out"]))
            if nows(f["gen"]) != "<T:transport::Transport>" or nows(f["body"]) != "{transport::request(transport,request).await}":
                return "function %r for %s" % (f, text[:3000])
        w = [x[:3] for x in want]
        if got != w:
            for x, y in zip(w, got):
                if x != y:
                    return "function: expected %r, generated %r for %s" % (x, y, text[:3000])
            return "expected %d functions, generated %d for %s" % (len(w), len(got), text[:3000])
        return None
    t = out_text(r)
    parts = re.split(r"(?m)^pub async fn ", t)
    for k, w in enumerate(want):
        pre = parts[k] if k < len(parts) else ""
        pre = pre.split("\n}\n", 1)[1] if k else pre
        ws, rest = comment_words(pre.lstrip("\n"))
        if ws != words(w[3]) or rest.strip():
            return "documentation %r gives %r for %s" % (w[3], pre, text[:3000])
    return None


KEYWORDS = "abstract as async await become box break const continue crate do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return Self self static struct super trait true try type typeof unsafe unsized use virtual where while yield".split()


class Gen:
    def __init__(self, r):
        self.r = r
        tp = r.choice(["tns", "tds", None, "t2"])
        self.tp = tp
        self.types = ["GetFoo", "getBar", "set-item", "Delete_It", "IPAddressFilter", "type", "Void", "x9", "SetSystemDateAndTime", "Self", "GetFoo.v2", "Crate"]
        n = r.randrange(1, 7)
        self.msgs = r.sample(["InMsg", "OutMsg", "GetFooRequest", "GetFooResponse", "m1", "M-2", "empty", "z", "A"] if r.random() < .6 else ["In", "ns.In", "a.b.In", "In.v2", "In-v2", "In_v2", "v2", "in", "IN", "Inn"], n)
        out = []
        for m in self.msgs:
            k = r.choice([1, 1, 1, 1, 0, 2, 3])
            out.append('<wsdl:message name="%s">%s</wsdl:message>' % (m, "".join('<wsdl:part name="%s" %s="%s"/>' % (p, r.choice(["element", "element", "type"]), self.q()) for p in r.sample(["parameters", "body", "p1", "extra", "header", "Request"] + ["type"] * (k < 2), k))))
        pts = r.sample(["Device", "media", "PTZ", "Alpha", "alpha2", "B"], r.randrange(1, 4)) if r.random() < .6 else r.sample(["Dev", "Dev1", "Dev2", "Dev10", "Dev-1", "Dev.1", "Dev_1", "dev", "DEV", "Devb", "De", "DevPort", "DevPortType", "DevSoap"], r.randrange(2, 8))
        for p in pts:
            ops = r.sample(["GetFoo", "setBar", "Delete", "move", "Type", "get-status", "GetIPAddressFilter", "X1"], r.randrange(0, 4)) + (r.sample(KEYWORDS, 3) if r.random() < .3 else [])
            if r.random() < .01:
                ops += ["Op%d" % i for i in range(300)]
            out.append('<wsdl:portType name="%s">%s%s</wsdl:portType>' % (p, self.doc(), "".join(self.op(o) for o in ops)))
        r.shuffle(out)
        if r.random() < .5:
            out.append('<wsdl:binding name="Bd" type="%s"><wsdl:operation name="GetFoo"><wsdl:input/><wsdl:output/></wsdl:operation></wsdl:binding>' % self.qn(pts[0]))
        ns = 'xmlns%s="urn:t"' % (":" + tp if tp else "")
        tn = ' targetNamespace="urn:t"' if r.random() < .9 else ""
        # other namespaces whose URI or prefix resembles the target's
        near = ['xmlns:%s="%s"' % (p, u) for p, u in (("n1", "urn"), ("n2", "urn:"), ("n3", "urn:tt"), ("n4", "URN:T"), ((tp or "q").upper() + "x", "urn:t/"), ((tp or "q").upper(), "urn:up"), (tp + "s" if tp else "s", "urn:s")) if r.random() < .25]
        if r.random() < .5:
            near, ns = [], " ".join(near + [ns])
        self.text = '<wsdl:definitions xmlns:wsdl="%s" %s xmlns:o="urn:o"%s%s>%s</wsdl:definitions>' % (WS, ns, " ".join([""] + near), tn, "".join(out))

    def qn(self, n):
        return (self.tp + ":" if self.tp else "") + n

    def q(self):
        k = self.r.random()
        n = self.r.choice(self.types)
        if k > .95 and self.tp:
            return self.r.choice([self.tp.upper(), self.tp + "s", self.tp[:-1] or "q"]) + ":" + n
        return self.qn(n) if k < .7 else "o:" + n if k < .85 else n

    def doc(self):
        if self.r.random() < .5:
            return ""
        return "<wsdl:documentation>%s</wsdl:documentation>" % self.r.choice(["Returns it.", "", "two\nlines here", "*/ pub fn evil() {} /*", "a very long text which does not fit into a single line because it has more than eighty characters }", "// x", "  "])

    def op(self, n):
        r = self.r
        body = self.doc()
        m = lambda: self.qn(r.choice(self.msgs)) if r.random() < .93 else self.qn("missing")
        inp = m()
        part = lambda tag, rest: "<wsdl:%s %s/>" % (tag, rest) if r.random() < .8 else "<wsdl:%s %s>%s</wsdl:%s>" % (tag, rest, self.doc(), tag)
        body += part("input", 'message="%s"' % inp)
        if r.random() < .7:
            body += part("output", 'message="%s"' % m())
            for _ in range(r.choice((0, 0, 1, 2))):
                body += part("fault", 'name="f" message="%s"' % m())
        return '<wsdl:operation name="%s">%s</wsdl:operation>' % (n, body)


QN = NCNAME | (NCNAME + L.lit(b":") + NCNAME)
ATTRS.update({"message": QN, "element": QN, "type": QN, "name": NCNAME})


# ------------------------------------------------------------------ witnesses
def part(p):
    return '<wsdl:part%s/>' % "".join(' %s="%s"' % (k, esc(v)) for k, v in p.items())


def wdoc(msgs, op, tp="tns", uri="urn:t", tns=True, pre=""):
    """document with these messages {name: parts} and one port type holding `op`"""
    if tp is not None and (not re.fullmatch(r"[A-Za-z_]\w*", tp) or tp.lower().startswith("xml") or tp == "wsdl"):
        raise Unsupported("prefix %r" % tp)
    t = '<wsdl:definitions xmlns:wsdl="%s" xmlns%s="%s"%s%s>%s<wsdl:portType name="P">%s</wsdl:portType></wsdl:definitions>' % (
        WS, ":" + tp if tp else "", esc(uri), ' targetNamespace="%s"' % esc(uri) if tns else "", pre,
        "".join('<wsdl:message name="%s">%s</wsdl:message>' % (esc(m), "".join(map(part, ps))) for m, ps in msgs.items()), op)
    if re.search("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff]", t):
        raise Unsupported("no XML document")
    try:
        fs = functions(t)
    except Exception as e:
        raise Unsupported("no document: %s" % e)
    for n, args, res, doc in fs:
        if not all(re.fullmatch(r"(\w+::)?\w+|\(\)", x) and not (set(x.split("::")) & {"_"}) for x in [res] + [y for a in args for y in a]) or not re.fullmatch(r"\w+", n):
            raise Unsupported("name without identifier")
    return t


def oper(name, inp, out=None, doc=None, faults=""):
    return '<wsdl:operation name="%s">%s<wsdl:input message="%s"/>%s%s</wsdl:operation>' % (
        esc(name), "" if doc is None else "<wsdl:documentation>%s</wsdl:documentation>" % esc(doc), esc(inp), "" if out is None else '<wsdl:output message="%s"/>' % esc(out), faults)


def tx(s, m, r):
    t = ev(s, m, r)
    return t.decode("utf-8", "replace") if isinstance(t, bytes) else t


def sym_tns(st, k):
    tns, tp, tu = sym_ns(st, k, "tns")
    return tns, tp


def differ(s, x, y):
    return [t for t, b in s.str_eq(E_rope(x), E_rope(y)) if not b]


def E_rope(v):
    while isinstance(v, Adt):       # Cow
        v = v.f[0]
    return v.r


def fmt_groups(cx):
    """the formatting of names is the schema tool's, and comments keep to comment lines"""
    E = cx.E
    X_ = "xsd_parser::generator::default::"

    def both(wf, xf):
        def root(E, st, args, g):
            out = []
            for s, k, v in E.run(cx.prog.find(wf), args, st):
                if k != "ret":
                    out.append((s, k, v))
                    continue
                a2 = list(args)
                if len(args) > 1:       # the schema tool takes &Option<Namespace>
                    o = E.expand(s, args[1])
                    a2[1] = E.ref(s, NONE if o.var == 0 else some(E.deref(s, o.f[0])))
                for s2, k2, w in E.run(cx.prog.find(xf), a2, s):
                    out.append((s2, k2, (v, w)) if k2 == "ret" else (s2, "panic", w))
            return out
        return root

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield "same-identifier", differ(s, E.expand(s, v[0]), E.expand(s, v[1]))
    for tk in "-dp":
        def mk(tk=tk):
            st = State()
            tns, tp = sym_tns(st, tk)
            n = st.atom_rope(NCNAME, "type")
            if tk != "d":
                n = st.atom_rope(NCNAME, "prefix") + (b":",) + n
            g = {"n": n, "tp": tp}
            return st, [SRef(n), opt_ref(E, st, tns)], g

        def mk2(tk=tk):
            st = State()
            tns, tp = sym_tns(st, tk)
            g = {"n": st.atom_rope(NCNAME, "type"), "tp": tp}
            return st, [SRef(g["n"]), opt_ref(E, st, tns)], g

        def conc(s, m, g, tk=tk):
            return "wsdlast", [wdoc({"A": [{"name": "p", "element": tx(s, m, g["n"])}]}, oper("Op", "A", "A"), tp=tx(s, m, g["tp"]) if tk == "p" else "tns" if tk == "-" else None, tns=tk != "-")]
        for what, f in (("prefixed", mk), ("local", mk2)):
            if what == "prefixed" and tk == "d":
                continue
            cx.verify("default_format_type[%s,tns:%s]" % (what, tk), both(WG + "default_format_type", X_ + "default_format_type"), f, post, conc, judge, pred=UNC, clauses=("no-panic", "same-identifier"))
        for fix in (b"T", b"transport::Transport"):
            def mk3(tk=tk, fix=fix):
                st = State()
                tns, tp = sym_tns(st, tk)
                if tp is not None:
                    tp2 = st.atom_rope(NCNAME - L.lit(b"transport"), "tns")
                    tns, tp = ns_value(tp2, (b"urn:t",)), tp2
                return st, [SRef((fix,)), opt_ref(E, st, tns)], {"tp": tp}

            def post3(s, k, v, g, fix=fix):
                yield "fixed-text", [s] if k != "ret" else [t for t, b in s.str_eq(E_rope(E.expand(s, v)), (fix,)) if not b]
            cx.verify("default_format_type[%s,tns:%s]" % (fix.decode(), tk), WG + "default_format_type", mk3, post3,
                      lambda s, m, g, tk=tk: ("wsdlast", [wdoc({"A": []}, oper("Op", "A"), tp=tx(s, m, g["tp"]) if tk == "p" else "tns" if tk == "-" else None, tns=tk != "-")]), judge, pred=UNC, clauses=("fixed-text",))

    def mk4():
        st = State()
        n = st.atom_rope(NCNAME, "name")
        return st, [SRef(n)], {"n": n}
    cx.verify("default_format_name", both(WG + "default_format_name", X_ + "default_format_name"), mk4, post,
              lambda s, m, g: ("wsdlast", [wdoc({"A": []}, oper(tx(s, m, g["n"]), "A"))]), judge, pred=UNC, clauses=("no-panic", "same-identifier"))

    for has in (True, False):
        def mk5(has=has):
            st = State()
            d = st.atom_rope(UTF8, "doc") if has else None
            mx = st.new_int(0, 1 << 40, "max")
            return st, [some(SRef(d)) if has else NONE, mx, 0], {"d": d, "m": mx}

        def post5(s, k, v, g, has=has):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                r = E.expand(s, v).r
                yield "only-comment-lines", [t for t, b in s.split(r, STRICT) if not b] if has else [t for t, b in s.split(r, L.EPS) if not b]
                if has:
                    yield "words-kept", words_kept(s, r, g["d"])

        def conc5(s, m, g, has=has):
            return "wsdl", [wdoc({"A": []}, oper("Op", "A", doc=tx(s, m, g["d"]) if has else None))]
        with abstracting(E, (OPEN, STRICT)):
            cx.verify("default_format_comment[%s]" % ("doc" if has else "none"), WG + "default_format_comment", mk5, post5, conc5, judge, pred=UNC,
                      clauses=("no-panic", "only-comment-lines") + (("words-kept",) if has else ()))


def opt_ref(E, st, x):
    return NONE if x is None else some(E.ref(st, x))


# ------------------------------------------------------------------ one function
def fun_text_group(cx):
    """the text of a function, for every description of it"""
    E = cx.E
    T = lambda n, t: adt(E, FPAR, name=SRef(n), typename=SRef(t))

    def params(E_, s):
        s = s.fork()
        a, b = s.atom_rope(NCNAME, "pname"), s.atom_rope(QN, "ptype")
        s.ghost["elem"] = ("par", a, b)
        return [(s, T(a, b))]
    for tk in "-dp":
        for rk in ("type", "none"):
            def mk(tk=tk, rk=rk):
                st = wstate()
                tns, tp = sym_tns(st, tk)
                g = {"tp": tp, "n": st.atom_rope(NCNAME, "function"), "r": st.atom_rope(QN, "result") if rk == "type" else (), "d": st.atom_rope(UTF8, "doc")}
                f = adt(E, FUN, generic_params=VecV((T((b"T",), (b"transport::Transport",)),)), arguments=X.lcat((("one", T((b"transport",), (b"T",))), ("all", Opq("abslist", params)))),
                        return_type=SRef(g["r"]), documentation=some(SRef(g["d"])), name=SRef(g["n"]))
                return st, [E.ref(st, f), opt_ref(E, st, tns)], g

            def typed(s, r, tp):
                """the type's text, of a name whose parts are known by now"""
                r = s.rope(r)
                for j, p in enumerate(r):
                    if isinstance(p, bytes) and b":" in p:
                        k = p.index(b":")
                        pre, loc = s.rope(r[:j] + (p[:k],)), s.rope((p[k + 1:],) + r[j + 1:])
                        i = lookup(s, "ident", loc)
                        eq = [b for t, b in s.str_eq(pre, tp)] if tp is not None else [False]
                        if len(eq) != 1:
                            raise Unsupported("prefix not compared")
                        return None if i is None else i if eq[0] else s.rope(tuple(pre) + (b"::",) + tuple(i))
                if any(b for t, b in s.split(r, L.ALL + L.lit(b":") + L.ALL)):
                    raise Unsupported("type name not formatted")
                return lookup(s, "ident", r)

            def post(s, k, v, g, rk=rk):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                r = E.expand(s, v).r
                c, n = lookup(s, "comment", g["d"]), lookup(s, "fname", g["n"])
                t = typed(s, g["r"], g["tp"]) if rk == "type" else (b"()",)
                yield "documented", [] if c is not None and skel(s, c) and skel(s, c) in skel(s, r) or c is not None and s.rope(c) == () else [s]
                if None in (c, n, t):
                    yield "signature", [s]
                    yield "arguments", []
                    return
                recs = [x for x in s.ghost.get("joined", ()) if s.rope(x[0]) and s.rope(x[0])[0] in s.rope(r)]
                if len(recs) != 1:
                    raise Unsupported("arguments not one list")
                j, sep, outs = recs[0]
                bef = isinstance(sep, tuple) and len(sep) == 2 and sep[0] == "before"
                want = "%spub async fn %s<T: transport::Transport>(transport: &T%s) -> Result<%s, transport::Error> {transport::request(transport, request).await}" % (skel(s, c), skel(s, n), skel(s, j), skel(s, t))
                yield "signature", [] if nows(skel(s, r)) == nows(want) else [s]
                if not bef:
                    raise Unsupported("arguments separated in an unknown way")
                bad = [] if (s.const_str(sep[1]) or b"").strip() == b"," else [s]
                for t2, x in outs:
                    if x is None or not t2.feasible():
                        continue        # the end
                    e = t2.ghost.get("elem")
                    if e is None or e[0] != "par":
                        bad.append(t2)
                        continue
                    ty = typed(t2, e[2], g["tp"])
                    if ty is None or nows(skel(t2, x)) != nows("%s: &%s" % (skel(t2, e[1]), skel(t2, ty))):
                        bad.append(t2)
                yield "arguments", bad

            def conc(s, m, g, tk=tk, rk=rk):
                e = s.ghost.get("elem")
                ps = [{"name": tx(s, m, e[1]), "element": tx(s, m, e[2])}] if e and e[0] == "par" else [{"name": "p1", "element": "q"}]
                ps.append({"name": "p2", "element": "tns:Other"})
                t = wdoc({"A": ps, "B": [{"name": "p", "element": tx(s, m, g["r"])}] if rk == "type" else []}, oper(tx(s, m, g["n"]), "A", "B", doc=tx(s, m, g["d"])),
                         tp=tx(s, m, g["tp"]) if tk == "p" else "tns" if tk == "-" else None, tns=tk != "-")
                return "wsdlast", [t]
            with with_contracts(E, WFMT), abstracting(E, split=b" "):
                cx.verify("generate_function[tns:%s,result:%s]" % (tk, rk), WG + "generate_function", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "documented", "signature", "arguments"))


COLON = L.ALL + L.lit(b":") + L.ALL


def after_colon(s, r):
    """a reference without its prefix"""
    r = s.rope(r)
    for j in range(len(r) - 1, -1, -1):
        if isinstance(r[j], bytes):
            if b":" in r[j]:
                return s.rope((r[j][r[j].rindex(b":") + 1:],) + r[j + 1:])
            continue
        l = s.rope_lang((r[j],))
        if l.subset(L.ALL + L.lit(b":")):
            return s.rope(r[j + 1:])
        if not (l & COLON).empty():
            if j == 0 and s.rope_lang(r).subset(NCNAME):
                return r
            raise Unsupported("reference not taken apart")
    return r


def function_new(cx):
    """what a function is made of, for every operation and every set of messages"""
    E = cx.E

    def message(E_, st, key):
        out = []
        i = ("n", "msg%d" % len(st.ghost.get("mget", {})))
        for k in (0, 1, 2):
            s = st.fork()
            ps = []
            for j in range(k):
                c = ("c", i, j)
                known(s, c, "part")
                given(s, c, "name", NCNAME)
                ps.append(("one", adt(E, PART, node=node(c))))
            if k == 2:
                def more(E_, s2):
                    s2 = s2.fork()
                    c = ("c", i, s2.fresh("part"))
                    known(s2, c, "part")
                    given(s2, c, "name", NCNAME)
                    s2.ghost["elem"] = c
                    return [(s2, adt(E, PART, node=node(c)))]
                ps.append(("all", Opq("abslist", more)))
            s.ghost["mparts"] = dict(s.ghost.get("mparts", {}), **{})
            s.ghost["mparts"][i] = k
            s.ghost["mid"] = dict(s.ghost.get("mid", {}), **{})
            s.ghost["mid"][s.rope(key)] = i
            out.append((s, adt(E, MSG, node=node(i), parts=X.lcat(tuple(ps)))))
        return out

    def typ(s, c):
        """element or else type of a part; None when it has neither; raises when the code did not look"""
        e = at(s, c, "element")
        if e is False:
            # not needed for the result if the type was taken: then the element attribute was passed over
            return False
        return e if e is not None else at(s, c, "type")
    for way in ("one-way", "request-response"):
        def mk(way=way):
            st = wstate()
            st.ghost["docs"] = True
            n = ("n", "o")
            known(st, n, "operation")
            pi, po = ("c", n, "in"), ("c", n, "out")
            g = {"n": given(st, n, "name", NCNAME), "op": n}
            known(st, pi, "input")
            known(st, po, "output")
            g["i"] = given(st, pi, "message", QN)
            g["o"] = given(st, po, "message", QN) if way != "one-way" else None
            st.ghost["mval"] = {"messages": message}
            P1 = lambda i: adt(E, PARAM, node=node(i))
            ty = enumv(E, OTY, "OneWay", P1(pi)) if way == "one-way" else enumv(E, OTY, "RequestResponse", P1(pi), P1(po), VecV(()))
            return st, [E.ref(st, adt(E, OP, node=node(n), ty=ty)), E.ref(st, defs(E))], g

        def lacks(s):
            """a part without a type was read"""
            return any(r is None and s.ghost["xa"].get((c, "element"), 0) is None for (c, a), r in s.ghost.get("xa", {}).items() if a == "type")

        def found(s, ref):
            """the message a reference leads to: its id, None when there is none"""
            key = after_colon(s, ref)
            for (tag, k), x in s.ghost.get("mget", {}).items():
                if tag == "messages" and s.rope(k) == key:
                    if x is None:
                        return None
                    for k2, i in s.ghost["mid"].items():
                        if s.rope(k2) == key:
                            return i
            return False

        def par(s, c, v, name):
            f = {x["n"]: y for x, y in zip(E.T(v.ty)["v"][0]["f"], v.f)}
            t = typ(s, c)
            nm, ty = rope_of(E, s, f["name"]), rope_of(E, s, f["typename"])
            return t is not None and t is not False and s.rope(nm) == s.rope(name) and s.rope(ty) == s.rope(t)

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" and not lacks(s) else []
            if k != "ret":
                return
            v = E.expand(s, v)
            f = {x["n"]: y for x, y in zip(E.T(v.ty)["v"][0]["f"], v.f)}
            yield "name", [] if s.rope(rope_of(E, s, f["name"])) == s.rope(g["n"]) else [s]
            d = s.ghost.get("wdoc", {}).get(g["op"], False)
            o = E.expand(s, f["documentation"])
            yield "documentation", [s] if d is False else [] if (d is None) == (o.var == 0) and (d is None or s.rope(rope_of(E, s, o.f[0])) == s.rope(d)) else [s]
            gp = X.parts(E.expand(s, f["generic_params"]))
            one = lambda p: tuple(s.const_str(rope_of(E, s, y)) for y in E.expand(s, p).f)
            yield "generics", [] if len(gp) == 1 and set(one(gp[0][1])) == {b"T", b"transport::Transport"} else [s]
            ps = X.parts(E.expand(s, f["arguments"]))
            i = found(s, g["i"])
            bad = [s] if i is False or not ps or ps[0][0] != "one" or set(one(ps[0][1])) != {b"T", b"transport"} else []
            if not bad:
                n = 0 if i is None else s.ghost["mparts"][i]
                rest = ps[1:]
                if n == 0:
                    bad = [s] if rest else []
                elif n == 1:
                    bad = [] if len(rest) == 1 and rest[0][0] == "one" and par(s, ("c", i, 0), E.expand(s, rest[0][1]), (b"request",)) else [s]
                else:
                    okk = len(rest) == 3 and [k2 for k2, x in rest] == ["one", "one", "all"] and all(par(s, ("c", i, j), E.expand(s, rest[j][1]), at(s, ("c", i, j), "name")) for j in (0, 1))
                    bad = [] if okk else [s]
                    if okk:
                        recs, dr = elements(E, s, rest[2][1])
                        bad += dr
                        for t, x in recs:
                            if is_panic(x):
                                if not lacks(t):
                                    bad.append(t)
                                continue
                            c = t.ghost.get("elem")
                            if c is None or c[1] != i or not par(t, c, E.expand(t, x), at(t, c, "name")):
                                bad.append(t)
            yield "arguments", bad
            r = s.rope(rope_of(E, s, f["return_type"]))
            o = found(s, g["o"]) if g["o"] is not None else None
            if o is False:
                yield "result", [s]
            elif o is None or s.ghost["mparts"][o] == 0:
                yield "result", [] if r == () else [s]
            else:
                t = typ(s, ("c", o, 0))
                yield "result", [s] if t is False else [] if r == (s.rope(t) if t is not None else ()) else [s]

        def conc(s, m, g, way=way):
            msgs = {}

            def add(ref):
                key = tx(s, m, ref).split(":")[-1]
                i = found(s, ref)
                if i is False:
                    # the code looked elsewhere: a message of one part under the right name
                    msgs.setdefault(key, [{"name": "p", "element": "tns:Right%d" % len(msgs)}])
                if i is None or i is False:
                    return
                n = s.ghost["mparts"][i]
                cs = [("c", i, 0), ("c", i, 1)][:n] + [c for (c, a) in s.ghost["xa"] if n == 2 and c[0] == "c" and c[1] == i and isinstance(c[2], str)][:1]
                ps = []
                for j, c in enumerate(cs):
                    p = {"name": tx(s, m, at(s, c, "name"))}
                    for a in ("element", "type"):
                        r = at(s, c, a)
                        if r:
                            p[a] = tx(s, m, r)
                        elif r is False:
                            p[a] = "tns:Unread%d%s" % (j, a)
                    if "element" not in p and "type" not in p:
                        if i == found(s, g["i"]):
                            raise Unsupported("part without type")
                    ps.append(p)
                msgs.setdefault(key, ps)
            for (tag, k), x in s.ghost.get("mget", {}).items():
                if x is not None and tx(s, m, k):
                    msgs_key = tx(s, m, k)
                    if msgs_key not in [tx(s, m, g["i"]).split(":")[-1]] + ([tx(s, m, g["o"]).split(":")[-1]] if g["o"] is not None else []) and re.fullmatch(r"[\w.-]+", msgs_key):
                        msgs[msgs_key] = [{"name": "w", "element": "tns:Wrong"}]
            add(g["i"])
            if g["o"] is not None:
                add(g["o"])
            d = s.ghost.get("wdoc", {}).get(g["op"])
            return "wsdlast", [wdoc(msgs, oper(tx(s, m, g["n"]), tx(s, m, g["i"]), None if g["o"] is None else tx(s, m, g["o"]), doc=None if d is None else tx(s, m, d)))]
        with with_contracts(E, DOCCON), abstracting(E, split=b" "):
            cx.verify("Function::new[%s]" % way, WG + "function::Function::<'_>::new", mk, post, conc, judge, pred=UNC, budget=120, clauses=("no-panic", "name", "documentation", "generics", "arguments", "result"))


def elements(E, s, lst):
    if not (isinstance(lst, Opq) and lst.kind == "abslist"):
        raise Unsupported("list of unknown form")
    return A.dropping(E, lambda: lst.d(E, s.fork()))


# ------------------------------------------------------------------ reading the document
SIMPLE = {"A": [{"name": "p", "element": "tns:In"}], "B": [{"name": "p", "element": "tns:Out"}]}


def fieldv(E, s, v, n):
    v = E.expand(s, v)
    for f, x in zip(E.T(v.ty)["v"][v.var]["f"], v.f):
        if f["n"] == n:
            return E.expand(s, x)
    raise Unsupported("field " + n)


def attrs(s, m, i):
    """the attributes of a node the code looked at, as XML"""
    a = {n: tx(s, m, r) for (j, n), r in s.ghost.get("xa", {}).items() if j == i and r is not None}
    if any(":" in n and n.split(":")[0] not in ("wsdl", "xml") or not re.fullmatch(r"[\w:.-]+", n) for n in a):
        raise Unsupported("attribute of another namespace")
    return a


def child_of(s, i, ks):
    """the child of i of one of these kinds the failing path is about"""
    cs = [c for c, k in s.ghost.get("xk", {}).items() if c[0] == "c" and c[1] == i and k & set(ks)]
    return cs[-1] if cs else None


def same_node(E, s, v, i):
    return isinstance(v, Opq) and v.kind == "xn" and v.d == i


def kid_text(s, i, k):
    return {"documentation": "<wsdl:documentation>Text</wsdl:documentation>", "fault": '<wsdl:fault name="f" message="tns:A"/>', "#other": "<other/>", "#text": "x"}.get(k, "")


def reading(cx):
    E = cx.E
    # operations: the kinds WSDL allows, with anything between
    for way in ("one-way", "request-response", "with-faults"):
        def mk(way=way):
            st = wstate()
            n = ("n", "o")
            known(st, n, "operation")

            def kid(j, k):
                c = ("c", n, j)
                known(st, c, k)
                return ("one", node(c))

            def gap(names):
                def gen(E_, s):
                    s = s.fork()
                    c = ("c", n, s.fresh("gap"))
                    s = put(s, "xk", c, frozenset(names))
                    s.ghost["elem"] = c
                    return [(s, node(c))]
                return ("all", Opq("abslist", gen))
            ks = [gap(EXTRA), kid("in", "input"), gap({"#text"})]
            if way != "one-way":
                ks += [kid("out", "output"), gap({"#text"} | ({"fault"} if way == "with-faults" else set()))]
            st.ghost["xkids"] = {n: tuple(ks)}
            return st, [E.ref(st, node(n))], {"n": n}

        def post(s, k, v, g, way=way):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            yield "node", [] if same_node(E, s, fieldv(E, s, v, "node"), g["n"]) else [s]
            t = fieldv(E, s, v, "ty")
            if not isinstance(t, Adt):
                raise Unsupported("operation type of unknown form")
            nm = E.T(t.ty)["v"][t.var]["n"]
            want = {"input": ("c", g["n"], "in"), "output": ("c", g["n"], "out")}
            if way == "one-way":
                want.pop("output")
            yield "messages", [] if nm == ("OneWay" if way == "one-way" else "RequestResponse") and all(same_node(E, s, fieldv(E, s, fieldv(E, s, t, x), "node"), c) for x, c in want.items()) else [s]

        def conc(s, m, g, way=way):
            pre = ""
            for c, ks in s.ghost.get("xk", {}).items():
                if c[0] == "c" and c[1] == g["n"] and str(c[2]).startswith("gap"):
                    pre += kid_text(s, c, sorted(ks)[0])
            o = oper("Op", "tns:A", None if way == "one-way" else "tns:B", faults='<wsdl:fault name="f" message="tns:A"/>' if way == "with-faults" else "")
            return "wsdlast", [wdoc(SIMPLE, o.replace("<wsdl:input", (pre if "fault" not in pre else "") + "\n <wsdl:input").replace("<wsdl:output", "\n <wsdl:output"))]
        with with_contracts(E, {}), abstracting(E, split=b" "):
            cx.verify("Operation::new[%s]" % way, WP + "port_type::Operation::<'_>::new", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "node", "messages"))

    # documentation: the first one that holds text
    def mk():
        st = wstate()
        n = ("n", "o")
        known(st, n, "operation")
        return st, [E.ref(st, adt(E, OP, node=node(n), ty=enumv(E, OTY, "OneWay", adt(E, PARAM, node=node(("c", n, "in"))))))], {"n": n}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        ps = [p for p in s.ghost.get("picks", ()) if getattr(p[1], "children", None) == g["n"]]
        if len(ps) != 1 or ps[0][0] not in ("first", "next"):
            raise Unsupported("documentation found in an unknown way")
        h, src, recs, dr, x = ps[0]
        bad = []

        def own(t, ks):
            c = t.ghost.get("elem")
            return c is not None and c[0] == "c" and c[1] == g["n"] and kinds(t, c) & ks
        for t, y in recs:
            c = t.ghost.get("elem")
            if not (own(t, {"documentation"}) and kinds(t, c) == {"documentation"}):
                bad.append(t)
            elif t.ghost.get("xd", {}).get(c) is None or t.rope(rope_of(E, t, y)) != t.rope(t.ghost["xd"][c]):
                bad.append(t)
        for t in dr:
            if own(t, {"documentation"}) and (t.ghost["elem"] not in t.ghost.get("xd", {}) or t.ghost["xd"][t.ghost["elem"]] is not None):
                bad.append(t)
        yield "first-text", bad
        o = E.expand(s, v)
        yield "result", [] if (x is None) == (o.var == 0) and (x is None or s.rope(rope_of(E, s, o.f[0])) == s.rope(rope_of(E, s, x))) else [s]

    def conc(s, m, g):
        c = child_of(s, g["n"], {"documentation"})
        r = None if c is None else s.ghost.get("xd", {}).get(c)
        own = "" if r is None else tx(s, m, r)
        if own and not words(own):
            own = "About %s" % own      # a text that leaves a trace
        d = "".join("<wsdl:documentation%s>%s</wsdl:documentation>" % (a, t) for a, t in (("", ""), ("" if c is None else "".join(' %s="%s"' % (k, esc(v)) for k, v in attrs(s, m, c).items()), esc(own)), ("", "First words"), ("", "Second words")))
        return "wsdl", [wdoc(SIMPLE, oper("Op", "A").replace("<wsdl:input", d + "<other>other words</other><wsdl:input", 1))]
    with abstracting(E, split=b" "):
        cx.verify("Operation::documentation", WP + "port_type::Operation::<'_>::documentation", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "first-text", "result"))

    # port types and messages
    for key, kid, fld, root in (("porttype", "operation", "operations", "port_type::PortType::<'_>::new"), ("message", "part", "parts", "message::Message::<'_>::new")):
        def mk(key=key):
            st = wstate()
            n = ("n", "m")
            known(st, n, {"porttype": "portType"}.get(key, key))
            st.ghost["self"] = key
            return st, [E.ref(st, node(n))], {"n": n}

        def post(s, k, v, g, key=key, kid=kid, fld=fld):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            yield "node", [] if same_node(E, s, fieldv(E, s, v, "node"), g["n"]) else [s]

            def el(E_, t, c, x):
                x = E.expand(t, x)
                return x == Opq("wnew", ("operation", c)) if kid == "operation" else same_node(E, t, fieldv(E, t, x, "node"), c)
            yield "children", match(E, s, fieldv(E, s, v, fld), Li(children_map(g["n"], {kid}, el)))

        def conc(s, m, g, kid=kid):
            c = child_of(s, g["n"], {kid})
            a = {} if c is None else attrs(s, m, c)
            if kid == "part":
                a.setdefault("name", "px")
                if not a.get("element") and not a.get("type"):
                    a["element"] = "tns:Own"
                return "wsdlast", [wdoc({"A": [{"name": "p%d" % j, "element": "tns:T%d" % j} for j in range(3)] + [a, {"name": "last", "element": "tns:L"}], "B": [{"name": "z", "element": "tns:R"}]}, oper("Op", "A", "B"))]
            a.setdefault("name", "Own")
            own = oper("\0", "A", "B").replace(' name="\0"', "".join(' %s="%s"' % (k, esc(v)) for k, v in a.items()))
            return "wsdlast", [wdoc(SIMPLE, "<wsdl:documentation>Text</wsdl:documentation>" + oper("Zulu", "A") + "\n" + oper("Alpha", "A", "B") + "<other/>" + own + oper("Mike", "B"))]
        with with_contracts(E, dict([NEW["operation"]])), abstracting(E, split=b" "):
            cx.verify(root.replace("::<'_>", ""), WP + root, mk, post, conc, judge, pred=UNC, clauses=("no-panic", "node", "children"))

    # the document: every message and port type under its name
    def mk():
        st = wstate()
        n = ("n", "d")
        known(st, n, "definitions")
        st.ghost["fs"] = ()
        return st, [E.ref(st, node(n))], {"n": n}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" and not noname(s) else []
        if k != "ret":
            return
        yield "node", [] if same_node(E, s, fieldv(E, s, v, "node"), g["n"]) else [s]
        logs = s.ghost["fs"]
        if any(x[0] != "each" for x in logs):
            raise Unsupported("maps filled in an unknown way")
        for kind, key, fld in (("message", "message", "messages"), ("portType", "porttype", "port_types")):
            m = fieldv(E, s, v, fld)
            if not (isinstance(m, Opq) and m.kind == "omap"):
                raise Unsupported("map of unknown form")
            use = [x[1] for x in logs if any(y[0] == "insert" and y[1] == m.d for t, l in x[1] for y in l)]
            if len(use) > 1 or not use:
                yield fld, [s]
                continue
            bad = []
            for t, l in use[0]:
                c = t.ghost.get("elem")
                ins = [y for y in l if y[0] == "insert" and y[1] == m.d]
                if c is None or c[0] != "c" or c[1] != g["n"]:
                    bad.append(t)
                elif kind not in kinds(t, c):
                    bad += [t] if ins else []
                elif kinds(t, c) != {kind} or len(ins) != 1 or ins[0][3] != Opq("wnew", (key, c)) or not at(t, c, "name") or t.rope(ins[0][2]) != t.rope(at(t, c, "name")):
                    bad.append(t)
            yield fld, bad

    def noname(s):
        return any(r is None for (c, a), r in s.ghost.get("xa", {}).items() if a in ("name", "namespace"))

    def conc(s, m, g):
        ms, more = {"m%d" % j: [{"name": "p", "element": "tns:T%d" % j}] for j in range(3)}, ""
        c = child_of(s, g["n"], {"message", "portType"})
        n = None if c is None else attrs(s, m, c).get("name")
        if n and n not in ("late", "A", "B", "P"):
            if kinds(s, c) == {"message"}:
                ms[n], more = [{"name": "p", "element": "tns:Named"}], oper("Op4", n, "tns:" + n)
            else:
                ms["m7"], more = [{"name": "p", "element": "tns:Named"}], ""
        t = wdoc(ms, oper("Op1", "tns:m0", "tns:m1") + more)
        if "m7" in ms:
            t = t.replace("</wsdl:definitions>", '<wsdl:portType name="%s">%s</wsdl:portType></wsdl:definitions>' % (esc(n), oper("Op7", "m7")))
        return "wsdlast", [t.replace("</wsdl:definitions>", '<wsdl:portType name="B">%s</wsdl:portType><wsdl:binding name="m9" type="tns:P"/><wsdl:portType name="A">%s</wsdl:portType><wsdl:message name="late"><wsdl:part name="q" type="tns:Late"/></wsdl:message>'
                                     '<wsdl:service name="s"/></wsdl:definitions>' % (oper("Op2", "tns:m2", "tns:late"), oper("Op3", "tns:late", "tns:m0")))]
    with with_contracts(E, dict([NEW[k] for k in ("message", "porttype", "binding", "import", "types")], **NAMEOF)), abstracting(E, split=b" "):
        cx.verify("Definitions::new", WP + "definitions::Definitions::<'_>::new", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "node", "messages", "port_types"))

    # target namespace
    def mk():
        st = wstate()
        known(st, ("n", "d"), "definitions")
        return st, [E.ref(st, defs(E))], {"n": ("n", "d")}

    def post(s, k, v, g):
        from .pverify import s_ns
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            q = s_ns(E, s, v, g["n"], None)
            if q is DEF:
                yield "selects", []
                yield "result", match(E, s, v, DEF)
            else:
                yield from q

    def conc(s, m, g):
        t = {"A": [{"name": "p", "element": "tns:In"}], "B": [{"name": "p", "element": "oo:Out"}]}
        return "wsdlast", [wdoc(t, oper("Op", "A", "B"), pre=' xmlns:oo="urn:o" xmlns:pp="urn:tt"')]
    with abstracting(E, split=b" "):
        cx.verify("Definitions::target_namespace", WP + "definitions::Definitions::<'_>::target_namespace", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "selects", "result"))


def whole(cx):
    """generate: one function per operation of every port type, port types by name, operations in order"""
    E = cx.E

    def mk():
        st = wstate()

        def pts(E_, s):
            s = s.fork()
            i = ("n", s.fresh("porttype"))
            known(s, i, "portType")
            given(s, i, "name", NCNAME)
            s.ghost["elem"] = i
            return [(s, Opq("wnew", ("porttype", i)))]
        pts.all = "port_types"
        st.ghost["mall"] = {"port_types": pts}
        tns, tp = sym_tns(st, "p")
        st.ghost["wtns"] = some(E.ref(st, tns))
        d = defs(E)
        return st, [E.ref(st, d)], {"d": d, "t": st.ghost["wtns"]}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        r = s.rope(E.expand(s, v).r)
        recs = [x for x in s.ghost.get("joinedlist", ()) if s.rope(x[0]) == r]
        if len(recs) != 1:
            raise Unsupported("text not made of a list")
        r0, sep, lst = recs[0]
        yield "nothing-between", [] if s.rope(sep) == () else [s]
        outer = lst.d
        if not hasattr(outer, "iters"):
            raise Unsupported("list filled in an unknown way")
        by = outer.over
        while getattr(by, "sorted", None) is None and getattr(by, "of", None) is not None:
            by = by.of
        bad = [s] if getattr(by, "sorted", None) is None else []
        for t, x, key in getattr(by, "sorted", None) or ():
            y = x
            while not (isinstance(y, Opq) and y.kind == "wnew"):
                y = E.deref(t, y)
            if t.rope(rope_of(E, t, key)) != t.rope(at(t, y.d[1], "name")):
                bad.append(t)
        yield "by-name", bad
        bad = []
        for t, ps in outer.iters:
            if not t.feasible():
                continue
            i = t.ghost.get("elem")
            if len(ps) != 1 or ps[0][0] != "all" or not hasattr(ps[0][1].d, "iters"):
                if ps:
                    raise Unsupported("functions listed in an unknown way")
                bad.append(t)
                continue
            for t2, qs in ps[0][1].d.iters:
                if not t2.feasible():
                    continue
                c = t2.ghost.get("elem")
                gf = t2.ghost.get("gf", ())
                if len(qs) != 1 or qs[0][0] != "one" or not gf or c is None or c[1] != i or gf[-1][0] != (c, g["d"]) or gf[-1][1] != E.expand(t2, g["t"]) or t2.rope(rope_of(E, t2, qs[0][1])) != t2.rope(gf[-1][2]):
                    bad.append(t2)
        yield "one-per-operation", bad

    def conc(s, m, g):
        t = wdoc({"A": [{"name": "p", "element": "tns:In"}], "B": [{"name": "p", "element": "o:Out"}]}, oper("Op1", "tns:A", "tns:B") + oper("Op0", "tns:A"))
        more = "".join('<wsdl:portType name="%s">%s</wsdl:portType>' % (n, "".join(oper("%s%s" % (n, x), "tns:A", "tns:B") for x in "zay")) for n in ("Zed", "alpha", "Beta", "Empty"[:0] or "Q"))
        return "wsdlast", [t.replace("</wsdl:definitions>", more + '<wsdl:portType name="Aa"/></wsdl:definitions>')]
    with with_contracts(E, dict(NAMEOF, **GENCON)), abstracting(E, split=b" "):
        cx.verify("generate", WG + "generate", mk, post, conc, judge, pred=UNC, clauses=("no-panic", "nothing-between", "by-name", "one-per-operation"))


def run(cx):
    cx.vary_on = False
    fmt_groups(cx)
    fun_text_group(cx)
    function_new(cx)
    reading(cx)
    whole(cx)
    def cases(op):
        for i in range(900):
            yield op, [Gen(random.Random("20/%d" % i)).text]
    cx.sweep("900 random WSDL documents: functions, parameters and results", cases("wsdlast"), judge)
    cx.sweep("900 random WSDL documents: documentation of the functions", cases("wsdl"), judge)

    def multi():
        r = random.Random(20)
        for k in range(2, 5):
            for i in range(30):
                ps = "".join('<wsdl:part name="p%d" %s="tns:%s"/>' % (j, r.choice(["element", "type"]), r.choice(["Foo", "bar-x", "Type"])) for j in range(k))
                yield "wsdlast", ['<wsdl:definitions xmlns:wsdl="%s" xmlns:tns="urn:t" targetNamespace="urn:t"><wsdl:message name="A">%s</wsdl:message><wsdl:portType name="P"><wsdl:operation name="Op"><wsdl:input message="tns:A"/><wsdl:output message="tns:A"/></wsdl:operation></wsdl:portType></wsdl:definitions>' % (WS, ps)]
    cx.sweep("messages with several parts", multi(), judge)

    def large():
        head = '<wsdl:definitions xmlns:wsdl="%s" xmlns:tns="urn:t" targetNamespace="urn:t">' % WS
        for k in (8, 9, 10, 11, 12, 16, 17, 25, 33, 64, 65, 128, 256, 257, 300):
            # many parts
            ps = "".join('<wsdl:part name="p%d" element="tns:T%d"/>' % (j, j) for j in range(k))
            yield head + '<wsdl:message name="A">%s</wsdl:message><wsdl:portType name="P"><wsdl:operation name="Op"><wsdl:input message="tns:A"/><wsdl:output message="tns:A"/></wsdl:operation></wsdl:portType></wsdl:definitions>' % ps
            # many messages, operations, port types
            ms = "".join('<wsdl:message name="M%d"><wsdl:part name="p" element="tns:T%d"/></wsdl:message>' % (j, j) for j in range(k))
            ops = "".join('<wsdl:operation name="Op%d">%s<wsdl:input message="tns:M%d"/>%s</wsdl:operation>' % (j, "<wsdl:documentation>Number %d</wsdl:documentation>" % j if j % 3 else "", j, '<wsdl:output message="tns:M%d"/>' % (k - 1 - j) if j % 2 else "") for j in range(k))
            yield head + ms + '<wsdl:portType name="P">%s</wsdl:portType></wsdl:definitions>' % ops
            yield head + ms + "".join('<wsdl:portType name="P%d"><wsdl:operation name="Op%d"><wsdl:input message="tns:M%d"/></wsdl:operation></wsdl:portType>' % (j, j, j) for j in range(k)) + "</wsdl:definitions>"
            # long texts: names, documentation of many lines or words
            n = "n" * (k * 3)
            d = random.Random(k).choice(["word " * (k * 9), "line of text\n" * (k * 7), "x" * (k * 33)])
            yield head + '<wsdl:message name="%s"><wsdl:part name="p" element="tns:%s"/></wsdl:message><wsdl:portType name="P"><wsdl:operation name="%s"><wsdl:documentation>%s</wsdl:documentation><wsdl:input message="tns:%s"/><wsdl:output message="tns:%s"/></wsdl:operation></wsdl:portType></wsdl:definitions>' % (n, n, n, d, n, n)
        ops = "".join('<wsdl:operation name="Op%d"><wsdl:input message="tns:A"/></wsdl:operation>' % j for j in range(2100))
        yield head + '<wsdl:message name="A"><wsdl:part name="p" element="tns:T"/></wsdl:message><wsdl:portType name="P">%s</wsdl:portType></wsdl:definitions>' % ops
    cx.sweep("large documents: parts, messages, operations, port types, names", (("wsdlast", [t]) for t in large()), judge)
    cx.sweep("large documents: documentation", (("wsdl", [t]) for t in large()), judge)
