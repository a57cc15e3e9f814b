from .gcommon import *

LEVEL = "proof"
NOTE = "format_type_name (match_built_in_type, default_format_type, split_name, filter_type_name, sanitize) verified for every UTF-8 local name, every prefix and every combination of target and XSD namespace; to_pascal_case is an uninterpreted assumed contract."


def judge(op, a, r):
    if op != "tyname":
        return gjudge(op, a, r)
    n, t, x = dec(a)
    want = py_type(n, ns_prefix(t), ns_prefix(x))
    if out_text(r) != want:
        return "type %r (target namespace %r, XSD namespace %r): expected %r, real code gave %r" % (n, t, x, want, out_text(r) if r[0] == "ok" else r)


def gjudge(op, a, r):
    """schema with one field of the given type reference"""
    x, = dec(a)
    if r[0] != "ok":
        return "no code for %s: %s" % (x, r)
    j = json.loads(out_text(r))
    m = re.search(r"<!--(.*?)-->", x)
    want = m.group(1)
    st = [i for i in j if i["k"] == "struct" and i["n"] == "Holder"]
    got = [f["t"] for i in st for f in i["f"]]
    if got != [want] * 2:
        return "%s: both fields should have type %r, real code gave %r" % (x, want, got)


def schema(xp, name, want):
    q = (xp + ":" if xp else "") + name
    d = "xmlns:%s" % xp if xp else "xmlns"
    e = xp + ":" if xp else ""
    return ('<{e}schema {d}="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:t" xmlns:tt="urn:t"><!--{w}--><{e}complexType name="Holder">'
            '<{e}sequence><{e}element name="aa" type="{q}"/></{e}sequence><{e}attribute name="bb" type="{q}" use="required"/></{e}complexType></{e}schema>').format(e=e, d=d, q=q, w=want)


def run(cx):
    cx.vary_on = True
    E = cx.E
    for npre in (False, True):
        for tk in "-dp":
            for xk in "-dp":
                if tk == "d" and xk == "d":
                    continue

                def mk(npre=npre, tk=tk, xk=xk):
                    st = State()
                    loc = st.atom_rope(UTF8 if npre else NOCOLON, "local")
                    pre = st.atom_rope(NCNAME, "prefix") if npre else None
                    tp = st.atom_rope(NCNAME, "tns") if tk == "p" else None
                    xp = st.atom_rope(NCNAME, "xsd") if xk == "p" else None
                    g = {"n": (pre + (b":",) + loc if npre else loc), "loc": loc, "pre": pre,
                         "t": None if tk == "-" else ns_value(tp, (b"urn:t",)), "x": None if xk == "-" else ns_value(xp, (b"urn:x",)), "tp": tp, "xp": xp}
                    return st, [SRef(g["n"]), opt_ns(g["t"]), opt_ns(g["x"])], g

                def post(s, k, v, g):
                    yield "no-panic", [s] if k != "ret" else []
                    if k != "ret":
                        return
                    got = E.expand(s, v).r
                    same = [(s, g["pre"] is None and g["xp"] is None)] if g["pre"] is None or g["xp"] is None else s.str_eq(g["pre"], g["xp"])
                    tab, oth = [], []
                    for s2, eq in same:
                        if not eq:
                            oth.append(s2)
                            continue
                        for s3, b in s2.split(g["loc"], TABLE_L):
                            (tab if b else oth).append(s3)
                    bad = []
                    for s2 in tab:
                        c = s2.const_str(g["loc"])
                        if c is None:
                            for k2 in TABLE:
                                for s3, b in s2.split(g["loc"], L.lit(k2.encode())):
                                    if b:
                                        bad += str_states_ne(s3, got, (TABLE[k2].encode(),))
                        else:
                            bad += str_states_ne(s2, got, (TABLE[c.decode()].encode(),))
                    yield "built-in-mapped", bad
                    bad = []
                    for s2 in oth:
                        for s3, k3, v3 in E.run(cx.prog.find("r_type_name"), [SRef(g["n"]), opt_ns(g["t"]), some(NSX)], s2):
                            bad += [s3] if k3 != "ret" else str_states_ne(s3, got, E.expand(s3, v3).r)
                    yield "others-not-built-in", bad

                def conc(s, m, g):
                    e = lambda x: None if x is None else ev(s, m, x).decode()
                    return "tyname", [ev(s, m, g["n"]), ns_arg(e(g["tp"]), "urn:t", g["t"] is None), ns_arg(e(g["xp"]), "urn:x", g["x"] is None)]
                cx.verify("format_type_name[%s,tns:%s,xsd:%s]" % ("p:l" if npre else "l", tk, xk), "r_type_name", mk, post, conc, judge, pred=lambda *a: None, budget=60,
                          clauses=("no-panic", "built-in-mapped", "others-not-built-in"))

    names = list(TABLE) + ["String", "strin", "strings", "Int", "INT", "dateTimes", "yearMonthDuration", "anyType", "unsignedint", "nonNegativeinteger", "fooBar", "Boolean", "", "float32", "gYearmonth"]

    def cases():
        for n in names:
            for p in (None, "xs", "xsd", "tt", "s", "xs2"):
                for t in ("-", "durn:t", "ptt urn:t", "pxs urn:t"):
                    for x in ("-", "durn:x", "pxs urn:x", "pxsd urn:x"):
                        yield "tyname", [(p + ":" if p else "") + n, t, x]
    cx.sweep("type names x prefixes x target/XSD namespaces", cases(), judge)

    def cases2():
        for n in TABLE:
            for p in (None, "xs", "xsd", "q"):
                yield "ast", [schema(p, n, TABLE[n])]
    cx.sweep("schemas whose element and attribute have each built-in type, for four XSD prefixes", cases2(), judge)
