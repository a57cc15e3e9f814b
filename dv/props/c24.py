from .gspec import *
import random

LEVEL = "proof"
NOTE = "generate_rs_file for any number of declarations: each declaration's text, generated once with the namespaces of the file, in order, whatever namespaces the generator held before. Whole schemas (repeated generation, reused generators, other orders of declaration) are bounded."


OLDX = ns_value((b"\0old",), (b"\0old",))     # the XSD namespace of another file


def judge(op, a, r):
    ts = dec(a)
    if r[0] != "ok":
        return "generation fails for %s" % ts[0][:3000]
    out = [bytes.fromhex(x).decode() for x in r[1:]]
    if op == "gen3":
        return None if out[0] == out[1] else "a generator used before gives other text than a new one for a file without namespaces %r: %s for %s" % (ts[2], diff(out[1], out[0]), ts[1][:3000])
    if op == "again":
        if out[0] != out[1] or out[0] != out[2]:
            return "the same parsed schema gives different text the second time: %s for %s" % (diff(out[0], out[1] if out[0] != out[1] else out[2]), ts[0][:3000])
    return None


def diff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r / %r" % (x, y)
    return "lengths %d / %d" % (len(a), len(b))


def gen_ref(cx, t):
    r = cx.rp("gen", [t])
    return bytes.fromhex(r[1]).decode() if r[0] == "ok" else None


def other_ns(k):
    return {"-": [], "d": ['xmlns="urn:o" targetNamespace="urn:o"'], "p": ['xmlns:old="urn:o" targetNamespace="urn:o"']}[k]


def run(cx):
    cx.vary_on = True
    E = cx.E

    def judge2(op, a, r):
        """text of the second file by a used generator, against a fresh one"""
        t = dec(a)
        if r[0] != "ok":
            return "generation fails for %r" % (t,)
        for x, y in zip(t, r[1:]):
            w = gen_ref(cx, x)
            y = bytes.fromhex(y).decode()
            if w is not None and y != w:
                return "a generator used before gives other text than a new one: %s for %s" % (diff(w, y), x[:3000])
        return None

    def judge_parts(op, a, r):
        t = dec(a)[0]
        if r[0] != "ok":
            return "generation fails for %s" % t[:3000]
        ps = [bytes.fromhex(x).decode() for x in bytes.fromhex(r[1]).decode().split(" ") if x]
        w = gen_ref(cx, t)
        if w != "".join(ps):
            return "the file is not the texts of its declarations in order: %s for %s" % (diff(w or "", "".join(ps)), t[:3000])
        return None

    if cx.prog is not None:
        for old in "-dp":
            for tk in "-dp":
                for xk in "-x":
                  for ox in "-x":
                    def mk(ox=ox, xk=xk):
                        st = State()
                        st.ghost["gen"] = ()
                        tns, tp, tu = sym_ns(st, tk, "tns")
                        o, op_, ou = sym_ns(st, old, "old")

                        def ent(E_, s):
                            s = s.fork()
                            e = enumv(E, PT + "RsEntity", "Alias", adt(E, PT + "Alias", name=StringV(s.atom_rope(NAME, "sub"))))
                            s.ghost["ent"] = e
                            return [(s, E.ref(s, e))]
                        f = adt(E, PT + "RsFile<'_>", types=Opq("abslist", ent), attribute_groups=Opq("abslist", ent), target_ns=opt_ns(tns), xsd_ns=NONE if xk == "-" else some(NSX))
                        return st, [opt_ns(o), NONE if ox == "-" else some(OLDX), E.ref(st, f)], {"ns": (opt_ns(tns), NONE if xk == "-" else some(NSX)), "same": ((op_, tp), (ou, tu))}

                    def post(s, k, v, g):
                        yield "no-panic", [s] if k != "ret" else []
                        if k != "ret":
                            return
                        r = s.rope(E.expand(s, v).r)
                        for j, sep, outs in s.ghost.get("joined", ()):
                            if s.rope(j) == r and sep == ():
                                ts = [(t, x) for t, x in outs if x is not None]
                                own = bool(ts) and all(len(t.ghost.get("gens", ())) == 1 and t.ghost["gens"][0][0] == t.ghost["ent"] and t.rope(t.ghost["gens"][0][2]) == t.rope(x) for t, x in ts)
                                yield "each-declaration-once-in-order", [] if own else [s]
                                yield "namespaces-of-this-file", [] if own and all([(a.var, a.f) for a in t.ghost["gens"][0][1]] == [(b.var, b.f) for b in g["ns"]] for t, x in ts) else [s]
                                return
                        raise Unsupported("file text of an unknown form")

                    def conc(s, m, g):
                        body = '<xs:complexType name="Aa"><xs:sequence><xs:element name="b" type="tt:Bb"/></xs:sequence></xs:complexType><xs:simpleType name="Bb"><xs:restriction base="xs:int"/></xs:simpleType>'
                        a_ = schema_of(body, *{"-": ("xs", ""), "d": ("xs", ""), "p": ("xs", "tt")}[tk])
                        # the namespaces of the two files agree exactly where they do in the counterexample
                        sp, su = [x is not None and y is not None and ev(s, m, x) == ev(s, m, y) for x, y in g["same"]]
                        b_ = schema_of(body.replace("Aa", "Cc"), *{"-": ("xs", ""), "d": ("xs", ""), "p": ("xs" if sp else "", "tt" if sp else "zz")}[old], tns="urn:t" if su else "urn:other")
                        return "gen3", [b_, a_, ("t" if tk == "-" else "") + ("x" if xk == "-" else "")]
                    with using(E, CORE + ("generate",)), abstracting(E):
                        cx.verify("generate_rs_file[old:%s%s,tns:%s,xsd:%s]" % (old, ox, tk, xk), "r_gen_file", mk, post, conc, judge, pred=UNC, budget=30,
                                  clauses=("no-panic", "each-declaration-once-in-order", "namespaces-of-this-file"))
    n = 400 if cx.tier == "quick" else 4000
    ts = [x[1][0] for x in corpus(n, 24)]
    r = random.Random(24)
    cx.sweep("random schemas parsed once and generated three times", (("again", [t]) for t in ts), judge)
    cx.sweep("random pairs of schemas by the same generator, namespaces left out of the second, against a new generator", (("gen3", [t, r.choice(ts), x]) for t in ts for x in ("", "t", "x", "tx")), judge)
    cx.sweep("random schemas: the file is the texts of its declarations", (("parts", [t]) for t in ts), judge_parts)
    cx.sweep("random pairs of schemas by the same generator, in both orders, against a new generator", (("gen2", [t, r.choice(ts)]) for t in ts), judge2)

    def judge_fresh(op, a, r):
        """nothing of a file generated before in the same process is left in the text: against a process of its own"""
        t1, t = dec(a)
        if r[0] != "ok":
            return "generation fails for %s" % t[:3000]
        for x, y, z in ((t, r[2], t1), (t1, r[1], "others")):
            one = type(rp0)(rp0.path)
            w = one("gen", [x])
            one.p and (one.p.stdin.close(), one.p.wait())
            w = bytes.fromhex(w[1]).decode() if w[0] == "ok" else None
            y = bytes.fromhex(y).decode()
            if w is not None and w != y:
                return "after another file was generated, the text is another one: %s for %s after %s" % (diff(w, y), x[:1500], z[:1500])
        return None
    rp0 = cx.rp

    def moved(t):
        """the same schema with its target namespace elsewhere: no target, or the target prefix bound to another namespace"""
        m = re.match(r"(?s)<[^>]*>", t)
        h, b = m.group(0), t[m.end():]
        tn = re.search(' targetNamespace=("[^"]*")', h)
        if not tn:
            return []
        out = [h.replace(tn.group(0), "") + b]
        k = re.search(r" xmlns:([\w.-]+)=%s" % re.escape(tn.group(1)), h)
        if k:
            out.append(h.replace(k.group(0), ' xmlns:%s="urn:elsewhere" xmlns:mvd=%s' % (k.group(1), tn.group(1))) + b)
        return out
    cx.sweep("random schemas after the same schema with another target namespace, against a process of its own", (("gen2", [t1, t]) for t in ts[:n // 4] for t1 in moved(t)), judge_fresh)
    dup = ['<xs:import namespace="urn:o"/>', '<xs:element name="a" type="xs:int"/>', '<xs:include schemaLocation="a.xsd"/>', '<xs:attribute name="b" type="tt:B"/>']
    B = '<xs:simpleType name="B"><xs:restriction base="xs:int"/></xs:simpleType>'
    cx.sweep("declarations with the same text: each is generated", (("parts", [schema_of(x + y + x + z, "xs", "tt")]) for x in dup for y in ("", B, dup[0]) for z in ("", B, x)), judge_parts)

    def judge_perm(op, a, r):
        t = dec(a)[0]
        if r[0] != "ok":
            return None
        ps = [x for x in bytes.fromhex(r[1]).decode().split(" ") if x]
        m = re.match(r"(?s)(<[^>]*>)(.*)(</[^>]*>)\s*$", t)
        kids = [t[x:y] for x, y in tops(t)]
        q = list(range(len(kids)))
        random.Random(len(t)).shuffle(q)
        a0, b0 = tops(t)[0][0] if kids else 0, tops(t)[-1][1] if kids else 0
        t2 = t[:a0] + "".join(kids[i] for i in q) + t[b0:]
        r2 = cx.rp("parts", [t2])
        if r2[0] != "ok":
            return "declarations in another order fail: %s" % t2[:3000]
        ps2 = [x for x in bytes.fromhex(r2[1]).decode().split(" ") if x]
        if sorted(ps) != sorted(ps2):
            d = [x for x in ps2 if x not in ps][:1]
            return "another order of the declarations changes the text of one: %r for %s" % (bytes.fromhex(d[0]).decode()[:600] if d else None, t2[:3000])
        return None
    cx.sweep("random schemas with their declarations in another order: each declaration's text stays the same", (("parts", [t]) for t in ts), judge_perm)


def tops(t):
    """spans of the top-level declarations"""
    import xml.parsers.expat
    out, depth, start = [], [0], [0]
    b = t.encode()
    p = xml.parsers.expat.ParserCreate()

    def s(n, at):
        if depth[0] == 1:
            start[0] = p.CurrentByteIndex
        depth[0] += 1

    def e(n):
        depth[0] -= 1
        if depth[0] == 1:
            i = p.CurrentByteIndex
            # for an empty-element tag the position is that of the tag or just behind it
            out.append((start[0], b.index(b">", i) + 1 if b[i:i + 2] == b"</" else i if b[i - 2:i] == b"/>" else b.index(b"/>", i) + 2))
    p.StartElementHandler, p.EndElementHandler = s, e
    p.Parse(b, True)
    cs = [(len(b[:x].decode()), len(b[:y].decode())) for x, y in out]
    return cs
