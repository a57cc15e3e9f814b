from .common import *

LEVEL = "proof"
NOTE = "Integer family from_str/Display/default verified for every UTF-8 string and every integer of any size; num-bigint parsing, comparison and printing are assumed contracts."
Z = L.lit(b"0")
DS = D + D.star()
NZ = Z.star() + L.rx("[1-9][0-9]*")
PL, MI = L.opt(L.lit(b"+")), L.lit(b"-")
LANG = {
    "integer": L.opt(L.byteset(b"+-")) + DS,
    "pos": PL + NZ,
    "neg": MI + NZ,
    "nonneg": PL + DS | MI + Z + Z.star(),
    "nonpos": MI + DS | PL + Z + Z.star(),
}
SGN = {"integer": (-1, 0, 1), "pos": (1,), "neg": (-1,), "nonneg": (0, 1), "nonpos": (-1, 0)}
DEF = {"integer": "0", "pos": "1", "neg": "-1", "nonneg": "0", "nonpos": "0"}
TN = {"integer": "integer", "pos": "positiveInteger", "neg": "negativeInteger", "nonneg": "nonNegativeInteger", "nonpos": "nonPositiveInteger"}


def want(n, s):
    if not re.fullmatch(r"[+-]?[0-9]+", s, re.A):
        return ("err",)
    v = int(s)
    return ("ok", str(v)) if (v > 0) - (v < 0) in SGN[n] else ("err",)


def judge(op, a, r):
    n, what = op.split("_")
    a = [x.decode() if isinstance(x, bytes) else str(x) for x in a]
    if what == "parse":
        w = want(n, a[0])
    elif what == "default":
        w = ("ok", DEF[n])
        if r[0] == "ok" and n in ("pos", "neg") and r[1].lstrip("-").isdigit() and want(n, r[1])[0] == "ok":
            return None     # any value of the type may be the default
    else:
        w = ("ok", a[0], "true", a[0].encode().hex())
    if r[:len(w)] != w:
        return "xs:%s %s(%r): expected %s, real code gave %s" % (TN[n], what, a[:1], w, r)


def big_ne(E, s, got, sg, ds):
    v = E.expand(s, got)
    while isinstance(v, (Adt, Tup)):
        v = E.expand(s, v.f[0])
    if v.d[0] == "?":
        raise Unsupported("big integer the library contract does not specify")
    if v.d[0] != sg:
        return [s]
    return str_states_ne(s, v.d[1], ds)


def show(E, s, m, v):
    v = E.expand(s, v)
    while isinstance(v, (Adt, Tup)):
        v = E.expand(s, v.f[0])
    if v.d[0] == "?":
        return None
    return ("-" if v.d[0] < 0 else "") + ev(s, m, v.d[1]).decode()


def decode(st, r):
    """[+-]?digits -> [(state, sign, canonical digits)]"""
    out = []
    for s, neg_ in st.split(r, MI + L.ALL):
        for s2, (_, z, d) in cutn(s, r, [L.opt(L.byteset(b"+-")), Z.star(), L.EPS | L.rx("[1-9][0-9]*")]):
            for s3, e in s2.split(d, L.EPS):
                out.append((s3, 0, (b"0",)) if e else (s3, -1 if neg_ else 1, s3.rope(d)))
    return out


def run(cx):
    cx.vary_on = True
    E = cx.E
    for n in LANG:
        def mk():
            st = State()
            a = st.new_atom(UTF8, "s")
            return st, [SRef((a,))], {"s": (a,)}

        def post(s, k, v, g, n=n):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            t = s.split(g["s"], LANG[n])
            if is_ok(E, s, v):
                yield "accepted-only-if-valid", [x for x, b in t if not b]
                yield "decoded-value", [y for x, b in t if b for x2, sg, ds in decode(x, g["s"]) for y in big_ne(E, x2, v.f[0], sg, ds)]
            else:
                yield "valid-always-accepted", [x for x, b in t if b]

        def conc(s, m, g, n=n):
            return n + "_parse", [ev(s, m, g["s"])]

        def pred(s, k, v, g, m):
            if k != "ret":
                return ("panic",)
            if not is_ok(E, s, v):
                return ("err",)
            x = show(E, s, m, v.f[0])
            return ("ok", x) if x is not None else None
        cx.verify(n + "::from_str", "r_%s_parse" % n, mk, post, conc, judge, pred, clauses=("no-panic", "accepted-only-if-valid", "decoded-value", "valid-always-accepted"))
        for sg in SGN[n]:
            def mk2(sg=sg):
                st = State()
                return st, [], {"v": (b"0",) if sg == 0 else st.atom_rope(L.rx("[1-9][0-9]*"), "digits"), "g": sg}

            def rt(E, st, args, g, n=n):
                s0 = st.fork()
                r = E.ref(s0, Adt(None, 0, (Opq("big", (g["g"], g["v"])),)))
                out = []
                for s, k, v in E.run(cx.prog.find("r_%s_print" % n), [r], s0):
                    if k != "ret":
                        out.append((s, k, v))
                        continue
                    rope = E.expand(s, v).r
                    for s2, k2, v2 in E.run(cx.prog.find("r_%s_parse" % n), [SRef(rope)], s):
                        out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
                return out

            def post2(s, k, v, g):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                res = E.expand(s, v.f[1])
                yield "printed-text-parses-back", big_ne(E, s, res.f[0], g["g"], g["v"]) if is_ok(E, s, res) else [s]
                yield "canonical-text", str_states_ne(s, v.f[0].r, ((b"-",) if g["g"] < 0 else ()) + tuple(g["v"]))

            def conc2(s, m, g, n=n):
                return n + "_roundtrip", [Raw(("-" if g["g"] < 0 else "") + ev(s, m, g["v"]).decode())]

            def pred2(s, k, v, g, m):
                if k != "ret":
                    return ("panic",)
                r = E.expand(s, v.f[1])
                return ("ok", show(E, s, m, r.f[0]), "true", ev(s, m, v.f[0].r).hex()) if is_ok(E, s, r) else ("err",)
            cx.verify("%s print/parse[%s]" % (n, {-1: "negative", 0: "zero", 1: "positive"}[sg]), rt, mk2, post2, conc2, judge, pred2, clauses=("no-panic", "printed-text-parses-back", "canonical-text"))

        def post3(s, k, v, g, n=n):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                x = E.expand(s, v)
                while isinstance(x, (Adt, Tup)):
                    x = E.expand(s, x.f[0])
                yield "default-in-value-space", [] if x.d[0] in SGN[n] else [s]
        cx.verify(n + "::default", "r_%s_default" % n, lambda: (State(), [], {}), post3, lambda s, m, g, n=n: (n + "_default", []), judge, None, clauses=("no-panic", "default-in-value-space"))
    q = cx.tier == "quick"
    lits = [sg + z + d for sg in ("", "+", "-", "--", "++", "+-", "-+", " ", "−") for z in ("", "0", "00", "0000000000000000000000")
            for d in ("", "0", "1", "9", "10", "255", "256", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9" * 40, "1" + "0" * 60, "123456789" * 30, "7" * 620, "7" * 1250, "9" * 2500, "1" + "0" * 5000)]
    lits += ["1_000", "_1", "1_", "0x10", "1e3", "1.0", "1.", ".1", "٣", "1٣", "１", "é", "1 ", " 1", "\t1", "1\n", "1,000", "-", "+", "NaN", "inf", "0b1", "-_1", "1__0"]
    lits += edits1(["+120", "-90", "0"]) + mutations(cx.rng, ["+120", "-90", "0", "18446744073709551616", "-0", "007"], ALPHA, 600 if q else 30000)
    cs = [(n + "_parse", [t]) for n in LANG for t in lits] + [(n + "_default", []) for n in LANG]
    for n in LANG:
        for v in (0, 1, 9, 10, 99, 100, 2**31, 2**32, 2**63, 2**64 - 1, 2**64, 2**128, 10**50, 10**50 - 1, 7**200, 2**1024, 2**4096 - 1, 7**1500, 2**16384):
            for x in {v, -v}:
                if (x > 0) - (x < 0) in SGN[n]:
                    cs.append((n + "_roundtrip", [Raw(x)]))
    cx.sweep("signs x leading zeros x magnitudes (up to 5001 digits), hand-written edge literals, every single-symbol edit of three literals, random edits; print-then-parse of edge values", cs, judge)
