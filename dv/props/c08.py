from .common import *
from fractions import Fraction

LEVEL = "proof"
NOTE = "Decimal from_str/Display verified for every UTF-8 string and every decimal (digits of any length, exponent of any magnitude below 2^60); bigdecimal's parser for plain text and its (integer, exponent) view are assumed contracts."
Z = L.lit(b"0")
DEC = L.rx(r"[+\-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)")
PYDEC = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)", re.A)
NZD = L.rx("[1-9][0-9]*")


def val(s):
    return Fraction(s if s[-1] != "." else s + "0")


def judge(op, a, r):
    what = op.split("_")[1]
    a = [x.decode() if isinstance(x, bytes) else str(x) for x in a]
    if what == "parse":
        if not PYDEC.fullmatch(a[0]):
            return None if r[0] == "err" else "xs:decimal literal %r: expected rejection, real code gave %s" % (a[0], r)
        if r[0] != "ok" or Fraction(int(r[1])) / Fraction(10) ** int(r[2]) != val(a[0]):
            return "xs:decimal literal %r: expected that value, real code gave %s" % (a[0], r)
    elif what == "default":
        return None if r[0] == "ok" and r[1] == "0" else "default decimal is %s" % (r,)
    else:
        want = Fraction(int(a[0])) / Fraction(10) ** int(a[1])
        if r[0] != "ok":
            return "decimal %s*10^-%s: print-then-parse gave %s" % (a[0], a[1], r)
        t = bytes.fromhex(r[-1]).decode()
        if not PYDEC.fullmatch(t) or val(t) != want:
            return "decimal %s*10^-%s printed as %r" % (a[0], a[1], t[:80])
        if Fraction(int(r[1])) / Fraction(10) ** int(r[2]) != want or r[3] != "true":
            return "decimal %s*10^-%s printed as %r parses to %s" % (a[0], a[1], t[:80], r[1:3])


def inner(E, s, v):
    v = E.expand(s, v)
    while isinstance(v, (Adt, Tup)):
        v = E.expand(s, v.f[0])
    return v


def num_ne(s, v, sg, ds, k):
    """states where bigdec v differs from sg * ds * 10^-k (numerically)"""
    if v.d[0] == "?":
        raise Unsupported("decimal the library contract does not specify")
    if v.d[0] != sg:
        return [s]
    if sg == 0:
        return []
    x, y = s.rope(v.d[1]), s.rope(ds)
    dk = s.norm(sub(v.d[2], k))
    for p, q, d in ((x, y, dk), (y, x, scale(dk, -1))):
        # p = q ++ 0^d ?
        if p[:len(q)] == q:
            z = p[len(q):]
            if not s.rope_lang(z).subset(Z.star()):
                continue
            return ne_states(s, s.length(z), d)
        # constants may have merged with the zeros
        if len(q) and isinstance(q[-1], bytes) and p[:len(q) - 1] == q[:-1] and isinstance(p[len(q) - 1], bytes) and p[len(q) - 1].startswith(q[-1]):
            z = (p[len(q) - 1][len(q[-1]):],) + p[len(q):]
            if s.rope_lang(z).subset(Z.star()):
                return ne_states(s, s.length(z), d)
    if s.norm(dk) == 0:
        return str_states_ne(s, x, y)
    return [s]


def decode(st, r):
    """text in DEC -> [(state, sign, canonical digits, scale)]"""
    out = []
    for s, ng in st.split(r, L.lit(b"-") + L.ALL):
        for s1, dot in s.split(r, L.ALL + L.lit(b".") + L.ALL):
            for s2, ps in cutn(s1, r, [L.opt(L.byteset(b"+-")), D.star()] + ([L.lit(b"."), D.star()] if dot else [])):
                digits = ps[1] + (ps[3] if dot else ())
                k = s2.length(ps[3]) if dot else 0
                for s3, zero in s2.split(digits, Z.star()):
                    if zero:
                        out.append((s3, 0, (b"0",), 0))
                        continue
                    for s4, (_, d) in cutn(s3, digits, [Z.star(), NZD]):
                        out.append((s4, -1 if ng else 1, s4.rope(d), k))
    return out


def run(cx):
    cx.vary_on = True
    E = cx.E

    def mk():
        st = State()
        a = st.new_atom(UTF8, "s")
        return st, [SRef((a,))], {"s": (a,)}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        t = s.split(g["s"], DEC)
        if is_ok(E, s, v):
            yield "accepted-only-if-valid", [x for x, b in t if not b]
            yield "exact-value", [y for x, b in t if b for x2, sg, ds, sc in decode(x, g["s"]) for y in num_ne(x2, inner(E, x2, v.f[0]), sg, ds, sc)]
        else:
            yield "valid-always-accepted", [x for x, b in t if b]

    def show(s, m, v):
        x = inner(E, s, v)
        if x.d[0] == "?":
            return None
        n = int(ev(s, m, x.d[1])) * (1 if x.d[0] >= 0 else -1)
        return (str(n), str(ev(s, m, x.d[2])))

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        if not is_ok(E, s, v):
            return ("err",)
        x = show(s, m, v.f[0])
        return ("ok",) + x if x else None
    cx.verify("decimal::from_str", "r_decimal_parse", mk, post, lambda s, m, g: ("decimal_parse", [ev(s, m, g["s"])]), judge, pred,
              clauses=("no-panic", "accepted-only-if-valid", "exact-value", "valid-always-accepted"))

    for nm in ("zero", "zero-negative-scale", "integer", "fraction-inside", "fraction-only"):
        for sg in ((0,) if nm.startswith("zero") else (1, -1)):
            def mk2(nm=nm, sg=sg):
                st = State()
                z = st.atom_rope(Z.star(), "z")
                lz = st.length(z)
                if nm.startswith("zero"):
                    ds, k = (b"0",), (lz if nm == "zero" else scale(lz, -1))
                elif nm == "integer":
                    ds, k = st.atom_rope(NZD, "digits"), scale(lz, -1)
                elif nm == "fraction-inside":
                    i, f = st.atom_rope(NZD, "int"), st.atom_rope(D + D.star(), "frac")
                    ds, k = i + f, st.length(f)
                else:
                    ds = st.atom_rope(NZD, "digits")
                    k = add(st.length(ds), lz)
                return st, [], {"sg": sg, "d": ds, "k": k, "z": z}

            def rt(E, st, args, g):
                s0 = st.fork()
                r = E.ref(s0, Adt(None, 0, (Opq("bigdec", (g["sg"], g["d"], g["k"])),)))
                out = []
                for s, k, v in E.run(cx.prog.find("r_decimal_print"), [r], s0):
                    if k != "ret":
                        out.append((s, k, v))
                        continue
                    rope = E.expand(s, v).r
                    for s2, k2, v2 in E.run(cx.prog.find("r_decimal_parse"), [SRef(rope)], s):
                        out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
                return out

            def post2(s, k, v, g):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                res = E.expand(s, v.f[1])
                yield "printed-text-parses-back", num_ne(s, inner(E, s, res.f[0]), g["sg"], g["d"], g["k"]) if is_ok(E, s, res) else [s]
                t = s.split(v.f[0].r, DEC)
                bad = [x for x, b in t if not b]
                for x, b in t:
                    if b:
                        for x2, sg, ds, sc in decode(x, v.f[0].r):
                            bad += num_ne(x2, Opq("bigdec", (sg, ds, sc)), g["sg"], g["d"], g["k"])
                yield "plain-notation-same-number", bad

            def conc2(s, m, g):
                n = int(ev(s, m, g["d"])) * (-1 if g["sg"] < 0 else 1)
                return "decimal_roundtrip", [Raw(n), Raw(ev(s, m, g["k"]))]

            def pred2(s, k, v, g, m):
                if k != "ret":
                    return ("panic",)
                r = E.expand(s, v.f[1])
                if not is_ok(E, s, r):
                    return ("err",)
                x = show(s, m, r.f[0])
                return ("ok",) + x + ("true", ev(s, m, v.f[0].r).hex()) if x else None
            cx.verify("decimal print/parse[%s%s]" % (nm, {1: "+", -1: "-", 0: ""}[sg]), rt, mk2, post2, conc2, judge, pred2, clauses=("no-panic", "printed-text-parses-back", "plain-notation-same-number"))
    q = cx.tier == "quick"
    lits = [sg + i + f for sg in ("", "+", "-", "--", " ", "−") for i in ("", "0", "00", "1", "12", "007", "123456789012345678901234567890") for f in ("", ".", ".0", ".5", ".50", ".000", ".001", ".00000000000000000000000000001", ".e1", "..1", ".1.1")]
    lits += ["1e3", "1E3", "1e-3", "e", "E", ".", "-.", "+.", "1_000", "1._0", "NaN", "inf", "0x1", "٣", "1.٣", "1,5", "é", " 1", "1 ", "\t1.0", "1.0\n", "1+2", "1-", "1.-5", "1.+5", "- 1"]
    lits += edits1(["-10.50", "+0.01", "120"]) + mutations(cx.rng, ["-10.50", "+0.01", "120", ".5", "1."], ALPHA + ["e", "E"], 2500 if q else 80000)
    cs = [("decimal_parse", [t]) for t in lits] + [("decimal_default", [])]
    for n in (0, 1, -1, 5, 10, -10, 100, 12345, -12345, 999, 10**20, -10**20, 123456789012345678901234567890, 7**100, 7**800, -7**1500):
        for k in (0, 1, 2, 3, 4, 5, 6, 7, 20, 21, 29, 30, 31, 100, -1, -2, -5, -20, -100):
            cs.append(("decimal_roundtrip", [Raw(n), Raw(k)]))
    for k in (127, 128, 255, 256, 257, 1023, 1024, 32768, 40000):
        cs += [("decimal_roundtrip", [Raw(n), Raw(k_)]) for n in (0, 7, -12345) for k_ in (k, -k)]
        cs += [("decimal_parse", [sg + t]) for sg in ("", "-") for t in ("1" + "0" * k + "5", "0." + "0" * k + "5", "0" * k + "1.5", "1.5" + "0" * k)]
    for _ in range(300 if q else 20000):
        cs.append(("decimal_roundtrip", [Raw(cx.rng.choice((1, -1)) * cx.rng.randrange(10 ** cx.rng.randrange(1, 40))), Raw(cx.rng.randrange(-30, 60))]))
    cx.sweep("signs x integer parts x fraction parts, edge literals, every single-symbol edit of three literals, random edits; print-then-parse of edge and random (digits, exponent)", cs, judge)
