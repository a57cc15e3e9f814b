from .dtypes import *
from .c05 import canon_tz

LEVEL = "proof"
NOTE = "DateTime and DateTimeStamp from_str/Display verified for every UTF-8 string and every local date-time of the years 1-9999 with a whole-minute offset within 14:00; chrono's RFC 3339 parser and formatter are assumed contracts."
ZERO = L.lit(b"0000") + L.lit(b"-") + MD | L.lit(b"0000-02-29")
LT = HMS + OFR | L.rx("([01][0-9]|2[0-3]):[0-5][0-9]:60") + OFR | L.lit(b"24:00:00") + (L.EPS | L.lit(b".") + L.lit(b"0") + L.lit(b"0").star())
LZ = L.byteset(b"Zz") | (L.byteset(b"+-") | L.lit("\u2212".encode())) + L.rx("([01][0-9]|2[0-3]):[0-5][0-9]")


def langs(n):
    z = TZ if n == "datetimestamp" else OTZ
    okl = DATE + L.lit(b"T") + TIME + z
    loose = (DATE | ZERO) + L.byteset(b"Tt ") + LT + (LZ if n == "datetimestamp" else LZ | L.EPS)
    return okl, loose - okl, z


def spec_dt(st, n, r):
    out = []
    okl, loose, zl = langs(n)
    for s, o in st.split(r, okl):
        if not o:
            out += [(s2, "any" if l else "err", None) for s2, l in s.split(r, loose)]
            continue
        for s2, (d, _, hms, fr, z) in cutn(s, r, [DATE, L.lit(b"T"), HMS, OFR, zl]):
            for s3, n9 in n9_of(s2, fr):
                for s4, zz in opt_tz_cases(s3, z):
                    out.append((s4, "ok", (d, hms, n9, 0 if zz is None else zz)))
    return out


def inner(E, s, v):
    v = E.expand(s, v)
    while isinstance(v, (Adt, Tup)):
        v = E.expand(s, v.f[0])
    return v


def dt_ne(E, s, got, want):
    v = inner(E, s, got)
    bad = []
    for i in range(3):
        bad += str_ne(s, v.d[i], want[i])
    return bad + ne_states(s, v.d[3], want[3])


def show_dt(E, s, m, got):
    v = inner(E, s, got)
    if v.d[0] is None:
        return ()
    return tuple(ev(s, m, x).decode() for x in v.d[:3]) + (str(ev(s, m, v.d[3])),)


def judge(op, a, r):
    n, what = op.split("_")
    if what == "parse":
        return judge_parse(op, a, r)
    a = [x.decode() if isinstance(x, bytes) else str(x) for x in a]
    want = ("ok", "0001-01-01", "00:00:00", "0" * 9, "0") if what == "default" else ("ok",) + tuple(a) + ("true",)
    if r[:len(want)] != want:
        return "%s(%s): expected %s, real code gave %s" % (op, ", ".join(a), want, r)
    if what == "roundtrip":
        t = bytes.fromhex(r[-1]).decode()
        w = want_dt(t, True)
        if w is None or w[1:] != tuple(a):
            return "%s %s printed as %r, not its lexical form" % (n, a, t)


def run(cx):
    cx.vary_on = True
    E = cx.E
    for n in ("datetime", "datetimestamp"):
        def mk():
            st = State()
            a = st.new_atom(UTF8, "s")
            return st, [SRef((a,))], {"s": (a,)}

        def post(s, k, v, g, n=n):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            cases = spec_dt(s, n, g["s"])
            if is_ok(E, s, v):
                yield "accepted-only-if-valid", [x for x, c, w in cases if c == "err"]
                yield "decoded-value", [y for x, c, w in cases if c == "ok" for y in dt_ne(E, x, v.f[0], w)]
            else:
                yield "valid-always-accepted", [x for x, c, w in cases if c == "ok"]

        def conc(s, m, g, n=n):
            return n + "_parse", [ev(s, m, g["s"])]

        def pred(s, k, v, g, m, n=n):
            if k != "ret":
                return ("panic",)
            if not is_ok(E, s, v):
                w = want_dt(ev(s, m, g["s"]).decode(), n == "datetimestamp")
                return None if w is None else ("err",)
            x = show_dt(E, s, m, v.f[0])
            return ("ok",) + x if x else None
        cx.verify(n + "::from_str", "r_%s_parse" % n, mk, post, conc, judge, pred, budget=200,
                  clauses=("no-panic", "accepted-only-if-valid", "decoded-value", "valid-always-accepted"))

        def mk2():
            st = State()
            v = (st.atom_rope(DATE, "date"), st.atom_rope(HMS, "hms"), st.atom_rope(L.power(D, 9), "n9"), scale(st.new_int(-840, 840, "tzmin"), 60))
            return st, [], {"v": v}

        def rt(E, st, args, g, n=n):
            s0 = st.fork()
            x = Adt(None, 0, (Opq("dtz", g["v"]),))
            r = E.ref(s0, x if n == "datetime" else Adt(None, 0, (x,)))
            out = []
            for s, k, v in E.run(cx.prog.find("r_%s_print" % n), [r], s0):
                if k != "ret":
                    out.append((s, k, v))
                    continue
                rope = E.expand(s, v).r
                for s2, k2, v2 in E.run(cx.prog.find("r_%s_parse" % n), [SRef(rope)], s):
                    out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
            return out

        def post2(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k != "ret":
                return
            res = E.expand(s, v.f[1])
            yield "printed-text-parses-back", dt_ne(E, s, res.f[0], g["v"]) if is_ok(E, s, res) else [s]
            bad = []
            for x, c, w in spec_dt(s, "datetimestamp", v.f[0].r):
                if c != "ok":
                    bad.append(x)
                    continue
                for i in range(3):
                    bad += str_states_ne(x, w[i], g["v"][i])
                bad += ne_states(x, w[3], g["v"][3])
            yield "lexical-form", bad

        def conc2(s, m, g, n=n):
            return n + "_roundtrip", [Raw(ev(s, m, x).decode()) for x in g["v"][:3]] + [ev(s, m, g["v"][3])]

        def pred2(s, k, v, g, m):
            if k != "ret":
                return ("panic",)
            r = E.expand(s, v.f[1])
            return ("ok",) + show_dt(E, s, m, r.f[0]) + ("true", ev(s, m, v.f[0].r).hex()) if is_ok(E, s, r) else ("err",)
        cx.verify(n + " print/parse", rt, mk2, post2, conc2, judge, pred2, clauses=("no-panic", "printed-text-parses-back", "lexical-form"))

        def post3(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "default-value", dt_ne(E, s, v, ((b"0001-01-01",), (b"00:00:00",), (b"0" * 9,), 0))
        cx.verify(n + "::default", "r_%s_default" % n, lambda: (State(), [], {}), post3, lambda s, m, g, n=n: (n + "_default", []), judge, None, clauses=("no-panic", "default-value"))
    q = cx.tier == "quick"
    rng = cx.rng
    cs = [("datetime_default", []), ("datetimestamp_default", [])]
    ops = ("datetime_parse", "datetimestamp_parse")
    cs += [(o, [d + "T" + t + z]) for o in ops for d in DATES[:4] + BADD[:26] for t in TIMES[:4] for z in TZS[:12]]
    cs += [(o, [d + "T" + t + z]) for o in ops for d in DATES[:3] for t in TIMES + BADT for z in TZS]
    cs += [(o, [d + sep + t + z]) for o in ops for d in DATES[:2] for sep in ("t", " ", "", "TT", "_", "T ", "  ") for t in TIMES[:3] for z in TZS[:12]]
    cs += [(o, [t]) for o in ops for t in edits1(["2020-02-29T12:34:56", "2021-12-31T23:59:59.5-05:30", "0001-01-01T00:00:00Z"], dup=False)]
    cs += [(o, [t]) for o in ops for t in mutations(rng, [d + "T" + t + z for d in DATES for t in TIMES for z in TZS[:10]], ALPHA, 1500 if q else 60000)]
    for o in ("datetime_roundtrip", "datetimestamp_roundtrip"):
        for d in DATES:
            for t in ("00:00:00", "23:59:59", "12:05:09"):
                for n9 in ("000000000", "500000000", "000001000", "000000001", "999999999"):
                    cs.append((o, [Raw(d), Raw(t), Raw(n9), 60 * rng.choice((0, 1, -1, 59, -59, 60, -60, 330, -330, 839, -839, 840, -840))]))
    cx.sweep("edge dates x times x designators x separators, every single-symbol edit of three literals, random edits; print-then-parse over edge values", cs, judge)
