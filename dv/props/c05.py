from .dtypes import *

LEVEL = "proof"
NOTE = "Date and Time from_str/Display verified for every UTF-8 string and every date of the years 1-9999 / time of day; chrono's strftime parser and formatter are assumed contracts."


def canon_tz(z):
    return "" if z is None else "%s%02d:%02d" % ("-" if z < 0 else "+", abs(z) // 3600, abs(z) // 60 % 60)


def judge(op, a, r):
    n, what = op.split("_")
    if what == "parse":
        return judge_parse(op, a, r)
    a = [x.decode() if isinstance(x, bytes) else str(x) for x in a]
    if what == "default":
        want = ("ok", "0001-01-01", "-") if n == "date" else ("ok", "00:00:00", "0" * 9, "-")
    else:
        want = ("ok",) + tuple(a) + ("true",)
    if r[:len(want)] != want:
        return "%s(%s): expected %s, real code gave %s" % (op, ", ".join(a), want, r)
    if what == "roundtrip":
        t = bytes.fromhex(r[-1]).decode()
        z = None if a[-1] == "-" else int(a[-1])
        w = want_date(t) if n == "date" else want_time(t)
        if w is None or w[1:] != tuple(a) or not t.endswith(canon_tz(z)):
            return "%s %s printed as %r, not its lexical form" % (n, a, t)


def parse_contract(cx, n):
    E = cx.E

    def mk():
        st = State()
        a = st.new_atom(UTF8, "s")
        return st, [SRef((a,))], {"s": (a,)}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        cases = spec(s, n, g["s"])
        if is_ok(E, s, v):
            yield "accepted-only-if-valid", [x for x, c, w in cases if c == "err"]
            bad = []
            for x, c, w in cases:
                if c == "ok":
                    bad += value_ne(E, x, v.f[0], w[0], w[1])
            yield "decoded-value", bad
        else:
            yield "valid-always-accepted", [x for x, c, w in cases if c == "ok"]

    def conc(s, m, g):
        return n + "_parse", [ev(s, m, g["s"])]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        if not is_ok(E, s, v):
            # lenient forms: the library contract allows either outcome
            w = (want_date if n == "date" else want_time)(ev(s, m, g["s"]).decode())
            return None if w is None else ("err",)
        x = show(E, s, m, v.f[0])
        return ("ok",) + x if x else None

    cx.verify(n + "::from_str", "r_%s_parse" % n, mk, post, conc, judge, pred, budget=200,
              clauses=("no-panic", "accepted-only-if-valid", "decoded-value", "valid-always-accepted"))


def sym_value(st, n):
    if n == "date":
        return (st.atom_rope(DATE, "date"),)
    return (st.atom_rope(HMS, "hms"), st.atom_rope(L.power(D, 9), "n9"))


def print_contract(cx, n, has):
    E = cx.E

    def mk():
        st = State()
        v = sym_value(st, n)
        off = scale(st.new_int(-840, 840, "tzmin"), 60) if has else None
        return st, [], {"v": v, "z": off}

    def rt(E, st, args, g):
        s0 = st.fork()
        z = Adt(None, 1, (Adt(None, 0, (g["z"],)),)) if has else NONE
        r = E.ref(s0, Adt(None, 0, (Opq("n" + n, g["v"]), z)))
        out = []
        for s, k, v in E.run(cx.prog.find("r_%s_print" % n), [r], s0):
            if k != "ret":
                out.append((s, k, v))
                continue
            rope = E.expand(s, v).r
            for s2, k2, v2 in E.run(cx.prog.find("r_%s_parse" % n), [SRef(rope)], s):
                out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
        return out

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        res = E.expand(s, v.f[1])
        yield "printed-text-parses-back", value_ne(E, s, res.f[0], g["v"], g["z"]) if is_ok(E, s, res) else [s]
        bad = []
        for x, c, w in spec(s, n, v.f[0].r):
            if c != "ok":
                bad.append(x)
                continue
            for i, p in enumerate(g["v"]):
                bad += str_states_ne(x, w[0][i], p)
            if (w[1] is None) != (g["z"] is None):
                bad.append(x)
            elif w[1] is not None:
                bad += ne_states(x, w[1], g["z"])
        yield "lexical-form", bad

    def conc(s, m, g):
        return n + "_roundtrip", [Raw(ev(s, m, x).decode()) for x in g["v"]] + [NOTZ if g["z"] is None else ev(s, m, g["z"])]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        r = E.expand(s, v.f[1])
        return ("ok",) + show(E, s, m, r.f[0]) + ("true", ev(s, m, v.f[0].r).hex()) if is_ok(E, s, r) else ("err",)

    cx.verify("%s print/parse[%s]" % (n, "tz" if has else "no-tz"), rt, mk, post, conc, judge, pred, clauses=("no-panic", "printed-text-parses-back", "lexical-form"))


def run(cx):
    cx.vary_on = True
    E = cx.E
    for n in ("date", "time"):
        parse_contract(cx, n)
        for has in (False, True):
            print_contract(cx, n, has)

        def post3(s, k, v, g, n=n):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "default-value", value_ne(E, s, v, ((b"0001-01-01",),) if n == "date" else ((b"00:00:00",), (b"0" * 9,)), None)
        cx.verify(n + "::default", "r_%s_default" % n, lambda: (State(), [], {}), post3, lambda s, m, g, n=n: (n + "_default", []), judge, None, clauses=("no-panic", "default-value"))
    q = cx.tier == "quick"
    rng = cx.rng
    cs = [("date_default", []), ("time_default", [])]
    cs += [("date_parse", [b + t]) for b in DATES + BADD for t in TZS] + [("time_parse", [b + t]) for b in TIMES + BADT for t in TZS]
    cs += [("date_parse", ["%04d-%02d-%02d" % (y, m, d)]) for y in (2020, 2019, 1900) for m in range(0, 14) for d in range(0, 33)]
    cs += [("date_parse", ["%04d-02-29" % y + rng.choice(("", "Z", "-05:30", "+14:00"))]) for y in range(1, 10000, 7 if q else 1)]
    cs += [("time_parse", ["%02d:%02d:%02d" % (h, rng.randrange(62), rng.randrange(62)) + rng.choice(("", ".5", ".000000001", "." + "1234567890"[:rng.randrange(1, 11)])) + rng.choice(TZS[:12])]) for h in range(26) for _ in range(20 if q else 400)]
    cs += [("date_parse", [t]) for t in edits1(["2020-02-29", "2021-12-31-05:30", "2021-04-30Z", "2021-06-15+05:30"])]
    cs += [("time_parse", [t]) for t in edits1(["12:34:56", "23:59:59.5-05:30", "00:00:00Z", "10:20:30.25+05:30"])]
    cs += [("date_parse", [t]) for t in mutations(rng, [b + t for b in DATES for t in TZS[:10]], ALPHA, 2000 if q else 60000)]
    cs += [("time_parse", [t]) for t in mutations(rng, [b + t for b in TIMES for t in TZS[:10]], ALPHA, 2000 if q else 60000)]
    zs = [NOTZ] + [60 * m for m in (0, 1, -1, 59, -59, 60, -60, 330, -330, 345, -210, 839, -839, 840, -840)]
    for d in DATES + ["0999-01-09", "1000-10-10", "0010-12-12"]:
        cs += [("date_roundtrip", [Raw(d), z]) for z in zs]
    for t in ("00:00:00", "23:59:59", "12:05:09"):
        for n in ("000000000", "500000000", "120000000", "000001000", "000000001", "999999999", "000100000", "100000010", "000999000"):
            cs += [("time_roundtrip", [Raw(t), Raw(n), z]) for z in zs]
    cx.sweep("edge dates/times x edge designators, every single-symbol edit of eight literals, leap-day of many years, random edits; print-then-parse over edge values", cs, judge)
