from .durtypes import *
from ..depmodels import NS, nanos_of

LEVEL = "proof"
NOTE = "Duration::to_std_duration verified for every combination of 64-bit components, sign and seconds class (zero, positive finite, negative/NaN/infinite)."
ASSUME = ["std::time::Duration::try_from_secs_f64 returns the nearest nanosecond count of its argument, an error when it is negative, NaN or does not fit; checked_add adds with carry and reports overflow"]


def want(a):
    neg = str(a[0]) not in ("0", "false")
    y, mo, d, h, mi = (int(str(x)) for x in a[1:6])
    if y or mo or neg:
        return ("err",)
    r = nanos_of(fl(str(a[6])))
    if r is None:
        return ("err",)
    s = d * 86400 + h * 3600 + mi * 60 + r[0]
    return ("ok", str(s), str(r[1])) if s < 1 << 64 else ("err",)


def judge(op, a, r):
    w = want(a)
    if tuple(r[:len(w)]) != w:
        return "to_std_duration of (neg,y,mo,d,h,mi,secs)=%s: expected %s, real code gave %s" % ([str(x) for x in a[:6]] + [fl(str(a[6]))], w, r)


def run(cx):
    cx.vary_on = True
    E = cx.E

    def mk():
        st = State()
        return st, [], {"c": [st.new_int(0, U64, n) for n in FIELDS[:5]], "t": st.atom_rope(SECTXT, "sec"), "neg": BV(st.fresh("neg"), False)}

    def body(E, st, args, g):
        out = []
        for kind in ("zero", "pos", "bad"):
            s0 = st.fork()
            s0.ghost = dict(s0.ghost, kind=kind)
            f = Opq("f64", {"zero": 0.0, "pos": ("sym", g["t"]), "bad": ("bad",)}[kind])
            r = E.ref(s0, Adt(None, 0, (g["neg"],) + tuple(g["c"]) + (f,)))
            out += E.run(cx.prog.find("r_duration_std"), [r], s0)
        return out

    def expect(s, g):
        """[(state, None | (secs, nanos))]"""
        y, mo, d, h, mi = g["c"]
        out = []
        for s1, bad in s.branch(disj([g["neg"], cmp(">=", y, 1), cmp(">=", mo, 1)])):
            if bad or s.ghost["kind"] == "bad":
                out.append((s1, None))
                continue
            if s.ghost["kind"] == "zero":
                alts = [(s1, Opq("stddur", (0, 0)))]
            else:
                alts = secs_f64(E, s1, Opq("f64", ("sym", g["t"])))
            for s2, ns in alts:
                if ns is None:
                    out.append((s2, None))
                    continue
                tot = add(add(scale(d, 86400), scale(h, 3600)), add(scale(mi, 60), ns.d[0]))
                for s3, fits in s2.branch(cmp("<=", tot, U64)):
                    out.append((s3, (tot, ns.d[1]) if fits else None))
        return out

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        cases = expect(s, g)
        if is_ok(E, s, v):
            r = E.expand(s, v.f[0])
            yield "ok-only-if-convertible", [x for x, w in cases if w is None]
            yield "exact-total", [y for x, w in cases if w for i in (0, 1) for y in ne_states(x, r.d[i], w[i])]
        else:
            yield "convertible-never-refused", [x for x, w in cases if w is not None]

    def sec_bits(s, m, g):
        kd = s.ghost["kind"]
        if kd == "zero":
            return bits(0.0)
        if kd == "bad":
            return bits(-1.5)
        ns = s.ghost.get("ns", {}).get(("sym", g["t"]), 0)
        if ns == 0:
            return bits(1.25)
        if ns is None:
            return bits(1e30)
        sec, n = ev(s, m, ns.d[0]), ev(s, m, ns.d[1])
        return bits(sec + n / 1e9 if (sec, n) != (0, 0) else 1e-12)

    def conc(s, m, g):
        ng = [b for t, b in s.branch(g["neg"])][0]
        return "duration_std", [Raw(int(ng))] + [Raw(ev(s, m, x)) for x in g["c"]] + [Raw(sec_bits(s, m, g))]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        if not is_ok(E, s, v):
            return ("err",)
        r = E.expand(s, v.f[0])
        # a double cannot carry every (seconds, nanos) pair: predict only when the witness double has exactly that value
        ns = s.ghost.get("ns", {}).get(("sym", g["t"]))
        if ns is not None and nanos_of(fl(sec_bits(s, m, g))) != (ev(s, m, ns.d[0]), ev(s, m, ns.d[1])):
            return None
        return ("ok", str(ev(s, m, r.d[0])), str(ev(s, m, r.d[1])))
    cx.verify("duration::to_std_duration", body, mk, post, conc, judge, pred, clauses=("no-panic", "ok-only-if-convertible", "exact-total", "convertible-never-refused"))
    q = cx.tier == "quick"
    rng = cx.rng
    cs = []
    secs = [0.0, 1.0, 0.1, 0.999999999, 0.9999999995, 0.9999999996, 0.0000000005, 1e-10, 59.9999999999, 1e9 + 0.3, 2.0**53, 2.0**63, 1.8446744073709550e19, 1.8446744073709552e19, 1e300, float("inf"), float("nan"), -1.0, -0.5, -0.0, -1e-12]
    edge = [0, 1, 59, 60, 23, 24, U64 // 86400, U64 // 86400 + 1, U64 // 3600, U64 // 3600 + 1, U64 // 60, U64 // 60 + 1, U64]
    for f in secs:
        cs += [(0, 0, 0, 0, 0, 0, f), (0, 0, 0, 1, 1, 1, f), (0, 0, 0, 0, 0, U64 // 60, f), (1, 0, 0, 0, 0, 0, f), (0, 1, 0, 0, 0, 0, f), (0, 0, 1, 0, 0, 0, f), (0, 0, 0, U64 // 86400, 6, 28, f)]
    for a in edge:
        for i in range(5):
            for f in (0.0, 0.999999999, 15.0, 16.0):
                cs.append((0,) + tuple(a if j == i else 0 for j in range(5)) + (f,))
        for b in edge:
            cs += [(0, 0, 0, a, b, 0, 0.5), (0, 0, 0, 0, a, b, 0.5), (0, 0, 0, a, 0, b, 0.5)]
    for _ in range(1500 if q else 60000):
        cs.append((int(rng.random() < 0.1), int(rng.random() < 0.05), int(rng.random() < 0.05), rng.choice((0, rng.randrange(1000), rng.randrange(U64 + 1))), rng.randrange(200), rng.choice((rng.randrange(100), rng.randrange(U64 + 1))), rng.random() * 10 ** rng.randrange(0, 12)))
    cx.sweep("edge seconds x component shapes, component values at every overflow boundary, random durations", [("duration_std", [Raw(x) for x in c[:6]] + [Raw(bits(c[6]))]) for c in cs], judge)
