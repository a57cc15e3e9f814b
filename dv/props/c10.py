from .durtypes import *

LEVEL = "proof"
NOTE = "Display then from_str executed on symbolic durations: every combination of zero/positive components, both signs; seconds are a symbolic positive double given by its shortest plain decimal text."
ASSUME = ["<f64 as Display>::fmt prints a positive finite double in plain decimal notation (no exponent) with a text whose nearest double is that double (documented round-trip guarantee of core)"]
ROOT = "<xsd_types::types::Duration as std::str::FromStr>::from_str"





def judge(op, a, r):
    if op == "duration_default":
        w = ("ok", "0", "0", "0", "0", "0", "0", bits(0.0))
        if tuple(r) != w:
            return "Duration::default() is %s, expected the zero duration" % (r,)
        return
    neg = str(a[0]) not in ("0", "false")
    want = ("ok",) + tuple(str(x) for x in a)
    if r[0] != "ok":
        return "printing duration %s and parsing it back gives %s" % (want[1:], r)
    text = bytes.fromhex(r[9]).decode()
    if py_dur(text)[0] != "ok":
        return "duration %s is printed as %r, not a valid xs:duration" % (want[1:], text)
    zero = fl(str(a[6])) == 0.0
    if r[1:7] != want[1:7] or (r[7] != want[7] and not (zero and fl(r[7]) == 0.0)) or r[8] != "true":
        return "duration %s is printed as %r, which reads back as %s" % (want[1:], text, r[1:8])
    if py_dur(text)[1:7] != want[1:7]:
        return "duration %s is printed as %r" % (want[1:], text)


def run(cx):
    cx.vary_on = True
    E = cx.E
    if E:
        E.loop_rules[ROOT] = loops.scanner_rule()

    def mk():
        st = State()
        return st, [], {"c": [st.new_int(0, U64, n) for n in FIELDS[:5]], "t": st.atom_rope(SECTXT, "sec")}

    def body(E, st, args, g):
        out = []
        for sign in (False, True):
            for sec in (None, g["t"]):
                s0 = st.fork()
                s0.ghost = dict(s0.ghost or {}, neg=sign, sec=sec)
                f = Opq("f64", 0.0 if sec is None else ("sym", sec))
                r = E.ref(s0, Adt(None, 0, (sign,) + tuple(g["c"]) + (f,)))
                for s, k, v in E.run(cx.prog.find("r_duration_print"), [r], s0):
                    if k != "ret":
                        out.append((s, k, v))
                        continue
                    rope = E.expand(s, v).r
                    for s2, k2, v2 in E.run(cx.prog.find("r_duration_parse"), [SRef(rope)], s):
                        out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
        return out

    def want(s, g):
        return (s.ghost["neg"], list(g["c"]), s.ghost["sec"])

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        res = E.expand(s, v.f[1])
        yield "printed-text-parses-back", dur_ne(E, s, res.f[0], want(s, g)) if is_ok(E, s, res) else [s]
        bad = []
        for x, w in spec(s, v.f[0].r):
            if w is None:
                bad.append(x)
                continue
            e = want(s, g)
            if w[0] != e[0]:
                bad.append(x)
            for a, b in zip(w[1], e[1]):
                bad += ne_states(x, a, b)
            if (w[2] is None) != (e[2] is None):
                bad.append(x)
            elif w[2] is not None:
                bad += str_states_ne(x, w[2], e[2])
        yield "valid-literal-same-duration", bad

    def conc(s, m, g):
        sec = s.ghost["sec"]
        return "duration_roundtrip", [Raw(int(s.ghost["neg"]))] + [Raw(ev(s, m, x)) for x in g["c"]] + [Raw(bits(float(ev(s, m, sec).decode()) if sec else 0.0))]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        r = E.expand(s, v.f[1])
        if not is_ok(E, s, r):
            return ("err",)
        x = show(E, s, m, r.f[0])
        return ("ok",) + x + ("true", ev(s, m, v.f[0].r).hex()) if x else None
    cx.verify("duration print/parse", body, mk, post, conc, judge, pred, budget=250,
              clauses=("no-panic", "printed-text-parses-back", "valid-literal-same-duration"))

    def post_d(s, k, v, g):
        yield "zero", dur_ne(E, s, v, (False, [0] * 5, None)) if k == "ret" else [s]
    cx.verify("duration::default", "r_duration_default", lambda: (State(), [], {}), post_d, lambda s, m, g: ("duration_default", []), judge,
              lambda s, k, v, g, m: ("ok",) + show(E, s, m, v) if k == "ret" else ("panic",), clauses=("zero",))
    q = cx.tier == "quick"
    rng = cx.rng
    secs = [0.0, -0.0, 0.1, 1.0, 0.5, 59.999, 60.0, 1e-9, 1e-7, 1e16, 1e17, 1e21, 1e22, 123456789.123, 0.1 + 0.2, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 9007199254740993.0, 1 / 3, 1e15 + 0.3]
    cs = [("duration_default", [])]
    for mask in range(64):
        for ng in (0, 1):
            for val in (1, 7, 60, U64):
                for sc in (0.0, 1.5) if mask >> 5 & 1 == 0 else (secs[(mask * 7 + val) % len(secs)], 3.25):
                    cs.append(("duration_roundtrip", [Raw(ng)] + [Raw(val if mask >> i & 1 else 0) for i in range(5)] + [Raw(bits(sc if mask >> 5 & 1 else 0.0))]))
    for sc in secs:
        cs.append(("duration_roundtrip", [Raw(0)] + [Raw(0)] * 5 + [Raw(bits(sc))]))
        cs.append(("duration_roundtrip", [Raw(1)] + [Raw(3)] * 5 + [Raw(bits(sc))]))
    for _ in range(1500 if q else 50000):
        e = struct.unpack(">d", struct.pack(">Q", rng.randrange(0x7FF0000000000000)))[0] if rng.random() < 0.5 else rng.random() * 10 ** rng.randrange(-8, 12)
        cs.append(("duration_roundtrip", [Raw(rng.randrange(2))] + [Raw(rng.choice((0, 1, rng.randrange(U64 + 1), rng.randrange(100)))) for _ in range(5)] + [Raw(bits(e))]))
    cx.sweep("all 64 zero/non-zero component combinations x sign x values; edge and random doubles", cs, judge)
