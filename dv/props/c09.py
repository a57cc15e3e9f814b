from .durtypes import *

LEVEL = "proof"
NOTE = "Duration::from_str verified for every UTF-8 string (scanner loop by the run-compression rule, re-checked on every run); u64/f64 text conversion are assumed contracts."
ROOT = "<xsd_types::types::Duration as std::str::FromStr>::from_str"


def judge(op, a, r):
    s = a[0].decode() if isinstance(a[0], bytes) else a[0]
    w = py_dur(s)
    if r[:len(w)] != w:
        return "xs:duration literal %r: expected %s, real code gave %s" % (s, w, r)


def run(cx):
    cx.vary_on = True
    E = cx.E
    if E:
        E.loop_rules[ROOT] = loops.scanner_rule()

    def mk():
        st = State()
        a = st.new_atom(UTF8, "s")
        return st, [SRef((a,))], {"s": (a,)}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        cases = spec(s, g["s"])
        if is_ok(E, s, v):
            yield "accepted-only-if-valid", [x for x, w in cases if w is None]
            yield "decoded-value", [y for x, w in cases if w is not None for y in dur_ne(E, x, v.f[0], w)]
        else:
            yield "valid-always-accepted", [x for x, w in cases if w is not None]

    def conc(s, m, g):
        return "duration_parse", [ev(s, m, g["s"])]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        if not is_ok(E, s, v):
            return ("err",)
        x = show(E, s, m, v.f[0])
        return ("ok",) + x if x else None
    cx.verify("duration::from_str", "r_duration_parse", mk, post, conc, judge, pred, budget=600,
              clauses=("no-panic", "accepted-only-if-valid", "decoded-value", "valid-always-accepted"))
    q = cx.tier == "quick"
    rng = cx.rng
    import itertools
    cs = []
    for mask in range(64):
        for sg in ("", "-"):
            for nums in (("1",) * 6, ("0",) * 6, ("2", "13", "45", "36", "72", "3.25"), ("007", "018446744073709551615", "18446744073709551615", "18446744073709551616", "99999999999", "59.999999999")):
                t = sg + "P" + "".join(nums[i] + "YMD"[i] for i in range(3) if mask >> i & 1)
                tt = "".join(nums[3 + i] + "HMS"[i] for i in range(3) if mask >> (3 + i) & 1)
                cs += [t + ("T" + tt if tt else ""), t + "T" + tt, t + tt]
    cs += ["", "-", "P", "-P", "PT", "--P1D", "+P1D", "P-1D", "-P-1D", "P1", "P1D1", "PT1S1", "P1DT", "PT1.5H", "PT1.S", "PT.5S", "PT1..5S", "PT1.5.5S", "P1.5D", "PT0.1M", "P1Y1Y", "P1M1Y", "P1D1M", "PT1S1M", "PT1M1H", "P1H", "P1S", "PT1D", "PT1Y", "PT1M1D",
           "1Y", "P 1D", " P1D", "P1D ", "P1W", "p1d", "P1d", "é", "P1é", "P١D", "P1D\n", "P1DP1D", "P1DTT1H", "TP1D", "PP1D", "P1TD", "-1D", "PT1e3S", "PTinfS", "PTNaNS", "PT1_0S", "P1_0D", "P+1D", "PT+1S", "PT" + "9" * 400 + "S", "PT0." + "0" * 400 + "1S",
           "PT0.1S", "PT0.3S", "PT1234567890.123456789S", "PT9007199254740993S", "PT0.30000000000000004S", "P" + "0" * 50 + "1D", "P3M", "PT3M", "P3MT3M", "P1YT1M1.5S", "-P1Y2M3DT4H5M6.7S"]
    cs += edits1(["-P1Y2M3DT4H5M6.7S", "P12DT3.25S"]) + mutations(rng, ["-P1Y2M3DT4H5M6.7S", "P20M", "PT20M", "P1DT2H", "PT1.5S", "P0Y"], ALPHA, 3000 if q else 100000)
    comp = ["1Y", "2M", "3D", "T", "4H", "5S", "6.5S", "7", "."]
    for n in range(1, 5 if q else 7):
        cs += ["P" + "".join(t) for t in itertools.product(comp, repeat=n)]
    for _ in range(20000 if q else 300000):
        cs.append(rng.choice(("P", "-P", "")) + "".join(rng.choice(comp[:7]) for _ in range(rng.randrange(3, 9))))
    cx.sweep("all sequences of up to four tokens (components, T, digit, dot), random longer ones; all 64 component subsets x sign x four number tuples (with and without the separator), hand-written edge literals, every single-symbol edit of two literals, random edits", [("duration_parse", [t]) for t in cs], judge)
