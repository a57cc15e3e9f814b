from .gtypes import *

LEVEL = "proof"
NOTE = "Each Gregorian from_str verified for every UTF-8 string from MIR (parse_timezone executed inline): accepted iff in the lexical and value space, fields and offset equal the decoded parts, no panic."


def one(cx, n):
    E = cx.E
    fields = G[n][0]

    def mk():
        st = State()
        a = st.new_atom(UTF8, "s")
        return st, [SRef((a,))], {"s": (a,)}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        cases = spec_cases(s, n, g["s"])
        if is_ok(E, s, v):
            yield "accepted-only-if-valid", [x for x, w in cases if w is None]
            bad = []
            for x, w in cases:
                if w is not None:
                    bad += val_ne(E, x, v.f[0], w[0], w[1])
            yield "decoded-value", bad
        else:
            yield "valid-always-accepted", [x for x, w in cases if w is not None]

    def conc(s, m, g):
        return n + "_parse", [ev(s, m, g["s"])]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        return ("ok",) + show_val(E, s, m, v.f[0]) if is_ok(E, s, v) else ("err",)

    cx.verify(n + "::from_str", "r_%s_parse" % n, mk, post, conc, judge_parse, pred, budget=200,
              clauses=("no-panic", "accepted-only-if-valid", "decoded-value", "valid-always-accepted"))


def run(cx):
    cx.vary_on = True
    for n in G:
        one(cx, n)
        cs = [(n + "_parse", [b + t]) for b in GOOD[n] + BADB[n] for t in TZS]
        if n == "gmonthday":
            cs += [(n + "_parse", ["--%02d-%02d" % (m, d) + t]) for m in range(0, 15) for d in range(0, 34) for t in ("", "Z", "-05:30")]
        if n in ("gday", "gmonth"):
            cs += [(n + "_parse", [("---" if n == "gday" else "--") + "%02d" % d + t]) for d in range(100) for t in ("", "Z", "+05:30", "-11:00")]
        if n in ("gyear", "gyearmonth"):
            suf = "" if n == "gyear" else "-05"
            cs += [(n + "_parse", [sg + y + suf + t]) for sg in ("", "-") for y in ["%04d" % i for i in list(range(0, 40)) + [99, 100, 999, 1000, 9999, 10000, 2**31 - 2, 2**31 - 1, 2**31, 2**32, 2**63, 2**64]]
                   for t in ("", "Z", "-05:30", "+14:00")]
            if n == "gyearmonth":
                cs += [(n + "_parse", ["2021-%02d" % m + t]) for m in range(100) for t in ("", "Z", "+01:00", "-01:00")]
        cs += [(n + "_parse", [t]) for t in edits1([GOOD[n][2], GOOD[n][1] + "Z", GOOD[n][0] + "-05:30"])]
        cs += [(n + "_parse", [t]) for t in mutations(cx.rng, [b + t for b in GOOD[n] for t in TZS[:10]], ALPHA, 800 if cx.tier == "quick" else 40000)]
        cx.sweep(n + ": edge literals x edge designators, all small field values, random edits of valid literals", cs, judge_parse)
