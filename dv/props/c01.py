from .common import *

LEVEL = "proof"
NOTE = "parse_timezone verified for every UTF-8 string from its MIR; the contract is the designator language plus the decoded offset."


def judge(op, a, r):
    s = a[0].decode() if isinstance(a[0], bytes) else a[0]
    w = py_tz(s)
    want = ("ok", str(w)) if w is not None else ("err",)
    if r[:len(want)] != want:
        return "timezone designator %r: expected %s, real code gave %s" % (s, want, r)


def run(cx):
    cx.vary_on = True
    E = cx.E

    def mk():
        st = State()
        a = st.new_atom(UTF8, "s")
        return st, [SRef((a,))], {"s": (a,)}

    def post(s, k, v, g):
        if k != "ret":
            yield "no-panic", [s]
            return
        yield "no-panic", []
        if is_ok(E, s, v):
            t = s.split(g["s"], TZ)
            yield "ok-only-if-designator", [x for x, b in t if not b]
            bad = []
            for x, b in t:
                if b:
                    for y, sec in tz_cases(x, g["s"]):
                        bad += ne_states(y, off_secs(E, y, v.f[0]), sec)
            yield "offset-value", bad
        else:
            yield "rejected-only-if-not-designator", [x for x, b in s.split(g["s"], TZ) if b]

    def conc(s, m, g):
        return "tz", [ev(s, m, g["s"])]

    def pred(s, k, v, g, m):
        if k != "ret":
            return ("panic",)
        return ("ok", str(ev(s, m, off_secs(E, s, v.f[0])))) if is_ok(E, s, v) else ("err",)

    cx.verify("parse_timezone", "r_tz", mk, post, conc, judge, pred,
              clauses=("no-panic", "ok-only-if-designator", "offset-value", "rejected-only-if-not-designator"))

    cs = [("tz", [t]) for t in TZS]
    cs += [("tz", ["%s%02d:%02d" % (sg, h, m)]) for sg in "+-" for h in range(0, 25) for m in range(0, 75)]
    cs += [("tz", [t]) for t in mutations(cx.rng, ["+06:30", "-14:00", "Z", "+00:00"], ALPHA, 1500 if cx.tier == "quick" else 60000)]
    cs += [("tz", [t]) for t in edits1(["+06:30", "-14:00", "Z", "-13:59"])]
    cx.sweep("every single-symbol edit of four designators, all sign/hour 0-24/minute 0-74 combinations, hand-written edge designators, random edits of designators", cs, judge)
