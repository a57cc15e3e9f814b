from .gtypes import *
from .c03 import mk_tz, py_new

LEVEL = "proof"
NOTE = "Display then from_str executed on one symbolic value per type: all valid field values, absent or whole-minute offset within 14:00; the text equals the canonical form and parses back to the same value."


def canon(n, vals, z):
    y = vals.get("y")
    if y is not None:
        t = "%s%04d" % ("-" if y < 0 else "", abs(y))
        if "m" in vals:
            t += "-%02d" % vals["m"]
    elif n == "gday":
        t = "---%02d" % vals["d"]
    elif n == "gmonth":
        t = "--%02d" % vals["m"]
    else:
        t = "--%02d-%02d" % (vals["m"], vals["d"])
    if z is not None:
        t += "%s%02d:%02d" % ("-" if z < 0 else "+", abs(z) // 3600, abs(z) // 60 % 60)
    return t


def judge(op, a, r):
    n = op.split("_")[0]
    a = [str(x) for x in a]
    vals = dict(zip(G[n][0], [int(x) for x in a[:-1]]))
    z = None if a[-1] == "-" else int(a[-1])
    if op.endswith("_print"):
        want = ("ok", hx_(canon(n, vals, z)))
        if r[:2] != want:
            return "%s%s printed as %s, expected %r" % (n, a, r if r[0] != "ok" else bytes.fromhex(r[1]), canon(n, vals, z))
    elif vals.get("y") == -2**31:
        return "printing %s%s panics" % (n, a) if r[0] == "panic" else None
    else:
        want = ("ok",) + tuple(a)
        if r[:len(want)] != want:
            return "%s%s does not survive printing and parsing: %s" % (n, a, r)


def hx_(s):
    return s.encode().hex()


def run(cx):
    cx.vary_on = True
    E = cx.E
    for n in G:
        fields = G[n][0]
        for has in (False, True):
            def mk(n=n, has=has):
                st = State()
                vals = tuple(st.new_int(*{"y": (-2**31, MAXY), "m": (1, 12), "d": (1, 31)}[f], f) for f in fields)
                k = st.new_int(-840, 840, "tzmin")
                off = scale(k, 60)
                vs = dict(zip(fields, vals))
                y = vs.pop("y", None)
                ss = [x for x in st.assume(valid_term(vs))]
                if y is not None:
                    ss = [x for t in ss for x in t.assume(cmp("!=", y, 0))]
                return ss, vals, off

            def rt(E, st, args, g):
                out = []
                for s0 in g["ss"]:
                    s0 = s0.fork()
                    r = E.ref(s0, Adt(None, 0, tuple(g["v"]) + (mk_tz(E, s0, g["z"] is not None, g["z"]),)))
                    for s, k, v in E.run(cx.prog.find("r_%s_print" % n), [r], s0):
                        if k != "ret":
                            out.append((s, k, v))
                            continue
                        rope = E.expand(s, v).r
                        for s2, k2, v2 in E.run(cx.prog.find("r_%s_parse" % n), [SRef(rope)], s):
                            out.append((s2, k2, Tup((StringV(rope), v2)) if k2 == "ret" else v2))
                return out

            def mk_(n=n, has=has):
                ss, vals, off = mk()
                return ss[0], [], {"ss": ss, "v": vals, "z": off if has else None}

            def post(s, k, v, g):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                res = E.expand(s, v.f[1])
                lim = [s]
                if fields[0] == "y":
                    # the one constructible year whose magnitude is not an i32: printing only
                    lim = [x for x, b in s.branch(cmp("==", g["v"][0], -2**31)) if not b]
                if not is_ok(E, s, res):
                    yield "printed-text-parses-back", lim
                else:
                    yield "printed-text-parses-back", [y for x in lim for y in val_ne(E, x, res.f[0], g["v"], g["z"])]
                bad = []
                for x, w in [c for x in lim for c in spec_cases(x, n, v.f[0].r)]:
                    if w is None:
                        bad.append(x)
                    else:
                        for i, f in enumerate(g["v"]):
                            bad += ne_states(x, w[0][i], f)
                        if (w[1] is None) != (g["z"] is None):
                            bad.append(x)
                        elif w[1] is not None:
                            bad += ne_states(x, w[1], g["z"])
                # canonical: minimal digits (year zero-padded to four) and numeric offset form
                canonl = {"gyear": r"-?([1-9][0-9]{4,}|[0-9]{4})", "gyearmonth": r"-?([1-9][0-9]{4,}|[0-9]{4})-[0-9]{2}"}.get(n)
                body = L.rx(canonl) if canonl else BODY[n]
                for x, b in s.split(v.f[0].r, body + (L.EPS if g["z"] is None else TZ_HM)):
                    if not b:
                        bad.append(x)
                yield "canonical-text", bad

            def conc(s, m, g, n=n):
                return n + "_roundtrip", [ev(s, m, x) for x in g["v"]] + [NOTZ if g["z"] is None else ev(s, m, g["z"])]

            def pred(s, k, v, g, m):
                if k != "ret":
                    return ("panic",)
                r = E.expand(s, v.f[1])
                return ("ok",) + show_val(E, s, m, r.f[0]) + (ev(s, m, v.f[0].r).hex(),) if is_ok(E, s, r) else ("err",)

            cx.verify("%s print/parse[%s]" % (n, "tz" if has else "no-tz"), rt, mk_, post, conc, jr, pred,
                      clauses=("no-panic", "printed-text-parses-back", "canonical-text"))
    edge = {"y": [-2**31, -MAXY, -MAXY + 1, -10000, -9999, -1000, -999, -45, -10, -9, -1, 1, 9, 10, 45, 99, 100, 999, 1000, 9999, 10000, 65536, 2**31 - 2, MAXY], "m": list(range(1, 13)), "d": list(range(1, 32))}
    zs = [NOTZ] + [60 * m for m in (0, 1, -1, 59, -59, 60, -60, 61, 330, -330, 345, -210, 839, -839, 840, -840)]
    cs = []
    import itertools
    for n in G:
        for vs in itertools.product(*[edge[f] for f in G[n][0]]):
            if py_new(n, dict(zip(G[n][0], vs))):
                for z in (zs if len(vs) == 1 else cx.rng.sample(zs, 3)):
                    cs.append((n + "_roundtrip", list(vs) + [z]))
    cs += [("gday_roundtrip", [5, 60 * m]) for m in range(-840, 841)]
    cx.sweep("print-then-parse over edge field values and offsets; every whole-minute offset for gDay", cs, jr)


def jr(op, a, r):
    """round trip result: ok fields.. tz texthex"""
    m = judge(op, a, r)
    if m or r[0] != "ok":
        return m
    return judge(op.split("_")[0] + "_print", a, ("ok", r[-1]))
