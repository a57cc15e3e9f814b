from .gtypes import *

LEVEL = "proof"
NOTE = "Constructors, component conversions and defaults of the Gregorian types verified over all i32 arguments and all offsets (loop-free, complete)."
BOUNDS = {"y": lambda v: v != 0, "m": lambda v: 1 <= v <= 12}


def py_new(n, vals):
    if "y" in vals and vals["y"] == 0:
        return False
    if "m" in vals and not 1 <= vals["m"] <= 12:
        return False
    if "d" in vals and not 1 <= vals["d"] <= (MDAYS[vals["m"] - 1] if "m" in vals else 31):
        return False
    return True


def judge(op, a, r):
    n, what = op.split("_")
    a = [str(x) for x in a]
    if what == "new":
        vals = dict(zip(G[n][0], [int(x) for x in a[:-1]]))
        want = ("ok",) + tuple(a) if py_new(n, vals) else ("err",)
    elif op == "g_defaults":
        want = ("ok", "1", "-", "1", "-", "1", "-", "1", "1", "-", "1", "1", "-")
    else:
        vals = dict(zip(G[n][0], a[:-1]))
        want = ("ok", vals[{"gmonth": "m", "gday": "d", "gyear": "y"}[what]], a[-1])
    if r[:len(want)] != want:
        return "%s(%s): expected %s, real code gave %s" % (op, ", ".join(a), want, r)


def term_new(vals):
    vs = dict(vals)
    cs = []
    if "y" in vs:
        cs.append(cmp("!=", vs.pop("y"), 0))
    return conj(cs + [valid_term(vs)])


def sym_fields(E, st, n):
    fields = G[n][0]
    vals = tuple(st.new_int(-2**31, 2**31 - 1, f) for f in fields)
    has = st.fresh("hastz?")
    off = st.new_int(-86399, 86399, "tz")
    return vals, has, off


def mk_tz(E, st, has, off):
    """both Option<FixedOffset> cases"""
    return Adt(None, 1, (Adt(None, 0, (off,)),)) if has else NONE


def run(cx):
    cx.vary_on = True
    E = cx.E
    for n in G:
        fields = G[n][0]
        for has in (False, True):
            def mk(n=n, has=has):
                st = State()
                vals, _, off = sym_fields(E, st, n)
                return st, list(vals) + [mk_tz(E, st, has, off)], {"v": vals, "z": off if has else None}

            def post(s, k, v, g):
                yield "no-panic", [s] if k != "ret" else []
                if k != "ret":
                    return
                t = s.branch(term_new(dict(zip(fields, g["v"]))))
                if is_ok(E, s, v):
                    yield "only-valid-accepted", [x for x, b in t if not b]
                    bad = []
                    for x, b in t:
                        if b:
                            bad += val_ne(E, x, v.f[0], g["v"], g["z"])
                    yield "fields-stored", bad
                else:
                    yield "valid-accepted", [x for x, b in t if b]

            def conc(s, m, g, n=n):
                return n + "_new", [ev(s, m, x) for x in g["v"]] + [NOTZ if g["z"] is None else ev(s, m, g["z"])]

            def pred(s, k, v, g, m):
                return ("panic",) if k != "ret" else (("ok",) + show_val(E, s, m, v.f[0]) if is_ok(E, s, v) else ("err",))

            cx.verify("%s::new[%s]" % (n, "tz" if has else "no-tz"), "r_%s_new" % n, mk, post, conc, judge, pred,
                      clauses=("no-panic", "only-valid-accepted", "fields-stored", "valid-accepted"))
            for part, fld in (("gmonth", "m"), ("gday", "d"), ("gyear", "y")):
                if len(fields) == 2 and fld in fields:
                    def mk2(n=n, has=has):
                        st = State()
                        vals, _, off = sym_fields(E, st, n)
                        z = mk_tz(E, st, has, off)
                        return st, [Adt(None, 0, tuple(vals) + (z,))], {"v": vals, "z": off if has else None, "w": vals[fields.index(fld)]}

                    def post2(s, k, v, g):
                        yield "no-panic", [s] if k != "ret" else []
                        if k == "ret":
                            yield "component-kept", val_ne(E, s, v, (g["w"],), g["z"])

                    def conc2(s, m, g, n=n, part=part):
                        return n + "_" + part, [ev(s, m, x) for x in g["v"]] + [NOTZ if g["z"] is None else ev(s, m, g["z"])]

                    def pred2(s, k, v, g, m):
                        return ("panic",) if k != "ret" else ("ok",) + show_val(E, s, m, v)
                    cx.verify("%s::%s[%s]" % (n, part, "tz" if has else "no-tz"), "r_%s_%s" % (n, part), mk2, post2, conc2, judge, pred2, clauses=("no-panic", "component-kept"))

        def mk3():
            return State(), [], {}

        def post3(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "default-value", val_ne(E, s, v, tuple(1 for _ in fields), None)
        cx.verify(n + "::default", "r_%s_default" % n, mk3, post3, lambda s, m, g: ("g_defaults", []), judge, None, clauses=("no-panic", "default-value"))
    edge = [-2**31, -2**31 + 1, -13, -12, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 27, 28, 29, 30, 31, 32, 33, 99, 2019, 2147483646, 2**31 - 1, 256, 257, 4294967 * 256]
    zs = [NOTZ, 0, 60, -60, 50400, -50400, 86399, -86399, 19800]
    cs = [("g_defaults", [])]
    for n in G:
        k = len(G[n][0])
        for v in ([(x,) for x in edge] if k == 1 else [(x, y) for x in edge for y in edge]):
            for z in (zs if k == 1 else [cx.rng.choice(zs)]):
                cs.append((n + "_new", list(v) + [z]))
                if k == 2:
                    for c in (("gmonth", "gday") if n == "gmonthday" else ("gyear", "gmonth")):
                        cs.append((n + "_" + c, list(v) + [z]))
    cx.sweep("constructor/conversion over all pairs of 32 edge integers and 9 offsets; defaults", cs, judge)
