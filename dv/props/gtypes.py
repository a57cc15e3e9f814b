"""The five Gregorian types: descriptors shared by C02-C04."""
from .common import *

YEAR = L.rx(r"-?[0-9]{4,}")
MAXY = 2**31 - 1
MDAYS = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

# name -> (fields, list of body part languages and which part is which field)
G = {
    "gday": (("d",), [L.lit(b"---"), D + D], {1: "d"}),
    "gmonth": (("m",), [L.lit(b"--"), D + D], {1: "m"}),
    "gmonthday": (("m", "d"), [L.lit(b"--"), D + D, L.lit(b"-"), D + D], {1: "m", 3: "d"}),
    "gyear": (("y",), [L.opt(L.lit(b"-")), D + D + D + D + D.star()], {1: "y"}),
    "gyearmonth": (("y", "m"), [L.opt(L.lit(b"-")), D + D + D + D + D.star(), L.lit(b"-"), D + D], {1: "y", 3: "m"}),
}
BODY = {n: L.seq(*ls) for n, (f, ls, w) in G.items()}

PYRE = {
    "gday": re.compile(r"---(?P<d>[0-9]{2})(?P<tz>.*)", re.S | re.A),
    "gmonth": re.compile(r"--(?P<m>[0-9]{2})(?P<tz>.*)", re.S | re.A),
    "gmonthday": re.compile(r"--(?P<m>[0-9]{2})-(?P<d>[0-9]{2})(?P<tz>.*)", re.S | re.A),
    "gyear": re.compile(r"(?P<y>-?[0-9]{4,})(?P<tz>.*)", re.S | re.A),
    "gyearmonth": re.compile(r"(?P<y>-?[0-9]{4,})-(?P<m>[0-9]{2})(?P<tz>.*)", re.S | re.A),
}


def py_valid(vals):
    y, m, d = vals.get("y"), vals.get("m"), vals.get("d")
    if y is not None and (y == 0 or abs(y) > MAXY):
        return False
    if m is not None and not 1 <= m <= 12:
        return False
    if d is not None and not 1 <= d <= (MDAYS[m - 1] if m is not None else 31):
        return False
    return True


def py_parse(n, s):
    """(field values..., tz) or None"""
    m = PYRE[n].fullmatch(s)
    if not m:
        return None
    tz = m.group("tz")
    if tz == "":
        z = None
    else:
        z = py_tz(tz)
        if z is None:
            return None
    vals = {k: int(v) for k, v in m.groupdict().items() if k != "tz"}
    if not py_valid(vals):
        return None
    return tuple(vals[f] for f in G[n][0]) + (z,)


def tzs(z):
    return "-" if z is None else str(z)


def judge_parse(op, a, r):
    n = op[:-6]
    s = a[0].decode() if isinstance(a[0], bytes) else a[0]
    w = py_parse(n, s)
    want = ("err",) if w is None else ("ok",) + tuple(str(x) for x in w[:-1]) + (tzs(w[-1]),)
    if r[:len(want)] != want:
        return "%s literal %r: expected %s, real code gave %s" % (n, s, want, r)


def valid_term(vals):
    """boolean term: value-space conditions"""
    cs = []
    y, m, d = vals.get("y"), vals.get("m"), vals.get("d")
    if y is not None:
        cs += [cmp("!=", y, 0), cmp("<=", y, MAXY), cmp(">=", y, -MAXY)]
    if m is not None:
        cs += [cmp(">=", m, 1), cmp("<=", m, 12)]
    if d is not None:
        cs += [cmp(">=", d, 1)]
        if m is None:
            cs += [cmp("<=", d, 31)]
        else:
            cs += [cmp("<=", d, 31), disj([cmp("!=", m, 2), cmp("<=", d, 29)]),
                   disj([conj([cmp("!=", m, 4), cmp("!=", m, 6), cmp("!=", m, 9), cmp("!=", m, 11)]), cmp("<=", d, 30)])]
    return conj(cs)


def spec_cases(st, n, rope):
    """meaning of a string: [(state, None)] when not in the lexical/value space, else (state, (fields, tz))"""
    fields, langs, where = G[n]
    out = []
    for s, b in st.split(rope, BODY[n] + (L.EPS | TZ)):
        if not b:
            out.append((s, None))
            continue
        for s2, ps in cutn(s, rope, [BODY[n], L.EPS | TZ]):
            for s3, ts in cutn(s2, ps[0], langs):
                vals = {where[i]: s3.dec(ts[i]) for i in where}
                todo = [(s3, vals)]
                if "y" in vals:
                    todo = []
                    for s4, ng in s3.split(ts[0], L.lit(b"-")):
                        todo.append((s4, dict(vals, y=scale(vals["y"], -1) if ng else vals["y"])))
                for s4, vs in todo:
                    for s5, okv in s4.branch(valid_term(vs)):
                        if not okv:
                            out.append((s5, None))
                            continue
                        for s6, z in opt_tz_cases(s5, ps[1]):
                            out.append((s6, (tuple(vs[f] for f in fields), z)))
    return out


def val_ne(E, s, got, fields, z):
    """states where the struct value differs from (fields, z)"""
    bad = []
    got = E.expand(s, got)
    for i, w in enumerate(fields):
        bad += ne_states(s, E.expand(s, got.f[i]), w)
    bad += opt_tz_ne(E, s, got.f[len(fields)], z)
    return bad


def show_val(E, s, m, v):
    v = E.expand(s, v)
    return tuple(str(ev(s, m, E.expand(s, x))) for x in v.f[:-1]) + (ev_tz(E, s, m, v.f[-1]),)


GOOD = {
    "gday": ["---01", "---31", "---25", "---09"], "gmonth": ["--01", "--12", "--07"],
    "gmonthday": ["--02-29", "--04-30", "--12-31", "--01-01", "--06-15"],
    "gyear": ["2020", "0001", "-0044", "12345", "2147483647", "-2147483647", "0000002020"],
    "gyearmonth": ["2020-02", "0001-12", "-0044-03", "12345-01", "2147483647-12"],
}
BADB = {
    "gday": ["---00", "---32", "--30", "----1", "---1", "---001", "--é1", "-é-1", "---é", "---+1", "--- 1", "---1 ", "", "-", "---", "----", "-----", "------", "---١"],
    "gmonth": ["--00", "--13", "--1", "-1", "--é", "-é1", "--+1", "--01-", "--01--", "", "--", "--é1", "--1é", "---1", "----"],
    "gmonthday": ["--02-30", "--04-31", "--00-01", "--13-01", "--01-00", "--01-32", "--0101", "--é-01", "--01é01", "--01-é", "--0-1é", "-é01-1", "--1-1", "--01--1", "--01-1", "--+1-01", "--01-+1", ""],
    "gyear": ["0000", "-0000", "999", "-999", "2147483648", "-2147483648", "99999999999999999999999", "+2020", "--2020", "20é0", "20-20", "", "-", "2020-", "20 20", "2_020", "-000", "00000"],
    "gyearmonth": ["0000-01", "-0000-01", "2020-13", "2020-00", "2020", "2020-1", "2020-011", "999-01", "2147483648-01", "-2147483648-01", "2020-é", "2é20-01", "2020--1", "--2020-01", "+2020-01", "2020-+1", "2020-01-", ""],
}
