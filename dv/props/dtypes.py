"""Calendar date, time of day and date-time: descriptors shared by C05 and C06."""
from .common import *
from .c03 import mk_tz

Y4 = D + D + D + D
NZ4 = Y4 - L.lit(b"0000")
DD = D + D
MD = L.rx(r"(0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])|(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8])")
# a leap year: divisible by 4 and (last two digits non-zero, or first two divisible by 4)
LEAPY = (DD + L.rx("0[48]|[2468][048]|[13579][26]")) | (L.rx("[02468][048]|[13579][26]") + L.lit(b"00"))
DATE = NZ4 + L.lit(b"-") + (MD) | (LEAPY & NZ4) + L.lit(b"-02-29")
DSHAPE = NZ4 + L.lit(b"-") + DD + L.lit(b"-") + DD
HMS = L.rx("([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9]")
TSHAPE = DD + L.lit(b":") + DD + L.lit(b":") + DD
FR = L.lit(b".") + D + D.star()
OFR = L.EPS | FR
SP = L.charset(((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))).star()
NUM = L.opt(L.byteset(b"+-")) + D + D.star()
D12 = D | DD
# unspecified: blank-padded or unpadded numbers, signed years, year 0000, leap second 60, end-of-day hour 24
LOOSE_D = (SP + NUM + L.lit(b"-") + SP + D12 + L.lit(b"-") + SP + D12) - DSHAPE
LOOSE_T = (SP + D12 + L.lit(b":") + SP + D12 + L.lit(b":") + SP + D12 + OFR) - (TSHAPE + OFR) | L.rx("([01][0-9]|2[0-3]):[0-5][0-9]:60") + OFR | L.lit(b"24:00:00") + (L.EPS | L.lit(b".") + L.lit(b"0") + L.lit(b"0").star())
TIME = HMS + OFR
OTZ = L.EPS | TZ

PYD = re.compile(r"([0-9]{4})-([0-9]{2})-([0-9]{2})", re.A)
PYT = re.compile(r"([0-9]{2}:[0-9]{2}:[0-9]{2})(?:\.([0-9]+))?", re.A)
WSX = "[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]*"
PYLD = re.compile(WSX + r"[+-]?[0-9]+-" + WSX + "[0-9]{1,2}-" + WSX + "[0-9]{1,2}", re.A)
PYLT = re.compile(WSX + "[0-9]{1,2}:" + WSX + "[0-9]{1,2}:" + WSX + r"[0-9]{1,2}(\.[0-9]+)?", re.A)
DM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def py_date(s):
    """'ok' | 'any' | 'err'"""
    m = PYD.fullmatch(s)
    if m and m.group(1) != "0000":
        y, mo, d = map(int, m.groups())
        if not 1 <= mo <= 12:
            return "err"
        n = DM[mo - 1] + (mo == 2 and y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))
        return "ok" if 1 <= d <= n else "err"
    return "any" if PYLD.fullmatch(s) else "err"


def py_time(s):
    """('ok', hms, n9) | ('any',) | ('err',)"""
    m = PYT.fullmatch(s)
    if m:
        h, mi, se = map(int, m.group(1).split(":"))
        if h < 24 and mi < 60 and se < 60:
            return ("ok", m.group(1), ((m.group(2) or "") + "0" * 9)[:9])
        if h < 24 and mi < 60 and se == 60 or (h, mi, se) == (24, 0, 0) and not (m.group(2) or "").strip("0"):
            return ("any",)
        return ("err",)
    return ("any",) if PYLT.fullmatch(s) else ("err",)


def splits(s):
    """(body, tz seconds | None) candidates"""
    out = [(s, None)]
    for n in (1, 6):
        if len(s) >= n:
            z = py_tz(s[-n:])
            if z is not None:
                out.append((s[:-n], z))
    return out


def tzs(z):
    return "-" if z is None else str(z)


def want_date(s):
    c = [((py_date(b)), b, z) for b, z in splits(s)]
    for k, b, z in c:
        if k == "ok":
            return ("ok", b, tzs(z))
    return None if any(k == "any" for k, _, _ in c) else ("err",)


def want_time(s):
    c = [(py_time(b), z) for b, z in splits(s)]
    for k, z in c:
        if k[0] == "ok":
            return ("ok", k[1], k[2], tzs(z))
    return None if any(k[0] == "any" for k, z in c) else ("err",)


def want_dt(s, need_tz):
    """RFC 3339 variants (lower case, blank separator, other minus, offsets beyond 14:00), year 0000 and leap seconds are unspecified"""
    m = re.fullmatch("([0-9]{4}-[0-9]{2}-[0-9]{2})[Tt ]([0-9]{2}:[0-9]{2}:[0-9]{2}(?:\\.[0-9]+)?)((?:[Zz]|[+\u2212-][0-9]{2}:[0-9]{2})?)", s, re.A)
    if not m:
        return ("err",)
    d, t = py_date(m.group(1)), py_time(m.group(2))
    if "err" in (d, t[0]):
        return ("err",)
    z = m.group(3)
    if z and z not in "Zz" and not (int(z[1:3]) < 24 and int(z[4:]) < 60):
        return ("err",)
    if not z and need_tz:
        return ("err",)
    if d == "any" or t[0] == "any" or s[10] != "T" or (z and py_tz(z) is None):
        return None
    return ("ok", m.group(1), t[1], t[2], str(py_tz(z) if z else 0))


def judge_parse(op, a, r):
    s = a[0].decode() if isinstance(a[0], bytes) else a[0]
    n = op[:-6]
    want = want_date(s) if n == "date" else want_time(s) if n == "time" else want_dt(s, n == "datetimestamp")
    if want is None:
        if r[0] in ("ok", "err"):
            return None
        want = ("no panic",)
    if r[:len(want)] != want:
        return "%s literal %r: expected %s, real code gave %s" % (n, s, want, r)


def n9_of(st, fr):
    """fraction rope (empty or .ddd) -> nine nanosecond digits (further digits cut off)"""
    out = []
    for s, e in st.split(fr, L.EPS):
        if e:
            out.append((s, (b"0" * 9,)))
            continue
        for s2, (_, f) in cutn(s, fr, [L.lit(b"."), D + D.star()]):
            for s3, big in s2.split(f, L.len_cmp(">=", 9)):
                if big:
                    out += [(s4, p[0]) for s4, p in cutn(s3, f, [L.power(D, 9), D.star()])]
                    continue
                rest = [s3]
                for k in range(1, 9):
                    nx = []
                    for t in rest:
                        for t2, y in t.split(f, L.len_cmp("==", k)):
                            if y:
                                out.append((t2, tuple(t2.rope(f)) + (b"0" * (9 - k),)))
                            else:
                                nx.append(t2)
                    rest = nx
    return out


def str_ne(s, got, want):
    """states where ropes differ; got None = unspecified by the library contract"""
    if got is None:
        raise Unsupported("value the library contract does not specify")
    return str_states_ne(s, got, want)


DESC = {
    "date": dict(ok=DATE + OTZ, loose=LOOSE_D + OTZ, body=DATE),
    "time": dict(ok=TIME + OTZ, loose=LOOSE_T + OTZ, body=TIME),
}


def spec(st, n, r):
    """meaning of the text: [(state, 'ok'|'any'|'err', parts)]"""
    out = []
    d = DESC[n]
    for s, o in st.split(r, d["ok"]):
        if not o:
            out += [(s2, "any" if l else "err", None) for s2, l in s.split(r, d["loose"])]
            continue
        for s2, (b, z) in cutn(s, r, [d["body"], OTZ]):
            if n == "date":
                out += [(s3, "ok", ((b,), zz)) for s3, zz in opt_tz_cases(s2, z)]
            else:
                for s3, (hms, fr) in cutn(s2, b, [HMS, OFR]):
                    for s4, n9 in n9_of(s3, fr):
                        out += [(s5, "ok", ((hms, n9), zz)) for s5, zz in opt_tz_cases(s4, z)]
    return out


def value_ne(E, s, got, ropes, z):
    got = E.expand(s, got)
    v = E.expand(s, got.f[0])
    bad = []
    for i, w in enumerate(ropes):
        bad += str_ne(s, v.d[i], w)
    return bad + opt_tz_ne(E, s, got.f[1], z)


def show(E, s, m, got):
    got = E.expand(s, got)
    v = E.expand(s, got.f[0])
    if v.d[0] is None:
        return ()
    return tuple(ev(s, m, x).decode() for x in v.d) + (ev_tz(E, s, m, got.f[1]),)


DATES = ["2020-02-29", "2019-02-28", "1900-02-28", "2000-02-29", "0001-01-01", "9999-12-31", "2021-04-30", "2020-02-02"]
BADD = ["2019-02-29", "1900-02-29", "2021-02-30", "2021-04-31", "2021-13-01", "2021-00-10", "2021-01-00", "2021-01-32", "0000-01-01", "0000-00-00", "999-01-01", "10000-01-01", "+10000-01-01", "-0044-03-15",
        "2021-1-1", "2021-01-1", "2021-1-01", "21-01-01", " 2021-01-01", "2021-01-01 ", "2021- 01-01", "2021-01", "2021", "", "-", "2021-01-01T00:00:00", "2021-01-01-", "2021--01-01", "20210101", "2021/01/01",
        "２０２１-01-01", "2021-٠١-01", "2021-01-é", "+2021-01-01", "-2021-01-01", "2021-01-01+", "2021-01-01++01:00", "+01:00", "Z", "--01-01"]
TIMES = ["00:00:00", "23:59:59", "04:40:00", "12:34:56.7", "12:34:56.789", "12:34:56.000001", "12:34:56.123456789", "12:34:56.1234567891", "00:00:00.0", "09:08:07.000"]
BADT = ["24:00:00", "24:00:01", "24:00:00.0", "23:60:00", "23:59:60", "23:59:60.5", "23:59:61", "12:34", "12", "", "1:02:03", "01:2:03", "01:02:3", " 01:02:03", "01:02:03 ", "01: 02:03", "12:34:56.", "12:34:56.x", ".5", "12:34:.5",
        "12.5:00:00", "12:34:56,5", "12:34:56..5", "12:34:56.5.5", "-1:02:03", "+1:02:03", "１2:00:00", "12:00:0é", "Z", "+01:00", "12:34:56++01:00", "12:34:56--01:00", "12:34:56+01:00-01:00", "12:34:56-01:00+01:00", "T12:34:56"]
