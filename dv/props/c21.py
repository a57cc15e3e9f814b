from .dcontracts import *
import random

LEVEL = "proof"
NOTE = "FromStr, Display, YaSerialize and YaDeserialize of one wrapper and one list type per type of the mapping, for every text and any number of items, with the inner type opaque; outcomes on real inner types by a bounded sweep."
INST = "w_str w_bool w_i8 w_u8 w_i16 w_u16 w_i32 w_u32 w_i64 w_u64 w_f64 w_integer w_decimal w_date w_time w_datetime w_datetimestamp w_duration w_nonneg w_pos w_nonpos w_neg w_nest w_nest2 w_nestv".split()
LISTS = "v_str v_bool v_i8 v_u8 v_i16 v_u16 v_i32 v_u32 v_i64 v_u64 v_f64 v_integer v_decimal v_date v_datetime v_duration v_nonneg v_pos v_nest v_nest2".split()
GOOD = {"str": ["plain", "two words", "<&>\"'", "é😀"], "bool": ["true", "false"], "f64": ["1.5", "-0", "1e300", "INF"], "date": ["2020-02-29", "1999-12-31Z", "2020-01-01-05:30"],
        "time": ["00:00:00", "23:59:59.125Z"], "datetime": ["2020-02-29T10:00:00", "1999-12-31T23:59:59Z"], "datetimestamp": ["2020-02-29T10:00:00Z", "2020-02-29T10:00:00+05:30"],
        "duration": ["P1Y2M3DT4H5M6S", "-PT0.5S"], "decimal": ["1.50", "-3", "0"], "nonpos": ["0", "-7"], "neg": ["-1", "-99999999999999999999"], "nestv": ["1 2", ""], "nest2": ["7", "-7"], "nest": ["7", "0"], "integer": ["-5", "123456789012345678901234567890"]}
INTS = ["0", "1", "7", "100", "127", "128", "-1", "-128", "255", "256", "32767", "65535", "65536", "-32768", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
        "-9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999"]
BAD = ["x", "", "1x", "1,2", "true", "1.5", "-", "+1", "00", "TRUE", "NaN"]
SEP = [" ", "  ", "\t", "\n", "\r\n", " \t \n"]


def xesc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;")


def judge(op, a, r):
    a = dec(a)
    m = a[0]
    un = lambda x: x if x == "!" else bytes.fromhex(x).decode()
    if r[0] != "ok":
        return "%s %r: %s" % (op, a, r)
    if op == "vitems":
        t, x, want = un(r[1]), un(r[2]), " ".join(a[1:])
        if t != want:
            return "%s of %r prints %r" % (m, a[1:], t)
        doc = '<?xml version="1.0" encoding="utf-8"?><T>%s</T>' % xesc(want)
        return None if x in (doc, doc.replace("<T></T>", "<T />")) else "%s of %r is written as %r" % (m, a[1:], x)
    if op == "tuple":
        t, d, back, inner = un(r[1]), un(r[2]), r[3], [un(x) for x in r[4:]]
        # an empty text and an error differ in the raw field
        bad = [x == "!" for x in r[4:]]
        if m.startswith("v_"):
            want = None if any(bad) else " ".join(inner)
            if len(inner) != len(rsplit(a[1])):
                return "reading %r as %s looks at %d items" % (a[1], m, len(inner))
        else:
            want = None if bad[0] else inner[0]
        if (r[1] == "!") != (want is None):
            return "%r is %s as %s although its items are %r" % (a[1], "rejected" if r[1] == "!" else "accepted", m, inner)
        if want is not None and t != want:
            return "%r read as %s prints %r, its items print %r" % (a[1], m, t, inner)
        if want is not None and back != "same" and "NaN" not in t:
            return "%r read as %s prints %r, which reads as another value (%s)" % (a[1], m, t, back)
        return None
    d, x, t, d2 = un(r[1]), un(r[2]), un(r[3]), un(r[4])
    if (r[1] == "!") != (r[3] == "!"):
        return "element with text %r is %s as %s, the text alone is %s" % (a[2], d, m, d2)
    if r[1] == "!":
        return None
    if d != d2:
        return "element with text %r is read as %s, the text alone as %s" % (a[2], d, d2)
    want = '<?xml version="1.0" encoding="utf-8"?><T>%s</T>' % xesc(t)
    return None if x == want or x == want.replace("<T></T>", "<T />") else "%s %s is written as %r, expected %r" % (m, d, x, want)


def rsplit(t):
    return [w for w in re.split("[\t-\r \x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+", t) if w]


def sample(m):
    k = m[2:]
    g = GOOD.get(k) or INTS[:4]
    return g[0] if m[:2] == "w_" else " ".join(x for x in g[:2] if " " not in x)


def contracts(cx, m):
    E = cx.E

    def mk():
        st = State()
        a = st.atom_rope(UTF8, "s")
        return st, [SRef(a)], {"s": a}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield "reads-as-its-items", [] if read_ok(E, s, v, g["s"], m) else [s]
    with abstracting(E, (UTF8,), (b" ", b"\n", b"\t", b",")), opaque(E, m):
        cx.verify(m + "::from_str", "inst::%s::r_parse" % m, mk, post, lambda s, w, g: ("tuple", [m, ev(s, w, g["s"])]), judge, pred=UNC, budget=30, clauses=("no-panic", "reads-as-its-items"))

        def mk():
            st = State()
            v, x = value(E, st, m)
            return st, [E.ref(st, v)], {"v": x}

        def prints(s, r, g):
            return listed(s, r) if m.startswith("v_") else same(s, r, print_of(s, g["v"]))

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "prints-its-items", [] if prints(s, E.expand(s, v).r, g) else [s]
        cx.verify(m + "::fmt", "inst::%s::r_print" % m, mk, post, lambda s, w, g: ("vitems", [m, "x", "", "y"]) if m in ("v_str", "v_nest2") else ("tuple", [m, sample(m)]), judge, pred=UNC, budget=30, clauses=("no-panic", "prints-its-items"))
        for named in (True, False):
            for skip in (True, False):
                def mk():
                    st = State()
                    v, x = value(E, st, m)
                    n = st.atom_rope(NAME, "start") if named else None
                    st.ghost["startname"], st.ghost["skip"] = n, skip
                    return st, [E.ref(st, v), E.ref(st, Opq("serializer", ()))], {"v": x, "n": n}

                def post(s, k, v, g):
                    yield "no-panic", [s] if k != "ret" else []
                    if k == "ret":
                        yield "writes-its-text", [] if written(E, s, v, g, skip, lambda s, r: prints(s, r, g)) else [s]
                cx.verify("%s::serialize[%s,%s]" % (m, "named" if named else "default name", "inner" if skip else "element"), "inst::%s::r_ser" % m, mk, post,
                          lambda s, w, g: ("serde", [m, "<a>%s</a>" % xesc(sample(m)), sample(m)]), judge, pred=UNC, budget=30, clauses=("no-panic", "writes-its-text"))

        def mk():
            st = State()
            return st, [E.ref(st, Opq("deserializer", ()))], {}

        def post(s, k, v, g):
            yield "no-panic", [s] if k != "ret" else []
            if k == "ret":
                yield "reads-the-text", [] if read_event(E, s, v, lambda s, v, t: read_ok(E, s, v, t, m)) else [s]
        cx.verify(m + "::deserialize", "inst::%s::r_de" % m, mk, post, lambda s, w, g: ("serde", [m, *as_element(E, s, w, sample(m))]), judge, pred=UNC, budget=30, clauses=("no-panic", "reads-the-text"))


def texts(m, r, n):
    k = m[2:]
    pool = GOOD.get(k, INTS) + INTS[:3] + BAD
    if m[:2] == "w_":
        for t in pool + [" 1", "1 ", "\t1", " " + sample(m), sample(m) + " ", "1 2"] + ["\u00a01", "1\u00a0", "\u30001", sample(m) + "\u2003", "\u2028" + sample(m), sample(m) + "\n1", sample(m) + "\n\n", sample(m).upper(), sample(m) + "\u0301"]:
            yield t
        return
    yield from ("", " ", "\n\t ")
    items = [x for x in pool if x and " " not in x]
    good = [x for x in (GOOD.get(k) or INTS[:4]) if x and " " not in x]
    for i in range(n):
        xs = [r.choice(good) if r.random() < .8 else r.choice(items) for _ in range(r.randrange(0, 7))]
        if i % 2 == 0:
            xs = [r.choice(good) for _ in xs]
        t = r.choice(["", "", " ", "\n"])
        for x in xs:
            t += x + r.choice(SEP if r.random() < .5 else [" ", " ", "\u3000", "\u0085", "\u000b"])
        yield t if r.random() < .5 else t.rstrip()


def run(cx):
    cx.vary_on = True
    for m in INST + LISTS:
        contracts(cx, m)
    n = 60 if cx.tier == "quick" else 3000
    r = random.Random(21)
    cx.sweep("valid, boundary and malformed texts of every wrapper and list type: outcome, printed form, reading back", (("tuple", [m, t]) for m in INST + LISTS for t in texts(m, r, n)), judge)

    def items():
        pool = ["", "a", "b", " ", "two words", "é", "1", "a", "-"]
        for m in ("v_str", "v_nest2"):
            for i in range(120):
                yield "vitems", [m] + [r.choice(pool) for _ in range(i % 7)]
    cx.sweep("lists built from any items, empty ones and ones with spaces included: printed and written form", items(), judge)

    def xml():
        for m in INST + LISTS:
            for t in texts(m, r, n // 4):
                w = t.replace("\r\n", "\n").strip(" \t\n\r")
                if "\x0b" in t or "\x85" in t:
                    continue
                for el in ("<a>%s</a>", "<p:a xmlns:p='urn:x'>%s</p:a>", "<a><![CDATA[%s]]></a>"):
                    if "CDATA" in el and not w:
                        continue
                    yield "serde", [m, el % (t if "CDATA" in el else xesc(t)), w]
    cx.sweep("the same texts as elements: value read, document written", xml(), judge)
