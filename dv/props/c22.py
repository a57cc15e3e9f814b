from .dcontracts import *
from .pverify import FUNCS, verify_parser
from .c21 import xesc, rsplit, GOOD, INTS, BAD
import random

LEVEL = "proof"
NOTE = "YaDeserialize and YaSerialize of unions of one to twenty members, for every text, with the members' reading and printing opaque; outcomes on real member types, and the unions generated for schemas, by a bounded sweep."
# members of the instances (replay/src/inst.rs): variant and the type read
U = {"u1": [("Num", "i32"), ("List", "v_i32"), ("Flag", "bool"), ("Text", "str")], "u2": [("Small", "u8"), ("Big", "i32"), ("Flag", "bool")], "u3": [("Only", "u8")],
     "u4": [("A", "u8"), ("B", "v_i32"), ("C", "integer"), ("D", "date"), ("E", "v_str"), ("F", "str")], "u5": [("Str", "str"), ("Num", "i32")], "u6": [("X", "i64"), ("Y", "u64"), ("Z", "f64"), ("W", "decimal")],
     "u7": [("Flag", "bool"), ("A1", "u8"), ("A2", "i8"), ("A3", "u16"), ("A4", "i16"), ("A5", "u32"), ("A6", "i32"), ("A7", "u64"), ("A8", "i64"), ("Fl", "f64"), ("Dec", "decimal"), ("Int", "integer"), ("Dat", "date"), ("LBool", "v_bool"),
            ("LInt", "v_i32"), ("LU64", "v_u64"), ("LFlo", "v_f64"), ("LDat", "v_date"), ("Again", "i32"), ("Last", "v_str")],
     "u8_": [("Unknown", "u8"), ("UnknownText", "bool"), ("__Unknown", "i32"), ("_Unknown_", "i64"), ("Unknown__", "v_bool"), ("unknown", "date")]}
RUST = {"i32": "i32", "u8": "u8", "bool": "bool", "i64": "i64", "u64": "u64", "f64": "f64", "decimal": "Decimal", "str": "String", "integer": "Integer", "date": "Date"}
# members that are wrappers of the type, not the type itself
WRAP = {"u1": {"i32", "v_i32"}, "u3": {"u8"}, "u4": {"u8", "v_i32", "integer", "date", "v_str", "str"},
        "u7": {"decimal", "integer", "date", "v_bool", "v_i32", "v_u64", "v_f64", "v_date", "v_str"}, "u8_": {"v_bool", "date"}}


def reader(u, t):
    """function that reads a member of type t"""
    if t in WRAP.get(u, ()):
        return "<dvharness::inst::%s::T as std::str::FromStr>::from_str" % (t if t[:2] == "v_" else "w_" + t)
    return {"bool": "<bool as std::str::FromStr>::from_str", "str": None, "decimal": "<xsd_types::types::Decimal as std::str::FromStr>::from_str", "f64": "core::num::float_parse::<impl std::str::FromStr for f64>::from_str"}.get(t, "core::num::<impl std::str::FromStr for %s>::from_str" % t)


def judge(op, a, r):
    a = dec(a)
    if op == "ast":
        return compare(a, r, proj, "union")
    u = a[0]
    un = lambda x: x if x == "!" else bytes.fromhex(x).decode()
    if r[0] != "ok":
        return "%s %r: %s" % (u, a, r)
    f = [un(x) for x in r[1:]]
    bad = [x == "!" for x in r[1:]]
    if bad[0]:
        return "element %r is rejected by union %s" % (a[1], u)
    for k in range(len(U[u])):
        if not bad[2 + 2 * k]:
            if f[0] != f[3 + 2 * k]:
                return "union %s reads %r as %s; its first member that accepts the text gives %s" % (u, a[2], f[0], f[3 + 2 * k])
            want = '<?xml version="1.0" encoding="utf-8"?><T>%s</T>' % xesc(f[2 + 2 * k])
            return None if f[1] in (want, want.replace("<T></T>", "<T />")) else "union %s %s is written as %r, expected %r" % (u, f[0], f[1], want)
    return None if f[0] == f[-1] else "union %s reads %r as %s; no member accepts it" % (u, a[2], f[0])


def proj(i, exp):
    if i["k"] != "enum" or (i["src"] != "U" if exp else "UtilsUnionSerDe" not in i["der"]):
        return None
    if not exp and (i["v"][-1]["n"], i["v"][-1]["t"]) != ("__Unknown__", "String"):
        return ikey(i), "no catch-all at the end"
    return ikey(i), [(v["n"], nsq(v["t"])) for v in fields_of(i)]


def nsq(t):
    return None if t is None else nows(t)


def contracts(cx, u):
    E = cx.E
    ms = U[u]
    ty = lambda: E.type_by_name("inst::%s::T" % u)

    def variant(v):
        vs = E.T(ty())["v"]
        return next(i for i, x in enumerate(vs) if x["n"] == v)

    def reads(s, v, t):
        if v.var != 0:
            return False
        v, inner = E.expand(s, v.f[0]), list(s.ghost.get("inner", ()))
        for n, m in ms:
            rd = reader(u, m)
            if rd is None:      # text accepts everything
                return not inner and v.var == variant(n) and same(s, E.expand(s, v.f[0]).r, t)
            if not inner or inner[0][0] != rd or not same(s, inner[0][1], t):
                return False
            x = inner.pop(0)
            if x[2]:
                return not inner and v.var == variant(n) and E.expand(s, v.f[0]) == x[3]
        return not inner and v.var == variant("__Unknown__") and same(s, E.expand(s, v.f[0]).r, t)

    def mk():
        st = State()
        return st, [E.ref(st, Opq("deserializer", ()))], {}

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield "first-accepting-member", [] if read_event(E, s, v, reads) else [s]
    sam = {"str": "text", "bool": "true", "date": "2020-01-01", "v_i32": "1 2", "v_str": "a b", "v_bool": "true false", "v_u64": "1 9999999999", "v_f64": "1 2.5", "v_date": "2020-01-01 2020-01-02"}
    with abstracting(E, (UTF8,)), opaque(E, u):
        cx.verify(u + "::deserialize", "inst::%s::r_de" % u, mk, post, lambda s, w, g: ("serde", [u, *as_element(E, s, w, "1 2")]), judge, pred=UNC, budget=30, clauses=("no-panic", "first-accepting-member"))
        for n, m in ms:
            for named in (True, False):
                for skip in (True, False):
                    def mk():
                        st = State()
                        x = StringV(st.atom_rope(UTF8, "v")) if reader(u, m) is None else Opq("val", ("inner", st.new_atom(UTF8, "v")))
                        g = {"v": x, "n": st.atom_rope(NAME, "start") if named else None}
                        st.ghost["startname"], st.ghost["skip"] = g["n"], skip
                        return st, [E.ref(st, Adt(ty(), variant(n), (x,))), E.ref(st, Opq("serializer", ()))], g

                    def post(s, k, v, g):
                        yield "no-panic", [s] if k != "ret" else []
                        if k == "ret":
                            yield "writes-the-member", [] if written(E, s, v, g, skip, lambda s, r: same(s, r, print_of(s, g["v"]))) else [s]
                    t = sam.get(m, "7")
                    cx.verify("%s::%s::serialize[%s,%s]" % (u, n, "named" if named else "default name", "inner" if skip else "element"), "inst::%s::r_ser" % u, mk, post,
                              lambda s, w, g, t=t: ("serde", [u, "<a>%s</a>" % t, t]), judge, pred=UNC, budget=30, clauses=("no-panic", "writes-the-member"))


def schemas(n):
    r = random.Random(22)
    names = ["Alpha", "beta", "gamma-x", "Delta", "eps"]
    for i in range(n):
        tys = r.sample(names, r.randrange(1, 4))
        body = []
        for t in tys:
            k = r.random()
            if k < .4:
                body.append('<xs:simpleType name="%s"><xs:restriction base="xs:%s"/></xs:simpleType>' % (t, r.choice(["int", "string", "date"])))
            elif k < .7:
                body.append('<xs:simpleType name="%s"><xs:list itemType="xs:%s"/></xs:simpleType>' % (t, r.choice(["int", "token", "boolean"])))
            else:
                body.append('<xs:simpleType name="%s"><xs:restriction base="xs:string"><xs:enumeration value="A1"/><xs:enumeration value="b2"/></xs:restriction></xs:simpleType>' % t)
        pool = ["tt:" + t for t in tys] + ["xs:int", "xs:boolean", "xs:string", "xs:date", "xs:unsignedByte", "xs:decimal"]
        mem = r.sample(pool, r.randrange(0, min(5, len(pool)) + 1))
        inner = "".join('<xs:simpleType><xs:restriction base="xs:%s"/></xs:simpleType>' % r.choice(["int", "string", "token"]) for _ in range(r.choice((9, 11, 15, 30)) if i % 7 == 5 else r.choice((0, 0, 1, 2)) if mem else r.choice((1, 2))))
        sep = r.choice([" ", " ", "  ", "\n      "])
        if i % 9 == 8:
            # unions with many members
            more = ["m%d" % j for j in range(r.randrange(6, 45))]
            body += ['<xs:simpleType name="%s"><xs:restriction base="xs:%s"/></xs:simpleType>' % (t, r.choice(["int", "string", "date"])) for t in more]
            mem += ["tt:" + t for t in more]
        at = ' memberTypes="%s"' % sep.join(mem) if mem else ""
        body.append('<xs:simpleType name="Un">%s<xs:union%s>%s</xs:union></xs:simpleType>' % (r.choice(["", "<xs:annotation><xs:documentation>doc</xs:documentation></xs:annotation>"]), at, inner))
        r.shuffle(body)
        yield "ast", [schema_of("".join(body), "xs", "tt")]


def run(cx):
    cx.vary_on = True
    for u in U:
        contracts(cx, u)
    r = random.Random(220)
    pool = sorted({x for v in GOOD.values() for x in v} | set(INTS) | set(BAD) | {"1 2", "1 x", "a b", "2020-01-01 2020-01-02", "1 2.5", "1 9999999999", "true false", "0 1", "300", "-3", "-300", "70000", "-70000", "5000000000", "-5000000000", "99999999999999999999", "true", "false", "2020-02-29", "2020-02-30", "0", "-0", "0.0", "é", "1 2 3"} | {a + x + b for x in ("5", "true", "-7", "2020-02-29", "7 8") for a in ("", "\u00a0", "\u2003", "\u3000", "0", "+") for b in ("", "\u00a0", "\u2028", "\u3000")} | {"True", "TRUE", "FALSE", "yes", "5.0", "1e3", "٣", "５", "0x5", "5u8"})

    def xml():
        for u in U:
            for t in pool + [r.choice(pool) + r.choice([" ", "", "-"]) + r.choice(pool) for _ in range(60 if cx.tier == "quick" else 3000)]:
                w = t.strip(" \t\r\n")
                yield "serde", [u, "<a>%s</a>" % xesc(t), w]
    cx.vary_on = False
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("valid and invalid texts of every member type through unions of one to twenty members: value read, document written", xml(), judge)
    cx.sweep("random union declarations: alternatives, in order, and the catch-all", schemas(400 if cx.tier == "quick" else 6000), judge)
