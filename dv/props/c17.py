import os
import shutil
import subprocess
import tempfile
from .gspec import *
from .pverify import FUNCS, verify_parser

LEVEL = "proof"
NOTE = "TupleStructGenerator::validation, gen_facet_validation and gen_validate_impl for every facet kind, every base type text and every facet value (lengths: every u32); compiled generated code on sample values and whole schemas are bounded."
VAL = L.UTF8 & L.byteset(set(range(32, 256)) - set(b'"\\{}\x7f')).star()
RANGE = {"MinInclusive": "<", "MaxInclusive": ">", "MinExclusive": "<=", "MaxExclusive": ">="}
LENS = {"Length": "!=", "MinLength": "<", "MaxLength": ">"}
NONE_ = ("Enumeration", "FractionDigits", "Pattern", "TotalDigits", "WhiteSpace")
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "!=": "=="}


def want_checks(facets, t):
    """(left, operator, right) of every condition under which validate reports an error"""
    out = []
    for k, v in facets:
        k = k[0].upper() + k[1:]
        if k in RANGE:
            out.append(("self.0", RANGE[k], '"%s".parse::<%s>().unwrap()' % (v, t)))
        elif k in LENS:
            n = int(v)
            if not (k == "MinLength" and n == 0):
                out.append(("self.0.len()", LENS[k], str(n)))
    return out


COND = re.compile(r'if(self\.0(?:\.len\(\))?)(<=|>=|!=|<|>)((?:"[^"]*"\.parse::<[^()]*>\(\)\.unwrap\(\))|[^{"]*)\{returnErr\(format!\("(?:[^"\\]|\\.)*"(?:,self\.0(?:\.len\(\))?)?,?\)\);?\}')


def checks_of(body):
    """conditions of a validate body, or None when the text has another shape"""
    t = re.sub(r"#\[allow\(clippy::len_zero\)\]", "", nows_code(body))
    m = re.fullmatch(r"fnvalidate\(&self\)->Result<\(\),String>\{(.*)Ok\(\(\)\)\}", t)
    if t == "":
        return []
    if not m:
        return None
    t, out = m.group(1), []
    while t:
        c = COND.match(t)
        if not c:
            return None
        out.append(c.groups())
        t = t[c.end():]
    return out


def nows_code(t):
    """white space removed outside string literals"""
    return "".join(p if i % 2 else re.sub(r"\s+", "", p) for i, p in enumerate(re.split(r'("(?:[^"\\]|\\.)*")', t)))


def impl_body(text):
    m = re.search(r"impl Validate for (\S+) \{(.*)\}\s*$", text, re.S)
    return m.groups() if m else None


# ------------------------------------------------------------------ compiled generated code
PRE = """#![allow(warnings)]
trait Validate { fn validate(&self) -> Result<(), String> { Ok(()) } }
"""
PRIM = ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f64", "String")


def compile_run(parts):
    """parts: [(generated tuple struct, name, Rust type, [value literals])] -> list of lists of accept/reject, or an error text"""
    d = tempfile.mkdtemp(prefix="c17.")
    try:
        src = PRE
        for i, (text, name, t, vals) in enumerate(parts):
            body = re.sub(r"#\[derive\([^\n]*\)\]\n", "", text)
            src += "mod m%d { use super::*;\n%s\npub fn go() { %s } }\n" % (i, body, " ".join('print!("{}", %s(%s).validate().is_ok() as u8);' % (name, v) for v in vals))
        src += "fn main() { %s }\n" % " ".join('m%d::go(); println!();' % i for i in range(len(parts)))
        open(d + "/m.rs", "w").write(src)
        p = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "-C", "debuginfo=0", "-o", d + "/m", d + "/m.rs"], capture_output=True, text=True, timeout=200, cwd=d)
        if p.returncode:
            return p.stderr[:1500]
        o = subprocess.run([d + "/m"], capture_output=True, text=True, timeout=60, cwd=d)
        if o.returncode:
            return "generated validation panics: " + o.stderr[:500]
        return [[c == "1" for c in l] for l in o.stdout.split("\n")[:len(parts)]]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def samples(facets, t):
    """(literal, is valid) around the facet values"""
    out = []
    if t == "String":
        ns = {0, 1, 2, 3}
        for k, v in facets:
            if k[0].upper() + k[1:] in LENS:
                if int(v) < 2000000:
                    ns |= {int(v) + d for d in (-1, 0, 1) if int(v) + d >= 0}
                if int(v) >= 400:
                    ns |= {255, 256, 65535, 65536, 70000}
        for n in sorted(ns):
            ok = all({"Length": n == int(v), "MinLength": n >= int(v), "MaxLength": n <= int(v)}[k] for k, v in facets if k in LENS)
            if not any(k in RANGE for k, v in facets):
                out.append(('"%s".to_string()' % ("x" * n) if n < 400 else '"x".repeat(%d)' % n, ok))
        return out
    f = float if t == "f64" else int
    lim = {"i8": (-128, 127), "u8": (0, 255), "i16": (-32768, 32767), "u16": (0, 65535), "i32": (-2**31, 2**31 - 1), "u32": (0, 2**32 - 1), "i64": (-2**63, 2**63 - 1), "u64": (0, 2**64 - 1), "f64": (-1e300, 1e300)}[t]
    vs = {f(0), f(1), lim[0], lim[1]}
    for k, v in facets:
        if k in RANGE:
            vs |= {f(v) - 1, f(v), f(v) + 1}
            if t == "f64":
                vs |= {f(v) + 0.25, f(v) - 0.25}
    for x in sorted(vs):
        if not lim[0] <= x <= lim[1]:
            continue
        ok = all({"MinInclusive": x >= f(v), "MaxInclusive": x <= f(v), "MinExclusive": x > f(v), "MaxExclusive": x < f(v)}[k] for k, v in facets if k in RANGE)
        out.append((repr(x) if t != "f64" else repr(x) + "f64", ok))
    return out


def semantic(text, name, facets, t, what):
    """generated validation of another shape than expected: compiled and tried on values around the facets"""
    vals = samples(facets, t) if t in PRIM else None
    if vals is None:
        return None             # cannot be instantiated here: not judged
    r = compile_run([(text, name, t, [v for v, _ in vals])])
    if isinstance(r, str):
        return "%s: generated validation does not compile or panics: %s" % (what, r)
    for (v, ok), got in zip(vals, r[0]):
        if ok != got:
            return "%s: value %s is %s, generated validation %s it" % (what, v, "valid" if ok else "not valid", "accepts" if got else "rejects")
    return None


def judge(op, a, r):
    if op == "ent":
        kind, v, tns, xsd = dec(a)
        v = usx(v)
        fs = [(k, x) for k, x in v[4]]
        if any(k in LENS and not (re.fullmatch(r"\+?[0-9]+", x, re.A) and int(x) < 1 << 32) for k, x in fs):
            return None
        if r[0] != "ok":
            return "no code for tuple %r: %s" % (v, r)
        t = py_modify(py_type(v[1], ns_prefix(tns), ns_prefix(xsd)), v[2])
        b = impl_body(out_text(r))
        got = checks_of(b[1]) if b else None
        if got == want_checks(fs, t):
            return None
        name = py_type(v[0], ns_prefix(tns), ns_prefix(xsd))
        return semantic(out_text(r), name, fs, t, "restriction %r with facets %r" % (v[1], fs))
    return schema_judge(a, r)


def schema_judge(a, r):
    text = dec(a)[0]
    e, g = ast_items(a, r)
    if isinstance(e, str):
        return e
    impls = {}

    def walk(j, mod):
        for i in j:
            if i["k"] == "mod":
                walk(i["i"], mod + (i["n"],))
            elif i["k"] == "impl" and i["tr"] == "Validate":
                impls["::".join(mod + (i["t"],))] = i["body"]
    walk(load(r), ())
    for i in e:
        b = impls.get(ikey(i))
        if b is None:
            return "no Validate implementation for %s in schema %s" % (ikey(i), text[:2000])
        want = want_checks(i["facets"], i["t"]) if i["k"] == "tuple" and not i["t"].startswith("Vec<") else []
        if i["k"] == "tuple" and i["t"].startswith("Vec<") and i["facets"]:
            continue
        got = checks_of(" ".join(b))
        if got != [(x, o, nows(y)) for x, o, y in want] and got != want:
            m = semantic("pub struct %s (pub %s);\nimpl Validate for %s { %s }" % (i["n"], i["t"], i["n"], " ".join(b)), i["n"], [(k[0].upper() + k[1:], v) for k, v in i["facets"]] if i["k"] == "tuple" else [],
                         i["t"] if i["k"] == "tuple" else "String", "type %s of schema %s" % (ikey(i), text[:2000])) if i["k"] == "tuple" else "validation of %s: expected none, generated %r, in schema %s" % (ikey(i), got, text[:2000])
            if m:
                return m
    return None


def run(cx):
    E = cx.E
    ws = enumv(E, "xsd_parser::parser::xsd_elements::WhiteSpace", "Collapse")

    def facet(k, rope):
        return adt(E, PT + "Facet", facet_type=enumv(E, "xsd_parser::parser::xsd_elements::FacetType", k, ws if k == "WhiteSpace" else StringV(rope)))

    def group(kinds, mods, tk="p"):
        def build(st, g):
            g["n"], g["t"] = st.atom_rope(NAME, "name"), st.atom_rope(NAME, "type")
            g["v"] = [st.atom_rope(L.DIG + L.DIG.star() if k in LENS else VAL, "value%d" % i) for i, k in enumerate(kinds)]
            return adt(E, PT + "TupleStruct", name=StringV(g["n"]), type_name=StringV(g["t"]), type_modifiers=mod_vec(E, mods), facets=VecV(tuple(facet(k, v) for k, v in zip(kinds, g["v"]))))

        def post(s, r, g):
            t = lookup(s, "tyname", g["t"])
            b = impl_body(skel(s, r))
            n = lookup(s, "tyname", g["n"])
            yield "for-the-type", [] if b and n is not None and b[0] == skel(s, n) else [s]
            want = []
            bad = []
            got = checks_of(b[1]) if b else None
            if got is None or t is None:
                yield "conditions", [s]
                return
            ty = py_modify(skel(s, t), mods)
            i = 0
            for k, v in zip(kinds, g["v"]):
                if k in NONE_:
                    continue
                c = got[i] if i < len(got) else None
                if k in RANGE:
                    if c != ("self.0", RANGE[k], '"%s".parse::<%s>().unwrap()' % (skel(s, v), nows(ty))):
                        bad = [s]
                    i += 1
                    continue
                num = s.dec(v)
                if k == "MinLength" and (c is None or c[0] != "self.0.len()" or c[1] != "<"):
                    bad += [x for x, z in s.branch(cmp("!=", num, 0)) if z]
                    continue
                if c is None or c[:2] != ("self.0.len()", LENS[k]):
                    bad = [s]
                else:
                    rr = num_rope(s, c[2], r)
                    bad += [s] if rr is None else ne_states(s, rr, num)
                i += 1
            if i != len(got):
                bad = [s]
            yield "conditions", bad
        verify_facets(cx, "validation[%s%s]" % ("+".join(kinds) or "none", "," + mods if mods else ""), tk, build, post, kinds,
                      lambda g, e: [e(g["n"]), e(g["t"]), mods, None, [[k, e(v)] for k, v in zip(kinds, g["v"])]])
    group((), "")
    for k in list(RANGE) + list(NONE_) + list(LENS):
        group((k,), "")
        group((k,), "A")
    for ks in (("MinInclusive", "MaxInclusive"), ("MinExclusive", "MaxExclusive"), ("MaxInclusive", "Pattern", "MinExclusive"), ("WhiteSpace", "MaxExclusive"), ("MinLength", "MaxLength"), ("Length", "Pattern"), ("Pattern", "TotalDigits", "FractionDigits", "Enumeration")):
        group(ks, "")

    any_facets(cx)

    # generated code compiled and run
    parts, meta = [], []
    types = {"i8": "xs:byte", "u8": "xs:unsignedByte", "i32": "xs:int", "u64": "xs:unsignedLong", "f64": "xs:double", "String": "xs:string", "i64": "xs:long", "u16": "xs:unsignedShort"}
    for t, x in types.items():
        fl = [[(k, v)] for k in LENS for v in ("0", "1", "3", "17", "007", "+2", "256", "65536", "100000", "4294967295")] + [[("MinLength", "2"), ("MaxLength", "5")], [("MaxLength", "3"), ("Pattern", "[a-z]+")], [("Pattern", "x"), ("MinLength", "1")]] if t == "String" else \
            [[(k, v)] for k in RANGE for v in (("0", "1", "5", "100") + (("-7", "-1") if t[0] != "u" else ()) + (("2.5", "-1e3", "1E2") if t == "f64" else ()))] + \
            [[("MinInclusive", "2"), ("MaxInclusive", "5")], [("MinExclusive", "2"), ("MaxExclusive", "9")], [("MaxInclusive", "9"), ("MinExclusive", "3"), ("TotalDigits", "2")], [("MinInclusive", "4"), ("MaxExclusive", "4")], [("FractionDigits", "0"), ("MinInclusive", "1"), ("WhiteSpace", "")]]
        for fs in fl + [[]]:
            args = ["tuple", sx(["Lim", x, "", None, [list(f) for f in fs]]), "-", "pxs urn:x"]
            r = cx.rp("ent", args)
            vals = samples(fs, t)
            cx.bounded["evaluations"] += 1
            cx.bounded["distinct"].add(("ent",) + tuple(args))
            if r[0] != "ok":
                cx.violation("bounded/validation", "no code for facets %r of %s" % (fs, x), ("ent", args), r, True)
                continue
            parts.append((out_text(r), "Lim", t, [v for v, _ in vals]))
            meta.append((args, fs, x, vals, r))
    cx.bounded["rules"].append("generated validation of %d restrictions compiled with rustc and run on values at and next to every facet value" % len(parts))
    res = compile_run(parts)
    if isinstance(res, str):
        for p, m in zip(parts, meta):
            x = compile_run([p])
            if isinstance(x, str):
                cx.violation("bounded/validation", "generated validation for facets %r of %s does not compile or panics: %s" % (m[1], m[2], x), ("ent", m[0]), m[4], True)
                break
    else:
        for m, row in zip(meta, res):
            for (v, ok), got in zip(m[3], row):
                if ok != got:
                    cx.violation("bounded/validation", "facets %r of %s: value %s is %s, generated validation %s it" % (m[1], m[2], v, "valid" if ok else "not valid", "accepts" if got else "rejects"), ("ent", m[0]), m[4], True)
                    break

    def cases():
        vals = {"xs:int": ["0", "-5", "2147483647"], "xs:decimal": ["0.5", "-3", "100000000000000000000.01"], "xs:date": ["2020-01-01"], "xs:double": ["1e3", "INF"], "xs:string": ["a", "zz"], "tt:Other": ["7"], "xs:integer": ["10", "-99999999999999999999"]}
        for b, vs in vals.items():
            for k in ("minInclusive", "maxInclusive", "minExclusive", "maxExclusive"):
                for v in vs:
                    yield "ast", [schema_of('<xs:simpleType name="Lim"><xs:restriction base="%s"><xs:%s value="%s"/></xs:restriction></xs:simpleType><xs:simpleType name="Other"><xs:restriction base="xs:int"><xs:totalDigits value="3"/></xs:restriction></xs:simpleType>' % (b, k, v))]
        for k in ("length", "minLength", "maxLength"):
            for v in ("0", "1", "2", "64", "255", "65536", "4294967295", "007"):
                for b in ("xs:string", "xs:NMTOKENS", "tt:Other", "xs:hexBinary"):
                    yield "ast", [schema_of('<xs:simpleType name="Lim"><xs:restriction base="%s"><xs:%s value="%s"/></xs:restriction></xs:simpleType>' % (b, k, v))]
        fs = ['<xs:minInclusive value="1"/>', '<xs:maxInclusive value="9"/>', '<xs:minExclusive value="0"/>', '<xs:maxExclusive value="10"/>', '<xs:pattern value="[0-9]+"/>', '<xs:totalDigits value="4"/>', '<xs:whiteSpace value="collapse"/>', '<xs:fractionDigits value="2"/>']
        for i in range(len(fs)):
            for j in range(len(fs)):
                if i != j:
                    yield "ast", [schema_of('<xs:annotation/><xs:simpleType name="Lim"><xs:restriction base="xs:int">%s%s</xs:restriction></xs:simpleType><xs:element name="el"><xs:simpleType><xs:restriction base="xs:long">%s<!-- c -->%s</xs:restriction></xs:simpleType></xs:element>'
                                            '<xs:complexType name="Ct"><xs:sequence><xs:element name="in"><xs:simpleType><xs:restriction base="xs:short">%s%s</xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType>' % (fs[i], fs[j], fs[j], fs[i], fs[i], fs[j]))]
        yield "ast", [schema_of('<xs:simpleType name="Lim"><xs:restriction base="xs:int">%s</xs:restriction></xs:simpleType>' % "".join(fs))]
        for n in (3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 64, 100, 130, 257):
            pats = "".join('<xs:pattern value="[a-z]{%d}"/>' % i for i in range(n))
            yield "ast", [schema_of('<xs:simpleType name="Lim"><xs:restriction base="xs:int">%s%s%s</xs:restriction></xs:simpleType>' % (pats, fs[0], fs[1]))]
            yield "ast", [schema_of('<xs:simpleType name="Lim"><xs:restriction base="xs:string"><xs:minLength value="3"/>%s<xs:maxLength value="9"/></xs:restriction></xs:simpleType>' % pats)]
    # the parser functions behind it, for every node of every document
    verify_parser(cx, list(FUNCS), "ast", judge)
    cx.sweep("schemas with every facet, pairs of facets, and facets inside elements and nested types", cases(), judge)
    cx.sweep("600 random schemas: conditions of every validation", corpus(600, 17), judge)


def facetv(E, st, a, fn):
    """text of one facet's check: opaque, with the arguments it was asked with (contract of gen_facet_validation, proved per kind above)"""
    out = []
    for lg in (L.UTF8 - L.EPS, L.EPS):
        s = st.fork()
        r = s.atom_rope(lg, "facet")
        s.ghost["facet"] = s.ghost.get("facet", ()) + ((E.expand(s, E.deref(s, a[0])), r),)
        s.ghost["facetargs"] = s.ghost.get("facetargs", ()) + ((rope_of(E, s, a[1]), rope_of(E, s, a[2])),)
        out.append((s, "ret", Adt(None, 1, (StringV(r),))))
    return out


def any_facets(cx):
    """restrictions with any number of facets: the checks of all of them, in order, are the body of validate"""
    E = cx.E

    def mk():
        st = State()
        tns, tp, tu = sym_ns(st, "p", "tns")
        g = {"tp": tp, "tu": tu, "n": st.atom_rope(NAME, "name"), "t": st.atom_rope(NAME, "type")}

        def gen(E_, s):
            s = s.fork()
            return [(s, E.ref(s, adt(E, PT + "Facet", facet_type=enumv(E, "xsd_parser::parser::xsd_elements::FacetType", "MaxInclusive", StringV(s.atom_rope(VAL, "value"))))))]
        return st, [adt(E, PT + "TupleStruct", name=StringV(g["n"]), type_name=StringV(g["t"]), facets=Opq("abslist", gen)), opt_ns(tns), some(NSX)], g

    def post(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k != "ret":
            return
        r = E.expand(s, v).r
        t, n, b = lookup(s, "tyname", g["t"]), lookup(s, "tyname", g["n"]), impl_body(skel(s, r))
        yield "for-the-type", [] if b and n is not None and b[0] == skel(s, n) else [s]
        j = joined_ok(s, "facet", b"")
        ok = j is not None and b is not None and t is not None
        for _, _, outs in s.ghost.get("joined", ()) if ok else ():
            for q, x in outs:
                for a, ty in q.ghost.get("facetargs", ()):
                    ok = ok and q.const_str(a) == b"0" and skel(q, ty) == skel(s, t)
        yield "conditions", [] if ok and nows(b[1]) in ("", "fnvalidate(&self)->Result<(),String>{%sOk(())}" % nows(skel(s, j))) and (b[1].strip() or len(s.rope(j)) == 0) else [s]

    def conc(s, m, g):
        fs = [["Pattern", "[a-z]"], ["MaxInclusive", "12345"], ["MinInclusive", "3"]] + [["Enumeration", str(i)] for i in range(20)] + [["MaxExclusive", "77"], ["MinExclusive", "5"], ["TotalDigits", "4"], ["MaxInclusive", "70"]]
        return "ent", ["tuple", sx([ev(s, m, g["n"]), ev(s, m, g["t"]), "", None, fs]), ns_conc(s, m, "p", g["tp"], g["tu"]), "-"]
    old = E.contracts
    with using(E), abstracting(E, (UTF8,)):
        E.contracts = dict(E.contracts, **{"xsd_parser::generator::validator::gen_facet_validation": facetv})
        cx.verify("validation[any number of facets]", "r_gen_tuple", mk, post, conc, judge, pred=UNC, budget=60, clauses=("no-panic", "for-the-type", "conditions"))
    E.contracts = old


def num_rope(s, txt, r):
    """the number printed at this place of the generated text"""
    if re.fullmatch(r"[0-9]+", txt):
        return int(txt)
    for p in s.rope(r):
        if not isinstance(p, bytes) and SK.get(p) == txt:
            return s.dec((p,))
    return None


def verify_facets(cx, name, tk, build, post, kinds, sexpr):
    E = cx.E

    def mk():
        st = State()
        tns, tp, tu = sym_ns(st, tk, "tns")
        g = {"tp": tp, "tu": tu}
        v = build(st, g)
        for k, x in zip(kinds, g["v"]):
            if k in LENS:
                st, = st.assume(cmp("<", st.dec(x), 1 << 32))
        return st, [v, opt_ns(tns), some(NSX)], g

    def post2(s, k, v, g):
        yield "no-panic", [s] if k != "ret" else []
        if k == "ret":
            yield from post(s, E.expand(s, v).r, g)

    def conc(s, m, g):
        return "ent", ["tuple", sx(sexpr(g, lambda r: None if r is None else ev(s, m, r))), ns_conc(s, m, tk, g["tp"], g["tu"]), "-"]
    with using(E):
        cx.verify(name, "r_gen_tuple", mk, post2, conc, judge, pred=UNC, budget=60, clauses=("no-panic", "for-the-type", "conditions"))
