"""The command-line tools: what they read, what they write and when they fail."""
from contextlib import contextmanager
import os
import random
import shutil
import subprocess
import tempfile
from .gspec import *
from .clicontracts import *
from .c20 import Gen, W
from .gspec import schemas
from .. import check, engine
from ..check import Undecided, build

LEVEL = "proof"
NOTE = "main, process_dir and process_single_file of both tools over symbolic paths, file contents and failures: events on files are exactly those of the property; directories with any number of entries by induction. The library functions they call are contracts here. Bounded: both tools run on scratch directories against the library."

TRUNC = frozenset(("write", "create", "truncate"))


# ------------------------------------------------------------------ running the tools
class Tools:
    """replay of cases on the real tools: op "cli" (tool, JSON of the case); everything else goes to the replay binary"""

    def __init__(self, rp):
        self.rp, self.dir, self.why = rp, None, None
        self.p, self.path = None, rp.path

    def bins(self):
        if self.dir is None and self.why is None:
            try:
                self.dir = build("cli")
            except Undecided as e:
                self.why = str(e)
        return self.dir

    def __call__(self, op, a):
        if op != "cli":
            return self.rp(op, a)
        c = json.loads(a[1])
        d = tempfile.mkdtemp(prefix="dvcli")
        try:
            for f, t in c["files"].items():
                p = os.path.join(d, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as h:
                    h.write(bytes.fromhex(t[4:]) if t.startswith("hex:") else t.encode())
            for f in c.get("dirs", ()):
                os.makedirs(os.path.join(d, f), exist_ok=True)
            for f, t in c.get("links", {}).items():        # within the scratch directory
                os.symlink(os.path.relpath(os.path.join(d, t), os.path.dirname(os.path.join(d, f))), os.path.join(d, f))
            cmd = [os.path.join(self.bins(), a[0] + "-parser")] + (["--input", c["in"]] if c["in"] else []) + (["--output", c["out"]] if c["out"] else [])
            with open(c.get("stdout", os.devnull), "wb") as full:
                r = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=full if c.get("stdout") else subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            tree = {}
            for x, ds, fs in os.walk(d):
                for f in fs:
                    p = os.path.join(x, f)
                    tree[os.path.relpath(p, d)] = open(p, "rb").read().hex()
            return ("ok", str(r.returncode), (r.stdout or b"").hex(), json.dumps(tree, sort_keys=True))
        except subprocess.TimeoutExpired:
            return ("hang",)
        finally:
            shutil.rmtree(d)


def run(cx):
    cx.rp = Tools(cx.rp)
    lib = {}

    def code_of(tool, t):
        """what the library makes of one input: text, or None when it is malformed"""
        if t.startswith("hex:"):
            return None
        k = (tool, t)
        if k not in lib:
            rs = [cx.rp("gen", [t])] if tool == "xsd" else [cx.rp("gen", [p]) for p in PARTS[t]] + [cx.rp("wsdl", [t])] if t in PARTS else [("bad",)]
            lib[k] = "".join(bytes.fromhex(r[1]).decode() for r in rs) if all(r[0] == "ok" for r in rs) else None
        return lib[k]

    def all_files(c):
        """the files of a case, those reached through symbolic links included"""
        fs = dict(c["files"])
        for l, t in c.get("links", {}).items():
            fs.update({l + f[len(t):]: x for f, x in c["files"].items() if f == t or f.startswith(t + "/")})
        return fs

    def expected(tool, c):
        """(tree or None when the run has to fail, stdout)"""
        i = c["in"] or {"xsd": "input/xsd", "wsdl": "input/wsdl"}[tool]
        if i in c["files"]:
            w = code_of(tool, c["files"][i])
            if w is None:
                return None
            if not c["out"]:
                return None if c.get("stdout") else ({}, w + "\n")
            bad = c["out"] in c.get("dirs", ()) or os.path.dirname(c["out"]) not in [""] + [os.path.dirname(f) for f in c["files"]] + list(c.get("dirs", ())) or c["out"] == "/dev/full"
            return None if bad else ({c["out"]: w}, "")
        if c.get("blocked"):
            return None
        ins = {f: t for f, t in all_files(c).items() if f.startswith(i + "/")}
        if not ins and i not in c.get("dirs", ()):
            return None
        o = c["out"] or {"xsd": "output/rs", "wsdl": "output/wsdl-rs"}[tool]
        tree = {}
        for f, t in ins.items():
            w = code_of(tool, t)
            if w is None:
                return None
            q = o + "/" + os.path.splitext(f[len(i) + 1:])[0] + ".rs"
            if q in c.get("dirs", ()):
                return None
            tree[q] = w
        return (tree, "")

    def judge(op, a, r):
        tool, c = a[0], json.loads(a[1])
        if r[0] != "ok":
            return "%s does not end" % tool
        w = expected(tool, c)
        rc = int(r[1])
        if w is None:
            return None if rc != 0 else "%s reports success for an input it cannot process, or for output it cannot write: %s" % (tool, a[1][:1500])
        if rc != 0:
            return "%s fails with status %d on well-formed input: %s" % (tool, rc, a[1][:1500])
        out = bytes.fromhex(r[2]).decode("utf-8", "replace")
        if out != w[1]:
            return "standard output of %s is not the generated code (%s): %s" % (tool, dif(out, w[1]), a[1][:1500])
        tree = {f: bytes.fromhex(t).decode("utf-8", "replace") for f, t in json.loads(r[3]).items()}
        for f, t in w[0].items():
            if f not in tree:
                return "%s writes no %s: %s" % (tool, f, a[1][:1500])
            if tree[f] != t:
                return "%s of %s is not the generated code (%s): %s" % (f, tool, dif(tree[f], t), a[1][:1500])
        for f, t in tree.items():
            if f not in w[0] and t != all_files(c).get(f):
                return "%s writes or changes %s: %s" % (tool, f, a[1][:1500])
        for f in c["files"]:
            if f not in tree:
                return "%s removes %s: %s" % (tool, f, a[1][:1500])
        return None

    GOOD = {"xsd": schema_of('<xs:complexType name="Aa"><xs:sequence><xs:element name="b" type="tt:Bb"/></xs:sequence></xs:complexType><xs:simpleType name="Bb"><xs:restriction base="xs:int"/></xs:simpleType>', "xs", "tt"),
            "wsdl": next(t for t in wsdl_corpus(9, 5) if PARTS[t])}
    BAD = "<a"

    def case(tool, **k):
        return "cli", [tool, json.dumps(k, sort_keys=True)]

    def conc_for(tool, fname, inp, outp):
        """a run of the real tool in which the same operation fails"""
        def conc(s, m, g):
            evs = flat(s.ghost.get("fs", ()))
            bad = [e for e in evs if e[0] == "failed"]
            g1 = GOOD[tool]
            c = {"files": {"a.xsd": g1}, "in": "a.xsd", "out": "o.rs"}
            if fname == "process_dir" or fname == "main" and ("isdir", inp or ("lit", "input/" + tool)) in [f[0] for f in s.ghost.get("facts", ()) if f[1]]:
                c = {"files": {"in/a.xsd": g1, "in/sub/b.xsd": g1}, "in": "in", "out": "o"}
                if ("exists", outp) in [f[0] for f in s.ghost.get("facts", ()) if f[1]]:
                    c["dirs"] = ["o"]
                if bad:
                    k = bad[0][1]
                    if k in ("process_single_file", "parse", "read"):
                        c["files"]["in/b.xsd"] = BAD
                    elif k == "process_dir":
                        c["files"]["in/sub/b.xsd"] = BAD
                    elif k in ("mkdirs", "mkdir"):
                        c["files"]["x"], c["out"], c["blocked"] = "", "x/o", True
                    elif k in ("readdir", "metadata"):
                        c["in"] = "nowhere"
            else:
                if outp is None:
                    c["out"] = None
                else:
                    c["files"]["o.rs"] = "x" * 100000
                if bad:
                    k = bad[0][1]
                    if k in ("open", "metadata") and bad[0][2] == inp:
                        c["in"] = "nowhere"
                    elif k == "read":
                        c["files"]["a.xsd"] = "hex:ff"
                    elif k in ("parse", "definitions", "process_single_file"):
                        c["files"]["a.xsd"] = BAD
                    elif k == "open":
                        c["dirs"], c["out"] = ["d"], "d"
                    elif k == "write":
                        c["out"] = "/dev/full"
            return case(tool, **c)
        return conc

    I, O = ("in",), ("out",)
    if cx.rp.bins() is None:
        cx.undec.append(cx.rp.why[:600])
        for n in ("main", "process_dir", "process_single_file"):
            cx.ob(n, "undecided", detail="no build")
        return
    for tool, crate, mir in (("xsd", XP, "mirxsd"), ("wsdl", WP, "mirwsdl")):
        with program(cx, mir) as ok_:
            if not ok_:
                cx.ob("%s/extraction" % tool, "undecided")
                continue
            E = cx.E
            for f in ("process_dir", "process_single_file"):
                E.contracts[crate + "::" + f] = own(f)
            E.contracts.update(LIB)
            E.invariants = (L.UTF8,)

            # -------------------------------------------------- one file
            for has in (False, True):
                def mk():
                    st = State()
                    st.ghost.update({"self": "process_single_file", "fs": ()})
                    return st, [E.ref(st, Opq("path", I)), some(E.ref(st, Opq("path", O))) if has else NONE], {}

                def post(s, k, v, g):
                    evs = s.ghost["fs"]
                    bad = [e for e in evs if e[0] == "failed"]
                    okk = k == "ret" and E.variants(s, v)[0][1].var == 0
                    yield "failures-are-reported", [s] if okk and bad else []
                    yield "fails-only-when-an-operation-fails", [s] if not okk and not bad else []
                    yield "touches-nothing-else", [s] if any(e[0] in ("mkdir", "mkdirs", "call", "readdir", "each") or e[0] == "read" and e[1] != I or e[0] == "open" and (e[1] != O or not has) or e[0] == "print" and has for e in evs) else []
                    if okk:
                        txt = dict((q, r) for q, r in s.ghost.get("files", ()))
                        if I not in txt:
                            raise Unsupported("input read in an unknown way")
                        want = ()
                        if tool == "xsd":
                            fcode = [r for q, r in s.ghost.get("code", ()) if q[0] == "text" and s.rope(q[1]) == s.rope(txt[I])]
                            if len(fcode) != 1:
                                raise Unsupported("code generated in an unknown way")
                            want = fcode[0]
                            got, reads = written(s, evs, has)
                            yield "writes-the-generated-code", [s] if got is None or reads != 1 or s.rope(got) != s.rope(tuple(want) + (() if has else (b"\n",))) else []
                        else:
                            got, reads = written(s, evs, has)
                            yield "writes-the-generated-code", [s] if reads != 1 or not wsdl_ok(s, got, txt[I], has) else []
                            return
                with_cl = ("failures-are-reported", "fails-only-when-an-operation-fails", "touches-nothing-else", "writes-the-generated-code")
                cx.verify("%s/process_single_file[output:%s]" % (tool, has), crate + "::process_single_file", mk, post, conc_for(tool, "process_single_file", I, O if has else None), judge, pred=None, budget=60, clauses=with_cl)

            # -------------------------------------------------- directories
            def mk():
                st = State()
                st.ghost.update({"self": "process_dir", "fs": ()})
                return st, [E.ref(st, Opq("path", I)), E.ref(st, Opq("path", O))], {}

            def post(s, k, v, g):
                evs = s.ghost["fs"]
                okk = k == "ret" and E.variants(s, v)[0][1].var == 0
                bad = [e for e in flat(evs) if e[0] == "failed"]
                fin = [e for e in evs if e[0] == "failed"]
                each = [e[1] for e in evs if e[0] == "each"]
                yield "failures-are-reported", [s] if okk and fin or any(x[0] == "failed" for e in each for _, es in e for x in es) else []
                yield "fails-only-when-an-operation-fails", [s] if not okk and not fin else []
                made = [e for e in evs if e[0] in ("mkdir", "mkdirs")]
                facts = dict(s.ghost.get("facts", ()))
                if okk:
                    if facts.get(("exists", O)) is None and not made:
                        raise Unsupported("output directory")
                    yield "output-directory", [s] if (facts.get(("exists", O)) is not True and [(e[0], e[1]) for e in made] != [("mkdirs", O)]) or any(e[1] != O for e in made) else []
                    if [e[1] for e in evs if e[0] == "readdir"] != [I] or len(each) != 1:
                        raise Unsupported("directory read in an unknown way")
                for recs in each:
                    bads = []
                    for b, es in recs:
                        e = ("ent", I, b.ghost["entry"])
                        isd = dict(b.ghost.get("facts", ())).get(("isdir", e))
                        if isd is None:
                            bads.append(b)
                            continue
                        w = ("call", "process_dir", e, ("join", O, ("name", e))) if isd else ("call", "process_single_file", e, ("join", O, ("ext", ("name", e), "rs")))
                        if [x for x in es if x[0] != "failed"] != [w]:
                            bads.append(b)
                    yield "every-entry-once-to-its-place", bads
            cx.verify("%s/process_dir" % tool, crate + "::process_dir", mk, post, conc_for(tool, "process_dir", I, O), judge, budget=60,
                      clauses=("failures-are-reported", "fails-only-when-an-operation-fails", "output-directory", "every-entry-once-to-its-place"))

            # -------------------------------------------------- main
            for inp in (None, I):
                for outp in (None, O):
                    E.contracts["<%s::Opt as clap::Parser>::parse" % crate] = parse_opts(crate, inp, outp)

                    def mk():
                        st = State()
                        st.ghost.update({"self": None, "fs": ()})
                        return st, [], {}

                    def post(s, k, v, g):
                        evs = s.ghost["fs"]
                        okk = k == "ret" and E.variants(s, v)[0][1].var == 0
                        bad = [e for e in evs if e[0] == "failed"]
                        i = inp or ("lit", "input/" + tool)
                        o = outp or ("lit", {"xsd": "output/rs", "wsdl": "output/wsdl-rs"}[tool])
                        isd = dict(s.ghost.get("facts", ())).get(("isdir", i))
                        yield "failures-are-reported", [s] if okk and bad else []
                        yield "fails-only-when-an-operation-fails", [s] if not okk and not bad else []
                        if okk:
                            if isd is None:
                                raise Unsupported("kind of the input")
                            w = ("call", "process_dir", i, o) if isd else ("call", "process_single_file", i, outp)
                            yield "processes-the-input-given", [] if list(evs) == [w] else [s]
                    cx.verify("%s/main[input:%s,output:%s]" % (tool, inp is not None, outp is not None), crate + "::main", mk, post, conc_for(tool, "main", inp, outp), judge, budget=30,
                              clauses=("failures-are-reported", "fails-only-when-an-operation-fails", "processes-the-input-given"))
    cases = []
    n = 30 if cx.tier == "quick" else 300
    for tool, ts in (("xsd", [x[1][0] for x in corpus(n, 23)]), ("wsdl", wsdl_corpus(n, 23))):
        ts = [t for t in ts if code_of(tool, t) is not None]
        for k, t in enumerate(ts):
            u = ts[(k * 7 + 1) % len(ts)]
            cases.append(case(tool, files={"a.xsd": t}, **{"in": "a.xsd", "out": None}))
            cases.append(case(tool, files={"a.xsd": t, "o.rs": "z" * 200000}, **{"in": "a.xsd", "out": "o.rs"}))
            cases.append(case(tool, files={"i n/a.b.xsd": t, "i n/Sub/deep/c": u, "i n/Sub/d.rs": t, "i n/x.y/e.xsd": u, "out/a.b.rs": "z" * 99999, "out/other.rs": "keep"}, **{"in": "i n", "out": "out"}))
            if k < 8:
                cases.append(case(tool, files={"in/a.xsd": t, "in/s/b.xsd": u}, dirs=["in/empty"], **{"in": "in", "out": "new/dir"}))
                cases.append(case(tool, files={"input/%s/a.xsd" % tool: t}, **{"in": None, "out": None}))
                cases.append(case(tool, files={"in/a.xsd": t, "in/s/b.xsd": BAD}, **{"in": "in", "out": "out"}))
                cases.append(case(tool, files={"in/a.xsd": "hex:fffe", "in/s/b.xsd": t}, **{"in": "in", "out": "out"}))
                cases.append(case(tool, files={"in/a.xsd": t}, dirs=["out/a.rs"], **{"in": "in", "out": "out"}))
                cases.append(case(tool, files={"in/a.xsd": t, "else/b.xsd": u, "else/s/c.xsd": t}, links={"in/l": "else", "in/m.xsd": "else/b.xsd"}, **{"in": "in", "out": "out"}))
                for o in ("d", "no/such/o.rs") + (("/dev/full",) if code_of(tool, t) else ()):       # writing nothing cannot fail
                    cases.append(case(tool, files={"a.xsd": t}, dirs=["d"], **{"in": "a.xsd", "out": o}))
                cases.append(case(tool, files={"a.xsd": t}, stdout="/dev/full", **{"in": "a.xsd", "out": None}))
                cases.append(case(tool, files={"a.xsd": t}, **{"in": "b.xsd", "out": "o.rs"}))
                for b in (BAD, "", "hex:ff", t[:len(t) // 2], "hex:" + (t.encode() + b"<!-- \xff\xfe -->").hex(), "hex:" + t.encode("utf-16").hex()):
                    cases.append(case(tool, files={"a.xsd": b}, **{"in": "a.xsd", "out": "o.rs"}))
    cx.sweep("the tools on scratch directories: one file, standard output, longer old output, nested directories, odd names, malformed or unreadable input, unwritable output", cases, judge)


PARTS = {}


def wsdl_corpus(n, seed):
    """random WSDL documents with embedded schemas; PARTS keeps each schema as a document of its own"""
    r = random.Random(seed)
    src = schemas(20 * n, seed)
    out = []
    for i in range(n):
        w = Gen(random.Random("23/%d/%d" % (seed, i))).text
        m = re.match(r"(?s)(<wsdl:definitions)([^>]*)>(.*)$", w)
        known = dict(re.findall(r"xmlns:?(\w*)=(\"[^\"]*\")", m.group(2)))
        moved, parts, groups = "", [], []
        ts = [[next(src) for _ in range(r.choice((0, 1, 1, 2)))] for _ in range(r.choice((1, 1, 2)))]
        # schemas of one namespace side by side
        for g in ts:
            if g and r.random() < .4:
                g += [x for x in (next(src) for _ in range(6)) if re.findall("targetNamespace=\"[^\"]*", x[:300]) == re.findall("targetNamespace=\"[^\"]*", g[0][:300])][:2] if r.random() < .8 else g[:1]
        decl = {t: re.findall(r"xmlns:?([\w.-]*)=(\"[^\"]*\")", re.match(r"(?s)<[\w:.-]+([^>]*)>", t).group(1)) for g in ts for t in g}
        # several prefixes for the XML Schema namespace: only one of them counts (test_multiple_xsd_ns)
        one = len({p for d in decl.values() for p, u in d if u == '"%s"' % XS}) == 1
        for g in ts:
            emb = []
            for t in g:
                e = t
                for p, u in decl[t]:
                    if p and p not in known and u not in known.values() and (u != '"%s"' % XS or one) and r.random() < .5:
                        known[p] = u
                        moved += " xmlns:%s=%s" % (p, u)
                    if known.get(p) == u and r.random() < .8:
                        e = e.replace(" xmlns:%s=%s" % (p, u), "", 1)
                emb.append(e)
                parts.append(t)
            groups.append("<wsdl:types>%s</wsdl:types>" % r.choice(("", "\n  ", "<!-- c -->")).join(emb))
        body = m.group(3)
        k = body.index("</wsdl:definitions>") if r.random() < .5 else 0
        t = m.group(1) + m.group(2) + moved + ">" + body[:k] + "".join(groups) + body[k:]
        PARTS[t] = parts
        out.append(t)
    return out


def written(s, evs, has):
    """text that ended in the output file (or on standard output), number of times the input was read"""
    reads = len([e for e in evs if e[0] == "read"])
    if not has:
        r = ()
        for e in evs:
            if e[0] == "print":
                r += tuple(e[1])
        return r, reads
    got, h = None, None
    for e in evs:
        if e[0] == "open":
            if e[2] - {"read"} != TRUNC and e[2] != {"write", "create_new"}:
                return None, reads
            h, got = e[3], ()
        elif e[0] == "data":
            if e[1] != h:
                return None, reads
            got += tuple(e[2])
    return got, reads


def wsdl_ok(s, got, txt, has):
    """code of every embedded schema in order, then that of the definitions"""
    if got is None:
        return False
    d = ("root", s.rope(txt))
    gen = [r for q, r in s.ghost.get("code", ()) if q[0] == "wsdl" and q[1][0] == "root" and s.rope(q[1][1]) == d[1]]
    if len(gen) != 1:
        raise Unsupported("code of the definitions generated in an unknown way")
    tail = tuple(gen[0]) + (() if has else (b"\n",))
    got = s.rope(got)
    for j, sep, outs in s.ghost.get("joined", ()):
        if s.rope(tuple(j) + tail) == got:
            if sep != ():
                raise Unsupported("separator")
            els = [(t, x) for t, x in outs if x is not None]
            for t, x in els:
                n = t.ghost.get("node")
                c = [r for q, r in t.ghost.get("code", ()) if q == ("node", n)]
                if n is None or len(c) != 1 or t.rope(c[0]) != t.rope(x):
                    return False
            return bool(els)
    raise Unsupported("code of the schemas joined in an unknown way")


def flat(evs):
    for e in evs:
        if e[0] == "each":
            for b, es in e[1]:
                yield from flat(es)
        else:
            yield e


def dif(x, y):
    if len(x) > len(y) and x.startswith(y):
        return "%d bytes too many" % (len(x) - len(y))
    for a, b in zip(x.split("\n"), y.split("\n")):
        if a != b:
            return "%r instead of %r" % (a[:200], b[:200])
    return "%d bytes instead of %d" % (len(x), len(y))


@contextmanager
def program(cx, what):
    old = cx.prog, cx.E
    try:
        try:
            prog = engine.Program(build(what))
        except (Undecided, Unsupported) as e:
            cx.undec.append("extraction: " + str(e)[:600])
            yield False
            return
        E = cx.new_engine(prog)
        for k in ("used_models", "used_fns", "used_contracts"):
            if cx.E is not None:
                setattr(E, k, getattr(cx.E, k))
        cx.prog, cx.E = prog, E
        yield True
    finally:
        cx.prog, cx.E = old
