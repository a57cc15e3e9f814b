"""Obligation generation, discharge, replay and reporting for one property."""
import fcntl
import hashlib
import json
import os
import pickle
import random
import re
import resource
import subprocess
import sys
import ctypes
import threading
import time
import traceback
from . import engine, lang as L, models, depmodels, genmodels, sermodels, fsmodels, solve
from .state import State, STATS
from .terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(VERIF, ".build")
REPO = "/repo"


BINS = {"mirxsd": ("xsd-parser-cli", "xsd_parser"), "mirwsdl": ("wsdl-parser-cli", "wsdl_parser")}


class Derives(Exception):
    """the derive macros no longer give code that compiles for the instances they are proved on"""


def derive_errors(err):
    """all errors of the build are in code the derive macros make (replay/src/inst.rs), none in the machinery or in /repo"""
    at = re.findall(r"^error(?:\[E\d+\])?: .*\n +--> ([^:\n]+):\d+:\d+", err, re.M)
    n = len(re.findall(r"^error(?:\[E\d+\])?: (?!could not compile|aborting)", err, re.M))
    return at and len(at) == n and all(x.endswith("src/inst.rs") for x in at)


class Undecided(Exception):
    pass


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


HARDER = [1]


class Alarm:
    """raises Budget in this thread when a step that never looks at the clock takes too long"""
    def __init__(self, seconds):
        self.lock, self.on, self.tid = threading.Lock(), True, threading.get_ident()
        self.t = threading.Timer(max(1, seconds), self.ring)
        self.t.daemon = True

    def ring(self):
        with self.lock:
            if self.on:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(Budget))

    def __enter__(self):
        old = threading.stack_size(1 << 20)         # the exploration's own 512 MB stacks would not fit a second time
        try:
            self.t.start()
        except RuntimeError:
            self.on = False                         # no thread left: the step runs without an alarm
        finally:
            threading.stack_size(old)
        return self

    def __exit__(self, *a):
        with self.lock:
            self.on = False
        self.t.cancel()


def memcap(n):
    """soft limit of the address space (-1: as much as is allowed), so that a runaway exploration ends as undecided"""
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    if n < 0 or hard != resource.RLIM_INFINITY and hard < n:
        n = hard
    resource.setrlimit(resource.RLIMIT_AS, (n, hard))


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            h.update(root.encode() + open(root, "rb").read())
            continue
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".build", "__pycache__"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock", ".txt", ".sh", ".xsd", ".wsdl")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def build(what):
    """what: 'mir' or 'replay'; returns path of the artefact, rebuilt from /repo's working tree"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock-" + what), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if what == "mir":
            h = tree_hash([REPO, VERIF + "/harness", VERIF + "/dumper", VERIF + "/replay/src/inst.rs"])
            out = os.path.join(B, "mir-%s.json" % h)
            if not os.path.exists(out):
                for f in os.listdir(B):
                    if f.startswith("mir-") and f.endswith(".json"):
                        os.unlink(os.path.join(B, f))
                r = subprocess.run(["bash", VERIF + "/dumper/dump.sh", out + ".tmp"], capture_output=True, text=True)
                if r.returncode != 0:
                    raise Undecided("MIR extraction failed: " + (r.stdout + r.stderr)[-2000:])
                os.rename(out + ".tmp", out)
            return out
        if what in BINS:
            pkg, crate = BINS[what]
            h = tree_hash([REPO, VERIF + "/dumper"])
            out = os.path.join(B, "%s-%s.json" % (what, h))
            if not os.path.exists(out):
                for f in os.listdir(B):
                    if f.startswith(what + "-"):
                        os.unlink(os.path.join(B, f))
                r = subprocess.run(["bash", VERIF + "/dumper/dump.sh", out + ".tmp", pkg, crate], capture_output=True, text=True)
                if r.returncode != 0:
                    raise Undecided("MIR extraction of %s failed: %s" % (pkg, (r.stdout + r.stderr)[-2000:]))
                os.rename(out + ".tmp", out)
            return out
        env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
                   CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
        for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
            env.pop(k, None)
        if what == "cli":
            h = tree_hash([REPO])
            out = os.path.join(B, "cli-%s" % h)
            if not os.path.exists(out):
                import shutil
                for f in os.listdir(B):
                    if f.startswith("cli-"):
                        shutil.rmtree(os.path.join(B, f))
                r = subprocess.run(["cargo", "build", "--offline", "--locked", "-p", "xsd-parser-cli", "-p", "wsdl-parser-cli", "--target-dir", B + "/cli"],
                                   cwd=REPO, env=env, capture_output=True, text=True)
                if r.returncode != 0:
                    raise Undecided("build of the command-line tools failed: " + r.stderr[-3000:])
                os.makedirs(out + ".tmp", exist_ok=True)
                for f in ("xsd-parser", "wsdl-parser"):
                    shutil.copy(B + "/cli/debug/" + f, out + ".tmp/" + f)
                os.rename(out + ".tmp", out)
            return out
        h = tree_hash([REPO, VERIF + "/replay"])
        out = os.path.join(B, "replay-%s" % h)
        if not os.path.exists(out):
            for f in os.listdir(B):
                if f.startswith("replay-"):
                    os.unlink(os.path.join(B, f))
            # path dependencies may be older than the previous build's products
            r = subprocess.run(["cargo", "build", "--offline", "--locked", "--target-dir", B + "/replay"], cwd=VERIF + "/replay",
                               env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise Derives(r.stderr) if derive_errors(r.stderr) else Undecided("replay build failed: " + r.stderr[-3000:])
            import shutil
            shutil.copy(B + "/replay/debug/dvreplay", out + ".tmp")
            os.rename(out + ".tmp", out)
        return out


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex()


class Replay:
    def __init__(self, path):
        self.path = path
        self.p = None
        self.n = 0

    def start(self):
        env = dict(os.environ)
        env.pop("RUST_BACKTRACE", None)
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)

    def __call__(self, op, args):
        if self.p is None:
            self.start()
        a = [hx(x) if isinstance(x, (bytes, str)) and not (isinstance(x, Raw)) else str(x) for x in args]
        self.n += 1
        try:
            self.p.stdin.write(("\t".join([op] + a) + "\n").encode())
            self.p.stdin.flush()
            import select
            r, _, _ = select.select([self.p.stdout], [], [], 60)
            if not r:
                self.p.kill()
                self.p = None
                return ("hang",)
            l = self.p.stdout.readline()
        except BrokenPipeError:
            l = b""
        if not l:
            rc = self.p.wait()
            self.p = None
            return ("abort", str(rc))
        return tuple(l.decode().rstrip("\n").split("\t"))


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.obl = {}            # name -> dict
        self.failed = []         # obligations that failed
        self.viol = []           # (name, message, case, result, reproduced)
        self.undec = []
        self.assumptions = []
        self.trusted = set()
        self.bounded = {"evaluations": 0, "distinct": set(), "samples": [], "rules": []}
        self.validated = 0
        self.disagree = []
        self.paths = 0
        self.pruned = 0
        self.vac = []
        self.roots = []
        self.E = None
        self.rp = Replay(build("replay"))
        self.varied = 40        # seconds left for further witnesses of failing paths
        self.vary_on = False    # set by a check for the contracts whose oracle is right on every text
        self.deadline = self.t0 + (600 if tier == "quick" else 800)
        try:
            prog = engine.Program(build("mir"))
            self.E = self.new_engine(prog)
            self.prog = prog
        except (Undecided, Unsupported) as e:
            self.undec.append("extraction: " + str(e)[:600])
            self.prog = None

    def new_engine(self, prog):
        E = engine.Engine(prog)
        models.install(E)
        E.budget = self.budget
        return E

    def budget(self):
        now = time.time()
        if now > self.xlimit:
            raise Budget("exploration time of this obligation group exhausted")
        if now - self.memcheck > 0.25:
            self.memcheck = now
            if rss() > self.memlimit:
                raise Budget("exploration memory of this obligation group exhausted")

    memcheck = 0
    memlimit = 8 << 30

    limit = xlimit = 1e18

    # ------------------------------------------------------------------
    def ob(self, name, status, n=1, detail="", backend="regular-language"):
        o = self.obl.setdefault(name, {"name": name, "total": 0, "discharged": 0, "failed": 0, "undecided": 0, "detail": []})
        o["total"] += n
        o[status] += n
        if detail and len(o["detail"]) < 5:
            o["detail"].append(detail[:300])

    def judge_case(self, judge, op, args):
        res = self.rp(op, args)
        try:
            msg = judge(op, args, res)
        except Exception as e:      # the oracle itself must never raise on a result
            msg = "unexpected result %r (%s: %s)" % (res, type(e).__name__, e)
        return res, msg

    def verify(self, name, *a, **kw):
        b = kw.get("budget", 150)
        try:
            with Alarm(min(self.deadline - time.time(), b) + 20):
                self.verify_(name, *a, **kw)
        except Budget:
            self.undec.append("%s: out of time" % name)
            for c in kw.get("clauses") or ("contract",):
                self.ob("%s/%s" % (name, c), "undecided", detail="out of time")
        if any(o["undecided"] for o in self.obl.values()):
            HARDER[0] = 6       # an obligation the verifier does not decide: the bounded sweeps look further

    def verify_(self, name, root, mk, post, conc, judge, pred=None, budget=150, clauses=(), more=None):
        """function contract: execute `root` symbolically from mk(), generate post() obligations on every path"""
        self.roots.append(root)
        t = time.time()
        if self.prog is None:
            for c in clauses or ("contract",):
                self.ob("%s/%s" % (name, c), "undecided", detail="no extraction")
            return
        self.limit = min(self.deadline, time.time() + budget)
        self.xlimit = time.time() + (self.limit - time.time()) * 0.6
        self.clauses = clauses or ("contract",)
        E = self.E
        try:
            memcap(20 << 30)
            out = []
            st, args, g = mk()
            if callable(root):
                out = root(E, st, args, g)
            else:
                out = E.run(self.prog.find(root), args, st)
            if not out:
                raise Unsupported("no path: contract would be vacuous")
            if len(out) > 400:
                ok = self.parallel(name, out, g, post, conc, judge, pred)
            else:
                ok = self.discharge(name, out, g, post, conc, judge, pred)
        except (Unsupported, RecursionError) as e:
            self.undec.append("%s: %s" % (name, str(e)[:400]))
            for c in clauses or ("contract",):
                self.ob("%s/%s" % (name, c), "undecided", detail=str(e))
            return
        except Exception as e:
            tb = traceback.format_exc()
            self.undec.append("%s: internal %s" % (name, tb[-700:]))
            for c in clauses or ("contract",):
                self.ob("%s/%s" % (name, c), "undecided", detail="internal error: %s" % (e or type(e).__name__))
            return
        finally:
            memcap(-1)
        for c in clauses:
            if "%s/%s" % (name, c) not in self.obl:
                self.ob("%s/%s" % (name, c), "undecided", detail="vacuous: no path produced this clause")
                self.undec.append("%s/%s vacuous" % (name, c))

    SHARE = ("obl", "viol", "undec", "validated", "disagree", "paths", "pruned")

    def parallel(self, name, out, g, post, conc, judge, pred):
        """the same obligations, spread over worker processes"""
        n = min(8, os.cpu_count() or 1)
        kids = []
        for w in range(n):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                res = None
                try:
                    self.memlimit = rss() + (5 << 29)
                    memcap(self.memlimit + (4 << 30))
                    self.rp = Replay(self.rp.path)
                    self.obl, self.viol, self.undec, self.disagree = {}, [], [], []
                    self.validated = self.paths = self.pruned = 0
                    for k in STATS:
                        STATS[k] = 0
                    err = None
                    try:
                        with Alarm(self.limit - time.time() + 15):
                            self.discharge(name, out[w::n], g, post, conc, judge, pred)
                    except (Unsupported, RecursionError) as e:
                        err = str(e)
                    except Exception:
                        err = "internal " + traceback.format_exc()[-700:]
                    res = pickle.dumps(({k: getattr(self, k) for k in self.SHARE}, dict(STATS), self.E.used_models, self.E.used_fns, err))
                    with os.fdopen(wr, "wb") as f:
                        f.write(res)
                finally:
                    if self.rp.p is not None:
                        self.rp.p.kill()
                    os._exit(0)
            os.close(wr)
            kids.append((pid, r))
        err = None
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if not data:
                err = err or "worker process ended early"
                continue
            d, stats, um, uf, e = pickle.loads(data)
            err = err or e
            for k, v in stats.items():
                STATS[k] = STATS.get(k, 0) + v
            for k, v in um.items():
                self.E.used_models.setdefault(k, v)
            for k, v in uf.items():
                self.E.used_fns.setdefault(k, v)
            for k in ("viol", "undec", "disagree"):
                getattr(self, k).extend(d[k])
            for k in ("validated", "paths", "pruned"):
                setattr(self, k, getattr(self, k) + d[k])
            for nm, o in d["obl"].items():
                t = self.obl.setdefault(nm, {"name": nm, "total": 0, "discharged": 0, "failed": 0, "undecided": 0, "detail": []})
                for k in ("total", "discharged", "failed", "undecided"):
                    t[k] += o[k]
                t["detail"] = (t["detail"] + o["detail"])[:5]
        if err:
            raise Unsupported(err)

    def discharge(self, name, out, g, post, conc, judge, pred):
        lost = {}
        for s, k, v in out:
            self.paths += 1
            if time.time() > self.limit:
                raise Unsupported("time budget of this obligation group exhausted")
            if k == "unsup":
                # not decided symbolically: a concrete instance of the path still goes to the real code
                lost[v] = lost.get(v, 0) + 1
                for c in self.clauses:
                    self.ob("%s/%s" % (name, c), "undecided", detail=str(v))
                if lost[v] > 400:
                    continue
                try:
                    m = solve.model(s) if solve.check(s) != "unsat" else None
                    if m is not None:
                        op, a = conc(s, m, g)
                        res, msg = self.judge_case(judge, op, a)
                        if msg:
                            self.violation(name + "/replay", msg, (op, a), res, True)
                except Exception:
                    pass
                continue
            if solve.check(s) == "unsat":
                self.pruned += 1
                continue
            try:
                cl = [(c, [b for b in bads if solve.check(b) != "unsat"]) for c, bads in post(s, k, v, g)]
            except Unsupported as e:
                # a result of unrecognised form: not decided, the witness of the path still goes to the real code
                lost[str(e)] = lost.get(str(e), 0) + 1
                cl = []
                for c in self.clauses:
                    self.ob("%s/%s" % (name, c), "undecided", detail=str(e))
            # witness of the path: vacuity guard, and validation of the library contracts on the real code
            agree = None
            m = None
            try:
                m = solve.model(s)
                if m is not None:
                    op, a = conc(s, m, g)
                    res, msg = self.judge_case(judge, op, a)
                    if msg:
                        self.violation(name + "/replay", msg, (op, a), res, True)
                    elif self.vary_on and os.environ.get("DV_VARY"):     # development: the oracle on further witnesses of every path
                        r = self.vary(s, g, conc, judge, set(), int(os.environ["DV_VARY"]), 1)
                        if r is not None:
                            self.violation(name + "/vary", r[2], r[0], r[1], True)
                    if pred is not None:
                        want = pred(s, k, v, g, m)
                        if want is not None:
                            if tuple(want) == res[:len(want)]:
                                agree = True
                                self.validated += 1
                            else:
                                agree = False
                                self.disagree.append("%s: %s%r predicted %r got %r" % (name, op, a, want, res))
            except Unsupported as e:
                m = None
            for c, bads in cl:
                nm = "%s/%s" % (name, c)
                if agree is False:
                    self.ob(nm, "undecided", detail="library contract disagrees with the real code on this path: " + self.disagree[-1])
                    continue
                if not bads:
                    self.ob(nm, "discharged")
                    continue
                self.fail(nm, s, k, v, bads, conc, judge, pred, g)
        for v, n in lost.items():
            self.undec.append("%s: %d path(s): %s" % (name, n, str(v)[:400]))

    def fail(self, nm, s, k, v, bads, conc, judge, pred, g):
        unre, seen = None, set()
        for b in bads[:6]:
            try:
                m = solve.model(b)
            except Unsupported:
                m = None
            if m is None:
                if b.feasible():
                    unre = "obligation failed; no concrete model found for the failing path"
                continue
            try:
                op, a = conc(b, m, g)
            except Unsupported as e:
                self.disagree.append("%s: no concrete case: %s" % (nm, e))
                continue
            res, msg = self.judge_case(judge, op, a)
            if msg:
                self.ob(nm, "failed", detail=msg)
                self.violation(nm, msg, (op, a), res, True)
                return
            want = pred(b, k, v, g, m) if pred else None
            if pred and want is None:
                t0 = time.time()
                r = self.vary(b, g, conc, judge, seen) if self.vary_on else None
                self.varied -= time.time() - t0
                if r is not None:
                    self.ob(nm, "failed", detail=r[2])
                    self.violation(nm, r[2], r[0], r[1], True)
                    return
                self.disagree.append("%s: %s%r rests on an outcome the library contract leaves open" % (nm, op, a))
                continue
            if want is not None and tuple(want) != res[:len(want)]:
                self.disagree.append("%s: %s%r predicted %r got %r" % (nm, op, a, want, res))
                continue
            unre = unre or "obligation failed on %s%r -> %r but the concrete oracle accepts it" % (op, a, res)
            if want is not None:
                # prediction exact, oracle content: specification mismatch inside the machinery
                self.undec.append("oracle/contract mismatch: " + unre)
                unre = None
        if unre is not None:
            self.ob(nm, "failed", detail=unre)
            self.violation(nm, unre, None, None, False)
        else:
            self.ob(nm, "undecided", detail="failing path not confirmed by the real code")

    def vary(self, b, g, conc, judge, seen, n=40, secs=2):
        """further witnesses of a failing path on the real code: (case, result, message) of the first the oracle rejects"""
        rng = random.Random(1)
        end = min(time.time() + min(secs, self.varied), self.limit)
        for _ in range(n):
            if time.time() > end:
                break
            try:
                m = solve.model(b, tries=3, rng=rng)
                if m is None:
                    continue
                op, a = conc(b, m, g)
            except Unsupported:
                continue
            key = (op, repr(a))
            if key in seen:
                continue
            seen.add(key)
            t = time.time()
            res, msg = self.judge_case(judge, op, a)
            if msg:
                return (op, a), res, msg
        return None

    def violation(self, name, msg, case, res, reproduced):
        self.viol.append({"obligation": name, "message": msg, "case": case, "result": res, "reproduced": reproduced})

    # ------------------------------------------------------------------
    def sweep(self, rule, cases, judge):
        """bounded stand-in: concrete cases on the real code against the executable form of the contract"""
        b = self.bounded
        b["rules"].append(rule)
        n = 0
        for op, args in cases:
            if HARDER[0] > 1 and n % 50 == 0 and time.time() > self.deadline - 60:
                break
            key = (rule, op, tuple(args))
            if key in b["distinct"]:
                continue
            b["distinct"].add(key)
            n += 1
            b["evaluations"] += 1
            res, msg = self.judge_case(judge, op, args)
            if msg:
                self.violation("bounded/" + op, msg, (op, list(args)), res, True)
                if len(self.viol) > 40:
                    break
            if n % 97 == 1 and len(b["samples"]) < 8:
                b["samples"].append({"op": op, "args": [str(x)[:200] for x in args], "result": [str(x)[:200] for x in res]})

    # ------------------------------------------------------------------
    def finish(self, level, note, extra_assumptions=()):
        known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == self.pid]
        rep = []
        hit = {}
        for v in self.viol:
            k = None
            for f in known:
                if v["case"] and f["op"] == v["case"][0] and [str(x) for x in f["args"]] == [x.decode("utf-8", "replace") if isinstance(x, bytes) else str(x) for x in v["case"][1]]:
                    k = f
            if k:
                hit[k["id"]] = k
            else:
                rep.append(v)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        rep.sort(key=lambda v: not v["reproduced"])
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        shown = 0
        done = set()
        for v in rep:
            key = (v["obligation"], v["reproduced"])
            if key in done or shown >= 5:
                continue
            done.add(key)
            shown += 1
            path = "%s/evidence/%s.replay-%d.json" % (VERIF, self.pid, shown)
            c = v["case"]
            json.dump({"property": self.pid, "obligation": v["obligation"], "message": v["message"],
                       "op": c[0] if c else None, "args": [_j(x) for x in c[1]] if c else None,
                       "hex": [x.hex() if isinstance(x, bytes) else None for x in c[1]] if c else None,
                       "real_result": v["result"], "solver_stats": STATS,
                       "verifier_output": self.obl.get(v["obligation"])}, open(path, "w"), indent=1, default=str)
            print("  %s: %s" % (v["obligation"], v["message"]))
            print("VIOLATION property=%s replay=%s%s" % (self.pid, path, "" if v["reproduced"] else " no-failing-input-found"))
        tot = sum(o["total"] for o in self.obl.values())
        dis = sum(o["discharged"] for o in self.obl.values())
        E = self.E
        models_used = sorted(E.used_models) if E else []
        cov = {
            "obligations": tot, "discharged": dis,
            "undecided": sum(o["undecided"] for o in self.obl.values()),
            "failed": sum(o["failed"] for o in self.obl.values()),
            "checker_cmd": "python3-vt checks/run.py %s" % self.pid,
            "trusted_base": ["rustc nightly MIR (rustc_public) of /repo's current source, extracted on this run by dumper/dump.rs",
                             "dv symbolic executor (regular-language + linear-integer back ends; z3 for integer side)",
                             "assumed contracts on std/dependency functions: " + ", ".join(models_used)],
            "contracts": [{"name": o["name"], "obligations": o["total"], "discharged": o["discharged"], "undecided": o["undecided"], "failed": o["failed"],
                           **({"detail": o["detail"]} if o["detail"] else {})} for o in self.obl.values()],
            "functions_executed_from_mir": sorted(E.used_fns) if E else [],
            "contracts_used_modularly": dict(E.used_contracts) if E else {},
            "symbolic_paths": self.paths, "paths_refuted_by_z3": self.pruned,
            "backends": {"regular_splits": STATS["splits"], "z3_queries": STATS["smt"], "z3_ms": STATS["smt_ms"], "z3_unknown": STATS["smt_unknown"]},
            "traces_validated_against_impl": self.validated,
            "library_contract_disagreements": self.disagree[:10],
            "undischarged_reasons": self.undec[:20],
            "bounded_standin": {"label": "bounded, not proved", "evaluations": self.bounded["evaluations"],
                                "distinct_nontrivial": len(self.bounded["distinct"]), "rules": self.bounded["rules"], "samples": self.bounded["samples"][:8]},
            "evaluations": self.bounded["evaluations"], "distinct_nontrivial": len(self.bounded["distinct"]),
            "rule": "; ".join(self.bounded["rules"]) or "none", "samples": self.bounded["samples"][:4],
            "explanation": note,
        }
        json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": list(self.assumptions) + list(extra_assumptions) + ["strings are shorter than 2^60 bytes", "allocation does not fail", "no unsafe code in the functions under contract (none in /repo)"],
                   "violations": len(rep), "wall_s": round(time.time() - self.t0, 2)},
                  open("%s/evidence/%s.json" % (VERIF, self.pid), "w"), indent=1, default=str)
        print("%s: %d/%d obligations discharged (%d undecided), %d paths, %d traces validated, %d bounded cases, %.1fs" % (
            self.pid, dis, tot, cov["undecided"], self.paths, self.validated, self.bounded["evaluations"], time.time() - self.t0))
        for u in self.undec[:6]:
            print("  undischarged:", u[:300])
        for u in self.disagree[:6]:
            print("  disagreement:", u[:300])
        return 1 if rep else 0


def _j(x):
    if isinstance(x, bytes):
        return x.decode("utf-8", "replace")
    return x
