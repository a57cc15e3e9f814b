#!/usr/bin/env python3
"""tools/seed.py ID [check...]: confirm a planted bug in a scratch copy, then run checks on it applied to /repo
   tools/seed.py -n ID ... : create from edits: see tools/mkseed()"""
import subprocess, sys, os, shutil, tempfile, json
V = "/verif"


def sh(c, cwd=None, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def confirm(sid):
    d = "%s/seeded/%s" % (V, sid)
    tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    ok = True
    try:
        # the build scripts are fixed to /repo: apply there, undo straight afterwards
        r = sh("bash %s/demo.sh" % d, cwd="/repo")
        print("demo clean rc", r.returncode, r.stdout[-300:] if r.returncode else "", r.stderr[-500:] if r.returncode else "")
        ok &= r.returncode == 0
        r = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd="/repo")
        if r.returncode:
            print("apply failed", r.stderr)
            return False
        try:
            r = sh("bash /opt/vp/build.sh")
            print("build rc", r.returncode, r.stderr[-300:] if r.returncode else "")
            ok &= r.returncode == 0
            r = sh("bash /opt/vp/test.sh %s/o.json" % tmp)
            o = json.load(open(tmp + "/o.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("passed") or base.get("stable") or base.get("tests")
            miss = [t for t in stable if t not in o["passed"]]
            print("tests missing:", miss[:5])
            ok &= not miss
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            print("demo patched rc", r.returncode, r.stdout[-300:])
            ok &= r.returncode != 0
        finally:
            sh("git checkout -- .", cwd="/repo")
    finally:
        shutil.rmtree(tmp)
    print("CONFIRMED" if ok else "NOT CONFIRMED", sid)
    return ok


def checks(sid, ids):
    d = "%s/seeded/%s" % (V, sid)
    sh("git apply %s/patch.diff" % d, cwd="/repo")
    try:
        for i in ids:
            r = sh("python3-vt checks/run.py %s" % i, cwd=V, timeout=1000)
            lines = [l for l in r.stdout.splitlines()]
            print("check", i, "rc", r.returncode, "|", "\n    ".join(l[:260] for l in lines[:5]), r.stderr[-500:])
    finally:
        sh("git checkout -- .", cwd="/repo")


if __name__ == "__main__":
    sid = sys.argv[1]
    ids = sys.argv[2:]
    if "-q" not in ids:
        confirm(sid)
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, sid)))
    checks(sid, [i for i in ids if i != "-q"] or [meta["property"]])
