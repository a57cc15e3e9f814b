#!/usr/bin/env python3
"""tools/mkseed.py SID PROPERTY FILE 'needs' 'breaks' : reads from stdin  <old>\n====\n<new>\n====\n<demo main.rs>"""
import subprocess, sys, os, json
sid, prop, f, needs, breaks = sys.argv[1:6]
parts = sys.stdin.read().split("\n====\n")
demo = parts.pop()
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
files = f.split(",")
i = 0
try:
    for k in range(0, len(parts), 2):
        fn = files[min(k // 2, len(files) - 1)]
        p = "/repo/" + fn
        s = open(p).read()
        old, new = parts[k], parts[k + 1]
        assert s.count(old) == 1, (fn, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run("git diff", shell=True, cwd="/repo", capture_output=True, text=True)
    open(d + "/patch.diff", "w").write(r.stdout)
finally:
    subprocess.run("git checkout -- .", shell=True, cwd="/repo")
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if demo.startswith("#!cli"):
    pkgs = demo.split("\n")[0].split()[1:]
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds on the tested inputs; nonzero: broken
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cargo build -q --offline --locked %s --target-dir "$T/t" >"$T/out" 2>&1 || { tail -5 "$T/out"; exit 2; }
B="$T/t/debug"
mkdir "$T/w" && cd "$T/w" || exit 2
set -e
""" % " ".join("-p " + x for x in pkgs) + demo.split("\n", 1)[1] + "\n")
    os.chmod(d + "/demo.sh", 0o755)
    os.execvp("true", ["true"])
open(d + "/main.rs", "w").write(demo)
open(d + "/Cargo.toml", "w").write(open("/verif/replay/Cargo.toml").read())
open(d + "/Cargo.lock", "w").write(open("/verif/replay/Cargo.lock").read())
open(d + "/demo.sh", "w").write("""#!/bin/bash
# exit 0: the property holds on the tested inputs; nonzero: broken
H="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" && cp "$H/main.rs" "$T/src/main.rs" && cp "$H/Cargo.toml" "$H/Cargo.lock" "$T/"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
cd "$T" && cargo run -q --offline --locked --target-dir "$T/t" >"$T/out" 2>&1
rc=$?
tail -5 "$T/out"
exit $rc
""")
