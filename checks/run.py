#!/opt/veriftools/pyvenv/bin/python
"""checks/run.py <ID>: decide one property on /repo's current working tree."""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
sys.set_int_max_str_digits(0)
import threading
threading.stack_size(512 * 1024 * 1024)
from dv import check


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("dv.props." + pid.lower())
    import gc
    gc.disable()        # terms and states are acyclic; reference counting reclaims them
    try:
        cx = check.Ctx(pid, tier, seed)
    except check.Derives as e:
        # the macros no longer serve the types they are derived for
        mine = {"C22": ("UtilsUnionSerDe", "uni!"), "C21": ("UtilsTupleIo", "UtilsDefaultSerde", "inst!")}.get(pid, ())
        print(str(e)[-3000:])
        if any(x in str(e) for x in mine):
            import json
            path = os.path.join(check.VERIF, "evidence", pid + ".replay-1.json")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            json.dump({"property": pid, "obligation": "derived code compiles", "message": "the code derived for the instances in replay/src/inst.rs does not compile", "verifier_output": str(e)[-6000:]}, open(path, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2
    mod.run(cx)
    return cx.finish(mod.LEVEL, mod.NOTE, getattr(mod, "ASSUME", ()))


rc = [2]


def go():
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
