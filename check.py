#!/usr/bin/env python3
"""check.py PROP: decide one property of /repo (tier from VERIF_TIER or --tier); --replay FILE re-runs a reported failing input."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python3"
try: import z3
except ImportError:
    if os.path.exists(VT) and sys.executable != VT and not os.environ.get("VC_REEXEC"):
        os.environ["VC_REEXEC"] = "1"; os.execv(VT, [VT] + sys.argv)
    raise
sys.path.insert(0, os.path.join(HERE, "vc"))
import driver
def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        for o in d["failed_obligations"]: print("failed obligation:", o["obligation"])
        w = d.get("witness") or {}
        if "run" in w:
            import registry, tempfile
            print(registry.PROPS[d["property"]].witness(d["property"], "quick", d.get("seed", 1), tempfile.mkdtemp())[0])
        elif "hex" in w:
            import tempfile
            t = tempfile.mkdtemp(); exe, err = driver.build_native(t)
            print(driver.replay(d["property"], exe, w["hex"])[1]) if exe else print(err)
        else: print(json.dumps(d.get("witness")))
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = a[0]
    try: return driver.main(prop, tier, seed)
    except BaseException as ex:
        import traceback
        if isinstance(ex, SystemExit): raise
        traceback.print_exc()
        rp = os.path.join(HERE, "evidence", "replay-%s.json" % prop); os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(dict(property=prop, failed_obligations=[dict(obligation="check-not-completed", detail=traceback.format_exc())], witness=None), open(rp, "w"))
        json.dump(dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="other", coverage=dict(explanation="check did not complete"), wall_s=0), open(os.path.join(HERE, "evidence", prop + ".json"), "w"))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)); return 1
if __name__ == "__main__": sys.exit(main())
