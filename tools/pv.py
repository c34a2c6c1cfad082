"""Developer tool: run the proof units of one property and print them."""
import importlib, sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import spec
m = importlib.import_module("contracts." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
verbose = "-v" in sys.argv
for k, u in enumerate(m.P.units):
    if pat and pat != "-v" and pat not in u["name"]:
        continue
    r = spec.run_unit(m.P, k)
    n = len(r["obligations"]); ok = sum(o["status"] == "proved" for o in r["obligations"])
    print(f"{r['unit']}: {ok}/{n} paths={r['paths']} {r['wall']:.1f}s undecided={len(r['undecided'])}")
    for o in r["obligations"]:
        if o["status"] != "proved" or verbose:
            print("   ", o["status"], o["name"], o["backend"], o["secs"], (o["detail"] or "")[:300], (o["smt"] or "")[:1500] if o["status"] != "proved" else "")
    for x in r["undecided"]:
        print("    UNDECIDED", x[1][:2500])
