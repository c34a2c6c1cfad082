import json, os, sys, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(H, "contracts", pid + ".py")):
        m = importlib.import_module("contracts." + pid)
        checks.append(dict(property=pid, quick_cmd=f"python3-vt check.py {pid} --tier quick",
                           thorough_cmd=f"python3-vt check.py {pid} --tier thorough",
                           technique="contracts on the real functions discharged by a deductive verifier (pyvc: symbolic execution of the AST of /repo with loop rules, z3/cvc5), failed obligations replayed on the real code",
                           level=getattr(m, "LEVEL", "proof"),
                           level_note=getattr(m, "NOTE", "All obligations generated from /repo's current source for the functions under contract are discharged for all inputs; reals for floats; library models trusted (see evidence and DESIGN.md).")))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "not yet under contract")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo: contracts live in /verif/contracts and are checked against the AST of /repo's current working tree on every run."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
