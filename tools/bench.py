#!/usr/bin/env python3
"""Run each planted bug's property check against a scratch copy of /repo with the bug applied, using a
scratch copy of /verif's working tree.  usage: bench.py [-all] [id-prefix...]   (-all: every check, not just the property's)"""
import glob, json, os, shutil, subprocess, sys, tempfile, time
LOG = "/tmp/bench.json"
res = json.load(open(LOG)) if os.path.exists(LOG) else {}
want = [a for a in sys.argv[1:] if not a.startswith("-")]
tmp = tempfile.mkdtemp(prefix="bench_", dir="/tmp")
try:
    V, R = tmp + "/verif", tmp + "/repo"
    shutil.copytree(os.environ.get("VROOT", "/verif"), V, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "__pycache__"))
    os.makedirs(V + "/replays", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    for d in sorted(glob.glob(os.environ.get("SEEDED", "/verif/seeded") + "/*")):
        bid = os.path.basename(d)
        if want and not any(bid.startswith(w) for w in want):
            continue
        prop = json.load(open(d + "/meta.json"))["property"]
        props = [prop] if "-all" not in sys.argv else sorted(os.path.basename(f)[:-3] for f in glob.glob(V + "/contracts/C[0-9]*.py"))
        for p in props:
            if not os.path.exists(f"{V}/contracts/{p}.py"):
                continue
            t = time.time()
            try:
                subprocess.run(["git", "-C", R, "apply", d + "/patch.diff"], check=True)
                r = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick"] + (["--no-proof"] if "-noproof" in sys.argv else []), cwd=V, capture_output=True, text=True, timeout=1000,
                                   env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R))
                v = [l.replace(tmp, "") for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out = [p, r.returncode, v[:3], r.stdout.strip().splitlines()[-1:] if not v else [], round(time.time() - t, 1)]
            except subprocess.TimeoutExpired:
                out = [p, "timeout", [], [], round(time.time() - t, 1)]
            finally:
                subprocess.run(["git", "-C", R, "checkout", "--", "."], check=True)
            res[bid if p == prop else bid + ":" + p] = out
            print(bid, *out, flush=True)
            json.dump(res, open(LOG, "w"), indent=0)
finally:
    shutil.rmtree(tmp)
