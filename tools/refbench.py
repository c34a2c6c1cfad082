#!/usr/bin/env python3
"""Checks on edits that keep the behaviour.  usage: refbench.py [-noproof] [-tests] [id-prefix...]
(a scratch copy of the directory this tool is in, a scratch copy of /repo)"""
import importlib, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
mods = [a[4:] for a in sys.argv[1:] if a.startswith("mod=")] or ["refacs"]
want = [a for a in sys.argv[1:] if not a.startswith("-") and not a.startswith("mod=")]
tmp = tempfile.mkdtemp(prefix="refb_", dir="/tmp")
try:
    V, R = tmp + "/verif", tmp + "/repo"
    shutil.copytree(HERE, V, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "__pycache__"))
    os.makedirs(V + "/replays", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    for m in mods:
        for rid, props, edits in importlib.import_module(m).R:
            if want and not any(rid.startswith(w) for w in want):
                continue
            bad = None
            for path, old, new in edits:
                t = open(f"{R}/{path}").read()
                if t.count(old) != 1:
                    bad = f"{t.count(old)} times: {old[:70]!r}"
                open(f"{R}/{path}", "w").write(t.replace(old, new))
            if not bad:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=R, capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=R))
                if "-tests" in sys.argv or r.returncode not in (0,):
                    tail = r.stdout.strip().splitlines()[-1:]
                    print(rid, "tests:", tail, flush=True)
            for p in props if not bad else []:
                t = time.time()
                try:
                    r = subprocess.run(["python3-vt", "check.py", p, "--tier", "quick"] + (["--no-proof"] if "-noproof" in sys.argv else []), cwd=V, capture_output=True, text=True,
                                       timeout=1200, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VERIF_REPO=R))
                    out = r.stdout.strip().splitlines()
                    st = {0: "ok", 1: "ALARM"}.get(r.returncode, f"rc{r.returncode}")
                    und = [l.strip() for l in out if "outside the verifier" in l]
                    fail = [l for l in out if "VIOLATION" in l or "failing input" in l or "not discharged" in l][:4]
                    if st == "ok" and und:
                        st = "undecided"
                except subprocess.TimeoutExpired:
                    st, und, fail = "TIMEOUT", [], []
                print(rid, p, st, round(time.time() - t), *[f"\n      {x[:300]}" for x in fail + und[:3]], flush=True)
            if bad:
                print("BAD", rid, bad, flush=True)
            subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
finally:
    shutil.rmtree(tmp)
