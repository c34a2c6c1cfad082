#!/usr/bin/env python3
"""Write and confirm planted bugs.  usage: plant.py SPECMODULE [id...]

Every bug is confirmed in a scratch copy of /repo: the patch applies, the stable tests pass with it, and
its demonstration exits 0 without and nonzero with it.  Confirmed bugs go to /verif/seeded/<id>/."""
import difflib, importlib, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
OUT = os.environ.get("SEEDED", "/verif/seeded")
PY = "/opt/venv/bin/python"
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n"
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])


def run(cmd, cwd, timeout=300):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def base_text(path):
    return subprocess.run(["git", "-C", "/repo", "show", "e113bb7:" + path], capture_output=True, text=True).stdout


def main():
    mod = importlib.import_module(sys.argv[1])
    want = set(sys.argv[2:])
    for bid, prop, edits, needs, breaks, demo in mod.P:
        if want and bid not in want:
            continue
        tmp = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
        try:
            w = os.path.join(tmp, "repo")
            subprocess.run(["cp", "-a", "/repo", w], check=True)
            new = {}
            bad = None
            for path, old, rep in edits:
                text = new.get(path) or open(os.path.join("/repo", path)).read()
                if text.count(old) != 1:
                    bad = f"old text found {text.count(old)} times in {path}: {old[:60]!r}"
                    break
                new[path] = text.replace(old, rep)
            if bad:
                print("BAD", bid, bad)
                continue
            patch = ""
            for path, text in new.items():
                a = open(os.path.join("/repo", path)).read().splitlines(True)
                patch += f"diff --git a/{path} b/{path}\n" + "".join(
                    difflib.unified_diff(a, text.splitlines(True), "a/" + path, "b/" + path))
                removed = [l[1:] for l in difflib.unified_diff(a, text.splitlines(True), n=0) if l.startswith("-") and not l.startswith("---")]
                b = base_text(path).splitlines(True)
                mine = [l for l in removed if l not in b]
                if mine:
                    print("  note", bid, "removes lines not in the base:", mine)
            d = os.path.join(tmp, "demo")
            os.makedirs(d)
            open(os.path.join(d, "demo.py"), "w").write(HEAD + demo)
            open(os.path.join(d, "demo.sh"), "w").write(
                '#!/bin/bash\n# exit 0: the property holds; run with the working directory at the repository\n'
                f'exec {PY} "$(dirname "$0")/demo.py"\n')
            pf = os.path.join(tmp, "patch.diff")
            open(pf, "w").write(patch)
            r = run(["bash", os.path.join(d, "demo.sh")], w)
            if r.returncode != 0:
                print("BAD", bid, "demo fails on the unchanged tree:", r.stderr[-600:])
                continue
            r = run(["git", "apply", pf], w)
            if r.returncode:
                print("BAD", bid, "does not apply", r.stderr)
                continue
            r = run(["bash", os.path.join(d, "demo.sh")], w)
            if r.returncode == 0:
                print("BAD", bid, "demo passes with the bug")
                continue
            why = r.stderr.strip().splitlines()[-1:] or r.stdout.strip().splitlines()[-1:]
            r = run(["env", "PYTHONPATH=" + w, PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                     "--disable-warnings", "--tb=no", "tests"], w)
            tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-200:]
            fails = [l for l in r.stdout.splitlines() if l.startswith("FAILED") or l.startswith("ERROR")]
            if fails:
                print("BAD", bid, "tests notice:", fails[:3], tail)
                continue
            dst = os.path.join(OUT, bid)
            os.makedirs(dst, exist_ok=True)
            shutil.copy(pf, os.path.join(dst, "patch.diff"))
            for f in ("demo.py", "demo.sh"):
                shutil.copy(os.path.join(d, f), dst)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
            print("ok ", bid, prop, tail, "|", why)
        finally:
            shutil.rmtree(tmp)


main()
