#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]

Deciding step: every proof obligation generated from /repo's current source
for the property's contracts is accepted by the solver.  Exit 0 when they all
are (and the always-run conformance replay of the same contracts on the real
code found nothing), exit 1 with a VIOLATION line otherwise."""
import argparse
import importlib
import json
import os
import subprocess
import sys
import time
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
import multiprocessing as mp

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = os.environ.get("VERIF_PY", "/opt/venv/bin/python")


def log(*a):
    print(*a, flush=True)


def prove_one(pid, k, timeout, deadline):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from pyvc import spec

    m = importlib.import_module("contracts." + pid)
    try:
        return spec.run_unit(m.P, k, timeout, deadline)
    except BaseException as e:
        return dict(unit=m.P.units[k]["name"], covers=m.P.units[k]["covers"], bounded=None, obligations=[],
                    undecided=[[m.P.units[k]["name"], f"engine stopped: {type(e).__name__}: {e}"]], inlined=[], library=[],
                    stats={}, wall=0.0, paths=0)


def start_search(pid, seed, budget, out, mx=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
    cmd = [VENV, os.path.join(HERE, "search", "run.py"), pid, "--seed", str(seed), "--budget", str(budget), "--out", out]
    if mx:
        cmd += ["--max", str(mx)]
    return subprocess.Popen(cmd, env=env, cwd=HERE, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)


def end_search(p, out, budget):
    try:
        _, err = p.communicate(timeout=budget + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(evaluations=0, distinct_nontrivial=0, samples=[], failures=[], error="search timed out")
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r
    except Exception:
        return dict(evaluations=0, distinct_nontrivial=0, samples=[], failures=[],
                    error="search harness stopped: " + err.decode(errors="replace")[-600:])


def failed_early(outs):
    for o in outs:
        try:
            with open(o) as f:
                if json.load(f)["failures"]:
                    return True
        except (OSError, ValueError, KeyError):
            pass
    return False


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    tmp = os.path.join(HERE, "replays", f".{pid}.{os.getpid()}")
    budget = 60 if thorough else 10
    nsearch = 4 if thorough else 2
    procs = [start_search(pid, seed * 1000 + i, budget, f"{tmp}.{i}") for i in range(nsearch)]
    # -- proof ---------------------------------------------------------------
    m = importlib.import_module("contracts." + pid)
    units = {}
    timeout, deadline = (60000, 500) if thorough else (20000, 260)

    def stopped(k, why):
        u = m.P.units[k]
        return dict(unit=u["name"], covers=u["covers"], bounded=None, obligations=[], undecided=[[u["name"], why]], inlined=[],
                    library=[], stats={}, wall=0.0, paths=0)

    def prove(ks, timeout, deadline, enough=lambda: False):
        """run the units; enough(): a failing input is known, which decides the
        verdict, so that the proof (which then only tells the failing
        obligations) gets no more than half a minute"""
        out, end, short = {}, time.time() + deadline + 60, False
        ex = ProcessPoolExecutor(max_workers=6, mp_context=mp.get_context("fork"))
        try:
            futs = {ex.submit(prove_one, pid, k, timeout, deadline): k for k in ks}
            todo = set(futs)
            while todo and time.time() < end:
                ready, todo = wait(todo, timeout=1, return_when=FIRST_COMPLETED)
                for f in ready:
                    try:
                        out[futs[f]] = f.result()
                    except Exception as e:
                        out[futs[f]] = stopped(futs[f], f"engine stopped: {e}")
                if not short and enough():
                    short, end = True, min(end, time.time() + 30)
            if todo:
                for p in list(ex._processes.values()):
                    p.kill()
        finally:
            ex.shutdown(wait=False, cancel_futures=True)
        return {k: out.get(k) or stopped(k, "cut short" if short else "time limit") for k in ks}

    def tally():
        us = [units[k] for k in sorted(units)]
        ob = [(u["unit"], o) for u in us for o in u["obligations"]]
        return (us, len(ob), sum(o["status"] == "proved" for _, o in ob), [x for x in ob if x[1]["status"] == "refuted"],
                [x for x in ob if x[1]["status"] not in ("proved", "refuted")], [(u["unit"], x[1]) for u in us for x in u["undecided"]])

    if not a.no_proof:
        units.update(prove(range(len(m.P.units)), timeout, deadline, lambda: failed_early([f"{tmp}.{i}" for i in range(nsearch)])))
    ulist, nobl, ndis, refuted, unknown, undecided = tally()
    complete = bool(nobl) and not refuted and not unknown and not undecided
    searches = [end_search(p, f"{tmp}.{i}", budget) for i, p in enumerate(procs)]
    fails = [f for s in searches for f in s["failures"]]
    # -- an obligation is not discharged: look harder for a failing input -----
    if not fails and not complete and not a.no_proof:
        b2, n2 = (200, 8) if thorough else (75, 7)
        ps = [start_search(pid, seed * 1000 + 500 + i, b2, f"{tmp}.x{i}") for i in range(n2)]
        more = [end_search(p, f"{tmp}.x{i}", b2) for i, p in enumerate(ps)]
        searches += more
        fails = [f for s in more for f in s["failures"]]
    # -- the solvers gave up on an obligation: once more, with more time --------
    if not fails and not refuted and unknown:
        names = {u for u, _ in unknown}
        for k, r in prove([k for k in units if units[k]["unit"] in names], 3 * timeout, 200).items():
            if r["obligations"] and not r["undecided"]:
                units[k] = r
        ulist, nobl, ndis, refuted, unknown, undecided = tally()
    # -- confirm each failing input in a fresh process -------------------------
    confirmed, known = None, []
    kf = load_known(pid)
    for f in fails:
        rp = os.path.join(HERE, "replays", f"{pid}-{seed}.json")
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, input=f["input"], what=f["what"],
                           failed_obligations=[dict(unit=u, obligation=o["name"], status=o["status"]) for u, o in refuted + unknown],
                           replay_cmd=f"{VENV} {HERE}/search/run.py {pid} --replay {rp}"), fh, indent=1)
        try:
            rc = subprocess.run([VENV, os.path.join(HERE, "search", "run.py"), pid, "--replay", rp], cwd=HERE,
                                capture_output=True, timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1")).returncode
        except subprocess.TimeoutExpired:
            rc = 1
        if rc != 1:
            continue
        hit = [k for k in kf if k["match"] in f["what"]]
        if hit:
            known.append(hit[0])
            continue
        confirmed = (rp, f)
        break
    # -- a failing input that is not confirmed does not cut the proof short ----
    cut = [k for k, u in units.items() if [x[1] for x in u["undecided"]] == ["cut short"]]
    if cut and not confirmed:
        units.update(prove(cut, timeout, deadline))
        ulist, nobl, ndis, refuted, unknown, undecided = tally()
    violation = None
    if confirmed:
        violation = f"VIOLATION property={pid} replay={confirmed[0]}"
    elif refuted or unknown:
        rp = os.path.join(HERE, "replays", f"{pid}-{seed}-obligation.json")
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, input=None, failed_obligations=[
                dict(unit=u, obligation=o["name"], status=o["status"], backend=o["backend"], detail=o["detail"], output=o["smt"])
                for u, o in refuted + unknown]), fh, indent=1)
        violation = f"VIOLATION property={pid} replay={rp} no-failing-input-found"
    # -- evidence --------------------------------------------------------------
    backends = {}
    for u in ulist:
        for o in u["obligations"]:
            if o["status"] == "proved":
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    undec_units = {u for u, _ in undecided} | {u for u, _ in unknown} | {u for u, _ in refuted}
    proved_fn = sorted({c for u in ulist if u["unit"] not in undec_units and not u["bounded"] for c in u["covers"]} -
                       {c for u in ulist if u["unit"] in undec_units for c in u["covers"]})
    bounded_fn = sorted({c for u in ulist if u["unit"] in undec_units or u["bounded"] for c in u["covers"]})
    samples = [x for s in searches for x in s["samples"]][:2]
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd=f"python3-vt check.py {pid} --tier {tier}",
        trusted_base=m.P.trusted + COMMON_TRUSTED + ["modelled library functions used: " + ", ".join(
            sorted({x for u in ulist for x in u["library"]}))],
        functions_under_contract=proved_fn, functions_bounded_only=bounded_fn,
        functions_inlined=sorted({x for u in ulist for x in u["inlined"]}),
        units=[dict(unit=u["unit"], obligations=len(u["obligations"]), discharged=sum(o["status"] == "proved" for o in u["obligations"]),
                    paths=u["paths"], wall_s=round(u["wall"], 2), bounded=u["bounded"], undecided=[x[1][:400] for x in u["undecided"]])
               for u in ulist],
        discharged_by=backends, solver_s=round(sum(u["stats"].get("smt_s", 0) + u["stats"].get("feas_s", 0) for u in ulist), 2),
        side_obligations=sum(u["stats"].get("side", 0) for u in ulist),
        not_discharged=[dict(unit=u, obligation=o["name"], status=o["status"]) for u, o in refuted + unknown],
        conformance=dict(evaluations=sum(s["evaluations"] for s in searches),
                         distinct_nontrivial=sum(s["distinct_nontrivial"] for s in searches),
                         rule=next((s["rule"] for s in searches if s.get("rule")), ""), samples=samples,
                         errors=[s["error"] for s in searches if s.get("error")]),
    )
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level=getattr(m, "LEVEL", "proof"), coverage=cov,
                       assumptions=m.P.assumptions + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
                       violations=1 if violation else 0), f, indent=1)
    log(f"{pid}: {ndis}/{nobl} obligations discharged in {len(ulist)} units; {len(proved_fn)} functions proved, "
        f"{len(bounded_fn)} bounded only; {cov['conformance']['evaluations']} replays; {time.time()-t0:.1f}s")
    for u, o in refuted + unknown:
        log(f"  not discharged: [{o['status']}] {u}: {o['name']}")
    for u, x in [y for y in undecided if y[1] != "cut short"]:
        log(f"  outside the verifier's reach (bounded check stands in): {u}: {x.splitlines()[0][:300] if x else ''}")
    for s in searches:
        if s.get("error"):
            log("  ", s["error"])
    for k in {json.dumps(k) for k in known}:
        log(f"KNOWN-FINDING: property={pid} {json.loads(k)['text']}")
    if violation:
        if confirmed:
            log("  failing input:", confirmed[1]["what"][:600])
        log(violation)
        sys.exit(1)
    sys.exit(0)


def load_known(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for l in f:
                # known: property=C00 match="text of the failure" what fails
                if l.startswith(f"known: property={pid} "):
                    rest = l.split("match=", 1)[1]
                    mt, text = json.JSONDecoder().raw_decode(rest)
                    out.append(dict(match=mt, text=rest[text:].strip()))
    except FileNotFoundError:
        pass
    return out


COMMON_TRUSTED = ["pyvc: the AST interpreter, loop rules and library models under /verif/pyvc (cross-checked against CPython and numpy by selfcheck.py)",
                  "z3 5.3.2 and cvc5 (an obligation accepted by either is discharged)"]
COMMON_ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic, machine integers as mathematical integers",
                      "dropped by the extraction: annotations, docstrings, logging/warning output; no reflection or monkey patching of norfair"]

if __name__ == "__main__":
    main()
