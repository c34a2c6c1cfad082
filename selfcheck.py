#!/usr/bin/env python3
"""Conformance of pyvc (evaluator, loop rules, library models) with CPython and
numpy.  Every snippet is run by CPython on random values, and by the engine on
symbolic arguments (arrays of symbolic size and content, symbolic numbers)
under the assumption that they have those values; the engine has to prove that
the results are the same.  A result it proves to be different is a MISMATCH; a
construct it does not support, or a result it can neither prove nor disprove,
is only counted (such code is undecided for the checks, never proved).

usage: python3-vt selfcheck.py [-n ROUNDS] [-s SEED] [-j PROCESSES] [-v] [substring...]"""
import argparse
import ast
import multiprocessing
import sys
import time
from fractions import Fraction

sys.dont_write_bytecode = True
import numpy as np
import z3

import pyvc.interp as interp
import pyvc.models as M
from pyvc.core import *
from pyvc.interp import ModuleVal
from pyvc.spec import I, R, real_arr
from selfcheck_cases import CASES

ARGS = "a b v w m M s t i j n u z e l d q x y".split()


def values(rng, n):
    q = lambda *sh: np.round(rng.integers(-8, 9, size=sh) / 4 + 0.0, 2)
    return dict(a=q(n, 2), b=q(n, 2), v=q(n), w=np.abs(q(n)) + 0.25, m=rng.integers(0, 2, size=n).astype(bool), M=q(2, 2) + 5 * np.eye(2), s=float(q(1)[0]), t=float(q(1)[0]) + 3,
                i=int(rng.integers(0, n)), j=int(rng.integers(-n, n)), n=n, u=rng.integers(0, 256, size=(n, 3)).astype(np.uint8), z=q(3, 2), e=rng.integers(-3, 4, size=n),
                l=[float(x) for x in q(n)], d={"k": 1.5, "h": 2}, q=bool(rng.integers(2)), x=int(rng.integers(-7, 8)), y=int(rng.integers(1, 5)))


def fr(v):
    return z3.RealVal(Fraction(float(v)).limit_denominator(10 ** 9))


def symbolic(ctx, it, vals):
    """symbolic arguments assumed to have the given values"""
    n = ctx.fint("n", 0)
    N = vals["n"]
    ctx.assume(n == N)
    out = {"n": n}

    def pin(name, shape, dtype):
        a = real_arr(ctx, name, shape, dtype)
        v = vals[name]
        get = a.snap(ctx)
        for ix in np.ndindex(*v.shape):
            c = lift(get(*[z3.IntVal(k) for k in ix]))
            x = v[ix]
            ctx.assume(c == (z3.BoolVal(bool(x)) if dtype == "b" else z3.IntVal(int(x)) if dtype in ("i", "u8") else fr(x)))
        return a

    for k in ("a", "b"):
        out[k] = pin(k, (n, 2), "f")
    for k in ("v", "w"):
        out[k] = pin(k, (n,), "f")
    out["m"], out["e"], out["u"] = pin("m", (n,), "b"), pin("e", (n,), "i"), pin("u", (n, 3), "u8")
    out["M"], out["z"] = pin("M", (2, 2), "f"), pin("z", (3, 2), "f")
    for k in ("s", "t"):
        out[k] = ctx.freal(k)
        ctx.assume(out[k] == fr(vals[k]))
    for k in ("i", "j", "x", "y"):
        out[k] = ctx.fint(k)
        ctx.assume(out[k] == vals[k])
    out["q"] = ctx.fbool("q")
    ctx.assume(out["q"] == vals["q"])
    f = ctx.fresh_fn("l", [I], R)
    for k, x in enumerate(vals["l"]):
        ctx.assume(f(z3.IntVal(k)) == fr(x))
    out["l"] = ctx.new_list(SeqVal([SymPart(Dom.dense(n), lambda g: f(g))]))
    out["d"] = it.call(it.models["builtins"].attrs["dict"], [], dict(vals["d"]))
    return out


class Diff(Exception):
    pass


def same(ctx, it, got, want, path, acc):
    """collect the equations that make got the same as want"""
    if type(got).__name__ in ("FlatIdx", "TupleLike", "StrExpr", "AbsIdx"):
        raise Unsupported(f"comparison of a {type(got).__name__}")
    if isinstance(got, Opt):
        if want is None:
            acc.append((path, b_(got.none)))
            return
        acc.append((path, z3.Not(b_(got.none))))
        got = got.val
    if isinstance(want, np.ndarray):
        if not isinstance(got, NDArr):
            raise Diff(f"{path}: {got!r} is no array")
        if got.ndim != want.ndim:
            raise Diff(f"{path}: {got.ndim} dimensions, not {want.ndim}")
        for p, q in zip(got.shape, want.shape):
            if isinstance(p, Dom):
                if p.n is None:
                    raise Unsupported("sparse dimension")
                p = p.n
            acc.append((path + ".shape", lift(p) == q))
        g = got.snap(ctx)
        kind = {"f": "f", "f32": "f", "i": "i", "u8": "i", "b": "b"}.get(got.dtype, got.dtype)
        wk = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(want.dtype.kind)
        if want.size and kind != wk:
            raise Diff(f"{path}: dtype {got.dtype}, not {want.dtype}")
        for ix in np.ndindex(*want.shape):
            same(ctx, it, g(*[z3.IntVal(k) for k in ix]), want[ix], f"{path}{list(ix)}", acc)
    elif isinstance(want, (list, tuple)):
        if isinstance(want, tuple) != isinstance(got, tuple):
            raise Diff(f"{path}: {got!r}, not {want!r}")
        seq = it.iter_seq(got)
        acc.append((path + ".len", lift(it.seq_len(seq)) == len(want)))
        c = seq.concrete()
        for k, x in enumerate(want):
            same(ctx, it, c[k] if c is not None and k < len(c) else it.get_item(got, k), x, f"{path}[{k}]", acc)
    elif isinstance(want, dict):
        for k, x in want.items():
            same(ctx, it, it.get_item(got, k), x, f"{path}[{k!r}]", acc)
    elif want is None or isinstance(want, str):
        e = it.equal(got, want)
        acc.append((path, e if is_sym(e) else z3.BoolVal(bool(e))))
    elif isinstance(want, (bool, np.bool_)):
        if is_num(got) and not isinstance(got, bool):
            raise Diff(f"{path}: {got!r}, not {want!r}")
        acc.append((path, lift(it.truth_sym(got)) == bool(want)))
    elif isinstance(want, (int, float, np.integer, np.floating)):
        if not is_num(got):
            raise Diff(f"{path}: {got!r}, not {want!r}")
        g = lift(got)
        if isinstance(want, (int, np.integer)):
            acc.append((path, g == int(want)))
        elif np.isinf(want):
            acc.append((path, g == to_real(lift(float(want)))))
        else:
            g = to_real(g)
            acc.append((path, z3.And(g - fr(want) <= z3.RealVal("1e-6"), fr(want) - g <= z3.RealVal("1e-6"))))
    else:
        raise Unsupported(f"result of type {type(want).__name__}")


def run_case(name, src, vals, verbose):
    """'ok' | 'mismatch: ..' | 'unsupported: ..' | 'open: ..'"""
    text = "import numpy as np\n" + src
    env = {}
    exec(text, env)
    args = {k: (v.copy() if isinstance(v, (np.ndarray, list, dict)) else v) for k, v in vals.items()}
    with np.errstate(all="ignore"):
        try:
            want, exc = env["f"](*[args[k] for k in ARGS]), None
        except Exception as e:
            want, exc = None, e
    if want is not None and exc is None and isinstance(want, np.ndarray) and want.dtype.kind == "f" and not np.isfinite(want).all():
        return "skipped"
    key = ("selfcheck_" + name, "selfcheck_" + name)
    eng = Engine(timeout=4000, deadline=time.time() + 60)
    eng.base_axioms += M.N.base_axioms()
    res = []

    def setup(ctx):
        it = M.make_interp(ctx)
        real = interp.module_ast
        interp.module_ast = lambda mod: (ast.parse(text), "selfcheck.py") if mod == "selfcase" else real(mod)
        try:
            mod = it.load("selfcase")
            sym = symbolic(ctx, it, vals)
            try:
                got = it.call(it.modattr(mod, "f"), [sym[k] for k in ARGS], {})
            except PyRaise as e:
                if exc is None:
                    if ctx.prove_quiet(z3.BoolVal(False), 3000):
                        return
                    res.append(f"mismatch: raises {e}, CPython returns {want!r}")
                elif isinstance(e.cls, type) and issubclass(type(exc), e.cls) or getattr(e.cls, "__name__", "") == type(exc).__name__:
                    res.append("ok")
                else:
                    res.append(f"mismatch: raises {e}, CPython raises {type(exc).__name__}: {exc}")
                return
            if exc is not None:
                if not ctx.prove_quiet(z3.BoolVal(False), 3000):
                    res.append(f"mismatch: returns {got!r}, CPython raises {type(exc).__name__}: {exc}")
                return
            acc = []
            try:
                same(ctx, it, got, want, "result", acc)
            except Diff as e:
                if not ctx.prove_quiet(z3.BoolVal(False), 3000):
                    res.append(f"mismatch: {e}")
                return
            bad = None
            if not ctx.prove_quiet(z3.And([g for _, g in acc]) if acc else z3.BoolVal(True), 4000):
                for p, g in acc:
                    if ctx.prove_quiet(g, 1500):
                        continue
                    if ctx.prove_quiet(z3.Not(g), 1500):
                        if not ctx.prove_quiet(z3.BoolVal(False), 3000):
                            res.append(f"mismatch: {p} differs from {want!r}: {z3.simplify(g)}")
                        return
                    bad = bad or p
            res.append("ok" if bad is None else f"open: {bad} {want!r}")
        finally:
            interp.module_ast = real

    eng.run("case", setup)
    und = [str(u[1]) for u in eng.undecided]
    for k in ("mismatch", "open"):
        for r in res:
            if r.startswith(k):
                return r
    failed = [o.name for o in eng.obls if o.status != "proved"]
    if und:
        return "unsupported: " + und[0][:140]
    if failed:
        return "open: side obligation " + failed[0]
    return "ok" if res else "open: no path"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=1)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("what", nargs="*")
    o = ap.parse_args()
    todo = [(name, src, o.s, r, o.v) for name, src in CASES if not o.what or any(w in name or w in src for w in o.what) for r in range(o.n)]
    count, bad = {}, 0
    with multiprocessing.Pool(o.j, maxtasksperchild=20) as pool:
        for name, src, st in pool.imap(one, todo):
            k = st.split(":")[0]
            count[k] = count.get(k, 0) + 1
            bad += k == "mismatch"
            if k == "mismatch" or o.v and k != "ok":
                print(f"{k.upper() if k == 'mismatch' else k}: {name}: {st[len(k) + 2:][:400]}\n    {src.strip().splitlines()[-1].strip()}", flush=True)
    print(count)
    return 1 if bad else 0


def one(a):
    name, src, seed, r, verbose = a
    rng = np.random.default_rng([seed, r, sum(map(ord, name + src))])
    try:
        return name, src, run_case(name, src, values(rng, int(rng.integers(1, 5))), verbose)
    except Exception as e:
        if verbose:
            import traceback
            traceback.print_exc()
        return name, src, f"mismatch: engine error {type(e).__name__}: {e}"


if __name__ == "__main__":
    sys.exit(main())
