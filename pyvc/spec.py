"""Units of verification: one unit = one function (or a chain of public
operations) of /repo under contract.  A unit's function receives (ctx, it),
builds an arbitrary pre-state satisfying the precondition, runs the real body
through the interpreter and emits the postconditions as obligations."""
import time
import traceback

import z3

from .core import *
from . import npmodel as N, models as M
from .interp import *

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Prop:
    def __init__(self, pid, trusted=(), assumptions=()):
        self.pid, self.units, self.trusted, self.assumptions = pid, [], list(trusted), list(assumptions)

    def unit(self, name, covers=(), contracts=None, extra=None, bounded=None, while_rules=None, deep=False):
        """covers: qualified names of the /repo functions whose contract this
        unit discharges.  contracts: contracts assumed for callees (each of
        them is discharged by another unit)."""

        def deco(fn):
            self.units.append(dict(name=name, covers=list(covers), contracts=contracts, extra=extra, fn=fn, bounded=bounded,
                                   while_rules=while_rules, deep=deep))
            return fn

        return deco


def run_unit(prop, k, timeout=20000, deadline_s=240):
    u = prop.units[k]
    eng = Engine(timeout=timeout, deadline=time.time() + deadline_s)
    eng.deep = u["deep"]
    eng.base_axioms += N.base_axioms()
    t0 = time.time()
    inl = set()
    reach, sane = [0], [0]

    extra = u["extra"]() if callable(u["extra"]) else u["extra"]
    loaded = {}

    def prelude(ctx):
        """the modules of /repo, executed once: every path starts from them"""
        it = M.make_interp(ctx, extra, {})
        for m in it.PKG:
            it.load(m)
        loaded.update(it.loading)

    def setup(ctx):
        con = u["contracts"]() if callable(u["contracts"]) else u["contracts"]
        it = M.make_interp(ctx, extra, con)
        it.loading = dict(loaded)
        if u["while_rules"]:
            it.while_rules = list(u["while_rules"])
        try:
            r = u["fn"](ctx, it)
            if sane[0] < 2 and not ctx.prove_quiet(z3.BoolVal(False), 1500):
                sane[0] += 1
        finally:
            inl.update(it.inlined)
        return r

    err = None
    try:
        outs = eng.run(u["name"], setup, prelude)
        reach[0] = sum(1 for o in outs if o[0] == "ok")
        # reachability: a contradictory precondition makes every path vacuous
        if outs and not reach[0] and not eng.undecided and all(o.status == "proved" for o in eng.obls):
            eng.undecided.append((u["name"], "no path reaches the postcondition"))
        elif reach[0] and not sane[0]:
            eng.undecided.append((u["name"], "the assumptions are contradictory on every path"))
    except Exception as e:  # an engine bug is never a verdict
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:]
        eng.undecided.append((u["name"], "engine error: " + err))
    if not eng.obls and not eng.undecided:
        eng.undecided.append((u["name"], "zero obligations generated"))
    return dict(unit=u["name"], covers=u["covers"], bounded=u["bounded"],
                obligations=[dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 4), detail=o.detail,
                                  smt=o.smt) for o in eng.obls],
                undecided=[list(x) for x in eng.undecided], inlined=sorted(inl), library=sorted(map(str, eng.used)),
                stats=eng.stats, wall=time.time() - t0, paths=reach[0])


# -- helpers for contracts -----------------------------------------------
def real_arr(ctx, name, shape, dtype="f", **kw):
    sorts = [d.sort if isinstance(d, Dom) else I for d in shape]
    rng = {"f": R, "f32": R, "i": I, "b": B, "u8": I}[dtype]
    f = ctx.fresh_fn(name, sorts, rng)
    a = ctx.new_arr(tuple(shape), dtype, f)
    if dtype == "u8":  # what every uint8 array satisfies
        vs = [z3.Const(f"#u{k}", s) for k, s in enumerate(sorts)]
        t = f(*vs)
        ctx.axiom(z3.ForAll(vs, z3.And(t >= 0, t < 256), patterns=[t]))
    return a


def idx(ctx, *dims, base="i"):
    """Generic indices within the given dimensions."""
    out = []
    for d in dims:
        if isinstance(d, Dom):
            g = z3.Const(ctx.name("k_" + base), d.sort)
            ctx.assume_in(d, g)
        else:
            g = z3.Const(ctx.name("k_" + base), I)
            ctx.assume(z3.And(g >= 0, g < d))
        out.append(g)
    return out


def at(ctx, a, *ix):
    return lift(a.snap(ctx)(*[lift(i) for i in ix]))


def ga(it, o, name):
    """Attribute of the representation; if a change renamed it the contract
    no longer applies to this class (undecided, not a violation)."""
    try:
        return it.get_attr(o, name)
    except PyRaise as e:
        raise Unsupported(f"representation attribute {name}: {e}")


def shape_is(ctx, name, a, *dims):
    """Obligation: a is an array of exactly this shape."""
    if not isinstance(a, NDArr):
        ctx.oblige(name + ": result is an array", z3.BoolVal(False), f"got {a!r}")
        return False
    ok = len(a.shape) == len(dims) and all(ctx.same_dim(x, y) for x, y in zip(a.shape, dims))
    ctx.oblige(name + ": shape", z3.BoolVal(bool(ok)), f"{a.shape} vs {dims}")
    return ok


def eq_real(a, b):
    return to_real(lift(a)) == to_real(lift(b))


def call_raises(it, f, args, kw=None):
    """Returns ('ok', value) or ('raise', exception class)."""
    try:
        return "ok", it.call(f, args, kw or {})
    except PyRaise as e:
        return "raise", e


def expect_true(ctx, name, v, it=None, detail=""):
    if it is not None:
        v = it.truth_sym(v)
    ctx.oblige(name, b_(v), detail)
