"""Contracts of TrackedObject's methods on the scalar fields that decide
lifetime and identity, as units to be discharged on the method bodies (the
functional posts below) and, in update.py, as the contracts Tracker.update is
verified against."""
from contracts.tracked import *


def minz(a, b):
    return z3.If(a <= b, a, b)


def maxz(a, b):
    return z3.If(a >= b, a, b)


def p_step(hc, age, rhc, rmax):
    """(hc, age, rhc) after tracker_step; rhc, rmax optional (none, value)"""
    start = z3.And(rhc[0], hc <= 0)
    n = z3.And(rhc[0], z3.Or(hc > 0, rmax[0]))
    v = z3.If(rhc[0], rmax[1], rhc[1] - 1)
    return hc - 1, age + 1, (n, v)


def p_hit(hc, init, period, hcm, delay):
    """(hc, init, gets ids) after hit"""
    h = minz(hc + 2 * period, hcm)
    gets = z3.And(init, h > delay)
    return h, z3.And(init, z3.Not(gets)), gets


def p_merge(init, period0, delay):
    h = 2 * period0
    gets = z3.And(init, h > delay)
    return h, z3.And(init, z3.Not(gets)), gets


KEPT = ["hit_counter_max", "pointwise_hit_counter_max", "initialization_delay", "detection_threshold", "initial_period",
        "reid_hit_counter_max", "past_detections_length", "dim_points", "num_points", "dim_z", "label", "_obj_factory", "initializing_id", "abs_to_rel"]


def optpair(v):
    if v is None:
        return z3.BoolVal(True), z3.IntVal(0)
    if isinstance(v, Opt):
        return b_(v.none), lift(v.val) if v.val is not None else z3.IntVal(0)
    return z3.BoolVal(False), lift(v)


def opteq(ctx, name, v, w):
    """optional v equals the pair w = (none, value)"""
    n, x = optpair(v)
    ctx.oblige(name, z3.And(n == w[0], z3.Implies(z3.Not(n), x == w[1])))


def ids_post(ctx, it, s, gets, what):
    """ids given exactly when `gets`, from the factory's counters"""
    gc = it.get_attr(cls(it, "_TrackedObjectFactory"), "global_count")
    cnt = ga(it, s.factory, "count")
    one = z3.If(gets, z3.IntVal(1), z3.IntVal(0))
    ctx.oblige(f"{what}: the tracker's count rises by one exactly when ids are given", lift(cnt) == s.count + one)
    ctx.oblige(f"{what}: the global count rises by one exactly when ids are given", lift(gc) == s.gc + one)
    ctx.oblige(f"{what}: initialising ids are untouched", eqv(it, ga(it, s.factory, "initializing_count"), s.icount))
    ini = ga(it, s.o, "is_initializing")
    ini = b_(it.truth_sym(ini))
    opteq(ctx, f"{what}: id given once, as the next number of this tracker", ga(it, s.o, "id"), (ini, z3.If(gets, s.count + 1, s.id)))
    opteq(ctx, f"{what}: global id given once, as the next number of the process", ga(it, s.o, "global_id"), (ini, z3.If(gets, s.gc + 1, s.gid)))


def run_step(ctx, it):
    s = arbitrary(ctx, it, 2)
    it.depth = 1
    it.call(it.get_attr(s.o, "tracker_step"), [], {})
    return s


def run_hit(ctx, it, d=2):
    s = arbitrary(ctx, it, d)
    s.det = detection(ctx, it, d, s.n)
    s.period = ctx.fint("period", 1)
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [s.det.obj], {"period": s.period})
    return s


def run_merge(ctx, it, d=2):
    """another object, without past detections (C13 treats those)"""
    s = arbitrary(ctx, it, d)
    s.other = arbitrary(ctx, it, d, n=s.n, factory=s.factory)
    ctx.mem[("list", s.other.past.lid)] = SeqVal([])
    it.depth = 1
    it.call(it.get_attr(s.o, "merge"), [s.other.o], {})
    return s
