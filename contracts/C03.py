"""C03: identifiers.  norfair.tracker.{_TrackedObjectFactory,
TrackedObject.{__init__,hit,merge,tracker_step,_acquire_ids}}."""
from contracts.objmethods import *

P = Prop("C03", assumptions=["trackers of one process run in one thread"])
COV = TR + ".TrackedObject."
FAC = TR + "._TrackedObjectFactory."


@P.unit("TrackedObject.tracker_step: ids", covers=[COV + "tracker_step"], extra=ext.all_models)
def step(ctx, it):
    s = run_step(ctx, it)
    ids_post(ctx, it, s, z3.BoolVal(False), "update")
    unchanged(ctx, it, s, ["initializing_id", "is_initializing", "_obj_factory"], "an update")


@P.unit("TrackedObject.hit: ids", covers=[COV + "hit", COV + "_acquire_ids", FAC + "get_ids"], extra=ext.all_models)
def hit(ctx, it):
    s = run_hit(ctx, it)
    h, ini, gets = p_hit(s.hc, s.init, s.period, s.hcm, s.delay)
    ids_post(ctx, it, s, gets, "match")
    unchanged(ctx, it, s, ["initializing_id", "_obj_factory"], "a match")


@P.unit("TrackedObject.merge: ids", covers=[COV + "merge", COV + "_acquire_ids", FAC + "get_ids"], extra=ext.all_models)
def merge(ctx, it):
    s = run_merge(ctx, it)
    h, ini, gets = p_merge(s.init, s.period0, s.delay)
    ids_post(ctx, it, s, gets, "re-identification")
    unchanged(ctx, it, s, ["initializing_id", "_obj_factory"], "re-identification")


@P.unit("creation: ids", covers=[COV + "__init__", FAC + "create", FAC + "get_initializing_id", FAC + "get_ids"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    gets = s.period > s.delay
    one = z3.If(gets, z3.IntVal(1), z3.IntVal(0))
    gc = it.get_attr(cls(it, "_TrackedObjectFactory"), "global_count")
    ctx.oblige("a new object that is already initialised gets ids, no other does", z3.And(
        eqv(it, ga(it, s.factory, "count"), s.count + one), eqv(it, gc, s.gc + one)))
    opteq(ctx, "id of a new object", ga(it, s.o, "id"), (z3.Not(gets), s.count + 1))
    opteq(ctx, "global id of a new object", ga(it, s.o, "global_id"), (z3.Not(gets), s.gc + 1))
    ctx.oblige("every object gets its own initialising id", z3.And(eqv(it, ga(it, s.o, "initializing_id"), s.icount + 1),
                                                                   eqv(it, ga(it, s.factory, "initializing_count"), s.icount + 1)))
    ctx.oblige("the object belongs to its tracker's factory", z3.BoolVal(ga(it, s.o, "_obj_factory") == s.factory))


@P.unit("_TrackedObjectFactory: counters", covers=[FAC + "__init__", FAC + "get_ids", FAC + "get_initializing_id"], extra=ext.all_models)
def factory(ctx, it):
    F = cls(it, "_TrackedObjectFactory")
    start = it.get_attr(F, "global_count")
    ctx.oblige("global ids start after 0", eqv(it, start, 0))
    gc = ctx.fint("global_count", 0)
    it.set_attr(F, "global_count", gc)
    it.depth = 1
    f = it.call(F, [], {})
    ctx.oblige("a new tracker has given out no ids", z3.And(eqv(it, ga(it, f, "count"), 0), eqv(it, ga(it, f, "initializing_count"), 0)))
    ctx.oblige("a new tracker does not reset the global ids", eqv(it, it.get_attr(F, "global_count"), gc))
    c, ic = ctx.fint("count", 0), ctx.fint("icount", 0)
    it.set_attr(f, "count", c)
    it.set_attr(f, "initializing_count", ic)
    r = it.call(it.get_attr(f, "get_ids"), [], {})
    ctx.oblige("the next ids", eqv(it, r, (c + 1, gc + 1)))
    ctx.oblige("the counters follow", z3.And(eqv(it, ga(it, f, "count"), c + 1), eqv(it, it.get_attr(F, "global_count"), gc + 1),
                                             eqv(it, ga(it, f, "initializing_count"), ic)))
    g = it.call(F, [], {})
    r2 = it.call(it.get_attr(g, "get_ids"), [], {})
    ctx.oblige("another tracker starts at 1 but continues the global ids", eqv(it, r2, (z3.IntVal(1), gc + 2)))
    r3 = it.call(it.get_attr(f, "get_initializing_id"), [], {})
    ctx.oblige("the next initialising id", z3.And(eqv(it, r3, ic + 1), eqv(it, ga(it, f, "initializing_count"), ic + 1),
                                                  eqv(it, ga(it, f, "count"), c + 1)))


@P.unit("Tracker.total_object_count", covers=[TR + ".Tracker.total_object_count"], extra=ext.all_models)
def total(ctx, it):
    T = cls(it, "Tracker")
    f = ctx.new_obj(cls(it, "_TrackedObjectFactory"), count=ctx.fint("count", 0), initializing_count=ctx.fint("icount", 0))
    t = ctx.new_obj(T, _obj_factory=f)
    it.depth = 1
    ctx.oblige("the total count is the number of ids given out", eqv(it, it.get_attr(t, "total_object_count"), ga(it, f, "count")))


from contracts.updprops import *

P.unit("Tracker.update: ids", covers=COVU, extra=ext.all_models)(identifiers)
uoip_units(P)
