"""C28: one prediction per update, one correction per match.  norfair.tracker:
TrackedObject.{tracker_step,hit,merge,__init__,estimate,estimate_velocity},
Tracker.update, _update_objects_in_place."""
from contracts.updprops import *

P = Prop("C28", assumptions=["the detections of one update are distinct objects", "period >= 1", "the distance functions are arbitrary but only read"],
         trusted=["a filter given by the user satisfies the filter protocol of contracts/tracked.py (C09, C10 prove it for norfair's own)",
                  "the contract of match_dets_and_objs is discharged by C04"])
COV = TR + ".TrackedObject."


def calls(ctx):
    return ctx.mem.get(("glob", "#filter", "predicts"), 0), len(ctx.mem.get(("glob", "#filter", "updates"), ()))


def filtercalls(ctx, what, predicts, updates):
    p, u = calls(ctx)
    ctx.oblige(f"{what}: the filter is advanced {('not at all', 'exactly once')[predicts]}", z3.BoolVal(p == predicts))
    ctx.oblige(f"{what}: the filter is corrected {('not at all', 'exactly once')[updates]}", z3.BoolVal(u == updates))


@P.unit("TrackedObject.tracker_step: filter", covers=[COV + "tracker_step"], extra=ext.all_models)
def step(ctx, it):
    s = run_step(ctx, it)
    filtercalls(ctx, "an update", 1, 0)
    ctx.oblige("an update keeps the filter", b_(it.identical(ga(it, s.o, "filter"), s.filter)))


@P.unit("TrackedObject.hit: filter", covers=[COV + "hit"], extra=ext.all_models)
def hit(ctx, it):
    s = run_hit(ctx, it)
    filtercalls(ctx, "a match", 0, 1)
    ctx.oblige("a match keeps the filter", b_(it.identical(ga(it, s.o, "filter"), s.filter)))


@P.unit("TrackedObject.merge: filter", covers=[COV + "merge"], extra=ext.all_models)
def merge(ctx, it):
    s = run_merge(ctx, it)
    filtercalls(ctx, "re-identification", 0, 0)
    ctx.oblige("re-identification hands over the filter", b_(it.identical(ga(it, s.o, "filter"), s.other.filter)))
    k, = idx(ctx, 2 * s.dz)
    ctx.oblige("as it is", at(ctx, ga(it, s.other.filter, "x"), k, 0) == s.other.x0(k, z0))


@P.unit("creation: filter", covers=[COV + "__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    made = ctx.mem.get(("glob", "#fac", "created"), ())
    ctx.oblige("a new object's filter is created once", z3.BoolVal(len(made) == 1))
    filtercalls(ctx, "creation", 0, 0)
    if made:
        ctx.oblige("the object uses that filter", z3.BoolVal(ga(it, s.o, "filter") == made[0][2]))


@P.unit("estimate, estimate_velocity", covers=[COV + "get_estimate", COV + "estimate", COV + "estimate_velocity"], extra=ext.all_models)
def estimate(ctx, it):
    s = arbitrary(ctx, it)
    p, = idx(ctx, s.n)
    k, = idx(ctx, 2 * s.dz)
    c = ctx.choose(s.d)
    it.depth = 1
    for nme, off in (("estimate", z0), ("estimate_velocity", s.dz)):
        e = it.get_attr(s.o, nme)
        if shape_is(ctx, nme, e, s.n, s.d):
            ctx.oblige(f"{nme} is read from the filter's state, point by point", at(ctx, e, p, c) == s.x0(off + s.d * p + c, z0))
        ctx.oblige(f"reading {nme} does not change the filter", at(ctx, ga(it, s.filter, "x"), k, 0) == s.x0(k, z0))
    filtercalls(ctx, "reading the estimates", 0, 0)


def once(ctx, it):
    s = after(ctx, it)
    r = R_(ctx)
    live = s.live0(r)
    ctx.oblige("the filter of every object that stays tracked is advanced exactly once", z3.Implies(live, s.new("#steps", r) == 1))
    ctx.oblige("no filter is advanced twice", s.new("#steps", r) <= 1)
    ctx.oblige("a filter is corrected at most once", z3.And(s.new("#hits", r) >= 0, s.new("#hits", r) <= 1))
    ctx.oblige("only filters of objects that stay tracked are corrected", z3.Implies(s.new("#hits", r) > 0, live))
    det = lambda d, m: z3.And(d.od.cond(r), m.hit(r))
    ctx.oblige("a filter is corrected exactly when its object is matched with a detection",
               (s.new("#hits", r) == 1) == disj(*[det(d, m) for d, m in s.byk.get("distance", ())]))
    for k, d in enumerate(s.dist):
        steps = d.mem[("field", "TrackedObject", "#steps")]
        ctx.oblige("distances are computed to predicted estimates", z3.Implies(d.od.cond(r), steps.get(ctx, r) == 1))
        if d.kind == "reid":
            ctx.oblige("re-identification compares predicted estimates", z3.Implies(d.cd.cond(r), steps.get(ctx, r) == 1))
        else:
            # the step was taken before a correction of this update
            hits = d.mem[("field", "TrackedObject", "#hits")]
            ctx.oblige("objects are compared with detections before they are corrected", z3.Implies(d.od.cond(r), hits.get(ctx, r) == 0))


P.unit("Tracker.update: predictions and corrections", covers=COVU, extra=ext.all_models)(once)
uoip_units(P)
