"""C14: re-identification.  norfair.tracker.Tracker.{update,
_update_objects_in_place}, TrackedObject.{tracker_step,hit,merge}."""
from contracts.updprops import *

P = Prop("C14", assumptions=["the detections of one update are distinct objects", "period >= 1", "the distance functions are arbitrary but only read"],
         trusted=["the contract of match_dets_and_objs is discharged by C04"])
COV = TR + ".TrackedObject."
P.unit("Tracker.update: re-identification", covers=COVU, extra=ext.all_models)(reidentification)
uoip_units(P)


@P.unit("TrackedObject.tracker_step: countdown", covers=[COV + "tracker_step", COV + "reid_hit_counter_is_positive"], extra=ext.all_models)
def step(ctx, it):
    s = run_step(ctx, it)
    hc, age, rhc = p_step(s.hc, s.age, optpair(s.rhc), optpair(s.rmax))
    opteq(ctx, "the countdown starts when the counter runs out and is lowered once per update", ga(it, s.o, "reid_hit_counter"), rhc)
    ctx.oblige("time is up when the countdown is negative", b_(it.truth_sym(it.get_attr(s.o, "reid_hit_counter_is_positive"))) == z3.Or(rhc[0], rhc[1] >= 0))
    unchanged(ctx, it, s, KEPT + ["is_initializing", "id", "global_id", "last_distance", "current_min_distance"], "an update")
    for n, w in (("last_detection", s.last), ("filter", s.filter), ("detected_at_least_once_points", s.seen)):
        ctx.oblige(f"an update keeps {n}", b_(it.identical(ga(it, s.o, n), w)))


@P.unit("TrackedObject.hit: countdown", covers=[COV + "hit"], extra=ext.all_models)
def hit(ctx, it):
    s = run_hit(ctx, it)
    opteq(ctx, "a match cancels the countdown", ga(it, s.o, "reid_hit_counter"), (z3.BoolVal(True), z3.IntVal(0)))
    ctx.oblige("the last detection is the matched one", b_(it.identical(ga(it, s.o, "last_detection"), s.det.obj)))
    unchanged(ctx, it, s, KEPT + ["age", "last_distance", "current_min_distance"], "a match")
    ctx.oblige("a match keeps the filter", b_(it.identical(ga(it, s.o, "filter"), s.filter)))


@P.unit("TrackedObject.merge: what is taken over", covers=[COV + "merge"], extra=ext.all_models)
def merge(ctx, it):
    s = run_merge(ctx, it)
    o, q = s.o, s.other
    opteq(ctx, "re-identification cancels the countdown", ga(it, o, "reid_hit_counter"), (z3.BoolVal(True), z3.IntVal(0)))
    ctx.oblige("the position is taken over", b_(it.identical(ga(it, o, "filter"), q.filter)))
    x = ga(it, ga(it, o, "filter"), "x")
    k, = idx(ctx, 2 * s.dz)
    ctx.oblige("with its value", at(ctx, x, k, 0) == q.x0(k, z0))
    ctx.oblige("the last detection is taken over", b_(it.identical(ga(it, o, "last_detection"), q.last)))
    i, = idx(ctx, s.n)
    for n, w in (("point_hit_counter", q.phc0), ("detected_at_least_once_points", q.seen0)):
        a = ga(it, o, n)
        if shape_is(ctx, f"{n} is taken over", a, s.n):
            ctx.oblige(f"{n} is taken over", at(ctx, a, i) == w(i))
    for n in ("last_distance", "current_min_distance"):
        ctx.oblige(f"{n} is taken over", b_(it.equal(ga(it, o, n), q.attrs[n])))
    unchanged(ctx, it, s, KEPT + ["age"], "re-identification")
    ids = [ga(it, o, n) for n in ("id", "global_id")]
    for n, v, w in (("id", ids[0], s.id), ("global id", ids[1], s.gid)):
        nn, xx = optpair(v)
        ctx.oblige(f"an object that has its {n} keeps it", z3.Implies(z3.Not(s.init), z3.And(z3.Not(nn), xx == w)))
