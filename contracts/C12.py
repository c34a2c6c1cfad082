"""C12: per-point liveness.  norfair.tracker.TrackedObject.{__init__,
tracker_step,hit,live_points}: point_hit_counter."""
from contracts.tracked import *

P = Prop("C12", assumptions=["points have 1, 2 or 3 coordinates (case split); the number of points is arbitrary",
                             "the filter satisfies the filter protocol of contracts/tracked.py", "period >= 1"])


@P.unit("TrackedObject.hit: point counters", covers=[TR + ".TrackedObject.hit"], extra=ext.all_models)
def hit(ctx, it):
    s = arbitrary(ctx, it)
    det = detection(ctx, it, s.d, s.n)
    period = ctx.fint("period", 1)
    i, = idx(ctx, s.n)
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [det.obj], {"period": period})
    pc = ga(it, s.o, "point_hit_counter")
    if shape_is(ctx, "point counters", pc, s.n):
        v = at(ctx, pc, i)
        old = s.phc0(i)
        up = z3.If(det.over(i, s.thr), old + 2 * period, old)
        want = z3.If(up >= s.pcm, s.pcm, z3.If(up < 0, z3.IntVal(0), up))
        ctx.oblige("a matched point above the score threshold gains twice the period, all counters stay within 0 and the maximum", v == want)
        ctx.oblige("counters between 0 and the maximum", z3.And(v >= 0, v <= s.pcm))
        lp = it.get_attr(s.o, "live_points")
        if shape_is(ctx, "live points", lp, s.n):
            ctx.oblige("a point is live exactly when its counter is positive", at(ctx, lp, i) == (v > 0))


@P.unit("TrackedObject.tracker_step: point counters", covers=[TR + ".TrackedObject.tracker_step", TR + ".TrackedObject.live_points"], extra=ext.all_models)
def step(ctx, it):
    s = arbitrary(ctx, it)
    i, = idx(ctx, s.n)
    it.depth = 1
    it.call(it.get_attr(s.o, "tracker_step"), [], {})
    pc = ga(it, s.o, "point_hit_counter")
    if shape_is(ctx, "point counters", pc, s.n):
        v = at(ctx, pc, i)
        ctx.oblige("every point counter is lowered by one per update", v == s.phc0(i) - 1)
        lp = it.get_attr(s.o, "live_points")
        if shape_is(ctx, "live points", lp, s.n):
            ctx.oblige("a point is live exactly when its counter is positive", at(ctx, lp, i) == (v > 0))


@P.unit("creation: point counters", covers=[TR + ".TrackedObject.__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    i, = idx(ctx, s.n)
    pc = ga(it, s.o, "point_hit_counter")
    if shape_is(ctx, "point counters", pc, s.n):
        over = s.det.over(i, s.thr)
        ctx.oblige("a new point counts 1 if its score exceeds the threshold (or there are none), else 0",
                   at(ctx, pc, i) == z3.If(over, z3.IntVal(1), z3.IntVal(0)))
        lp = it.get_attr(s.o, "live_points")
        ctx.oblige("a point is live exactly when its counter is positive", at(ctx, lp, i) == over)
    ctx.oblige("the counters' maximum is at least the creation period", z3.And(
        eq_real(ga(it, s.o, "pointwise_hit_counter_max"), z3.If(s.pw >= s.period, s.pw, s.period))))
    ctx.oblige("seen points are not aliased by the counters", z3.BoolVal(
        ga(it, s.o, "point_hit_counter").sid != ga(it, s.o, "detected_at_least_once_points").sid))
    sc = s.det.scores
    if sc is not None:
        ctx.oblige("scores unchanged", at(ctx, sc, i) == s.det.ssnap(i))
