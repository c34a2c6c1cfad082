"""C11: the score threshold.  norfair.tracker.TrackedObject.{hit,__init__}:
what is fed to the filter and what is written to the estimate."""
from contracts.tracked import *

P = Prop("C11", trusted=["a filter given by the user satisfies the filter protocol of contracts/tracked.py (C09, C10 prove it for norfair's own)"],
         assumptions=["points have 1, 2 or 3 coordinates (case split); the number of points is arbitrary", "period >= 1"])


@P.unit("TrackedObject.hit: measurement", covers=[TR + ".TrackedObject.hit"], extra=ext.all_models)
def hit(ctx, it):
    s = arbitrary(ctx, it)
    det = detection(ctx, it, s.d, s.n)
    d, n, dz = s.d, s.n, s.dz
    p, j = idx(ctx, n, dz)
    c = ctx.choose(d)
    it.depth = 1
    f0 = ga(it, s.o, "filter")
    it.call(it.get_attr(s.o, "hit"), [det.obj], {"period": ctx.fint("period", 1)})
    calls = ctx.mem.get(("glob", "#filter", "updates"), ())
    ctx.oblige("the filter is updated exactly once", z3.BoolVal(len(calls) == 1))
    ctx.oblige("a match does not predict", z3.BoolVal(ctx.mem.get(("glob", "#filter", "predicts"), 0) == 0))
    ctx.oblige("the filter is kept", z3.BoolVal(ga(it, s.o, "filter") == f0))
    if len(calls) != 1:
        return
    u = calls[0]
    i = d * p + c
    over = det.over(p, s.thr)
    if shape_is(ctx, "measurement", u.z, dz, 1):
        ctx.oblige("every point above the threshold is fed to the filter unchanged", z3.Implies(over, u.zs(i, z0) == det.asnap(p, z3.IntVal(c))))
    ctx.oblige("the measurement noise is the filter's own", z3.BoolVal(u.R is None))
    if u.H is None:
        ctx.oblige("without scores every point is measured", z3.BoolVal(det.scores is None))
    elif shape_is(ctx, "measurement matrix", u.H, dz, 2 * dz):
        h = lambda a, b: to_real(lift(u.hs(a, b)))
        ctx.oblige("points at or below the threshold are masked out, the others measured", h(i, i) == z3.If(over, z3.RealVal(1), z3.RealVal(0)))
        ctx.oblige("the measurement matrix is diagonal", z3.Implies(i != j, h(i, j) == 0))
        ctx.oblige("velocities are not measured", h(i, dz + j) == 0)
    x = ga(it, s.filter, "x")
    if not shape_is(ctx, "filter state", x, 2 * dz, 1):
        return
    seen = s.seen0(p)
    pos, vel = at(ctx, x, i, 0), at(ctx, x, dz + i, 0)
    a = det.asnap(p, z3.IntVal(c))
    ctx.oblige("a point seen for the first time takes exactly its measured position", z3.Implies(z3.And(over, z3.Not(seen)), pos == a))
    ctx.oblige("a point at or below the threshold is never written to the estimate", z3.Implies(z3.Not(over), pos == s.x0(i, z0)))
    ctx.oblige("a point seen before takes the filter's estimate", z3.Implies(z3.And(over, seen), pos == u.after(i)))
    ctx.oblige("points never seen before this match keep zero velocity", z3.Implies(z3.Not(seen), vel == 0))
    ctx.oblige("the velocity of points seen before is the filter's", z3.Implies(seen, vel == u.after(dz + i)))
    ctx.oblige("the filter update starts from the predicted state", z3.And(u.before(i, z0) == s.x0(i, z0), u.before(dz + i, z0) == s.x0(dz + i, z0)))
    sn = ga(it, s.o, "detected_at_least_once_points")
    if shape_is(ctx, "seen points", sn, n):
        ctx.oblige("a point counts as seen once it was above the threshold", b_(at(ctx, sn, p)) == z3.Or(seen, over))
    ctx.oblige("the detection's points are unchanged", z3.And(at(ctx, det.abs, p, c) == a, at(ctx, det.points, p, c) == det.psnap(p, z3.IntVal(c))))
    if det.scores is not None:
        ctx.oblige("the detection's scores are unchanged", at(ctx, det.scores, p) == det.ssnap(p))
    ctx.oblige("the last detection is the matched one", b_(it.identical(ga(it, s.o, "last_detection"), det.obj)))
    ctx.oblige("the estimate shares no storage with the detection", z3.BoolVal(x.sid not in (det.abs.sid, det.points.sid)))


@P.unit("creation: seen points", covers=[TR + ".TrackedObject.__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    p, = idx(ctx, s.n)
    c = ctx.choose(s.d)
    sn = ga(it, s.o, "detected_at_least_once_points")
    if shape_is(ctx, "seen points", sn, s.n):
        ctx.oblige("a point of the first detection counts as seen if its score exceeds the threshold or there are no scores",
                   b_(at(ctx, sn, p)) == s.det.over(p, s.thr))
    made = ctx.mem.get(("glob", "#fac", "created"), ())
    ctx.oblige("one filter is created", z3.BoolVal(len(made) == 1))
    if made:
        v, vs, f = made[0]
        if shape_is(ctx, "first measurement", v, s.n, s.d):
            ctx.oblige("the filter starts at the detection's absolute points", vs(p, z3.IntVal(c)) == s.det.asnap(p, z3.IntVal(c)))
        ctx.oblige("the object uses that filter", z3.BoolVal(ga(it, s.o, "filter") == f))
    ctx.oblige("the threshold is kept", eq_real(ga(it, s.o, "detection_threshold"), s.thr))
    ctx.oblige("dim_z", eqv(it, ga(it, s.o, "dim_z"), s.d * s.n))
    ctx.oblige("dim_points", eqv(it, ga(it, s.o, "dim_points"), s.d))
    ctx.oblige("num_points", eqv(it, ga(it, s.o, "num_points"), s.n))
    ctx.oblige("the detection's points are unchanged", at(ctx, s.det.abs, p, c) == s.det.asnap(p, z3.IntVal(c)))


@P.unit("TrackedObject.get_estimate, estimate_velocity: layout", covers=[TR + ".TrackedObject.get_estimate", TR + ".TrackedObject.estimate",
        TR + ".TrackedObject.estimate_velocity"], extra=ext.all_models)
def estimate(ctx, it):
    s = arbitrary(ctx, it)
    p, = idx(ctx, s.n)
    c = ctx.choose(s.d)
    it.depth = 1
    for nme, off in (("estimate", z0), ("estimate_velocity", s.dz)):
        e = it.get_attr(s.o, nme)
        if shape_is(ctx, nme, e, s.n, s.d):
            ctx.oblige(f"{nme} is read from the filter, point by point", at(ctx, e, p, c) == s.x0(off + s.d * p + c, z0))
        ctx.oblige(f"reading {nme} does not change the filter", at(ctx, ga(it, s.filter, "x"), off + s.d * p + c, 0) == s.x0(off + s.d * p + c, z0))
        it.set_item(e, (0, 0), z3.RealVal(7))
        ctx.oblige(f"writing to the returned {nme} does not change the filter", at(ctx, ga(it, s.filter, "x"), off + s.d * p + c, 0) == s.x0(off + s.d * p + c, z0))
