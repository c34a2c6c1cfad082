"""C16: tracking in absolute coordinates.  norfair.tracker.Tracker.update,
Detection.update_coordinate_transformation, TrackedObject.{
update_coordinate_transformation,get_estimate,estimate,__init__,hit}."""
from contracts.updprops import *

P = Prop("C16", assumptions=["the detections of one update are distinct objects", "period >= 1",
                             "a coordinate transformation is any pair of functions that only read their argument and return a new array (C15 proves it for norfair's)"])
COV = TR + ".TrackedObject."
P.unit("Tracker.update: transformations", covers=COVU, extra=ext.all_models)(coordinates)


def transformation(ctx, it, d, name="ct"):
    """an arbitrary transformation; each application is recorded"""
    o = ctx.new_obj("CoordinatesTransformation")
    fn = {}

    def mk(which):
        f = ctx.fresh_fn(name + "_" + which, [I, I, I], R)

        def app(it2, a, k):
            c = it2.ctx
            p = a[0]
            if not isinstance(p, NDArr) or p.ndim != 2:
                raise Unsupported("transformation of something else")
            key = ("glob", "#ct", which)
            n = len(c.mem.get(key, ()))
            r = c.new_arr(p.shape, "f", lambda i, j, n=n: f(z3.IntVal(n), i, j))
            st = State()
            st.arg, st.snap, st.out = p, p.snap(c), r
            c.mem[key] = c.mem.get(key, ()) + (st,)
            return r

        return Native(which, app)

    for w in ("rel_to_abs", "abs_to_rel"):
        ctx.setattr(o, w, mk(w))
    return o


@P.unit("Detection.update_coordinate_transformation", covers=[TR + ".Detection.update_coordinate_transformation"], extra=ext.all_models)
def det(ctx, it):
    d = ctx.choose(3) + 1
    n = ctx.fint("n", 1)
    s = detection(ctx, it, d, n)
    ct = transformation(ctx, it, d)
    i, j = idx(ctx, n, d)
    it.depth = 1
    it.call(it.get_attr(s.obj, "update_coordinate_transformation"), [None], {})
    a0 = ga(it, s.obj, "absolute_points")
    if shape_is(ctx, "without a transformation", a0, n, d):
        ctx.oblige("without a transformation the absolute points stay", at(ctx, a0, i, j) == s.asnap(i, j))
    for k in range(2):  # however often it was processed before
        it.call(it.get_attr(s.obj, "update_coordinate_transformation"), [ct], {})
        calls = ctx.mem.get(("glob", "#ct", "rel_to_abs"), ())
        if not calls:
            ctx.oblige("the transformation to absolute is applied", z3.BoolVal(False))
            return
        last = calls[-1]
        ctx.oblige("the other direction is not used", z3.BoolVal(not ctx.mem.get(("glob", "#ct", "abs_to_rel"))))
        a = ga(it, s.obj, "absolute_points")
        if shape_is(ctx, "the transformed points", last.arg, n, d) and shape_is(ctx, "absolute points", a, n, d):
            ctx.oblige("what is transformed are the relative points", last.snap(i, j) == s.psnap(i, j))
            ctx.oblige("absolute points are the transformed ones", at(ctx, a, i, j) == at(ctx, last.out, i, j))
        p = ga(it, s.obj, "points")
        if shape_is(ctx, "relative points", p, n, d):
            ctx.oblige("the relative points stay", at(ctx, p, i, j) == s.psnap(i, j))


@P.unit("TrackedObject: estimates", covers=[COV + "update_coordinate_transformation", COV + "get_estimate", COV + "estimate"], extra=ext.all_models)
def estimates(ctx, it):
    s = arbitrary(ctx, it)
    n, d = s.n, s.d
    i, = idx(ctx, n)
    c = ctx.choose(d)
    jc = z3.IntVal(c)
    x = s.x0(d * i + c, z0)
    it.depth = 1
    e = it.call(it.get_attr(s.o, "get_estimate"), [], {})
    if shape_is(ctx, "estimate", e, n, d):
        ctx.oblige("without transformations the estimate is returned as it is", at(ctx, e, i, jc) == x)
    e = it.get_attr(s.o, "estimate")
    if shape_is(ctx, "estimate", e, n, d):
        ctx.oblige("the estimate attribute is the same", at(ctx, e, i, jc) == x)
    kind, v = call_raises(it, it.get_attr(s.o, "get_estimate"), [], {"absolute": True})
    ctx.oblige("asking for absolute coordinates without a transformation is an error", z3.BoolVal(kind == "raise"))
    # any number of earlier transformations: only the latest counts
    old, ct = transformation(ctx, it, d, "old"), transformation(ctx, it, d)
    f = it.get_attr(s.o, "update_coordinate_transformation")
    if ctx.choose(2):
        it.call(f, [old], {})
    it.call(f, [ct], {})
    if ctx.choose(2):
        it.call(f, [None], {})
    n0 = len(ctx.mem.get(("glob", "#ct", "abs_to_rel"), ()))
    a = it.call(it.get_attr(s.o, "get_estimate"), [], {"absolute": True})
    if shape_is(ctx, "absolute estimate", a, n, d):
        ctx.oblige("absolute estimates need no transformation back", at(ctx, a, i, jc) == x)
    ctx.oblige("and apply none", z3.BoolVal(len(ctx.mem.get(("glob", "#ct", "abs_to_rel"), ())) == n0))
    for k, get in enumerate((lambda: it.call(it.get_attr(s.o, "get_estimate"), [], {}), lambda: it.get_attr(s.o, "estimate"))):
        r = get()
        calls = ctx.mem.get(("glob", "#ct", "abs_to_rel"), ())
        if len(calls) <= n0:
            ctx.oblige("relative estimates are transformed", z3.BoolVal(False))
            return
        last = calls[-1]
        ctx.oblige("the latest given transformation is used", z3.BoolVal(ga(it, s.o, "abs_to_rel") is ctx.getattr(ct, "abs_to_rel")))
        if shape_is(ctx, "what is transformed", last.arg, n, d) and shape_is(ctx, "relative estimate", r, n, d):
            ctx.oblige("the absolute estimate is what is transformed", last.snap(i, jc) == x)
            ctx.oblige("the relative estimate is the result", at(ctx, r, i, jc) == at(ctx, last.out, i, jc))
        n0 = len(calls)
    xa = ga(it, s.filter, "x")
    ctx.oblige("asking changes nothing", at(ctx, xa, d * i + c, 0) == x)


@P.unit("creation: absolute points", covers=[COV + "__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    ct = transformation(ctx, it, 2) if ctx.choose(2) else None
    s = creation(ctx, it, coord=ct)
    made = ctx.mem.get(("glob", "#fac", "created"), ())
    ctx.oblige("one filter is created", z3.BoolVal(len(made) == 1))
    i, j = idx(ctx, s.n, s.d)
    if made and shape_is(ctx, "the filter's detection", made[0][0], s.n, s.d):
        ctx.oblige("objects are created from the absolute points", made[0][1](i, j) == s.det.asnap(i, j))
    a = ga(it, s.o, "abs_to_rel")
    if ct is None:
        ctx.oblige("no transformation was given", z3.BoolVal(a is None))
    else:
        ctx.oblige("new objects have the transformation of the update", z3.BoolVal(a is ctx.getattr(ct, "abs_to_rel")))


@P.unit("TrackedObject.hit: absolute points", covers=[COV + "hit"], extra=ext.all_models)
def hit(ctx, it):
    s = arbitrary(ctx, it)
    dt = detection(ctx, it, s.d, s.n)
    i, = idx(ctx, s.n)
    c = ctx.choose(s.d)
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [dt.obj], {"period": ctx.fint("period", 1)})
    calls = ctx.mem.get(("glob", "#filter", "updates"), ())
    ctx.oblige("the filter is updated", z3.BoolVal(len(calls) == 1))
    if calls and shape_is(ctx, "measurement", calls[0].z, s.dz, 1):
        ctx.oblige("objects are updated with the absolute points", z3.Implies(dt.over(i, s.thr), calls[0].zs(s.d * i + c, z0) == dt.asnap(i, z3.IntVal(c))))
    unchanged(ctx, it, s, ["abs_to_rel"], "a match")
