"""C26: the caller's data and other trackers.  norfair.tracker.Tracker.update
and everything it calls."""
from contracts.updprops import *

P = Prop("C26", assumptions=["the detections of one update are distinct objects", "period >= 1",
                             "distance functions and filter factories given by the user only read what they are given (C07-C10 prove it for norfair's)"])
COV = TR + ".TrackedObject."
P.unit("Tracker.update: frame and independence", covers=COVU, extra=ext.all_models)(isolation)


def det_frame(ctx, it, det, n, d, what, ages=True):
    i, j = idx(ctx, n, d)
    for nm, snap, orig in (("points", det.psnap, det.points), ("absolute_points", det.asnap, det.abs)):
        a = ga(it, det.obj, nm)
        ctx.oblige(f"{what}: the detection keeps its {nm}", z3.BoolVal(a is orig))
        if isinstance(a, NDArr) and a.ndim == 2:
            ctx.oblige(f"{what}: the detection's {nm} are unchanged", at(ctx, orig, i, j) == snap(i, j))
    if det.scores is not None:
        ctx.oblige(f"{what}: the detection keeps its scores", z3.BoolVal(ga(it, det.obj, "scores") is det.scores))
        ctx.oblige(f"{what}: the detection's scores are unchanged", at(ctx, det.scores, i) == det.ssnap(i))
    else:
        ctx.oblige(f"{what}: the detection keeps having no scores", z3.BoolVal(ga(it, det.obj, "scores") is None))
    ctx.oblige(f"{what}: the detection keeps its label", z3.BoolVal(ga(it, det.obj, "label") is det.label))


@P.unit("TrackedObject.hit: frame", covers=[COV + "hit"], extra=ext.all_models)
def hit(ctx, it):
    s = arbitrary(ctx, it)
    det = detection(ctx, it, s.d, s.n)
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [det.obj], {"period": ctx.fint("period", 1)})
    det_frame(ctx, it, det, s.n, s.d, "a match")
    own = {det.points.sid, det.abs.sid} | ({det.scores.sid} if det.scores is not None else set())
    for nm in ("point_hit_counter", "detected_at_least_once_points"):
        a = ga(it, s.o, nm)
        ctx.oblige(f"the object's {nm} shares no storage with the detection", z3.BoolVal(isinstance(a, NDArr) and a.sid not in own))
    calls = ctx.mem.get(("glob", "#filter", "updates"), ())
    for u in calls:
        ctx.oblige("the filter gets a copy of the points", z3.BoolVal(u.z.sid not in own))


@P.unit("creation: frame", covers=[COV + "__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    det_frame(ctx, it, s.det, s.n, s.d, "creation")
    own = {s.det.points.sid, s.det.abs.sid} | ({s.det.scores.sid} if s.det.scores is not None else set())
    for nm in ("point_hit_counter", "detected_at_least_once_points"):
        a = ga(it, s.o, nm)
        ctx.oblige(f"the object's {nm} shares no storage with the detection", z3.BoolVal(isinstance(a, NDArr) and a.sid not in own))
    ctx.oblige("the filter factory is the one given", z3.BoolVal(len(ctx.mem.get(("glob", "#fac", "created"), ())) == 1))


@P.unit("tracker_step: frame", covers=[COV + "tracker_step"], extra=ext.all_models)
def step(ctx, it):
    s = arbitrary(ctx, it)
    det = detection(ctx, it, s.d, s.n)
    ctx.setattr(s.o, "last_detection", det.obj)
    other = arbitrary(ctx, it, s.d, n=s.n)
    it.depth = 1
    m0 = dict(ctx.mem)
    it.call(it.get_attr(s.o, "tracker_step"), [], {})
    det_frame(ctx, it, det, s.n, s.d, "an update")
    frame_of(ctx, it, other, m0, "an update")


def frame_of(ctx, it, other, m0, what):
    """another object's attributes and arrays are untouched"""
    keys = [k for k in m0 if k[0] in ("attr", "names") and k[1] in (other.o.oid, other.filter.oid, other.factory.oid)]
    keys += [("arr", a.sid) for a in (other.phc, other.seen, other.x)] + [("list", other.past.lid)]
    for k in keys:
        ctx.oblige(f"{what}: other objects are untouched", z3.BoolVal(ctx.mem.get(k) is m0[k]))


@P.unit("Detection.update_coordinate_transformation: frame", covers=[TR + ".Detection.update_coordinate_transformation"], extra=ext.all_models)
def coord(ctx, it):
    d = ctx.choose(3) + 1
    n = ctx.fint("n", 1)
    s = detection(ctx, it, d, n)
    i, j = idx(ctx, n, d)

    def app(it2, a, k):
        c = it2.ctx
        f = c.fresh_fn("abs", [I, I], R)
        return c.new_arr(a[0].shape, "f", f)

    ct = ctx.new_obj("CoordinatesTransformation", rel_to_abs=Native("rel_to_abs", app))
    it.depth = 1
    it.call(it.get_attr(s.obj, "update_coordinate_transformation"), [ct], {})
    ctx.oblige("the relative points are the same array", z3.BoolVal(ga(it, s.obj, "points") is s.points))
    ctx.oblige("the relative points are unchanged", at(ctx, s.points, i, j) == s.psnap(i, j))
    ctx.oblige("the scores are unchanged", z3.BoolVal(ga(it, s.obj, "scores") is s.scores) if s.scores is None else at(ctx, s.scores, i) == s.ssnap(i))
    ctx.oblige("earlier absolute points are not overwritten", at(ctx, s.abs, i, j) == s.asnap(i, j))
