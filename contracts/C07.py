"""C07: predefined pointwise distances equal their documented formulas.
norfair.distances: frobenius, mean_manhattan, mean_euclidean,
create_normalized_mean_euclidean_distance, create_keypoints_voting_distance."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C07", trusted=["square root: SQRT(x) >= 0 and SQRT(x)^2 = x for x >= 0",
                         "sums over an unbounded number of points are an uninterpreted functional of their terms (equal terms give equal sums)"],
         assumptions=["points have 1, 2 or 3 coordinates (case split; 2 for the normalised distance); the number of points is arbitrary",
                      "detection and object have the same number of points, with scores for keypoint voting"])
MOD = "norfair.distances"


def pair(ctx, it, dims=(1, 2, 3), scores=False):
    d = dims[ctx.choose(len(dims))]
    n = ctx.fint("n", 1)
    pt = real_arr(ctx, "pts", (n, d), "i" if ctx.choose(2) else "f")
    es = real_arr(ctx, "est", (n, d))
    arrs = [pt, es]
    kw, lkw = {}, {}
    if scores:
        kw["scores"] = real_arr(ctx, "sc", (n,))
        lkw["scores"] = real_arr(ctx, "lsc", (n,))
        arrs += [kw["scores"], lkw["scores"]]
    det = ctx.new_obj("Detection", points=pt, label=None, **kw)
    last = ctx.new_obj("Detection", points=real_arr(ctx, "lpts", (n, d)), label=None, **lkw)
    obj = ctx.new_obj("TrackedObject", estimate=es, last_detection=last, label=None)
    return d, n, det, obj, arrs


def per_point(ctx, n, f):
    """sum over the points of f(i), as the spec sees it"""
    return ctx.new_arr((n,), "f", f)


def check(ctx, it, name, got, want, arrs, snaps):
    ctx.oblige(f"{name} equals its formula", eq_real(it.noopt(got), want))
    for a, s in zip(arrs, snaps):
        k = idx(ctx, *a.shape)
        ctx.oblige(f"{name} modifies neither the detection nor the object", at(ctx, a, *k) == s(*k))


def diff(arrs, snaps, d):
    p, e = snaps[0], snaps[1]
    return lambda i: [to_real(p(i, z3.IntVal(c))) - e(i, z3.IntVal(c)) for c in range(d)]


def add(xs):
    return sum(xs[1:], xs[0])


FORMS = {
    "frobenius": lambda it, n, D: N.SQRT(lift(N.arr_sum(it, per_point(it.ctx, n, lambda i: add([x * x for x in D(i)]))))),
    "mean_euclidean": lambda it, n, D: lift(N.arr_sum(it, per_point(it.ctx, n, lambda i: N.SQRT(add([x * x for x in D(i)]))))) / z3.ToReal(n),
    "mean_manhattan": lambda it, n, D: lift(N.arr_sum(it, per_point(it.ctx, n, lambda i: add([z3.If(x >= 0, x, -x) for x in D(i)])))) / z3.ToReal(n),
}
for _name, _form in FORMS.items():
    @P.unit(_name, covers=[f"{MOD}.{_name}"], extra=ext.scipy_model)
    def simple(ctx, it, _name=_name, _form=_form):
        d, n, det, obj, arrs = pair(ctx, it)
        snaps = [a.snap(ctx) for a in arrs]
        want = _form(it, n, diff(arrs, snaps, d))
        f = it.modattr(it.load(MOD), _name)
        it.depth = 1
        check(ctx, it, _name, it.call(f, [det, obj], {}), want, arrs, snaps)


@P.unit("create_normalized_mean_euclidean_distance", covers=[MOD + ".create_normalized_mean_euclidean_distance"], extra=ext.scipy_model)
def normed(ctx, it):
    d, n, det, obj, arrs = pair(ctx, it, (2,))
    snaps = [a.snap(ctx) for a in arrs]
    if ctx.choose(2):
        h, w = ctx.fint("height", 1), ctx.fint("width", 1)
    else:
        h, w = ctx.freal("height"), ctx.freal("width")
        ctx.assume(z3.And(h > 0, w > 0))
    D = diff(arrs, snaps, 2)
    H, W = to_real(h), to_real(w)
    want = lift(N.arr_sum(it, per_point(ctx, n, lambda i: N.SQRT((D(i)[0] / W) * (D(i)[0] / W) + (D(i)[1] / H) * (D(i)[1] / H))))) / z3.ToReal(n)
    mk = it.modattr(it.load(MOD), "create_normalized_mean_euclidean_distance")
    it.depth = 1
    f = it.call(mk, [h, w], {}) if ctx.choose(2) else it.call(mk, [], {"height": h, "width": w})
    check(ctx, it, "normalized mean euclidean", it.call(f, [det, obj], {}), want, arrs, snaps)


@P.unit("create_keypoints_voting_distance", covers=[MOD + ".create_keypoints_voting_distance"], extra=ext.scipy_model)
def voting(ctx, it):
    d, n, det, obj, arrs = pair(ctx, it, scores=True)
    snaps = [a.snap(ctx) for a in arrs]
    kt, dt = ctx.freal("kp_threshold"), ctx.freal("det_threshold")
    D = diff(arrs, snaps, d)
    sc, ls = snaps[2], snaps[3]
    vote = lambda i: z3.And(N.SQRT(add([x * x for x in D(i)])) < kt, sc(i) > dt, ls(i) > dt)
    cnt = lift(N.count_nonzero(it, ctx.new_arr((n,), "b", vote)))
    mk = it.modattr(it.load(MOD), "create_keypoints_voting_distance")
    it.depth = 1
    f = it.call(mk, [kt, dt], {}) if ctx.choose(2) else it.call(mk, [], dict(keypoint_distance_threshold=kt, detection_threshold=dt))
    want = 1 / (1 + to_real(cnt))
    ctx.assume(cnt >= 0)  # a count
    check(ctx, it, "keypoint voting", it.call(f, [det, obj], {}), want, arrs, snaps)
