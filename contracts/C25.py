"""C25: constructor validation, distance selection, point validation.
norfair.tracker.Tracker.__init__, norfair.distances.get_distance_by_name,
norfair.utils.validate_points, norfair.tracker.Detection.__init__."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C25", assumptions=["hit_counter_max is a positive integer", "known distance names: the documented ones; every other string is represented by one arbitrary string different from all of them"])
TR, DI = "norfair.tracker", "norfair.distances"
SCALAR = ["frobenius", "mean_manhattan", "mean_euclidean"]
VEC = ["iou", "iou_opt"]
SCIPY = ["braycurtis", "canberra", "chebyshev", "cityblock", "correlation", "cosine", "dice", "euclidean", "hamming", "jaccard",
         "jensenshannon", "kulczynski1", "mahalanobis", "matching", "minkowski", "rogerstanimoto", "russellrao", "seuclidean",
         "sokalmichener", "sokalsneath", "sqeuclidean", "yule"]


def anystr():
    def isi(it, t):
        if isinstance(t, Native):
            return t.name == "str"
        if isinstance(t, Opaque) and t.kind == "typing":
            return t.data.get("name") in ("Hashable", "Sequence", "Iterable")
        return None

    return Opaque("anystr", None, {"isinstance": isi, "eq": lambda it, x: False, "callable": False})


def anyfun(name="f"):
    def isi(it, t):
        if isinstance(t, Native):
            return False
        return None

    return Opaque("function " + name, None, {"isinstance": isi, "callable": True, "call": lambda it, a, k: Opaque("result"), "eq": lambda it, x: False})


def notdist():
    """neither a string nor callable"""
    def isi(it, t):
        if isinstance(t, Native) or isinstance(t, ClassVal):
            return False
        return None

    return Opaque("value", None, {"isinstance": isi, "callable": False, "eq": lambda it, x: False, "getattr": lambda it, o, n: NotImplemented})


def selected(ctx, it, name, d):
    """d is the distance documented for this name"""
    m = it.load(DI)
    cls = lambda n: it.modattr(m, n)
    okc = lambda n: isinstance(d, Obj) and isinstance(d.cls, ClassVal) and d.cls.name == n
    if name in SCALAR:
        ctx.oblige(f"{name} selects the scalar distance", z3.BoolVal(okc("ScalarDistance") and ga(it, d, "distance_function") is cls(name)))
    elif name in VEC:
        ctx.oblige(f"{name} selects the vectorized IoU", z3.BoolVal(okc("VectorizedDistance") and ga(it, d, "distance_function") is cls("iou")))
    else:
        f = ga(it, d, "distance_function") if okc("ScipyDistance") else None
        ok = isinstance(f, PartialVal) and isinstance(f.fn, Native) and f.fn.name == "cdist" and f.kwargs.get("metric") == name and not f.args
        ctx.oblige(f"{name} selects scipy's metric of that name", z3.BoolVal(bool(ok)), repr(f))


@P.unit("get_distance_by_name", covers=[DI + ".get_distance_by_name", DI + ".ScalarDistance.__init__", DI + ".VectorizedDistance.__init__",
                                        DI + ".ScipyDistance.__init__"], extra=ext.all_models)
def byname(ctx, it):
    names = SCALAR + VEC + SCIPY
    k = ctx.choose(len(names) + 1)
    f = it.modattr(it.load(DI), "get_distance_by_name")
    it.depth = 1
    if k < len(names):
        st, v = call_raises(it, f, [names[k]])
        ctx.oblige(f"{names[k]} is a known distance name", z3.BoolVal(st == "ok"), str(v))
        if st == "ok":
            selected(ctx, it, names[k], v)
    else:
        st, v = call_raises(it, f, [anystr()])
        ctx.oblige("any other name is a value error", z3.BoolVal(st == "raise" and v.cls is ValueError), str(v))


@P.unit("Tracker.__init__", covers=[TR + ".Tracker.__init__", TR + "._TrackedObjectFactory.__init__"], extra=ext.all_models)
def init(ctx, it):
    T = it.modattr(it.load(TR), "Tracker")
    kind = ctx.choose(4)
    dist = [anyfun(), "iou", anystr(), notdist()][kind]
    hcm = ctx.fint("hit_counter_max", 1)
    pdl = ctx.fint("past_detections_length")
    delay = ctx.fint("initialization_delay")
    given = ctx.choose(3)
    if given == 2:  # not a whole number
        delay = ctx.freal("initialization_delay_real")
    reidf = [None, anyfun("reid")][ctx.choose(2)]
    reidmax = Opt(ctx.fbool("no_reid_max"), ctx.fint("reid_hit_counter_max"))
    thr, dthr, rthr = ctx.freal("distance_threshold"), ctx.freal("detection_threshold"), ctx.freal("reid_threshold")
    pw = ctx.fint("pointwise")
    fac = Opaque("factory", None, {})
    kw = dict(distance_function=dist, distance_threshold=thr, hit_counter_max=hcm, pointwise_hit_counter_max=pw, detection_threshold=dthr,
              filter_factory=fac, past_detections_length=pdl, reid_distance_function=reidf, reid_distance_threshold=rthr,
              reid_hit_counter_max=reidmax)
    kw["initialization_delay"] = delay if given else None
    it.depth = 1
    st, t = call_raises(it, T, [], kw)
    bad = z3.Or(z3.BoolVal(kind >= 2), pdl < 0, z3.And(z3.BoolVal(bool(given)), z3.Or(delay < 0, delay >= hcm)))
    if st == "raise":
        ctx.oblige("an invalid configuration is rejected with a value error", z3.BoolVal(t.cls is ValueError), str(t))
        ctx.oblige("only invalid configurations are rejected", bad)
        return
    ctx.oblige("no invalid configuration is accepted", z3.Not(bad))
    g = lambda n: ga(it, t, n)
    num = dict(distance_threshold=thr, hit_counter_max=hcm, pointwise_hit_counter_max=pw, detection_threshold=dthr, past_detections_length=pdl,
               reid_distance_threshold=rthr)
    for n, v in num.items():
        ctx.oblige(f"setting {n} is used as given", eq_real(g(n), v))
    ctx.oblige("setting filter_factory is used as given", z3.BoolVal(g("filter_factory") is fac))
    rm = g("reid_hit_counter_max")
    ctx.oblige("setting reid_hit_counter_max is used as given", z3.BoolVal(rm is reidmax) if not isinstance(rm, Opt) else b_(it.equal(rm, reidmax)))
    want = delay if given else hcm / 2  # integer division of a positive number
    ctx.oblige("initialization delay as given, or half the hit counter maximum rounded down", eq_real(g("initialization_delay"), want))
    d = g("distance_function")
    if kind == 0:
        ctx.oblige("a callable distance is evaluated pair by pair",
                   z3.BoolVal(isinstance(d, Obj) and d.cls.name == "ScalarDistance" and ga(it, d, "distance_function") is dist))
    else:
        selected(ctx, it, "iou", d)
    r = g("reid_distance_function")
    if reidf is None:
        ctx.oblige("no reid distance unless given", z3.BoolVal(r is None))
    else:
        ctx.oblige("the reid distance is evaluated pair by pair",
                   z3.BoolVal(isinstance(r, Obj) and r.cls.name == "ScalarDistance" and ga(it, r, "distance_function") is reidf))
    tl = g("tracked_objects")
    ctx.oblige("a new tracker has no objects", b_(it.compare("==", it.call(it.models["builtins"].attrs["len"], [tl], {}), 0)))
    ctx.oblige("a new tracker has given out no ids", b_(it.compare("==", it.get_attr(t, "total_object_count"), 0)))
    t2 = it.call(T, [], kw)
    ctx.oblige("every tracker has its own object list and factory", z3.BoolVal(
        not ({s for s in ext.sids(ctx, t) if isinstance(s, tuple)} & {s for s in ext.sids(ctx, t2) if isinstance(s, tuple)})))


@P.unit("Tracker.__init__ defaults", covers=[TR + ".Tracker.__init__"], extra=ext.all_models)
def defaults(ctx, it):
    T = it.modattr(it.load(TR), "Tracker")
    it.depth = 1
    t = it.call(T, [anyfun(), ctx.freal("thr")], {})
    for n, v in (("hit_counter_max", 15), ("initialization_delay", 7), ("pointwise_hit_counter_max", 4), ("detection_threshold", 0),
                 ("past_detections_length", 4), ("reid_distance_threshold", 0), ("reid_hit_counter_max", None), ("reid_distance_function", None)):
        ctx.oblige(f"documented default of {n}", b_(it.equal(ga(it, t, n), v)))


@P.unit("validate_points", covers=["norfair.utils.validate_points", "norfair.utils.raise_detection_error_message"], extra=ext.all_models)
def vp(ctx, it):
    f = it.modattr(it.load("norfair.utils"), "validate_points")
    rank = ctx.choose(4) + 1
    dims = [ctx.fint(f"d{k}", 0) for k in range(rank)]
    a = real_arr(ctx, "p", tuple(dims))
    s = a.snap(ctx)
    it.depth = 1
    st, r = call_raises(it, f, [a])
    if rank > 2:
        ctx.oblige("points of higher rank are a value error", z3.BoolVal(st == "raise" and r.cls is ValueError), str(r))
        return
    ctx.oblige("a point or an array of points is accepted", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    k = idx(ctx, *dims)
    if rank == 1:
        if shape_is(ctx, "single point", r, 1, dims[0]):
            ctx.oblige("a single point becomes one row", at(ctx, r, 0, *k) == s(*k))
    elif shape_is(ctx, "points", r, *dims):
        ctx.oblige("a two-dimensional array is kept", at(ctx, r, *k) == s(*k))
    ctx.oblige("input unchanged", at(ctx, a, *k) == s(*k))


@P.unit("Detection.__init__", covers=[TR + ".Detection.__init__"], extra=ext.all_models)
def det(ctx, it):
    D = it.modattr(it.load(TR), "Detection")
    rank = ctx.choose(3) + 1
    dims = [ctx.fint(f"d{k}", 1) for k in range(rank)]
    a = real_arr(ctx, "p", tuple(dims), "i" if ctx.choose(2) else "f")
    s = a.snap(ctx)
    sc = [None, real_arr(ctx, "sc", (dims[0],))][ctx.choose(2)]
    data, label, emb = Opaque("data"), Opaque("label"), Opaque("embedding")
    it.depth = 1
    st, d = call_raises(it, D, [a], dict(scores=sc, data=data, label=label, embedding=emb))
    if rank > 2:
        ctx.oblige("points of higher rank are a value error", z3.BoolVal(st == "raise" and d.cls is ValueError), str(d))
        return
    ctx.oblige("a detection of a point or an array of points is accepted", z3.BoolVal(st == "ok"), str(d))
    if st != "ok":
        return
    k = idx(ctx, *dims)
    full = ([z3.IntVal(0)] if rank == 1 else []) + k
    shp = ([1] if rank == 1 else []) + dims
    for n in ("points", "absolute_points"):
        v = ga(it, d, n)
        if shape_is(ctx, n, v, *shp):
            ctx.oblige(f"{n} are the given points", at(ctx, v, *full) == s(*k))
    for n, v in (("scores", sc), ("data", data), ("label", label), ("embedding", emb)):
        ctx.oblige(f"{n} kept as given", z3.BoolVal(ga(it, d, n) is v))
    ctx.oblige("absolute points are a copy", z3.BoolVal(ga(it, d, "absolute_points").sid not in (a.sid, ga(it, d, "points").sid)))
    ctx.oblige("input unchanged", at(ctx, a, *k) == s(*k))
