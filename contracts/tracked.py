"""Shared: an arbitrary TrackedObject satisfying the representation invariant,
and an arbitrary filter satisfying the filter protocol (contract):

  filter.x has shape (2*dim_z, 1);
  predict() changes nothing but filter.x;
  update(z, R, H) with H = [diag(m) 0], m a 0/1 mask, changes nothing but the
  filter, and leaves position and velocity of every masked-out coordinate as
  they were (C09/C10 prove this for the two filters of norfair; filterpy's
  KalmanFilter has it for independent coordinates)."""
from pyvc.spec import *
from pyvc import ext

TR = "norfair.tracker"
z0 = z3.IntVal(0)


def boolarr(ctx, name, n):
    f = ctx.fresh_fn(name, [I], B)
    return ctx.new_arr((n,), "b", f)


def abstract_filter(ctx, dz, name="filter"):
    x = real_arr(ctx, name + "_x", (2 * dz, 1))
    o = ctx.new_obj("Filter", x=x)
    log = []

    def predict(it, a, k):
        c = it.ctx
        c.mem[("glob", "#filter", "predicts")] = c.mem.get(("glob", "#filter", "predicts"), 0) + 1
        nx = c.fresh_fn(name + "_xp", [I], R)
        old = c.getattr(o, "x")
        c.mem[("arr", old.sid)] = Content(lambda i, j: nx(i), (), (I, I))
        return None

    def update(it, a, k):
        c = it.ctx
        z = a[0] if a else k.get("detection_points_flatten", k.get("z"))
        Rm = a[1] if len(a) > 1 else k.get("R")
        H = a[2] if len(a) > 2 else k.get("H")
        if not isinstance(z, NDArr) or not (H is None or isinstance(H, NDArr)):
            raise Unsupported("arguments of filter.update")
        hs = H.snap(c) if H is not None else None
        old = c.getattr(o, "x")
        s = old.snap(c)
        nx = c.fresh_fn(name + "_xu", [I], R)
        meas = (lambda i: hs(i, i) != 0) if hs is not None else (lambda i: z3.BoolVal(True))
        cont = lambda i, j: z3.If(z3.If(i < dz, meas(i), meas(i - dz)), nx(i), s(i, z0))
        call = State()
        call.z, call.zs, call.R, call.H, call.hs, call.before, call.after = z, z.snap(c), Rm, H, hs, s, lambda i: cont(i, z0)
        key = ("glob", "#filter", "updates")
        c.mem[key] = c.mem.get(key, ()) + (call,)
        # in place, as norfair's own filters do
        c.mem[("arr", old.sid)] = Content(cont, (), (I, I))
        return None

    ctx.setattr(o, "predict", Native("Filter.predict", predict))
    ctx.setattr(o, "update", Native("Filter.update", update))
    return o, x


class State:
    pass


def cls(it, name):
    return it.modattr(it.load(TR), name)


def optint(ctx, name, lo=None):
    v = ctx.fint(name, lo)
    return Opt(ctx.fbool(name + "_none"), v)


def past(ctx, it, name, age, L):
    """a list of past detections: length between 0 and L, ordered by age, each
    with the age (of the object) at which it was stored"""
    D = cls(it, "Detection")
    n = ctx.fint("n_" + name, 0)
    ctx.assume(n <= L)
    ref = z3.Function(ctx.name("ref_" + name), I, Ref)
    ag = z3.Function(ctx.name("age_" + name), Ref, I)
    u, v = z3.Int("#u"), z3.Int("#v")
    ctx.forall([u, v], z3.Implies(z3.And(u >= 0, v < n, u <= v), ag(ref(u)) <= ag(ref(v))))
    ctx.forall([u], z3.Implies(z3.And(u >= 0, u < n), z3.And(ag(ref(u)) >= 0, ag(ref(u)) <= age)))
    ctx.forall([u, v], z3.Implies(z3.And(u >= 0, v < n, u < v), ref(u) != ref(v)))
    # ground instances used by every proof
    ctx.assume(z3.Implies(n > 0, z3.And(ag(ref(z0)) >= 0, ag(ref(z0)) <= age, ag(ref(n - 1)) <= age)))
    key = ("field", "Detection", "age")
    old = ctx.mem.get(key)
    ctx.mem[key] = FMap(lambda r: ag(r))
    l = ctx.new_list(SeqVal([SymPart(Dom.dense(n), lambda i: RefObj(D, ref(i)))]))
    return l, n, ref, ag


def detection(ctx, it, d, n, scores="choose", name="det", dtype="choose"):
    """an arbitrary detection with n points of d coordinates, integers or real
    numbers (those of the frame; absolute ones are real numbers when there is a
    camera motion, otherwise like the others)"""
    D = cls(it, "Detection")
    s = State()
    dtype = [("f", "f"), ("i", "i"), ("i", "f")][ctx.choose(3)] if dtype == "choose" else (dtype, dtype)
    s.points = real_arr(ctx, name + "_p", (n, d), dtype[0])
    s.abs = real_arr(ctx, name + "_a", (n, d), dtype[1])
    k = ctx.choose(2) if scores == "choose" else scores
    s.scores = real_arr(ctx, name + "_s", (n,)) if k else None
    s.label = Opaque("label", ctx.fresh("label", U))
    s.obj = ctx.new_obj(D, points=s.points, absolute_points=s.abs, scores=s.scores, data=Opaque("data"), label=s.label, embedding=None,
                        age=Opt(ctx.fbool(name + "_ageless"), ctx.fint(name + "_age")))
    s.psnap, s.asnap = s.points.snap(ctx), s.abs.snap(ctx)
    s.ssnap = s.scores.snap(ctx) if k else None
    s.over = (lambda i, t: s.ssnap(i) > t) if k else (lambda i, t: z3.BoolVal(True))
    return s


def arbitrary(ctx, it, d=None, name="o", n=None, factory=None):
    """an arbitrary TrackedObject satisfying the invariant"""
    s = State()
    s.d = d if d is not None else ctx.choose(3) + 1
    s.n = n if n is not None else ctx.fint("n", 1)
    s.dz = s.d * s.n
    T = cls(it, "TrackedObject")
    s.gc = ctx.fint("global_count", 0)
    if factory is None:
        F = cls(it, "_TrackedObjectFactory")
        it.set_attr(F, "global_count", s.gc)
        s.count, s.icount = ctx.fint("count", 0), ctx.fint("icount", 0)
        s.factory = ctx.new_obj(F, count=s.count, initializing_count=s.icount)
    else:
        s.factory = factory
    s.hcm, s.delay = ctx.fint("hcm", 1), ctx.fint("delay", 0)
    ctx.assume(s.delay < s.hcm)
    s.pcm, s.period0 = ctx.fint("pcm"), ctx.fint("period0", 1)
    ctx.assume(s.pcm >= s.period0)
    s.thr = ctx.freal("threshold")
    s.hc = ctx.fint("hc")
    s.rhc, s.rmax = optint(ctx, "rhc"), optint(ctx, "rmax", 0)
    s.age = ctx.fint("age", 0)
    s.init = ctx.fbool("initializing")
    s.id, s.gid = ctx.fint("id", 1), ctx.fint("gid", 1)
    s.iid = ctx.fint("iid", 1)
    # an object still initialising has not exceeded the delay
    ctx.assume(z3.Implies(s.init, s.hc <= s.delay))
    s.seen = boolarr(ctx, "seen", s.n)
    s.phc = real_arr(ctx, "phc", (s.n,), "i")
    s.filter, s.x = abstract_filter(ctx, s.dz)
    s.pdl = ctx.fint("pdl", 0)
    s.past, s.npast, s.ref, s.ag = past(ctx, it, "past", s.age, s.pdl)
    s.last = Opaque("detection")
    s.dist, s.mind = Opt(ctx.fbool("nodist"), ctx.freal("dist")), Opt(ctx.fbool("nomind"), ctx.freal("mind"))
    s.label = Opaque("label", ctx.fresh("label", U))
    s.attrs = dict(
        _obj_factory=s.factory, dim_points=s.d, num_points=s.n, hit_counter_max=s.hcm, pointwise_hit_counter_max=s.pcm,
        initialization_delay=s.delay, detection_threshold=s.thr, initial_period=s.period0, hit_counter=s.hc,
        reid_hit_counter_max=s.rmax, reid_hit_counter=s.rhc, last_distance=s.dist, current_min_distance=s.mind, last_detection=s.last,
        age=s.age, is_initializing=s.init, initializing_id=s.iid, id=Opt(s.init, s.id), global_id=Opt(s.init, s.gid),
        detected_at_least_once_points=s.seen, point_hit_counter=s.phc, past_detections_length=s.pdl, past_detections=s.past,
        filter=s.filter, dim_z=s.dz, label=s.label, abs_to_rel=None)
    s.o = ctx.new_obj(T, **s.attrs)
    s.phc0, s.seen0, s.x0 = s.phc.snap(ctx), s.seen.snap(ctx), s.x.snap(ctx)
    return s


SCALARS = ["hit_counter_max", "pointwise_hit_counter_max", "initialization_delay", "detection_threshold", "initial_period", "hit_counter",
           "reid_hit_counter_max", "reid_hit_counter", "last_distance", "current_min_distance", "age", "is_initializing", "initializing_id",
           "id", "global_id", "past_detections_length", "dim_points", "num_points", "dim_z", "label", "abs_to_rel", "_obj_factory"]


def unchanged(ctx, it, s, names, what):
    for n in names:
        v = ga(it, s.o, n)
        w = s.attrs[n]
        if isinstance(w, Opaque) or isinstance(w, Obj):
            ctx.oblige(f"{what} does not change {n}", z3.BoolVal(v is w or v == w))
        else:
            ctx.oblige(f"{what} does not change {n}", b_(it.equal(v, w)))


def eqv(it, a, b):
    return b_(it.equal(a, b))


def creation(ctx, it, coord=False):
    s = State()
    s.d = ctx.choose(3) + 1
    s.n = ctx.fint("n", 1)
    s.det = detection(ctx, it, s.d, s.n)
    T = cls(it, "TrackedObject")
    F = cls(it, "_TrackedObjectFactory")
    s.gc, s.count, s.icount = ctx.fint("global_count", 0), ctx.fint("count", 0), ctx.fint("icount", 0)
    it.set_attr(F, "global_count", s.gc)
    s.factory = ctx.new_obj(F, count=s.count, initializing_count=s.icount)
    s.hcm, s.delay, s.pw, s.period = ctx.fint("hcm", 1), ctx.fint("delay", 0), ctx.fint("pw"), ctx.fint("period", 1)
    ctx.assume(s.delay < s.hcm)
    s.thr, s.pdl, s.rmax = ctx.freal("thr"), ctx.fint("pdl", 0), optint(ctx, "rmax", 0)
    s.created = []

    def create_filter(it, a, k):
        v = a[0] if a else k["initial_detection"]
        f, x = abstract_filter(it.ctx, s.d * s.n)
        it.ctx.mem[("glob", "#fac", "created")] = it.ctx.mem.get(("glob", "#fac", "created"), ()) + ((v, v.snap(it.ctx), f),)
        return f

    s.filter_factory = ctx.new_obj("FilterFactory", create_filter=Native("create_filter", create_filter))
    s.coord = coord
    s.kw = dict(initial_detection=s.det.obj, hit_counter_max=s.hcm, initialization_delay=s.delay, pointwise_hit_counter_max=s.pw,
                detection_threshold=s.thr, period=s.period, filter_factory=s.filter_factory, past_detections_length=s.pdl,
                reid_hit_counter_max=s.rmax, coord_transformations=coord if coord else None)
    it.depth = 1
    s.o = it.call(it.get_attr(s.factory, "create"), [], s.kw)
    return s
