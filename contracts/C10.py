"""C10: filter factories and NoFilter.  norfair.filter."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C10", trusted=["filterpy.kalman.KalmanFilter(dim_x, dim_z) starts with x=0, P=Q=F=I(dim_x), R=I(dim_z), H=0 (sampled by selfcheck.py)"],
         assumptions=["points have 1, 2 or 3 coordinates (case split); the number of points is arbitrary"])
MOD = "norfair.filter"
z0 = z3.IntVal(0)


def det(ctx, it):
    d = ctx.choose(3) + 1
    n = ctx.fint("n", 1)
    a = real_arr(ctx, "det", (n, d), "i" if ctx.choose(2) else "f")
    return n, d, d * n, a


def make(ctx, it, cls, kw_syms):
    C = it.modattr(it.load(MOD), cls)
    if kw_syms is None:
        return it.call(C, [], {}), {}
    kw = {k: ctx.freal(k) for k in kw_syms}
    return it.call(C, [], dict(kw)), kw


def create(ctx, it, fac, a):
    it.depth = 1
    return it.call(it.get_attr(fac, "create_filter"), [a], {})


def common(ctx, it, fac, flt, a, s0, n, d, dz):
    x = ga(it, flt, "x")
    if shape_is(ctx, "x", x, 2 * dz, 1):
        p, = idx(ctx, n)
        for c in range(d):
            ctx.oblige("position starts at the flattened first detection", at(ctx, x, d * p + c, 0) == to_real(s0(p, z3.IntVal(c))))
        i, = idx(ctx, dz)
        ctx.oblige("velocity starts at zero", at(ctx, x, dz + i, 0) == 0)
    ctx.oblige("state is floating point", z3.BoolVal(x.dtype == "f"))
    pi, qi = idx(ctx, n, d)
    ctx.oblige("detection is left unchanged", at(ctx, a, pi, qi) == s0(pi, qi))
    ctx.oblige("filter shares no storage with the detection", z3.BoolVal(a.sid not in ext.sids(ctx, flt)))
    mine = {s for s in ext.sids(ctx, flt)}
    ctx.oblige("filter shares no storage with its factory", z3.BoolVal(not (mine & ext.sids(ctx, fac))))
    other = it.call(it.get_attr(fac, "create_filter"), [a], {})
    ctx.oblige("filters share no storage with each other", z3.BoolVal(not (mine & ext.sids(ctx, other))))
    ctx.oblige("filters are distinct objects", z3.BoolVal(other != flt))


def keeps(ctx, it, fac, kw):
    for k, v in kw.items():
        ctx.oblige(f"factory keeps its setting {k}", eq_real(ga(it, fac, k), v))


for _def in (0, 1):
    @P.unit(f"FilterPyKalmanFilterFactory.create_filter[{'defaults' if _def else 'given'}]", extra=ext.filterpy,
            covers=["norfair.filter.FilterPyKalmanFilterFactory.__init__", "norfair.filter.FilterPyKalmanFilterFactory.create_filter"])
    def fpy(ctx, it, _def=_def):
        fac, kw = make(ctx, it, "FilterPyKalmanFilterFactory", None if _def else ["R", "Q", "P"])
        n, d, dz, a = det(ctx, it)
        s0 = a.snap(ctx)
        f = create(ctx, it, fac, a)
        kk = kw or {"R": z3.RealVal(4), "Q": z3.Q(1, 10), "P": z3.RealVal(10)}
        g = lambda nme: ga(it, f, nme)
        i, j = idx(ctx, 2 * dz, 2 * dz)
        u, v = idx(ctx, dz, dz)
        w = lambda c, t: z3.If(c, to_real(lift(t)), z3.RealVal(0))
        if shape_is(ctx, "F", g("F"), 2 * dz, 2 * dz):
            ctx.oblige("F is the constant velocity transition", at(ctx, g("F"), i, j) == w(z3.Or(i == j, z3.And(i < dz, j == i + dz)), 1))
        if shape_is(ctx, "H", g("H"), dz, 2 * dz):
            ctx.oblige("H measures the positions", at(ctx, g("H"), u, j) == w(u == j, 1))
        if shape_is(ctx, "R", g("R"), dz, dz):
            ctx.oblige("R scales the measurement noise", at(ctx, g("R"), u, v) == w(u == v, kk["R"]))
        for nme in ("Q", "P"):
            if shape_is(ctx, nme, g(nme), 2 * dz, 2 * dz):
                ctx.oblige(f"{nme} scales the velocity block", at(ctx, g(nme), dz + u, dz + v) == w(u == v, kk[nme]))
                ctx.oblige(f"{nme} keeps the position block", at(ctx, g(nme), u, v) == w(u == v, 1))
                ctx.oblige(f"{nme} has no cross terms", z3.And(at(ctx, g(nme), u, dz + v) == 0, at(ctx, g(nme), dz + u, v) == 0))
        keeps(ctx, it, fac, kw)
        common(ctx, it, fac, f, a, s0, n, d, dz)

    @P.unit(f"OptimizedKalmanFilterFactory.create_filter[{'defaults' if _def else 'given'}]", extra=ext.filterpy,
            covers=["norfair.filter.OptimizedKalmanFilterFactory.__init__", "norfair.filter.OptimizedKalmanFilterFactory.create_filter",
                    "norfair.filter.OptimizedKalmanFilter.__init__"])
    def opt(ctx, it, _def=_def):
        names = ["R", "Q", "pos_variance", "pos_vel_covariance", "vel_variance"]
        fac, kw = make(ctx, it, "OptimizedKalmanFilterFactory", None if _def else names)
        n, d, dz, a = det(ctx, it)
        s0 = a.snap(ctx)
        f = create(ctx, it, fac, a)
        kk = kw or dict(zip(names, [z3.RealVal(4), z3.Q(1, 10), z3.RealVal(10), z3.RealVal(0), z3.RealVal(1)]))
        i, = idx(ctx, dz)
        for nme, src in (("pos_variance",) * 2, ("pos_vel_covariance",) * 2, ("vel_variance",) * 2, ("default_r", "R")):
            if shape_is(ctx, nme, ga(it, f, nme), dz, 1):
                ctx.oblige(f"{nme} as configured", at(ctx, ga(it, f, nme), i, 0) == to_real(kk[src]))
        ctx.oblige("process noise as configured", eq_real(ga(it, f, "q_Q"), kk["Q"]))
        ctx.oblige("dim_z", b_(it.compare("==", ga(it, f, "dim_z"), dz)))
        keeps(ctx, it, fac, kw)
        common(ctx, it, fac, f, a, s0, n, d, dz)


@P.unit("NoFilterFactory.create_filter", extra=ext.filterpy,
        covers=["norfair.filter.NoFilterFactory.create_filter", "norfair.filter.NoFilter.__init__"])
def nof(ctx, it):
    fac = it.call(it.modattr(it.load(MOD), "NoFilterFactory"), [], {})
    n, d, dz, a = det(ctx, it)
    s0 = a.snap(ctx)
    f = create(ctx, it, fac, a)
    common(ctx, it, fac, f, a, s0, n, d, dz)


def nofilter(ctx, it):
    dz = ctx.fint("dim_z", 1)
    F = it.modattr(it.load(MOD), "NoFilter")
    o = it.call(F, [2 * dz, dz], {})
    old = ga(it, o, "x")
    if shape_is(ctx, "x", old, 2 * dz, 1):
        i, = idx(ctx, 2 * dz)
        ctx.oblige("NoFilter starts at zero", at(ctx, old, i, 0) == 0)
    x = real_arr(ctx, "x", (2 * dz, 1))
    ctx.setattr(o, "x", x)
    return o, dz, x.snap(ctx)


@P.unit("NoFilter.predict", covers=["norfair.filter.NoFilter.predict"], extra=ext.filterpy)
def nofp(ctx, it):
    o, dz, x0 = nofilter(ctx, it)
    it.depth = 1
    it.call(it.get_attr(o, "predict"), [], {})
    i, = idx(ctx, 2 * dz)
    ctx.oblige("predict changes nothing", at(ctx, ga(it, o, "x"), i, 0) == x0(i, z0))


@P.unit("NoFilter.update", covers=["norfair.filter.NoFilter.update"], extra=ext.filterpy)
def nofu(ctx, it):
    o, dz, x0 = nofilter(ctx, it)
    m = real_arr(ctx, "z", (dz, 1))
    m0 = m.snap(ctx)
    kw = {}
    h = lambda i: z3.BoolVal(True)
    if ctx.choose(2):
        h = ctx.fresh_fn("seen", [I], B)
        kw["H"] = ctx.new_arr((dz, 2 * dz), "f", lambda i, j, h=h: z3.If(z3.And(i == j, h(i)), z3.RealVal(1), z3.RealVal(0)))
        hs = kw["H"].snap(ctx)
    if ctx.choose(2):
        kw["R"] = real_arr(ctx, "R", (dz, dz))
    it.depth = 1
    it.call(it.get_attr(o, "update"), [m], kw)
    i, = idx(ctx, dz)
    x = ga(it, o, "x")
    shape_is(ctx, "x", x, 2 * dz, 1)
    ctx.oblige("measured coordinate takes the measurement", z3.Implies(h(i), at(ctx, x, i, 0) == m0(i, z0)))
    ctx.oblige("unmeasured coordinate keeps its value", z3.Implies(z3.Not(h(i)), at(ctx, x, i, 0) == x0(i, z0)))
    ctx.oblige("velocity stays", at(ctx, x, dz + i, 0) == x0(dz + i, z0))
    ctx.oblige("measurement unchanged", at(ctx, m, i, 0) == m0(i, z0))
    ctx.oblige("measurement is copied, not aliased", z3.BoolVal(x.sid != m.sid))
    if "H" in kw:
        j, = idx(ctx, 2 * dz)
        ctx.oblige("H unchanged", at(ctx, kw["H"], i, j) == hs(i, j))
