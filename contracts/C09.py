"""C09: the optimized Kalman filter is a textbook Kalman filter per coordinate.

norfair.filter.OptimizedKalmanFilter.{__init__,predict,update}: the number of
coordinates dim_z is symbolic (any), the filter state is arbitrary within the
representation invariant
    pos_variance, pos_vel_covariance + ..., :  P = [[a, b], [b, c]] with
    a >= 0, c >= 0, a*c >= b*b, q > 0, r > 0
which __init__ establishes and predict/update preserve (for all inputs)."""
from pyvc.spec import *

P = Prop("C09", assumptions=["floats treated as mathematical reals",
                             "H is a 0/1 diagonal selection matrix (as the tracker builds it) or None; R is a matrix with positive diagonal or None"])
MOD = "norfair.filter"


def state(ctx, it, psd=True):
    dz = ctx.fint("dim_z", 1)
    F = it.modattr(it.load(MOD), "OptimizedKalmanFilter")
    q, r = ctx.freal("q"), ctx.freal("r")
    ctx.assume(q > 0)
    o = it.call(F, [2 * dz, dz], {"q": q, "r": r})
    # havoc the state to an arbitrary one satisfying the invariant
    x = real_arr(ctx, "x", (2 * dz, 1))
    a, b, c, dr = [real_arr(ctx, n, (dz, 1)) for n in ("a", "b", "c", "dr")]
    for nme, v in (("x", x), ("pos_variance", a), ("pos_vel_covariance", b), ("vel_variance", c), ("default_r", dr)):
        old = ga(it, o, nme)
        shape_is(ctx, f"__init__ {nme}", old, *v.shape)
        ctx.setattr(o, nme, v)
    return o, dz, q, x, a, b, c, dr


def inv(a, b, c):
    return z3.And(a >= 0, c >= 0, a * c >= b * b)


@P.unit("OptimizedKalmanFilter.__init__", covers=["norfair.filter.OptimizedKalmanFilter.__init__"])
def init(ctx, it):
    dz, dx = ctx.fint("dim_z", 1), ctx.fint("dim_x")
    ctx.assume(dx == 2 * dz)
    pv, pvc, vv, q, r = [ctx.freal(n) for n in ("pv", "pvc", "vv", "q", "r")]
    F = it.modattr(it.load(MOD), "OptimizedKalmanFilter")
    if ctx.choose(2):
        o = it.call(F, [dx, dz, pv, pvc, vv], {"q": q, "r": r})
    else:
        o = it.call(F, [dx, dz], {})
        pv, pvc, vv, q, r = [z3.RealVal(v) for v in (10, 0, 1)] + [z3.Q(1, 10), z3.RealVal(4)]
    g = lambda o, n: ga(it, o, n)
    (i,), (j,) = idx(ctx, dz), idx(ctx, dx)
    for n, v in (("pos_variance", pv), ("pos_vel_covariance", pvc), ("vel_variance", vv), ("default_r", r)):
        arr = g(o, n)
        if shape_is(ctx, n, arr, dz, 1):
            ctx.oblige(f"{n} starts as configured", eq_real(at(ctx, arr, i, 0), v))
    if shape_is(ctx, "x", g(o, "x"), dx, 1):
        ctx.oblige("state starts at zero", eq_real(at(ctx, g(o, "x"), j, 0), 0))
    ctx.oblige("process noise as configured", eq_real(g(o, "q_Q"), q))


@P.unit("OptimizedKalmanFilter.predict", covers=["norfair.filter.OptimizedKalmanFilter.predict"])
def predict(ctx, it):
    o, dz, q, x, a, b, c, dr = state(ctx, it)
    x0, a0, b0, c0, d0 = [v.snap(ctx) for v in (x, a, b, c, dr)]
    it.depth = 1
    it.call(it.get_attr(o, "predict"), [], {})
    (i,) = idx(ctx, dz)
    z = z3.IntVal(0)
    X = ga(it, o, "x")
    shape_is(ctx, "x", X, 2 * dz, 1)
    ctx.oblige("position advances by the velocity", at(ctx, X, i, 0) == x0(i, z) + x0(dz + i, z))
    ctx.oblige("velocity unchanged by predict", at(ctx, X, dz + i, 0) == x0(dz + i, z))
    for n, v0 in (("pos_variance", a0), ("pos_vel_covariance", b0), ("vel_variance", c0), ("default_r", d0)):
        ctx.oblige(f"predict keeps {n} (predicted covariance is folded into update)", at(ctx, ga(it, o, n), i, 0) == v0(i, z))
    ctx.oblige("predict keeps q", eq_real(ga(it, o, "q_Q"), q))


def do_update(ctx, it, useH, useR):
    o, dz, q, x, a, b, c, dr = state(ctx, it)
    z = z3.IntVal(0)
    x0, a0, b0, c0, d0 = [v.snap(ctx) for v in (x, a, b, c, dr)]
    meas = real_arr(ctx, "z", (dz, 1))
    m0 = meas.snap(ctx)
    kw = {}
    h = lambda i: z3.BoolVal(True)
    r = lambda i: d0(i, z)
    if useH:
        hb = ctx.fresh_fn("seen", [I], B)
        H = ctx.new_arr((dz, 2 * dz), "f", lambda i, j: z3.If(i == j, z3.If(hb(i), z3.RealVal(1), z3.RealVal(0)), z3.RealVal(0)))
        kw["H"] = H
        h = hb
    if useR:
        RR = real_arr(ctx, "R", (dz, dz))
        r0 = RR.snap(ctx)
        kw["R"] = RR
        r = lambda i: r0(i, i)
    # textbook predicted covariance with F=[[1,1],[0,1]], Q=diag(q,q)
    (i,) = idx(ctx, dz)
    A, Bc, C = a0(i, z), b0(i, z), c0(i, z)
    rr = r(i)
    ctx.assume(rr > 0)
    ctx.assume(inv(A, Bc, C))
    it.depth = 1
    before = [(n, v, v.snap(ctx)) for n, v in (("measurement", meas), ("H", kw.get("H")), ("R", kw.get("R"))) if v is not None]
    it.call(it.get_attr(o, "update"), [meas], kw)
    Pa = A + 2 * Bc + C + q
    Pb = Bc + C
    Pc = C + q
    S = Pa + rr
    e = m0(i, z) - x0(i, z)
    X = ga(it, o, "x")
    shape_is(ctx, "x", X, 2 * dz, 1)
    xp, xv = at(ctx, X, i, 0), at(ctx, X, dz + i, 0)
    hv = h(i)
    return dict(locals())


def _post(ctx, it, v, psd):
    o, z, i, S, hv = v["o"], v["z"], v["i"], v["S"], v["hv"]
    g = lambda o, n: ga(it, o, n)
    a1, b1, c1 = [at(ctx, g(o, n), i, 0) for n in ("pos_variance", "pos_vel_covariance", "vel_variance")]
    Pa, Pb, Pc, e, x0, dz, rr, q = (v[k] for k in ("Pa", "Pb", "Pc", "e", "x0", "dz", "rr", "q"))
    xp0, xv0 = x0(i, z), x0(dz + i, z)
    for n in ("pos_variance", "pos_vel_covariance", "vel_variance", "default_r"):
        shape_is(ctx, n, g(o, n), dz, 1)
    # the innovation variance is positive, so the divisions of the code are exact
    ctx.oblige("innovation variance is positive", S > 0)
    # quotients are named by their defining equations (exact: S != 0)
    kp, kv = ctx.freal("kp"), ctx.freal("kv")
    ctx.assume(kp * S == Pa)
    ctx.assume(kv * S == Pb)
    ctx.oblige("gain definitions", z3.And(Pa / S == kp, (S - Pa) / S == 1 - kp, Pb / S == kv, rr / S == 1 - kp))

    def post(name, got, seen, unseen):
        ctx.oblige(f"update: {name} (measured coordinate)", z3.Implies(hv, got == seen))
        ctx.oblige(f"update: {name} (masked coordinate keeps its prediction)", z3.Implies(z3.Not(hv), got == unseen))

    post("posterior position", v["xp"], xp0 + Pa / S * e, xp0)
    post("posterior velocity", v["xv"], xv0 + Pb / S * e, xv0)
    post("posterior position variance", a1, Pa - Pa * Pa / S, Pa)
    post("posterior covariance", b1, Pb - Pa * Pb / S, Pb)
    post("posterior velocity variance", c1, Pc - Pb * Pb / S, Pc)
    ctx.oblige("update keeps r", at(ctx, g(o, "default_r"), i, 0) == v["d0"](i, z))
    ctx.oblige("update keeps q", eq_real(g(o, "q_Q"), q))
    for n, arr, s in v["before"]:
        ix = idx(ctx, *arr.shape)
        ctx.oblige(f"update leaves its argument {n} unchanged", at(ctx, arr, *ix) == s(*ix))


for _h in (0, 1):
    for _r in (0, 1):
        @P.unit(f"OptimizedKalmanFilter.update[H={'mask' if _h else None},R={'matrix' if _r else None}]",
                covers=["norfair.filter.OptimizedKalmanFilter.update"])
        def update(ctx, it, _h=_h, _r=_r):
            v = do_update(ctx, it, _h, _r)
            _post(ctx, it, v, False)


@P.unit("lemma: the textbook posterior keeps the covariance positive semidefinite", covers=[])
def psd(ctx, it):
    """Pure lemma over the contract: update maps (a,b,c) to the textbook
    posterior (or prediction when masked); that map preserves the invariant,
    so by induction every history of predict/update keeps it."""
    A, Bc, C, q, r = [ctx.freal(n) for n in "abcqr"]
    ctx.assume(z3.And(inv(A, Bc, C), q > 0, r > 0))
    Pa, Pb, Pc = A + 2 * Bc + C + q, Bc + C, C + q
    # v^T P v with v=(1,1): A+2B+C >= 0 for a psd matrix
    ctx.oblige("psd: A+2B+C is nonnegative", A + 2 * Bc + C >= 0)
    ctx.oblige("psd: predicted variances positive", z3.And(Pa >= q, Pc >= q))
    # det of the predicted covariance
    det = Pa * Pc - Pb * Pb
    t = A + 2 * Bc + C
    ctx.oblige("psd: predicted determinant expands", det == (A * C - Bc * Bc) + q * t + q * C + q * q)
    ctx.assume(t >= 0)  # proved above
    ctx.oblige("psd: predicted determinant positive", z3.Implies(z3.And(q * t >= 0, q * C >= 0, q * q > 0),
                                                                det > 0))
    ctx.oblige("psd: products of nonnegatives", z3.And(q * t >= 0, q * C >= 0, q * q > 0))
    S = Pa + r
    k, m = ctx.freal("k"), ctx.freal("m")
    # posterior times S:  a' S = Pa r,  b' S = Pb r,  c' S = det + Pc r
    ap, bp, cp = ctx.freal("ap"), ctx.freal("bp"), ctx.freal("cp")
    ctx.assume(z3.And(S > 0, ap * S == Pa * S - Pa * Pa, bp * S == Pb * S - Pa * Pb, cp * S == Pc * S - Pb * Pb))
    D = ctx.freal("D")
    p, s, w = ctx.freal("p"), ctx.freal("s"), ctx.freal("w")
    sub = [(Pa, p), (Pb, s), (Pc, w)]
    # restated over p, s, w (p=Pa, s=Pb, w=Pc)
    ctx2 = z3.And(p > 0, w > 0, p * w > s * s, r > 0)
    S2 = p + r
    goal = lambda c: z3.Implies(ctx2, c)
    ctx.oblige("psd: posterior position variance positive", goal(z3.Implies(ap * S2 == p * r, ap > 0)))
    ctx.oblige("psd: posterior velocity variance positive", goal(z3.Implies(cp * S2 == (p * w - s * s) + w * r, cp > 0)))
    ctx.oblige("psd: numerators", z3.And(p * S2 - p * p == p * r, s * S2 - p * s == s * r,
                                         w * S2 - s * s == (p * w - s * s) + w * r))
    # (a'c' - b'^2) S^2 = r S (p w - s^2)
    ctx.oblige("psd: determinant of numerators",
               (p * r) * ((p * w - s * s) + w * r) - (s * r) * (s * r) == r * S2 * (p * w - s * s))
    N1, N2, N3, T = ctx.freal("N1"), ctx.freal("N2"), ctx.freal("N3"), ctx.freal("T")
    ctx.oblige("psd: posterior determinant positive",
               z3.Implies(z3.And(T > 0, ap * T == N1, bp * T == N2, cp * T == N3, N1 * N3 - N2 * N2 > 0),
                          (ap * T) * (cp * T) - (bp * T) * (bp * T) > 0))
    ctx.oblige("psd: scaling", z3.Implies(z3.And(T > 0, T * T * (ap * cp - bp * bp) > 0), ap * cp - bp * bp > 0))
