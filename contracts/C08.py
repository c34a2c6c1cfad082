"""C08: IoU distance.  norfair.distances.{iou,_validate_bboxes,_boxes_area}."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C08", assumptions=["valid boxes: x_min < x_max and y_min < y_max for candidates and objects (degenerate boxes only warn)"])
MOD = "norfair.distances"


def mx(a, b):
    return z3.If(a >= b, a, b)


def mn(a, b):
    return z3.If(a <= b, a, b)


def boxes(ctx, name, dt="f"):
    n = ctx.fint("n_" + name, 1 if ctx.choose(2) else 0)
    a = real_arr(ctx, name, (n, 4), dt)
    s = a.snap(ctx)
    g = lambda i, c: to_real(s(i, z3.IntVal(c)))
    v = z3.Const("#b", I)
    ctx.forall([v], z3.Implies(z3.And(v >= 0, v < n), z3.And(g(v, 0) < g(v, 2), g(v, 1) < g(v, 3))))
    return n, a, s, g


def inter(g, i, h, j):
    w = mn(g(i, 2), h(j, 2)) - mx(g(i, 0), h(j, 0))
    t = mn(g(i, 3), h(j, 3)) - mx(g(i, 1), h(j, 1))
    z = z3.RealVal(0)
    return mx(w, z), mx(t, z)


def area(g, i):
    return (g(i, 2) - g(i, 0)) * (g(i, 3) - g(i, 1))


@P.unit("iou", covers=[MOD + ".iou", MOD + "._validate_bboxes", MOD + "._boxes_area"], extra=ext.scipy_model)
def iou(ctx, it):
    di, dj = [("f", "f"), ("i", "f"), ("f", "i"), ("i", "i")][ctx.choose(4)]
    n, a, sa, g = boxes(ctx, "cand", di)
    k, b, sb, h = boxes(ctx, "obj", dj)
    f = it.modattr(it.load(MOD), "iou")
    it.depth = 1
    r = it.call(f, [a, b], {})
    if not shape_is(ctx, "iou", r, n, k):
        return
    i, j = idx(ctx, n, k)
    ctx.assume(z3.And(g(i, 0) < g(i, 2), g(i, 1) < g(i, 3), h(j, 0) < h(j, 2), h(j, 1) < h(j, 3)))
    w, t = inter(g, i, h, j)
    A, C = area(g, i), area(h, j)
    ctx.oblige("areas are positive", z3.And(A > 0, C > 0))
    ctx.assume(z3.And(A > 0, C > 0))
    got = at(ctx, r, i, j)
    want = 1 - (w * t) / (A + C - w * t)
    if not z3.simplify(got == want).eq(z3.BoolVal(True)):
        # name the pieces: equal numerators and denominators give equal quotients
        ctx.oblige("entry (i, j) is 1 - intersection / union of candidate i and object j", got == want)
    else:
        ctx.oblige("entry (i, j) is 1 - intersection / union of candidate i and object j", z3.BoolVal(True))
    u, v = idx(ctx, n, 4)
    ctx.oblige("candidates unchanged", at(ctx, a, u, v) == sa(u, v))
    u, v = idx(ctx, k, 4)
    ctx.oblige("objects unchanged", at(ctx, b, u, v) == sb(u, v))


@P.unit("lemma: 1 - intersection/union is a number in [0,1], symmetric, 0 iff equal, 1 iff disjoint")
def lem(ctx, it):
    g = [ctx.freal(f"a{c}") for c in range(4)]
    h = [ctx.freal(f"b{c}") for c in range(4)]
    G, Hh = (lambda i, c: g[c]), (lambda j, c: h[c])
    valid = z3.And(g[0] < g[2], g[1] < g[3], h[0] < h[2], h[1] < h[3])
    w, t = inter(G, 0, Hh, 0)
    w2, t2 = inter(Hh, 0, G, 0)
    # one axis at a time (linear)
    aw, at_, bw, bt = g[2] - g[0], g[3] - g[1], h[2] - h[0], h[3] - h[1]
    ctx.oblige("overlap extents", z3.Implies(valid, z3.And(w >= 0, t >= 0, w <= aw, w <= bw, t <= at_, t <= bt)))
    ctx.oblige("symmetric extents", z3.And(w == w2, t == t2))
    ctx.oblige("full overlap means equal extents", z3.Implies(z3.And(valid, w == aw, w == bw), z3.And(g[0] == h[0], g[2] == h[2])))
    ctx.oblige("full overlap means equal extents (vertical)", z3.Implies(z3.And(valid, t == at_, t == bt), z3.And(g[1] == h[1], g[3] == h[3])))
    ctx.oblige("equal boxes overlap fully", z3.Implies(z3.And(valid, *[x == y for x, y in zip(g, h)]), z3.And(w == aw, t == at_)))
    ctx.oblige("disjoint iff no extent", z3.Implies(valid, z3.Or(w == 0, t == 0) == z3.Or(g[2] <= h[0], h[2] <= g[0], g[3] <= h[1], h[3] <= g[1])))
    # abstract: W,T overlap extents; a x b and c x d the boxes
    W, T, a, b, c, d = [ctx.freal(n) for n in "WTabcd"]
    base = z3.And(W >= 0, T >= 0, W <= a, W <= c, T <= b, T <= d, a > 0, b > 0, c > 0, d > 0)
    ctx.oblige("intersection within each box", z3.Implies(base, z3.And(W * T <= a * b, W * T <= c * d, W * T >= 0)))
    Iv, A, Bv = ctx.freal("I"), ctx.freal("A"), ctx.freal("B")
    ab = z3.And(Iv >= 0, Iv <= A, Iv <= Bv, A > 0, Bv > 0)
    U = A + Bv - Iv
    ctx.oblige("union positive", z3.Implies(ab, U > 0))
    dist = 1 - Iv / U
    ctx.oblige("distance between 0 and 1", z3.Implies(ab, z3.And(dist >= 0, dist <= 1)))
    ctx.oblige("0 iff intersection equals both areas", z3.Implies(ab, (dist == 0) == z3.And(Iv == A, Iv == Bv)))
    ctx.oblige("1 iff no intersection", z3.Implies(ab, (dist == 1) == (Iv == 0)))
    ctx.oblige("equal products need equal extents", z3.Implies(z3.And(base, W * T == a * b), z3.And(W == a, T == b)))
    ctx.oblige("no area iff no extent", z3.Implies(base, (W * T == 0) == z3.Or(W == 0, T == 0)))


@P.unit("_validate_bboxes rejects malformed candidates", covers=[MOD + "._validate_bboxes"], extra=ext.scipy_model)
def bad(ctx, it):
    n = ctx.fint("n", 1)
    kind = ctx.choose(4)
    if kind == 0:
        m = ctx.fint("cols", 0)
        ctx.assume(m != 4)
        a = real_arr(ctx, "cand", (n, m))
    elif kind == 1:
        a = real_arr(ctx, "cand", (n,))
    elif kind == 2:
        a = real_arr(ctx, "cand", (n, 4, 1))
    else:
        a = ctx.new_list([ctx.new_list([z3.RealVal(v) for v in (0, 0, 1, 1)])])
    b = real_arr(ctx, "obj", (n, 4))
    f = it.modattr(it.load(MOD), "iou")
    it.depth = 1
    st, e = call_raises(it, f, [a, b])
    ctx.oblige("candidates that are not an (N, 4) array are rejected with an assertion error",
               z3.BoolVal(st == "raise" and e.cls is AssertionError), str(e)[:200])
