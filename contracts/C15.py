"""C15: camera transformations and their inverses cancel out.
norfair.camera_motion.{TranslationTransformation,HomographyTransformation}."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C15", trusted=["numpy.linalg.inv returns a two-sided inverse of every nonsingular 3x3 matrix (sampled)"],
         assumptions=["homography: w = third row of the matrix applied to (x, y, 1) is not 0 (the point is not sent to infinity)"])
MOD = "norfair.camera_motion"


def pts(ctx, name="p"):
    n = ctx.fint("n", 0)
    return n, real_arr(ctx, name, (n, 2), "i" if ctx.choose(2) else "f")


@P.unit("TranslationTransformation", covers=[MOD + ".TranslationTransformation.__init__", MOD + ".TranslationTransformation.abs_to_rel",
                                             MOD + ".TranslationTransformation.rel_to_abs"], extra=ext.cv2_model)
def tr(ctx, it):
    C = it.modattr(it.load(MOD), "TranslationTransformation")
    mv = real_arr(ctx, "mv", (2,))
    m0 = mv.snap(ctx)
    t = it.call(C, [mv], {})
    n, a = pts(ctx)
    s0 = a.snap(ctx)
    i, c = idx(ctx, n, 2)
    it.depth = 1
    p = to_real(s0(i, c))
    for first, second, sign in (("abs_to_rel", "rel_to_abs", 1), ("rel_to_abs", "abs_to_rel", -1)):
        q = it.call(it.get_attr(t, first), [a], {})
        if not shape_is(ctx, first, q, n, 2):
            continue
        ctx.oblige(f"{first} {'adds' if sign > 0 else 'subtracts'} the movement vector, point by point", at(ctx, q, i, c) == p + sign * m0(c))
        ctx.oblige(f"{first} does not alias its input", z3.BoolVal(q.sid != a.sid and q.sid != mv.sid))
        r = it.call(it.get_attr(t, second), [q], {})
        if shape_is(ctx, second, r, n, 2):
            ctx.oblige(f"{second} undoes {first}", at(ctx, r, i, c) == p)
        ctx.oblige("input points unchanged", at(ctx, a, i, c) == s0(i, c))
        ctx.oblige("movement vector unchanged", at(ctx, mv, c) == m0(c))


def hom(ctx, it):
    C = it.modattr(it.load(MOD), "HomographyTransformation")
    Hm = real_arr(ctx, "H", (3, 3))
    h0 = Hm.snap(ctx)
    return C, Hm, [[h0(z3.IntVal(i), z3.IntVal(j)) for j in range(3)] for i in range(3)]


@P.unit("HomographyTransformation.__init__", covers=[MOD + ".HomographyTransformation.__init__"], extra=ext.cv2_model)
def hinit(ctx, it):
    C, Hm, h = hom(ctx, it)
    det = (h[0][0] * (h[1][1] * h[2][2] - h[1][2] * h[2][1]) - h[0][1] * (h[1][0] * h[2][2] - h[1][2] * h[2][0])
           + h[0][2] * (h[1][0] * h[2][1] - h[1][1] * h[2][0]))
    ctx.assume(det != 0)
    it.depth = 1
    t = it.call(C, [Hm], {})
    A, Bm = ga(it, t, "homography_matrix"), ga(it, t, "inverse_homography_matrix")
    shape_is(ctx, "matrix", A, 3, 3)
    shape_is(ctx, "inverse", Bm, 3, 3)
    for i in range(3):
        for j in range(3):
            ctx.oblige("keeps the given matrix", at(ctx, A, i, j) == h[i][j])
            ctx.oblige("caller's matrix unchanged", at(ctx, Hm, i, j) == h[i][j])
            one = z3.RealVal(1 if i == j else 0)
            ctx.oblige("inverse matrix is a right inverse", sum((at(ctx, A, i, k) * at(ctx, Bm, k, j) for k in range(3)), z3.RealVal(0)) == one)
            ctx.oblige("inverse matrix is a left inverse", sum((at(ctx, Bm, i, k) * at(ctx, A, k, j) for k in range(3)), z3.RealVal(0)) == one)


for _m, _attr in (("abs_to_rel", "homography_matrix"), ("rel_to_abs", "inverse_homography_matrix")):
    @P.unit(f"HomographyTransformation.{_m}", covers=[f"{MOD}.HomographyTransformation.{_m}"], extra=ext.cv2_model)
    def happly(ctx, it, _m=_m, _attr=_attr):
        C = it.modattr(it.load(MOD), "HomographyTransformation")
        A, Bm = real_arr(ctx, "H", (3, 3)), real_arr(ctx, "G", (3, 3))
        t = ctx.new_obj(C, homography_matrix=A, inverse_homography_matrix=Bm)
        M = (A if _attr == "homography_matrix" else Bm).snap(ctx)
        sA, sB = A.snap(ctx), Bm.snap(ctx)
        n, a = pts(ctx)
        s0 = a.snap(ctx)
        i, = idx(ctx, n)
        x, y = to_real(s0(i, z3.IntVal(0))), to_real(s0(i, z3.IntVal(1)))
        row = lambda r: M(z3.IntVal(r), z3.IntVal(0)) * x + M(z3.IntVal(r), z3.IntVal(1)) * y + M(z3.IntVal(r), z3.IntVal(2))
        w = row(2)
        ctx.assume(w != 0)
        it.depth = 1
        q = it.call(it.get_attr(t, _m), [a], {})
        if shape_is(ctx, _m, q, n, 2):
            for c in range(2):
                v = at(ctx, q, i, c)
                ctx.oblige(f"{_m}: coordinate {c} is the projective image of that point", v == row(c) / w)
        k, c = idx(ctx, n, 2)
        ctx.oblige("input points unchanged", at(ctx, a, k, c) == s0(k, c))
        u, v = idx(ctx, 3, 3)
        ctx.oblige("matrices unchanged", z3.And(at(ctx, A, u, v) == sA(u, v), at(ctx, Bm, u, v) == sB(u, v)))
        ctx.oblige("result does not alias its input", z3.BoolVal(q.sid != a.sid))


@P.unit("lemma: projective maps by inverse matrices cancel out")
def lemma(ctx, it):
    """Over the contracts of abs_to_rel/rel_to_abs (and, by symmetry of the
    two-sided inverse, the other way round)."""
    h = [[ctx.freal(f"h{i}{j}") for j in range(3)] for i in range(3)]
    g = [[ctx.freal(f"g{i}{j}") for j in range(3)] for i in range(3)]
    p = [ctx.freal("x"), ctx.freal("y"), z3.RealVal(1)]
    one = lambda i, j: z3.RealVal(1 if i == j else 0)
    gh = lambda i, j: sum((g[i][k] * h[k][j] for k in range(1, 3)), g[i][0] * h[0][j])
    hp = [h[i][0] * p[0] + h[i][1] * p[1] + h[i][2] for i in range(3)]
    w, q0, q1 = ctx.freal("w"), ctx.freal("q0"), ctx.freal("q1")
    L = [g[i][0] * q0 + g[i][1] * q1 + g[i][2] for i in range(3)]
    s = lambda e: z3.simplify(e, som=True)
    e, f, a = [[ctx.freal(f"{n}{k}") for k in range(3)] for n in "efa"]
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
    ctx.oblige("congruence", z3.Implies(z3.And(*[x == y for x, y in zip(e, f)]), dot(a, e) == dot(a, f)))
    for i in range(3):
        # G (H p) = (G H) p
        ctx.oblige(f"ring identity row {i}", s(dot(g[i], hp) - (gh(i, 0) * p[0] + gh(i, 1) * p[1] + gh(i, 2))) == 0)
        ctx.oblige(f"G H = I row {i}", z3.Implies(z3.And(*[v == one(i, j) for j, v in enumerate(e)]),
                                                 e[0] * p[0] + e[1] * p[1] + e[2] == p[i]))
        # row i of G applied to (q0, q1, 1), times w; with q0 w, q1 w, w = H p (congruence)
        ctx.oblige(f"scaling row {i}", s(L[i] * w - dot(g[i], [q0 * w, q1 * w, w])) == 0)
    # hence, for every row, (row i of G applied to (q0,q1,1)) * w = p_i
    r = [ctx.freal(f"r{i}") for i in range(3)]
    for i in range(3):
        ctx.assume(r[i] * w == p[i])
    ctx.assume(w != 0)
    ctx.oblige("the image of the image is not at infinity", r[2] != 0)
    ctx.oblige("x is recovered", r[0] / r[2] == p[0])
    ctx.oblige("y is recovered", r[1] / r[2] == p[1])
