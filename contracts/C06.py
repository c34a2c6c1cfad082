"""C06: the distance matrix.  norfair.distances.{ScalarDistance,
VectorizedDistance,ScipyDistance}.get_distances for arbitrary lists of
candidates and objects with arbitrary labels."""
from contracts.tracked import *

P = Prop("C06", assumptions=["labels: equality is an equivalence relation consistent with hashing (hashables); None is one of them",
                             "candidates and objects compared by a vectorized distance have the same number of points and coordinates (1, 2 or 3 coordinates; the number of points is arbitrary)",
                             "rounding of the distance to float32 when it is stored is not modelled"],
         trusted=["a vectorized distance function gives, at row a and column b, the distance of row a of the candidates and row b of the objects (scipy's cdist does; users' functions must)",
                  "TrackedObject.estimate is the position estimate (C11, C16)"])
DI = "norfair.distances"
NONE = z3.Const("#NoneLabel", U)


def dcls(it, name):
    return it.modattr(it.load(DI), name)


def lists(ctx, it, tracked):
    """arbitrary lists of candidates and objects, by position"""
    s = State()
    T, D = cls(it, "TrackedObject"), cls(it, "Detection")
    s.T, s.C = T, (T if tracked else D)
    s.n, s.m = ctx.fint("candidates", 0), ctx.fint("objects", 0)
    s.cref, s.oref = z3.Function("cand", I, Ref), z3.Function("obj", I, Ref)
    lab = z3.Function("label", Ref, U)
    ctx.forall([z3.Const("#a", Ref)], z3.BoolVal(True))
    s.lab = lab
    op = lambda r: Opaque("label", lab(r), {"isnone": lab(r) == NONE})
    for c in ("TrackedObject", "Detection"):
        ctx.mem[("field", c, "label")] = FMap(op)
    s.lc = lambda i: lab(s.cref(i))
    s.lo = lambda j: lab(s.oref(j))
    s.cands = ctx.new_list(SeqVal([SymPart(Dom.dense(s.n), lambda i: RefObj(s.C, s.cref(i)))]))
    s.objs = ctx.new_list(SeqVal([SymPart(Dom.dense(s.m), lambda i: RefObj(T, s.oref(i)))]))
    return s


def points(ctx, it, s):
    s.d, s.p = ctx.choose(3) + 1, ctx.fint("points", 1)
    e, q = z3.Function("est", Ref, I, I, R), z3.Function("pts", Ref, I, I, R)
    s.oval, s.cval = (lambda r, i, j: e(r, i, j)), ((lambda r, i, j: e(r, i, j)) if s.C is s.T else (lambda r, i, j: q(r, i, j)))
    ctx.mem[("field", "Detection", "points")] = FMap(lambda r: NDArr((s.p, s.d), "f", -7, ro=True, frozen=lambda i, j: q(r, lift(i), lift(j))))

    def estimate(it2, b):
        r = b["self"]
        if not isinstance(r, RefObj) or b.get("absolute", False) is not False:
            return NotImplemented
        return NDArr((s.p, s.d), "f", -8, ro=True, frozen=lambda i, j: e(r.ref, lift(i), lift(j)))

    it.contracts = {TR + ".TrackedObject.get_estimate": estimate}


def check_matrix(ctx, it, s, r, val):
    if not shape_is(ctx, "one row per candidate, one column per object", r, s.n, s.m):
        return
    i, j = idx(ctx, s.n, s.m)
    v = to_real(at(ctx, r, i, j))
    same = s.lc(i) == s.lo(j)
    ctx.oblige("pairs with different labels have distance infinity", z3.Implies(z3.Not(same), v == INF))
    ctx.oblige("pairs with equal labels have the distance of exactly that pair", z3.Implies(same, v == val(i, j)))


def unchanged_lists(ctx, it, s):
    for l, n, f, w in ((s.cands, s.n, s.cref, "candidates"), (s.objs, s.m, s.oref, "objects")):
        p = ctx.seq(l).parts
        ctx.oblige(f"the list of {w} is unchanged", z3.BoolVal(len(p) == 1 and isinstance(p[0], SymPart) and p[0].dom.n is not None
                                                              and lift(p[0].dom.n).eq(n) and p[0].val(z3.Int("#q")).ref.eq(f(z3.Int("#q")))))


@P.unit("ScalarDistance.get_distances", covers=[DI + ".ScalarDistance.get_distances", DI + ".ScalarDistance.__init__"], extra=ext.all_models)
def scalar(ctx, it):
    s = lists(ctx, it, ctx.choose(2) == 1)
    d = z3.Function("distance", Ref, Ref, R)

    def fn(it2, a, k):
        c, o = a
        ok = isinstance(c, RefObj) and isinstance(o, RefObj) and c.cls is s.C and o.cls is s.T
        it2.ctx.oblige("the distance function is given a candidate and an object", z3.BoolVal(ok))
        if not ok:
            raise Infeasible()
        it2.ctx.oblige("the distance function is only asked for equal labels", s.lab(c.ref) == s.lab(o.ref))
        return d(c.ref, o.ref)

    D = it.call(dcls(it, "ScalarDistance"), [Native("distance", fn)], {})
    it.depth = 1
    r = it.call(it.get_attr(D, "get_distances"), [s.objs, s.cands], {})
    check_matrix(ctx, it, s, r, lambda i, j: d(s.cref(i), s.oref(j)))
    unchanged_lists(ctx, it, s)


def stacked(ctx, what, A, dom_n, s, ref, value, lab):
    """obligation: A holds, row by row, the points of the elements of one label"""
    ok = isinstance(A, NDArr) and A.ndim == 2 and ctx.same_dim(A.shape[1], s.d * s.p)
    ctx.oblige(f"the {what} are stacked as one row of coordinates each", z3.BoolVal(bool(ok)))
    if not ok:
        raise Infeasible()
    rows = A.shape[0]
    if not isinstance(rows, Dom):
        rows = Dom.dense(rows)
    g = z3.Const(ctx.name("row"), rows.sort)
    if rows.sort != I:
        raise Unsupported("rows indexed by something else than positions")
    c = ctx.fint("point", 0)
    ctx.assume(c < s.p)
    ctx.assume(rows.cond(g))
    for f in rows.facts(g):
        ctx.assume(f)
    ctx.oblige(f"the stacked {what} are elements of the list", z3.And(g >= 0, g < dom_n))
    for k in range(s.d):
        ctx.oblige(f"row of a {what[:-1]} holds its points", to_real(lift(A.snap(ctx)(g, s.d * c + k))) == value(ref(g), c, z3.IntVal(k)))
    return rows


def vector_unit(scipy):
    def unit(ctx, it):
        s = lists(ctx, it, ctx.choose(2) == 1)
        points(ctx, it, s)
        d = z3.Function("distance", I, I, R)
        calls = []

        def fn(it2, a, k):
            c = it2.ctx
            A, Bm = a[0], a[1]
            if scipy:
                c.oblige("the metric is passed on", z3.BoolVal(len(a) == 2 and k.get("metric") == "cosine" and k.get("extra") == 7 and len(k) == 2))
            else:
                c.oblige("the distance function gets candidates and objects", z3.BoolVal(len(a) == 2 and not k))
            ra = stacked(c, "candidates", A, s.n, s, s.cref, s.cval, s.lc)
            rb = stacked(c, "objects", Bm, s.m, s, s.oref, s.oval, s.lo)
            return c.new_arr((A.shape[0], Bm.shape[0]), "f", lambda x, y: d(lift(x), lift(y)))

        nat = Native("distance", fn)
        if scipy:
            it.setglob(DI, "cdist", nat)
            D = it.call(dcls(it, "ScipyDistance"), ["cosine"], {"extra": 7})
        else:
            D = it.call(dcls(it, "VectorizedDistance"), [nat], {})
        it.depth = 1
        r = it.call(it.get_attr(D, "get_distances"), [s.objs, s.cands], {})
        check_matrix(ctx, it, s, r, lambda i, j: d(i, j))
        unchanged_lists(ctx, it, s)

    return unit


COV = [DI + ".VectorizedDistance.get_distances", DI + ".VectorizedDistance.__init__", DI + ".VectorizedDistance._compute_distance"]
P.unit("VectorizedDistance.get_distances", covers=COV, extra=ext.all_models)(vector_unit(False))
P.unit("ScipyDistance.get_distances", covers=COV + [DI + ".ScipyDistance.__init__"], extra=ext.all_models)(vector_unit(True))
