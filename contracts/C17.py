"""C17: camera motion accumulates over changes of reference frame.
norfair.camera_motion.{TranslationTransformationGetter.__call__,
HomographyTransformationGetter.{__init__,__call__}, _get_sparse_flow,
MotionEstimator.{__init__,update}}."""
from pyvc.spec import *
from pyvc import ext

MOD = "norfair.camera_motion"
P = Prop("C17", trusted=["numpy.unique returns the distinct rows and how often each occurs (sampled)",
                         "cv2.findHomography / goodFeaturesToTrack / calcOpticalFlowPyrLK / cvtColor: pure functions of their arguments that may fail; "
                         "what they compute is not verified"],
         assumptions=["bin_size != 0", "homographies found by OpenCV are nonsingular",
                      "a TransformationGetter is any callable returning a flag and a transformation, or raising"])


def motion(ctx, kind):
    """the accumulated motion: none yet, or any"""
    if ctx.choose(2):
        return None, None
    a = real_arr(ctx, "data", (2,) if kind == "t" else (3, 3))
    return a, a.snap(ctx)


def flag_is(ctx, it, name, v, cond):
    ctx.oblige(name, b_(it.truth_sym(v)) == cond)


@P.unit("TranslationTransformationGetter", covers=[MOD + ".TranslationTransformationGetter.__init__", MOD + ".TranslationTransformationGetter.__call__"],
        extra=ext.cv2_model)
def translation(ctx, it):
    C = it.modattr(it.load(MOD), "TranslationTransformationGetter")
    b, thr = ctx.freal("bin"), ctx.freal("thr")
    ctx.assume(b != 0)
    g = it.call(C, [], {"bin_size": b, "proportion_points_used_threshold": thr})
    ctx.oblige("no motion is accumulated at first", z3.BoolVal(ga(it, g, "data") is None))
    data, d0 = motion(ctx, "t")
    ctx.setattr(g, "data", data)
    n = ctx.fint("n", 0)
    curr, prev = real_arr(ctx, "curr", (n, 2)), real_arr(ctx, "prev", (n, 2))
    cs, ps = curr.snap(ctx), prev.snap(ctx)
    it.depth = 1
    kind, r = call_raises(it, g, [curr, prev])
    if ctx.valid(n == 0) or kind == "raise":
        ctx.oblige("estimation fails only without points", z3.BoolVal(kind == "raise") if ctx.valid(n == 0) else n == 0)
        ctx.oblige("a failed estimation keeps the accumulated motion", z3.BoolVal(ga(it, g, "data") is data))
        if data is not None:
            k, = idx(ctx, 2)
            ctx.oblige("a failed estimation keeps the accumulated motion", at(ctx, data, k) == d0(k))
        return
    # quantised flow, and how many rows equal row i
    q = lambda i, c: to_real(N.s_round((to_real(cs(i, c)) - to_real(ps(i, c))) / b)) * b
    cnt = N.row_count(ctx, n, 2, q)
    best = ctx.fint("best")
    i = z3.Int("#q")
    ctx.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), cnt(i) <= best), patterns=[cnt(i)]))
    w = ctx.fint("w", 0)
    ctx.assume(z3.And(w < n, cnt(w) == best))
    ctx.oblige("result is a pair", z3.BoolVal(isinstance(r, tuple) and len(r) == 2))
    flag, t = r
    told = z3.ToReal(best) / z3.ToReal(n) < thr
    flag_is(ctx, it, "the reference moves exactly when too few points agree", flag, told)
    ctx.oblige("the result is a translation", z3.BoolVal(isinstance(t, Obj) and clsname(t.cls) == "TranslationTransformation"))
    mv = ga(it, t, "movement_vector")
    if not shape_is(ctx, "movement", mv, 2):
        return
    base = [d0(z3.IntVal(c)) if data is not None else z3.RealVal(0) for c in range(2)]
    m = [at(ctx, mv, c) for c in range(2)]
    ctx.oblige("the movement is a most frequent quantised flow plus the accumulated translation",
               z3.Exists([i], z3.And(i >= 0, i < n, cnt(i) == best, *[m[c] == q(i, z3.IntVal(c)) + base[c] for c in range(2)])))
    now = ga(it, g, "data")
    if ctx.decide(told):
        if shape_is(ctx, "accumulated motion", now, 2):
            for c in range(2):
                ctx.oblige("moving the reference makes the returned motion the accumulated one", at(ctx, now, c) == m[c])
    else:
        ctx.oblige("otherwise the accumulated motion stays", z3.BoolVal((now is None) if data is None else isinstance(now, NDArr)))
        if data is not None and shape_is(ctx, "accumulated motion", now, 2):
            for c in range(2):
                ctx.oblige("otherwise the accumulated motion stays", at(ctx, now, c) == d0(z3.IntVal(c)))
    k, c = idx(ctx, n, 2)
    ctx.oblige("the points are not modified", z3.And(at(ctx, curr, k, c) == cs(k, c), at(ctx, prev, k, c) == ps(k, c)))
    if data is not None:
        ctx.oblige("earlier transformations are not modified", at(ctx, data, c) == d0(c))
    x0, = idx(ctx, 2)
    before = at(ctx, mv, x0)
    # the next call may not modify what was returned
    curr2, prev2 = real_arr(ctx, "curr2", (n, 2)), real_arr(ctx, "prev2", (n, 2))
    if call_raises(it, g, [curr2, prev2])[0] == "ok":
        ctx.oblige("a later estimation does not modify this one", at(ctx, ga(it, t, "movement_vector"), x0) == before)


def hcontract(it, bound):
    """HomographyTransformation.__init__ (C15): keeps the matrix and has its inverse."""
    ctx = it.ctx
    s, H = bound["self"], bound["homography_matrix"]
    if not isinstance(H, NDArr):
        raise PyRaise(ValueError, "inverse of something else")
    ctx.setattr(s, "homography_matrix", H)
    ctx.setattr(s, "inverse_homography_matrix", real_arr(ctx, "inv", (3, 3)))
    return None


HC = {MOD + ".HomographyTransformation.__init__": hcontract}


def cv2_with(**kw):
    def models():
        m = ext.cv2_model()
        m["cv2"].attrs.update({k: Native("cv2." + k, v) for k, v in kw.items()})
        return m

    return models


def find_homography(it, a, k):
    ctx = it.ctx
    names = ["srcPoints", "dstPoints", "method", "ransacReprojThreshold", "mask", "maxIters", "confidence"]
    args = dict(zip(names, a))
    args.update(k)
    n = args["srcPoints"].shape[0]
    ctx.eng.used.add("cv2.findHomography")
    H = real_arr(ctx, "found", (3, 3))
    mask = real_arr(ctx, "mask", (n, 1), "u8")
    i = z3.Int("#m")
    mc = mask.snap(ctx)
    ctx.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Or(mc(i, I0) == 0, mc(i, I0) == 1)), patterns=[mc(i, I0)]))
    st = dict(args=args, H=H, Hs=H.snap(ctx), mask=mc, src=args["srcPoints"].snap(ctx), dst=args["dstPoints"].snap(ctx))
    key = ("glob", "#cv2", "findHomography")
    ctx.mem[key] = ctx.mem.get(key, ()) + (st,)
    case = ctx.choose(3)
    if case:
        st["H"] = None
        return (None, mask if case == 2 else None)
    return (H, mask)


I0 = z3.IntVal(0)


@P.unit("HomographyTransformationGetter.__init__", covers=[MOD + ".HomographyTransformationGetter.__init__"], extra=ext.cv2_model)
def hinit(ctx, it):
    C = it.modattr(it.load(MOD), "HomographyTransformationGetter")
    it.depth = 1
    g = it.call(C, [], {})
    ctx.oblige("no motion is accumulated at first", z3.BoolVal(ga(it, g, "data") is None))
    thr = ctx.freal("thr")
    g = it.call(C, [], {"proportion_points_used_threshold": thr, "method": ctx.fint("method")})
    ctx.oblige("no motion is accumulated at first", z3.BoolVal(ga(it, g, "data") is None))


@P.unit("HomographyTransformationGetter.__call__", covers=[MOD + ".HomographyTransformationGetter.__call__"],
        extra=cv2_with(findHomography=find_homography), contracts=HC)
def homography(ctx, it):
    C = it.modattr(it.load(MOD), "HomographyTransformationGetter")
    method, rt, mi = ctx.fint("method"), ctx.freal("reproj"), ctx.fint("iters")
    conf, thr = ctx.freal("conf"), ctx.freal("thr")
    g = it.call(C, [], dict(method=method, ransac_reproj_threshold=rt, max_iters=mi, confidence=conf, proportion_points_used_threshold=thr))
    data, d0 = motion(ctx, "h")
    ctx.setattr(g, "data", data)
    case = ctx.choose(2)
    n = ctx.fint("n", 0)
    curr, prev = (None, None) if case else (real_arr(ctx, "curr", (n, 2)), real_arr(ctx, "prev", (n, 2)))
    if not case:
        cs, ps = curr.snap(ctx), prev.snap(ctx)
    it.depth = 1
    kind, r = call_raises(it, g, [curr, prev])
    calls = ctx.mem.get(("glob", "#cv2", "findHomography"), ())
    now = ga(it, g, "data")

    def kept(why):
        ctx.oblige(why, z3.BoolVal((now is None) == (data is None)))
        if data is not None and shape_is(ctx, "accumulated motion", now, 3, 3):
            for u in range(3):
                for v in range(3):
                    ctx.oblige(why, at(ctx, now, u, v) == d0(z3.IntVal(u), z3.IntVal(v)))

    if case or not calls:
        ctx.oblige("a homography is looked for whenever there are 4 points", z3.BoolVal(bool(case)) if case else n < 4)
        ctx.oblige("too few points are not an error", z3.BoolVal(kind == "ok"))
        kept("too few points: the accumulated motion stays")
        if kind == "ok":
            ctx.oblige("result is a pair", z3.BoolVal(isinstance(r, tuple) and len(r) == 2))
            flag_is(ctx, it, "too few points: the reference moves", r[0], z3.BoolVal(True))
            if data is None:
                ctx.oblige("too few points and no motion yet: no transformation", z3.BoolVal(r[1] is None))
            else:
                H = ga(it, r[1], "homography_matrix")
                if shape_is(ctx, "homography", H, 3, 3):
                    u, v = idx(ctx, 3, 3)
                    ctx.oblige("too few points: the accumulated motion is returned", at(ctx, H, u, v) == d0(u, v))
        return
    ctx.oblige("one homography is looked for", z3.BoolVal(len(calls) == 1))
    st = calls[0]
    ctx.oblige("never with fewer than 4 points", n >= 4)
    A = st["args"]
    i, c = idx(ctx, n, 2)
    if shape_is(ctx, "source points", A["srcPoints"], n, 2) and shape_is(ctx, "destination points", A["dstPoints"], n, 2):
        ctx.oblige("from the reference's points", st["src"](i, c) == ps(i, c))
        ctx.oblige("to the current points", st["dst"](i, c) == cs(i, c))
    for name, want in (("method", method), ("ransacReprojThreshold", rt), ("maxIters", mi), ("confidence", conf)):
        ctx.oblige(f"{name} is the configured one", it.equal(A.get(name), want) if name in A else z3.BoolVal(False))
    ctx.oblige("points are not modified", z3.And(at(ctx, curr, i, c) == cs(i, c), at(ctx, prev, i, c) == ps(i, c)))
    if st["H"] is None:
        ctx.oblige("no homography found: an error", z3.BoolVal(kind == "raise"))
        return
    ctx.oblige("a homography found is returned", z3.BoolVal(kind == "ok"), "" if kind == "ok" else str(r))
    if kind != "ok":
        return
    flag, t = r
    v = z3.Const("#s0", I)
    used = N.sum_term(ctx, [Dom.dense(n)], [v], [], [], to_int(st["mask"](v, I0)))()
    told = to_real(used) / z3.ToReal(n) < thr
    flag_is(ctx, it, "the reference moves exactly when too few points are used", flag, told)
    H = ga(it, t, "homography_matrix")
    if not shape_is(ctx, "homography", H, 3, 3):
        return
    m = {}
    for u in range(3):
        for v in range(3):
            U, V = z3.IntVal(u), z3.IntVal(v)
            h = [to_real(st["Hs"](U, z3.IntVal(k))) for k in range(3)]
            want = h[v] if data is None else sum((h[k] * d0(z3.IntVal(k), V) for k in range(1, 3)), h[0] * d0(z3.IntVal(0), V))
            m[u, v] = at(ctx, H, u, v)
            ctx.oblige("the homography found is composed with the accumulated one", m[u, v] == want)
    if ctx.decide(told):
        if shape_is(ctx, "accumulated motion", now, 3, 3):
            for u in range(3):
                for v in range(3):
                    ctx.oblige("moving the reference makes the returned motion the accumulated one", at(ctx, now, u, v) == m[u, v])
    else:
        kept("otherwise the accumulated motion stays")
    if data is not None:
        u, v = idx(ctx, 3, 3)
        ctx.oblige("earlier transformations are not modified", at(ctx, data, u, v) == d0(u, v))


@P.unit("lemma: accumulated homographies stay nonsingular")
def nonsingular(ctx, it):
    """precondition of HomographyTransformation at its call sites"""
    a, b = ([[ctx.freal(f"{n}{i}{j}") for j in range(3)] for i in range(3)] for n in "ab")
    det = lambda m: (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                     + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    ab = [[a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j] for j in range(3)] for i in range(3)]
    ctx.oblige("det(AB) = det A det B", z3.simplify(det(ab) - det(a) * det(b), som=True) == 0)
    x, y, p = ctx.freal("x"), ctx.freal("y"), ctx.freal("p")
    ctx.oblige("a product of nonsingular matrices is nonsingular", z3.Implies(z3.And(x != 0, y != 0, p == x * y), p != 0))


# -- optical flow ------------------------------------------------------------
def rec(ctx, name, st):
    key = ("glob", "#cv2", name)
    ctx.mem[key] = ctx.mem.get(key, ()) + (st,)
    ctx.eng.used.add("cv2." + name)


def calls(ctx, name):
    return ctx.mem.get(("glob", "#cv2", name), ())


def image(ctx, name):
    return Opaque("image", z3.Const(ctx.name(name), z3.DeclareSort("Image")))


def good_features(it, a, k):
    ctx = it.ctx
    names = ["image", "maxCorners", "qualityLevel", "minDistance", "corners", "mask", "blockSize"]
    args = dict(zip(names, a))
    args.update(k)
    n = ctx.fint("corners", 0)
    pts = real_arr(ctx, "corner", (n, 1, 2), "f32")
    rec(ctx, "goodFeaturesToTrack", dict(args=args, out=pts))
    return None if ctx.choose(2) else pts


def flow_lk(it, a, k):
    ctx = it.ctx
    names = ["prevImg", "nextImg", "prevPts", "nextPts"]
    args = dict(zip(names, a))
    args.update(k)
    p = args.get("prevPts")
    if not isinstance(p, NDArr) or ctx.choose(2):
        raise PyRaise(Exception, "cv2.error")
    n = p.shape[0]
    nxt = real_arr(ctx, "next", p.shape, "f32")
    status = real_arr(ctx, "status", (n, 1), "u8")
    err = real_arr(ctx, "err", (n, 1), "f32")
    rec(ctx, "calcOpticalFlowPyrLK", dict(args=args, pts=p.snap(ctx), p=p, next=nxt.snap(ctx), status=status.snap(ctx)))
    return (nxt, status, err)


@P.unit("_get_sparse_flow", covers=[MOD + "._get_sparse_flow"], extra=cv2_with(goodFeaturesToTrack=good_features, calcOpticalFlowPyrLK=flow_lk))
def sparse(ctx, it):
    f = it.modattr(it.load(MOD), "_get_sparse_flow")
    new, ref = image(ctx, "new"), image(ctx, "ref")
    mp, md, bs, ql = ctx.fint("max_points"), ctx.fint("min_distance"), ctx.fint("block_size"), ctx.freal("quality")
    mask = image(ctx, "mask") if ctx.choose(2) else None
    case = ctx.choose(3)
    n = ctx.fint("n", 0)
    pts = None if case == 0 else real_arr(ctx, "pts", (n, 1, 2) if case == 1 else (n, 2), "f32")
    it.depth = 1
    kind, r = call_raises(it, f, [new, ref, pts, mp, md, bs, mask], {"quality_level": ql})
    good, lk = calls(ctx, "goodFeaturesToTrack"), calls(ctx, "calcOpticalFlowPyrLK")
    ctx.oblige("points are sampled exactly when there are none", z3.BoolVal(len(good) == (1 if pts is None else 0)))
    for g in good:
        A = g["args"]
        ctx.oblige("points are sampled on the reference frame", z3.BoolVal(A.get("image") is ref))
        ctx.oblige("outside the mask", z3.BoolVal(A.get("mask") is mask))
        for name, want in (("maxCorners", mp), ("qualityLevel", ql), ("minDistance", md), ("blockSize", bs)):
            ctx.oblige(f"{name} is the configured one", it.equal(A[name], want) if name in A else z3.BoolVal(False))
    if kind != "ok":
        ctx.oblige("only a failing library call is an error", z3.BoolVal(not lk))
        return
    ctx.oblige("the flow is computed once", z3.BoolVal(len(lk) == 1))
    L = lk[0]
    ctx.oblige("from the reference frame to the new one", z3.BoolVal(L["args"].get("prevImg") is ref and L["args"].get("nextImg") is new))
    src = pts if pts is not None else good[0]["out"]
    ctx.oblige("of the reference's points", z3.BoolVal(L["p"] is src))
    ctx.oblige("result is a pair", z3.BoolVal(isinstance(r, tuple) and len(r) == 2))
    curr, prev = r
    n = src.shape[0]
    # exactly the points with status 1, in order
    want = Dom.dense(n).sub(lambda i: L["status"](i, I0) == 1)
    if not (shape_is(ctx, "current points", curr, want, 2) and shape_is(ctx, "previous points", prev, want, 2)):
        return
    i, c = idx(ctx, want, 2)
    row = (lambda s: s(i, I0, c)) if src.ndim == 3 else (lambda s: s(i, c))
    ctx.oblige("previous points are the ones that were found again", at(ctx, prev, i, c) == row(L["pts"]))
    ctx.oblige("current points are where they were found", at(ctx, curr, i, c) == row(L["next"]))


# -- motion estimator ----------------------------------------------------------
def cvt_color(it, a, k):
    ctx = it.ctx
    g = image(ctx, "gray")
    rec(ctx, "cvtColor", dict(args=list(a), kw=k, out=g))
    return g


def draw(it, a, k):
    return a[0]


def flow_contract(it, bound):
    ctx = it.ctx
    st = dict(bound)
    fail = ctx.choose(2)
    n = ctx.fint("npts", 0)
    st["out"] = None if fail else (real_arr(ctx, "curr", (n, 2), "f32"), real_arr(ctx, "prev", (n, 2), "f32"))
    key = ("glob", "#flow", "calls")
    ctx.mem[key] = ctx.mem.get(key, ()) + (st,)
    if fail:
        raise PyRaise(Exception, "cv2.error")
    return st["out"]


def getter(ctx, name):
    """any TransformationGetter: may fail; deep copies are recorded"""
    o = Opaque("getter", z3.Const(ctx.name(name), z3.DeclareSort("Getter")))
    ghost = ("glob", "#getter", "calls")

    def call(it, a, k):
        c = it.ctx
        case = c.choose(3)
        T = Opaque("transformation", z3.Const(c.name("T"), z3.DeclareSort("Tr")))
        flag = c.fbool("told")
        st = dict(self=o, args=list(a), kw=k, raised=case == 2, flag=flag, out=T if case == 0 else None)
        c.mem[ghost] = c.mem.get(ghost, ()) + (st,)
        if case == 2:
            raise PyRaise(Exception, "estimation failed")
        return (flag, st["out"])

    def deepcopy(it):
        n = getter(it.ctx, name)
        n.data["copy_of"] = o
        return n

    o.data.update(call=call, deepcopy=deepcopy)
    return o


MCV = cv2_with(cvtColor=cvt_color, line=draw, circle=draw)
FC = {MOD + "._get_sparse_flow": flow_contract}


@P.unit("MotionEstimator.__init__", covers=[MOD + ".MotionEstimator.__init__"], extra=ext.cv2_model)
def minit(ctx, it):
    C = it.modattr(it.load(MOD), "MotionEstimator")
    g = getter(ctx, "g")
    it.depth = 1
    m = it.call(C, [], {"transformations_getter": g})
    ctx.oblige("there is no reference yet", z3.BoolVal(ga(it, m, "gray_prvs") is None and ga(it, m, "prev_pts") is None and ga(it, m, "prev_mask") is None))
    ctx.oblige("the given getter is used", z3.BoolVal(ga(it, m, "transformations_getter") is g))
    cp = ga(it, m, "transformations_getter_copy")
    ctx.oblige("an untouched copy of the getter is kept", z3.BoolVal(isinstance(cp, Opaque) and cp is not g and cp.data.get("copy_of") is g))
    m = it.call(C, [], {})
    d = ga(it, m, "transformations_getter")
    ctx.oblige("homographies are the default", z3.BoolVal(isinstance(d, Obj) and clsname(d.cls) == "HomographyTransformationGetter"))


@P.unit("MotionEstimator.update", covers=[MOD + ".MotionEstimator.update"], extra=MCV, contracts=FC)
def estimator(ctx, it):
    C = it.modattr(it.load(MOD), "MotionEstimator")
    mp, md, bs, ql = ctx.fint("max_points"), ctx.fint("min_distance"), ctx.fint("block_size"), ctx.freal("quality")
    df = bool(ctx.choose(2))
    m = it.call(C, [], dict(max_points=mp, min_distance=md, block_size=bs, quality_level=ql, draw_flow=df, transformations_getter=getter(ctx, "g")))
    first = ctx.choose(2)
    pristine = ga(it, m, "transformations_getter_copy")
    g = getter(ctx, "now")
    ctx.setattr(m, "transformations_getter", g)
    ref = pmask = pts = None
    if not first:
        ref = image(ctx, "reference")
        pmask = image(ctx, "oldmask") if ctx.choose(2) else None
        pts = real_arr(ctx, "pts", (ctx.fint("np", 0), 2), "f32") if ctx.choose(2) else None
        for k, v in (("gray_prvs", ref), ("prev_mask", pmask), ("prev_pts", pts), ("gray_next", image(ctx, "oldnext"))):
            ctx.setattr(m, k, v)
    frame = image(ctx, "frame")
    mask = image(ctx, "mask") if ctx.choose(2) else None
    it.depth = 1
    r = it.call(it.get_attr(m, "update"), [frame, mask], {})
    gray = calls(ctx, "cvtColor")
    ctx.oblige("the frame is converted to gray once", z3.BoolVal(len(gray) == 1 and gray[0]["args"][:1] == [frame]))
    new = gray[0]["out"]
    if first:
        ref, pmask = new, mask
    fl = ctx.mem.get(("glob", "#flow", "calls"), ())
    ctx.oblige("the flow is estimated once", z3.BoolVal(len(fl) == 1))
    f = fl[0]
    ctx.oblige("the flow is from the reference to this frame", z3.BoolVal(f["gray_next"] is new and f["gray_prvs"] is ref))
    ctx.oblige("the reference's points are used", z3.BoolVal(f.get("prev_pts") is pts))
    ctx.oblige("new points are taken outside the reference's mask", z3.BoolVal(f.get("mask") is pmask))
    for name, want in (("max_points", mp), ("min_distance", md), ("block_size", bs), ("quality_level", ql)):
        ctx.oblige(f"{name} is the configured one", it.equal(f[name], want) if name in f else z3.BoolVal(False))
    gc = ctx.mem.get(("glob", "#getter", "calls"), ())
    ctx.oblige("the transformation is estimated once", z3.BoolVal(len(gc) == 1 and gc[0]["self"] is g))
    c = gc[0]
    a = c["args"] + [c["kw"][x] for x in ("curr_pts", "prev_pts")[len(c["args"]):] if x in c["kw"]]
    want = f["out"] or (None, None)
    ctx.oblige("from the points of the flow", z3.BoolVal(len(a) == 2 and all(x is y for x, y in zip(a, want))))
    if c["raised"]:
        ctx.oblige("a failed estimation returns no transformation", z3.BoolVal(r is None))
        now = ga(it, m, "transformations_getter")
        ctx.oblige("a failed getter starts afresh from an unused copy", z3.BoolVal(isinstance(now, Opaque) and now is not pristine and now.data.get("copy_of") is pristine))
        moved = True
    else:
        ctx.oblige("the estimated transformation is returned", z3.BoolVal(r is c["out"]))
        ctx.oblige("the getter is kept", z3.BoolVal(ga(it, m, "transformations_getter") is g))
        moved = ctx.decide(c["flag"])
    ctx.oblige("the untouched getter stays", z3.BoolVal(ga(it, m, "transformations_getter_copy") is pristine))
    if moved:
        ctx.oblige("the reference moves to this frame", z3.BoolVal(ga(it, m, "gray_prvs") is new))
        ctx.oblige("its points are sampled anew", z3.BoolVal(ga(it, m, "prev_pts") is None))
        ctx.oblige("with this frame's mask", z3.BoolVal(ga(it, m, "prev_mask") is mask))
    else:
        ctx.oblige("the reference stays until told to move", z3.BoolVal(ga(it, m, "gray_prvs") is ref))
        ctx.oblige("and so does its mask", z3.BoolVal(ga(it, m, "prev_mask") is pmask))
        if f["out"] is not None:
            ctx.oblige("and its points that are still found", z3.BoolVal(ga(it, m, "prev_pts") is f["out"][1]))
