"""C24: path drawers.  norfair.drawing.path.{Paths, AbsolutePaths}."""
from contracts.C23 import *
from contracts.C23 import CON as CON23
from pyvc.interp import assigned_names

MOD = D + "path"
P = Prop("C24", trusted=["cv2.circle and cv2.line draw on the image they are given and return it, cv2.addWeighted returns a new image; the pixels they set are not verified",
                         "numpy.linspace returns as many numbers as asked for"],
         assumptions=["the objects given to AbsolutePaths have ids", "the frames given to one drawer have one shape; attenuation between 0 and 1; max_history at least 0",
                      "get_points_to_draw returns equally many two-dimensional points every time and changes nothing; the coordinate transformation changes nothing",
                      "the iterations of the loop over the objects are verified for a generic object from the state the loop starts in, with arbitrary histories that satisfy the bound"])
CON = {k: v for k, v in CON23.items() if k != TXT}
HIST = ("glob", "#hist", 0)


def line(it, a, k):
    g = bind(["img", "pt1", "pt2", "color", "thickness", "lineType", "shift"], a, k, 4)
    t = thickness(it, g.get("thickness", 1))
    if it.ctx.decide(t <= 0):
        raise PyRaise(CvError, "0 < thickness")
    it.event(("line", image(g["img"]), point(it, g["pt1"]), point(it, g["pt2"])))
    return g["img"]


def add_weighted(it, a, k):
    g = bind(["src1", "alpha", "src2", "beta", "gamma", "dst", "dtype"], a, k, 5)
    if "dst" in g or "dtype" in g:
        raise Unsupported("addWeighted into an image")
    x, y = g["src1"], g["src2"]
    ctx = it.ctx
    for v in (x, y):
        if not isinstance(v, NDArr):
            raise PyRaise(CvError, "no image")
    if x.ndim != y.ndim or not all(ctx.same_dim(p, q) for p, q in zip(x.shape, y.shape)):
        raise PyRaise(CvError, "images of different sizes")
    r = ctx.new_arr(x.shape, "u8", ctx.fresh_fn("blend", [I] * x.ndim, I))
    it.event(("blend", image(x), image(y), lift(g["alpha"]), lift(g["beta"]), lift(g["gamma"]), r.sid))
    return r


def models24():
    m = models()
    m["cv2"].attrs.update(line=Native("cv2.line", line), addWeighted=Native("cv2.addWeighted", add_weighted))
    return m


def interest(ctx, it, m):
    """an arbitrary get_points_to_draw: m points"""
    def call(it, a, k):
        c = it.ctx
        if len(a) + len(k) != 1:
            raise PyRaise(TypeError, "get_points_to_draw takes the points")
        p = a[0] if a else list(k.values())[0]
        r = c.new_arr((m, 2), "f", c.fresh_fn("interest", [I, I], R))
        key = ("glob", "#interest", 0)
        c.mem[key] = c.mem.get(key, ()) + ((p, p.snap(c) if isinstance(p, NDArr) else None, r, r.snap(c)),)
        return r

    return Opaque("get_points_to_draw", None, {"call": call, "truth": True})


def points_given(ctx, it, e, drawer, absolute, what):
    """what the drawer's get_points_to_draw was given and returned for e:
    (value, content(i, c))"""
    f = ctx.mem[("glob", "#estimate", e.obj.oid)][1 if absolute else 0]
    recs = ctx.mem.get(("glob", "#interest", 0), ())
    if len(recs) != 1:
        raise Unsupported("get_points_to_draw is not called once per object")
    p, s, r, rs = recs[0]
    ok = isinstance(p, NDArr) and p.ndim == 2
    ctx.oblige(f"{what}: the points of interest are those of the object's estimate", z3.BoolVal(ok))
    if ok:
        i, c = idx(ctx, e.n, 2)
        ctx.oblige(f"{what}: the points of interest are those of the object's estimate", lift(s(i, c)) == f(i, c))
    return r, rs


def frame3(ctx):
    return frame_of(ctx)


# --------------------------------------------------------------------------
@P.unit("Paths.__init__, AbsolutePaths.__init__", covers=[MOD + ".Paths.__init__", MOD + ".AbsolutePaths.__init__"], extra=models24, contracts=CON)
def init(ctx, it):
    m = it.load(MOD)
    ab = ctx.choose(2)
    C = it.modattr(m, "AbsolutePaths" if ab else "Paths")
    own = ctx.choose(2)
    kw = {}
    if own:
        kw["get_points_to_draw"] = interest(ctx, it, ctx.fint("m", 0))
    att, L = ctx.freal("attenuation"), ctx.fint("max_history", 0)
    kw["max_history" if ab else "attenuation"] = L if ab else att
    it.depth = 1
    st, d = call_raises(it, C, [], kw)
    ctx.oblige("a path drawer can be made", z3.BoolVal(st == "ok"), str(d))
    if st != "ok":
        return
    if ab:
        ctx.oblige("the history length is the configured one", lift(ga(it, d, "max_history")) == L)
        h = ga(it, d, "past_points")
        if isinstance(h, DictObj):
            ctx.oblige("no history at first", z3.BoolVal(not ctx.mem[("dict", h.did)][0]))
            st, d2 = call_raises(it, C, [], dict(kw))
            ctx.oblige("a path drawer can be made", z3.BoolVal(st == "ok"), str(d2))
            h2 = ga(it, d2, "past_points") if st == "ok" else None
            ctx.oblige("each drawer has its own history", z3.BoolVal(isinstance(h2, DictObj) and h2.did != h.did))
    else:
        ctx.oblige("no mask at first", z3.BoolVal(ga(it, d, "mask") is None))
        ctx.oblige("the attenuation is the configured one", eq_real(ga(it, d, "attenuation_factor"), 1 - att))
    n = ctx.fint("n", 1)
    p = real_arr(ctx, "p", (n, 2))
    ps = p.snap(ctx)
    f = ga(it, d, "get_points_to_draw")
    if own:
        ctx.oblige("the given points of interest are used", z3.BoolVal(f is kw["get_points_to_draw"]))
        return
    st, r = call_raises(it, f, [p])
    ctx.oblige("by default the point of interest is the mean", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    a = it.call(it.modattr(it.models["numpy"], "array"), [r], {})
    mean = it.call(it.modattr(it.models["numpy"], "mean"), [p], {"axis": 0})
    if shape_is(ctx, "by default one point of interest", a, 1, 2):
        c, = idx(ctx, 2)
        ctx.oblige("by default the point of interest is the mean", at(ctx, a, 0, c) == at(ctx, mean, c))
    i, c = idx(ctx, n, 2)
    ctx.oblige("the points are not modified", at(ctx, p, i, c) == ps(i, c))


# --------------------------------------------------------------------------
def opt_color(ctx):
    return None if ctx.choose(2) else (1, 2, 3)


def common(ctx, kw):
    kw["color"] = opt_color(ctx)
    if ctx.choose(2):
        kw["radius"], kw["thickness"] = ctx.fint("radius", 0), ctx.fint("thickness", 1)
        ctx.assume(kw["thickness"] <= MAXT)


@P.unit("Paths.draw", covers=[MOD + ".Paths.draw", D + "drawer.Drawer.circle", D + "drawer.Drawer.alpha_blend"], extra=models24, contracts=CON)
def paths(ctx, it):
    C = it.modattr(it.load(MOD), "Paths")
    frame = frame3(ctx)
    f0 = frame.snap(ctx)
    m, n = ctx.fint("m", 0), ctx.fint("n", 1)
    kw = dict(get_points_to_draw=interest(ctx, it, m))
    common(ctx, kw)
    d = it.call(C, [], kw)
    if ga(it, d, "mask") is not None:
        raise Unsupported("the mask of a new drawer")
    ga(it, d, "attenuation_factor")
    fac = ctx.freal("factor")
    ctx.assume(z3.And(fac >= 0, fac <= 1))
    ctx.setattr(d, "attenuation_factor", fac)
    old = None
    if ctx.choose(2):
        # any earlier drawing: radius and thickness are set by then
        mask = real_arr(ctx, "mask", frame.shape, "u8")
        old = mask.snap(ctx)
        ctx.setattr(d, "mask", mask)
        if kw.get("radius") is None:
            for k in ("radius", "thickness"):
                v = ctx.fint(k, 1)
                ctx.assume(v <= MAXT)
                ctx.setattr(d, k, v)

    drawn = []

    def check(e, evs):
        r, rs = points_given(ctx, it, e, d, False, "Paths")
        i, = idx(ctx, m)
        hits, drawn[:] = [], []
        j = ctx.fint("j")
        for part, ev in flat(evs):
            if ev is not None:
                ctx.oblige("nothing but one circle per point of interest is drawn", z3.BoolVal(False), str(ev[0]))
                continue
            v = part.val(i)
            if not (part.dom.sort == I and isinstance(v, tuple) and v[0] == "foreach"):
                raise Unsupported("drawings of a loop that is not over the points")
            ctx.oblige("nothing but one circle per point of interest is drawn", z3.Implies(part.dom.cond(j), z3.And(j >= 0, j < m)))
            for x in v[1]:
                ctx.oblige("nothing but one circle per point of interest is drawn", z3.Implies(part.dom.cond(i), z3.BoolVal(x[0] == "circle")))
                drawn.append((part.dom.cond(i), x[1]))
                hits.append((part.dom.cond(i), x[2]))
        ctx.oblige("one circle per point of interest", (z3.Sum([z3.If(c, 1, 0) for c, _ in hits]) if hits else I0) == 1)
        for c, (x, y) in hits:
            ctx.oblige("circles are centred on the points of interest", z3.Implies(c, z3.And(x == N.trunc(rs(i, I0)), y == N.trunc(rs(i, I1)))))

    run = Run(ctx, it, "tracked", n, False, check)
    run.cont = True
    it.depth = 1
    st, r = call_raises(it, it.get_attr(d, "draw"), [frame, run.list])
    ctx.oblige("drawing raises no error", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ctx.oblige("all objects are drawn", z3.BoolVal(run.looped))
    mask = ga(it, d, "mask")
    ctx.oblige("the mask persists", z3.BoolVal(isinstance(mask, NDArr)))
    if not isinstance(mask, NDArr) or not shape_is(ctx, "mask", mask, *frame.shape):
        return
    if run.done:
        for c, sid in drawn:
            ctx.oblige("circles are drawn on the mask", z3.Implies(c, z3.BoolVal(sid == mask.sid)))
        return
    ctx.oblige("the mask is an image", z3.BoolVal(mask.dtype == "u8"))
    ix = idx(ctx, *frame.shape)
    new = to_real(at(ctx, mask, *ix))
    if old is None:
        ctx.oblige("the mask is black at first", new == 0)
    else:
        want = to_real(lift(old(*ix))) * fac
        ctx.oblige("the mask fades by the attenuation factor", z3.And(new - want < 1, want - new < 1))
    ctx.oblige("the frame is not modified", at(ctx, frame, *ix) == f0(*ix))
    evs = events_of(ctx)
    bl = [x for x in evs if x[0] == "blend"]
    ctx.oblige("nothing is drawn outside the loop over the objects", z3.BoolVal(len(bl) == len(evs)))
    ok = len(bl) == 1 and isinstance(r, NDArr)
    ctx.oblige("mask and frame are blended once", z3.BoolVal(ok))
    if ok:
        b = bl[0]
        ctx.oblige("mask and frame are blended", z3.BoolVal({b[1], b[2]} == {mask.sid, frame.sid}))
        ctx.oblige("mask and frame are blended with full weight", z3.And(to_real(b[3]) == 1, to_real(b[4]) == 1, to_real(b[5]) == 0))
        ctx.oblige("the blended image is returned", z3.BoolVal(r.sid == b[6]))


def events_of(ctx):
    out = []
    for p in ctx.mem.get(("trace",), SeqVal()).parts:
        if not isinstance(p, Items):
            raise Unsupported("events of a loop")
        out += p.items
    return out


# -- histories -----------------------------------------------------------------
class Hist:
    """past_points: a dictionary from ids to lists of past points, the histories
    of all ids arbitrary but not longer than max_history"""

    def __init__(self, ctx, L, m, single):
        self.ctx, self.L, self.m, self.single = ctx, L, m, single
        nf = ctx.fresh_fn("hist_len", [I], I)
        pf = ctx.fresh_fn("hist_pt", [I, I, I, I], R)
        k = z3.Int("#k")
        ctx.axiom(z3.ForAll([k], z3.And(nf(k) >= 0, nf(k) <= L), patterns=[nf(k)]))
        self.len, self.pt, self.has = nf, pf, ctx.fresh_fn("hist_has", [I], B)
        self.doms = []

    def item(self, k, i):
        f = self.pt
        if self.single:
            a = NDArr((2,), "f", -1, ro=True, frozen=lambda c: f(k, i, I0, lift(c)))
            return FrozenList(SeqVal([Items([a])]))
        return NDArr((self.m, 2), "f", -1, ro=True, frozen=lambda j, c: f(k, i, lift(j), lift(c)))

    def key(self, it, k):
        if isinstance(k, Opt):
            k = it.noopt(k)
        k = lift(k) if is_num(k) else k
        if not (is_sym(k) and k.sort() == I):
            raise Unsupported("key of the histories")
        return k

    def find(self, it, k):
        for q, l in self.ctx.mem.get(HIST, ()):
            if self.ctx.decide(q == k):
                return q, l
        return None

    def get(self, it, k):
        ctx = self.ctx
        k = self.key(it, k)
        hit = self.find(it, k)
        if hit:
            return hit[1]
        if not self.default:
            ctx.assume(z3.Implies(z3.Not(self.has(k)), self.len(k) == 0))
            if not ctx.decide(self.has(k)):
                raise PyRaise(KeyError, "no history")
        ctx.assume(z3.And(self.len(k) >= 0, self.len(k) <= self.L))
        dom = Dom.dense(self.len(k))
        self.doms.append(dom)
        l = ctx.new_list(SeqVal([SymPart(dom, lambda i: self.item(k, i))]))
        ctx.mem[HIST] = ctx.mem.get(HIST, ()) + ((k, l),)
        return l

    def set(self, it, k, v):
        ctx = self.ctx
        k = self.key(it, k)
        hit = self.find(it, k)
        rest = tuple(x for x in ctx.mem.get(HIST, ()) if not (hit and x[0] is hit[0]))
        ctx.mem[HIST] = rest + ((k, v),)

    def contains(self, it, k):
        # a remembered history may be empty, an id without one has none
        k = self.key(it, k)
        if self.find(it, k):
            return True
        has = self.has(k)
        self.ctx.assume(z3.Implies(z3.Not(has), self.len(k) == 0))
        return has

    def opaque(self):
        def attr(it, o, n):
            if n in ("get", "setdefault"):
                def get(it, a, kw):
                    if len(a) != 2 or kw:
                        raise Unsupported(f"{n} of the histories")
                    hit = self.contains(it, a[0])
                    if it.ctx.decide(lift(hit)) if is_sym(hit) else hit:
                        return self.get(it, a[0])
                    if n == "setdefault":
                        self.set(it, a[0], a[1])
                    return a[1]
                return Native(n, get)
            raise Unsupported(f"{n} of the histories")

        return Opaque("histories", None, {"getitem": lambda it, k: self.get(it, k), "setitem": lambda it, k, v: self.set(it, k, v), "getattr": attr,
                                          "contains": self.contains})


def transformation(ctx, it, default):
    def a2r(it, a, k):
        c = it.ctx
        p = a[0] if a else list(k.values())[0]
        n = p.shape[0] if isinstance(p, NDArr) else it.models["#len"](it, p)
        return c.new_arr((n, 2), "f", c.fresh_fn("rel", [I, I], R))

    return Opaque("coord_transform", None, {"truth": True, "getattr": lambda it, o, n: Native("abs_to_rel", a2r) if n in ("abs_to_rel", "rel_to_abs") else M.N._uns(n)})


def assigned_locals(ctx, it, node):
    names = assigned_names(node.body)[0] if node is not None else ()
    fid = it.for_env.fid if it.for_env is not None else None
    return [k for k in ctx.mem if k[0] == "loc" and k[1] == fid and k[2] in names]


def havoc(ctx, it, keys):
    """locals a loop carries: an image is some image of its shape, a list of
    points some points"""
    for k in keys:
        v = ctx.mem[k]
        if isinstance(v, NDArr) and v.ndim == 3:
            ctx.mem[k] = ctx.new_arr(v.shape, v.dtype, ctx.fresh_fn("frame", [I, I, I], I))
        elif isinstance(v, (NDArr, ListObj, FrozenList)):
            n = v.shape[0] if isinstance(v, NDArr) else it.models["#len"](it, v)
            ctx.mem[k] = ctx.new_arr((n, 2), "f", ctx.fresh_fn("last", [I, I], R))
        else:
            # a use before the next assignment is noticed as an unbound name
            del ctx.mem[k]


def same_kind(ctx, it, v, w):
    n = lambda x: x.shape[0] if isinstance(x, NDArr) else it.models["#len"](it, x)
    if isinstance(v, NDArr) and v.ndim == 3:
        return isinstance(w, NDArr) and w.ndim == 3 and all(ctx.same_dim(x, y) for x, y in zip(v.shape, w.shape))
    return isinstance(w, (NDArr, ListObj, FrozenList)) and ctx.valid(lift(n(v)) == lift(n(w)))


def history_rule(ctx, it, hist, frame):
    """the loop that draws the lines of one history: it draws something on
    something; what must hold is that it raises no error and leaves the
    histories alone"""
    def rule(it, part, body, node):
        if not any(part.dom is x for x in hist.doms):
            return False
        keys = assigned_locals(ctx, it, node)
        kinds = {k: ctx.mem[k] for k in keys}
        havoc(ctx, it, keys)
        kinds = {k: v for k, v in kinds.items() if k in ctx.mem}
        if ctx.choose(2):
            return True
        g = ctx.instantiate(part.dom)
        ctx.assume_in(part.dom, g)
        mem0, lo = dict(ctx.mem), ctx.idc
        try:
            body(part.val(g))
        except (BreakSig, ReturnSig):
            raise Infeasible()
        except PyRaise as e:
            if isinstance(e.cls, type) and issubclass(e.cls, NameError):
                raise Unsupported("a variable of an earlier iteration")
            ctx.oblige("drawing raises no error", z3.BoolVal(False), str(e))
            raise Infeasible()
        left = [k for k in changed_keys(mem0, ctx.mem, lo) if k[0] not in ("trace", "names") and not (k[0] == "loc" and (k in keys or k not in mem0))]
        if left:
            raise Unsupported(f"drawing a history leaves behind {left[0]}")
        for k in kinds:
            if not same_kind(ctx, it, kinds[k], ctx.mem.get(k)):
                raise Unsupported(f"{k[2]} is carried through the loop over a history")
        raise Infeasible()

    return rule


def has_id(ctx, e):
    if isinstance(e.id, Opt):
        ctx.assume(z3.Not(b_(e.id.none)))


def u_abs(single):
    @P.unit("AbsolutePaths.draw" + (", default points of interest" if single else ""), covers=[MOD + ".AbsolutePaths.draw", D + "drawer.Drawer.line", D + "drawer.Drawer.alpha_blend"],
            extra=models24, contracts=CON)
    def absolute(ctx, it):
        C = it.modattr(it.load(MOD), "AbsolutePaths")
        frame = frame3(ctx)
        m, n, L = (1 if single else ctx.fint("m", 0)), ctx.fint("n", 1), ctx.fint("max_history", 0)
        kw = dict(max_history=L)
        if not single:
            kw["get_points_to_draw"] = interest(ctx, it, m)
        common(ctx, kw)
        d = it.call(C, [], kw)
        h = ga(it, d, "past_points")
        if not isinstance(h, DictObj) or ctx.mem[("dict", h.did)][0]:
            raise Unsupported("the histories of a new drawer")
        try:
            mk = it.get_item(h, 0)
        except PyRaise:
            mk = None
        if mk is not None and not (isinstance(mk, ListObj) and not ctx.seq(mk).parts):
            raise Unsupported("the history of a new id")
        hist = Hist(ctx, L, m, single)
        hist.default = mk is not None
        ctx.setattr(d, "past_points", hist.opaque())

        st = {}

        def carry(node):
            # the image is replaced by the loop
            keys = [k for k in assigned_locals(ctx, it, node) if isinstance(ctx.mem[k], NDArr) and ctx.mem[k].ndim == 3]
            st["kinds"] = {k: ctx.mem[k] for k in keys}
            havoc(ctx, it, keys)
            return lambda k: k in keys

        def check(e, evs):
            for k, v in st["kinds"].items():
                if not same_kind(ctx, it, v, ctx.mem.get(k)):
                    raise Unsupported(f"{k[2]} is carried through the loop over the objects")
            k = lift(e.id.val if isinstance(e.id, Opt) else e.id)
            if not (isinstance(ga(it, d, "past_points"), Opaque) and ga(it, d, "past_points").kind == "histories"):
                raise Unsupported("the histories are replaced")
            ctx.oblige("the configured history length is kept", lift(ga(it, d, "max_history")) == L)
            # other ids
            other = ctx.fint("other_id")
            ctx.assume(other != k)
            same_history(ctx, it, hist, other, hist.get(it, other), "the histories of other ids are not touched")
            q = z3.Int("#l")
            alive = z3.Exists([q], z3.And(q >= 0, q < n, b_(e.live(q))))
            l = hist.get(it, k)
            if not ctx.decide(alive):
                same_history(ctx, it, hist, k, l, "an object without live points adds nothing")
                return
            if not isinstance(l, (ListObj, FrozenList)):
                raise Unsupported("a history")
            ln, n0 = lift(it.seq_len(it.iter_seq(l))), hist.len(k)
            ctx.oblige("a history grows by one, up to the configured length", ln == z3.If(n0 + 1 <= L, n0 + 1, L))
            if not ctx.decide(z3.And(ln > 0, ln == z3.If(n0 + 1 <= L, n0 + 1, L))):
                return
            first = it.get_item(l, 0)
            if single:
                f = ctx.mem[("glob", "#estimate", e.obj.oid)][1]
                a = ctx.new_arr((n, 2), "f", f)
                mean = it.call(it.modattr(it.models["numpy"], "mean"), [a], {"axis": 0})
                v = it.call(it.modattr(it.models["numpy"], "array"), [first], {})
                if shape_is(ctx, "the newest entry", v, 1, 2):
                    c, = idx(ctx, 2)
                    ctx.oblige("the newest entry are the points of interest just drawn", at(ctx, v, 0, c) == at(ctx, mean, c))
            else:
                r, rs = points_given(ctx, it, e, d, True, "AbsolutePaths")
                v = first if isinstance(first, NDArr) else it.call(it.modattr(it.models["numpy"], "array"), [first], {})
                if shape_is(ctx, "the newest entry", v, m, 2):
                    j, c = idx(ctx, m, 2)
                    ctx.oblige("the newest entry are the points of interest just drawn", at(ctx, v, j, c) == rs(j, c))
            u = ctx.fint("u", 1)
            if ctx.decide(u < ln):
                x = it.get_item(l, u)
                items_equal(ctx, it, x, hist.item(k, u - 1), "the older entries follow in their order", m)

        run = Run(ctx, it, "tracked", n, False, check, carry)
        run.pre = has_id
        it.for_rules.append(history_rule(ctx, it, hist, frame))
        it.depth = 1
        st, r = call_raises(it, it.get_attr(d, "draw"), [frame, run.list, transformation(ctx, it, single)])
        if st != "ok" and isinstance(r.cls, type) and issubclass(r.cls, NameError):
            raise Unsupported("a variable of the last iteration")
        ctx.oblige("drawing raises no error", z3.BoolVal(st == "ok"), str(r))
        if st == "ok":
            ctx.oblige("all objects are drawn", z3.BoolVal(run.looped))


def items_equal(ctx, it, x, y, name, m):
    if x is y:
        return
    arr = lambda v: v if isinstance(v, NDArr) else it.call(it.modattr(it.models["numpy"], "array"), [v], {})
    a, b = arr(x), arr(y)
    if shape_is(ctx, name, a, *b.shape):
        j, c = idx(ctx, m, 2)
        ctx.oblige(name, at(ctx, a, j, c) == at(ctx, b, j, c))


def same_history(ctx, it, hist, k, l, name):
    ln = lift(it.seq_len(it.iter_seq(l)))
    ctx.oblige(name, ln == hist.len(k))
    u = ctx.fint("u", 0)
    if ctx.decide(z3.And(u < ln, ln == hist.len(k))):
        items_equal(ctx, it, it.get_item(l, u), hist.item(k, u), name, hist.m)


u_abs(False)
u_abs(True)
