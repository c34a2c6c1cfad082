"""Tracker.update on an arbitrary tracker state, detections and configuration.

TrackedObject's methods, the factory and match_dets_and_objs are applied by
contract (each discharged on its body: C02, C03, C11-C14, C04); everything
else Tracker.update calls is inlined from /repo.  The distance function is
arbitrary (C06 treats norfair's)."""
from contracts.objmethods import *
from pyvc.loops import rank_fn

# scalar fields of the tracked objects: name -> (sort, optional)
FIELDS = {"hit_counter": (I, 0), "reid_hit_counter": (I, 1), "is_initializing": (B, 0), "age": (I, 0), "id": (I, 1), "global_id": (I, 1),
          "initializing_id": (I, 0), "initial_period": (I, 0), "last_distance": (R, 1), "current_min_distance": (R, 1),
          "#det": (Ref, 1), "#hits": (I, 0), "#steps": (I, 0), "#merged": (Ref, 1), "#transform": (I, 0), "last_detection": ("ref", 0),
          "filter": ("op", 0), "point_hit_counter": ("op", 0), "detected_at_least_once_points": ("op", 0)}


def fieldmaps(ctx, it, T, D):
    old = {}
    for f, (s, opt) in FIELDS.items():
        if isinstance(s, str) and s == "ref":
            fn = ctx.fresh_fn(f, [Ref], Ref)
            m = lambda r, fn=fn: RefObj(D, fn(r))
        elif isinstance(s, str) and s == "op":
            fn = ctx.fresh_fn(f, [Ref], U)
            m = lambda r, fn=fn, f=f: Opaque(f, fn(r))
        elif f in ("#hits", "#steps", "#transform"):
            m = lambda r: z3.IntVal(0)
        elif opt:
            fn, nn = ctx.fresh_fn(f, [Ref], s), ctx.fresh_fn(f + "_none", [Ref], B)
            if f in ("#det", "#merged"):
                nn = lambda r: z3.BoolVal(True)
            m = lambda r, fn=fn, nn=nn: Opt(nn(r), fn(r))
        else:
            fn = ctx.fresh_fn(f, [Ref], s)
            m = lambda r, fn=fn: fn(r)
        ctx.mem[("field", "TrackedObject", f)] = FMap(m)
        old[f] = m
    return old


class U_(State):
    pass


def setup(ctx, it, reid=None, coords=None, reidd=None):
    s = U_()
    T, D = cls(it, "TrackedObject"), cls(it, "Detection")
    s.T, s.D = T, D
    F = cls(it, "_TrackedObjectFactory")
    s.gc, s.count, s.icount = ctx.fint("global_count", 0), ctx.fint("count", 0), ctx.fint("icount", 0)
    it.set_attr(F, "global_count", s.gc)
    s.factory = ctx.new_obj(F, count=s.count, initializing_count=s.icount)
    s.old = fieldmaps(ctx, it, T, D)
    s.inT = ctx.fresh_fn("tracked", [Ref], B)
    s.tdom = Dom(Ref, lambda r: s.inT(r))
    s.tracked = ctx.new_list(SeqVal([SymPart(s.tdom, lambda r: RefObj(T, r))]))
    s.hcm, s.delay = ctx.fint("hcm", 1), ctx.fint("delay", 0)
    ctx.assume(s.delay < s.hcm)
    s.period = ctx.fint("period", 1)
    s.reid = ctx.choose(2) if reid is None else reid
    s.rmax = ctx.fint("rmax", 0) if s.reid else None
    s.reidd = (ctx.choose(2) == 1) if reidd is None else reidd
    s.thr, s.rthr = ctx.freal("distance_threshold"), ctx.freal("reid_threshold")
    ctx.assume(z3.And(s.thr <= INF, s.rthr <= INF))
    # object invariants on entry (each proved on exit of every method, C02, C03)
    r = z3.Const("#r", Ref)
    ctx.forall([r], z3.Implies(s.inT(r), z3.And(
        s.old["initial_period"](r) >= 1, s.old["age"](r) >= 0,
        z3.Implies(s.old["is_initializing"](r), s.old["hit_counter"](r) <= s.delay),
        s.old["id"](r).none == s.old["is_initializing"](r), s.old["global_id"](r).none == s.old["is_initializing"](r))))
    s.calls, s.matches = [], []
    s.df = distfn(ctx, it, s, "distance")
    s.rdf = distfn(ctx, it, s, "reid") if s.reidd else None
    s.ff = Opaque("filter_factory")
    s.pw, s.dthr, s.pdl = ctx.fint("pw"), ctx.freal("dthr"), ctx.fint("pdl", 0)
    s.t = ctx.new_obj(cls(it, "Tracker"), tracked_objects=s.tracked, distance_function=s.df, hit_counter_max=s.hcm, reid_hit_counter_max=s.rmax,
                      pointwise_hit_counter_max=s.pw, filter_factory=s.ff, past_detections_length=s.pdl,
                      initialization_delay=s.delay, distance_threshold=s.thr, detection_threshold=s.dthr, reid_distance_function=s.rdf,
                      reid_distance_threshold=s.rthr, _obj_factory=s.factory)
    # detections
    k = ctx.choose(2)
    s.dets = None
    s.inD = lambda d: z3.BoolVal(False)
    if k == 0:
        s.inD = ctx.fresh_fn("given", [Ref], B)
        s.ddom = Dom(Ref, lambda d: s.inD(d))
        s.dets = ctx.new_list(SeqVal([SymPart(s.ddom, lambda d: RefObj(D, d))]))
    ctx.mem[("field", "Detection", "#coords")] = FMap(lambda d: z3.IntVal(0))
    ctx.mem[("field", "Detection", "age")] = FMap(lambda d: Opt(z3.BoolVal(True), z3.IntVal(0)))
    # transformation
    s.coords = (ctx.choose(2) == 1) if coords is None else coords
    s.ct = ctx.new_obj("CoordinatesTransformation", abs_to_rel=Opaque("abs_to_rel")) if s.coords else None
    return s


NAN = "#nan"


def distfn(ctx, it, s, name):
    def get_distances(it2, a, k):
        c = it2.ctx
        objs = a[0] if a else k["objects"]
        cands = a[1] if len(a) > 1 else k["candidates"]
        so, sc = it2.iter_seq(objs), it2.iter_seq(cands)
        do, dc = one_dom(c, so), one_dom(c, sc)
        f = c.fresh_fn("D_" + name, [dc.sort, do.sort], R)
        m = c.new_arr((dc, do), "f", f)
        u, v = z3.Const("#u", dc.sort), z3.Const("#v", do.sort)
        c.forall([u, v], f(u, v) <= INF)
        nanf = c.fresh_fn("nan_" + name, [dc.sort, do.sort], B)
        m.nan = lambda *ix: nanf(*ix)
        rec = State()
        rec.kind, rec.objs, rec.cands, rec.od, rec.cd, rec.f, rec.nan = name, so, sc, do, dc, f, nanf
        rec.mem = dict(c.mem)
        key = ("glob", "#upd", "dist")
        c.mem[key] = c.mem.get(key, ()) + (rec,)
        return m

    return ctx.new_obj("DistanceFunction", get_distances=Native("get_distances", get_distances))


def one_dom(ctx, seq):
    """The index set of a sequence made of several parts, as one set."""
    parts = [p for p in seq.parts if not (isinstance(p, SymPart) and p.dom.n is not None and not is_sym(p.dom.n) and p.dom.n == 0)]
    if len(parts) == 1 and isinstance(parts[0], SymPart):
        return parts[0].dom
    if not parts:
        return Dom(Ref, lambda r: z3.BoolVal(False))
    if all(isinstance(p, SymPart) and p.dom.sort == Ref for p in parts):
        g = z3.Const("#od", Ref)
        if all(isinstance(p.val(g), RefObj) and p.val(g).ref.eq(g) for p in parts):
            # disjointness makes the concatenation a set
            for a in range(len(parts)):
                for b in range(a):
                    if not ctx.prove_quiet(z3.ForAll([g], neg(conj(parts[a].dom.cond(g), parts[b].dom.cond(g))))):
                        raise Unsupported("concatenation of lists that may share elements")
            return Dom(Ref, lambda r: disj(*[p.dom.cond(r) for p in parts]))
    raise Unsupported("concatenation of lists of different kinds")


def match_contract(s, quiet=False):
    def f(it, b):
        ctx = it.ctx
        m, thr = b["distance_matrix"], lift(b["distance_threshold"])
        if not isinstance(m, NDArr) or m.ndim != 2:
            raise Unsupported("match_dets_and_objs of something else")
        A, Bo = (d if isinstance(d, Dom) else Dom.dense(d) for d in m.shape)
        D = m.snap(ctx)
        if m.nan is not None and not quiet:
            nn = [z3.Const("#nc", A.sort), z3.Const("#no", Bo.sort)]
            ctx.oblige("matching is only given distances without NaN", z3.ForAll(nn, z3.Implies(z3.And(A.cond(nn[0]), Bo.cond(nn[1])), neg(b_(m.nan(*nn))))))
        k = len(ctx.mem.get(("glob", "#upd", "match"), ()))
        M = z3.Function(ctx.name(f"M{k}"), A.sort, B)
        mo = z3.Function(ctx.name(f"mo{k}"), A.sort, Bo.sort)
        co = z3.Function(ctx.name(f"co{k}"), Bo.sort, A.sort)
        c, o = z3.Const("#c", A.sort), z3.Const("#o", Bo.sort)
        ctx.forall([c], z3.Implies(M(c), z3.And(A.cond(c), Bo.cond(mo(c)), co(mo(c)) == c, to_real(lift(D(c, mo(c)))) < to_real(thr))))
        hit = lambda x: z3.And(M(co(x)), mo(co(x)) == x)
        # greedy and complete: no unmatched pair below the threshold is left over
        ctx.forall([c, o], z3.Implies(z3.And(A.cond(c), Bo.cond(o), to_real(lift(D(c, o))) < to_real(thr)), z3.Or(
            z3.And(M(c), D(c, mo(c)) <= D(c, o)), z3.And(hit(o), D(co(o), o) <= D(c, o)))))
        ctx.eng.inverses.append((mo, lambda x: co(x), lambda x: mo(co(x)) == x))
        facts = lambda x: [M(x), A.cond(x), Bo.cond(mo(x)), co(mo(x)) == x, to_real(lift(D(x, mo(x)))) < to_real(thr)]
        dom = A.sub(lambda x: M(x), facts=facts)
        aidx = (lambda d, t: AbsIdx(d, t) if d.n is None else t)
        rec = State()
        rec.A, rec.B, rec.D, rec.M, rec.mo, rec.co, rec.hit, rec.thr, rec.dom = A, Bo, D, M, mo, co, hit, thr, dom
        key = ("glob", "#upd", "match")
        ctx.mem[key] = ctx.mem.get(key, ()) + (rec,)
        return (ctx.new_list(SeqVal([SymPart(dom, lambda x: aidx(A, x))])),
                ctx.new_list(SeqVal([SymPart(dom, lambda x: aidx(Bo, mo(x)))])))

    return f


def bump(it, s, gets, ref=None):
    """ids given if gets (a fork, so that counters are exact)"""
    ctx = it.ctx
    F = cls(it, "_TrackedObjectFactory")
    if not ctx.decide(gets):
        return None
    c = it.get_attr(s.factory, "count") + 1
    it.set_attr(s.factory, "count", c)
    g = it.get_attr(F, "global_count") + 1
    it.set_attr(F, "global_count", g)
    return c, g


def is_ref(o):
    if not isinstance(o, RefObj):
        raise Unsupported("method of a tracked object of another kind")
    return o


def optval(none, v):
    return Opt(none if is_sym(none) else z3.BoolVal(none), v)


UFIELDS = ["hit_counter", "reid_hit_counter", "is_initializing", "id", "global_id", "last_detection", "#hits", "#det", "last_distance",
           "current_min_distance"]
MFIELDS = ["last_distance", "current_min_distance", "last_detection", "filter", "point_hit_counter", "detected_at_least_once_points"]


class Hits:
    """The effect of _update_objects_in_place as functions of the object,
    given the matching (M, mo, co) of candidates A to objects B."""

    def __init__(self, ctx, s, kind, rec, mem, od):
        self.kind, self.rec, self.od = kind, rec, od
        get = lambda n, r: mem[("field", "TrackedObject", n)].get(ctx, r)
        self.get = get
        self.H = lambda r: conj(od.cond(r), rec.M(rec.co(r)), rec.mo(rec.co(r)) == r)
        if kind == "det":
            self.p = lambda r: p_hit(get("hit_counter", r), get("is_initializing", r), s.period, s.hcm, s.delay)
        else:
            self.p = lambda r: p_merge(get("is_initializing", r), get("initial_period", r), s.delay)
        self.G = lambda r: conj(self.H(r), self.p(r)[2])

    def new(self, n, r):
        """value of field n of the matched object r, after"""
        if n == "hit_counter":
            return self.p(r)[0]
        if n == "is_initializing":
            return self.p(r)[1]
        if n == "reid_hit_counter":
            return optval(True, z3.IntVal(0))
        if self.kind == "det":
            if n == "last_detection":
                return RefObj(self.D, self.rec.co(r))
            if n == "#hits":
                return self.get("#hits", r) + 1
            if n == "#det":
                return optval(False, self.rec.co(r))
            if n == "last_distance":
                return optval(False, self.rec.D(self.rec.co(r), r))
        else:
            if n in MFIELDS:
                return self.get(n, self.rec.co(r))
            if n == "#merged":
                return optval(False, self.rec.co(r))
        return None


def uoip_contract(s_box):
    def f(it, b):
        ctx, s = it.ctx, s_box[0]
        so = it.iter_seq(b["objects"])
        od = one_dom(ctx, so)
        empty = lambda: ctx.new_list(SeqVal([]))
        if b["candidates"] is None:
            return empty(), empty(), b["objects"]
        sc = it.iter_seq(b["candidates"])
        if not sc.parts:
            return empty(), empty(), b["objects"]
        cd = one_dom(ctx, sc)
        g = z3.Const("#c", Ref)
        vals = [p.val(g) for p in sc.parts]
        if not all(isinstance(v, RefObj) and v.ref.eq(g) for v in vals) or len({v.cls for v in vals}) != 1:
            raise Unsupported("candidates of another form")
        kind = "det" if vals[0].cls is s.D else "obj"
        if b["self"] != s.t or not ctx.prove_quiet(lift(b["period"]) == s.period):
            raise Unsupported("_update_objects_in_place of something else")
        if kind == "obj":
            tr = it.iter_seq(ctx.getattr(s.t, "tracked_objects"))
            td = one_dom(ctx, tr)
            ctx.oblige("candidates of re-identification are tracked", z3.ForAll([g], z3.Implies(cd.cond(g), td.cond(g))))
            ctx.oblige("no object is re-identified with itself", z3.ForAll([g], z3.Implies(cd.cond(g), neg(od.cond(g)))))
        m = it.call(it.get_attr(b["distance_function"], "get_distances"), [b["objects"], b["candidates"]], {})
        if not isinstance(m, NDArr) or len(m.shape) != 2:
            raise Unsupported("a distance matrix of another kind")
        if m.nan is not None:
            v = z3.Const("#v", Ref)
            if ctx.decide(ctx.exists([cd, od], lambda c, o: b_(m.nan(c, o)), "nan")):
                raise PyRaise(ValueError, "nan")
        match = match_contract(None, quiet=True)
        match(it, {"distance_matrix": m, "distance_threshold": b["distance_threshold"]})
        rec = ctx.mem[("glob", "#upd", "match")][-1]
        mem = dict(ctx.mem)
        h = Hits(ctx, s, kind, rec, mem, od)
        h.D = s.D
        for n in UFIELDS if kind == "det" else UFIELDS + MFIELDS + ["#merged"]:
            key = ("field", "TrackedObject", n)
            if n in ("id", "global_id") or n == "current_min_distance" and kind == "det":
                continue
            if h.new(n, z3.Const("#x", Ref)) is None:
                continue
            ctx.mem[key] = ctx.mem[key].bulk(h.H, lambda r, n=n: h.new(n, r))
        key = ("field", "TrackedObject", "current_min_distance")
        cn, cv = ctx.fresh_fn("cmd_none", [Ref], B), ctx.fresh_fn("cmd", [Ref], R)
        if kind == "det":
            ctx.mem[key] = ctx.mem[key].bulk(od.cond, lambda r: Opt(cn(r), cv(r)))
        else:  # candidates' values are debugging data, taken over by merge
            ctx.mem[key] = ctx.mem[key].bulk(lambda r: od.cond(r), lambda r: Opt(cn(r), cv(r)))
        # ids: one to one with the next numbers
        gd = od.sub(h.G)
        rk, n = rank_fn(ctx, gd, od, None)
        F = cls(it, "_TrackedObjectFactory")
        c0, g0 = it.get_attr(s.factory, "count"), it.get_attr(F, "global_count")
        rk2, _ = rank_fn(ctx, gd, od, None)
        k = ("glob", "#upd", "bases")
        ctx.mem[k] = ctx.mem.get(k, ()) + (c0 + n - s.count,)
        it.set_attr(s.factory, "count", c0 + n)
        it.set_attr(F, "global_count", g0 + n)
        for nm, c, k in (("id", c0, rk), ("global_id", g0, rk2)):
            key = ("field", "TrackedObject", nm)
            ctx.mem[key] = ctx.mem[key].bulk(h.G, lambda r, c=c, k=k: optval(False, c + 1 + k(r)))
        U0 = ctx.new_list(SeqVal([SymPart(cd.sub(lambda c: neg(rec.M(c))), lambda c: RefObj(vals[0].cls, c))]))
        UO = ctx.new_list(SeqVal([SymPart(od.sub(lambda o: neg(h.H(o))), lambda o: RefObj(s.T, o))]))
        if kind == "det":
            MT = ctx.new_list(SeqVal([SymPart(od.sub(h.H), lambda o: RefObj(s.T, o))]))
        else:
            MT = empty()
            tl = ctx.getattr(s.t, "tracked_objects")
            ctx.mem[("list", tl.lid)] = SeqVal([SymPart(td.sub(lambda c: neg(conj(cd.cond(c), rec.M(c)))), lambda c: RefObj(s.T, c))])
        return U0, MT, UO

    return f


def contracts_for(s_box, uoip=True):
    """name -> contract; s_box[0] is the current State"""

    def step(it, b):
        o = b["self"]
        if not isinstance(o, RefObj):
            return NotImplemented
        ctx = it.ctx
        get = lambda n: ctx.fget(o, n)
        hc, age, rhc = p_step(get("hit_counter"), get("age"), optpair(get("reid_hit_counter")), optpair(s_box[0].rmax))
        ctx.fset(o, "hit_counter", hc)
        ctx.fset(o, "age", age)
        ctx.fset(o, "reid_hit_counter", Opt(z3.simplify(rhc[0]), rhc[1]))
        ctx.fset(o, "#steps", get("#steps") + 1)

    def coord(it, b):
        o = b["self"]
        if not isinstance(o, RefObj):
            return NotImplemented
        ct = b["coordinate_transformation"]
        if ct is None:
            return None
        if ct != s_box[0].ct:
            raise Unsupported("another transformation")
        it.ctx.fset(o, "#transform", z3.IntVal(1))

    def hit(it, b):
        o, d, period = b["self"], b["detection"], b["period"]
        if not isinstance(o, RefObj):
            return NotImplemented
        if not isinstance(d, RefObj):
            raise Unsupported("hit with something else than a detection of the list")
        ctx, s = it.ctx, s_box[0]
        get = lambda n: ctx.fget(o, n)
        h, ini, gets = p_hit(get("hit_counter"), get("is_initializing"), lift(period), s.hcm, s.delay)
        got = bump(it, s, gets)
        ctx.fset(o, "hit_counter", h)
        ctx.fset(o, "reid_hit_counter", Opt(z3.BoolVal(True), z3.IntVal(0)))
        ctx.fset(o, "last_detection", d)
        ctx.fset(o, "#hits", get("#hits") + 1)
        ctx.fset(o, "#det", Opt(z3.BoolVal(False), d.ref))
        if got:
            ctx.fset(o, "is_initializing", z3.BoolVal(False))
            ctx.fset(o, "id", Opt(z3.BoolVal(False), got[0]))
            ctx.fset(o, "global_id", Opt(z3.BoolVal(False), got[1]))

    def merge(it, b):
        o, c = b["self"], b["tracked_object"]
        if not isinstance(o, RefObj):
            return NotImplemented
        is_ref(c)
        ctx, s = it.ctx, s_box[0]
        get = lambda n: ctx.fget(o, n)
        h, ini, gets = p_merge(get("is_initializing"), get("initial_period"), s.delay)
        got = bump(it, s, gets)
        ctx.fset(o, "hit_counter", h)
        ctx.fset(o, "reid_hit_counter", Opt(z3.BoolVal(True), z3.IntVal(0)))
        for n in ("last_distance", "current_min_distance", "last_detection", "filter", "point_hit_counter", "detected_at_least_once_points"):
            ctx.fset(o, n, ctx.fget(c, n))
        ctx.fset(o, "#merged", Opt(z3.BoolVal(False), c.ref))
        if got:
            ctx.fset(o, "is_initializing", z3.BoolVal(False))
            ctx.fset(o, "id", Opt(z3.BoolVal(False), got[0]))
            ctx.fset(o, "global_id", Opt(z3.BoolVal(False), got[1]))

    def create(it, b):
        ctx, s = it.ctx, s_box[0]
        f, d = b["self"], b["initial_detection"]
        period, delay = lift(b["period"]), lift(b["initialization_delay"])
        ic = it.get_attr(f, "initializing_count") + 1
        it.set_attr(f, "initializing_count", ic)
        got = bump(it, s, period > delay)
        o = ctx.new_obj(s.T, hit_counter=period, age=0, initial_period=period, is_initializing=got is None, initializing_id=ic,
                        id=got[0] if got else None, global_id=got[1] if got else None, reid_hit_counter=None,
                        last_detection=d, last_distance=None, current_min_distance=None)
        for k in ("hit_counter_max", "initialization_delay", "pointwise_hit_counter_max", "detection_threshold", "filter_factory",
                  "past_detections_length", "reid_hit_counter_max", "coord_transformations"):
            ctx.setattr(o, "#" + k, b[k])
        ctx.setattr(o, "#created_from", d)
        return o

    def dcoord(it, b):
        o = b["self"]
        if not isinstance(o, RefObj):
            return NotImplemented
        ct = b["coordinate_transformation"]
        if ct is None:
            return None
        if ct != s_box[0].ct:
            raise Unsupported("another transformation")
        it.ctx.fset(o, "#coords", z3.IntVal(1))

    T = TR + ".TrackedObject."
    return {T + "tracker_step": step, T + "update_coordinate_transformation": coord, T + "hit": hit, T + "merge": merge,
            TR + "._TrackedObjectFactory.create": create, TR + ".Detection.update_coordinate_transformation": dcoord,
            TR + ".Tracker.match_dets_and_objs": match_contract(None),
            **({TR + ".Tracker._update_objects_in_place": uoip_contract(s_box)} if uoip else {})}


def run_update(ctx, it, inv=None, omit_period=False, **kw):
    s = setup(ctx, it, **kw)
    if inv:
        inv(s)
    box = [s]
    it.contracts = contracts_for(box)
    it.depth = 1
    kw = {"period": s.period}
    if omit_period:
        ctx.assume(s.period == 1)
        kw = {}
    if s.ct is not None:
        kw["coord_transformations"] = s.ct
    s.ret = None
    try:
        s.ret = it.call(it.get_attr(s.t, "update"), [s.dets], kw)
    except PyRaise as e:
        if e.cls is not ValueError or not ctx.mem.get(("glob", "#upd", "dist"), ()):
            raise
        d = ctx.mem[("glob", "#upd", "dist")][-1]
        u, v = z3.Const("#u", d.cd.sort), z3.Const("#v", d.od.sort)
        ctx.oblige("update fails only for distances that are NaN", z3.Exists([u, v], conj(d.cd.cond(u), d.od.cond(v), d.nan(u, v))))
        raise Infeasible()
    s.match = ctx.mem.get(("glob", "#upd", "match"), ())
    s.dist = ctx.mem.get(("glob", "#upd", "dist"), ())
    return s


COVU = [TR + ".Tracker.update", TR + ".Tracker._update_objects_in_place", TR + ".Tracker.get_active_objects"]
