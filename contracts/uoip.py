"""Tracker._update_objects_in_place under contract: the effect Tracker.update
is verified against (update.uoip_contract) is discharged here on the body,
for lists of detections and for lists of objects to re-identify."""
from contracts.update import *


def setup_up(ctx, it, kind):
    s = U_()
    T, D = cls(it, "TrackedObject"), cls(it, "Detection")
    s.T, s.D = T, D
    F = cls(it, "_TrackedObjectFactory")
    s.gc, s.count, s.icount = ctx.fint("global_count", 0), ctx.fint("count", 0), ctx.fint("icount", 0)
    it.set_attr(F, "global_count", s.gc)
    s.factory = ctx.new_obj(F, count=s.count, initializing_count=s.icount)
    s.old = fieldmaps(ctx, it, T, D)
    inT, inO, inC = (ctx.fresh_fn(n, [Ref], B) for n in ("tracked", "objects", "cands"))
    s.tdom, s.odom, s.cdom = Dom(Ref, inT), Dom(Ref, inO), Dom(Ref, inC)
    s.tracked = ctx.new_list(SeqVal([SymPart(s.tdom, lambda r: RefObj(T, r))]))
    s.objects = ctx.new_list(SeqVal([SymPart(s.odom, lambda r: RefObj(T, r))]))
    s.cands = None
    s.C = T if kind == "obj" else D
    if kind != "none":
        s.cands = ctx.new_list(SeqVal([SymPart(s.cdom, lambda r: RefObj(s.C, r))]))
    if kind == "obj":
        r = z3.Const("#r", Ref)
        ctx.forall([r], z3.Implies(inC(r), z3.And(inT(r), z3.Not(inO(r)))))
    s.hcm, s.delay = ctx.fint("hcm", 1), ctx.fint("delay", 0)
    ctx.assume(s.delay < s.hcm)
    s.period = ctx.fint("period", 1)
    s.thr = ctx.freal("thr")
    ctx.assume(s.thr <= INF)
    s.ct = None
    s.df = distfn(ctx, it, s, "distance")
    s.t = ctx.new_obj(cls(it, "Tracker"), tracked_objects=s.tracked, _obj_factory=s.factory)
    ctx.mem[("field", "Detection", "age")] = FMap(lambda d: Opt(z3.BoolVal(True), z3.IntVal(0)))
    return s


def same_field(a, b):
    """Bool term: two values of a field are equal"""
    if isinstance(a, RefObj) and isinstance(b, RefObj):
        return z3.BoolVal(a.cls is b.cls) if a.cls is not b.cls else a.ref == b.ref
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.term == b.term
    if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
        def p(v):
            if v is None:
                return z3.BoolVal(True), None
            if isinstance(v, Opt):
                return b_(v.none), v.val
            return z3.BoolVal(False), v
        (an, av), (bn, bv) = p(a), p(b)
        if av is None or bv is None:
            return conj(an == bn, z3.BoolVal(True)) if av is bv else conj(an, bn)
        return conj(an == bn, z3.Implies(neg(an), lift(av) == lift(bv)))
    return lift(a) == lift(b)


def enumerates(ctx, name, seq, sort_cls, pred, wits, exact=None):
    """seq lists exactly the references satisfying pred, each once."""
    r = z3.Const(ctx.name("k_en"), Ref)
    cover = []
    for n, p in enumerate(seq.parts):
        if not isinstance(p, SymPart):
            raise Unsupported("a list of another form")
        x = z3.Const(ctx.name("k_x"), p.dom.sort)
        y = z3.Const(ctx.name("k_y"), p.dom.sort)
        v, w = p.val(x), p.val(y)
        if not isinstance(v, RefObj):
            raise Unsupported("a list of other things")
        if sort_cls is not None and v.cls is not sort_cls:
            ctx.oblige(name + ": elements are of the right class", z3.BoolVal(False))
        inx = conj(p.dom.cond(x), *p.dom.facts(x))
        ctx.oblige(name + ": every element belongs", z3.Implies(inx, pred(v.ref)))
        ctx.oblige(name + ": no element twice", z3.Implies(conj(inx, p.dom.cond(y), *p.dom.facts(y), x != y), v.ref != w.ref))
        for q in seq.parts[:n]:
            y = z3.Const(ctx.name("k_y"), q.dom.sort)
            ctx.oblige(name + ": no element twice", z3.Implies(conj(inx, q.dom.cond(y)), v.ref != q.val(y).ref))
        for wf in wits:
            t = wf(r)
            if t.sort() == p.dom.sort:
                cover.append(conj(p.dom.cond(t), p.val(t).ref == r))
    ctx.oblige(name + ": nothing is missing", z3.Implies(pred(r), disj(*cover)))


def run_uoip(ctx, it, kind):
    s = setup_up(ctx, it, kind)
    it.contracts = contracts_for([s], uoip=False)
    it.depth = 1
    s.mem0 = dict(ctx.mem)
    try:
        s.ret = it.call(it.get_attr(s.t, "_update_objects_in_place"), [s.df, s.thr, s.objects, s.cands, s.period], {})
    except PyRaise as e:
        d = ctx.mem.get(("glob", "#upd", "dist"), ())
        if e.cls is not ValueError or not d:
            raise
        u, v = z3.Const("#u", d[-1].cd.sort), z3.Const("#v", d[-1].od.sort)
        ctx.oblige("only distances that are NaN are an error", z3.Exists([u, v], conj(d[-1].cd.cond(u), d[-1].od.cond(v), d[-1].nan(u, v))))
        raise Infeasible()
    s.match = ctx.mem.get(("glob", "#upd", "match"), ())
    s.dist = ctx.mem.get(("glob", "#upd", "dist"), ())
    return s


def check_uoip(ctx, it, kind):
    s = run_uoip(ctx, it, kind)
    if not (isinstance(s.ret, tuple) and len(s.ret) == 3):
        raise Unsupported("result of another form")
    U0, MT, UO = (it.iter_seq(v) for v in s.ret)
    r = z3.Const(ctx.name("k_r"), Ref)
    no = lambda x: z3.BoolVal(False)
    idw = lambda x: x
    new = lambda n: ctx.mem[("field", "TrackedObject", n)].get(ctx, r)
    old = lambda n: s.mem0[("field", "TrackedObject", n)].get(ctx, r)
    F = cls(it, "_TrackedObjectFactory")
    count, gc = lift(ga(it, s.factory, "count")), lift(it.get_attr(F, "global_count"))
    if not s.match:
        g = z3.Const("#g", Ref)
        if kind != "none":
            ctx.oblige("candidates that are there are matched", z3.ForAll([g], neg(s.cdom.cond(g))))
        for n in FIELDS:
            ctx.oblige(f"without candidates nothing happens to {n}", same_field(new(n), old(n)))
        ctx.oblige("without candidates no ids are given", z3.And(count == s.count, gc == s.gc))
        enumerates(ctx, "unmatched candidates", U0, None, no, [])
        enumerates(ctx, "matched objects", MT, None, no, [])
        enumerates(ctx, "unmatched objects", UO, s.T, s.odom.cond, [idw])
        enumerates(ctx, "tracked objects", ctx.seq(s.tracked), s.T, s.tdom.cond, [idw])
        return
    if len(s.match) != 1 or len(s.dist) != 1:
        raise Unsupported("several matchings")
    rec, d = s.match[0], s.dist[0]
    ctx.oblige("distances are asked for the given objects", z3.BoolVal(ctx.same_dom(d.od, s.odom)))
    ctx.oblige("distances are asked for the given candidates", z3.BoolVal(ctx.same_dom(d.cd, s.cdom)))
    ctx.oblige("matching gets the matrix: candidates by objects", z3.BoolVal(rec.A.sort == Ref and rec.B.sort == Ref and ctx.same_dom(rec.A, s.cdom)
                                                                             and ctx.same_dom(rec.B, s.odom)))
    a, b = z3.Const("#ma", Ref), z3.Const("#mb", Ref)
    ctx.oblige("matching gets the distances", z3.ForAll([a, b], z3.Implies(z3.And(s.cdom.cond(a), s.odom.cond(b)), rec.D(a, b) == d.f(a, b))))
    ctx.oblige("matching gets the threshold", to_real(lift(rec.thr)) == s.thr)
    h = Hits(ctx, s, kind, rec, s.mem0, s.odom)
    h.D = s.D
    own = UFIELDS if kind == "det" else UFIELDS + MFIELDS + ["#merged"]
    for n in FIELDS:
        if n in ("id", "global_id"):
            ctx.oblige(f"{n} of the others is unchanged", z3.Implies(neg(h.G(r)), same_field(new(n), old(n))))
            continue
        v = h.new(n, r) if n in own else None
        if n == "current_min_distance":
            ctx.oblige(f"{n} of the others is unchanged", z3.Implies(neg(s.odom.cond(r)), same_field(new(n), old(n))))
            continue
        if v is None:
            ctx.oblige(f"{n} is unchanged", same_field(new(n), old(n)))
            continue
        ctx.oblige(f"{n} of matched objects", z3.Implies(h.H(r), same_field(new(n), v)))
        ctx.oblige(f"{n} of the others is unchanged", z3.Implies(neg(h.H(r)), same_field(new(n), old(n))))
    # ids
    r2 = z3.Const(ctx.name("k_r"), Ref)
    j = z3.Int(ctx.name("k_j"))
    ctx.oblige("ids: the count never falls", z3.And(count >= s.count, gc >= s.gc, count - s.count == gc - s.gc))
    for n, c0, c1 in (("id", s.count, count), ("global_id", s.gc, gc)):
        f = ctx.mem[("field", "TrackedObject", n)]
        v, v2 = f.get(ctx, r), f.get(ctx, r2)
        vn, vv = optpair(v)
        v2n, vv2 = optpair(v2)
        ctx.oblige(f"{n}: initialised objects get one of the next numbers", z3.Implies(h.G(r), z3.And(neg(vn), vv > c0, vv <= c1)))
        ctx.oblige(f"{n}: different objects get different numbers", z3.Implies(z3.And(h.G(r), h.G(r2), r != r2), vv != vv2))
        alts = []
        for (dm, cn, rk, at) in getattr(ctx.eng, "ranks", []):
            t = at(j - c0 - 1)
            for w in ((rec.mo(t),) if t.sort() == rec.A.sort else ()) + ((t,) if t.sort() == Ref else ()):
                n_, x_ = optpair(f.get(ctx, w))
                alts.append(z3.And(h.G(w), neg(n_), x_ == j))
        ctx.oblige(f"{n}: no number is left out", z3.Implies(z3.And(j > c0, j <= c1), disj(*alts)))
    # results
    enumerates(ctx, "unmatched candidates", U0, s.C, lambda c: z3.And(s.cdom.cond(c), neg(rec.M(c))), [idw])
    enumerates(ctx, "unmatched objects", UO, s.T, lambda o: z3.And(s.odom.cond(o), neg(h.H(o))), [idw])
    if kind == "det":
        enumerates(ctx, "matched objects", MT, s.T, h.H, [idw, rec.co])
        enumerates(ctx, "tracked objects", ctx.seq(s.tracked), s.T, s.tdom.cond, [idw])
    else:
        enumerates(ctx, "tracked objects without the absorbed ones", ctx.seq(s.tracked), s.T,
                   lambda c: z3.And(s.tdom.cond(c), neg(z3.And(s.cdom.cond(c), rec.M(c)))), [idw])


def uoip_units(P, kinds=("none", "det", "obj")):
    for k in kinds:
        what = {"none": "no candidates", "det": "detections", "obj": "re-identification"}[k]
        P.unit(f"Tracker._update_objects_in_place: {what}", covers=[TR + ".Tracker._update_objects_in_place"], extra=ext.all_models)(
            lambda ctx, it, k=k: check_uoip(ctx, it, k))
