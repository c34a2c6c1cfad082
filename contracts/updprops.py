"""What Tracker.update does to an arbitrary tracker, as functions of the
state before it; shared by C01, C02, C03, C05, C14, C16 and C26."""
from contracts.uoip import *
from pyvc.loops import changed_keys


class Frame_:
    pass


def after(ctx, it, **kw):
    """run Tracker.update and collect before/after functions of a reference"""
    s = run_update(ctx, it, **kw)
    s.refparts, s.newparts = [], []
    for p in it.iter_seq(ga(it, s.t, "tracked_objects")).parts:
        split(ctx, s, p, s.refparts, s.newparts)
    s.new = lambda n, r: ctx.mem[("field", "TrackedObject", n)].get(ctx, r)
    s.inT2 = lambda r: disj(*[p.dom.cond(r) for p in s.refparts])
    s.kept = (lambda r: s.old["hit_counter"](r) >= 0) if not s.reid else (
        lambda r: z3.Or(s.old["reid_hit_counter"](r).none, s.old["reid_hit_counter"](r).val >= 0))
    s.alive = lambda r: z3.And(s.inT(r), s.kept(r), s.old["hit_counter"](r) >= 0)
    s.dead = lambda r: z3.And(s.inT(r), s.kept(r), s.old["hit_counter"](r) < 0)
    s.live0 = lambda r: z3.And(s.inT(r), s.kept(r))
    s.hitd = lambda r: s.new("#hits", r) == 1
    s.merged = lambda r: neg(s.new("#merged", r).none)
    # objects absorbed by re-identification
    s.byk = {}
    for k, d in enumerate(s.dist):
        s.byk.setdefault(d.kind, []).append((d, s.match[k]))
    if len(s.byk.get("reid", ())) > 1 or len(s.dist) != len(s.match):
        raise Unsupported("several re-identification stages")
    s.rd = s.byk.get("reid", [None])[0]
    s.absorbed = (lambda c: conj(s.rd[0].cd.cond(c), s.rd[1].M(c))) if s.rd else (lambda c: z3.BoolVal(False))
    return s


def split(ctx, s, p, refs, news):
    if isinstance(p, Items):
        raise Unsupported("single objects in the list")
    g = z3.Const(ctx.name("k_p"), p.dom.sort)
    v = p.val(g)
    if isinstance(v, RefObj) and v.cls is s.T and v.ref.eq(g):
        refs.append(p)
    elif isinstance(v, FrozenObj) and v.cls is s.T:
        news.append(p)
    else:
        raise Unsupported("tracked objects of another form")


def one_new(ctx, s):
    """the created objects: (domain over detections, attribute function)"""
    if len(s.newparts) > 1:
        raise Unsupported("several groups of created objects")
    if not s.newparts:
        return None
    p = s.newparts[0]
    if p.dom.sort != Ref:
        raise Unsupported("created objects of another form")
    return p.dom, lambda d, n: p.val(d).attr(n)


def R_(ctx):
    return z3.Const(ctx.name("k_r"), Ref)


# -- C01 ---------------------------------------------------------------------
def reported(ctx, it):
    s = after(ctx, it)
    r = R_(ctx)
    lists = [("returned list", s.ret), ("active-objects accessor", it.call(it.get_attr(s.t, "get_active_objects"), [], {}))]
    want = lambda r: z3.And(s.inT2(r), neg(b_(s.new("is_initializing", r))), s.new("hit_counter", r) >= 0)
    new = one_new(ctx, s)
    for what, l in lists:
        refs, news = [], []
        seq = it.iter_seq(l)
        for p in seq.parts:
            split(ctx, s, p, refs, news)
        ind = lambda r: disj(*[p.dom.cond(r) for p in refs])
        ctx.oblige(f"{what}: only initialised objects", z3.Implies(ind(r), neg(b_(s.new("is_initializing", r)))))
        ctx.oblige(f"{what}: only objects whose counter is not negative", z3.Implies(ind(r), s.new("hit_counter", r) >= 0))
        ctx.oblige(f"{what}: only objects still tracked", z3.Implies(ind(r), s.inT2(r)))
        ctx.oblige(f"{what}: every tracked, initialised, live object", z3.Implies(want(r), ind(r)))
        for a in range(len(refs)):
            for b in range(a):
                ctx.oblige(f"{what}: no object twice", neg(conj(refs[a].dom.cond(r), refs[b].dom.cond(r))))
        d = R_(ctx)
        indn = lambda d: disj(*[p.dom.cond(d) for p in news])
        if new is None:
            ctx.oblige(f"{what}: no other objects", neg(indn(d)))
        else:
            nd, attr = new
            ok = conj(nd.cond(d), neg(b_(it.truth_sym(attr(d, "is_initializing")))), lift(attr(d, "hit_counter")) >= 0)
            ctx.oblige(f"{what}: exactly the created objects that are initialised", indn(d) == ok)
            for p in news:
                ctx.oblige(f"{what}: created objects are those tracked", z3.Implies(p.dom.cond(d), z3.BoolVal(p.val(d).oid == new_oid(s, d))))
            for a in range(len(news)):
                for b in range(a):
                    ctx.oblige(f"{what}: no object twice", neg(conj(news[a].dom.cond(d), news[b].dom.cond(d))))
    # objects that are gone
    ctx.oblige("discarded objects are not tracked any more", z3.Implies(z3.And(s.inT(r), neg(s.kept(r))), neg(s.inT2(r))))
    ctx.oblige("absorbed objects are not tracked any more", z3.Implies(s.absorbed(r), neg(s.inT2(r))))
    for a in range(len(s.refparts)):
        for b in range(a):
            ctx.oblige("no object is tracked twice", neg(conj(s.refparts[a].dom.cond(r), s.refparts[b].dom.cond(r))))
    ctx.oblige("nothing else is tracked", z3.Implies(s.inT2(r), s.inT(r)))
    n = it.get_attr(s.t, "current_object_count")
    m = it.seq_len(it.iter_seq(s.ret))
    ctx.oblige("the current object count is the number of reported objects", lift(n) == lift(m))


def new_oid(s, d):
    return s.newparts[0].val(d).oid


# -- C02 ---------------------------------------------------------------------
def lifetimes(ctx, it, **kw):
    s = after(ctx, it, **kw)
    r = R_(ctx)
    o = s.old
    live = s.live0(r)
    hc0, hc1 = o["hit_counter"](r), s.new("hit_counter", r)
    ctx.oblige("each tracked object is stepped exactly once", z3.Implies(live, s.new("#steps", r) == 1))
    ctx.oblige("an object matches at most one detection", z3.And(s.new("#hits", r) >= 0, s.new("#hits", r) <= 1))
    ctx.oblige("age rises by one", z3.Implies(live, s.new("age", r) == o["age"](r) + 1))
    stepped = hc0 - 1
    reset = 2 * o["initial_period"](r)
    want = z3.If(s.merged(r), reset, z3.If(s.hitd(r), minz(stepped + 2 * s.period, s.hcm), stepped))
    ctx.oblige("the hit counter falls by one, rises with a match, restarts with re-identification", z3.Implies(live, hc1 == want))
    ini0, ini1 = b_(o["is_initializing"](r)), b_(s.new("is_initializing", r))
    ctx.oblige("initialised exactly when the counter first exceeds the delay", z3.Implies(live, ini1 == z3.And(ini0, hc1 <= s.delay)))
    ctx.oblige("only matched or re-identified objects are initialised", z3.Implies(z3.And(live, ini0, neg(ini1)), z3.Or(s.hitd(r), s.merged(r))))
    if not s.reid and not s.reidd:
        ctx.oblige("without re-identification: discarded exactly when the counter is negative", s.inT2(r) == z3.And(s.inT(r), hc0 >= 0))
    if not s.reidd:
        ctx.oblige("without a re-identification distance nothing is re-identified", neg(s.merged(r)))
    ctx.oblige("hit counters of tracked objects never exceed the maximum through a match", z3.Implies(z3.And(live, s.hitd(r), neg(s.merged(r))), hc1 <= s.hcm))
    new = one_new(ctx, s)
    if new:
        nd, attr = new
        d = R_(ctx)
        hyp = conj(nd.cond(d), *nd.facts(d))
        ctx.oblige("new objects start with the period as counter", z3.Implies(hyp, lift(attr(d, "hit_counter")) == s.period))
        ctx.oblige("new objects start at age 0", z3.Implies(hyp, lift(attr(d, "age")) == 0))
        ctx.oblige("new objects are initialised exactly when the period exceeds the delay",
                   z3.Implies(hyp, b_(it.truth_sym(attr(d, "is_initializing"))) == (s.period <= s.delay)))
        config(ctx, it, s, attr, d, hyp, ["hit_counter_max", "initialization_delay", "reid_hit_counter_max"])


def config(ctx, it, s, attr, d, hyp, names):
    want = dict(hit_counter_max=s.hcm, initialization_delay=s.delay, pointwise_hit_counter_max=s.pw, detection_threshold=s.dthr,
                filter_factory=s.ff, past_detections_length=s.pdl, reid_hit_counter_max=s.rmax, coord_transformations=s.ct)
    for n in names:
        v, w = attr(d, "#" + n), want[n]
        if is_sym(w) or is_num(w):
            ctx.oblige(f"new objects get the tracker's {n}", z3.Implies(hyp, lift(v) == lift(w)) if is_num(v) else z3.BoolVal(False))
        else:
            ctx.oblige(f"new objects get the tracker's {n}", z3.BoolVal(v is w or (isinstance(w, Obj) and v == w) or (
                isinstance(w, Opaque) and isinstance(v, Opaque) and v.kind == w.kind)))


# -- C03 ---------------------------------------------------------------------
def identifiers(ctx, it):
    def inv(s):
        r, q = z3.Const("#r", Ref), z3.Const("#q", Ref)
        i, g, n = (lambda x: s.old["id"](x).val), (lambda x: s.old["global_id"](x).val), (lambda x: b_(s.old["is_initializing"](x)))
        ctx.forall([r], z3.Implies(z3.And(s.inT(r), neg(n(r))), z3.And(i(r) >= 1, i(r) <= s.count, g(r) >= 1, g(r) <= s.gc)))
        ctx.forall([r, q], z3.Implies(z3.And(s.inT(r), s.inT(q), neg(n(r)), neg(n(q)), r != q), z3.And(i(r) != i(q), g(r) != g(q))))
        ctx.forall([r], z3.Implies(s.inT(r), z3.And(s.old["initializing_id"](r) >= 1, s.old["initializing_id"](r) <= s.icount)))
        ctx.forall([r, q], z3.Implies(z3.And(s.inT(r), s.inT(q), r != q), s.old["initializing_id"](r) != s.old["initializing_id"](q)))

    s = after(ctx, it, inv=inv)
    r, q, d, e = (R_(ctx) for _ in range(4))
    F = cls(it, "_TrackedObjectFactory")
    count, gc, ic = lift(ga(it, s.factory, "count")), lift(it.get_attr(F, "global_count")), lift(ga(it, s.factory, "initializing_count"))
    ctx.oblige("counters never fall", z3.And(count >= s.count, gc >= s.gc, ic >= s.icount))
    ctx.oblige("global and own numbers are given together", count - s.count == gc - s.gc)
    ctx.oblige("the total object count is the number of ids given", lift(it.get_attr(s.t, "total_object_count")) == count)
    new = one_new(ctx, s)
    j = z3.Int(ctx.name("k_j"))
    for n, c0, c1 in (("id", s.count, count), ("global_id", s.gc, gc)):
        v0, v1 = s.old[n](r), s.new(n, r)
        n1, x1 = optpair(v1)
        ini0, ini1 = b_(s.old["is_initializing"](r)), b_(s.new("is_initializing", r))
        live = s.live0(r)
        ctx.oblige(f"{n}: none exactly while initialising", z3.Implies(live, n1 == ini1))
        ctx.oblige(f"{n}: never changes once given", z3.Implies(z3.And(live, neg(ini0)), z3.And(neg(n1), x1 == v0.val)))
        ctx.oblige(f"{n}: newly given ones are the next numbers", z3.Implies(z3.And(live, ini0, neg(ini1)), z3.And(x1 > c0, x1 <= c1)))
        m1, y1 = optpair(s.new(n, q))
        ctx.oblige(f"{n}: different for different objects", z3.Implies(z3.And(s.live0(r), s.live0(q), r != q, neg(n1), neg(m1)), x1 != y1))
        alts = []
        if new:
            nd, attr = new
            hyp = lambda d: conj(nd.cond(d), *nd.facts(d))
            nn, xx = optpair(attr(d, n))
            mm, yy = optpair(attr(e, n))
            inid = b_(it.truth_sym(attr(d, "is_initializing")))
            ctx.oblige(f"{n}: a new object has none exactly while initialising", z3.Implies(hyp(d), nn == inid))
            ctx.oblige(f"{n}: a new object gets one of the next numbers", z3.Implies(z3.And(hyp(d), neg(nn)), z3.And(xx > c0, xx <= c1)))
            ctx.oblige(f"{n}: different for different new objects", z3.Implies(z3.And(hyp(d), hyp(e), d != e, neg(nn), neg(mm)), xx != yy))
            ctx.oblige(f"{n}: new objects' differ from the others'", z3.Implies(z3.And(hyp(d), live, neg(nn), neg(n1)), xx != x1))
        # every number between the counters was given
        for (dm, cn, rk, at) in getattr(ctx.eng, "ranks", []):
            for off in rank_offsets(ctx, c0, count if n == "id" else gc, s):
                t = at(j - off - 1)
                if t.sort() != Ref:
                    continue
                nn, xx = optpair(s.new(n, t))
                alts.append(z3.And(s.live0(t), b_(s.old["is_initializing"](t)), neg(nn), xx == j))
                if new:
                    nn, xx = optpair(attr(t, n))
                    alts.append(z3.And(nd.cond(t), neg(nn), xx == j))
        ctx.oblige(f"{n}: no number is left out", z3.Implies(z3.And(j > c0, j <= c1), disj(*alts)))
    if new:
        xi, yi = lift(attr(d, "initializing_id")), lift(attr(e, "initializing_id"))
        ctx.oblige("initialising id: every new object gets its own", z3.Implies(z3.And(hyp(d), hyp(e), d != e), xi != yi))
        ctx.oblige("initialising id: one of the next numbers", z3.Implies(hyp(d), z3.And(xi > s.icount, xi <= ic)))
    ctx.oblige("initialising id: never changes", z3.Implies(s.inT(r), s.new("initializing_id", r) == s.old["initializing_id"](r)))


def rank_offsets(ctx, c0, c1, s):
    """the counter values at which groups of ids start"""
    out = [c0]
    acc = c0
    for (dm, cn, rk, at) in getattr(ctx.eng, "ranks", []):
        pass
    for v in ctx.mem.get(("glob", "#upd", "bases"), ()):
        out.append(c0 + v)
    return out


# -- C05 ---------------------------------------------------------------------
def used_once(ctx, it):
    s = after(ctx, it)
    r, q, d = R_(ctx), R_(ctx), R_(ctx)
    det = lambda x: s.new("#det", x)
    hits = lambda x: s.new("#hits", x)
    given = s.inD
    ctx.oblige("an object absorbs at most one detection", z3.And(hits(r) >= 0, hits(r) <= 1))
    ctx.oblige("an absorbed detection is one of those given", z3.Implies(hits(r) == 1, z3.And(neg(det(r).none), given(det(r).val))))
    ctx.oblige("only tracked objects absorb detections", z3.Implies(hits(r) == 1, s.live0(r)))
    ctx.oblige("no two objects absorb one detection", z3.Implies(z3.And(hits(r) == 1, hits(q) == 1, r != q), det(r).val != det(q).val))
    ctx.oblige("nothing is matched to an object whose counter had run out", z3.Implies(hits(r) == 1, s.old["hit_counter"](r) >= 0))
    new = one_new(ctx, s)
    created = (lambda d: new[0].cond(d)) if new else (lambda d: z3.BoolVal(False))
    ctx.oblige("only given detections start objects", z3.Implies(created(d), given(d)))
    ctx.oblige("a detection is not both absorbed and started as an object", z3.Implies(z3.And(created(d), hits(r) == 1), det(r).val != d))
    if new:
        w = new[1](d, "#created_from")
        ctx.oblige("a new object starts from its own detection", z3.Implies(created(d), z3.BoolVal(isinstance(w, RefObj)) if not isinstance(w, RefObj) else w.ref == d))
        config(ctx, it, s, new[1], d, created(d), ["filter_factory", "detection_threshold", "pointwise_hit_counter_max", "past_detections_length"])
    alts = [created(d)]
    for dd, m in s.byk.get("distance", ()):
        if m.A.sort == Ref and m.B.sort == Ref:
            t = m.mo(d)
            alts.append(z3.And(hits(t) == 1, neg(det(t).none), det(t).val == d))
    ctx.oblige("every given detection is absorbed or starts an object", z3.Implies(given(d), disj(*alts)))
    # order of the offers
    st = s.byk.get("distance", [])
    if s.dets is None:
        ctx.oblige("without detections nothing is absorbed", hits(r) == 0)
        return
    if len(st) != 2:
        raise Unsupported(f"{len(st)} matching stages")
    (d0, m0), (d1, m1) = st
    ini = lambda r: b_(s.old["is_initializing"](r))
    ctx.oblige("all detections are offered first", d0.cd.cond(d) == given(d))
    ctx.oblige("first to the initialised live objects", d0.od.cond(r) == z3.And(s.alive(r), neg(ini(r))))
    ctx.oblige("the rest is offered next", d1.cd.cond(d) == z3.And(given(d), neg(m0.M(d))))
    ctx.oblige("to the live objects still initialising", d1.od.cond(r) == z3.And(s.alive(r), ini(r)))
    ctx.oblige("initialised objects absorb what the first matching says", z3.Implies(z3.And(s.alive(r), neg(ini(r))), (hits(r) == 1) == m0.hit(r)))
    ctx.oblige("initialising objects absorb what the second matching says", z3.Implies(z3.And(s.alive(r), ini(r)), (hits(r) == 1) == m1.hit(r)))
    for k, (dd, m) in enumerate(st):
        u, v = R_(ctx), R_(ctx)
        ctx.oblige("no NaN distance is used", z3.Implies(z3.And(dd.cd.cond(u), dd.od.cond(v)), neg(dd.nan(u, v))))
        ctx.oblige("matching uses the configured threshold", to_real(lift(m.thr)) == s.thr)


# -- C14 ---------------------------------------------------------------------
def reidentification(ctx, it):
    s = after(ctx, it)
    r, q, c = R_(ctx), R_(ctx), R_(ctx)
    o = s.old
    live = s.live0(r)
    hits = s.hitd
    ctx.oblige("an object leaves the tracker only when its time is up or it is absorbed",
               s.inT2(r) == z3.And(s.inT(r), s.kept(r), neg(s.absorbed(r))))
    if s.reid:
        n1, x1 = optpair(s.new("reid_hit_counter", r))
        old = o["reid_hit_counter"](r)
        on = z3.Or(hits(r), s.merged(r))
        start = z3.And(old.none, o["hit_counter"](r) <= 0)
        ctx.oblige("being matched or re-identified cancels the countdown", z3.Implies(z3.And(live, on), n1))
        ctx.oblige("the countdown starts at the maximum when the hit counter runs out", z3.Implies(z3.And(live, neg(on), start), z3.And(neg(n1), x1 == s.rmax)))
        ctx.oblige("the countdown falls by one in every update", z3.Implies(z3.And(live, neg(on), neg(old.none)), z3.And(neg(n1), x1 == old.val - 1)))
        ctx.oblige("no countdown while the object is alive", z3.Implies(z3.And(live, neg(on), old.none, o["hit_counter"](r) > 0), n1))
        ctx.oblige("a matched object is not destroyed by the countdown", z3.Implies(z3.And(live, on), z3.Or(n1, x1 >= 0)))
    if not s.reidd:
        ctx.oblige("nothing is re-identified without a distance", z3.And(neg(s.merged(r)), neg(s.absorbed(r))))
        return
    ini0 = lambda x: b_(o["is_initializing"](x))
    fresh = lambda x: z3.And(s.alive(x), ini0(x), hits(x))  # matched while still initialising
    wanting = lambda x: z3.Or(z3.And(s.alive(x), neg(ini0(x)), neg(hits(x))), s.dead(x))
    if s.rd is None:
        ctx.oblige("re-identification is tried", neg(fresh(c)))
        return
    d, m = s.rd
    ctx.oblige("candidates are the objects matched while initialising", d.cd.cond(c) == fresh(c))
    ctx.oblige("offered to the unmatched initialised and the hidden objects", d.od.cond(r) == wanting(r))
    ctx.oblige("re-identification uses its own threshold", to_real(lift(m.thr)) == s.rthr)
    below = lambda c, r: d.f(c, r) < s.rthr
    ctx.oblige("only pairs below the threshold", z3.Implies(s.merged(r), z3.And(wanting(r), fresh(s.new("#merged", r).val), below(s.new("#merged", r).val, r))))
    ctx.oblige("no two objects are re-identified with one", z3.Implies(z3.And(s.merged(r), s.merged(q), r != q), s.new("#merged", r).val != s.new("#merged", q).val))
    ctx.oblige("every pair below the threshold is merged, or one of the two with another no further away",
               z3.Implies(z3.And(fresh(c), wanting(r), below(c, r)), z3.Or(
                   z3.And(s.absorbed(c), d.f(c, m.mo(c)) <= d.f(c, r)), z3.And(s.merged(r), d.f(s.new("#merged", r).val, r) <= d.f(c, r)))))
    ctx.oblige("exactly the objects that were taken over disappear", z3.Implies(s.absorbed(c), z3.And(s.merged(m.mo(c)), s.new("#merged", m.mo(c)).val == c)))
    ctx.oblige("an object taken over disappears", z3.Implies(s.merged(r), neg(s.inT2(s.new("#merged", r).val))))
    ctx.oblige("a re-identified object stays", z3.Implies(s.merged(r), s.inT2(r)))
    w = s.new("#merged", r).val
    for n in ("filter", "last_detection", "point_hit_counter", "detected_at_least_once_points"):
        ctx.oblige(f"a re-identified object takes over {n}", z3.Implies(s.merged(r), same_field(s.new(n, r), s.new(n, w))))
    ctx.oblige("its last detection is the one the other was matched with", z3.Implies(s.merged(r), s.new("last_detection", r).ref == s.new("#det", w).val))
    for n in ("id", "global_id"):
        ctx.oblige(f"a re-identified object keeps its {n}", z3.Implies(z3.And(s.merged(r), neg(o[n](r).none)), same_field(s.new(n, r), o[n](r))))
    ctx.oblige("and its initialising id", z3.Implies(s.merged(r), s.new("initializing_id", r) == o["initializing_id"](r)))


# -- C16 ---------------------------------------------------------------------
def coordinates(ctx, it):
    s = after(ctx, it)
    r, d = R_(ctx), R_(ctx)
    given = s.ct is not None
    tr = lambda x: s.new("#transform", x) == (1 if given else 0)
    ctx.oblige("every tracked object gets the transformation of the update", z3.Implies(s.live0(r), tr(r)))
    for dd, m in s.byk.get("distance", ()):
        cm = dd.mem[("field", "Detection", "#coords")]
        om = dd.mem[("field", "TrackedObject", "#transform")]
        ctx.oblige("detections are transformed before they are compared", z3.Implies(s.inD(d), cm.get(ctx, d) == (1 if given else 0)))
        ctx.oblige("objects have the transformation before they are compared", z3.Implies(s.live0(r), om.get(ctx, r) == (1 if given else 0)))
    if s.dets is not None:
        ctx.oblige("every detection gets the transformation of the update", z3.Implies(s.inD(d), ctx.mem[("field", "Detection", "#coords")].get(ctx, d) == (1 if given else 0)))
    new = one_new(ctx, s)
    if new:
        config(ctx, it, s, new[1], d, new[0].cond(d), ["coord_transformations"])


# -- C26 ---------------------------------------------------------------------
def isolation(ctx, it):
    box = {}

    def inv(s):
        box["mem"] = dict(ctx.mem)

    s = after(ctx, it, inv=inv)
    m0 = box["mem"]
    r, d = R_(ctx), R_(ctx)
    F = cls(it, "_TrackedObjectFactory")
    ctx.oblige("the list of detections is unchanged", z3.BoolVal(s.dets is None or ctx.mem[("list", s.dets.lid)] is m0[("list", s.dets.lid)]))
    for k, v in m0.items():
        if k[0] == "field" and k[1] == "Detection":
            if k[2] in ("age", "#coords"):
                continue
            ctx.oblige(f"the detections' {k[2]} is unchanged", z3.BoolVal(ctx.mem[k] is v))
    if s.ct is not None:
        for n in ctx.mem[("names", s.ct.oid)]:
            ctx.oblige("the transformation is unchanged", z3.BoolVal(ctx.mem[("attr", s.ct.oid, n)] is m0.get(("attr", s.ct.oid, n))))
    # frame: objects of other trackers, other factories
    for n in FIELDS:
        ctx.oblige(f"objects of other trackers keep their {n}", z3.Implies(neg(s.inT(r)), same_field(s.new(n, r), s.old[n](r))))
    own = {s.t.oid, s.factory.oid}
    lo = max(k[1] for k in m0 if len(k) > 1 and isinstance(k[1], int))
    for k in changed_keys(m0, ctx.mem, lo):
        if k[0] == "field" or k[0] == "glob" and k[1] == "#upd" or k[0] == "loc":
            continue
        ok = k[0] in ("attr", "names") and (k[1] in own or k[1] == getattr(F, "oid", None)) or k[0] == "list" and k[1] == s.tracked.lid or is_gc(k)
        ctx.oblige(f"update changes only its own tracker ({k[0]} {k[-1] if isinstance(k[-1], str) else ''})", z3.BoolVal(ok))
    # nothing but the global ids depends on the global counter
    terms = [s.inT2(r), lift(ga(it, s.factory, "count")), lift(ga(it, s.factory, "initializing_count"))]
    for n in FIELDS:
        if n == "global_id":
            continue
        terms += value_terms(s.new(n, r))
    new = one_new(ctx, s)
    if new:
        terms.append(new[0].cond(d))
        for n in ("hit_counter", "age", "is_initializing", "id", "initializing_id", "reid_hit_counter", "last_distance"):
            terms += value_terms(new[1](d, n))
    for p in it.iter_seq(s.ret).parts:
        terms.append(p.dom.cond(z3.Const("#z", p.dom.sort)))
    terms += ctx.conds
    dep = [t for t in terms if is_sym(t) and mentions_const(t, s.gc)]
    ctx.oblige("nothing but global ids depends on the process-wide counter", z3.BoolVal(not dep))


def is_gc(k):
    return k[-1] == "global_count"


def value_terms(v):
    if v is None:
        return []
    if isinstance(v, Opt):
        return [b_(v.none)] + value_terms(v.val)
    if isinstance(v, RefObj):
        return [v.ref]
    if isinstance(v, Opaque):
        return [v.term] if v.term is not None else []
    if is_sym(v):
        return [v]
    return []


def mentions_const(t, g):
    from pyvc.loops import z3_mentions

    return z3_mentions(t, g)
