"""C13: past detections.  norfair.tracker.TrackedObject.{__init__,hit,merge,
_conditionally_add_to_past_detections}."""
from contracts.tracked import *
from pyvc.loops import hoare_for

P = Prop("C13", assumptions=["a detection handed to an object is not already among the object's past detections",
                             "object invariant assumed on entry and proved on exit of every method: at most the configured number of past detections, ordered by age, no age above the object's"])
COV = [TR + ".TrackedObject._conditionally_add_to_past_detections"]


def plen(ctx, it, o):
    l = ga(it, o, "past_detections")
    if not isinstance(l, ListObj):
        raise Unsupported("past_detections is not a list")
    return l, lift(it.seq_len(ctx.seq(l)))


def inv(ctx, it, o, L, age, what):
    """the object invariant on the current state"""
    l, n = plen(ctx, it, o)
    ctx.oblige(f"{what}: never more past detections than configured", n <= L)
    if not ctx.decide(n > 0):
        return
    u, v = ctx.fint("u", 0), ctx.fint("v", 0)
    ctx.assume(z3.And(u <= v, v < n))
    a = ga(it, it.get_item(l, u), "age")
    b = ga(it, it.get_item(l, v), "age")
    for x in (a, b):
        if isinstance(x, Opt):
            ctx.oblige(f"{what}: every past detection carries an age", neg(b_(x.none)))
    a, b = (x.val if isinstance(x, Opt) else x for x in (a, b))
    ctx.oblige(f"{what}: past detections are ordered by age", lift(a) <= lift(b))
    ctx.oblige(f"{what}: no stored age exceeds the object's age", z3.And(lift(b) <= lift(age), lift(a) >= 0))


def same_item(it, x, y):
    return b_(it.identical(x, y))


def addpost(ctx, it, s, obj, age0, what, n0=None, ref=None, ag=None):
    """the past detections after a new detection was offered at self.age"""
    l, n = plen(ctx, it, s.o)
    age = s.age
    dage = ga(it, obj, "age")
    n0, ref, ag = (s.npast, s.ref, s.ag) if n0 is None else (n0, ref, ag)
    unch = z3.Or(s.pdl == 0, z3.And(n0 == s.pdl, age < ag(ref(z0)) * s.pdl))
    D = cls(it, "Detection")
    if ctx.decide(unch):
        ctx.oblige(f"{what}: history unchanged when it may not be replaced yet (or none is kept)", n == n0)
        ctx.oblige(f"{what}: a detection that is not stored gets no age", b_(it.equal(dage, age0)))
        if ctx.decide(z3.And(n > 0, n == n0)):
            u = ctx.fint("u", 0)
            ctx.assume(u < n)
            it_u = it.get_item(l, u)
            ctx.oblige(f"{what}: unchanged history keeps its detections", same_item(it, it_u, RefObj(D, ref(u))))
            ctx.oblige(f"{what}: unchanged history keeps its ages", eqv(it, ga(it, it_u, "age"), ag(ref(u))))
        return
    room = ctx.decide(n0 < s.pdl)
    k = z3.IntVal(0) if room else z3.IntVal(1)
    ctx.oblige(f"{what}: the detection is stored, replacing the oldest only when there is no room", n == n0 - k + 1)
    if not ctx.decide(n == n0 - k + 1):
        return
    last = it.get_item(l, n - 1)
    ctx.oblige(f"{what}: the new detection is the newest", b_(it.identical(last, obj)))
    ctx.oblige(f"{what}: it carries the object's age", eqv(it, dage, age))
    if ctx.decide(n > 1):
        u = ctx.fint("u", 0)
        ctx.assume(u < n - 1)
        x = it.get_item(l, u)
        ctx.oblige(f"{what}: the others are kept in order", same_item(it, x, RefObj(D, ref(u + k))))
        ctx.oblige(f"{what}: the others keep their ages", eqv(it, ga(it, x, "age"), ag(ref(u + k))))


@P.unit("TrackedObject._conditionally_add_to_past_detections: functional", covers=COV, extra=ext.all_models)
def add(ctx, it):
    s = arbitrary(ctx, it, 2)
    det = detection(ctx, it, 2, s.n, scores=0)
    det.age = ga(it, det.obj, "age")
    it.depth = 1
    it.call(it.get_attr(s.o, "_conditionally_add_to_past_detections"), [det.obj], {})
    addpost(ctx, it, s, det.obj, det.age, "store")
    unchanged(ctx, it, s, SCALARS, "storing a detection")


@P.unit("TrackedObject._conditionally_add_to_past_detections: invariant", covers=COV, extra=ext.all_models)
def add_inv(ctx, it):
    s = arbitrary(ctx, it, 2)
    det = detection(ctx, it, 2, s.n, scores=0)
    it.depth = 1
    it.call(it.get_attr(s.o, "_conditionally_add_to_past_detections"), [det.obj], {})
    inv(ctx, it, s.o, s.pdl, s.age, "store")


@P.unit("TrackedObject.hit: past detections", covers=[TR + ".TrackedObject.hit"] + COV, extra=ext.all_models)
def hit(ctx, it):
    s = arbitrary(ctx, it, 2)
    det = detection(ctx, it, 2, s.n)
    det.age = ga(it, det.obj, "age")
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [det.obj], {"period": ctx.fint("period", 1)})
    addpost(ctx, it, s, det.obj, det.age, "match")


@P.unit("TrackedObject.hit: invariant", covers=[TR + ".TrackedObject.hit"] + COV, extra=ext.all_models)
def hit_inv(ctx, it):
    s = arbitrary(ctx, it, 2)
    det = detection(ctx, it, 2, s.n)
    it.depth = 1
    it.call(it.get_attr(s.o, "hit"), [det.obj], {"period": ctx.fint("period", 1)})
    inv(ctx, it, s.o, s.pdl, s.age, "match")


@P.unit("TrackedObject.tracker_step: past detections", covers=[TR + ".TrackedObject.tracker_step"], extra=ext.all_models)
def step(ctx, it):
    s = arbitrary(ctx, it, 2)
    it.depth = 1
    it.call(it.get_attr(s.o, "tracker_step"), [], {})
    l, n = plen(ctx, it, s.o)
    ctx.oblige("an update without a match keeps the history", n == s.npast)
    inv(ctx, it, s.o, s.pdl, ga(it, s.o, "age"), "step")
    if ctx.decide(z3.And(n > 0, n == s.npast)):
        u = ctx.fint("u", 0)
        ctx.assume(u < n)
        x = it.get_item(l, u)
        ctx.oblige("step keeps the detections", same_item(it, x, RefObj(cls(it, "Detection"), s.ref(u))))
        ctx.oblige("step keeps their ages", eqv(it, ga(it, x, "age"), s.ag(s.ref(u))))


@P.unit("creation: past detections", covers=[TR + ".TrackedObject.__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    l, n = plen(ctx, it, s.o)
    ctx.oblige("a new object remembers its first detection, unless none are kept", n == z3.If(s.pdl > 0, z3.IntVal(1), z3.IntVal(0)))
    if ctx.decide(n > 0):
        ctx.oblige("the first detection is remembered", b_(it.identical(it.get_item(l, 0), s.det.obj)))
        ctx.oblige("the first detection is stored at age 0", z3.And(eqv(it, ga(it, s.det.obj, "age"), 0), eqv(it, ga(it, s.o, "age"), 0)))
    ctx.oblige("the configured number is kept", eqv(it, ga(it, s.o, "past_detections_length"), s.pdl))
    inv(ctx, it, s.o, s.pdl, ga(it, s.o, "age"), "creation")


@P.unit("TrackedObject.merge: past detections", covers=[TR + ".TrackedObject.merge"] + COV, extra=ext.all_models)
def merge(ctx, it):
    s = arbitrary(ctx, it, 2)
    o = arbitrary(ctx, it, 2, n=s.n, factory=s.factory)
    key = ("field", "Detection", "age")
    u, w = z3.Int("#u"), z3.Int("#w")
    # the two histories share no detection; o's invariant was stated on its own age map
    m1, m2 = s.ag, o.ag
    inS = lambda r: z3.Exists([u], z3.And(u >= 0, u < s.npast, s.ref(u) == r))
    own = ctx.fresh_fn("owner", [Ref], B)
    ctx.forall([u], z3.Implies(z3.And(u >= 0, u < s.npast), own(s.ref(u))))
    ctx.forall([u], z3.Implies(z3.And(u >= 0, u < o.npast), z3.Not(own(o.ref(u)))))
    ctx.mem[key] = FMap(lambda r: z3.If(own(r), m1(r), m2(r)))
    D = cls(it, "Detection")
    lkey = ("list", s.past.lid)

    def havoc():
        n = ctx.fint("n_inv", 0)
        ctx.assume(n <= s.pdl)
        ref = ctx.fresh_fn("ref_inv", [I], Ref)
        ag = ctx.fresh_fn("age_inv", [Ref], I)
        a, b = z3.Int("#u"), z3.Int("#v")
        ctx.forall([a, b], z3.Implies(z3.And(a >= 0, b < n, a <= b), ag(ref(a)) <= ag(ref(b))))
        ctx.forall([a], z3.Implies(z3.And(a >= 0, a < n), z3.And(ag(ref(a)) >= 0, ag(ref(a)) <= s.age)))
        ctx.forall([a, b], z3.Implies(z3.And(a >= 0, b < n, a < b), ref(a) != ref(b)))
        # the candidate's remaining detections are not in the object's history yet
        cur = ctx.fresh("cur", Ref)
        state.cur = cur
        ctx.mem[key] = FMap(lambda r: ag(r))
        ctx.mem[("attr", s.o.oid, "past_detections")] = s.past
        ctx.mem[lkey] = SeqVal([SymPart(Dom.dense(n), lambda i: RefObj(D, ref(i)))])
        state.n, state.ref, state.ag = n, ref, ag

    state = State()

    def rule(it2, part, body, node):
        d = part.dom
        if d.n is None or not (is_sym(d.n) and d.n.eq(o.npast)):
            return False

        def body2(v):
            if not isinstance(v, RefObj):
                raise Unsupported("merge loops over something else")
            a = z3.Int("#u")
            # distinct histories (precondition), an element not yet visited
            ctx.forall([a], z3.Implies(z3.And(a >= 0, a < state.n), state.ref(a) != v.ref))
            old = ga(it, v, "age")
            body(v)
            addpost(ctx, it, s, v, old, "merged history", state.n, state.ref, state.ag)

        hoare_for(it2, part, body2, lambda what: inv(ctx, it, s.o, s.pdl, s.age, "merge loop invariant " + what), havoc,
                  lambda k: k in (key, lkey, ("attr", s.o.oid, "past_detections")))
        return True

    it.for_rules = [rule]
    it.depth = 1
    it.call(it.get_attr(s.o, "merge"), [o.o], {})
    inv(ctx, it, s.o, s.pdl, ga(it, s.o, "age"), "re-identification")
    ctx.oblige("re-identification keeps the object's age", eqv(it, ga(it, s.o, "age"), s.age))
