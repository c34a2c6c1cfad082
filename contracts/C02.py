"""C02: hit counters and lifetime.  norfair.tracker.TrackedObject.{__init__,
tracker_step,hit,merge}."""
from contracts.objmethods import *

P = Prop("C02", assumptions=["period >= 1", "0 <= initialization_delay < hit_counter_max (C25 proves the constructor enforces it)",
                             "object invariant assumed on entry and proved on exit of every method: an object still initialising has not exceeded the delay"])
COV = TR + ".TrackedObject."


def ininv(ctx, it, s, what):
    hc = lift(ga(it, s.o, "hit_counter"))
    ini = b_(it.truth_sym(ga(it, s.o, "is_initializing")))
    ctx.oblige(f"{what}: an object whose counter exceeds the delay is initialised", z3.Implies(hc > s.delay, z3.Not(ini)))


@P.unit("TrackedObject.tracker_step: counters", covers=[COV + "tracker_step", COV + "hit_counter_is_positive", COV + "reid_hit_counter_is_positive"], extra=ext.all_models)
def step(ctx, it):
    s = run_step(ctx, it)
    hc, age, rhc = p_step(s.hc, s.age, optpair(s.rhc), optpair(s.rmax))
    ctx.oblige("an update lowers the hit counter by one", eqv(it, ga(it, s.o, "hit_counter"), hc))
    ctx.oblige("an update ages the object by one frame", eqv(it, ga(it, s.o, "age"), age))
    opteq(ctx, "the re-identification countdown starts when the counter runs out and is lowered once per update", ga(it, s.o, "reid_hit_counter"), rhc)
    unchanged(ctx, it, s, KEPT + ["is_initializing", "id", "global_id"], "an update")
    ininv(ctx, it, s, "update")
    ctx.oblige("the filter is advanced exactly once", z3.BoolVal(ctx.mem.get(("glob", "#filter", "predicts"), 0) == 1
                                                                 and not ctx.mem.get(("glob", "#filter", "updates"))))
    ctx.oblige("hit_counter_is_positive means not negative", b_(it.truth_sym(it.get_attr(s.o, "hit_counter_is_positive"))) == (hc >= 0))
    ctx.oblige("reid_hit_counter_is_positive means no countdown or not negative",
               b_(it.truth_sym(it.get_attr(s.o, "reid_hit_counter_is_positive"))) == z3.Or(rhc[0], rhc[1] >= 0))


@P.unit("TrackedObject.hit: counters", covers=[COV + "hit"], extra=ext.all_models)
def hit(ctx, it):
    s = run_hit(ctx, it)
    h, ini, gets = p_hit(s.hc, s.init, s.period, s.hcm, s.delay)
    ctx.oblige("a match raises the counter by twice the period, not above the maximum", eqv(it, ga(it, s.o, "hit_counter"), h))
    ctx.oblige("initialised exactly when the counter first exceeds the delay, never back", b_(it.truth_sym(ga(it, s.o, "is_initializing"))) == ini)
    unchanged(ctx, it, s, KEPT + ["age"], "a match")
    opteq(ctx, "a match cancels the countdown", ga(it, s.o, "reid_hit_counter"), (z3.BoolVal(True), z3.IntVal(0)))
    ininv(ctx, it, s, "match")


@P.unit("TrackedObject.merge: counters", covers=[COV + "merge"], extra=ext.all_models)
def merge(ctx, it):
    s = run_merge(ctx, it)
    h, ini, gets = p_merge(s.init, s.period0, s.delay)
    ctx.oblige("a re-identified object restarts at twice the period it was created with", eqv(it, ga(it, s.o, "hit_counter"), h))
    ctx.oblige("re-identification initialises exactly the objects whose counter now exceeds the delay", b_(it.truth_sym(ga(it, s.o, "is_initializing"))) == ini)
    unchanged(ctx, it, s, KEPT + ["age"], "re-identification")
    opteq(ctx, "re-identification cancels the countdown", ga(it, s.o, "reid_hit_counter"), (z3.BoolVal(True), z3.IntVal(0)))
    ininv(ctx, it, s, "re-identification")


@P.unit("creation: counters", covers=[COV + "__init__", TR + "._TrackedObjectFactory.create"], extra=ext.all_models)
def create(ctx, it):
    s = creation(ctx, it)
    ctx.oblige("a new object has age 0", eqv(it, ga(it, s.o, "age"), 0))
    ctx.oblige("its counter equals the period", eqv(it, ga(it, s.o, "hit_counter"), s.period))
    ctx.oblige("the creation period is remembered", eqv(it, ga(it, s.o, "initial_period"), s.period))
    ctx.oblige("it is initialised exactly if the counter exceeds the delay", b_(it.truth_sym(ga(it, s.o, "is_initializing"))) == (s.period <= s.delay))
    ctx.oblige("the configured maximum is kept", eqv(it, ga(it, s.o, "hit_counter_max"), s.hcm))
    ctx.oblige("the configured delay is kept", eqv(it, ga(it, s.o, "initialization_delay"), s.delay))
    opteq(ctx, "no countdown is running", ga(it, s.o, "reid_hit_counter"), (z3.BoolVal(True), z3.IntVal(0)))
    opteq(ctx, "the configured countdown is kept", ga(it, s.o, "reid_hit_counter_max"), optpair(s.rmax))
    ininv(ctx, it, s, "creation")


from contracts.updprops import *

P.unit("Tracker.update: counters and lifetimes", covers=COVU, extra=ext.all_models)(lifetimes)
P.unit("Tracker.update without a period, which is then one", covers=COVU, extra=ext.all_models)(
    lambda ctx, it: lifetimes(ctx, it, omit_period=True, reid=0, reidd=False, coords=False))
uoip_units(P)
