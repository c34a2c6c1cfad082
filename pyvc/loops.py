"""Loops over symbolic sequences.

A loop `for x in S: body` over an index set D is summarised by executing the
body once for a generic element g of D on the state at the start of an
arbitrary iteration, and turning its effects into effects quantified over D:
  - object fields and array cells written at locations determined by g;
  - list appends (a filtered copy of D), list removals, events;
  - counters x += c;
  - anything else that is carried from one iteration to the next is havocked,
    constrained only by the invariants the contract of the function supplies
    (assumed at the start, obliged to hold again at the end of an iteration).
Side obligations (proved by the solver, otherwise Unsupported): iterations do
not read or write what another iteration writes.
"""
import z3

from .core import *
from .interp import BreakSig, CarriedRead, ContinueSig, ReturnSig

SKIP = object()


class LoopRec:
    def __init__(self, marks):
        self.access = []
        self.entries = {}
        self.marks = marks


class LoopContentRead(Unsupported):
    def __init__(self, key):
        super().__init__(f"content of array {key} read in the loop that modifies it")
        self.key = key


def loop_content(key, sorts):
    def base(*ix):
        raise LoopContentRead(key)

    return Content(base, (), sorts)


def freeze(ctx, v, born):
    """Make a value created inside an iteration independent of ctx.mem."""
    if isinstance(v, tuple):
        return tuple(freeze(ctx, x, born) for x in v)
    if isinstance(v, Opt):
        return Opt(v.none, freeze(ctx, v.val, born))
    if isinstance(v, NDArr):
        if v.sid in born or v.ro or v.frozen is not None:
            s = v.snap(ctx)
            return NDArr(v.shape, v.dtype, v.sid, ro=True, frozen=s)
        return v
    if isinstance(v, ListObj) and v.lid in born:
        return FrozenList(freeze_seq(ctx, ctx.seq(v), born))
    if isinstance(v, SeqVal):
        return freeze_seq(ctx, v, born)
    if isinstance(v, TupleLike):
        return TupleLike(freeze_seq(ctx, v.seq, born))
    if isinstance(v, Obj) and v.oid in born:
        names = ctx.mem.get(("names", v.oid), ())
        vals = {n: freeze(ctx, ctx.mem[("attr", v.oid, n)], born) for n in names if ("attr", v.oid, n) in ctx.mem}
        return FrozenObj(v.cls, v.oid, vals.__getitem__, tuple(vals))
    if isinstance(v, DictObj) and v.did in born:
        raise Unsupported("dict created in a loop escapes")
    return v


def freeze_seq(ctx, s, born):
    out = []
    for p in s.parts:
        if isinstance(p, Items):
            out.append(Items([freeze(ctx, x, born) for x in p.items]))
        elif isinstance(p, SymPart):
            out.append(p)
        else:
            raise Unsupported("freeze of a list under construction")
    return SeqVal(out)


class Born:
    """ids allocated after a point"""

    def __init__(self, lo):
        self.lo = lo

    def __contains__(self, k):
        return k > self.lo


class CompEffects(Unsupported):
    """the element expression changes state that outlives the iteration"""


def comp_bulk(it, part, one, fid=None):
    """Comprehension over one symbolic part -> list of parts."""
    ctx = it.ctx
    dom = part.dom
    g = ctx.instantiate(dom)
    born = Born(ctx.idc)

    def fn():
        ctx.gen.append(g)
        ctx.assume_in(dom, g)
        r = one(part.val(g))
        if r is SKIP:
            return SKIP
        c = r.concrete()
        if c is None or len(c) > 1:
            raise Unsupported("nested symbolic comprehension")
        if not c:
            return SKIP
        return freeze(ctx, c[0], born)

    mem0 = ctx.mem
    results = ctx.explore(fn)
    for r in results:
        for k in changed_keys(mem0, r.mem, born.lo):
            if fid is not None and k[0] == "loc" and k[1] == fid:
                continue
            raise CompEffects(f"comprehension with side effects on {k}")
    exits = [r for r in results if r.outcome[0] == "raise"]
    oks = [r for r in results if r.outcome[0] == "ok"]
    export_facts(ctx, dom, g, results)
    if exits:
        handle_exits(it, dom, g, exits, lambda w: one(part.val(w)))
    keep = [r for r in oks if r.outcome[1] is not SKIP]
    if not keep:
        return []
    if len(keep) == len(oks):
        ndom = dom
    else:
        ndom = dom.sub(subst_cond(g, disj(*[conj(*r.conds) for r in keep])))
    val = merge_results(ctx, g, [(conj(*r.conds), r.outcome[1]) for r in keep])
    return [SymPart(ndom, val)]


def subst_cond(g, c):
    return lambda i: c if i.eq(g) else z3.substitute(c, (g, i))


def merge_results(ctx, g, cvs):
    """cvs: [(cond(g), value(g))], exclusive -> val(i)."""
    v = cvs[-1][1]
    for c, w in reversed(cvs[:-1]):
        v = merge_frozen(ctx, c, w, v)

    def val(i):
        return v if i.eq(g) else subst_value(ctx, v, [(g, i)])

    return val


def merge_frozen(ctx, c, a, b):
    if isinstance(a, NDArr) and isinstance(b, NDArr):
        if a is b:
            return a
        if a.ndim != b.ndim or not all(ctx.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            raise Unsupported("merge of arrays of different shapes")
        fa, fb = a.snap(ctx), b.snap(ctx)
        return NDArr(a.shape, a.dtype if a.dtype == b.dtype else "f", a.sid, ro=True, frozen=lambda *ix: ite(c, fa(*ix), fb(*ix)))
    if isinstance(a, FrozenObj) and isinstance(b, FrozenObj) and a.cls is b.cls and set(a.names) == set(b.names):
        vals = {n: merge_frozen(ctx, c, a.attr(n), b.attr(n)) for n in a.names}
        return FrozenObj(a.cls, a.oid, vals.__getitem__, a.names)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_frozen(ctx, c, x, y) for x, y in zip(a, b))
    return merge_value(ctx, c, a, b)


def changed_keys(m0, m1, lo):
    out = []
    for k, v in m1.items():
        if k in m0:
            if m0[k] is not v and not same_val(m0[k], v):
                out.append(k)
        else:
            # created during the iteration?
            if k[0] in ("loc", "attr", "list", "dict", "arr", "names", "set") and isinstance(k[1], int) and k[1] > lo:
                continue
            out.append(k)
    for k in m0:
        if k not in m1:
            out.append(k)
    return out


def same_val(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    if type(a) is type(b) and isinstance(a, (int, float, str, bool, type(None))):
        return a == b
    if isinstance(a, (Obj, ListObj, DictObj)):
        return type(a) is type(b) and a == b
    if isinstance(a, RefObj) and isinstance(b, RefObj):
        return a.cls is b.cls and a.ref.eq(b.ref)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(x is y or same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, NDArr) and isinstance(b, NDArr):
        return a is b
    if isinstance(a, FMap) and isinstance(b, FMap):
        return a.base is b.base and len(a.ups) == len(b.ups) and all(x is y for x, y in zip(a.ups, b.ups))
    return False


def export_facts(ctx, dom, g, results):
    """Facts assumed about symbols introduced in a generic iteration hold in
    every iteration that takes the path."""
    for r in results:
        guard = conj(dom.cond(g), *r.conds)
        own = [f for f in r.facts if not f.eq(dom.cond(g))]
        if own:
            ctx.forall([g], z3.Implies(guard, conj(*own)))
        for a in r.axioms:
            ctx.forall([g], z3.Implies(guard, a))


def handle_exits(it, dom, g, exits, rerun, marks=None):
    """Decide whether some iteration leaves the loop.  Returns the first such
    element, or None after recording that there is none."""
    ctx = it.ctx
    ex = disj(*[conj(*r.conds) for r in exits])
    exf = subst_cond(g, ex)
    e = ctx.exists([dom], exf, "exit")
    if ctx.decide(e):
        w = ctx.fresh("first", dom.sort)
        ctx.assume_in(dom, w)
        ctx.assume(exf(w))
        v = z3.Const("#b", dom.sort)
        ctx.forall([v], z3.Implies(conj(dom.cond(v), before(v, w)), neg(exf(v))))
        if marks is not None:
            return w
        rerun(w)
        raise Infeasible()
    ctx.dom_facts.append((dom, lambda i: neg(exf(i))))
    v = z3.Const("#b", dom.sort)
    ctx.forall([v], z3.Implies(dom.cond(v), neg(exf(v))))
    return None


def before(a, b):
    if a.sort() == z3.IntSort():
        return a < b
    f = z3.Function("before_" + a.sort().name(), a.sort(), a.sort(), z3.BoolSort())
    return f(a, b)


class Iter:
    """Outcome of the body on one path."""

    def __init__(self, sig, val, rec):
        self.sig, self.val, self.rec = sig, val, rec


def bulk(it, part, body, node=None):
    ctx = it.ctx
    dom = part.dom
    mem0 = ctx.mem
    lo = ctx.idc
    born = Born(lo)
    marks = {}  # key -> strategy object
    for attempt in range(12):
        g = ctx.instantiate(dom)

        def fn():
            rec = LoopRec(marks)
            ctx.gen.append(g)
            ctx.assume_in(dom, g)
            for k, m in marks.items():
                m.entry = None
                m.enter(ctx, g)
                rec.entries[k] = m.entry
            ctx.loops.append(rec)
            try:
                body(part.val(g))
                out = Iter("ok", None, rec)
            except BreakSig:
                out = Iter("break", None, rec)
            except ReturnSig as r:
                out = Iter("return", r.value, rec)
            except PyRaise as e:
                out = Iter("raise", e, rec)
            if out.sig == "ok":
                for k, m in marks.items():
                    m.leave(ctx, g)
            return out

        try:
            results = ctx.explore(fn)
        except CarriedRead as e:
            k = e.key
            if k in marks and marks[k].upgrade(it, mem0, dom):
                continue
            if k not in marks:
                raise
            raise Unsupported(str(e))
        except LoopContentRead as e:
            if e.key in marks and marks[e.key].upgrade(it, mem0, dom):
                continue
            raise
        # explorations are cached: take what the iteration started from from its record
        for k, m in marks.items():
            if isinstance(m, ScalarMark) and m.mode == "acc":
                m.cur = next((r.outcome[1].rec.entries[k] for r in results if r.outcome[0] == "ok"), None)
        # stable?
        new = []
        for r in results:
            base = mem0 if not marks else None
            for k in r.mem:
                if k in mem0:
                    if k in marks:
                        continue
                    if mem0[k] is not r.mem[k] and not same_val(mem0[k], r.mem[k]):
                        new.append(k)
                else:
                    if isinstance(k[1] if len(k) > 1 else None, int) and k[1] > lo:
                        continue
                    if k not in marks:
                        new.append(k)
            for k in mem0:
                if k not in r.mem and k not in marks and k[0] != "loc":
                    new.append(k)
        new = [k for k in dict.fromkeys(new) if k[0] != "names" or isinstance(k[1], int) and k[1] <= lo]
        if not new:
            ok = [r for r in results if r.outcome[0] == "ok" and r.outcome[1].sig == "ok"]
            if any([m.regrow(it, ok, dom, g) for m in marks.values()]):
                continue
            break
        for k in new:
            marks[k] = make_mark(it, k, mem0)
    else:
        raise Unsupported("loop analysis did not stabilise")

    normal = [r for r in results if r.outcome[0] == "ok" and r.outcome[1].sig == "ok"]
    exits = [r for r in results if not (r.outcome[0] == "ok" and r.outcome[1].sig == "ok")]
    export_facts(ctx, dom, g, results)
    w = None
    edom = dom
    if exits:
        w = handle_exits(it, dom, g, exits, None, marks=marks)
        if w is not None:
            edom = dom.sub(lambda i: before(i, w))
    interference(ctx, dom, g, results)
    post = {}
    for k, m in marks.items():
        m.finish(it, edom, dom, g, normal, mem0, post, w)
    for k, v in post.items():
        if v is DEL:
            ctx.mem.pop(k, None)
        else:
            ctx.mem[k] = v
    if w is not None:
        # the exiting iteration, executed for real
        body(part.val(w))
        raise Infeasible()


DEL = object()


def interference(ctx, dom, g, results):
    g2 = z3.Const(str(g) + "'", g.sort())
    acc = {}
    for r in results:
        if r.outcome[0] != "ok":
            continue
        for key, ref, rw in r.outcome[1].rec.access:
            acc.setdefault(key, []).append((ref, rw, conj(*r.conds), r.facts))
    for key, lst in acc.items():
        writes = []
        for (ref, rw, c, f) in lst:
            if rw == "w" and not any(w[0].eq(ref) and w[1].eq(c) for w in writes):
                writes.append((ref, c))
        if not writes:
            continue
        done = set()
        for ref, rw, c, f in lst:
            for wref, wc in writes:
                sig = (ref.get_id(), wref.get_id(), c.get_id(), wc.get_id())
                if sig in done:
                    continue
                done.add(sig)
                if ref.eq(wref) and injective(ctx, ref, g):
                    continue
                w2 = z3.substitute(wref, (g, g2))
                wc2 = z3.substitute(wc, (g, g2))
                goal = z3.ForAll([g, g2], z3.Implies(conj(dom.cond(g), dom.cond(g2), c, wc2, g != g2), ref != w2))
                if not ctx.side(f"iterations of a loop do not interfere on {key}", goal):
                    raise Unsupported(f"iterations may interfere on {key}")


def injective(ctx, ref, g):
    return ref.eq(g) or (find_inverse(ctx, ref, g) is not None)


def find_inverse(ctx, t, g):
    """If t = f(..., g) with a registered inverse: (inv, rangepred)."""
    for f, inv, rng in getattr(ctx.eng, "inverses", []):
        if z3.is_app(t) and t.decl().eq(f) and t.num_args() == 1 and t.arg(0).eq(g):
            return inv, rng
    return None


def point_to_bulk(ctx, dom, g, conds, ref):
    """Turn 'for g in dom with conds: at ref(g)' into (cond(r), sub(r))."""
    if ref.eq(g):
        return (lambda r: subst1(conj(dom.cond(g), *conds), g, r)), (lambda r: r)
    fi = find_inverse(ctx, ref, g)
    if fi is not None:
        inv, rng = fi
        return (lambda r: conj(rng(r), subst1(conj(dom.cond(g), *conds), g, inv(r)))), (lambda r: inv(r))
    if not z3_mentions(ref, g):
        # same location in every iteration: only sound when at most one
        raise Unsupported("loop writes the same location in several iterations")
    # fresh inverse; injectivity was a side obligation of `interference`
    W = ctx.fresh_fn("Wr", [ref.sort()], z3.BoolSort())
    inv = ctx.fresh_fn("inv", [ref.sort()], g.sort())
    full = conj(dom.cond(g), *conds)
    ctx.forall([g], z3.Implies(full, conj(W(ref), inv(ref) == g)))
    r0 = z3.Const("#r", ref.sort())
    ctx.forall([r0], z3.Implies(W(r0), conj(subst1(full, g, inv(r0)), subst1(ref, g, inv(r0)) == r0)))
    return (lambda r: W(r)), (lambda r: inv(r))


def z3_uses(t, decl):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(decl):
            return True
        stack.extend(x.children())
    return False


def subst1(t, g, r):
    return t if r.eq(g) else z3.substitute(t, (g, r))


def z3_mentions(t, g):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(g):
            return True
        stack.extend(x.children())
    return False


def make_mark(it, k, mem0):
    kind = k[0]
    if kind == "field":
        return FieldMark(k)
    if kind == "arr":
        return ArrMark(k)
    if kind == "list":
        return ListMark(k)
    if kind == "trace":
        return TraceMark(k)
    if kind == "names":
        return NamesMark(k)
    if kind == "dict":
        return DictMark(k)
    return ScalarMark(k)


class Mark:
    def __init__(self, key):
        self.key = key

    def enter(self, ctx, g):
        pass

    def leave(self, ctx, g):
        pass

    def upgrade(self, it, mem0, dom):
        return False

    def regrow(self, it, normal, dom, g):
        """Change of strategy after seeing the iterations; True: run again."""
        return False


class NamesMark(Mark):
    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        names = mem0.get(self.key, ())
        for r in normal:
            for n in r.mem.get(self.key, ()):
                if n not in names:
                    names = names + (n,)
        post[self.key] = names


class FieldMark(Mark):
    def enter(self, ctx, g):
        cur = ctx.mem[self.key]
        self.entry = cur
        ctx.mem[self.key] = FMap(lambda r: cur.get(ctx, r))

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        fm = mem0[self.key]
        for r in normal:
            d = r.mem[self.key]
            for u in d.ups:
                if u[0] != "pt":
                    raise Unsupported("nested bulk update of a field")
                cond, sub = point_to_bulk(ctx, edom, g, r.conds, u[1])
                v = u[2]
                fm = fm.bulk(cond, lambda ref, v=v, sub=sub: subst_value(ctx, v, [(g, sub(ref))]))
        post[self.key] = fm


class ArrMark(Mark):
    """In-place array updates."""

    mode = "mark"

    def enter(self, ctx, g):
        if self.mode == "own":
            entry = ctx.mem[self.key]
            # cells may be read before they are written by this iteration;
            # justified by the elimination in finish (each cell belongs to one
            # iteration) together with own_read below
            ctx.mem[self.key] = Content(entry, (), entry.sorts)
        else:
            ctx.mem[self.key] = loop_content(self.key, ctx.mem[self.key].sorts)

    def upgrade(self, it, mem0, dom):
        return False

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        c = mem0[self.key]
        axes = set()
        for r in normal:
            for sel, val in r.mem[self.key].ups:
                c, ax = bulk_content(ctx, edom, g, r.conds, sel, val, c, self.key)
                axes.add(ax)
        if len(axes) > 1:
            raise Unsupported("array cells written by several patterns in a loop")
        post[self.key] = c


def bulk_content(ctx, dom, g, conds, sel, val, c, key):
    sorts = c.sorts
    if sorts is None:
        raise Unsupported("array update without a selector signature")
    vs = [z3.Const(f"#x{k}_{ctx.eng.uid()}", s) for k, s in enumerate(sorts)]
    full = conj(dom.cond(g), *conds, b_(sel(*vs)))
    hit = None
    for t in (full.children() if z3.is_and(full) else [full]):
        if z3.is_eq(t):
            for k, v in enumerate(vs):
                for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if a.eq(v) and b.eq(g):
                        hit = (k, v)
                    elif a.eq(v) and z3.is_app(b) and b.num_args() == 1 and b.arg(0).eq(g) and find_inverse(ctx, b, g):
                        hit = (k, find_inverse(ctx, b, g)[0](v))
            if hit:
                break
    if hit is None:
        # g is determined by the cell: g == term over the cell's indices
        for t in (full.children() if z3.is_and(full) else [full]):
            if z3.is_eq(t) and t.arg(0).sort() == g.sort():
                for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                    if a.eq(g) and not z3_mentions(b, g) and any(z3_mentions(b, v) for v in vs):
                        hit = (0, b)
            if hit:
                break
    if hit is not None:
        k, sub = hit

        def sel2(*ix):
            return z3.substitute(z3.substitute(full, (g, sub)), *list(zip(vs, ix)))

        def val2(*ix):
            s = z3.substitute(sub, *list(zip(vs, ix)))
            return subst_value(ctx, val(*ix), [(g, s)])

        return c.upd(sel2, val2), ("axis", k, str(sub))
    # general case: a pick function, sound if the cell is written by one iteration only
    g2 = z3.Const(str(g) + "'", g.sort())
    goal = z3.ForAll([g, g2] + vs, z3.Implies(conj(full, z3.substitute(full, (g, g2))), g == g2))
    if not ctx.side(f"each array cell is written by one iteration", goal):
        raise Unsupported("array cells may be written by several iterations")
    P = ctx.fresh_fn("Wc", sorts, z3.BoolSort())
    pick = ctx.fresh_fn("pick", sorts, g.sort())
    ctx.forall([g] + vs, z3.Implies(full, conj(P(*vs), pick(*vs) == g)))
    ctx.forall(vs, z3.Implies(P(*vs), z3.substitute(full, (g, pick(*vs)))), pats=[P(*vs)])

    def sel3(*ix):
        return P(*ix)

    def val3(*ix):
        return subst_value(ctx, val(*ix), [(g, pick(*ix))])

    return c.upd(sel3, val3), ("pick", str(P))


class ListMark(Mark):
    def enter(self, ctx, g):
        ctx.mem[self.key] = SeqVal([MarkPart(self.key)])

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        born = Born(self.lo(ctx, mem0))
        seq = mem0[self.key]
        apps, removed = [], []
        for r in normal:
            parts = r.mem[self.key].parts
            if not parts or not isinstance(parts[0], MarkPart):
                raise Unsupported("list rebuilt in a loop")
            for x in parts[0].removed:
                removed.append((conj(*r.conds), x))
            tail = parts[1:]
            if not tail:
                continue
            if len(tail) != 1 or not isinstance(tail[0], Items) or len(tail[0].items) != 1:
                raise Unsupported("several appends to a list per iteration")
            old = ctx.mem
            ctx.mem = r.mem
            try:
                v = freeze(ctx, tail[0].items[0], born)
            finally:
                ctx.mem = old
            apps.append((conj(*r.conds), v, r))
        if removed:
            seq = remove_bulk(ctx, seq, edom, g, removed)
        if apps:
            if removed:
                raise Unsupported("append and remove on one list in a loop")
            if len(apps) == len(normal):
                nd = edom
            else:
                nd = edom.sub(subst_cond(g, disj(*[a[0] for a in apps])))
            seq = SeqVal(seq.parts + (SymPart(nd, merge_results(ctx, g, [(a[0], a[1]) for a in apps])),))
        post[self.key] = seq

    def lo(self, ctx, mem0):
        return max([k[1] for k in mem0 if len(k) > 1 and isinstance(k[1], int)] + [0])


def remove_bulk(ctx, seq, dom, g, removed):
    """Remove from seq all elements equal to x(g), g in dom."""
    parts = []
    conds, rm = [], []
    for c, x in removed:
        if not isinstance(x, RefObj):
            raise Unsupported("list.remove of a non-object in a loop")
        full = conj(dom.cond(g), *dom.facts(g), c)
        conds.append(point_to_bulk(ctx, dom, g, [c], x.ref)[0])
        rm.append((full, x.ref))
    g2 = z3.Const(str(g) + "'", g.sort())
    for a, ra in rm:
        # every removed object is in the list when the loop starts, and no other iteration removes it
        ins = []
        for p in seq.parts:
            v = p.val(ra) if isinstance(p, SymPart) and p.dom.sort == ra.sort() else None
            if not isinstance(v, RefObj) or not v.ref.eq(ra):
                raise Unsupported("list.remove from a list that may hold duplicates")
            ins.append(p.dom.cond(ra))
        if not ctx.side("list.remove finds the object", z3.ForAll([g], z3.Implies(a, disj(*ins)))):
            raise Unsupported("list.remove of an object that may not be in the list")
        for b, rb in rm:
            if a.eq(b) and injective(ctx, ra, g):
                continue
            goal = z3.ForAll([g, g2], z3.Implies(conj(a, z3.substitute(b, (g, g2)), g != g2), ra != z3.substitute(rb, (g, g2))))
            if not ctx.side("no object is removed twice", goal):
                raise Unsupported("list.remove of one object in several iterations")
    for p in seq.parts:
        if isinstance(p, SymPart):
            def keep(i, p=p):
                v = p.val(i)
                if not isinstance(v, RefObj):
                    raise Unsupported("list.remove")
                return neg(disj(*[b_(c(v.ref)) for c in conds]))

            parts.append(SymPart(p.dom.sub(keep), p.val))
        else:
            raise Unsupported("list.remove from a concrete list in a loop")
    return SeqVal(parts)


class ForEach:
    """Events emitted by the iterations of a loop."""

    def __init__(self, dom, cond, items):
        self.dom, self.cond, self.items = dom, cond, items


class TraceMark(Mark):
    def enter(self, ctx, g):
        ctx.mem[self.key] = SeqVal([MarkPart(self.key)])

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        lo = ListMark.lo(self, ctx, mem0)
        born = Born(lo)
        alts = []
        for r in normal:
            parts = r.mem[self.key].parts
            if not parts or not isinstance(parts[0], MarkPart):
                raise Unsupported("trace rebuilt in a loop")
            tail = parts[1:]
            if not tail:
                continue
            old = ctx.mem
            ctx.mem = r.mem
            try:
                evs = []
                for p in tail:
                    if isinstance(p, Items):
                        evs.extend(freeze(ctx, x, born) for x in p.items)
                    else:
                        evs.append(("part", p))
            finally:
                ctx.mem = old
            alts.append((conj(*r.conds), tuple(evs)))
        seq = mem0.get(self.key, SeqVal())
        if alts:
            if len(alts) > 1:
                n = {len(a[1]) for a in alts}
                if len(n) > 1:
                    raise Unsupported("different numbers of events on different paths of a loop")
            nd = edom if len(alts) == len(normal) else edom.sub(subst_cond(g, disj(*[a[0] for a in alts])))

            def val(i):
                res = None
                for c, evs in reversed(alts):
                    e2 = tuple(subst_event(ctx, e, g, i) for e in evs)
                    res = e2 if res is None else merge_events(ctx, subst1(c, g, i), e2, res)
                return ("foreach", res)

            seq = SeqVal(seq.parts + (SymPart(nd, val),))
        post[self.key] = seq


def subst_event(ctx, e, g, i):
    if i.eq(g):
        return e
    if isinstance(e, tuple) and e and isinstance(e[0], str) and e[0] == "part":
        p = e[1]
        return ("part", SymPart(subst_dom(ctx, p.dom, [(g, i)]), lambda j: subst_event(ctx, p.val(j), g, i)))
    if isinstance(e, tuple):
        return tuple(subst_event(ctx, x, g, i) for x in e)
    return subst_value(ctx, e, [(g, i)])


def merge_events(ctx, c, a, b):
    out = []
    for x, y in zip(a, b):
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            out.append(tuple(p if p is q or (isinstance(p, str) and p == q) else merge_frozen(ctx, c, p, q) for p, q in zip(x, y)))
        else:
            raise Unsupported("merge of events")
    return tuple(out)


class DictMark(Mark):
    def enter(self, ctx, g):
        ctx.mem[self.key] = ({}, Poison("dict modified in a loop"))

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        raise Unsupported("dict modified in a loop")


class ScalarMark(Mark):
    """A variable or attribute of a concrete object assigned in the loop."""

    mode = "poison"
    real = False
    cur = None

    def enter(self, ctx, g):
        if self.mode == "poison":
            if self.key in ctx.mem or self.key[0] != "loc":
                ctx.mem[self.key] = Poison("assigned in the loop")
        elif self.mode == "acc":
            # an int that becomes a float in some iteration is a real number throughout
            self.cur = ctx.fresh("acc", z3.RealSort() if self.real or not isint(self.v0) else z3.IntSort())
            ctx.mem[self.key] = self.entry = self.cur
        elif self.mode == "havoc":
            ctx.mem[self.key] = self.entry_val = self.havoc(ctx, self.v0)
        elif self.mode == "grow":
            self.g_enter(ctx, g)

    # a matrix to which every iteration adds one row (an empty list stands for
    # no rows)
    width = gdtype = None

    def g_enter(self, ctx, g):
        first = isinstance(self.v0, ListObj)
        if first and ctx.decide(g == 0):
            ctx.mem[self.key] = self.v0
            return
        if self.width is None:  # learned from the first iteration
            raise Infeasible()
        from .npmodel import dim_sort

        rows = g if first else z3.simplify(lift(self.v0.shape[0]) + g)
        srt = z3.IntSort() if self.gdtype in ("i", "u8") else z3.RealSort()
        f = ctx.fresh_fn("rows", [z3.IntSort(), z3.IntSort()], srt)
        ctx.mem[self.key] = ctx.new_arr((rows, self.width), self.gdtype, f)
        self.entry = (rows, f(z3.IntVal(0), z3.IntVal(0)).decl(), f)

    def regrow(self, it, normal, dom, g):
        if self.mode == "acc" and self.cur is not None and self.cur.is_int():
            if any(is_num(v) and not isint(v) for v in (r.mem.get(self.key) for r in normal)):
                self.real = True
                return True
            return False
        if self.mode == "havoc" and isinstance(self.v0, NDArr) and self.v0.ndim == 2 and dom.n is not None:
            if all(compatible(it.ctx, self.v0, r.mem.get(self.key)) for r in normal):
                return False
            if is_sym(self.v0.shape[1]) or isinstance(self.v0.shape[1], Dom):
                return False
            self.mode, self.width, self.gdtype = "grow", self.v0.shape[1], self.v0.dtype
            return True
        if self.mode == "grow" and self.width is None:
            ws = {(r.mem[self.key].shape[1], r.mem[self.key].dtype) if isinstance(r.mem.get(self.key), NDArr) and r.mem[self.key].ndim == 2 else None for r in normal}
            if len(ws) != 1 or None in ws or is_sym(list(ws)[0][0]):
                raise Unsupported(f"loop-carried {self.key} changes its type")
            (self.width, self.gdtype), = ws
            return True
        return False

    def g_finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        k, first = self.key, isinstance(self.v0, ListObj)
        n = edom.n
        if n is None or dom.n is None:
            raise Unsupported(f"loop-carried {k} grows in some iterations")
        r0 = z3.IntVal(0) if first else lift(self.v0.shape[0])
        ri, ci = z3.Int("#row"), z3.Int("#col")
        rows = []
        for r in normal:
            nv = r.mem.get(k)
            if not isinstance(nv, NDArr) or nv.ndim != 2 or nv.dtype != self.gdtype:
                raise Unsupported(f"loop-carried {k} changes its type")
            m0, ctx.mem = ctx.mem, r.mem
            c = nv.snap(ctx)
            ctx.mem = m0
            hyp = conj(dom.cond(g), *r.conds, *r.facts)
            was = z3.simplify(r0 + g)
            if is_sym(nv.shape[1]) or nv.shape[1] != self.width or not ctx.side("the matrix grows by one row", z3.Implies(hyp, lift(nv.shape[0]) == was + 1)):
                raise Unsupported(f"loop-carried {k} changes its shape")
            at_start = r.outcome[1].rec.entries[k] is None
            if not at_start:
                old = r.outcome[1].rec.entries[k][2]
                goal = z3.Implies(conj(hyp, ri >= 0, ri < was, ci >= 0, ci < self.width), lift(c(ri, ci)) == old(ri, ci))
                if not ctx.side("earlier rows of the matrix are kept", goal):
                    raise Unsupported(f"loop-carried {k}: earlier rows change")
            val = [lift(c(was, z3.IntVal(j))) for j in range(self.width)]
            # the cell of the new row: resolve "row < was" tests
            out = []
            for t in val:
                s = z3.simplify(z3.substitute(t, (g, z3.IntVal(0))) if at_start else t)
                if not at_start and z3_uses(s, r.outcome[1].rec.entries[k][1]):
                    raise Unsupported(f"loop-carried {k}: the new row depends on earlier rows")
                out.append(s)
            rows.append((conj(*r.conds), out))

        def row(i, j):
            v = None
            for c, vals in reversed(rows):
                x = vals[-1]
                for q in range(self.width - 2, -1, -1):
                    x = ite(j == q, vals[q], x) if not z3.is_int_value(j) else x
                if z3.is_int_value(j):
                    x = vals[j.as_long()]
                x = subst1(lift(x), g, i)
                v = x if v is None else ite(subst1(c, g, i), x, v)
            return v

        if first:
            if not ctx.decide(lift(n) > 0):
                post[k] = self.v0
                return
            post[k] = ctx.new_arr((n, self.width), self.gdtype, lambda i, j: row(i, j))
            return
        m0, ctx.mem = ctx.mem, mem0
        base = self.v0.snap(ctx)
        ctx.mem = m0
        a = ctx.new_arr((z3.simplify(r0 + lift(n)), self.width), self.gdtype, lambda i, j: ite(i < r0, base(i, j), row(i - r0, j)))
        post[k] = a

    def havoc(self, ctx, v):
        if isinstance(v, bool) or is_bool_term(v):
            return ctx.fresh("hv", z3.BoolSort())
        if isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int()):
            return ctx.fresh("hv", z3.IntSort())
        if isinstance(v, float) or isinstance(v, z3.ArithRef):
            return ctx.fresh("hv", z3.RealSort())
        if isinstance(v, Opt):
            return Opt(ctx.fresh("hn", z3.BoolSort()), self.havoc(ctx, v.val))
        if isinstance(v, NDArr):
            from .npmodel import dim_sort

            s = {"f": z3.RealSort(), "f32": z3.RealSort(), "i": z3.IntSort(), "u8": z3.IntSort(), "b": z3.BoolSort()}.get(v.dtype)
            if s is None:
                raise Unsupported(f"havoc of array of {v.dtype}")
            f = ctx.fresh_fn("hva", [dim_sort(d) for d in v.shape], s)
            return ctx.new_arr(v.shape, v.dtype, f)
        raise Unsupported(f"loop-carried {self.key} of type {type(v).__name__}")

    def upgrade(self, it, mem0, dom):
        if self.key not in mem0:
            return False
        self.v0 = mem0[self.key]
        if isinstance(self.v0, Poison):
            return False
        if self.mode == "poison":
            if is_num(self.v0) and not isinstance(self.v0, bool):
                self.mode = "acc"
            elif isinstance(self.v0, ListObj) and dom.n is not None and it.ctx.seq(self.v0).concrete() == () and self.key[0] in ("attr", "loc", "glob"):
                self.mode = "grow"
            else:
                self.mode = "havoc"
            return True
        return False

    def finish(self, it, edom, dom, g, normal, mem0, post, w):
        ctx = it.ctx
        k = self.key
        if self.mode == "grow":
            return self.g_finish(it, edom, dom, g, normal, mem0, post, w)
        if self.mode == "havoc":
            hv = self.havoc(ctx, self.v0)
            for r in normal:
                nv = r.mem.get(k)
                if not compatible(ctx, self.v0, nv):
                    raise Unsupported(f"loop-carried {k} changes its type")
            # zero iterations keep the old value; the havocked value covers it
            post[k] = hv
            return
        if self.mode == "acc":
            if self.cur is None:  # no iteration is possible
                post[k] = self.v0
                return
            accs = []
            for r in normal:
                nv = r.mem.get(k)
                if not is_num(nv) or isint(self.cur) and not isint(nv):
                    raise Unsupported(f"loop-carried {k}")
                d = z3.simplify(to_real(nv) - to_real(self.cur), som=True) if not (is_sym(nv) and nv.eq(self.cur)) else z3.RealVal(0)
                accs.append((r, d))
            consts = []
            for r, d in accs:
                if z3.is_rational_value(d):
                    consts.append(d.as_fraction())
                else:
                    consts = None
                    break
            if consts is None:
                self.mode = "havoc"
                # general accumulation: unknown value
                post[k] = self.havoc(ctx, self.cur)
                return
            nz = {c for c in consts if c != 0}
            if len(nz) > 1:
                post[k] = self.havoc(ctx, self.cur)
                return
            isint_ = self.cur.is_int()
            v0 = lift(self.v0) if isint_ else to_real(self.v0)
            gargs = [x for x in ctx.gen]
            cur_fn = self.cur.decl()
            curat = lambda i: cur_fn(*gargs, i)
            if not nz:
                ctx.forall([g], z3.Implies(dom.cond(g), self.cur == v0))
                post[k] = self.v0
                return
            c = nz.pop()
            cz = (z3.IntVal(int(c)) if isint_ else z3.RealVal(c))
            inc = disj(*[conj(*r.conds) for r, d in zip([a[0] for a in accs], consts) if d != 0])
            incdom = edom.sub(subst_cond(g, inc)) if not all(x != 0 for x in consts) else edom
            rank, n = rank_fn(ctx, incdom, edom, g)
            num = (lambda t: t) if isint_ else z3.ToReal
            rel = self.cur == v0 + cz * num(rank(g))
            # holds for every element of the (effective) domain
            ctx.forall([g], z3.Implies(edom.cond(g), rel), pats=[self.cur])
            post[k] = z3.simplify(v0 + cz * num(lift(n)))
            return
        # poison: assigned before being read in every iteration
        vals = [(r, r.mem.get(k, DEL)) for r in normal]
        if k not in mem0:
            post[k] = Poison("value of the last iteration")
            if not vals:
                post.pop(k)
            return
        writers = [(r, v) for r, v in vals if not isinstance(v, Poison)]
        if not writers:
            post[k] = mem0[k]
            return
        if any(v is DEL for r, v in writers):
            post[k] = Poison("deleted in a loop")
            return
        v = writers[0][1]
        if all(same_val(v, x) for r, x in writers) and not mentions_value(v, g) and simple(v):
            if same_val(v, mem0[k]):
                post[k] = mem0[k]
                return
            cond = subst_cond(g, disj(*[conj(*r.conds) for r, x in writers]))
            e = ctx.exists([edom], cond, "set")
            post[k] = merge_value(ctx, e, v, mem0[k]) if mergeable(v, mem0[k]) else (v if ctx.decide(e) else mem0[k])
            return
        post[k] = Poison("value of the last iteration")


def mergeable(a, b):
    return (is_num(a) or isinstance(a, (bool, z3.BoolRef))) and (is_num(b) or isinstance(b, (bool, z3.BoolRef)))


def simple(v):
    return v is None or isinstance(v, (int, float, str, bool)) or is_sym(v)


def mentions_value(v, g):
    return is_sym(v) and z3_mentions(v, g)


def isint(v):
    return isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int()


def compatible(ctx, a, b):
    if isinstance(a, NDArr):
        return isinstance(b, NDArr) and a.ndim == b.ndim and a.dtype == b.dtype and all(ctx.same_dim(x, y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, bool) or is_bool_term(a):
        return isinstance(b, bool) or is_bool_term(b)
    if isinstance(a, int) or (isinstance(a, z3.ArithRef) and a.is_int()):
        return isinstance(b, int) or (isinstance(b, z3.ArithRef) and b.is_int())
    if isinstance(a, (float, z3.ArithRef)):
        return is_num(b)
    if isinstance(a, Opt):
        return b is None or isinstance(b, Opt) or compatible(ctx, a.val, b)
    return False


def rank_fn(ctx, incdom, edom, g):
    """rank(i): number of elements of incdom before i; and |incdom|."""
    if incdom.n is not None:
        return (lambda i: i), incdom.n
    n = ctx.count(incdom)
    ranks = getattr(ctx.eng, "ranks", None)
    if ranks is None:
        ranks = ctx.eng.ranks = []
    rk = ctx.fresh_fn("rank", [incdom.sort], z3.IntSort())
    at = ctx.fresh_fn("ranked", [z3.IntSort()], incdom.sort)
    ranks.append((incdom, n, rk, at))
    i = z3.Const("#k", incdom.sort)
    j = z3.Int("#j")
    ctx.forall([i], z3.Implies(incdom.cond(i), conj(rk(i) >= 0, rk(i) < n, at(rk(i)) == i)), pats=[rk(i)])
    ctx.forall([j], z3.Implies(z3.And(j >= 0, j < n), conj(incdom.cond(at(j)), rk(at(j)) == j)), pats=[at(j)])
    ctx.forall([i], z3.Implies(edom.cond(i), conj(rk(i) >= 0, rk(i) <= n)), pats=[rk(i)])
    return rk, n


def hoare_for(it, part, body, inv, havoc, allowed):
    """`for` by an invariant instead of by summarising the iterations.
    inv(what): obliges the invariant on the current state.
    havoc(): puts an arbitrary state satisfying the invariant in ctx.mem.
    allowed(key): the state the invariant describes; an iteration that changes
    anything else older than the loop is Unsupported."""
    ctx = it.ctx
    inv("holds before the loop")
    lo = ctx.idc

    def fn():
        g = ctx.instantiate(part.dom)
        ctx.assume_in(part.dom, g)
        havoc()
        m0 = dict(ctx.mem)
        l2 = ctx.idc
        try:
            body(part.val(g))
        except (BreakSig, ReturnSig):
            raise Unsupported("loop with an invariant leaves early")
        for k in changed_keys(m0, ctx.mem, l2):
            if not allowed(k) and k[0] != "loc":
                raise Unsupported(f"the iteration changes {k}, which the loop invariant does not describe")
        inv("is kept by an iteration")
        return None

    mem_locals = {k for k in ctx.mem if k[0] == "loc"}
    res = ctx.explore(fn)
    for r in res:
        if r.outcome[0] == "raise":
            raise Unsupported(f"an iteration raises {r.outcome[1]}")
        for k in r.mem:
            if k[0] == "loc" and (k not in ctx.mem or not (ctx.mem[k] is r.mem[k] or same_val(ctx.mem[k], r.mem[k]))):
                if not (isinstance(k[1], int) and k[1] > lo):
                    mem_locals.discard(k)
                    ctx.mem[k] = Poison("assigned in a loop with an invariant")
    havoc()
