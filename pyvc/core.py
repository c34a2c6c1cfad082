"""pyvc core: symbolic values, program state, path exploration, obligations.

Every run re-extracts the functions from /repo's sources (see loader.py) and
interprets their AST over the values defined here.  Floats are mathematical
reals, ints are unbounded; both are listed as assumptions in the evidence.
"""
import itertools
import time
from fractions import Fraction

import z3

Ref = z3.DeclareSort("Ref")  # identities of objects of symbolic collections
U = z3.DeclareSort("U")  # opaque values (labels, embeddings, ...)
INF = z3.Real("INF")  # +infinity: every value an array may hold is <= INF


class Unsupported(Exception):
    """The construct is outside the engine: the obligation is undecided."""


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class EngineError(Exception):
    pass


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, cls, msg="", value=None):
        super().__init__(f"{getattr(cls, '__name__', cls)}: {msg}")
        self.cls, self.msg, self.value = cls, msg, value


# --------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------
def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_bool_term(v):
    return isinstance(v, z3.BoolRef)


def is_num(v):
    return isinstance(v, (int, float, Fraction, z3.ArithRef))


def to_real(v):
    if isinstance(v, z3.ArithRef):
        return z3.ToReal(v) if v.is_int() else v
    if isinstance(v, bool):
        return z3.RealVal(1 if v else 0)
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v == float("inf"):
            return INF
        if v == float("-inf"):
            return -INF
        if v != v:
            raise Unsupported("NaN literal")
        return z3.RealVal(repr(v)) if "e" not in repr(v) else z3.RealVal(Fraction(repr(v)))
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"not a number: {type(v).__name__}")


def to_int(v):
    if isinstance(v, z3.ArithRef):
        if v.is_int():
            return v
        raise Unsupported("real used as int")
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported(f"not an int: {type(v).__name__}")


def lift(v):
    """Python scalar -> z3 term."""
    if is_sym(v):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, (float, Fraction)):
        return to_real(v)
    raise Unsupported(f"cannot lift {type(v).__name__}")


def conj(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return z3.BoolVal(False)
        if z3.is_true(x):
            continue
        if z3.is_and(x):
            ys.extend(x.children())
        else:
            ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def disj(*xs):
    ys = [x for x in xs if not (x is False or z3.is_false(x))]
    if any(x is True or z3.is_true(x) for x in ys):
        return z3.BoolVal(True)
    if not ys:
        return z3.BoolVal(False)
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def neg(x):
    if isinstance(x, bool):
        return z3.BoolVal(not x)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def b_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Poison:
    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"Poison({self.why})"


class Opt:
    """None if `none` holds, else `val`."""

    def __init__(self, none, val):
        self.none, self.val = none, val


class Obj:
    """A heap object with a concrete identity; attributes live in ctx.mem."""

    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid, self.cls = oid, cls

    def __eq__(self, o):
        return isinstance(o, Obj) and o.oid == self.oid

    def __hash__(self):
        return hash(("obj", self.oid))

    def __repr__(self):
        return f"<Obj {getattr(self.cls, 'name', self.cls)}#{self.oid}>"


class RefObj:
    """An object identified by a term of sort Ref; fields are FMaps."""

    def __init__(self, cls, ref):
        self.cls, self.ref = cls, ref

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}@{self.ref}>"


class ListObj:
    __slots__ = ("lid",)

    def __init__(self, lid):
        self.lid = lid

    def __eq__(self, o):
        return isinstance(o, ListObj) and o.lid == self.lid

    def __hash__(self):
        return hash(("list", self.lid))


class DictObj:
    __slots__ = ("did",)

    def __init__(self, did):
        self.did = did

    def __eq__(self, o):
        return isinstance(o, DictObj) and o.did == self.did

    def __hash__(self):
        return hash(("dict", self.did))


class SetVal:
    """An immutable symbolic set: membership predicate over terms of `sort`,
    with `wit` giving, for a member, facts that justify it."""

    def __init__(self, sort, mem, wrap=lambda x: x, pred=None):
        self.sort, self.mem, self.wrap = sort, mem, wrap
        # pred(ctx) -> (sort, P, facts, wrap): the set as a predicate over terms, for iteration
        self.pred = pred


class Opaque:
    """A value the code only passes around (embedding, file, cv2 object...)."""

    def __init__(self, kind, term=None, data=None):
        self.kind, self.term, self.data = kind, term, data or {}

    def __repr__(self):
        return f"<Opaque {self.kind} {self.term}>"


class StrExpr:
    """Concatenation of literal strings and tokens (rendered values)."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return f"StrExpr{self.parts}"


class Tok:
    """str(value) of a symbolic value."""

    def __init__(self, val, fmt=""):
        self.val, self.fmt = val, fmt

    def __repr__(self):
        return f"Tok({self.val},{self.fmt})"


class Dom:
    """An index set.  Dense (n given): {0..n-1}.  Sparse: {i | cond(i)}; its
    elements keep the order of the sequence they were taken from."""

    _ids = itertools.count()

    def __init__(self, sort, cond, n=None, facts=None, parent=None):
        self.sort, self._cond, self.n = sort, cond, n
        self.facts = facts or (lambda i: [])
        self.parent = parent

    @staticmethod
    def dense(n):
        nn = n if is_sym(n) else z3.IntVal(n)
        return Dom(z3.IntSort(), lambda i: z3.And(i >= 0, i < nn), n=n)

    def cond(self, i):
        return b_(self._cond(i))

    def sub(self, cond, facts=None):
        def f(i):
            return list(self.facts(i)) + (list(facts(i)) if facts else [])

        return Dom(self.sort, lambda i: conj(self.cond(i), b_(cond(i))), facts=f, parent=self)

    def canon(self):
        v = z3.Const("#i", self.sort)
        return v, self.cond(v)


class SymPart:
    """Elements val(i) for i in dom (in order)."""

    def __init__(self, dom, val):
        self.dom, self.val = dom, val


class Items:
    def __init__(self, items):
        self.items = tuple(items)


class MarkPart:
    """The unknown prefix of a list that the current loop is extending."""

    def __init__(self, tag, removed=()):
        self.tag, self.removed = tag, tuple(removed)


class SeqVal:
    """Immutable sequence content of a list or iterable."""

    def __init__(self, parts=(), kind="list"):
        out = []
        for p in parts:
            if isinstance(p, Items):
                if not p.items:
                    continue
                if out and isinstance(out[-1], Items):
                    out[-1] = Items(out[-1].items + p.items)
                    continue
            out.append(p)
        self.parts = tuple(out)

    def concrete(self):
        if not self.parts:
            return ()
        if len(self.parts) == 1 and isinstance(self.parts[0], Items):
            return self.parts[0].items
        return None


class TupleLike:
    """A tuple of symbolic length (e.g. tuple(array))."""

    def __init__(self, seq):
        self.seq = seq


class AbsIdx:
    """Position of element `term` in a sequence with index set `dom`."""

    def __init__(self, dom, term):
        self.dom, self.term = dom, term


class FMap:
    """Field map Ref -> value: base plus point/bulk updates (persistent)."""

    def __init__(self, base, ups=(), tag=None):
        self.base, self.ups, self.tag = base, tuple(ups), tag

    def put(self, ref, val):
        ups = [u for u in self.ups if not (u[0] == "pt" and u[1].eq(ref))]
        return FMap(self.base, tuple(ups) + (("pt", ref, val),), self.tag)

    def bulk(self, cond, val):
        """cond(ref) -> Bool, val(ref) -> value."""
        return FMap(self.base, self.ups + (("bulk", cond, val),), self.tag)

    def get(self, ctx, ref):
        start = 0
        for k in range(len(self.ups) - 1, -1, -1):
            u = self.ups[k]
            if u[0] == "pt" and u[1].eq(ref):
                start = k
                break
        else:
            start = -1
        res = self.base(ref) if start < 0 else self.ups[start][2]
        for u in self.ups[start + 1 :]:
            if u[0] == "pt":
                res = merge_value(ctx, u[1] == ref, u[2], res)
            else:
                c = z3.simplify(b_(u[1](ref)))
                if z3.is_false(c):
                    continue
                res = u[2](ref) if z3.is_true(c) else merge_value(ctx, c, u[2](ref), res)
        return res


class Content:
    """Array content: base(idx...) -> scalar, plus updates (persistent)."""

    def __init__(self, base, ups=(), sorts=None):
        self.base, self.ups, self.sorts = base, tuple(ups), sorts

    def upd(self, cond, val):
        return Content(self.base, self.ups + ((cond, val),), self.sorts)

    def __call__(self, *idx):
        todo = []
        res = None
        for cond, val in reversed(self.ups):
            c = b_(cond(*idx))
            if not (z3.is_true(c) or z3.is_false(c)):
                c = z3.simplify(c)
            if z3.is_false(c):
                continue
            if z3.is_true(c):
                res = val(*idx)
                break
            todo.append((c, val))
        else:
            res = self.base(*idx)
        for c, val in reversed(todo):
            res = ite(c, val(*idx), res)
        return res


def ite(c, a, b):
    """If-then-else over scalars."""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
        if isinstance(a, Opaque) and isinstance(b, Opaque) and a.term is not None and b.term is not None and a.kind == b.kind:
            return Opaque(a.kind, z3.If(c, a.term, b.term), a.data)
        raise Unsupported("ite over opaque values")
    ab = isinstance(a, (bool, z3.BoolRef))
    bb = isinstance(b, (bool, z3.BoolRef))
    if ab and bb:
        return z3.If(c, lift(a), lift(b))
    if not (is_num(a) or ab) or not (is_num(b) or bb):
        if is_sym(a) and is_sym(b) and a.sort() == b.sort():
            return z3.If(c, a, b)
        raise Unsupported(f"ite over {type(a).__name__}/{type(b).__name__}")
    if ab or bb:
        # bool in a numeric array
        ra = to_int(a) if ab else a
        rb = to_int(b) if bb else b
        return ite(c, ra, rb)
    isint = lambda v: isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int())
    if isint(a) and isint(b):
        return z3.If(c, to_int(a), to_int(b))
    return z3.If(c, to_real(a), to_real(b))


def merge_value(ctx, c, a, b):
    """If-then-else over arbitrary values."""
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        return a if isinstance(a, Poison) else b
    if a is None or b is None or isinstance(a, Opt) or isinstance(b, Opt):
        an = True if a is None else (a.none if isinstance(a, Opt) else False)
        bn = True if b is None else (b.none if isinstance(b, Opt) else False)
        av = a.val if isinstance(a, Opt) else a
        bv = b.val if isinstance(b, Opt) else b
        if av is None:
            v = bv
        elif bv is None:
            v = av
        else:
            v = merge_value(ctx, c, av, bv)
        if v is None:
            return None
        n = z3.If(c, b_(an), b_(bn))
        return Opt(z3.simplify(n), v)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge_value(ctx, c, x, y) for x, y in zip(a, b))
    if isinstance(a, RefObj) and isinstance(b, RefObj) and a.cls is b.cls:
        return a if a.ref.eq(b.ref) else RefObj(a.cls, z3.If(c, a.ref, b.ref))
    if isinstance(a, (Obj, ListObj, DictObj)) and type(a) is type(b) and a == b:
        return a
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, AbsIdx) and isinstance(b, AbsIdx):
        return AbsIdx(a.dom, z3.If(c, a.term, b.term))
    if isinstance(a, (str, StrExpr)) and isinstance(b, (str, StrExpr)):
        return StrExpr([Tok(("ite", c, a, b))])
    if isinstance(a, NDArr) and isinstance(b, NDArr):
        return merge_arr(ctx, c, a, b)
    if isinstance(a, FrozenList) and isinstance(b, FrozenList):
        parts = []
        for s, k in ((a.seq, c), (b.seq, neg(c))):
            for p in s.parts:
                if isinstance(p, SymPart):
                    parts.append(SymPart(p.dom.sub(lambda i, k=k: k), p.val))
                elif not isinstance(p, Items) or p.items:
                    raise Unsupported("merge of lists")
        return FrozenList(SeqVal(parts))
    try:
        return ite(c, a, b)
    except Unsupported:
        raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")


class NDArr:
    """numpy array: a view (fwd/inv index maps) on a store in ctx.mem."""

    __slots__ = ("shape", "dtype", "sid", "fwd", "inv", "contig", "ro", "frozen", "nan")

    def __init__(self, shape, dtype, sid, fwd=None, inv=None, contig=True, ro=False, frozen=None):
        self.shape, self.dtype, self.sid = tuple(shape), dtype, sid
        self.fwd, self.inv, self.contig, self.ro = fwd, inv, contig, ro
        self.frozen = frozen
        self.nan = None

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"<NDArr {self.shape} {self.dtype} s{self.sid}>"

    def snap(self, ctx):
        """Current content as a pure function of view indices."""
        if self.frozen is not None:
            return self.frozen
        c = ctx.mem[("arr", self.sid)]
        if self.fwd is None:
            return c
        f = self.fwd
        return lambda *ix: c(*f(*ix))


def merge_arr(ctx, c, a, b):
    if a.ndim != b.ndim:
        raise Unsupported("merge of arrays of different rank")
    for x, y in zip(a.shape, b.shape):
        if not ctx.same_dim(x, y):
            raise Unsupported("merge of arrays of different shapes")
    ca, cb = a.snap(ctx), b.snap(ctx)
    r = ctx.new_arr(a.shape, a.dtype if a.dtype == b.dtype else "f", lambda *ix: ite(c, ca(*ix), cb(*ix)))
    return r


# --------------------------------------------------------------------------
# substitution of a generic index in a value
# --------------------------------------------------------------------------
def subst_term(t, pairs):
    return z3.substitute(t, *pairs)


def subst_value(ctx, v, pairs):
    if is_sym(v):
        return subst_term(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst_value(ctx, x, pairs) for x in v)
    if isinstance(v, Opt):
        return Opt(subst_term(b_(v.none), pairs), subst_value(ctx, v.val, pairs))
    if isinstance(v, RefObj):
        return RefObj(v.cls, subst_term(v.ref, pairs))
    if isinstance(v, AbsIdx):
        return AbsIdx(v.dom, subst_term(v.term, pairs))
    if isinstance(v, NDArr):
        if v.frozen is None:
            raise EngineError("substitution in an unfrozen array")
        fz = v.frozen
        out = NDArr(
            [subst_value(ctx, d, pairs) if is_sym(d) else (subst_dom(ctx, d, pairs) if isinstance(d, Dom) else d) for d in v.shape],
            v.dtype, v.sid, ro=True,
            frozen=lambda *ix: _subst_scalar(ctx, fz(*_shield(ix, pairs)), pairs, ix),
        )
        return out
    if isinstance(v, StrExpr):
        return StrExpr([p if isinstance(p, str) else Tok(_subst_tok(ctx, p.val, pairs), p.fmt) for p in v.parts])
    if isinstance(v, Opaque):
        return Opaque(v.kind, None if v.term is None else subst_term(v.term, pairs),
                      {k: subst_value(ctx, x, pairs) for k, x in v.data.items()})
    if isinstance(v, FrozenObj):
        return FrozenObj(v.cls, v.oid, lambda n: subst_value(ctx, v.attr(n), pairs), v.names)
    if isinstance(v, TupleLike):
        return TupleLike(subst_seq(ctx, v.seq, pairs))
    if isinstance(v, SeqVal):
        return subst_seq(ctx, v, pairs)
    if isinstance(v, FrozenList):
        return FrozenList(subst_seq(ctx, v.seq, pairs))
    if hasattr(v, "subst"):
        return v.subst(lambda t: subst_term(t, pairs) if is_sym(t) else t)
    return v


def _shield(ix, pairs):
    return ix


def _subst_scalar(ctx, r, pairs, ix):
    # indices may themselves mention the variables being replaced only if the
    # caller uses the generic element itself, in which case pairs is identity
    return subst_value(ctx, r, pairs)


def _subst_tok(ctx, val, pairs):
    if isinstance(val, tuple) and val and val[0] == "ite":
        return ("ite", subst_term(val[1], pairs), subst_value(ctx, val[2], pairs), subst_value(ctx, val[3], pairs))
    return subst_value(ctx, val, pairs)


def subst_dom(ctx, d, pairs):
    if d.n is not None:
        return Dom.dense(subst_term(d.n, pairs) if is_sym(d.n) else d.n)
    nd = Dom(d.sort, lambda i: subst_term(d.cond(i), pairs),
             facts=lambda i: [subst_term(f, pairs) for f in d.facts(i)], parent=d.parent)
    return nd


def subst_seq(ctx, s, pairs):
    out = []
    for p in s.parts:
        if isinstance(p, Items):
            out.append(Items([subst_value(ctx, x, pairs) for x in p.items]))
        elif isinstance(p, SymPart):
            out.append(SymPart(subst_dom(ctx, p.dom, pairs),
                               lambda i, p=p: subst_value(ctx, p.val(i), pairs)))
        else:
            raise Unsupported("substitution in a list under construction")
    return SeqVal(out)


class FrozenObj:
    """Read-only snapshot of an Obj created inside a generic iteration."""

    def __init__(self, cls, oid, attr, names):
        self.cls, self.oid, self.attr, self.names = cls, oid, attr, names


class FrozenList:
    def __init__(self, seq):
        self.seq = seq


# --------------------------------------------------------------------------
# obligations
# --------------------------------------------------------------------------
class Obligation:
    def __init__(self, name, fn, status, backend, secs, detail="", smt=None):
        self.name, self.fn, self.status, self.backend = name, fn, status, backend
        self.secs, self.detail, self.smt = secs, detail, smt


class PathResult:
    def __init__(self, conds, facts, axioms, mem, outcome, extra=None):
        self.conds, self.facts, self.axioms = conds, facts, axioms
        self.mem, self.outcome, self.extra = mem, outcome, extra


class Ctx:
    """One symbolic execution (a path) plus services shared by all paths."""

    def __init__(self, eng):
        self.eng = eng
        self.floor = 0  # ids above it were made in the innermost exploration
        self.mem = {}
        self.conds = []  # decisions taken
        self.facts = []  # assumptions about fresh symbols
        self.axioms = []  # quantified facts
        self.gen = []  # generic indices in scope
        self.names = {}
        self.idc = 1
        self.done_obl = set()
        self.cache = {}
        self.pkey = ()
        self.ncall = 0
        self.dom_facts = []
        self.dec, self.pos, self.pending = [], 0, []
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.sumcache = []
        self.counts = []
        self.loops = []
        self.count_dom = {}
        self.trail = []
        self.inv_hooks = []

    # -- fresh symbols -----------------------------------------------------
    def name(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return f"{base}!{k}"

    def fresh(self, base, sort):
        n = self.name(base)
        if not self.gen:
            return z3.Const(n, sort)
        f = z3.Function(n, *[g.sort() for g in self.gen], sort)
        return f(*self.gen)

    def fresh_fn(self, base, dom_sorts, rng):
        n = self.name(base)
        gens = list(self.gen)
        f = z3.Function(n, *[g.sort() for g in gens], *dom_sorts, rng)
        return lambda *a: f(*gens, *a)

    def fint(self, base, lo=None):
        v = self.fresh(base, z3.IntSort())
        if lo is not None:
            self.assume(v >= lo)
        return v

    def freal(self, base):
        return self.fresh(base, z3.RealSort())

    def fbool(self, base):
        return self.fresh(base, z3.BoolSort())

    def newid(self):
        self.idc += 1
        return self.idc

    # -- heap --------------------------------------------------------------
    def new_obj(self, cls, **attrs):
        o = Obj(self.newid(), cls)
        self.mem[("names", o.oid)] = ()
        for k, v in attrs.items():
            self.setattr(o, k, v)
        return o

    def setattr(self, o, name, v):
        self.mem[("attr", o.oid, name)] = v
        nk = ("names", o.oid)
        names = self.mem.get(nk, ())
        if name not in names:
            self.mem[nk] = names + (name,)

    def getattr(self, o, name, default=KeyError):
        v = self.mem.get(("attr", o.oid, name), default)
        if v is KeyError:
            raise Unsupported(f"attribute {name} of {o}")
        return v

    def new_list(self, seq=()):
        l = ListObj(self.newid())
        if not isinstance(seq, SeqVal):
            seq = SeqVal([Items(seq)])
        self.mem[("list", l.lid)] = seq
        return l

    def seq(self, l):
        return self.mem[("list", l.lid)]

    def new_arr(self, shape, dtype, content):
        sid = self.newid()
        sorts = tuple(d.sort if isinstance(d, Dom) else z3.IntSort() for d in shape)
        if not isinstance(content, Content):
            content = Content(content, (), sorts)
        elif content.sorts is None:
            content = Content(content.base, content.ups, sorts)
        self.mem[("arr", sid)] = content
        return NDArr(shape, dtype, sid)

    def field(self, cls, name):
        return self.mem[("field", cls, name)]

    def fget(self, robj, name):
        key = ("field", clsname(robj.cls), name)
        if self.loops:
            for lp in self.loops:
                lp.access.append((key, robj.ref, "r"))
        return self.mem[key].get(self, robj.ref)

    def fset(self, robj, name, v):
        key = ("field", clsname(robj.cls), name)
        if self.loops:
            for lp in self.loops:
                lp.access.append((key, robj.ref, "w"))
        self.mem[key] = self.mem[key].put(robj.ref, v)

    # -- logic -------------------------------------------------------------
    def assume(self, f):
        f = b_(f)
        if z3.is_true(f):
            return
        self.facts.append(f)
        self.solver.add(f)

    def axiom(self, f):
        self.axioms.append(f)

    def forall(self, vs, body, pats=()):
        if z3.is_true(body):
            return
        vs = [v for v in vs]
        try:
            ax = z3.ForAll(vs, body, patterns=list(pats)) if pats else z3.ForAll(vs, body)
        except z3.Z3Exception:
            ax = z3.ForAll(vs, body)
        self.axiom(ax)

    def feasible(self, c=None):
        t0 = time.time()
        if c is None:
            r = self.solver.check()
        else:
            self.solver.push()
            self.solver.add(c)
            r = self.solver.check()
            self.solver.pop()
        self.eng.stats["feas_s"] += time.time() - t0
        self.eng.stats["feas_n"] += 1
        return r != z3.unsat

    def valid(self, c):
        """c follows from the ground part of the path condition."""
        c = b_(c)
        if z3.is_true(c):
            return True
        s = z3.simplify(c)
        if z3.is_true(s):
            return True
        if z3.is_false(s) and not self.eng.deep:
            return False
        return not self.feasible(neg(s))

    def decide(self, c, why=""):
        if isinstance(c, bool):
            return c
        if not is_bool_term(c):
            raise Unsupported(f"branch on {type(c).__name__}")
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.dec):
            d = self.dec[self.pos]
        else:
            t, f = self.feasible(c), self.feasible(neg(c))
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.pending.append(self.dec[: self.pos] + [False])
                self.eng.stats["forks"] += 1
                if len(self.pending) > self.eng.max_pending:
                    raise Unsupported("too many paths")
            d = t
            self.dec = self.dec[: self.pos] + [d]
        self.pos += 1
        k = c if d else neg(c)
        self.conds.append(k)
        self.solver.add(k)
        return d

    def choose(self, n, why=""):
        """Nondeterministic choice among n (all explored)."""
        for i in range(n - 1):
            b = z3.Bool(self.name("choice"))
            if self.decide(b):
                return i
        return n - 1

    def check_deadline(self):
        if self.eng.deadline and time.time() > self.eng.deadline:
            raise Unsupported("time budget of the engine exhausted")

    # -- exploration -------------------------------------------------------
    def explore(self, fn, top=False):
        """Run fn on every feasible path from the current state; the state is
        restored afterwards.  Returns PathResults (mem = final state).  Local
        explorations are cached: re-execution is deterministic, so the same
        decision prefix yields the same results."""
        self.ncall += 1
        key = (self.pkey, tuple(self.dec[: self.pos]), self.ncall)
        if not top and key in self.cache:
            results, names, idc, base = self.cache[key]
            self.names, self.idc = dict(names), idc
            return [PathResult(r.conds, r.facts, r.axioms, self.rebase(base, r.mem), r.outcome, r.extra) for r in results]
        mem0, nc, nf, na = self.mem, len(self.conds), len(self.facts), len(self.axioms)
        floor0, self.floor = self.floor, self.idc
        dec0, pos0, pend0 = self.dec, self.pos, self.pending
        names0, sc0, cn0, df0 = dict(self.names), list(self.sumcache), list(self.counts), list(self.dom_facts)
        gen0, loops0, id0, pk0, ncall0 = list(self.gen), list(self.loops), self.idc, self.pkey, self.ncall
        maxnames, maxid = dict(self.names), self.idc
        results, stack = [], [[]]
        try:
            while stack:
                self.check_deadline()
                prefix = stack.pop()
                self.mem = dict(mem0)
                self.dec, self.pos, self.pending = list(prefix), 0, []
                self.names = dict(names0)
                self.sumcache, self.counts, self.dom_facts = list(sc0), list(cn0), list(df0)
                self.gen, self.loops = list(gen0), list(loops0)
                self.idc, self.ncall = id0, 0
                self.pkey = () if top else key
                self.solver.push()
                try:
                    try:
                        out = ("ok", fn())
                    except PyRaise as e:
                        out = ("raise", e)
                    except Infeasible:
                        out = None
                    except Unsupported as e:
                        if not top:
                            raise
                        out = None if self.prove_quiet(z3.BoolVal(False)) else ("unsupported", e)
                    if out is not None:
                        results.append(PathResult(self.conds[nc:], self.facts[nf:], self.axioms[na:], self.mem, out,
                                                  extra={"counts": self.counts[len(cn0):], "sums": self.sumcache[len(sc0):],
                                                         "df": self.dom_facts[len(df0):]}))
                finally:
                    self.solver.pop()
                    stack.extend(self.pending)
                    for k, v in self.names.items():
                        maxnames[k] = max(maxnames.get(k, 0), v)
                    maxid = max(maxid, self.idc)
                    del self.conds[nc:], self.facts[nf:], self.axioms[na:]
                self.eng.stats["paths"] += 1
                if len(results) > self.eng.max_paths:
                    raise Unsupported("too many paths")
        finally:
            self.floor = floor0
            self.mem = mem0
            self.dec, self.pos, self.pending = dec0, pos0, pend0
            self.sumcache, self.counts, self.dom_facts = list(sc0), list(cn0), list(df0)
            self.gen, self.loops = list(gen0), list(loops0)
            self.names, self.idc = maxnames, maxid
            self.pkey, self.ncall = pk0, ncall0
        if not top:
            self.cache[key] = (results, dict(maxnames), maxid, dict(mem0))
        return results

    def rebase(self, base, mem):
        """The state of a cached result, over the current (equal, but
        re-created) state: what the result did not touch is the current one."""
        out = {}
        for k, v in mem.items():
            if k in base and base[k] is v:
                if k in self.mem:
                    out[k] = self.mem[k]
            else:
                out[k] = v
        return out

    def enter(self, res):
        """Continue in the state of a PathResult (adds its conditions)."""
        for c in res.conds:
            self.conds.append(c)
            self.solver.add(c)
        for f in res.facts:
            self.facts.append(f)
            self.solver.add(f)
        self.axioms.extend(res.axioms)
        self.mem = dict(res.mem)
        self.counts.extend(res.extra["counts"])
        self.sumcache.extend(res.extra["sums"])
        self.dom_facts.extend(res.extra["df"])

    # -- index sets --------------------------------------------------------
    def dom(self, d):
        return d if isinstance(d, Dom) else Dom.dense(d)

    def instantiate(self, dom, base="g"):
        """A generic element of dom (a fresh constant; assumed to be in it)."""
        g = z3.Const(self.name("g_" + base), dom.sort)
        return g

    def assume_in(self, dom, g):
        self.assume(dom.cond(g))
        for f in dom.facts(g):
            self.assume(f)
        d = dom
        while d is not None:
            for dd, cnt in self.counts:
                if dd is d:
                    self.assume(cnt > 0)
            for dd, fn in self.dom_facts:
                if dd is d:
                    self.assume(fn(g))
            d = d.parent

    def same_dom(self, a, b, timeout=None):
        if a is b:
            return True
        if a.n is not None and b.n is not None:
            return self.same_dim(a.n, b.n)
        if a.sort != b.sort:
            return False
        v = z3.Const("#i", a.sort)
        ca, cb = a.cond(v), b.cond(v)
        if ca.eq(cb) or z3.simplify(ca).eq(z3.simplify(cb)):
            return True
        if timeout == 0:  # ground reasoning only
            return not self.feasible(ca != cb)
        return self.prove_quiet(z3.ForAll([v], ca == cb), timeout)

    def same_dim(self, a, b):
        if isinstance(a, Dom) or isinstance(b, Dom):
            if not (isinstance(a, Dom) and isinstance(b, Dom)):
                return False
            return self.same_dom(a, b)
        if not is_sym(a) and not is_sym(b):
            return a == b
        return self.valid(lift(a) == lift(b))

    def count(self, dom):
        """Number of elements of dom."""
        if not isinstance(dom, Dom):
            return dom
        if dom.n is not None:
            return dom.n
        for d, c in self.counts:
            if d is dom:
                return c
        for d, c in self.counts:
            if d.sort == dom.sort and self.same_dom(d, dom, 0):
                self.counts.append((dom, c))
                return c
        c = self.fresh("cnt", z3.IntSort())
        self.counts.append((dom, c))
        self.count_dom[c.get_id()] = (c, dom)
        w = self.fresh("wit", dom.sort)
        v = z3.Const("#c", dom.sort)
        self.assume(c >= 0)
        self.assume(z3.Implies(c > 0, conj(dom.cond(w), *dom.facts(w))))
        self.forall([v], z3.Implies(dom.cond(v), c > 0))
        if dom.parent is not None:
            pc = self.count(dom.parent)
            self.assume(c <= (pc if is_sym(pc) else z3.IntVal(pc)))
        return c

    def dim_of_len(self, n):
        """The dimension for a length term (an index set if it is a count)."""
        if is_sym(n):
            hit = self.count_dom.get(n.get_id())
            if hit is not None and hit[0].eq(n):
                return hit[1]
            n = z3.simplify(n)
            if z3.is_int_value(n):
                return n.as_long()
        return n

    # -- proving -----------------------------------------------------------
    def assertions(self):
        return self.conds + self.facts + self.axioms

    def prove_quiet(self, goal, timeout=None):
        r, _, _ = self.eng.smt(self.assertions(), goal, timeout or self.eng.side_timeout)
        return r == "proved"

    def oblige(self, name, goal, detail=""):
        goal = b_(goal)
        key = (name, goal.hash(), tuple(self.dec[: self.pos]), self.pkey)
        if key in self.done_obl:
            return
        self.done_obl.add(key)
        self.eng.obligation(self, name, goal, detail)

    def exists(self, doms, pred, base="ex"):
        """Bool term: some element of the product of doms satisfies pred."""
        ws = [self.fresh(base + "_w", d.sort) for d in doms]
        e = self.fresh(base, z3.BoolSort())
        vs = [z3.Const(f"#e{k}", d.sort) for k, d in enumerate(doms)]
        fs = []
        for d, w in zip(doms, ws):
            fs.append(d.cond(w))
            fs.extend(d.facts(w))
        pw = b_(pred(*ws))
        self.assume(z3.Implies(e, conj(*fs, pw)))
        body = z3.Implies(conj(*[d.cond(v) for d, v in zip(doms, vs)], b_(pred(*vs))), e)
        self.forall(vs, body)
        return e

    def side(self, name, goal):
        """A side obligation of the engine (e.g. non-interference)."""
        goal = b_(goal)
        if self.prove_quiet(goal):
            self.eng.stats["side"] += 1
            return True
        return False


def clsname(cls):
    return cls if isinstance(cls, str) else cls.name


class Engine:
    def __init__(self, side_timeout=4000, timeout=20000, deadline=None):
        self.stats = dict(feas_s=0.0, feas_n=0, forks=0, paths=0, side=0, smt_s=0.0, smt_n=0)
        self.obls = []
        self.side_timeout, self.timeout, self.deadline = side_timeout, timeout, deadline
        self.max_paths, self.max_pending = 4000, 4000
        self.deep = False
        self.current_fn = "?"
        self.backends = {}
        self.undecided = []
        self.base_axioms = [INF > 0]
        self.used = set()
        self.inverses = []
        self._uid = 0
        self.last_model = None

    def uid(self):
        self._uid += 1
        return self._uid

    def smt(self, assertions, goal, timeout):
        t0 = time.time()
        goal = b_(goal)
        sg = z3.simplify(goal)
        if z3.is_true(sg):
            return "proved", "simplifier", 0.0
        res, who = "unknown", "z3"
        s = z3.Solver()
        self.last_model = None
        s.set("timeout", int(timeout))
        for a in self.base_axioms:
            s.add(a)
        for a in assertions:
            s.add(a)
        s.add(z3.Not(goal))
        r = s.check()
        self.last_model = None
        if r == z3.unsat:
            res = "proved"
        elif r == z3.sat:
            res = "refuted"
            try:
                self.last_model = s.model()
            except z3.Z3Exception:
                pass
        dt = time.time() - t0
        self.stats["smt_s"] += dt
        self.stats["smt_n"] += 1
        self.last_solver = s
        return res, who, dt

    def cvc5(self, solver, timeout):
        import subprocess
        import tempfile

        txt = "(set-logic ALL)\n" + solver.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
            p = f.name
        t0 = time.time()
        try:
            out = subprocess.run(["cvc5", f"--tlimit={int(timeout)}", p], capture_output=True, text=True,
                                 timeout=timeout / 1000 + 5).stdout
        except Exception:
            out = ""
        finally:
            import os

            os.unlink(p)
        self.stats["smt_s"] += time.time() - t0
        first = out.strip().split("\n")[0] if out.strip() else ""
        return {"unsat": "proved", "sat": "refuted"}.get(first, "unknown")

    def obligation(self, ctx, name, goal, detail=""):
        """z3 briefly, then cvc5, then z3 for the full time.  Once a few
        obligations of the unit have failed, the others only get little time;
        past the unit's deadline it is undecided."""
        t0 = time.time()
        if self.deadline and t0 > self.deadline:
            raise Unsupported("time limit of the unit")
        bad = sum(o.status != "proved" for o in self.obls)
        if bad >= 12:
            raise Unsupported("not pursued further after 12 failed obligations")
        short = 2000 if bad >= 3 else min(5000, self.timeout)
        res, who, dt = self.smt(ctx.assertions(), goal, short)
        model = self.last_model
        if res == "unknown" and bad < 3:
            r2 = self.cvc5(self.last_solver, self.timeout)
            if r2 == "proved":
                res, who = r2, "cvc5"
            else:
                res, who, dt = self.smt(ctx.assertions(), goal, self.timeout)
                model = self.last_model
        smt = None
        if res != "proved":
            mdl = str(model)[:4000] if model is not None else "(none: the solvers gave up)"
            smt = f"goal: {str(goal)[:3000]}\nmodel: {mdl}"
        self.backends[who] = self.backends.get(who, 0) + (1 if res == "proved" else 0)
        self.obls.append(Obligation(name, self.current_fn, res, who, time.time() - t0, detail, smt))
        return res == "proved"

    def fail(self, name, status, detail=""):
        self.obls.append(Obligation(name, self.current_fn, status, "engine", 0.0, detail, detail))

    def run(self, fn_name, setup, prelude=None):
        """Explore setup(ctx) over all paths; setup emits obligations itself.
        Returns the list of outcomes."""
        self.current_fn = fn_name
        ctx = Ctx(self)
        outs = []
        try:
            if prelude:
                prelude(ctx)
            for r in ctx.explore(lambda: setup(ctx), top=True):
                outs.append(r.outcome)
                if r.outcome[0] == "unsupported":
                    self.undecided.append((fn_name, str(r.outcome[1])))
                elif r.outcome[0] == "raise":
                    e = r.outcome[1]
                    res, who, dt = self.smt(r.conds + r.facts + r.axioms, z3.BoolVal(False), self.timeout)
                    det = f"{getattr(e.cls, '__name__', e.cls)}: {e}\n" + str(r.conds)[:2000]
                    if res == "proved":
                        self.backends[who] = self.backends.get(who, 0) + 1
                    elif getattr(e.cls, "__name__", "") in ("AttributeError", "NameError"):
                        self.undecided.append((fn_name, det))  # more often a name the engine does not know
                        continue
                    self.obls.append(Obligation(f"{fn_name}: no unexpected exception", self.current_fn, res, who, dt, det, det))
        except Unsupported as e:
            self.undecided.append((fn_name, str(e)))
        if not outs:
            self.undecided.append((fn_name, "no feasible path: vacuous precondition"))
        return outs
