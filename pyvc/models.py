"""Contracts of Python builtins and small library functions."""
import z3

from .core import *
from .interp import (Bound, ClassVal, ExcVal, FuncVal, GenVal, ModelClass, ModelModule, ModuleVal, Native, PartialVal,
                     PyRaise, StarVal, flat_parts, num_pair, simp_bool, simp_str)
from . import npmodel as N
from . import strings as S
from .strings import CharStr, SymStr, code
from .npmodel import TypeVal, FlatIdx, IxVal

HASH = z3.Function("HASH", U, z3.IntSort())


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


# --------------------------------------------------------------------------
# sequences
# --------------------------------------------------------------------------
def dense_items(it, dom, val):
    """SymPart, or Items when the length is a known number."""
    if dom.n is not None and not is_sym(dom.n):
        return Items([val(z3.IntVal(k)) for k in range(dom.n)])
    return SymPart(dom, val)


def iter_seq(it, v):
    ctx = it.ctx
    if isinstance(v, Opt):
        v = it.noopt(v)
    if isinstance(v, tuple):
        return SeqVal([Items(v)])
    if isinstance(v, ListObj):
        return ctx.seq(v)
    if isinstance(v, (FrozenList, GenVal, TupleLike)):
        return v.seq
    if isinstance(v, SeqVal):
        return v
    if isinstance(v, str):
        return SeqVal([Items(list(v))])
    if isinstance(v, SymStr):
        return SeqVal([SymPart(Dom.dense(v.n), lambda i: CharStr([v.fn(i)]))])
    if isinstance(v, CharStr):
        return SeqVal([Items([CharStr.make([c]) for c in v.chars])])
    if isinstance(v, NDArr):
        if v.ndim == 0:
            raise PyRaise(TypeError, "iteration over a 0-d array")
        d = N.dim_dom(N.norm_dim(v.shape[0]))
        if v.ndim == 1:
            c = v.snap(ctx)
            return SeqVal([dense_items(it, d, lambda i: c(i))])

        def row(i):
            vv = v
            f = lambda *ix: (i,) + ix
            g = lambda a0, *r: (a0 == i, r)
            return N.view(vv, vv.shape[1:], f, g, vv.contig)

        return SeqVal([dense_items(it, d, row)])
    if isinstance(v, DictObj):
        d, default = ctx.mem[("dict", v.did)]
        if isinstance(default, Poison):
            raise Unsupported("iteration over a dict under construction")
        return SeqVal([Items(list(d.keys()))])
    if isinstance(v, RangeVal):
        if all(not is_sym(x) for x in (v.lo, v.hi, v.step)):
            return SeqVal([Items(list(range(v.lo, v.hi, v.step)))])
        if v.step == 1:
            if not is_sym(v.lo) and v.lo == 0:
                n = ctx.dim_of_len(v.hi)
                if isinstance(n, Dom):
                    return SeqVal([SymPart(n, lambda i: AbsIdx(n, i) if n.n is None else i)])
                nn = n if not is_sym(n) or ctx.valid(n >= 0) else z3.If(n < 0, z3.IntVal(0), n)
                return SeqVal([SymPart(Dom.dense(nn), lambda i: i)])
            lo, hi = lift(v.lo), lift(v.hi)
            n = z3.simplify(hi - lo)
            if z3.is_int_value(n):
                return SeqVal([Items([z3.simplify(lo + k) if is_sym(v.lo) else v.lo + k for k in range(max(0, n.as_long()))])])
            if not ctx.valid(n >= 0):
                n = z3.If(n < 0, z3.IntVal(0), n)
            return SeqVal([SymPart(Dom.dense(n), lambda i: i + lo)])
        raise Unsupported("range with a step")
    if isinstance(v, (set, frozenset)):
        return SeqVal([Items(sorted(v, key=repr))])
    if isinstance(v, list):
        return SeqVal([Items(v)])
    if isinstance(v, Opaque) and "iter" in v.data:
        return v.data["iter"](it)
    if isinstance(v, (Obj,)):
        if isinstance(v.cls, ClassVal):
            m = it.find_method(v.cls, "__iter__")
            if m is not None:
                return it.iter_seq(it.call_func(m, [v], {}))
        elif isinstance(v.cls, ModelClass):
            r = getattr(v.cls, "iter", None)
            if r is not None:
                return r(it, v)
    if v is None or is_num(v) or isinstance(v, (bool, z3.BoolRef)):
        raise PyRaise(TypeError, f"object is not iterable")
    if isinstance(v, SetVal):
        if v.pred is None:
            raise Unsupported("iteration over a symbolic set")
        sort, Pd, facts, wrap = v.pred(it.ctx)
        return SeqVal([SymPart(Dom(sort, Pd, facts=facts), wrap)])
    raise Unsupported(f"iteration over {type(v).__name__}")


def seq_index(it, s, i):
    ctx = it.ctx
    c = s.concrete()
    if isinstance(i, (z3.BoolRef, bool)):
        i = int(i) if isinstance(i, bool) else to_int(i)
    if isinstance(i, AbsIdx):
        if len(s.parts) == 1 and isinstance(s.parts[0], SymPart):
            p = s.parts[0]
            if ctx.same_dom(p.dom, i.dom):
                return p.val(i.term)
        raise Unsupported("abstract index on another sequence")
    if not (isinstance(i, int) or isinstance(i, z3.ArithRef) and i.is_int()):
        if isinstance(i, float) or isinstance(i, z3.ArithRef):
            raise PyRaise(TypeError, "list indices must be integers")
        raise Unsupported(f"index {type(i).__name__}")
    if c is not None:
        if not is_sym(i):
            if not -len(c) <= i < len(c):
                raise PyRaise(IndexError, "list index out of range")
            return c[i]
        n = len(c)
        if not ctx.decide(z3.And(i >= -n, i < n)):
            raise PyRaise(IndexError, "list index out of range")
        k = i if ctx.valid(i >= 0) else z3.If(i < 0, i + n, i)
        r = c[-1]
        for j in range(n - 2, -1, -1):
            r = merge_value(ctx, k == j, c[j], r)
        return r
    if any(not isinstance(p, (Items, SymPart)) for p in s.parts):
        raise Unsupported("index into a list under construction")
    if not is_sym(i):
        parts = s.parts if i >= 0 else tuple(reversed(s.parts))
        k = i if i >= 0 else -i - 1
        for p in parts:
            if isinstance(p, Items):
                if k < len(p.items):
                    return p.items[k] if i >= 0 else p.items[-1 - k]
                k -= len(p.items)
            else:
                n = ctx.count(p.dom)
                if p.dom.n is not None:
                    if ctx.decide(lift(n) > k):
                        return p.val(z3.IntVal(k) if i >= 0 else z3.simplify(lift(n) - 1 - k))
                    if len(parts) > 1 and k > 0:
                        raise Unsupported("index past a symbolic part")
                else:
                    if k == 0 and ctx.decide(lift(n) > 0):
                        return p.val(N.seq_elem(it, p.dom, 0 if i >= 0 else -1))
                    if k != 0:
                        raise Unsupported("integer index into an index set")
        raise PyRaise(IndexError, "list index out of range")
    # symbolic integer
    if len(s.parts) == 1 and s.parts[0].dom.n is not None:
        p = s.parts[0]
        n = lift(p.dom.n)
        if not ctx.decide(z3.And(i >= -n, i < n)):
            raise PyRaise(IndexError, "list index out of range")
        return p.val(i if ctx.valid(i >= 0) else z3.If(i < 0, i + n, i))
    if all(isinstance(p, Items) or p.dom.n is not None for p in s.parts):
        n = lift(it.seq_len(s))
        if not ctx.decide(z3.And(i >= -n, i < n)):
            raise PyRaise(IndexError, "list index out of range")
        k = i if ctx.valid(i >= 0) else z3.If(i < 0, i + n, i)
        off = z3.IntVal(0)
        for p in s.parts[:-1]:
            ln = z3.IntVal(len(p.items)) if isinstance(p, Items) else lift(p.dom.n)
            if ctx.decide(k < off + ln):
                return part_at(it, p, k - off)
            off = off + ln
        return part_at(it, s.parts[-1], k - off)
    raise Unsupported("integer index into an index set")


def part_at(it, p, k):
    if isinstance(p, Items):
        return seq_index(it, SeqVal([p]), z3.simplify(k) if not z3.is_int_value(z3.simplify(k)) else z3.simplify(k).as_long())
    return p.val(z3.simplify(k))


def slice_seq(it, s, sl):
    ctx = it.ctx
    c = s.concrete()
    bounds = [sl.start, sl.stop, sl.step]
    if c is not None and all(not is_sym(b) for b in bounds):
        return SeqVal([Items(c[sl])])
    if sl.start is None and sl.stop is None and sl.step in (None, 1):
        return s
    if sl.step not in (None, 1):
        raise Unsupported("slice with a step of a symbolic list")
    if len(s.parts) == 1 and isinstance(s.parts[0], SymPart) and s.parts[0].dom.n is not None:
        p = s.parts[0]
        lo, ln = N.clamp_slice(ctx, sl, p.dom.n)
        off = lift(lo)
        return SeqVal([SymPart(Dom.dense(ln), lambda i: p.val(i if not is_sym(lo) and lo == 0 else i + off))])
    if sl.step in (None, 1) and not is_sym(sl.start) and not is_sym(sl.stop):
        # drop a few elements at the front / back of a list with known ends
        start, stop = sl.start or 0, sl.stop
        parts = list(s.parts)
        if start >= 0 and stop is None and parts and isinstance(parts[0], Items) and len(parts[0].items) >= start:
            parts[0] = Items(parts[0].items[start:])
            return SeqVal(parts)
        if start == 0 and stop is not None and stop < 0 and isinstance(parts[-1], Items) and len(parts[-1].items) >= -stop:
            parts[-1] = Items(parts[-1].items[:stop])
            return SeqVal(parts)
        if start == 1 and stop is None and isinstance(parts[0], SymPart) and parts[0].dom.n is not None:
            return SeqVal(pop_front(it, s)[1].parts)
    if c is not None and sl.start in (None, 0) and is_sym(sl.stop):
        n = len(c)
        stop = sl.stop
        for k in range(n):
            if ctx.decide(stop <= k) if k else ctx.decide(z3.And(stop >= 0, stop <= 0)):
                return SeqVal([Items(c[:k])])
        return SeqVal([Items(c)])
    if sl.start in (None, 0) and is_sym(sl.stop) and all(isinstance(p, Items) or p.dom.n is not None for p in s.parts):
        stop = lift(sl.stop)
        if not ctx.valid(stop >= 0):
            raise Unsupported("slice with a possibly negative bound")
        out, rem = [], stop
        for p in s.parts:
            if isinstance(p, Items):
                for x in p.items:
                    if not ctx.decide(rem > 0):
                        return SeqVal(out)
                    out.append(Items([x]))
                    rem = rem - 1
            else:
                n = lift(p.dom.n)
                m = z3.If(rem < n, rem, n)
                out.append(SymPart(Dom.dense(m), p.val))
                rem = rem - m
        return SeqVal(out)
    raise Unsupported("slice of a symbolic list")


def pop_front(it, s):
    ctx = it.ctx
    p = s.parts[0]
    if isinstance(p, Items):
        return p.items[0], SeqVal((Items(p.items[1:]),) + s.parts[1:])
    n = ctx.count(p.dom)
    if p.dom.n is not None:
        if not ctx.decide(lift(n) > 0):
            return pop_front(it, SeqVal(s.parts[1:])) if len(s.parts) > 1 else _ierr()
        return p.val(z3.IntVal(0)), SeqVal((SymPart(Dom.dense(z3.simplify(lift(n) - 1)), lambda i: p.val(i + 1)),) + s.parts[1:])
    raise Unsupported("pop from an index set")


def pop_back(it, s):
    ctx = it.ctx
    p = s.parts[-1]
    if isinstance(p, Items):
        return p.items[-1], SeqVal(s.parts[:-1] + (Items(p.items[:-1]),))
    n = ctx.count(p.dom)
    if p.dom.n is not None:
        if not ctx.decide(lift(n) > 0):
            return pop_back(it, SeqVal(s.parts[:-1])) if len(s.parts) > 1 else _ierr()
        last = z3.simplify(lift(n) - 1)
        return p.val(last), SeqVal(s.parts[:-1] + (SymPart(Dom.dense(last), p.val),))
    raise Unsupported("pop from an index set")


def _ierr():
    raise PyRaise(IndexError, "pop from empty list")


# --------------------------------------------------------------------------
# membership, items
# --------------------------------------------------------------------------
def contains(it, c, x):
    from . import loops

    ctx = it.ctx
    if isinstance(c, Opt):
        c = it.noopt(c)
    if isinstance(c, SetVal):
        return c.mem(it, x)
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (StrExpr, CharStr, SymStr)) or isinstance(x, (StrExpr, CharStr, SymStr)) and isinstance(c, str):
        if isinstance(x, str) and len(x) == 1 and isinstance(c, (CharStr, SymStr)):
            if isinstance(c, CharStr):
                return simp_bool(disj(*[code(k) == ord(x) for k in c.chars])) if c.chars else False
            i = z3.Int("#in")
            return z3.Exists([i], z3.And(0 <= i, i < lift(c.n), c.fn(i) == ord(x)))
        if isinstance(x, CharStr) and len(x.chars) == 1 and isinstance(c, str):
            return simp_bool(disj(*[x.chars[0] == ord(k) for k in c]))
        if isinstance(x, str) and isinstance(c, StrExpr):
            from . import osmodel

            return osmodel.fn("contains:" + x, 1, z3.BoolSort())(osmodel.sterm(it, c))
        raise Unsupported("substring test")
    if isinstance(c, DictObj):
        d, default = ctx.mem[("dict", c.did)]
        if isinstance(default, Poison):
            raise Unsupported("dict under construction")
        if concrete_key(d, x):
            return x in d
        return simp_bool(disj(*[b_(it.equal(k, x)) for k in d])) if d else False
    if isinstance(c, Opaque) and "contains" in c.data:
        return c.data["contains"](it, x)
    if isinstance(c, NDArr):
        r = N.NP.compare(it, "==", c, x)
        return N.arr_any(it, r)
    seq = it.iter_seq(c)
    acc = []
    for p in seq.parts:
        if isinstance(p, Items):
            for y in p.items:
                e = y is x or it.equal(y, x)
                if e is True:
                    return True
                if e is not False:
                    acc.append(e)
        elif isinstance(p, SymPart):
            acc.append(part_contains(it, p, x))
        else:
            raise Unsupported("membership in a list under construction")
    return simp_bool(disj(*acc)) if acc else False


def part_contains(it, p, x):
    from . import loops

    ctx = it.ctx
    g = z3.Const(f"#in{ctx.eng.uid()}", p.dom.sort)
    v = p.val(g)
    tv = v.term if isinstance(v, AbsIdx) else v.ref if isinstance(v, RefObj) else v if is_sym(v) else None
    tx = x.term if isinstance(x, AbsIdx) else x.ref if isinstance(x, RefObj) else lift(x) if is_num(x) else x if is_sym(x) else None
    if isinstance(v, AbsIdx) and isinstance(x, AbsIdx):
        if not ctx.same_dom(v.dom, x.dom):
            raise Unsupported("positions in different sequences")
    if tv is not None and tx is not None and tv.sort() == tx.sort():
        if tv.eq(g):
            return p.dom.cond(tx)
        fi = loops.find_inverse(ctx, tv, g)
        if fi is not None:
            inv, rng = fi
            return conj(rng(tx), p.dom.cond(inv(tx)))
        return ctx.exists([p.dom], lambda w: (p.val(w).term if isinstance(v, AbsIdx) else p.val(w).ref if isinstance(v, RefObj) else p.val(w)) == tx, "in")
    return ctx.exists([p.dom], lambda w: b_(it.equal(p.val(w), x)), "in")


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def concrete_key(d, x):
    """looking x up in d needs no symbolic comparison"""
    return not has_sym(x) and hashable(x) and not any(has_sym(k) for k in d)


def dict_find(it, d, x):
    """the key of d equal to x (decided by cases), or None"""
    if concrete_key(d, x):
        return (next(k for k in d if k == x),) if x in d else None
    for k in d:
        e = it.equal(k, x)
        if e is True or (e is not False and it.ctx.decide(e)):
            return (k,)
    return None


def has_sym(x):
    if isinstance(x, tuple):
        return any(has_sym(y) for y in x)
    return is_sym(x) or isinstance(x, (StrExpr, CharStr, SymStr, Opaque, RefObj, Opt))


def getitem(it, o, ix):
    ctx = it.ctx
    if isinstance(o, Opt):
        o = it.noopt(o)
    if isinstance(ix, Opt):
        ix = it.noopt(ix)
    if isinstance(o, NDArr):
        return N.getitem(it, o, ix)
    if o is None:
        raise PyRaise(TypeError, "None is not subscriptable")
    if isinstance(o, (tuple, ListObj, FrozenList, TupleLike)):
        s = it.iter_seq(o)
        if isinstance(ix, slice):
            r = slice_seq(it, s, slice(*[it.noopt(x) if isinstance(x, Opt) else x for x in (ix.start, ix.stop, ix.step)]))
            if isinstance(o, tuple) and r.concrete() is not None:
                return tuple(r.concrete())
            return ctx.new_list(r) if not isinstance(o, (tuple, TupleLike)) else TupleLike(r)
        return seq_index(it, s, ix)
    if isinstance(o, DictObj):
        return dict_get(it, o, ix)
    if isinstance(o, str):
        if isinstance(ix, slice) and all(not is_sym(x) for x in (ix.start, ix.stop, ix.step)) or isinstance(ix, int):
            try:
                return o[ix]
            except IndexError:
                raise PyRaise(IndexError, "string index out of range")
        raise Unsupported("symbolic string index")
    if isinstance(o, SymStr):
        return S.slc(it, o, ix) if isinstance(ix, slice) else S.index(it, o, ix)
    if isinstance(o, CharStr):
        if isinstance(ix, slice):
            if any(is_sym(x) for x in (ix.start, ix.stop, ix.step)):
                return S.slc(it, SymStr(z3.IntVal(len(o.chars)), lambda i: charat(o.chars, i)), ix)
            return CharStr.make(o.chars[ix])
        if not -len(o.chars) <= ix < len(o.chars):
            raise PyRaise(IndexError, "string index out of range")
        return CharStr.make([o.chars[ix]])
    if isinstance(o, Opaque) and "getitem" in o.data:
        return o.data["getitem"](it, ix)
    if isinstance(o, Obj):
        m = it.find_method(o.cls, "__getitem__") if isinstance(o.cls, ClassVal) else None
        if m is not None:
            return it.call_func(m, [o, ix], {})
        if isinstance(o.cls, ModelClass) and hasattr(o.cls, "getitem"):
            return o.cls.getitem(it, o, ix)
    if isinstance(o, (ModelModule, TypeVal, Native, ClassVal)) or isinstance(o, Opaque) and o.kind == "typing":
        return o  # typing subscript
    if is_num(o):
        raise PyRaise(TypeError, "number is not subscriptable")
    raise Unsupported(f"subscript of {type(o).__name__}")


def charat(chars, i):
    r = code(chars[-1]) if chars else z3.IntVal(0)
    for k in range(len(chars) - 2, -1, -1):
        r = z3.If(lift(i) == k, code(chars[k]), r)
    return z3.simplify(r)


def dict_get(it, o, ix):
    ctx = it.ctx
    d, default = ctx.mem[("dict", o.did)]
    if isinstance(default, Poison):
        raise Unsupported(default.why)
    if concrete_key(d, ix):
        if ix in d:
            return d[ix]
        if default is not None:
            v = it.call(default, [], {})
            d2 = dict(ctx.mem[("dict", o.did)][0])
            d2[ix] = v
            ctx.mem[("dict", o.did)] = (d2, default)
            return v
        raise PyRaise(KeyError, repr(ix))
    k = dict_find(it, d, ix)
    if k is not None:
        return d[k[0]]
    if default is not None:
        raise Unsupported("symbolic key of a defaultdict")
    raise PyRaise(KeyError, "symbolic key")


def setitem(it, o, ix, v):
    ctx = it.ctx
    if isinstance(o, Opt):
        o = it.noopt(o)
    if isinstance(o, NDArr):
        return N.setitem(it, o, ix, v)
    if isinstance(o, ListObj):
        s = ctx.seq(o)
        c = s.concrete()
        if isinstance(ix, slice):
            if ix == slice(None):
                ctx.mem[("list", o.lid)] = it.iter_seq(v)
                return
            raise Unsupported("slice assignment")
        if c is not None and not is_sym(ix) and not isinstance(ix, AbsIdx):
            if not -len(c) <= ix < len(c):
                raise PyRaise(IndexError, "list assignment index out of range")
            c = list(c)
            c[ix] = v
            ctx.mem[("list", o.lid)] = SeqVal([Items(c)])
            return
        raise Unsupported("assignment into a symbolic list")
    if isinstance(o, DictObj):
        d, default = ctx.mem[("dict", o.did)]
        if isinstance(default, Poison):
            raise Unsupported(default.why)
        k = dict_find(it, d, ix)
        if k is not None:
            ix = k[0]
        d = dict(d)
        d[ix] = v
        ctx.mem[("dict", o.did)] = (d, default)
        return
    if isinstance(o, Opaque) and "setitem" in o.data:
        return o.data["setitem"](it, ix, v)
    if isinstance(o, tuple):
        raise PyRaise(TypeError, "tuple does not support item assignment")
    if o is None:
        raise PyRaise(TypeError, "None does not support item assignment")
    if isinstance(o, Obj) and isinstance(o.cls, ClassVal):
        m = it.find_method(o.cls, "__setitem__")
        if m is not None:
            return it.call_func(m, [o, ix, v], {})
    raise Unsupported(f"item assignment on {type(o).__name__}")


def delitem(it, o, ix):
    ctx = it.ctx
    if isinstance(o, DictObj):
        d, default = ctx.mem[("dict", o.did)]
        if isinstance(default, Poison):
            raise Unsupported(default.why)
        d = dict(d)
        k = dict_find(it, d, ix)
        if k is None:
            raise PyRaise(KeyError, repr(ix))
        del d[k[0]]
        ctx.mem[("dict", o.did)] = (d, default)
        return
    if isinstance(o, ListObj):
        c = ctx.seq(o).concrete()
        if c is not None and (isinstance(ix, int) or isinstance(ix, slice) and not any(is_sym(x) for x in (ix.start, ix.stop, ix.step))):
            c = list(c)
            try:
                del c[ix]
            except IndexError:
                raise PyRaise(IndexError, "del")
            ctx.mem[("list", o.lid)] = SeqVal([Items(c)])
            return
        if ix == 0:
            ctx.mem[("list", o.lid)] = pop_front(it, ctx.seq(o))[1]
            return
    raise Unsupported("del item")


def m_len(it, v):
    ctx = it.ctx
    if isinstance(v, Opt):
        v = it.noopt(v)
    if isinstance(v, NDArr):
        if v.ndim == 0:
            raise PyRaise(TypeError, "len() of unsized object")
        d = v.shape[0]
        return ctx.count(d) if isinstance(d, Dom) else d
    if isinstance(v, DictObj):
        d, default = ctx.mem[("dict", v.did)]
        if isinstance(default, Poison):
            raise Unsupported(default.why)
        return len(d)
    if isinstance(v, (str, tuple, set, frozenset)):
        return len(v)
    if isinstance(v, CharStr):
        return len(v.chars)
    if isinstance(v, SymStr):
        return v.n
    if isinstance(v, Opaque) and "len" in v.data:
        return v.data["len"]
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = it.find_method(v.cls, "__len__")
        if m is not None:
            return it.call_func(m, [v], {})
        raise PyRaise(TypeError, "object has no len()")
    if v is None or is_num(v):
        raise PyRaise(TypeError, "object has no len()")
    if isinstance(v, StrExpr):
        # some number at least that of the literal pieces and the renderings
        lo = sum(len(p) if isinstance(p, str) else 1 if is_num(p.val) or isinstance(p.val, (bool, z3.BoolRef)) else 0 for p in v.parts)
        n = ctx.fint("strlen", lo)
        try:
            ctx.assume((n > 0) == b_(strtruth(it, v)))
        except Unsupported:
            pass
        return n
    if isinstance(v, GenVal):
        raise PyRaise(TypeError, "generator has no len()")
    return it.seq_len(it.iter_seq(v))


# --------------------------------------------------------------------------
# scalars and strings
# --------------------------------------------------------------------------
def binop(it, op, a, b):
    ctx = it.ctx
    if isinstance(a, FlatIdx):
        return N.flatidx_binop(it, op, a, b)
    if op == "Add":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (ListObj, FrozenList)) and isinstance(b, (ListObj, FrozenList)):
            return ctx.new_list(SeqVal(it.iter_seq(a).parts + it.iter_seq(b).parts))
        if isinstance(a, (tuple, TupleLike)) and isinstance(b, (tuple, TupleLike)):
            return TupleLike(SeqVal(it.iter_seq(a).parts + it.iter_seq(b).parts))
        if isinstance(a, (str, StrExpr, CharStr, SymStr)) and isinstance(b, (str, StrExpr, CharStr, SymStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, (str, CharStr)) and isinstance(b, (str, CharStr)):
                ca = list(a) if isinstance(a, str) else list(a.chars)
                cb = list(b) if isinstance(b, str) else list(b.chars)
                return CharStr.make(ca + cb)
            if isinstance(a, SymStr) or isinstance(b, SymStr):
                return StrExpr(flat_parts([Tok(x) if isinstance(x, (SymStr, CharStr)) else x for x in (a, b)]))
            return simp_str(StrExpr(flat_parts([a, b])))
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (str, tuple, CharStr)) and isinstance(y, int) and not isinstance(y, bool):
                if isinstance(x, CharStr):
                    return CharStr.make(list(x.chars) * y)
                return x * y
            if isinstance(x, tuple) and isinstance(y, z3.ArithRef) and y.is_int():
                if len(x) == 1:
                    n = y if ctx.valid(y >= 0) else z3.If(y < 0, z3.IntVal(0), y)
                    return TupleLike(SeqVal([SymPart(Dom.dense(ctx_dim(ctx, n)), lambda i: x[0])]))
                raise Unsupported("repetition of a tuple")
            if isinstance(x, ListObj):
                s = ctx.seq(x)
                c = s.concrete()
                if isinstance(y, int):
                    return ctx.new_list(SeqVal(s.parts * max(0, y)))
                if c is not None and len(c) == 1 and isinstance(y, z3.ArithRef) and y.is_int():
                    d = ctx.dim_of_len(y)
                    if isinstance(d, Dom):
                        return ctx.new_list(SeqVal([SymPart(d, lambda i: c[0])]))
                    n = y if ctx.valid(y >= 0) else z3.If(y < 0, z3.IntVal(0), y)
                    return ctx.new_list(SeqVal([SymPart(Dom.dense(n), lambda i: c[0])]))
                raise Unsupported("repetition of a list")
    if op == "Mod" and isinstance(a, (str,)):
        if not has_sym(b):
            return a % b
        raise Unsupported("% formatting")
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {"BitAnd": a & b, "BitOr": a | b, "Sub": a - b, "BitXor": a ^ b}[op]
    if isinstance(a, SetVal) and isinstance(b, SetVal):
        def both(f, facts):
            def pred(ctx):
                if a.pred is None or b.pred is None:
                    raise Unsupported("iteration over a symbolic set")
                (s1, p1, f1, w), (s2, p2, f2, _) = a.pred(ctx), b.pred(ctx)
                if s1 != s2:
                    raise Unsupported("sets of values of different kinds")
                return s1, (lambda u: f(p1(u), p2(u))), (lambda u: facts(f1, f2, u)), w

            return pred

        if op == "BitAnd":
            return SetVal(None, lambda it, x: N.bconj(a.mem(it, x), b.mem(it, x)), pred=both(conj, lambda f, g, u: f(u) + g(u)))
        if op == "BitOr":
            return SetVal(None, lambda it, x: N.bdisj(a.mem(it, x), b.mem(it, x)), pred=both(disj, lambda f, g, u: []))
        if op == "Sub":
            return SetVal(None, lambda it, x: N.bconj(a.mem(it, x), _not(b.mem(it, x))), pred=both(lambda x, y: conj(x, neg(y)), lambda f, g, u: f(u)))
    if op in ("BitAnd", "BitOr", "BitXor") and all(isinstance(x, (bool, z3.BoolRef)) for x in (a, b)):
        if op == "BitAnd":
            return N.bconj(a, b)
        if op == "BitOr":
            return N.bdisj(a, b)
        return N.s_cmp("!=", a, b)
    if isinstance(a, AbsIdx) or isinstance(b, AbsIdx):
        raise Unsupported("arithmetic on an abstract index")
    if (is_num(a) or isinstance(a, (bool, z3.BoolRef))) and (is_num(b) or isinstance(b, (bool, z3.BoolRef))):
        if not is_sym(a) and not is_sym(b):
            try:
                return PYOP[op](a, b)
            except ZeroDivisionError:
                raise PyRaise(ZeroDivisionError, "division by zero")
            except KeyError:
                raise Unsupported(f"operator {op}")
        if op in ("Div", "FloorDiv", "Mod") and is_sym(b):
            if not ctx.valid(lift(b) != 0) and not ctx.decide(lift(b) != 0):
                raise PyRaise(ZeroDivisionError, "division by zero")
            if op != "Div" and isinstance(b, z3.ArithRef):
                if N.isint(a) and N.isint(b) and ctx.valid(b > 0):
                    return lift(a) / b if op == "FloorDiv" else lift(a) % b
        elif op in ("Div", "FloorDiv", "Mod") and b == 0:
            raise PyRaise(ZeroDivisionError, "division by zero")
        return N.s_arith(op, a, b)
    if a is None or b is None:
        raise PyRaise(TypeError, f"unsupported operand {op} with None")
    if isinstance(a, (str, StrExpr, CharStr, SymStr)) != isinstance(b, (str, StrExpr, CharStr, SymStr)) and op == "Add":
        raise PyRaise(TypeError, "can only concatenate str")
    for x, m in ((a, BINMETH.get(op)),):
        if isinstance(x, Obj) and isinstance(x.cls, ClassVal) and m:
            f = it.find_method(x.cls, m)
            if f is not None:
                return it.call_func(f, [a, b], {})
    if isinstance(a, Opaque) and "binop" in a.data:
        return a.data["binop"](it, op, a, b)
    if isinstance(b, Opaque) and "binop" in b.data:
        return b.data["binop"](it, op, a, b)
    if isinstance(a, (tuple, ListObj)) and is_num(b) or isinstance(b, (tuple, ListObj)) and is_num(a):
        raise PyRaise(TypeError, f"unsupported operand types for {op}")
    raise Unsupported(f"{op} on {type(a).__name__} and {type(b).__name__}")


BINMETH = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "MatMult": "__matmul__"}


def ctx_dim(ctx, n):
    d = ctx.dim_of_len(n)
    return d if not isinstance(d, Dom) else n


def _not(x):
    return (not x) if isinstance(x, bool) else neg(x)


def _pydiv(a, b):
    return a / b


PYOP = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": _pydiv,
    "FloorDiv": lambda a, b: a // b, "Mod": lambda a, b: a % b, "Pow": lambda a, b: a**b, "BitAnd": lambda a, b: a & b,
    "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b, "LShift": lambda a, b: a << b, "RShift": lambda a, b: a >> b,
}


def strtruth(it, v):
    if any(isinstance(p, str) and p for p in v.parts):
        return True
    ts = []
    for p in v.parts:
        if isinstance(p, Tok):
            if is_num(p.val) or isinstance(p.val, (z3.BoolRef, bool)):
                return True
            o = p.val
            if isinstance(o, Opaque) and "strtruth" in o.data:
                ts.append(o.data["strtruth"])
                continue
            raise Unsupported("truth of a symbolic string")
    return simp_bool(disj(*ts)) if ts else False


def streq(it, a, b):
    pa = a.parts if isinstance(a, StrExpr) else ((a,) if a else ())
    pb = b.parts if isinstance(b, StrExpr) else ((b,) if b else ())
    if len(pa) == len(pb):
        conds = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    break
            elif isinstance(x, Tok) and isinstance(y, Tok) and x.fmt == y.fmt:
                e = tok_eq(it, x.val, y.val)
                if e is None:
                    break
                conds.append(b_(e))
            else:
                break
        else:
            return simp_bool(conj(*conds)) if conds else True
    # a literal that differs at either end
    la = pa[0] if pa and isinstance(pa[0], str) else ""
    lb = pb[0] if pb and isinstance(pb[0], str) else ""
    n = min(len(la), len(lb))
    if la[:n] != lb[:n]:
        return False
    raise Unsupported("equality of symbolic strings")


def tok_eq(it, x, y):
    try:
        return it.equal(x, y)
    except Unsupported:
        return None


def m_str(it, v):
    if isinstance(v, (str, StrExpr, CharStr, SymStr)):
        return v
    if isinstance(v, (int, float, bool, type(None))) and not is_sym(v):
        return str(v)
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        for n in ("__str__", "__repr__"):
            m = it.find_method(v.cls, n)
            if m is not None:
                return it.call_func(m, [v], {})
    if isinstance(v, Opaque) and "str" in v.data:
        return v.data["str"]
    if isinstance(v, ClassVal):
        return f"<class '{v.qual}'>"
    if isinstance(v, (tuple, Opt, RefObj, Obj, NDArr, ListObj)) or is_sym(v) or isinstance(v, Opaque):
        if isinstance(v, Opt):
            if it.ctx.decide(v.none):
                return "None"
            return m_str(it, v.val)
        return StrExpr([Tok(v)])
    return StrExpr([Tok(Opaque("repr", None, {"of": v}))])


def m_int(it, v, base=None):
    v = it.noopt(v)
    if base is not None:
        return parse_int(it, v, base)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (str,)):
        try:
            return int(v)
        except ValueError as e:
            raise PyRaise(ValueError, str(e))
    if isinstance(v, (int,)):
        return v
    if isinstance(v, (float, Fraction)):
        if v in (float("inf"), float("-inf")) or v != v:
            raise PyRaise(ValueError, "cannot convert float")
        return int(v)
    if isinstance(v, z3.BoolRef):
        return to_int(v)
    if isinstance(v, z3.ArithRef):
        return v if v.is_int() else N.trunc(v)
    if isinstance(v, NDArr):
        return m_int(it, N.item(it, v))
    if isinstance(v, CharStr):
        return parse_int(it, v, 10)
    if isinstance(v, SymStr):
        if not it.ctx.prove_quiet(z3.And(lift(v.n) > 0, v.all(lambda c: S.digit_char(c, True)))):
            if not it.ctx.prove_quiet(z3.And(lift(v.n) > 0, v.all(lambda c: S.digit_char(c, False)))):
                raise Unsupported("int() of a string that may not be digits")
            if not it.ctx.decide(S.all_digits(it.ctx, v, True)):  # "²".isdigit()
                raise PyRaise(ValueError, "invalid literal for int()")
        # the number is a function of the text: recorded for specifications
        r = it.ctx.fint("parsed", 0)
        key = ("glob", "#parsed", 0)
        it.ctx.mem[key] = it.ctx.mem.get(key, ()) + ((r, v),)
        return r
    if isinstance(v, StrExpr) and len(v.parts) == 1 and isinstance(v.parts[0], Tok):
        t = v.parts[0].val
        if isinstance(t, z3.ArithRef) and t.is_int():
            return t
    if isinstance(v, Opaque) and "int" in v.data:
        return v.data["int"](it)
    if v is None or isinstance(v, (tuple, ListObj)):
        raise PyRaise(TypeError, "int() argument")
    raise Unsupported(f"int() of {type(v).__name__}")


def hexval(c):
    """(valid, value) of a hex digit code."""
    if isinstance(c, str):
        try:
            return True, int(c, 16)
        except ValueError:
            return False, 0
    dig = z3.And(c >= 48, c <= 57)
    up = z3.And(c >= 65, c <= 70)
    lo = z3.And(c >= 97, c <= 102)
    return z3.Or(dig, up, lo), z3.If(dig, c - 48, z3.If(up, c - 55, c - 87))


def parse_int(it, v, base):
    if isinstance(v, str):
        try:
            return int(v, base)
        except ValueError as e:
            raise PyRaise(ValueError, str(e))
    if isinstance(v, CharStr):
        if base == 16:
            ok, val = True, z3.IntVal(0)
            for c in v.chars:
                o, d = hexval(c)
                ok = N.bconj(ok, o)
                val = val * 16 + d
        elif base == 10:
            ok, val = True, z3.IntVal(0)
            for c in v.chars:
                cc = code(c)
                ok = N.bconj(ok, z3.And(cc >= 48, cc <= 57))
                val = val * 10 + (cc - 48)
        else:
            raise Unsupported("int() base")
        if ok is not True and not it.ctx.decide(b_(ok)):
            # signs, underscores, blanks and a 0x prefix are also accepted by
            # int(); treated as unknown here
            raise Unsupported("int() of a non-digit string")
        return z3.simplify(val)
    raise Unsupported("int() with a base")


def m_float(it, v):
    v = it.noopt(v)
    if isinstance(v, str):
        try:
            return float(v)
        except ValueError as e:
            raise PyRaise(ValueError, str(e))
    if isinstance(v, (int, float, bool)):
        return float(v)
    if isinstance(v, (z3.ArithRef, z3.BoolRef, Fraction)):
        return to_real(v)
    if isinstance(v, NDArr):
        return to_real(N.item(it, v))
    if v is None:
        raise PyRaise(TypeError, "float() argument")
    raise Unsupported(f"float() of {type(v).__name__}")


TYPE_TESTS = {
    "int": lambda v: isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int() or isinstance(v, z3.BoolRef),
    "float": lambda v: isinstance(v, (float, Fraction)) or isinstance(v, z3.ArithRef) and v.is_real(),
    "bool": lambda v: isinstance(v, (bool, z3.BoolRef)),
    "str": lambda v: isinstance(v, (str, StrExpr, CharStr, SymStr)),
    "list": lambda v: isinstance(v, (ListObj, FrozenList)),
    "tuple": lambda v: isinstance(v, (tuple, TupleLike)),
    "dict": lambda v: isinstance(v, DictObj),
    "set": lambda v: isinstance(v, (set, SetVal)),
    "object": lambda v: True,
}


def isinst(it, v, t):
    if isinstance(t, tuple):
        acc = False
        for x in t:
            r = isinst(it, v, x)
            if r is True:
                return True
            acc = N.bdisj(acc, r)
        return acc
    if isinstance(v, Opt):
        r = isinst(it, v.val, t)
        return N.bconj(neg(b_(v.none)), r) if not (isinstance(t, Native) and t.name == "object") else True
    if isinstance(v, Opaque) and "isinstance" in v.data:
        r = v.data["isinstance"](it, t)
        if r is not None:
            return r
    if isinstance(t, ClassVal):
        if isinstance(v, (Obj, RefObj, FrozenObj)) and isinstance(v.cls, ClassVal):
            return t in v.cls.mro()
        if isinstance(v, Opaque):
            raise Unsupported(f"isinstance of {v}")
        return False
    if isinstance(t, Native):
        f = TYPE_TESTS.get(t.name)
        if f is not None:
            if isinstance(v, Opaque):
                raise Unsupported(f"isinstance of {v}")
            return bool(f(v))
    if isinstance(t, TypeVal):
        return t.test(it, v)
    if isinstance(t, type) and issubclass(t, BaseException):
        return isinstance(v, ExcVal) and issubclass(v.cls, t)
    if isinstance(t, Opaque) and t.kind == "typing":
        if t.data.get("name") == "Callable":
            return callable_(it, v)
        if t.data.get("name") == "Hashable":
            return not isinstance(v, (ListObj, DictObj, NDArr))
        if t.data.get("name") in ("Sequence", "Iterable"):
            return isinstance(v, (ListObj, tuple, str, FrozenList, TupleLike))
        if t.data.get("name") in ("List",):
            return isinstance(v, (ListObj, FrozenList))
        if t.data.get("name") in ("Tuple",):
            return isinstance(v, (tuple, TupleLike))
    if isinstance(t, ModelClass):
        return isinstance(v, Obj) and v.cls is t
    raise Unsupported(f"isinstance against {t!r}")


def callable_(it, v):
    if isinstance(v, (FuncVal, Bound, Native, PartialVal, ClassVal)):
        return True
    if isinstance(v, Opaque):
        if "callable" in v.data:
            return v.data["callable"]
        return "call" in v.data
    if isinstance(v, (Obj, RefObj)) and isinstance(v.cls, ClassVal):
        return it.find_method(v.cls, "__call__") is not None
    return False


def m_minmax(op):
    def f(it, *args, key=None, default=KeyError):
        if key is not None:
            raise Unsupported("min/max with key")
        ctx = it.ctx
        pick = N.s_min if op == "min" else N.s_max
        if len(args) > 1:
            args = [it.noopt(a) for a in args]
            r = args[0]
            if any(isinstance(a, NDArr) for a in args):
                raise Unsupported("min/max of arrays")
            for x in args[1:]:
                if not (N.scalar_ok(r) and N.scalar_ok(x)):
                    raise Unsupported("min/max of non-numbers")
                # ties: the first argument is returned, equal anyway
                r = pick(r, x)
            return r
        if isinstance(args[0], NDArr):
            return (N.arr_min if op == "min" else N.arr_max)(it, args[0]) if args[0].ndim == 1 else N._uns("min of a matrix")
        seq = it.iter_seq(args[0])
        c = seq.concrete()
        if c is not None:
            if not c:
                if default is not KeyError:
                    return default
                raise PyRaise(ValueError, f"{op}() arg is an empty sequence")
            r = c[0]
            for x in c[1:]:
                r = pick(r, x)
            return r
        if default is not KeyError:
            n = it.seq_len(seq)
            if not ctx.decide(lift(n) > 0):
                return default
        arr = N.np_array(it, FrozenList(seq))
        return (N.arr_min if op == "min" else N.arr_max)(it, arr)

    return f


def part_count(it, p):
    """sum of a part whose elements are constants, or truth values: counting"""
    g = z3.Const(f"#s{it.ctx.eng.uid()}", p.dom.sort)
    v = p.val(g)
    if isinstance(v, int):
        return z3.simplify(int(v) * lift(it.ctx.count(p.dom)))
    if not is_bool_term(v):
        if not (is_sym(v) and v.is_int() and v.decl().kind() == z3.Z3_OP_ITE):
            return None
        c, x, y = v.children()
        if not (z3.is_int_value(x) and z3.is_int_value(y)):
            return None
        k, d = y.as_long(), x.as_long() - y.as_long()
        v = c
    else:
        k, d = 0, 1
    n = it.ctx.count(p.dom.sub(lambda i: z3.substitute(v, (g, lift(i)))))
    return z3.simplify(d * lift(n) + (k * lift(it.ctx.count(p.dom)) if k else 0))


def m_sum(it, v, start=0):
    if isinstance(v, NDArr):
        if v.ndim == 1:
            return binop(it, "Add", N.arr_sum(it, v), start) if start != 0 else N.arr_sum(it, v)
        return N.arr_sum(it, v, 0)
    seq = it.iter_seq(v)
    r = start
    for p in seq.parts:
        if isinstance(p, Items):
            for x in p.items:
                r = it.binop("Add", r, x)
        elif isinstance(p, SymPart):
            c = part_count(it, p)
            if c is not None:
                r = it.binop("Add", r, c)
                continue
            a = N.np_array(it, FrozenList(SeqVal([p])))
            r = it.binop("Add", r, N.arr_sum(it, a))
        else:
            raise Unsupported("sum of a list under construction")
    return r


def m_anyall(isany):
    def f(it, v):
        seq = it.iter_seq(v)
        acc = []
        for p in seq.parts:
            if isinstance(p, Items):
                for x in p.items:
                    acc.append(b_(it.truth_sym(x)))
            elif isinstance(p, SymPart):
                if isany:
                    acc.append(it.ctx.exists([p.dom], lambda w: b_(it.truth_sym(p.val(w))), "any"))
                else:
                    acc.append(neg(it.ctx.exists([p.dom], lambda w: neg(b_(it.truth_sym(p.val(w)))), "all")))
            else:
                raise Unsupported("any/all of a list under construction")
        return simp_bool(disj(*acc) if isany else conj(*acc))

    return f


def m_zip(it, *args, **kw):
    N.nokw(kw)
    seqs = [it.iter_seq(a) for a in args]
    if not seqs:
        return GenVal(SeqVal())
    cs = [s.concrete() for s in seqs]
    if all(c is not None for c in cs):
        return GenVal(SeqVal([Items(list(zip(*cs)))]))
    ctx = it.ctx
    if all(len(s.parts) == 1 and isinstance(s.parts[0], SymPart) for s in seqs):
        ps = [s.parts[0] for s in seqs]
        d = ps[0].dom
        if all(ctx.same_dom(d, p.dom) for p in ps[1:]):
            return GenVal(SeqVal([SymPart(d, lambda i: tuple(p.val(i) for p in ps))]))
        if all(p.dom.n is not None for p in ps):
            n = lift(d.n)
            for p in ps[1:]:
                m = lift(p.dom.n)
                n = z3.If(n <= m, n, m)
            return GenVal(SeqVal([SymPart(Dom.dense(n), lambda i: tuple(p.val(i) for p in ps))]))
        raise Unsupported("zip over different index sets")
    # matching part structure
    if len({len(s.parts) for s in seqs}) == 1:
        out = []
        for ps in zip(*[s.parts for s in seqs]):
            if all(isinstance(p, Items) for p in ps) and len({len(p.items) for p in ps}) == 1:
                out.append(Items(list(zip(*[p.items for p in ps]))))
            elif all(isinstance(p, SymPart) for p in ps) and all(ctx.same_dom(ps[0].dom, p.dom) for p in ps[1:]):
                out.append(SymPart(ps[0].dom, lambda i, ps=ps: tuple(p.val(i) for p in ps)))
            else:
                raise Unsupported("zip of differently structured lists")
        return GenVal(SeqVal(out))
    # a concrete sequence shorter than a dense one
    if all(c is not None or (len(s.parts) == 1 and isinstance(s.parts[0], SymPart) and s.parts[0].dom.n is not None) for c, s in zip(cs, seqs)):
        k = min(len(c) for c in cs if c is not None)
        out = []
        for j in range(k):
            row = []
            for c, s in zip(cs, seqs):
                if c is not None:
                    row.append(c[j])
                else:
                    p = s.parts[0]
                    if not ctx.decide(lift(p.dom.n) > j):
                        return GenVal(SeqVal([Items(out)]))
                    row.append(p.val(z3.IntVal(j)))
            out.append(tuple(row))
        return GenVal(SeqVal([Items(out)]))
    raise Unsupported("zip of differently structured sequences")


def m_enumerate(it, v, start=0):
    seq = it.iter_seq(v)
    out, off = [], start
    for p in seq.parts:
        if isinstance(p, Items):
            out.append(Items([(off + k if not is_sym(off) else z3.simplify(off + k), x) for k, x in enumerate(p.items)]))
            off = off + len(p.items)
        elif isinstance(p, SymPart):
            if p.dom.n is not None:
                o = off
                out.append(SymPart(p.dom, lambda i, p=p, o=o: (i if not is_sym(o) and o == 0 else i + lift(o), p.val(i))))
                off = z3.simplify(lift(off) + lift(p.dom.n))
            else:
                if len(seq.parts) > 1 or start != 0:
                    raise Unsupported("enumerate over several index sets")
                out.append(SymPart(p.dom, lambda i, p=p: (AbsIdx(p.dom, i), p.val(i))))
        else:
            raise Unsupported("enumerate over a list under construction")
    return GenVal(SeqVal(out))


def m_range(it, a, b=None, c=None):
    a = it.noopt(a)
    lo, hi = (0, a) if b is None else (a, it.noopt(b))
    for x in (lo, hi):
        if isinstance(x, float) or isinstance(x, z3.ArithRef) and x.is_real():
            raise PyRaise(TypeError, "float in range")
    return RangeVal(lo, hi, 1 if c is None else c)


def m_list(it, v=None):
    if v is None:
        return it.ctx.new_list()
    return it.ctx.new_list(it.iter_seq(v))


def m_tuple(it, v=None):
    if v is None:
        return ()
    if isinstance(v, tuple):
        return v
    s = it.iter_seq(v)
    c = s.concrete()
    if c is not None:
        return tuple(c)
    if any(not isinstance(p, (Items, SymPart)) for p in s.parts):
        raise Unsupported("tuple of a list under construction")
    return TupleLike(s)


def make_set(it, seq):
    c = seq.concrete()
    if c is not None and all(not has_sym(x) and hashable(x) for x in c):
        return frozenset(c) if False else set(c)
    parts = seq.parts
    fl = FrozenList(seq)

    def mem(it, x):
        return contains(it, fl, x)


    def pred(ctx):
        """membership as a predicate with witnesses (positions)"""
        if not all(isinstance(p, SymPart) for p in parts) or not parts:
            raise Unsupported("iteration over a symbolic set")
        sort, wrap, preds, facts = None, None, [], []
        for p in parts:
            g = z3.Const(ctx.name("#s"), p.dom.sort)
            v = p.val(g)
            if isinstance(v, Opaque) and v.term is not None:
                t = v.term
                data = v.data

                def w(u, kind=v.kind, data=data, t=t):
                    d = {k: (z3.substitute(x, (t, u)) if is_sym(x) else x) for k, x in data.items()}
                    return Opaque(kind, u, d)
            elif isinstance(v, z3.ExprRef):
                t, w = v, (lambda u: u)
            else:
                raise Unsupported("iteration over a symbolic set")
            if sort is not None and sort != t.sort():
                raise Unsupported("a set of values of different kinds")
            sort, wrap = t.sort(), w
            tf = lambda i, p=p, g=g, t=t: t if i.eq(g) else z3.substitute(t, (g, i))
            if t.eq(g):
                preds.append(lambda u, p=p: p.dom.cond(u))
                facts.append(lambda u, p=p: p.dom.facts(u))
                continue
            Pn = ctx.fresh_fn("elem", [sort], z3.BoolSort())
            wit = ctx.fresh_fn("elem_at", [sort], p.dom.sort)
            ctx.forall([g], z3.Implies(p.dom.cond(g), Pn(t)))
            fs = lambda u, p=p, tf=tf, wit=wit: [p.dom.cond(wit(u)), tf(wit(u)) == u] + list(p.dom.facts(wit(u)))
            u = z3.Const("#u", sort)
            ctx.forall([u], z3.Implies(Pn(u), conj(*fs(u)[:2])), pats=[Pn(u)])
            preds.append(lambda u, Pn=Pn: Pn(u))
            facts.append(fs)
        one = len(preds) == 1
        r = (sort, lambda u: disj(*[q(u) for q in preds]), (lambda u: facts[0](u)) if one else (lambda u: []), wrap)
        return r

    return SetVal(None, mem, pred=pred)


def m_sorted(it, v, key=None, reverse=False):
    seq = it.iter_seq(v)
    c = seq.concrete()
    if c is None or any(has_sym(x) for x in c):
        if len(c or (0, 0)) <= 1:
            return it.ctx.new_list(seq)
        raise Unsupported("sorted of symbolic values")
    if key is not None:
        ks = [it.call(key, [x], {}) for x in c]
        if any(has_sym(k) for k in ks):
            raise Unsupported("sorted by symbolic keys")
        return it.ctx.new_list([x for _, x in sorted(zip(ks, c), key=lambda t: t[0], reverse=reverse)])
    return it.ctx.new_list(sorted(c, reverse=reverse))


def m_reversed(it, v):
    s = it.iter_seq(v)
    out = []
    for p in reversed(s.parts):
        if isinstance(p, Items):
            out.append(Items(tuple(reversed(p.items))))
        elif isinstance(p, SymPart) and p.dom.n is not None:
            n = lift(p.dom.n)
            out.append(SymPart(p.dom, lambda i, p=p, n=n: p.val(n - 1 - i)))
        else:
            raise Unsupported("reversed of an index set")
    return GenVal(SeqVal(out))


def m_map(it, f, *seqs):
    from . import loops

    if len(seqs) != 1:
        raise Unsupported("map over several sequences")
    s = it.iter_seq(seqs[0])
    parts = []
    for p in s.parts:
        if isinstance(p, Items):
            parts.append(Items([it.call(f, [x], {}) for x in p.items]))
        else:
            parts.extend(loops.comp_bulk(it, p, lambda v: SeqVal([Items([it.call(f, [v], {})])])))
    return GenVal(SeqVal(parts))


def m_hash(it, v):
    if isinstance(v, Opt):
        v = None if it.ctx.decide(v.none) else v.val
    if isinstance(v, Opaque) and v.term is not None and v.term.sort() == U:
        return HASH(v.term)
    if isinstance(v, (ListObj, DictObj, NDArr)):
        raise PyRaise(TypeError, "unhashable type")
    if isinstance(v, z3.ArithRef) and v.is_int():
        f = z3.Function("HASHINT", z3.IntSort(), z3.IntSort())
        return f(v)
    if v is None:
        return z3.Int("HASHNONE")
    raise Unsupported("hash")


def m_getattr(it, o, name, default=KeyError):
    if isinstance(name, (SymStr, CharStr)) and isinstance(o, ClassVal):
        for q in o.mro():
            for k in list(q.names) if hasattr(q, "names") else [x[2] for x in it.ctx.mem if x[0] == "cls" and x[1] == q.qual] + [x for x in q.methods if isinstance(x, str)]:
                if it.truth(it.equal(name, k)):
                    return it.get_attr(o, k)
        if default is not KeyError:
            return default
        raise PyRaise(AttributeError, "no such attribute")
    if not isinstance(name, str):
        raise Unsupported("getattr with a symbolic name")
    try:
        return it.get_attr(o, name)
    except PyRaise as e:
        if default is not KeyError and issubclass(e.cls, AttributeError):
            return default
        raise


def m_hasattr(it, o, name):
    try:
        it.get_attr(o, name)
        return True
    except PyRaise as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def m_type(it, v):
    if isinstance(v, (Obj, RefObj, FrozenObj)):
        return v.cls
    if isinstance(v, ExcVal):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict"):
        if not isinstance(v, Opaque) and TYPE_TESTS[n](v):
            return it.models["builtins"].attrs[n]
    return Opaque("type", None, {"str": "<class>"})


def m_round(it, v, n=None):
    v = it.noopt(v)
    if n is not None:
        if not is_sym(v) and not is_sym(n):
            return round(v, n)
        raise Unsupported("round to digits")
    if N.isint(v):
        return v
    if not is_sym(v):
        return round(v)
    return N.RND(v)


def m_abs(it, v):
    v = it.noopt(v)
    if isinstance(v, NDArr):
        return N.emap(it, N.s_abs, v)
    return N.s_abs(v)


def m_dict(it, v=None, **kw):
    d = {}
    if v is not None:
        if isinstance(v, DictObj):
            d.update(it.ctx.mem[("dict", v.did)][0])
        else:
            for x in it.iter_seq(v).concrete() or N._uns("dict of a symbolic sequence"):
                k, y = it.unpack(x, 2)
                d[k] = y
    d.update(kw)
    return it.new_dict(d)


def m_next(it, v, default=KeyError):
    if isinstance(v, GenVal):
        n = it.seq_len(v.seq)
        if (not is_sym(n) and n == 0) or (is_sym(n) and not it.ctx.decide(n > 0)):
            if default is not KeyError:
                return default
            raise PyRaise(StopIteration, "")
        x, rest = pop_front(it, v.seq) if not isinstance(v.seq.parts[0], SymPart) or v.seq.parts[0].dom.n is not None else (
            seq_index(it, v.seq, 0), None)
        if rest is None:
            raise_after = Unsupported("generator advanced over an index set")
            v.seq = SeqVal([MarkPart("next")])
        else:
            v.seq = rest
        return x
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = it.find_method(v.cls, "__next__")
        if m:
            return it.call_func(m, [v], {})
    if isinstance(v, Opaque) and "next" in v.data:
        return v.data["next"](it, v) if default is KeyError else v.data["next"](it, v, default)
    raise Unsupported("next()")


def m_iter(it, v):
    if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
        m = it.find_method(v.cls, "__iter__")
        if m:
            return it.call_func(m, [v], {})
    return GenVal(it.iter_seq(v))


def ignore(it, *a, **k):
    return None


def nat(name, f):
    return Native(name, lambda it, args, kw: f(it, *args, **kw))


BUILTINS = {}


def builtins_module():
    fs = {
        "len": m_len, "min": m_minmax("min"), "max": m_minmax("max"), "int": lambda it, v=0, base=None: m_int(it, v, base),
        "float": lambda it, v=0.0: m_float(it, v), "str": lambda it, v="": m_str(it, v), "bool": lambda it, v=False: it.truth_sym(v),
        "isinstance": isinst, "zip": m_zip, "enumerate": m_enumerate, "range": m_range, "list": m_list, "tuple": m_tuple,
        "set": lambda it, v=(): make_set(it, it.iter_seq(v)), "dict": m_dict, "sorted": m_sorted, "reversed": m_reversed,
        "sum": m_sum, "any": m_anyall(True), "all": m_anyall(False), "map": m_map, "hash": m_hash, "getattr": m_getattr,
        "hasattr": m_hasattr, "setattr": lambda it, o, n, v: it.set_attr(o, n, v), "type": m_type, "callable": callable_,
        "round": m_round, "abs": m_abs, "print": ignore, "next": m_next, "iter": m_iter, "repr": lambda it, v: m_str(it, v),
        "object": lambda it: it.ctx.new_obj(ModelClass()), "frozenset": lambda it, v=(): make_set(it, it.iter_seq(v)),
        "id": lambda it, v: N._uns("id()"), "divmod": lambda it, a, b: (it.binop("FloorDiv", a, b), it.binop("Mod", a, b)),
        "slice": lambda it, *a: slice(*a), "pow": lambda it, a, b: it.binop("Pow", a, b),
        "filter": lambda it, f, s: N._uns("filter"), "ord": lambda it, c: ord(c) if isinstance(c, str) else code(c.chars[0]),
        "format": lambda it, v, spec="": it.fmt(v, spec), "chr": lambda it, v: chr(v),
    }
    for k, f in fs.items():
        BUILTINS[k] = nat(k, f)
    BUILTINS["NotImplemented"] = Opaque("NotImplemented")
    BUILTINS["Ellipsis"] = Ellipsis
    BUILTINS["__debug__"] = True
    return ModelModule("builtins", BUILTINS)


# --------------------------------------------------------------------------
# methods of builtin types
# --------------------------------------------------------------------------
def list_append(it, l, v):
    it.list_extend(l, SeqVal([Items([v])]))


def list_pop(it, l, i=-1):
    ctx = it.ctx
    s = ctx.seq(l)
    if any(isinstance(p, MarkPart) for p in s.parts):
        raise Unsupported("pop from a list under construction")
    c = s.concrete()
    if c is not None and not is_sym(i):
        if not c or not -len(c) <= i < len(c):
            raise PyRaise(IndexError, "pop index out of range")
        c = list(c)
        v = c.pop(i)
        ctx.mem[("list", l.lid)] = SeqVal([Items(c)])
        return v
    if i == 0:
        v, r = pop_front(it, s)
    elif i == -1:
        v, r = pop_back(it, s)
    else:
        raise Unsupported("pop from the middle of a symbolic list")
    ctx.mem[("list", l.lid)] = r
    return v


def list_remove(it, l, x):
    ctx = it.ctx
    s = ctx.seq(l)
    c = s.concrete()
    if c is not None:
        c = list(c)
        for k, y in enumerate(c):
            e = y is x or it.equal(y, x)
            if e is True or (e is not False and ctx.decide(e)):
                del c[k]
                ctx.mem[("list", l.lid)] = SeqVal([Items(c)])
                return
        raise PyRaise(ValueError, "list.remove(x): x not in list")
    if isinstance(s.parts[0], MarkPart):
        if len(s.parts) > 1:
            raise Unsupported("remove from a list being appended to")
        # presence in the list at loop entry is an obligation of the engine
        entry = getattr(s.parts[0], "entry", None)
        ctx.mem[("list", l.lid)] = SeqVal([MarkPart(s.parts[0].tag, s.parts[0].removed + (x,))])
        return
    if not isinstance(x, RefObj):
        raise Unsupported("remove of a non-object")
    out = []
    present = contains(it, l, x)
    if present is not True and not ctx.decide(b_(present)):
        raise PyRaise(ValueError, "list.remove(x): x not in list")
    for p in s.parts:
        if isinstance(p, SymPart):
            g = z3.Const("#rm", p.dom.sort)
            v = p.val(g)
            if not isinstance(v, RefObj):
                raise Unsupported("remove")
            if not v.ref.eq(g):
                raise Unsupported("remove from a list that may hold duplicates")
            out.append(SymPart(p.dom.sub(lambda i, p=p: p.val(i).ref != x.ref), p.val))
        else:
            raise Unsupported("remove from a mixed list")
    ctx.mem[("list", l.lid)] = SeqVal(out)


def list_insert(it, l, i, v):
    ctx = it.ctx
    s = ctx.seq(l)
    c = s.concrete()
    if i == 0:
        ctx.mem[("list", l.lid)] = SeqVal((Items([v]),) + s.parts)
        if s.parts and isinstance(s.parts[0], MarkPart):
            raise Unsupported("insert in a loop")
        return
    if c is not None and not is_sym(i):
        c = list(c)
        c.insert(i, v)
        ctx.mem[("list", l.lid)] = SeqVal([Items(c)])
        return
    raise Unsupported("insert")


def list_clear(it, l):
    it.ctx.mem[("list", l.lid)] = SeqVal()


def list_index(it, l, x):
    c = it.iter_seq(l).concrete()
    if c is None:
        raise Unsupported("index in a symbolic list")
    for k, y in enumerate(c):
        e = y is x or it.equal(y, x)
        if e is True or (e is not False and it.ctx.decide(e)):
            return k
    raise PyRaise(ValueError, "not in list")


LISTM = {
    "append": list_append, "pop": list_pop, "remove": list_remove, "insert": list_insert, "clear": list_clear,
    "extend": lambda it, l, v: it.list_extend(l, it.iter_seq(v)), "copy": lambda it, l: it.ctx.new_list(it.iter_seq(l)),
    "index": list_index, "reverse": lambda it, l: it.ctx.mem.__setitem__(("list", l.lid), m_reversed(it, l).seq),
    "sort": lambda it, l, key=None, reverse=False: it.ctx.mem.__setitem__(("list", l.lid), it.iter_seq(m_sorted(it, l, key, reverse))),
    "count": lambda it, l, x: m_sum(it, GenVal(SeqVal([Items([b_(it.equal(y, x)) for y in it.iter_seq(l).concrete()])]))),
    "__len__": m_len,
}


def dict_m(name):
    def f(it, d, *args):
        ctx = it.ctx
        dd, default = ctx.mem[("dict", d.did)]
        if isinstance(default, Poison):
            raise Unsupported(default.why)
        if name == "items":
            return GenVal(SeqVal([Items(list(dd.items()))]))
        if name == "keys":
            return GenVal(SeqVal([Items(list(dd.keys()))]))
        if name == "values":
            return GenVal(SeqVal([Items(list(dd.values()))]))
        if name == "get":
            k = dict_find(it, dd, args[0])
            return dd[k[0]] if k is not None else args[1] if len(args) > 1 else None
        if name == "copy":
            return it.new_dict(dd, default)
        if name == "update":
            d2 = dict(dd)
            if not isinstance(args[0], DictObj):
                raise Unsupported("dict.update")
            for key, v in ctx.mem[("dict", args[0].did)][0].items():
                k = dict_find(it, d2, key)
                d2[key if k is None else k[0]] = v
            ctx.mem[("dict", d.did)] = (d2, default)
            return None
        if name == "pop":
            k = dict_find(it, dd, args[0])
            if k is not None:
                d2 = dict(dd)
                v = d2.pop(k[0])
                ctx.mem[("dict", d.did)] = (d2, default)
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(KeyError, repr(args[0]))
        if name == "setdefault":
            k = dict_find(it, dd, args[0])
            if k is None:
                d2 = dict(dd)
                d2[args[0]] = args[1] if len(args) > 1 else None
                ctx.mem[("dict", d.did)] = (d2, default)
                return d2[args[0]]
            return dd[k[0]]
        raise Unsupported(f"dict.{name}")

    return f


def str_join(it, sep, v):
    seq = it.iter_seq(v)
    c = seq.concrete()
    if c is None:
        return StrExpr([Tok(("join", sep, seq))])
    for x in c:
        if not isinstance(x, (str, StrExpr, CharStr, SymStr)):
            raise PyRaise(TypeError, "sequence item: expected str")
    out = []
    for k, x in enumerate(c):
        if k:
            out.append(sep)
        out.append(x)
    if any(isinstance(x, CharStr) for x in out):
        r = ""
        for x in out:
            r = binop(it, "Add", r, x)
        return r
    return simp_str(StrExpr(flat_parts(out)))


def str_method(it, s, name):
    if name == "join":
        return nat("str.join", lambda it, v: str_join(it, s, v))
    if isinstance(s, str):
        if name == "format":
            return nat("str.format", lambda it, *a, **k: str_format(it, s, a, k))
        if not hasattr(s, name):
            raise PyRaise(AttributeError, f"str has no attribute {name}")

        def f(it, *a, **k):
            if any(has_sym(x) for x in a):
                if name in ("startswith", "endswith") and isinstance(a[0], (StrExpr,)):
                    raise Unsupported("symbolic prefix")
                raise Unsupported(f"str.{name} with symbolic arguments")
            try:
                r = getattr(s, name)(*a, **k)
            except (ValueError, TypeError, IndexError, KeyError) as e:
                raise PyRaise(type(e), str(e))
            return it.ctx.new_list(r) if isinstance(r, list) else r

        return nat("str." + name, f)
    if isinstance(s, SymStr):
        def y(it, *a, **k):
            if name in ("startswith", "endswith") and isinstance(a[0], str) and len(a) == 1:
                p = a[0]
                off = 0 if name == "startswith" else s.n - len(p)
                return simp_bool(conj(s.n >= len(p), *[s.fn(off + j) == ord(c) for j, c in enumerate(p)]))
            if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], (CharStr, SymStr)):
                p = a[0]
                n = lift(S.length(p))
                if name == "startswith":
                    seg = SymStr(n, s.fn, s.base, s.off)
                else:
                    d = z3.simplify(lift(s.n) - n)
                    seg = SymStr(n, lambda i: s.fn(z3.simplify(i + d)), s.base, z3.simplify(lift(s.off) + d))
                return simp_bool(conj(lift(s.n) >= n, b_(S.eq(seg, p))))
            if name in ("isdigit", "isdecimal"):
                return S.all_digits(it.ctx, s, name == "isdecimal")
            if name in ("lower", "upper") and not a:
                lo, hi, d = (65, 90, 32) if name == "lower" else (97, 122, -32)
                cv = lambda c: z3.If(z3.And(c >= lo, c <= hi), c + d, c)  # ASCII case mapping
                return SymStr(s.n, lambda i: cv(s.fn(i)), lambda i: cv(s.base(i)), s.off)
            raise Unsupported(f"str.{name} of a string of unknown length")

        if not hasattr("", name):
            raise PyRaise(AttributeError, f"str has no attribute {name}")
        return nat("str." + name, y)
    if isinstance(s, CharStr):
        def g(it, *a, **k):
            cs = s.chars
            if name in ("startswith", "endswith") and isinstance(a[0], str):
                p = a[0]
                if len(p) > len(cs):
                    return False
                seg = cs[: len(p)] if name == "startswith" else cs[len(cs) - len(p):]
                return simp_bool(conj(*[b_(code(x) == ord(y)) if not isinstance(x, str) else b_(x == y) for x, y in zip(seg, p)]))
            if name in ("lower", "upper"):
                def cv(c):
                    if isinstance(c, str):
                        return getattr(c, name)()
                    if name == "lower":
                        return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
                    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)

                # ASCII case mapping; the contracts using it restrict characters to ASCII
                return CharStr.make([cv(c) for c in cs])
            if name == "lstrip" and a and isinstance(a[0], str):
                k0 = 0
                while k0 < len(cs):
                    hit = contains(it, a[0], CharStr.make([cs[k0]])) if not isinstance(cs[k0], str) else cs[k0] in a[0]
                    if hit is True or (hit is not False and it.ctx.decide(hit)):
                        k0 += 1
                    else:
                        break
                return CharStr.make(cs[k0:])
            if name in ("isdigit", "isdecimal"):
                return simp_bool(conj(*[b_(getattr(c, name)()) if isinstance(c, str) else S.digit_char(code(c), name == "isdecimal") for c in cs])) if cs else False
            raise Unsupported(f"str.{name} of a symbolic string")

        return nat("str." + name, g)
    if isinstance(s, StrExpr):
        def h(it, *a, **k):
            if name == "encode":
                return s
            if name in ("startswith",) and isinstance(a[0], str) and s.parts and isinstance(s.parts[0], str) and len(s.parts[0]) >= len(a[0]):
                return s.parts[0].startswith(a[0])
            if name in ("endswith",) and isinstance(a[0], str) and s.parts and isinstance(s.parts[-1], str) and len(s.parts[-1]) >= len(a[0]):
                return s.parts[-1].endswith(a[0])
            if name == "format":
                return str_format(it, s, a, k)
            from . import osmodel

            r = osmodel.str_ops(it, s, name, a, k)
            if r is not NotImplemented:
                return r
            raise Unsupported(f"str.{name} of a symbolic string")

        return nat("str." + name, h)


def str_format(it, s, a, k):
    import string

    if not isinstance(s, str):
        raise Unsupported("format of a symbolic string")
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported("format field")
        out.append(it.fmt(v, spec or ""))
    return simp_str(StrExpr(flat_parts(out)))


def attr(it, o, name):
    if isinstance(o, ListObj):
        if name in LISTM:
            return nat("list." + name, lambda it, *a, **k: LISTM[name](it, o, *a, **k))
        raise PyRaise(AttributeError, f"list has no attribute {name}")
    if isinstance(o, DictObj):
        return nat("dict." + name, lambda it, *a: dict_m(name)(it, o, *a))
    if isinstance(o, (str, StrExpr, CharStr, SymStr)):
        return str_method(it, o, name)
    if isinstance(o, Opaque):
        if name in o.data.get("attrs", {}):
            return o.data["attrs"][name]
        if "getattr" in o.data:
            return o.data["getattr"](it, o, name)
        raise Unsupported(f"attribute {name} of {o}")
    if isinstance(o, (FuncVal, Native)):
        if name in ("__name__", "__qualname__"):
            return o.name
        raise PyRaise(AttributeError, name)
    if isinstance(o, Bound):
        if name == "__self__":
            return o.self_
        raise Unsupported(name)
    if isinstance(o, ExcVal):
        if name == "args":
            return o.args
        raise Unsupported(name)
    if isinstance(o, tuple) and name in ("index", "count"):
        return nat("tuple." + name, lambda it, x: list_index(it, o, x))
    if isinstance(o, (set, frozenset)):
        def f(it, *a):
            args = [set(it.iter_seq(x).concrete()) if not isinstance(x, (set, frozenset)) else x for x in a]
            return getattr(set(o), name)(*args)
        if name in ("intersection", "union", "difference", "issubset"):
            return nat("set." + name, f)
        raise Unsupported(f"set.{name}")
    if isinstance(o, SetVal):
        if name in ("intersection", "union", "difference"):
            op = {"intersection": "BitAnd", "union": "BitOr", "difference": "Sub"}[name]
            return nat("set." + name, lambda it, x: binop(it, op, o, x if isinstance(x, SetVal) else SetVal(None, lambda it, y: contains(it, x, y))))
    if is_num(o) or isinstance(o, (bool, z3.BoolRef)):
        # numpy scalars
        ms = {"item": lambda it: o, "astype": lambda it, dt: N.cast(it.ctx, o, N.dtype_arg(dt)), "any": lambda it: it.truth_sym(o),
              "all": lambda it: it.truth_sym(o), "min": lambda it, **k: o, "max": lambda it, **k: o, "sum": lambda it, **k: o}
        if name in ms:
            return nat("scalar." + name, ms[name])
        if name == "real":
            return o
        raise PyRaise(AttributeError, f"number has no attribute {name}")
    if isinstance(o, TypeVal):
        raise Unsupported(f"{o}.{name}")
    if isinstance(o, type):
        if name == "__name__":
            return o.__name__
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def typing_module():
    names = ("Any Callable Dict Hashable Iterable List Optional Sequence Tuple Union Set Iterator Type TypeVar Generator "
             "Literal NamedTuple cast overload TYPE_CHECKING Mapping Collection").split()
    r = {n: Opaque("typing", None, {"name": n}) for n in names}
    r["TYPE_CHECKING"] = False
    return r


def m_partial(it, f, *a, **k):
    return PartialVal(f, a, k)


def m_defaultdict(it, factory=None, *a):
    o = it.new_dict({}, factory)
    return o


def m_copy(it, v):
    if isinstance(v, NDArr):
        return N.copy_arr(it, v)
    if isinstance(v, ListObj):
        return it.ctx.new_list(it.iter_seq(v))
    if isinstance(v, (int, float, str, tuple, type(None))) or is_sym(v):
        return v
    if isinstance(v, Obj):
        return shallow(it, v)
    raise Unsupported("copy.copy")


def shallow(it, o):
    ctx = it.ctx
    n = ctx.new_obj(o.cls)
    for a in ctx.mem.get(("names", o.oid), ()):
        if ("attr", o.oid, a) in ctx.mem:
            ctx.setattr(n, a, ctx.mem[("attr", o.oid, a)])
    return n


def m_deepcopy(it, v, memo=None):
    ctx = it.ctx
    memo = {} if memo is None or not isinstance(memo, dict) else memo
    if isinstance(v, NDArr):
        return N.copy_arr(it, v)
    if isinstance(v, (int, float, str, type(None), FuncVal, ClassVal, Native)) or is_sym(v) or isinstance(v, Bound):
        return v
    if isinstance(v, tuple):
        return tuple(m_deepcopy(it, x, memo) for x in v)
    if isinstance(v, ListObj):
        if v in memo:
            return memo[v]
        c = ctx.seq(v).concrete()
        if c is None:
            raise Unsupported("deepcopy of a symbolic list")
        n = memo[v] = ctx.new_list([m_deepcopy(it, x, memo) for x in c])
        return n
    if isinstance(v, Opt):
        return Opt(v.none, m_deepcopy(it, v.val, memo))
    if isinstance(v, Obj):
        if v in memo:
            return memo[v]
        n = memo[v] = ctx.new_obj(v.cls)
        for a in ctx.mem.get(("names", v.oid), ()):
            if ("attr", v.oid, a) in ctx.mem:
                ctx.setattr(n, a, m_deepcopy(it, ctx.mem[("attr", v.oid, a)], memo))
        return n
    if isinstance(v, Opaque):
        if "deepcopy" in v.data:
            return v.data["deepcopy"](it)
        return Opaque(v.kind, v.term, v.data)
    raise Unsupported(f"deepcopy of {type(v).__name__}")


def base_models():
    m = {}
    m["builtins"] = builtins_module()
    m["#attr"], m["#len"], m["#strtruth"], m["#streq"] = attr, m_len, strtruth, streq
    m["#contains"], m["#binop"], m["#iter"], m["#seqindex"] = contains, binop, iter_seq, seq_index
    m["#getitem"], m["#setitem"], m["#delitem"], m["#set"] = getitem, setitem, delitem, make_set
    m["numpy"] = N.numpy_module()
    m["numpy.linalg"] = m["numpy"].attrs["linalg"]
    m["typing"] = ModelModule("typing", typing_module())
    m["collections.abc"] = ModelModule("collections.abc", typing_module())
    m["collections"] = ModelModule("collections", {"defaultdict": nat("defaultdict", m_defaultdict),
                                                   "OrderedDict": nat("OrderedDict", m_dict), "abc": m["collections.abc"]})
    m["abc"] = ModelModule("abc", {"ABC": Native("ABC", lambda it, a, k: None), "abstractmethod": Native("abstractmethod", lambda it, a, k: a[0])})
    m["functools"] = ModelModule("functools", {"partial": nat("partial", m_partial), "lru_cache": nat("lru_cache", lambda it, *a, **k: None)})
    warn = nat("warning", ignore)
    m["re"] = S.re_module()
    m["logging"] = ModelModule("logging", {"warning": warn, "warn": warn, "info": warn, "debug": warn, "error": warn,
                                           "getLogger": nat("getLogger", lambda it, *a: Opaque("logger", None, {"getattr": lambda it, o, n: warn}))})
    m["warnings"] = ModelModule("warnings", {"warn": warn})
    m["copy"] = ModelModule("copy", {"copy": nat("copy", m_copy), "deepcopy": nat("deepcopy", m_deepcopy)})
    m["math"] = ModelModule("math", {
        "sqrt": nat("math.sqrt", lambda it, x: N.SQRT(to_real(it.noopt(x)))),
        "inf": float("inf"), "pi": 3.141592653589793,
        "floor": nat("math.floor", lambda it, x: x if N.isint(x) else z3.ToInt(to_real(x))),
        "ceil": nat("math.ceil", lambda it, x: x if N.isint(x) else -z3.ToInt(-to_real(x))),
    })
    m["warning"] = warn
    return m


def make_interp(ctx, extra=None, contracts=None):
    from .interp import Interp

    models = base_models()
    models.update(extra or {})
    it = Interp(ctx, models, contracts or {})
    it.np = N.NP
    return it
