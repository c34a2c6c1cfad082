"""Contracts of the numpy functions used by norfair, over lazy arrays.

Trusted: these models describe numpy's documented behaviour on arrays of
mathematical reals/ints/bools; selfcheck.py samples them against numpy."""
import z3

from .core import *
from .interp import ModelModule, Native, ListObj, PyRaise, GenVal, simp_bool, Opt

I0 = z3.IntVal(0)
SQRT = z3.Function("SQRT", z3.RealSort(), z3.RealSort())
RND = z3.Function("RND", z3.RealSort(), z3.IntSort())
UF = {}


def ufun(name):
    if name not in UF:
        UF[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return UF[name]


def base_axioms():
    x, y = z3.Reals("#qx #qy")
    return [
        z3.ForAll([x], z3.Implies(x >= 0, z3.And(SQRT(x) >= 0, SQRT(x) * SQRT(x) == x)), patterns=[SQRT(x)]),
        z3.ForAll([x], z3.And(2 * (z3.ToReal(RND(x)) - x) <= 1, 2 * (x - z3.ToReal(RND(x))) <= 1), patterns=[RND(x)]),
    ]


def term(i):
    return i if is_sym(i) else z3.IntVal(i)


def dim_sort(d):
    return d.sort if isinstance(d, Dom) else z3.IntSort()


def dim_dom(d):
    return d if isinstance(d, Dom) else Dom.dense(d)


def norm_dim(d):
    """Dense Doms become their length; literal terms become ints."""
    if isinstance(d, Dom):
        if d.n is None:
            return d
        d = d.n
    if is_sym(d):
        d = z3.simplify(d)
        if z3.is_int_value(d):
            return d.as_long()
    return d


def concrete(d):
    return isinstance(d, int)


def isone(d):
    return isinstance(d, int) and d == 1


def memo(f):
    cache = {}

    def g(*ix):
        key = tuple(i.get_id() for i in ix)
        hit = cache.get(key)
        if hit is not None:
            return hit[1]
        r = f(*ix)
        cache[key] = (ix, r)
        return r

    return g


def select(items, i):
    """items[i] for a term i (in range)."""
    if z3.is_int_value(i):
        return items[i.as_long()]
    r = items[-1]
    for k in range(len(items) - 2, -1, -1):
        r = ite(i == k, items[k], r)
    return r


def gvar(d, k):
    return z3.Const(f"#v{k}", dim_sort(d))


DT_RANK = {"b": 0, "u8": 1, "i": 2, "f32": 3, "f": 4}
DTYPE_OF = {float: "f", int: "i", bool: "b"}


def scalar_dtype(v):
    if isinstance(v, (bool, z3.BoolRef)):
        return "b"
    if isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int():
        return "i"
    if is_num(v):
        return "f"
    return "O"


def cast(ctx, v, dt):
    if dt in ("f", "f32"):
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, int):
            return float(v) if abs(v) < 2**50 else v
        if is_num(v) or isinstance(v, z3.BoolRef):
            return v if isinstance(v, float) else to_real(v)
        if isinstance(v, Opt) or v is None:
            raise Unsupported("optional value in an array")
        raise PyRaise(TypeError, f"float() of {type(v).__name__}")
    if dt == "i":
        if isinstance(v, (bool, z3.BoolRef)):
            return int(v) if isinstance(v, bool) else to_int(v)
        if isinstance(v, float):
            return int(v)
        if isinstance(v, z3.ArithRef) and v.is_real():
            return trunc(v)
        return v
    if dt == "b":
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if is_sym(v):
            return v != 0
        return bool(v)
    if dt == "u8":
        if isinstance(v, (bool, z3.BoolRef)):
            return to_int(v) if is_sym(v) else int(v)
        if not is_sym(v):
            return int(v) % 256
        if v.is_real():
            t = trunc(v)
            return z3.If(z3.And(t >= 0, t < 256), t, WRAP8(t))
        return z3.If(z3.And(v >= 0, v < 256), v, v % 256)
    return v


WRAP8 = z3.Function("WRAP8", z3.IntSort(), z3.IntSort())  # float to uint8 out of range: unspecified


def trunc(r):
    if z3.is_expr(r) and r.is_int():
        return r
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def s_arith(op, a, b):
    """Scalar arithmetic; bools count as ints."""
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, z3.BoolRef):
        a = to_int(a)
    if isinstance(b, z3.BoolRef):
        b = to_int(b)
    if not is_num(a) or not is_num(b):
        raise Unsupported(f"arithmetic on {type(a).__name__}, {type(b).__name__}")
    if not is_sym(a) and not is_sym(b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if b == 0:
                raise PyRaise(ZeroDivisionError, "division by zero")
            return Fraction(a) / Fraction(b) if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) else a / b
        if op == "Pow":
            return a**b
        if op == "FloorDiv":
            return a // b
        if op == "Mod":
            return a % b
    # neutral elements
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if not is_sym(x):
                if x == 1 and isinstance(x, int):
                    return y
                if x == 0 and isinstance(x, int):
                    return 0 if isint(y) else 0.0
    if op in ("Add", "Sub") and not is_sym(b) and b == 0 and isinstance(b, int):
        return a
    if op == "Add" and not is_sym(a) and a == 0 and isinstance(a, int):
        return b
    if op == "Div":
        return to_real(a) / to_real(b)
    if op == "Pow":
        if not is_sym(b) and b in (2, 2.0):
            return s_arith("Mult", a, a)
        if not is_sym(b) and b in (0.5,):
            return SQRT(to_real(a))
        if not is_sym(b) and b == 1:
            return a
        raise Unsupported("power")
    if isint(a) and isint(b):
        x, y = to_int(a), to_int(b)
        if op == "FloorDiv":
            if not is_sym(b) and b > 0:
                return x / y
            raise Unsupported("floor division by a symbolic number")
        if op == "Mod":
            if not is_sym(b) and b > 0:
                return x % y
            raise Unsupported("modulo a symbolic number")
    else:
        x, y = to_real(a), to_real(b)
        if op == "FloorDiv":
            if not is_sym(b) and b > 0:
                return z3.ToReal(z3.ToInt(x / y))
            raise Unsupported("floor division")
        if op == "Mod":
            if not is_sym(b) and b > 0:
                return x - y * z3.ToReal(z3.ToInt(x / y))
            raise Unsupported("modulo")
    return {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}[op]()


def isint(v):
    return isinstance(v, int) or (isinstance(v, z3.ArithRef) and v.is_int())


def s_cmp(op, a, b):
    ab = isinstance(a, (bool, z3.BoolRef))
    bb = isinstance(b, (bool, z3.BoolRef))
    if ab and bb and op in ("==", "!="):
        if not is_sym(a) and not is_sym(b):
            return (a == b) if op == "==" else (a != b)
        r = b_(a) == b_(b)
        return r if op == "==" else neg(r)
    if ab:
        a = to_int(a)
    if bb:
        b = to_int(b)
    if not (is_num(a) and is_num(b)):
        raise Unsupported(f"array comparison of {type(a).__name__} and {type(b).__name__}")
    if not is_sym(a) and not is_sym(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if isint(a) and isint(b):
        x, y = to_int(a), to_int(b)
    else:
        x, y = to_real(a), to_real(b)
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]


def s_max(a, b):
    return ite(s_cmp(">=", a, b), a, b)


def s_min(a, b):
    return ite(s_cmp("<=", a, b), a, b)


# --------------------------------------------------------------------------
def same(ctx, a, b):
    return ctx.same_dim(norm_dim(a), norm_dim(b))


def bcast2(ctx, sa, sb):
    """Broadcast two shapes -> (shape, projA, projB)."""
    n = max(len(sa), len(sb))
    pa, pb = n - len(sa), n - len(sb)
    out, ka, kb = [], [], []
    for k in range(n):
        a = norm_dim(sa[k - pa]) if k >= pa else None
        b = norm_dim(sb[k - pb]) if k >= pb else None
        ua = ub = False
        if a is None:
            d, ua = b, None
        elif b is None:
            d, ub = a, None
        elif isone(a) and isone(b):
            d = 1
        elif isone(a):
            d, ua = b, True
        elif isone(b):
            d, ub = a, True
        elif ctx.same_dim(a, b):
            d = a
        elif isinstance(a, Dom) or isinstance(b, Dom):
            ca, cb = ctx.count(a), ctx.count(b)
            differ(ctx, a, b, "broadcast of arrays over different index sets")
        elif concrete(a) and concrete(b):
            raise PyRaise(ValueError, f"operands could not be broadcast together {a} {b}")
        else:
            if ctx.decide(lift(a) == lift(b)):
                d = b if concrete(b) else a
            elif ctx.decide(lift(a) == 1):
                d, ua = b, True
            elif ctx.decide(lift(b) == 1):
                d, ub = a, True
            else:
                raise PyRaise(ValueError, f"operands could not be broadcast together {a} {b}")
        out.append(d)
        if ua is not None:
            ka.append((k, ua))
        if ub is not None:
            kb.append((k, ub))

    def proj(ks):
        return lambda ix: [I0 if u else ix[k] for k, u in ks]

    return tuple(out), proj(ka), proj(kb)


def as_arr(it, v, dtype=None):
    """np.asarray"""
    ctx = it.ctx
    if isinstance(v, NDArr):
        return v
    if is_num(v) or isinstance(v, (bool, z3.BoolRef)):
        return None
    return np_array(it, v, dtype)


def scalar_ok(v):
    return is_num(v) or isinstance(v, (bool, z3.BoolRef))


def operand(it, v):
    if isinstance(v, Opt):
        v = it.noopt(v)
    if isinstance(v, NDArr):
        return v.shape, v.snap(it.ctx), v.dtype, False
    if scalar_ok(v):
        return (), (lambda *ix: v), scalar_dtype(v), True
    if v is None:
        raise PyRaise(TypeError, "unsupported operand None")
    if isinstance(v, (tuple, ListObj, FrozenList, TupleLike)):
        a = np_array(it, v)
        return a.shape, a.snap(it.ctx), a.dtype, False
    raise Unsupported(f"array operand {type(v).__name__}")


def result_dtype(da, sa, db, sb, op):
    if op in ("cmp",):
        return "b"
    if "O" in (da, db):
        raise Unsupported("object arrays")
    # numpy 1.26 value-based casting: python scalars do not widen within a kind
    if sa and not sb:
        if da == "i" and db in ("i", "u8", "f32", "f"):
            da = db
        if da == "f" and db == "f32":
            da = db
    if sb and not sa:
        if db == "i" and da in ("i", "u8", "f32", "f"):
            db = da
        if db == "f" and da == "f32":
            db = da
    if da == "f32" and db == "i" or da == "i" and db == "f32":
        return "f"
    r = da if DT_RANK[da] >= DT_RANK[db] else db
    if op == "Div" and r in ("i", "b", "u8"):
        return "f"
    if op in ("Add", "Mult") and r == "b":
        return "b"
    if op in ("Sub",) and r == "b":
        raise PyRaise(TypeError, "numpy boolean subtract")
    return r


def elementwise(it, f, a, b, dtype):
    ctx = it.ctx
    sa, ca, da, xa = operand(it, a)
    sb, cb, db, xb = operand(it, b)
    shape, pa, pb = bcast2(ctx, sa, sb)
    dt = dtype(da, xa, db, xb) if callable(dtype) else dtype
    if not shape:
        return f(ca(), cb())
    c = memo(lambda *ix: f(ca(*pa(ix)), cb(*pb(ix))))
    r = ctx.new_arr(shape, dt, c)
    r.nan = merge_nan(a, b, pa, pb)
    return r


def merge_nan(a, b, pa, pb):
    na = a.nan if isinstance(a, NDArr) else None
    nb = b.nan if isinstance(b, NDArr) else None
    if na is None and nb is None:
        return None
    return lambda *ix: disj(*([na(*pa(ix))] if na else []), *([nb(*pb(ix))] if nb else []))


def emap(it, f, a, dtype=None):
    ctx = it.ctx
    if not isinstance(a, NDArr):
        if scalar_ok(a):
            return f(a)
        a = np_array(it, a)
    c = a.snap(ctx)
    return ctx.new_arr(a.shape, dtype or a.dtype, memo(lambda *ix: f(c(*ix))))


BIT = {"BitAnd", "BitOr", "BitXor"}


class NP:
    # ---- operators
    @staticmethod
    def unary(it, op, v):
        if op == "USub":
            return emap(it, lambda x: s_arith("Sub", 0, x), v)
        if op == "Invert":
            if v.dtype != "b":
                raise Unsupported("~ of a non-boolean array")
            return emap(it, lambda x: (not x) if isinstance(x, bool) else neg(x), v)
        if op == "UAdd":
            return v
        raise Unsupported(f"unary {op} on an array")

    @staticmethod
    def binop(it, op, a, b):
        if (a is None or b is None) and op != "MatMult":
            raise PyRaise(TypeError, "unsupported operand None")
        if isinstance(a, (str, StrExpr)) or isinstance(b, (str, StrExpr)):
            raise PyRaise(TypeError, "array and string")
        if op == "MatMult":
            return matmul(it, a, b)
        if op in BIT:
            def f(x, y):
                if not (isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef))):
                    raise Unsupported("bitwise operation on numbers")
                if op == "BitAnd":
                    return bconj(x, y)
                if op == "BitOr":
                    return bdisj(x, y)
                return s_cmp("!=", x, y)

            return elementwise(it, f, a, b, "b")

        def g(x, y):
            if isinstance(x, (bool, z3.BoolRef)) and isinstance(y, (bool, z3.BoolRef)):
                if op == "Mult":
                    return bconj(x, y)
                if op == "Add":
                    return bdisj(x, y)
            return s_arith(op, x, y)

        r = elementwise(it, g, a, b, lambda da, xa, db, xb: result_dtype(da, xa, db, xb, op))
        if isinstance(r, NDArr) and r.dtype == "u8" and op in ("Add", "Sub", "Mult", "Pow", "LShift"):
            r = emap(it, lambda x: x % 256, r)
        return r

    @staticmethod
    def inplace(it, op, old, rhs):
        r = NP.binop(it, op, old, rhs)
        if r.dtype == "f" and old.dtype in ("i", "b", "u8"):
            raise PyRaise(TypeError, "cannot cast ufunc output (in-place)")
        if r.ndim != old.ndim or not all(same(it.ctx, x, y) for x, y in zip(r.shape, old.shape)):
            raise PyRaise(ValueError, "non-broadcastable output operand")
        write(it, old, lambda *ix: True, r)
        return old

    @staticmethod
    def compare(it, op, a, b):
        for x in (a, b):
            if isinstance(x, (str, StrExpr)):
                raise Unsupported("array compared with a string")
        return elementwise(it, lambda x, y: s_cmp(op, x, y), a, b, "b")

    @staticmethod
    def truth(it, v):
        n = 1
        for d in v.shape:
            if not concrete(norm_dim(d)):
                cnt = it.ctx.count(dim_dom(d))
                if it.ctx.decide(lift(cnt) == 1):
                    return it.truth_sym(v.snap(it.ctx)(*[I0] * v.ndim)) if not isinstance(d, Dom) else _uns("truth of array")
                raise PyRaise(ValueError, "truth value of an array is ambiguous")
            n *= d
        if n == 1:
            return it.truth_sym(v.snap(it.ctx)(*[I0] * v.ndim))
        raise PyRaise(ValueError, "truth value of an array is ambiguous")

    @staticmethod
    def set_shape(it, o, v):
        """a.shape = v where v only drops or adds axes of length one"""
        ctx = it.ctx
        if o.sid <= ctx.floor or o.frozen is not None or o.ro or not o.contig:
            return False
        new = [ctx.dim_of_len(x) if is_sym(x) else x for x in it.iter_seq(v).concrete() or _uns("symbolic shape")]
        old = [norm_dim(d) for d in o.shape]
        items, j = [], 0
        for d in old:
            if j < len(new) and same(ctx, d, new[j]):
                items.append(slice(None))
                j += 1
            elif isone(d):
                items.append(0)
            else:
                return False
        while j < len(new) and isone(new[j]):
            items.append(None)
            j += 1
        if j < len(new):
            return False
        w = basic_view(it, o, items)
        o.shape, o.fwd, o.inv, o.contig = w.shape, w.fwd, w.inv, o.contig
        return True

    # ---- attributes
    @staticmethod
    def attr(it, a, name):
        ctx = it.ctx
        if name == "shape":
            return tuple(ctx.count(d) if isinstance(d, Dom) else d for d in a.shape)
        if name == "ndim":
            return a.ndim
        if name == "size":
            return size_of(it, a)
        if name == "dtype":
            return Opaque("dtype", None, {"eq": lambda it, x: dtype_arg(x) == a.dtype, "name": a.dtype})
        if name == "T":
            return transpose(it, a)
        f = METHODS.get(name)
        if f is None:
            raise Unsupported(f"ndarray.{name}")
        ctx.eng.used.add(f"ndarray.{name}")
        return Native(f"ndarray.{name}", lambda it, args, kw: f(it, a, *args, **kw))


def _uns(m):
    raise Unsupported(m)


def bconj(x, y):
    if x is False or y is False:
        return False
    if x is True:
        return y
    if y is True:
        return x
    return conj(x, y)


def bdisj(x, y):
    if x is True or y is True:
        return True
    if x is False:
        return y
    if y is False:
        return x
    return disj(x, y)


def size_of(it, a):
    n = 1
    for d in a.shape:
        c = it.ctx.count(d) if isinstance(d, Dom) else d
        n = c if (not is_sym(n) and n == 1) else (n if (not is_sym(c) and c == 1) else n * c)
    return n


# --------------------------------------------------------------------------
# views
# --------------------------------------------------------------------------
def view(a, shape, f, g, contig=False):
    """f: view idx -> a idx; g: a idx -> (cond, view idx)."""
    if a.frozen is not None:
        fz = a.frozen
        r = NDArr(shape, a.dtype, a.sid, ro=True, frozen=lambda *ix: fz(*f(*ix)))
    else:
        fw, iv = a.fwd, a.inv
        nf = f if fw is None else (lambda *ix: fw(*f(*ix)))
        if iv is None:
            ni = g
        else:
            def ni(*sx):
                c1, ax = iv(*sx)
                c2, vx = g(*ax)
                return conj(b_(c1), b_(c2)), vx
        r = NDArr(shape, a.dtype, a.sid, nf, ni, contig, a.ro)
    if a.nan is not None:
        an = a.nan
        r.nan = lambda *ix: an(*f(*ix))
    return r


def transpose(it, a, axes=None):
    n = a.ndim
    if n < 2:
        return a
    perm = list(axes) if axes else list(range(n - 1, -1, -1))
    inv = [perm.index(k) for k in range(n)]
    return view(a, [a.shape[p] for p in perm], lambda *ix: tuple(ix[inv[k]] for k in range(n)),
                lambda *ax: (True, tuple(ax[p] for p in perm)), contig=sum(0 if isone(norm_dim(d)) else 1 for d in a.shape) <= 1 and a.contig)


def copy_arr(it, a, dtype=None):
    ctx = it.ctx
    c = a.snap(ctx)
    if dtype is None or dtype == a.dtype:
        r = ctx.new_arr(a.shape, a.dtype, c if not isinstance(c, Content) else Content(c))
    else:
        r = ctx.new_arr(a.shape, dtype, memo(lambda *ix: cast(ctx, c(*ix), dtype)))
    r.nan = a.nan
    return r


NEUTRAL = {"order": (None, "C"), "dtype": (None,), "out": (None,), "copy": (None, True), "subok": (False, True), "keepdims": (False,), "like": (None,),
           "casting": ("same_kind", "unsafe"), "equal_nan": (False,), "ndmin": (0,), "kind": (None,), "stable": (None,), "strict": (False,), "where": (True,)}


def nokw(kw):
    """keyword arguments a model does not know may only have the value that changes nothing"""
    for k, v in kw.items():
        if k not in NEUTRAL or is_sym(v) or not any(v is x or isinstance(v, str) and v == x for x in NEUTRAL[k]):
            raise Unsupported(f"keyword argument {k}")


def flat_maps(shape):
    """(flat -> idx, idx -> flat) for row-major order; inner dims concrete."""
    dims = [norm_dim(d) for d in shape]

    def strides():
        st, s = [], 1
        for k in range(len(dims) - 1, -1, -1):
            st.append(s)
            s = s * dims[k] if not (is_sym(dims[k])) else ("sym" if k > 0 else s)
            if s == "sym":
                if any(not isone(d) for d in dims[:k]):
                    raise Unsupported("flattening over a symbolic inner dimension")
                s = 1
                # leading dims are all 1
        return list(reversed(st))

    st = strides()

    def unflat(k):
        out = []
        for j, d in enumerate(dims):
            if isone(d):
                out.append(I0)
                continue
            v = k if st[j] == 1 else k / st[j]
            lead = all(isone(x) for x in dims[:j])
            if not lead:
                v = v % d
            out.append(z3.simplify(v) if z3.is_int_value(k) else v)
        return tuple(out)

    def flat(ix):
        t = None
        for j, d in enumerate(dims):
            if isone(d):
                continue
            x = ix[j] if st[j] == 1 else ix[j] * st[j]
            t = x if t is None else t + x
        return I0 if t is None else (z3.simplify(t) if all(z3.is_int_value(i) for i in ix) else t)

    return unflat, flat


def sparse_dims(a):
    return [d for d in a.shape if isinstance(norm_dim(d), Dom)]


def div_exact(ctx, size, d):
    if concrete(size):
        if d == 0 or size % d:
            raise PyRaise(ValueError, "cannot reshape")
        return size // d
    if d == 1:
        return size
    s = z3.simplify(size)
    cands = []
    if z3.is_mul(s) and z3.is_int_value(s.arg(0)):
        c = s.arg(0).as_long()
        if c % d == 0:
            rest = s.children()[1:]
            t = rest[0]
            for x in rest[1:]:
                t = t * x
            return t if c // d == 1 else (c // d) * t
    if not ctx.valid(size % d == 0):
        if not ctx.decide(size % d == 0):
            raise PyRaise(ValueError, "cannot reshape")
    q = ctx.fint("q")
    ctx.assume(q * d == size)
    return q


def reshape(it, a, *shape, order=None):
    nokw({"order": order})
    ctx = it.ctx
    if len(shape) == 1 and isinstance(shape[0], (tuple, ListObj)):
        shape = tuple(it.iter_seq(shape[0]).concrete())
    shape = [norm_dim(ctx.dim_of_len(s)) if is_sym(s) else s for s in shape]
    old = [norm_dim(d) for d in a.shape]
    if any(isinstance(d, Dom) for d in old):
        # only unit dimensions may be added or dropped
        core = [(k, d) for k, d in enumerate(old) if not isone(d)]
        new, pos, ci = [], [], 0
        neg1 = [k for k, s in enumerate(shape) if not is_sym(s) and not isinstance(s, Dom) and s == -1]
        want = [s for s in shape if not isone(s)]
        if len(want) != len(core):
            # e.g. (D,2).reshape(-1, 2) keeps the shape
            raise Unsupported("reshape over an index set")
        for s in shape:
            if isone(s):
                new.append(1)
                pos.append(None)
                continue
            k, d = core[ci]
            ci += 1
            if not (not is_sym(s) and not isinstance(s, Dom) and s == -1) and not ctx.same_dim(s, d):
                raise Unsupported("reshape over an index set")
            new.append(d)
            pos.append(k)
        f = lambda *ix: tuple(ix[pos.index(k)] if k in pos else I0 for k in range(len(old)))
        g = lambda *ax: (True, tuple(I0 if p is None else ax[p] for p in pos))
        return view(a, new, f, g, a.contig)
    size = 1
    for d in old:
        size = d if (not is_sym(size) and size == 1) else size * d
    neg1 = [k for k, s in enumerate(shape) if not is_sym(s) and s == -1]
    if len(neg1) > 1:
        raise PyRaise(ValueError, "only one unknown dimension")
    if neg1:
        prod = 1
        sym = []
        for k, s in enumerate(shape):
            if k in neg1:
                continue
            if is_sym(s):
                sym.append(s)
            else:
                prod *= s
        if sym:
            rest = size
            # (.., n) with n equal to an old dimension
            if len(sym) == 1 and prod == 1 and any(ctx.same_dim(sym[0], d) for d in old):
                ds = list(old)
                for k, d in enumerate(ds):
                    if ctx.same_dim(sym[0], d):
                        ds.pop(k)
                        break
                q = 1
                for d in ds:
                    q = d if (not is_sym(q) and q == 1) else q * d
            else:
                raise Unsupported("reshape to a symbolic shape")
        else:
            q = div_exact(ctx, size, prod)
        shape[neg1[0]] = q
    else:
        size2 = 1
        for s in shape:
            size2 = s if (not is_sym(size2) and size2 == 1) else size2 * s
        eq = simp_bool(lift(size) == lift(size2))
        if eq is not True and not ctx.valid(b_(eq)):
            if not ctx.decide(b_(eq)):
                raise PyRaise(ValueError, "cannot reshape array")
    shape = [norm_dim(s) for s in shape]
    if len(shape) == len(old) and all(ctx.same_dim(x, y) for x, y in zip(shape, old)):
        n = len(old)
        return view(a, old, lambda *ix: ix, lambda *ax: (True, ax), a.contig)
    un_o, fl_o = flat_maps(old)
    un_n, fl_n = flat_maps(shape)
    # unit dimensions only?
    co = [k for k, d in enumerate(old) if not isone(d)]
    cn = [k for k, d in enumerate(shape) if not isone(d)]
    if len(co) == len(cn) and all(ctx.same_dim(old[x], shape[y]) for x, y in zip(co, cn)):
        f = lambda *ix: tuple(ix[cn[co.index(k)]] if k in co else I0 for k in range(len(old)))
        g = lambda *ax: (True, tuple(ax[co[cn.index(k)]] if k in cn else I0 for k in range(len(shape))))
    else:
        f = lambda *ix: un_o(fl_n(ix))
        g = lambda *ax: (True, un_n(fl_o(ax)))
    if not a.contig:
        a = copy_arr(it, a)
    return view(a, shape, f, g, True)


def flatten(it, a, order=None):
    nokw({"order": order})
    if sparse_dims(a):
        core = [k for k, d in enumerate(a.shape) if not isone(norm_dim(d))]
        if len(core) == 1:
            return copy_arr(it, reshape(it, a, a.shape[core[0]]))
        raise Unsupported("flatten over an index set")
    return copy_arr(it, reshape(it, a, -1)) if a.ndim != 1 else copy_arr(it, a)


def ravel(it, a, order=None):
    nokw({"order": order})
    if a.ndim == 1:
        return a
    return reshape(it, a, -1)


# --------------------------------------------------------------------------
# indexing
# --------------------------------------------------------------------------
class IxVal:
    """np.ix_(...)"""

    def __init__(self, items):
        self.items = items


class FlatIdx:
    """Row-major position of element (ix) of an array of shape dims."""

    def __init__(self, dims, ix):
        self.dims, self.ix = dims, ix


def clamp_slice(ctx, s, n):
    """Start and length of a[s] on a dimension n (step 1)."""
    if s.step not in (None, 1):
        raise Unsupported("slice with a step")

    def norm(v, dflt):
        if v is None:
            return dflt
        if isinstance(v, Opt):
            raise Unsupported("optional slice bound")
        if not is_sym(v) and not is_sym(n):
            return max(0, min(n, v + n if v < 0 else v))
        t, nn = lift(v), lift(n)
        if isinstance(v, int) and v == 0:
            return 0
        if isinstance(v, int) and v > 0 and ctx.valid(nn >= v):
            return v
        if not (isinstance(v, int) and v < 0) and ctx.valid(z3.And(t >= 0, t <= nn)):
            return v
        if isinstance(v, int) and v < 0 and ctx.valid(nn + v >= 0):
            return z3.simplify(nn + v)
        x = z3.If(t < 0, t + nn, t)
        return z3.simplify(z3.If(x < 0, z3.IntVal(0), z3.If(x > nn, nn, x)))

    lo, hi = norm(s.start, 0), norm(s.stop, n)
    if not is_sym(lo) and not is_sym(hi):
        return lo, max(0, hi - lo)
    if not is_sym(lo) and lo == 0:
        return 0, hi
    ln = z3.simplify(lift(hi) - lift(lo))
    if not ctx.valid(ln >= 0):
        ln = z3.If(ln < 0, z3.IntVal(0), ln)
    return lo, norm_dim(ln)


def stepped_slice(ctx, s, n):
    """(first index, length, step) of a[s] for a literal step."""
    st = s.step
    if is_sym(st) or not isinstance(st, int) or isinstance(s.start, Opt) or isinstance(s.stop, Opt):
        raise Unsupported("slice with this step")
    if st == 0:
        raise PyRaise(ValueError, "slice step cannot be zero")
    nn = lift(n)
    lim = (z3.IntVal(0), nn) if st > 0 else (z3.IntVal(-1), nn - 1)

    def norm(v, dflt):
        if v is None:
            return dflt
        t = lift(v)
        t = z3.If(t < 0, t + nn, t)
        return z3.If(t < lim[0], lim[0], z3.If(t > lim[1], lim[1], t))

    lo, hi = norm(s.start, lim[0] if st > 0 else lim[1]), norm(s.stop, lim[1] if st > 0 else lim[0])
    span = (hi - lo) if st > 0 else (lo - hi)
    k = abs(st)
    ln = z3.If(span > 0, (span + (k - 1)) / k if k > 1 else span, z3.IntVal(0))
    ln = z3.simplify(ln)
    if not z3.is_int_value(ln) and ctx.valid(ln == nn):
        ln = nn
    return norm_dim(lo) if is_sym(lo) else lo, norm_dim(ln), st


def int_index(it, k, n):
    """Term of index k on dimension n; raises IndexError when out of range."""
    ctx = it.ctx
    if isinstance(n, Dom):
        if isinstance(k, AbsIdx):
            if not (k.dom is n or ctx.valid(n.cond(k.term)) or ctx.prove_quiet(n.cond(k.term))):
                raise Unsupported("abstract index of another sequence")
            return k.term
        w = seq_elem(it, n, k)
        return w
    if isinstance(k, AbsIdx):
        if k.dom.n is None:
            raise Unsupported("abstract index on a dense dimension")
        k = k.term
    if not is_sym(k) and not is_sym(n):
        if not -n <= k < n:
            raise PyRaise(IndexError, f"index {k} out of bounds {n}")
        return z3.IntVal(k % n if n else 0)
    t, nn = lift(k), lift(n)
    if not ctx.valid(z3.And(t >= -nn, t < nn)):
        if not ctx.decide(z3.And(t >= -nn, t < nn)):
            raise PyRaise(IndexError, "index out of bounds")
    if isinstance(k, int):
        return z3.simplify(nn + k) if k < 0 else z3.IntVal(k)
    if ctx.valid(t >= 0):
        return t
    return z3.If(t < 0, t + nn, t)


def seq_elem(it, dom, k):
    """The k-th element of a sparse index set (k = 0 or -1 only)."""
    from .loops import before

    ctx = it.ctx
    if is_sym(k):
        raise Unsupported("integer index on an index set")
    if k not in (0, -1):
        raise Unsupported("integer index on an index set")
    n = ctx.count(dom)
    if not ctx.decide(lift(n) > 0):
        raise PyRaise(IndexError, "index out of range")
    for d, kk, w in ctx.eng.__dict__.setdefault("elems", []):
        if d is dom and kk == k:
            return w
    w = ctx.fresh("first" if k == 0 else "last", dom.sort)
    ctx.assume_in(dom, w)
    v = z3.Const("#b", dom.sort)
    ctx.forall([v], z3.Implies(conj(dom.cond(v), v != w), before(w, v) if k == 0 else before(v, w)))
    return w


def parse_index(it, a, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    if any(isinstance(x, IxVal) for x in ix):
        return ("ix", ix[0].items)
    n = sum(1 for x in ix if x is not None and x is not Ellipsis)
    out = []
    for x in ix:
        if x is Ellipsis:
            out.extend([slice(None)] * (a.ndim - n - (_extra(ix))))
        else:
            out.append(x)
    return ("basic", out)


def _extra(ix):
    return sum(x.ndim - 1 for x in ix if isinstance(x, NDArr) and x.dtype == "b")


def is_int_like(x):
    return isinstance(x, (int, AbsIdx)) and not isinstance(x, bool) or isinstance(x, z3.ArithRef) and x.is_int()


def basic_view(it, a, items):
    """Indexing by ints, slices, newaxis."""
    ctx = it.ctx
    ax = 0
    shape, spec = [], []  # spec per a-axis: ("c", term) | ("v", vaxis, offset)
    contig, seen_partial = a.contig, False
    for x in items:
        if x is None:
            shape.append(1)
            continue
        if ax >= a.ndim:
            raise PyRaise(IndexError, "too many indices for array")
        n = norm_dim(a.shape[ax])
        if isinstance(x, Opt):
            x = it.noopt(x)
        if isinstance(x, slice):
            full = x.start in (None, 0) and x.stop is None and x.step in (None, 1)
            if isinstance(n, Dom) and not full:
                raise Unsupported("slice of an index set")
            if full:
                spec.append(("v", len(shape), 0))
                shape.append(n)
            elif x.step not in (None, 1):
                lo, ln, st = stepped_slice(ctx, x, n)
                spec.append(("s", len(shape), lo, st))
                shape.append(ln)
                contig = False
            else:
                lo, ln = clamp_slice(ctx, x, n)
                spec.append(("v", len(shape), lo))
                shape.append(ln)
                if any(not isone(d) for d in shape[:-1]):
                    contig = False
            ax += 1
        elif is_int_like(x):
            spec.append(("c", int_index(it, x, n)))
            if any(not isone(d) for d in shape):
                contig = False
            ax += 1
        else:
            raise Unsupported(f"index {type(x).__name__}")
    while ax < a.ndim:
        spec.append(("v", len(shape), 0))
        shape.append(norm_dim(a.shape[ax]))
        ax += 1
    shape = [norm_dim(s) for s in shape]

    def f(*ix):
        return tuple(s[1] if s[0] == "c" else z3.simplify(ix[s[1]] * s[3] + s[2]) if s[0] == "s" else (ix[s[1]] if not is_sym(s[2]) and s[2] == 0 else ix[s[1]] + s[2]) for s in spec)

    def g(*axs):
        conds, vx = [], [I0] * len(shape)
        for s, i in zip(spec, axs):
            if s[0] == "c":
                conds.append(i == s[1])
            elif s[0] == "s":
                off, d, st = s[2], shape[s[1]], s[3]
                j = (i - off) if st > 0 else (off - i)
                if abs(st) > 1:
                    conds.append(j % abs(st) == 0)
                    j = j / abs(st)
                conds.append(z3.And(j >= 0, j < lift(d)))
                vx[s[1]] = j
            else:
                off, d = s[2], shape[s[1]]
                j = i if not is_sym(off) and off == 0 else i - off
                if not isinstance(d, Dom):
                    conds.append(z3.And(j >= 0, j < lift(d)))
                vx[s[1]] = j
        return conj(*conds), tuple(vx)

    if not shape:
        return a.snap(ctx)(*f())
    return view(a, shape, f, g, contig)


def mask_dom(it, d, cond):
    """Index set of the true entries of a 1-D mask over dimension d."""
    return dim_dom(d).sub(cond)


def getitem(it, a, ix):
    ctx = it.ctx
    kind, items = parse_index(it, a, ix)
    if kind == "ix":
        return ix_get(it, a, items)
    conv = []
    for x in items:
        if isinstance(x, (ListObj, FrozenList)):
            x = np_array(it, x)
        conv.append(x)
    items = conv
    adv = [x for x in items if isinstance(x, NDArr)]
    if not adv:
        return basic_view(it, a, items)
    if len(adv) > 1:
        return multi_fancy(it, a, items)
    k = [i for i, x in enumerate(items) if isinstance(x, NDArr)][0]
    m = items[k]
    if any(not (isinstance(x, slice) and x == slice(None)) for j, x in enumerate(items) if j != k):
        # apply the basic part first
        if any(x is None for x in items):
            raise Unsupported("mixed newaxis and fancy index")
        rest = [slice(None) if j == k else x for j, x in enumerate(items)]
        if any(is_int_like(x) for x in rest):
            if any(is_int_like(x) for x in rest[k + 1:]) or not all(is_int_like(x) or isinstance(x, slice) for x in rest):
                pass
            v = basic_view(it, a, rest)
            k2 = k - sum(1 for x in rest[:k] if is_int_like(x))
            return getitem(it, v, tuple([slice(None)] * k2 + [m]))
        v = basic_view(it, a, rest)
        return getitem(it, v, tuple([slice(None)] * k + [m]))
    c = a.snap(ctx)
    if m.dtype == "b":
        if m.ndim == 1:
            if k >= a.ndim:
                raise PyRaise(IndexError, "too many indices")
            if not same(ctx, m.shape[0], a.shape[k]):
                check_same_or_raise(ctx, m.shape[0], a.shape[k])
            mc = m.snap(ctx)
            d = mask_dom(it, a.shape[k], lambda i: b_(mc(i)))
            shape = list(a.shape)
            shape[k] = d
            r = ctx.new_arr(shape, a.dtype, c)
            if a.nan:
                r.nan = a.nan
            return r
        raise Unsupported("2-D boolean mask read")
    if m.dtype == "i" and m.ndim == 1:
        if k >= a.ndim:
            raise PyRaise(IndexError, "too many indices")
        mc = m.snap(ctx)
        n = norm_dim(a.shape[k])
        d = norm_dim(m.shape[0])
        fix = check_bounds(it, mc, d, n)
        shape = list(a.shape)
        shape[k] = d
        return ctx.new_arr(shape, a.dtype, lambda *ix: c(*ix[:k], fix(ix[k]), *ix[k + 1:]))
    if m.dtype == "i" and m.ndim == 2:
        if k >= a.ndim:
            raise PyRaise(IndexError, "too many indices")
        if not isone(norm_dim(m.shape[1])):
            raise Unsupported("2-D fancy index")
        mc = m.snap(ctx)
        fix = check_bounds(it, lambda i: mc(i, I0), norm_dim(m.shape[0]), norm_dim(a.shape[k]))
        shape = list(a.shape[:k]) + [norm_dim(m.shape[0]), 1] + list(a.shape[k + 1:])
        return ctx.new_arr(shape, a.dtype, lambda *ix: c(*ix[:k], fix(ix[k]), *ix[k + 2:]))
    raise Unsupported("fancy index")


def check_bounds(it, mc, d, n):
    ctx = it.ctx
    if isinstance(n, Dom):
        raise Unsupported("integer fancy index on an index set")
    dom = dim_dom(d)
    v = z3.Const("#fi", dom.sort)
    x = to_int(mc(v))
    ok = z3.ForAll([v], z3.Implies(dom.cond(v), z3.And(x >= 0, x < lift(n))))
    if ctx.prove_quiet(ok):
        return lambda i: to_int(mc(i))
    bad = ctx.exists([dom], lambda i: z3.Or(to_int(mc(i)) < -lift(n), to_int(mc(i)) >= lift(n)), "oob")
    if ctx.decide(bad):
        raise PyRaise(IndexError, "index out of bounds")
    return lambda i: z3.If(to_int(mc(i)) < 0, to_int(mc(i)) + lift(n), to_int(mc(i)))


def check_same_or_raise(ctx, a, b):
    a, b = norm_dim(a), norm_dim(b)
    if isinstance(a, Dom) or isinstance(b, Dom):
        raise Unsupported("mask over another index set")
    if concrete(a) and concrete(b) or ctx.decide(lift(a) != lift(b)):
        raise PyRaise(IndexError, "boolean index did not match")


def multi_fancy(it, a, items):
    """a[rows, cols] with two 1-D index arrays of equal length."""
    ctx = it.ctx
    if len(items) == 2 and all(isinstance(x, NDArr) and x.ndim == 1 and x.dtype == "i" for x in items) and a.ndim == 2:
        r, c = items
        if not same(ctx, r.shape[0], c.shape[0]):
            raise Unsupported("index arrays of different length")
        f1 = check_bounds(it, r.snap(ctx), r.shape[0], norm_dim(a.shape[0]))
        f2 = check_bounds(it, c.snap(ctx), r.shape[0], norm_dim(a.shape[1]))
        ac = a.snap(ctx)
        return ctx.new_arr([r.shape[0]], a.dtype, lambda i: ac(f1(i), f2(i)))
    raise Unsupported("multiple fancy indices")


def ix_axis(it, x, n):
    """(dom, idxfn, member, pos): axis of np.ix_ on dimension n."""
    ctx = it.ctx
    if isinstance(x, NDArr) and x.dtype == "b" and x.ndim == 1:
        if not same(ctx, x.shape[0], n):
            check_same_or_raise(ctx, x.shape[0], n)
        c = x.snap(ctx)
        d = mask_dom(it, n, lambda i: b_(c(i)))
        return d, (lambda i: i), (lambda s: b_(c(s))), (lambda s: s)
    if isinstance(x, NDArr) and x.ndim == 1 and x.dtype == "i":
        c = x.snap(ctx)
        d = x.shape[0]
        v = gvar(d, 0)
        cv = c(v)
        if cv.eq(v) or (isinstance(norm_dim(d), Dom) and z3.simplify(cv).eq(v)):
            # positions of an index set in increasing order
            dd = dim_dom(d)
            check_bounds(it, c, d, norm_dim(n))
            return norm_dim(d), (lambda i: i), (lambda s: dd.cond(s)), (lambda s: s)
    raise Unsupported("np.ix_ argument")


def ix_get(it, a, items):
    ctx = it.ctx
    ax = [ix_axis(it, x, a.shape[k]) for k, x in enumerate(items)]
    c = a.snap(ctx)
    return ctx.new_arr([x[0] for x in ax], a.dtype, lambda *ix: c(*[x[1](i) for x, i in zip(ax, ix)]))


def write(it, a, cond, val):
    """a[idx] = val(idx) where cond(idx); idx in view coordinates; val is a
    scalar, an array of the same shape or a function of the indices."""
    ctx = it.ctx
    if a.frozen is not None:
        raise Unsupported("write to a value of a summarised loop")
    if a.ro:
        raise PyRaise(ValueError, "assignment destination is read-only")
    if isinstance(val, NDArr):
        val = val.snap(ctx)
    elif not callable(val):
        sc = val
        val = lambda *ix: sc
    key = ("arr", a.sid)
    cur = ctx.mem[key]
    iv = a.inv
    dt = a.dtype
    shape = [norm_dim(d) for d in a.shape]
    if iv is None:
        sel = lambda *sx: b_(cond(*sx))
        va = lambda *sx: cast(ctx, val(*sx), dt)
    else:
        def sel(*sx):
            c, vx = iv(*sx)
            return conj(b_(c), b_(cond(*vx)))

        def va(*sx):
            c, vx = iv(*sx)
            return cast(ctx, val(*vx), dt)

    va = memo(va)
    ctx.mem[key] = cur.upd(sel, va)


def setitem(it, a, ix, v):
    ctx = it.ctx
    if isinstance(v, Opt):
        v = it.noopt(v)
    kind, items = parse_index(it, a, ix)
    if isinstance(v, (ListObj, tuple, FrozenList, TupleLike, GenVal)):
        v = np_array(it, v)
    if kind == "ix":
        ax = [ix_axis(it, x, a.shape[k]) for k, x in enumerate(items)]
        shape = [x[0] for x in ax]
        p = bcast_to(it, v, shape)
        write(it, a, lambda *s: conj(*[x[2](i) for x, i in zip(ax, s)]), lambda *s: p(*[x[3](i) for x, i in zip(ax, s)]))
        return
    conv = []
    for x in items:
        if isinstance(x, (ListObj, FrozenList)):
            x = np_array(it, x)
        conv.append(x)
    items = conv
    adv = [k for k, x in enumerate(items) if isinstance(x, NDArr)]
    if not adv:
        tgt = basic_view_w(it, a, items)
        p = bcast_to(it, v, tgt.shape)
        if isinstance(v, NDArr) and v.sid == a.sid:
            pass  # p is a snapshot of the content before the write
        write(it, tgt, lambda *i: True, p)
        return
    if len(adv) == 1 and items[adv[0]].dtype == "b":
        k = adv[0]
        m = items[k]
        rest = [slice(None) if j == k else x for j, x in enumerate(items)]
        if any(x is None for x in rest) or any(is_int_like(x) for x in rest[:k]):
            raise Unsupported("mask assignment with newaxis")
        if m.ndim == a.ndim and m.ndim > 1 and len(items) == 1:
            for x, y in zip(m.shape, a.shape):
                if not same(ctx, x, y):
                    check_same_or_raise(ctx, x, y)
            if not scalar_ok(v):
                raise Unsupported("2-D mask assignment of an array")
            mc = m.snap(ctx)
            write(it, a, lambda *i: b_(mc(*i)), v)
            return
        if m.ndim != 1:
            raise Unsupported("mask assignment")
        rest = rest + [slice(None)] * (a.ndim - len(rest))
        tgt = basic_view_w(it, a, rest)
        if k >= tgt.ndim:
            raise PyRaise(IndexError, "too many indices")
        if not same(ctx, m.shape[0], tgt.shape[k]):
            check_same_or_raise(ctx, m.shape[0], tgt.shape[k])
        mc = m.snap(ctx)
        shape = list(tgt.shape)
        shape[k] = mask_dom(it, tgt.shape[k], lambda i: b_(mc(i)))
        p = bcast_to(it, v, shape)
        write(it, tgt, lambda *i: b_(mc(i[k])), p)
        return
    if len(adv) == 2 and len(items) == 2 and all(items[k].dtype == "i" and items[k].ndim == 1 for k in adv):
        raise Unsupported("paired fancy assignment")
    raise Unsupported("fancy assignment")


def basic_view_w(it, a, items):
    items = list(items)
    n = sum(1 for x in items if x is not None)
    if n == a.ndim and all(is_int_like(x) for x in items):
        # a cell: keep it as a view with one unit axis
        v = basic_view(it, a, items[:-1] + [slice(None)]) if a.ndim > 1 else a
        x = items[-1]
        d = norm_dim(v.shape[-1])
        t = int_index(it, x, d)
        return view(v, [1], lambda i: (t,), lambda j: (j == t, (I0,)), True)
    return basic_view(it, a, items)


def bcast_to(it, v, shape):
    """Content of v broadcast to shape, as a function."""
    ctx = it.ctx
    if scalar_ok(v):
        return lambda *ix: v
    if v is None:
        return _none_assign()
    if not isinstance(v, NDArr):
        raise Unsupported(f"assignment of {type(v).__name__} into an array")
    c = v.snap(ctx)
    vs = [norm_dim(d) for d in v.shape]
    shape = [norm_dim(d) for d in shape]
    while len(vs) > len(shape) and isone(vs[0]):
        vs = vs[1:]
        c = (lambda c: lambda *ix: c(I0, *ix))(c)
    if len(vs) > len(shape):
        raise PyRaise(ValueError, "could not broadcast input array")
    pad = len(shape) - len(vs)
    unit = []
    for k, d in enumerate(vs):
        t = shape[pad + k]
        if ctx.same_dim(d, t) if not (isone(d) and not isone(t)) else False:
            unit.append(False)
        elif isone(d):
            unit.append(True)
        elif isinstance(d, Dom) or isinstance(t, Dom):
            differ(ctx, d, t, "assignment between different index sets")
        elif concrete(d) and concrete(t):
            raise PyRaise(ValueError, f"could not broadcast input array {vs} into {shape}")
        else:
            if ctx.decide(lift(d) == lift(t)):
                unit.append(False)
            elif ctx.decide(lift(d) == 1):
                unit.append(True)
            else:
                raise PyRaise(ValueError, "could not broadcast input array")
    return lambda *ix: c(*[I0 if u else i for u, i in zip(unit, ix[pad:])])


def _none_assign():
    raise PyRaise(TypeError, "float() argument must not be None")


# --------------------------------------------------------------------------
# construction
# --------------------------------------------------------------------------
def dtype_arg(d):
    if d is None:
        return None
    if isinstance(d, str):
        return {"f": "f32", "d": "f", "float": "f", "int": "i", "bool": "b", "float64": "f", "float32": "f32", "uint8": "u8", "int64": "i"}.get(d) or _uns(d)
    if isinstance(d, Opaque) and d.kind == "dtype":
        return d.data["name"]
    if isinstance(d, Native) and d.name in ("float", "int", "bool"):
        return {"float": "f", "int": "i", "bool": "b"}[d.name]
    raise Unsupported(f"dtype {d!r}")


def np_array(it, v, dtype=None, copy=True, **kw):
    nokw(kw)
    ctx = it.ctx
    if isinstance(v, Opt):
        v = it.noopt(v)
    if isinstance(v, NDArr):
        return copy_arr(it, v, dtype_arg(dtype))
    dt = dtype_arg(dtype)
    if scalar_ok(v):
        d = dt or scalar_dtype(v)
        x = cast(ctx, v, d)
        return ctx.new_arr((), d, lambda: x)
    shape, content, d = nested(it, v)
    if dt is None:
        dt = d
    else:
        c0 = content
        content = lambda *ix: cast(ctx, c0(*ix), dt)
    return ctx.new_arr(shape, dt, memo(content))


def nested(it, v):
    """(shape, content, dtype) of a nested sequence."""
    ctx = it.ctx
    if isinstance(v, Opt):
        v = it.noopt(v)
    if scalar_ok(v):
        return (), (lambda: v), scalar_dtype(v)
    if isinstance(v, NDArr):
        return v.shape, v.snap(ctx), v.dtype
    if v is None or isinstance(v, (str, StrExpr, Opaque, Obj, RefObj)):
        raise Unsupported(f"array of {type(v).__name__}")
    seq = it.iter_seq(v)
    if any(not isinstance(p, (Items, SymPart)) for p in seq.parts):
        raise Unsupported("array of a list under construction")
    c = seq.concrete()
    if c is not None:
        if not c:
            return (0,), (lambda i: 0.0), "f"
        subs = [nested(it, x) for x in c]
        sh = subs[0][0]
        for s in subs[1:]:
            if len(s[0]) != len(sh) or not all(same(ctx, x, y) for x, y in zip(s[0], sh)):
                raise PyRaise(ValueError, "inhomogeneous shape")
        dt = join_dt([s[2] for s in subs])
        cs = [s[1] for s in subs]
        return (len(c),) + tuple(sh), (lambda i, *r: select_fn(cs, i, r, dt, ctx)), dt
    if len(seq.parts) == 1:
        p = seq.parts[0]
        d = norm_dim(p.dom)
        n = ctx.count(p.dom)
        empty_possible = not ctx.valid(lift(n) > 0)
        if empty_possible and ctx.decide(lift(n) == 0):
            return (0,), (lambda i: 0.0), "f"
        g = ctx.instantiate(p.dom, "arr")
        sh, cg, dt = nested(it, freeze_for_array(it, p.val(g)))
        for x in sh:
            if is_sym(x) or isinstance(x, Dom):
                pass

        def content(i, *r):
            v = p.val(i)
            return nested_at(it, v, r)

        return (d,) + tuple(sh), content, dt
    # several parts: only concrete prefixes/suffixes of dense parts
    pieces = []
    for p in seq.parts:
        if isinstance(p, Items):
            pieces.append(nested(it, tuple(p.items)))
        else:
            pieces.append(nested(it, FrozenList(SeqVal([p]))))
    a, rest = pieces[0], pieces[1:]
    cur = a
    for b in rest:
        if isinstance(norm_dim(cur[0][0]), Dom) or isinstance(norm_dim(b[0][0]), Dom):
            raise Unsupported("array of a list with several symbolic parts")
        n1, n2 = cur[0][0], b[0][0]
        c1, c2 = cur[1], b[1]
        cur = ((lift(n1) + lift(n2),) + tuple(cur[0][1:]),
               (lambda i, *r, c1=c1, c2=c2, n1=n1: ite(i < lift(n1), c1(i, *r), c2(i - lift(n1), *r))), join_dt([cur[2], b[2]]))
    return cur


def freeze_for_array(it, v):
    return v


def nested_at(it, v, r):
    """Element [r] of a nested value."""
    if not r:
        if isinstance(v, NDArr) and v.ndim == 0:
            return v.snap(it.ctx)()
        return v
    if isinstance(v, NDArr):
        return v.snap(it.ctx)(*r)
    seq = it.iter_seq(v)
    c = seq.concrete()
    if c is not None:
        if z3.is_int_value(r[0]):
            return nested_at(it, c[r[0].as_long()], r[1:])
        res = nested_at(it, c[-1], r[1:])
        for k in range(len(c) - 2, -1, -1):
            res = ite(r[0] == k, nested_at(it, c[k], r[1:]), res)
        return res
    if len(seq.parts) == 1 and isinstance(seq.parts[0], SymPart):
        return nested_at(it, seq.parts[0].val(r[0]), r[1:])
    raise Unsupported("nested sequence")


def join_dt(dts):
    if "O" in dts:
        return "O"
    r = dts[0]
    for d in dts[1:]:
        if {r, d} == {"i", "f32"}:
            r = "f"
        elif DT_RANK[d] > DT_RANK[r]:
            r = d
    return r


def select_fn(cs, i, r, dt, ctx):
    if z3.is_int_value(i):
        return cast(ctx, cs[i.as_long()](*r), dt)
    res = cs[-1](*r)
    for k in range(len(cs) - 2, -1, -1):
        res = ite(i == k, cs[k](*r), res)
    return cast(ctx, res, dt)


def shape_arg(it, s):
    if isinstance(s, (tuple, ListObj)):
        xs = it.iter_seq(s).concrete()
        if xs is None:
            raise Unsupported("symbolic shape")
    else:
        xs = (s,)
    out = []
    for x in xs:
        x = it.noopt(x)
        if isinstance(x, float):
            raise PyRaise(TypeError, "float shape")
        if not isinstance(x, int) and not (isinstance(x, z3.ArithRef) and x.is_int()):
            raise Unsupported(f"shape {type(x).__name__}")
        if not is_sym(x) and x < 0:
            raise PyRaise(ValueError, "negative dimensions")
        out.append(norm_dim(it.ctx.dim_of_len(x)))
    return out


def differ(ctx, a, b, why):
    """Two arrays over index sets that could not be shown to be the same are
    matched up position by position: an obligation of its own."""
    if isinstance(a, Dom) and isinstance(b, Dom) and a.sort == b.sort:
        v = z3.Const("#v", a.sort)
        ctx.oblige("arrays matched up position by position hold the same elements", z3.ForAll([v], a.cond(v) == b.cond(v)))
    raise Unsupported(why)


def full(it, shape, fill_value, dtype=None, **kw):
    nokw(kw)
    ctx = it.ctx
    v = fill_value
    dt = dtype_arg(dtype) or scalar_dtype(v)
    if isinstance(v, NDArr):
        p = bcast_to(it, v, shape_arg(it, shape))
        return ctx.new_arr(shape_arg(it, shape), dtype_arg(dtype) or v.dtype, p)
    x = cast(ctx, v, dt)
    return ctx.new_arr(shape_arg(it, shape), dt, lambda *ix: x)


def zeros(it, shape, dtype=None, **kw):
    nokw(kw)
    return full(it, shape, 0, dtype if dtype is not None else "float")


def empty(it, shape, dtype=None, **kw):
    """any content"""
    nokw(kw)
    dt = dtype_arg(dtype) or "f"
    sort = {"i": z3.IntSort(), "b": z3.BoolSort(), "u8": z3.IntSort()}.get(dt, z3.RealSort())
    sh = shape_arg(it, shape)
    f = it.ctx.fresh_fn("empty", [z3.IntSort()] * len(sh), sort) if sh else it.ctx.fresh("empty", sort)
    return it.ctx.new_arr(sh, dt, (lambda *ix: f(*ix)) if sh else (lambda: f))


def ones(it, shape, dtype=None, **kw):
    nokw(kw)
    return full(it, shape, 1, dtype if dtype is not None else "float")


def like(v):
    def f(it, a, dtype=None, **kw):
        nokw(kw)
        a = as_arr(it, a)
        dt = dtype_arg(dtype) or a.dtype
        x = cast(it.ctx, v, dt)
        return it.ctx.new_arr(a.shape, dt, lambda *ix: x)

    return f


def full_like(it, a, fill_value, dtype=None, **kw):
    nokw(kw)
    v = fill_value
    a = as_arr(it, a)
    dt = dtype_arg(dtype) or a.dtype
    x = cast(it.ctx, v, dt)
    return it.ctx.new_arr(a.shape, dt, lambda *ix: x)


def eye(it, n, m=None, k=0, dtype=None, **kw):
    nokw(kw)
    off = it.noopt(k)
    if not isinstance(off, int) and not (isinstance(off, z3.ArithRef) and off.is_int()):
        raise Unsupported("eye with an offset that is no integer")
    if is_sym(off) or off != 0:
        dt = dtype_arg(dtype) or "f"
        one, zero = cast(it.ctx, 1, dt), cast(it.ctx, 0, dt)
        return it.ctx.new_arr(shape_arg(it, (n, n if m is None else m)), dt, lambda i, j: ite(z3.simplify(lift(i) + off) == j, one, zero))
    dt = dtype_arg(dtype) or "f"
    one, zero = cast(it.ctx, 1, dt), cast(it.ctx, 0, dt)
    sh = shape_arg(it, (n, n if m is None else m))
    return it.ctx.new_arr(sh, dt, lambda i, j: ite(simp_eq(i, j), one, zero))


def simp_eq(i, j):
    if i.eq(j):
        return True
    if z3.is_int_value(i) and z3.is_int_value(j):
        return i.as_long() == j.as_long()
    return i == j


def diag(it, v, k=0):
    if is_sym(k) or k != 0:
        raise Unsupported("diag with offset")
    v = as_arr(it, v)
    c = v.snap(it.ctx)
    zero = cast(it.ctx, 0, v.dtype)
    if v.ndim == 1:
        n = v.shape[0]
        return it.ctx.new_arr((n, n), v.dtype, lambda i, j: ite(simp_eq(i, j), c(i), zero))
    return diagonal(it, v)


def diagonal(it, a):
    a = as_arr(it, a)
    if a.ndim != 2:
        raise Unsupported("diagonal of a non-matrix")
    ctx = it.ctx
    m, n = norm_dim(a.shape[0]), norm_dim(a.shape[1])
    if ctx.same_dim(m, n):
        d = m
    elif concrete(m) and concrete(n):
        d = min(m, n)
    elif isinstance(m, Dom) or isinstance(n, Dom):
        raise Unsupported("diagonal over index sets")
    elif ctx.valid(lift(m) <= lift(n)):
        d = m
    elif ctx.valid(lift(n) <= lift(m)):
        d = n
    else:
        d = z3.If(lift(m) <= lift(n), lift(m), lift(n))
    c = a.snap(ctx)
    r = ctx.new_arr((d,), a.dtype, lambda i: c(i, i))
    r.ro = True
    return r


def expand_dims(it, a, axis):
    a = as_arr(it, a)
    if axis < 0:
        axis += a.ndim + 1
    items = [slice(None)] * axis + [None]
    r = basic_view(it, a, items)
    r.contig = a.contig
    return r


def concat(it, seq, axis):
    """np.concatenate along axis."""
    ctx = it.ctx
    arrs = [as_arr(it, x) for x in it.iter_seq(seq).concrete() or _uns("stack of a symbolic list")]
    if axis < 0:
        axis += arrs[0].ndim
    dt = join_dt([a.dtype for a in arrs])
    cur = arrs[0]
    shape = [norm_dim(d) for d in cur.shape]
    c = cur.snap(ctx)
    for b in arrs[1:]:
        if b.ndim != len(shape):
            raise PyRaise(ValueError, "all the input array dimensions must match")
        for k in range(len(shape)):
            if k != axis and not same(ctx, shape[k], b.shape[k]):
                x, y = norm_dim(shape[k]), norm_dim(b.shape[k])
                if concrete(x) and concrete(y):
                    raise PyRaise(ValueError, "array dimensions must match")
                if isinstance(x, Dom) or isinstance(y, Dom):
                    differ(ctx, x, y, "stack over different index sets")
                if not ctx.decide(lift(x) == lift(y)):
                    raise PyRaise(ValueError, "array dimensions must match")
        n1, n2 = shape[axis], norm_dim(b.shape[axis])
        if isinstance(n1, Dom) or isinstance(n2, Dom):
            raise Unsupported("concatenation along an index set")
        cb = b.snap(ctx)
        c = cat2(c, cb, n1, axis)
        shape[axis] = n1 + n2 if concrete(n1) and concrete(n2) else norm_dim(lift(n1) + lift(n2))
    c2 = c
    return ctx.new_arr(shape, dt, memo(lambda *ix: cast(ctx, c2(*ix), dt)))


def cat2(c, cb, n1, axis):
    def f(*ix):
        i = ix[axis]
        if z3.is_int_value(i) and concrete(n1):
            if i.as_long() < n1:
                return c(*ix)
            return cb(*ix[:axis], z3.IntVal(i.as_long() - n1), *ix[axis + 1:])
        cond = i < lift(n1)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return c(*ix)
        a2 = ix[:axis] + (i - lift(n1),) + ix[axis + 1:]
        if z3.is_false(s):
            return cb(*a2)
        return ite(cond, c(*ix), cb(*a2))

    return f


def hstack(it, seq, **kw):
    nokw(kw)
    cc = it.iter_seq(seq).concrete()
    if cc is not None and any(isinstance(x, (str, StrExpr)) for x in cc):
        # an array of strings, modelled as a list
        parts = []
        for x in cc:
            if isinstance(x, (str, StrExpr)):
                parts.append(Items([x]))
            elif isinstance(x, (ListObj, FrozenList, TupleLike, tuple)):
                parts.extend(it.iter_seq(x).parts)
            else:
                raise Unsupported("hstack of strings and something else")
        return it.ctx.new_list(SeqVal(parts))
    arrs = [as_arr(it, x) for x in it.iter_seq(seq).concrete() or _uns("hstack of a symbolic list")]
    return concat(it, tuple(arrs), 0 if arrs[0].ndim == 1 else 1)


def column_stack(it, seq):
    arrs = [as_arr(it, x) for x in it.iter_seq(seq).concrete() or _uns("column_stack of a symbolic list")]
    if all(a.ndim == 1 for a in arrs):
        return stack(it, tuple(arrs), 1)
    if all(a.ndim == 2 for a in arrs):
        return concat(it, tuple(arrs), 1)
    raise Unsupported("column_stack of arrays of different rank")


def vstack(it, seq, **kw):
    nokw(kw)
    s = it.iter_seq(seq)
    cc = s.concrete()
    if cc is None:
        raise Unsupported("vstack of a symbolic list")
    arrs = []
    for x in cc:
        a = as_arr(it, x)
        arrs.append(basic_view(it, a, [None]) if a.ndim == 1 else a)
    return concat(it, tuple(arrs), 0)


def stack(it, seq, axis=0, **kw):
    nokw(kw)
    ctx = it.ctx
    s = it.iter_seq(seq)
    c = s.concrete()
    if c is not None:
        arrs = [as_arr(it, x) for x in c]
        if not arrs:
            raise PyRaise(ValueError, "need at least one array to stack")
        if axis == 0:
            sh, cc, dt = nested(it, tuple(arrs))
            return ctx.new_arr(sh, dt, cc)
        if axis < 0:
            axis += arrs[0].ndim + 1
        views = [expand_dims(it, a, axis) for a in arrs]
        return concat(it, tuple(views), axis)
    if axis != 0:
        raise Unsupported("stack of a symbolic list")
    n = it.seq_len(s)
    if not ctx.decide(lift(n) > 0):
        raise PyRaise(ValueError, "need at least one array to stack")
    return np_array(it, seq)


# --------------------------------------------------------------------------
# reductions
# --------------------------------------------------------------------------
def norm_axis(a, axis):
    if axis is None:
        return tuple(range(a.ndim))
    if isinstance(axis, tuple):
        return tuple(x % a.ndim for x in axis)
    if axis < -a.ndim or axis >= a.ndim:
        raise PyRaise(ValueError, "axis out of bounds")
    return (axis % a.ndim,)


def reduce_(it, a, axis, one, sym, dtype, keepdims=False):
    """one(list of scalars) for concrete dims; sym(doms, fn, outdims) for the
    symbolic ones: returns a function of the remaining indices."""
    ctx = it.ctx
    axes = norm_axis(a, axis)
    c = a.snap(ctx)
    dims = [norm_dim(d) for d in a.shape]
    out = [k for k in range(a.ndim) if k not in axes]
    conc = [k for k in axes if concrete(dims[k])]
    symb = [k for k in axes if not concrete(dims[k])]
    import itertools as itl

    def point(vals):
        """scalars over concrete axes, given the other indices"""
        res = []
        for combo in itl.product(*[range(dims[k]) for k in conc]):
            ix = [None] * a.ndim
            for k, v in zip(conc, combo):
                ix[k] = z3.IntVal(v)
            for k, v in vals.items():
                ix[k] = v
            res.append(c(*ix))
        return res

    if not symb:
        f = lambda *o: one(point(dict(zip(out, o))))
    else:
        f = sym([dim_dom(dims[k]) for k in symb], lambda s, o: one(point({**dict(zip(symb, s)), **dict(zip(out, o))})), [dims[k] for k in out])
    if keepdims:
        shape = [1 if k in axes else dims[k] for k in range(a.ndim)]
        return ctx.new_arr(shape, dtype, memo(lambda *ix: f(*[ix[k] for k in out])))
    if not out:
        return f()
    return ctx.new_arr([dims[k] for k in out], dtype, memo(f))


def sum_fn(it, isint):
    ctx = it.ctx

    def sym(doms, fn, outd):
        vs = [z3.Const(f"#s{k}", d.sort) for k, d in enumerate(doms)]
        os = [z3.Const(f"#o{k}", dim_sort(d)) for k, d in enumerate(outd)]
        body = fn(vs, os)
        if isinstance(body, (bool, z3.BoolRef)):
            body = to_int(body)
        body = to_int(body) if isint else to_real(body)
        return sum_term(ctx, doms, vs, outd, os, body)

    return sym


def sum_term(ctx, doms, vs, outd, os, body):
    """S(os) = sum over vs in doms of body; equal bodies share a term."""
    sig = (tuple(v.sort().name() for v in vs), tuple(o.sort().name() for o in os), body.sort().name())
    cond = conj(*[d.cond(v) for d, v in zip(doms, vs)])
    sb = z3.simplify(body)
    for ent in ctx.sumcache:
        if ent["sig"] != sig or len(ent["gens"]) > len(ctx.gen):
            continue
        pairs = [(a, b) for a, b in zip(ent["gens"], ctx.gen)]
        if any(a.sort() != b.sort() for a, b in pairs):
            continue
        ec, eb = ent["cond"], ent["body"]
        if pairs:
            ec, eb = z3.substitute(ec, *pairs), z3.substitute(eb, *pairs)
        same_ = z3.simplify(eb).eq(sb) and z3.simplify(ec).eq(z3.simplify(cond))
        if not same_:
            oc = conj(*[dim_dom(d).cond(o) for d, o in zip(outd, os)])
            goal = z3.ForAll(vs + os, z3.Implies(oc, conj(ec == cond, z3.Implies(cond, eb == body)))) if vs + os else z3.BoolVal(False)
            same_ = ctx.prove_quiet(goal, 1500)
        if same_:
            g = ent["fn"]
            gen = ctx.gen[: len(ent["gens"])]
            return lambda *o: g(*gen, *o)
    gens = list(ctx.gen)
    F = z3.Function(ctx.name("SUM"), *[g.sort() for g in gens], *[o.sort() for o in os], body.sort())
    fn = lambda *a: F(*a)
    ctx.sumcache.append(dict(sig=sig, gens=gens, cond=cond, body=body, fn=fn))
    if z3.is_int(body):
        # counting: 0 <= sum when the body is non-negative
        pass
    return lambda *o: F(*gens, *o)


def arr_sum(it, a, axis=None, keepdims=False, dtype=None, **kw):
    nokw(kw)
    nokw({"dtype": dtype})
    if a is None:
        return None
    a = as_arr(it, a)
    isint_ = a.dtype in ("b", "i", "u8")

    def one(xs):
        r = 0
        for x in xs:
            r = s_arith("Add", r, x)
        return r

    return reduce_(it, a, axis, one, sum_fn(it, isint_), "i" if isint_ else a.dtype, keepdims)


def count_nonzero(it, a, axis=None):
    a = as_arr(it, a)
    b = emap(it, lambda x: x if isinstance(x, (bool, z3.BoolRef)) else s_cmp("!=", x, 0), a, "b")
    return arr_sum(it, b, axis)


def axis_count(it, a, axis):
    n = 1
    for k in norm_axis(a, axis):
        d = norm_dim(a.shape[k])
        c = it.ctx.count(d) if isinstance(d, Dom) else d
        n = c if (not is_sym(n) and n == 1) else n * c
    return n


def mean(it, a, axis=None, keepdims=False, **kw):
    nokw(kw)
    v, a = a, as_arr(it, a)
    if a is None:
        return to_real(lift(v))
    s = arr_sum(it, a, axis, keepdims)
    n = axis_count(it, a, axis)
    if isinstance(s, NDArr):
        return NP.binop(it, "Div", s, n)
    return s_arith("Div", to_real(s), n)


def prod(it, a, axis=None, keepdims=False, **kw):
    nokw(kw)
    a = as_arr(it, a)

    def one(xs):
        r = 1
        for x in xs:
            r = s_arith("Mult", r, x)
        return r

    def sym(*x):
        raise Unsupported("product over a symbolic dimension")

    return reduce_(it, a, axis, one, sym, a.dtype, keepdims)


def nonempty(it, a, axes):
    for k in axes:
        d = norm_dim(a.shape[k])
        n = it.ctx.count(d) if isinstance(d, Dom) else d
        if not is_sym(n):
            if n == 0:
                raise PyRaise(ValueError, "zero-size array to reduction operation")
        elif not it.ctx.valid(n > 0) and not it.ctx.decide(n > 0):
            raise PyRaise(ValueError, "zero-size array to reduction operation")


def extremum(op):
    def f(it, a, axis=None, keepdims=False, **kw):
        nokw(kw)
        a = as_arr(it, a)
        nonempty(it, a, norm_axis(a, axis))
        ctx = it.ctx
        pick = s_min if op == "<=" else s_max

        def one(xs):
            r = xs[0]
            for x in xs[1:]:
                r = pick(r, x)
            return r

        def sym(doms, fn, outd):
            if len(outd) == 1 and isinstance(outd[0], int) and 1 <= outd[0] <= 4:
                # few results: a constant for each, which solvers handle better
                cells = [sym(doms, lambda vs, os, k=k: fn(vs, [z3.IntVal(k)]), [])() for k in range(outd[0])]

                def cell(o):
                    o = z3.simplify(lift(o))
                    if z3.is_int_value(o):
                        return cells[o.as_long()] if 0 <= o.as_long() < len(cells) else cells[0]
                    r = cells[-1]
                    for k in range(len(cells) - 2, -1, -1):
                        r = z3.If(o == k, cells[k], r)
                    return r

                return cell
            vs = [z3.Const(f"#s{k}", d.sort) for k, d in enumerate(doms)]
            os = [z3.Const(f"#o{k}", dim_sort(d)) for k, d in enumerate(outd)]
            srt = z3.IntSort() if a.dtype in ("i", "u8") else z3.RealSort()
            m = ctx.fresh_fn("ext", [o.sort() for o in os], srt)
            ws = [ctx.fresh_fn("extw", [o.sort() for o in os], d.sort) for d in doms]
            cv = to_int if srt == z3.IntSort() else to_real
            body = cv(fn(vs, os))
            oc = conj(*[dim_dom(d).cond(o) for d, o in zip(outd, os)])
            mo = m(*os)
            lo = mo <= body if op == "<=" else mo >= body
            q(ctx, vs + os, z3.Implies(conj(oc, *[d.cond(v) for d, v in zip(doms, vs)]), lo))
            wv = [w(*os) for w in ws]
            q(ctx, os, z3.Implies(oc, conj(*[d.cond(w) for d, w in zip(doms, wv)], *[x for d, w in zip(doms, wv) for x in d.facts(w)],
                                           mo == cv(fn(wv, os)))))
            ctx.eng.__dict__.setdefault("ext_wit", []).append((mo, wv, os))
            return lambda *o: m(*o)

        return reduce_(it, a, axis, one, sym, a.dtype, keepdims)

    return f


def q(ctx, vs, body, pats=()):
    if vs:
        ctx.forall(vs, body, pats)
    else:
        ctx.assume(body)


def quant(isany):
    def f(it, a, axis=None, keepdims=False, **kw):
        nokw(kw)
        a = as_arr(it, a)
        ctx = it.ctx
        tb = lambda x: b_(x) if isinstance(x, (bool, z3.BoolRef)) else b_(s_cmp("!=", x, 0))

        def one(xs):
            ys = [tb(x) for x in xs]
            r = disj(*ys) if isany else conj(*ys)
            return True if z3.is_true(r) else False if z3.is_false(r) else r

        def sym(doms, fn, outd):
            if outd:
                raise Unsupported("any/all along one symbolic axis")
            if isany:
                e = ctx.exists(doms, lambda *w: fn(list(w), []), "any")
                return lambda: e
            e = ctx.exists(doms, lambda *w: neg(b_(fn(list(w), []))), "all")
            return lambda: neg(e)

        return reduce_(it, a, axis, one, sym, "b", keepdims)

    return f


arr_any, arr_all = quant(True), quant(False)
arr_min, arr_max = extremum("<="), extremum(">=")


def argext(op):
    def f(it, a, axis=None, **kw):
        nokw(kw)
        a = as_arr(it, a)
        if axis is not None and not (a.ndim == 1):
            raise Unsupported("argmin along an axis")
        nonempty(it, a, range(a.ndim))
        ctx = it.ctx
        dims = [norm_dim(d) for d in a.shape]
        c = a.snap(ctx)
        if all(concrete(d) for d in dims) and a.ndim == 1 and dims[0] <= 64:
            best, bi = c(I0), 0
            for k in range(1, dims[0]):
                v = c(z3.IntVal(k))
                better = s_cmp("<" if op == "<=" else ">", v, best)
                bi = ite(better, k, bi)
                best = ite(better, v, best)
            return bi
        doms = [dim_dom(d) for d in dims]
        ws = [ctx.fresh("arg", d.sort) for d in doms]
        vs = [z3.Const(f"#s{k}", d.sort) for k, d in enumerate(doms)]
        for d, w in zip(doms, ws):
            ctx.assume_in(d, w)
        bw, bv = c(*ws), c(*vs)
        ctx.forall(vs, z3.Implies(conj(*[d.cond(v) for d, v in zip(doms, vs)]), b_(s_cmp(op, bw, bv))))
        if a.ndim == 1:
            if isinstance(dims[0], Dom):
                return AbsIdx(dims[0], ws[0])
            # the first one
            ctx.forall(vs, z3.Implies(conj(doms[0].cond(vs[0]), vs[0] < ws[0]), b_(s_cmp("!=", bv, bw))))
            return ws[0]
        return FlatIdx(dims, ws)

    return f


def flatidx_binop(it, op, a, b):
    ctx = it.ctx
    dims, ix = a.dims, a.ix
    if len(dims) != 2:
        raise Unsupported("flat index of a non-matrix")
    n = ctx.dim_of_len(b) if is_sym(b) else b
    if not ctx.same_dim(norm_dim(n), dims[1]):
        raise Unsupported("flat index divided by another dimension")
    k = 0 if op == "FloorDiv" else 1 if op == "Mod" else _uns("flat index arithmetic")
    return AbsIdx(dims[k], ix[k]) if isinstance(dims[k], Dom) else ix[k]


def matmul(it, a, b):
    ctx = it.ctx
    if a is None and b is None:
        raise PyRaise(TypeError, "unsupported operand type for @: None")
    if a is None or b is None:
        raise PyRaise(ValueError, "matmul: operand does not have enough dimensions")
    a, b = as_arr(it, a), as_arr(it, b)
    if a is None or b is None:
        raise PyRaise(ValueError, "matmul: input operand is a scalar")
    if a.ndim == 2 and b.ndim == 2:
        k = norm_dim(a.shape[1])
        if not same(ctx, k, b.shape[0]):
            k2 = norm_dim(b.shape[0])
            if concrete(k) and concrete(k2):
                raise PyRaise(ValueError, "matmul: mismatch in core dimension")
            if isinstance(k, Dom) or isinstance(k2, Dom):
                raise Unsupported("matmul over index sets")
            if not ctx.decide(lift(k) == lift(k2)):
                raise PyRaise(ValueError, "matmul: mismatch in core dimension")
            k = k if concrete(k) else k2
        if not concrete(k):
            raise Unsupported("matmul over a symbolic dimension")
        ca, cb = a.snap(ctx), b.snap(ctx)

        def c(i, j):
            r = 0
            for t in range(k):
                tt = z3.IntVal(t)
                r = s_arith("Add", r, s_arith("Mult", ca(i, tt), cb(tt, j)))
            return r

        return ctx.new_arr((a.shape[0], b.shape[1]), join_dt([a.dtype, b.dtype]), memo(c))
    if a.ndim == 2 and b.ndim == 1:
        r = matmul(it, a, expand_dims(it, b, 1))
        return reshape(it, r, a.shape[0])
    raise Unsupported("matmul of these ranks")


def norm(it, a, ord=None, axis=None, keepdims=False):
    a = as_arr(it, a)
    if ord not in (None, 2, "fro"):
        if ord == 1 and axis is not None:
            return arr_sum(it, emap(it, s_abs, a), axis, keepdims)
        raise Unsupported("norm order")
    if ord == 2 and axis is None and a.ndim != 1:
        raise Unsupported("spectral norm")
    sq = emap(it, lambda x: s_arith("Mult", x, x), a)
    s = arr_sum(it, sq, axis, keepdims)
    return emap(it, lambda x: SQRT(to_real(x)), s, "f") if isinstance(s, NDArr) else SQRT(to_real(s))


def s_abs(x):
    if not is_sym(x):
        return abs(x)
    return z3.If(x >= 0, x, -x)


def clip(it, a, lo=None, hi=None, **kw):
    lo = kw.get("a_min", lo)
    hi = kw.get("a_max", hi)
    r = a
    if lo is not None:
        r = binfn(s_max)(it, r, lo)
    if hi is not None:
        r = binfn(s_min)(it, r, hi)
    return r


def binfn(f, dt=None):
    def g(it, a, b, out=None, **kw):
        nokw(kw)
        if out is not None:
            raise Unsupported("out argument")
        a, b = (x if isinstance(x, NDArr) or scalar_ok(x) else np_array(it, x) for x in (it.noopt(a), it.noopt(b)))
        return elementwise(it, f, a, b, dt or (lambda da, xa, db, xb: result_dtype(da, xa, db, xb, "max")))

    return g


def arith_fn(op):
    return lambda it, a, b, **kw: nokw(kw) or NP.binop(it, op, a, b) if isinstance(a, NDArr) or isinstance(b, NDArr) else (
        NP.binop(it, op, np_array(it, a), b) if not scalar_ok(a) or not scalar_ok(b) else s_arith(op, a, b))


def mapfn(f, dt=None):
    def g(it, a, **kw):
        nokw(kw)
        a = it.noopt(a)
        if scalar_ok(a):
            return f(a)
        a = as_arr(it, a)
        return emap(it, f, a, dt or a.dtype)

    return g


def tb(x):
    return x if isinstance(x, (bool, z3.BoolRef)) else s_cmp("!=", x, 0)


def s_round(x):
    if isint(x):
        return x
    if not is_sym(x):
        return float(round(x))
    return z3.ToReal(RND(x))


def around(it, a, decimals=0, **kw):
    nokw(kw)
    if decimals == 0:
        return mapfn(s_round)(it, a)
    if is_sym(decimals) or not isinstance(decimals, int) or abs(decimals) > 12:
        raise Unsupported("rounding to decimals")
    if isinstance(a, NDArr) and a.dtype in ("i", "u8", "b"):
        if decimals > 0 and a.dtype != "b":
            return mapfn(lambda x: x)(it, a)
        raise Unsupported("rounding of integers to decimals")
    p = z3.RealVal(Fraction(10) ** decimals)
    return mapfn(lambda x: to_real(s_round(to_real(lift(x)) * p)) / p)(it, a)


def isnan(it, a):
    if isinstance(a, NDArr):
        nan = a.nan
        if nan is None:
            return it.ctx.new_arr(a.shape, "b", lambda *ix: False)
        return it.ctx.new_arr(a.shape, "b", nan)
    return False


def isfinite(it, a):
    if isinstance(a, NDArr):
        nan = a.nan or (lambda *ix: False)
        c = a.snap(it.ctx)
        return it.ctx.new_arr(a.shape, "b", lambda *ix: bconj(neg(b_(nan(*ix))), s_cmp("<", c(*ix), INF)))
    raise Unsupported("isfinite")


def isinf(it, a):
    if isinstance(a, NDArr):
        c = a.snap(it.ctx)
        return it.ctx.new_arr(a.shape, "b", lambda *ix: s_cmp("==", c(*ix), INF))
    raise Unsupported("isinf")


def where(it, c, x=None, y=None):
    ctx = it.ctx
    c = as_arr(it, c)
    if x is not None:
        sx, cx, dx, xx = operand(it, x)
        sy, cy, dy, xy = operand(it, y)
        s1, p1, p2 = bcast2(ctx, sx, sy)
        s2, q1, q2 = bcast2(ctx, c.shape, s1)
        cc = c.snap(ctx)
        return ctx.new_arr(s2, result_dtype(dx, xx, dy, xy, "max"),
                           memo(lambda *ix: ite(b_(tb(cc(*q1(ix)))), cx(*p1(q2(ix))), cy(*p2(q2(ix))))))
    cc = c.snap(ctx)
    dims = [norm_dim(d) for d in c.shape]
    big = [k for k, d in enumerate(dims) if not isone(d)]
    if len(big) > 1 or isinstance(dims[big[0]] if big else 0, Dom) and False:
        raise Unsupported("where over several dimensions")
    if not big:
        raise Unsupported("where of a single cell")
    k = big[0]

    def cond(i):
        ix = [I0] * len(dims)
        ix[k] = i
        return b_(tb(cc(*ix)))

    d = mask_dom(it, dims[k], cond)
    if d.sort != z3.IntSort():
        raise Unsupported("positions in an index set")
    out = []
    for j in range(len(dims)):
        if j == k:
            out.append(ctx.new_arr([d], "i", lambda i: i))
        else:
            out.append(ctx.new_arr([d], "i", lambda i: 0))
    return tuple(out)


def argwhere(it, c):
    c = as_arr(it, c)
    if c.ndim != 1:
        raise Unsupported("argwhere over several dimensions")
    w = where(it, c)[0] if not isone(norm_dim(c.shape[0])) else _uns("argwhere of a single cell")
    v = w.snap(it.ctx)
    return it.ctx.new_arr([w.shape[0], 1], "i", lambda i, z: v(i))


def argsort(it, a, axis=-1, kind=None, **kw):
    """Trusted: a permutation that sorts (recorded for specifications)."""
    ctx = it.ctx
    a = as_arr(it, a)
    if a.ndim != 1 or axis not in (-1, 0) or kw:
        raise Unsupported("argsort")
    n = norm_dim(a.shape[0])
    if isinstance(n, Dom):
        raise Unsupported("argsort over an index set")
    if n == 0 and not is_sym(n):
        return ctx.new_arr((0,), "i", lambda k: 0)
    c = a.snap(ctx)
    p, q = ctx.fresh_fn("perm", [z3.IntSort()], z3.IntSort()), ctx.fresh_fn("perm_inv", [z3.IntSort()], z3.IntSort())
    i, j = z3.Ints("#ps #pt")
    rng = lambda x: z3.And(x >= 0, x < lift(n))
    ctx.axiom(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p(i)), q(p(i)) == i)), patterns=[p(i)]))
    ctx.axiom(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(q(i)), p(q(i)) == i)), patterns=[q(i)]))
    ctx.axiom(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i <= j), to_real(c(p(i))) <= to_real(c(p(j)))), patterns=[z3.MultiPattern(p(i), p(j))]))
    key = ("glob", "#perms", 0)
    ctx.mem[key] = ctx.mem.get(key, ()) + ((p, q),)
    return ctx.new_arr((n,), "i", lambda k: p(k))


def ix_(it, *args):
    out = []
    for x in args:
        out.append(x if isinstance(x, NDArr) else np_array(it, x))
    return IxVal(out)


def astype(it, a, dtype, copy=True, **kw):
    nokw(kw)
    dt = dtype_arg(dtype)
    if dt == a.dtype and copy is False:
        return a
    if dt == "f32" and a.dtype in ("f", "i"):
        raise Unsupported("rounding to single precision")
    return copy_arr(it, a, dt)


def tolist(it, a):
    ctx = it.ctx
    d = norm_dim(a.shape[0]) if a.ndim else None
    c = a.snap(ctx)
    if a.ndim == 0:
        return c()
    if concrete(d):
        if a.ndim == 1:
            return ctx.new_list([c(z3.IntVal(k)) for k in range(d)])
        return ctx.new_list([tolist(it, basic_view(it, a, [k])) for k in range(d)])
    if a.ndim == 1:
        return ctx.new_list(SeqVal([SymPart(dim_dom(d), lambda i: c(i))]))
    rows = a.shape[1:]
    if a.ndim == 2 and concrete(norm_dim(rows[0])):
        m = norm_dim(rows[0])
        return ctx.new_list(SeqVal([SymPart(dim_dom(d), lambda i: FrozenList(SeqVal([Items([c(i, z3.IntVal(k)) for k in range(m)])])))]))
    raise Unsupported("tolist")


def item(it, a, *ix):
    if ix:
        return basic_view(it, a, list(ix))
    for d in a.shape:
        if not isone(norm_dim(d)):
            raise Unsupported("item() of a larger array")
    return a.snap(it.ctx)(*[I0] * a.ndim)


def squeeze(it, a, axis=None):
    dims = [norm_dim(d) for d in a.shape]
    ks = [k for k, d in enumerate(dims) if isone(d)] if axis is None else list(norm_axis(a, axis))
    if axis is None and any(is_sym(d) for d in dims):
        raise Unsupported("squeeze of a symbolic shape")
    items = [0 if k in ks else slice(None) for k in range(a.ndim)]
    return basic_view(it, a, items)


def fill(it, a, v):
    write(it, a, lambda *ix: True, v)


def inv_matrix(it, m):
    """np.linalg.inv of a 3x3 (or smaller) matrix by the adjugate."""
    ctx = it.ctx
    m = as_arr(it, m)
    if m.ndim != 2 or norm_dim(m.shape[0]) != 3 or norm_dim(m.shape[1]) != 3:
        raise Unsupported("inverse of a non 3x3 matrix")
    c = m.snap(ctx)
    e = [[c(z3.IntVal(i), z3.IntVal(j)) for j in range(3)] for i in range(3)]
    e = [[to_real(x) for x in r] for r in e]
    inv = [[ctx.freal(f"inv{i}{j}") for j in range(3)] for i in range(3)]
    det = (e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0])
           + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]))
    if not ctx.decide(det != 0):
        raise PyRaise(ValueError, "Singular matrix (LinAlgError)")
    for i in range(3):
        for j in range(3):
            s1 = sum((e[i][k] * inv[k][j] for k in range(1, 3)), e[i][0] * inv[0][j])
            s2 = sum((inv[i][k] * e[k][j] for k in range(1, 3)), inv[i][0] * e[0][j])
            ctx.assume(s1 == (1 if i == j else 0))
            ctx.assume(s2 == (1 if i == j else 0))
    inv = [list(r) for r in inv]
    return ctx.new_arr((3, 3), "f", lambda i, j: select([select(r, j) for r in inv], i))


def array_equal(it, a, b, **kw):
    nokw(kw)
    ctx = it.ctx
    a, b = as_arr(it, a), as_arr(it, b)
    if a is None or b is None:
        raise Unsupported("array_equal of scalars")
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not same(ctx, x, y):
            x, y = norm_dim(x), norm_dim(y)
            if concrete(x) and concrete(y):
                return False
            if isinstance(x, Dom) or isinstance(y, Dom):
                raise Unsupported("array_equal over index sets")
            if not ctx.decide(lift(x) == lift(y)):
                return False
    return arr_all(it, NP.compare(it, "==", a, b))


def np_shape(it, a):
    return NP.attr(it, as_arr(it, a), "shape")


def linspace(it, a, b, num=50, **kw):
    ctx = it.ctx
    if kw or not (is_num(a) and is_num(b)):
        raise Unsupported("linspace")
    n = it.noopt(num)
    if not is_sym(n) and not isinstance(n, int):
        raise PyRaise(TypeError, "linspace: number of samples")
    neg_ = ctx.decide(lift(n) < 0) if is_sym(n) else n < 0
    if neg_:
        raise PyRaise(ValueError, "Number of samples must be non-negative")
    x, y, m = to_real(lift(a)), to_real(lift(b)), to_real(lift(n))
    return ctx.new_arr((n,), "f", lambda i: z3.If(lift(n) <= 1, x, x + to_real(lift(i)) * (y - x) / (m - 1)))


METHODS = {
    "copy": lambda it, a, order=None: copy_arr(it, a),  # any memory order
    "flatten": flatten,
    "ravel": ravel,
    "reshape": reshape,
    "astype": astype,
    "sum": arr_sum,
    "mean": mean,
    "prod": prod,
    "min": arr_min,
    "max": arr_max,
    "argmin": argext("<="),
    "argmax": argext(">="),
    "any": arr_any,
    "all": arr_all,
    "tolist": tolist,
    "item": item,
    "squeeze": squeeze,
    "fill": fill,
    "clip": clip,
    "transpose": lambda it, a, *ax: transpose(it, a, ax[0] if len(ax) == 1 and isinstance(ax[0], tuple) else (ax or None)),
    "diagonal": diagonal,
    "round": around,
    "dot": matmul,
    "nonzero": where,
    "argsort": argsort,
    "__getitem__": getitem,
    "swapaxes": lambda it, a, i, j: transpose(it, a, tuple(j if k == i else i if k == j else k for k in range(a.ndim))),
}


def row_count(ctx, n, w, c):
    """CNT(i): how many of the n rows equal row i (equal bodies share the term)."""
    same_row = lambda x, y: conj(*[b_(s_cmp("==", c(x, z3.IntVal(t)), c(y, z3.IntVal(t)))) for t in range(w)])
    d = dim_dom(n)
    v, o = z3.Const("#s0", d.sort), z3.Const("#o0", d.sort)
    return sum_term(ctx, [d], [v], [n], [o], to_int(same_row(v, o)))


def unique(it, a, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    """np.unique(rows): the distinct rows, each one row of a, and how often it
    occurs; the order is not specified here."""
    ctx = it.ctx
    a = as_arr(it, a)
    if a.ndim == 1 and axis is None:
        axis = 0
        w, cc0 = 1, a.snap(ctx)
        cc = lambda i, t: cc0(i)
    else:
        if a.ndim != 2 or axis != 0 or not concrete(norm_dim(a.shape[1])):
            raise Unsupported("np.unique of this shape")
        w, cc = norm_dim(a.shape[1]), a.snap(ctx)
    if return_index or return_inverse or kw or ctx.gen:
        raise Unsupported("np.unique with these options")
    n = norm_dim(a.shape[0])
    if isinstance(n, Dom):
        raise Unsupported("np.unique over an index set")
    cnt = row_count(ctx, n, w, cc)
    nn = lift(n)
    m = ctx.fint("m_unique", 0)
    rep, pos = ctx.fresh_fn("rep", [z3.IntSort()], z3.IntSort()), ctx.fresh_fn("pos", [z3.IntSort()], z3.IntSort())
    j, i = z3.Int("#uj"), z3.Int("#ui")
    ctx.assume(z3.And(m <= nn, z3.Implies(nn > 0, m > 0)))
    eq = lambda x, y: conj(*[b_(s_cmp("==", cc(x, z3.IntVal(t)), cc(y, z3.IntVal(t)))) for t in range(w)])
    ctx.axiom(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(rep(j) >= 0, rep(j) < nn, pos(rep(j)) == j)), patterns=[rep(j)]))
    ctx.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nn), z3.And(pos(i) >= 0, pos(i) < m, eq(rep(pos(i)), i), cnt(rep(pos(i))) == cnt(i),
                                                                      cnt(i) >= 1, cnt(i) <= nn)), patterns=[cnt(i)]))
    u = ctx.new_arr((m, w) if a.ndim == 2 else (m,), a.dtype, (lambda x, t: cc(rep(x), t)) if a.ndim == 2 else (lambda x: cc0(rep(x))))
    if not return_counts:
        return u
    return u, ctx.new_arr((m,), "i", lambda x: cnt(rep(x)))


def nat(name, f):
    def g(it, args, kw):
        it.ctx.eng.used.add("numpy." + name)
        return f(it, *args, **kw)

    return Native("numpy." + name, g)


def numpy_module():
    F = {
        "array": np_array,
        "asarray": lambda it, v, dtype=None, **k: nokw(k) or v if isinstance(v, NDArr) and (dtype is None or dtype_arg(dtype) == v.dtype) else np_array(it, v, dtype, **k),
        "copy": lambda it, a, **k: nokw(k) or np_array(it, a),
        "full": full, "zeros": zeros, "ones": ones, "eye": eye, "identity": lambda it, n, dtype=None: eye(it, n, None, 0, dtype),
        "empty": empty,
        "zeros_like": like(0), "ones_like": like(1), "full_like": full_like, "empty_like": lambda it, a, dtype=None, **k: nokw(k) or empty(it, as_arr(it, a).shape, dtype or Opaque("dtype", None, {"name": as_arr(it, a).dtype})),
        "diag": diag, "diagonal": diagonal, "expand_dims": expand_dims, "hstack": hstack, "vstack": vstack, "stack": stack,
        "concatenate": lambda it, s, axis=0, **k: nokw(k) or concat(it, s, axis),
        "column_stack": column_stack,
        "multiply": arith_fn("Mult"), "divide": arith_fn("Div"), "add": arith_fn("Add"), "subtract": arith_fn("Sub"),
        "true_divide": arith_fn("Div"), "dot": matmul, "matmul": matmul,
        "square": mapfn(lambda x: s_arith("Mult", x, x)), "abs": mapfn(s_abs), "absolute": mapfn(s_abs),
        "sqrt": mapfn(lambda x: SQRT(to_real(x)), "f"), "negative": mapfn(lambda x: s_arith("Sub", 0, x)),
        "power": lambda it, a, b: NP.binop(it, "Pow", a, b), "sign": mapfn(lambda x: ite(b_(s_cmp(">", x, 0)), 1, ite(b_(s_cmp("<", x, 0)), -1, 0))),
        "maximum": binfn(s_max), "minimum": binfn(s_min), "clip": clip, "fmax": binfn(s_max), "fmin": binfn(s_min),
        "logical_and": binfn(lambda x, y: bconj(tb(x), tb(y)), "b"), "logical_or": binfn(lambda x, y: bdisj(tb(x), tb(y)), "b"),
        "logical_not": mapfn(lambda x: (not tb(x)) if isinstance(tb(x), bool) else neg(tb(x)), "b"),
        "logical_xor": binfn(lambda x, y: s_cmp("!=", tb(x), tb(y)), "b"),
        "isnan": isnan, "isfinite": isfinite, "isinf": isinf, "where": where, "argwhere": argwhere, "argsort": argsort, "nonzero": where, "ix_": ix_,
        "sum": arr_sum, "mean": mean, "prod": prod, "min": arr_min, "max": arr_max, "amin": arr_min, "amax": arr_max,
        "any": arr_any, "all": arr_all, "argmin": argext("<="), "argmax": argext(">="), "count_nonzero": count_nonzero,
        "around": around, "round": around, "rint": around, "round_": around, "array_equal": array_equal, "shape": np_shape,
        "reshape": lambda it, a, s, **k: nokw(k) or reshape(it, as_arr(it, a), s), "ravel": lambda it, a: ravel(it, as_arr(it, a)),
        "transpose": lambda it, a, axes=None: transpose(it, as_arr(it, a), axes), "squeeze": lambda it, a, axis=None: squeeze(it, as_arr(it, a), axis),
        "repeat": lambda it, a, n, axis=None: repeat(it, as_arr(it, a), n, axis),
        "equal": binfn(lambda x, y: s_cmp("==", x, y), "b"), "not_equal": binfn(lambda x, y: s_cmp("!=", x, y), "b"),
        "less": binfn(lambda x, y: s_cmp("<", x, y), "b"), "greater": binfn(lambda x, y: s_cmp(">", x, y), "b"),
        "less_equal": binfn(lambda x, y: s_cmp("<=", x, y), "b"), "greater_equal": binfn(lambda x, y: s_cmp(">=", x, y), "b"),
        "unique": unique,
        "ndim": lambda it, a: as_arr(it, a).ndim,
        "atleast_2d": lambda it, a: a if as_arr(it, a).ndim >= 2 else basic_view(it, as_arr(it, a), [None] * (2 - as_arr(it, a).ndim)),
        "linspace": linspace, "broadcast_to": lambda it, a, s: it.ctx.new_arr(shape_arg(it, s), as_arr(it, a).dtype, bcast_to(it, as_arr(it, a), shape_arg(it, s))),
        "cos": mapfn(lambda x: ufun("cos")(to_real(x)), "f"), "sin": mapfn(lambda x: ufun("sin")(to_real(x)), "f"),
        "tan": mapfn(lambda x: ufun("tan")(to_real(x)), "f"),
        "outer": lambda it, a, b: NP.binop(it, "Mult", expand_dims(it, ravel(it, as_arr(it, a)), 1), expand_dims(it, ravel(it, as_arr(it, b)), 0)),
    }
    attrs = {k: nat(k, f) for k, f in F.items()}
    attrs.update({
        "inf": float("inf"), "newaxis": None, "pi": 3.141592653589793, "nan": Poison("NaN constant"),
        "float64": Opaque("dtype", None, {"name": "f"}), "float32": Opaque("dtype", None, {"name": "f32"}),
        "int64": Opaque("dtype", None, {"name": "i"}), "int32": Opaque("dtype", None, {"name": "i"}),
        "uint8": Opaque("dtype", None, {"name": "u8"}), "bool_": Opaque("dtype", None, {"name": "b"}),
        "ndarray": NDARRAY_T, "float": Opaque("dtype", None, {"name": "f"}), "uint": Opaque("dtype", None, {"name": "i"}),
        "linalg": ModelModule("numpy.linalg", {"norm": nat("linalg.norm", norm), "inv": nat("linalg.inv", inv_matrix)}),
        "random": ModelModule("numpy.random", {"rand": nat("random.rand", random_unit), "random": nat("random.random", random_unit)}),
        "LinAlgError": ValueError,
    })
    return ModelModule("numpy", attrs)


def random_unit(it, *shape):
    """some number in [0, 1)"""
    if shape:
        raise Unsupported("random arrays")
    r = it.ctx.freal("random")
    it.ctx.assume(z3.And(r >= 0, r < 1))
    return r


def repeat(it, a, n, axis=None):
    ctx = it.ctx
    if axis is None:
        if a.ndim != 1:
            a = ravel(it, a)
        axis = 0
    if is_sym(n) or isinstance(norm_dim(a.shape[axis]), Dom):
        raise Unsupported("repeat")
    axis %= a.ndim
    c = a.snap(ctx)
    d = norm_dim(a.shape[axis])
    shape = list(a.shape)
    shape[axis] = d * n if concrete(d) else norm_dim(lift(d) * n)
    return ctx.new_arr(shape, a.dtype, lambda *ix: c(*ix[:axis], z3.simplify(ix[axis] / n) if z3.is_int_value(ix[axis]) else ix[axis] / n, *ix[axis + 1:]))


class TypeVal:
    """A type object known only for isinstance checks."""

    def __init__(self, name, test):
        self.name, self.test = name, test

    def __repr__(self):
        return f"<type {self.name}>"


NDARRAY_T = TypeVal("numpy.ndarray", lambda it, v: isinstance(v, NDArr))
