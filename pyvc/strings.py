"""Strings with symbolic characters (CharStr: known length, SymStr: unknown
length) and the part of `re` that patterns with bounded width need."""
import re as _re
import re._parser as sre
import re._constants as sc

import z3

from .core import *


class CharStr:
    """A string of known length with symbolic characters (code points)."""

    def __init__(self, chars):
        self.chars = tuple(chars)  # str of length 1 or z3 Int

    @staticmethod
    def make(chars):
        if all(isinstance(c, str) for c in chars):
            return "".join(chars)
        return CharStr(chars)

    def subst(self, f):
        return CharStr(tuple(f(c) for c in self.chars))

    def __repr__(self):
        return f"CharStr({self.chars})"


class SymStr:
    """A string of symbolic length n; fn(i) is the code point at 0 <= i < n."""

    def __init__(self, n, fn, base=None, off=0):
        self.n, self.fn = n, fn
        # fn(i) == base(i + off): quantify over positions of base, whose
        # terms have no arithmetic in them and so serve as triggers
        self.base, self.off = (base, off) if base is not None else (fn, 0)

    def all(self, cond, var="#p"):
        """every character satisfies cond"""
        p = z3.Int(var)
        return z3.ForAll([p], z3.Implies(z3.And(p >= self.off, p < self.off + lift(self.n)), cond(self.base(p))))

    @staticmethod
    def fresh(ctx, base):
        n = ctx.fint(base + "_len", 0)
        f = ctx.fresh_fn(base + "_chr", (z3.IntSort(),), z3.IntSort())
        return SymStr(n, lambda i: f(i if is_sym(i) else z3.IntVal(i)))

    def subst(self, f):
        return SymStr(f(self.n), lambda i: f(self.fn(i)), lambda i: f(self.base(i)), f(self.off) if is_sym(self.off) else self.off)

    def __repr__(self):
        return f"SymStr({self.n})"


def code(c):
    return z3.IntVal(ord(c)) if isinstance(c, str) else c


def length(s):
    return len(s) if isinstance(s, str) else len(s.chars) if isinstance(s, CharStr) else s.n


def char(s, i):
    return z3.IntVal(ord(s[i])) if isinstance(s, str) else code(s.chars[i]) if isinstance(s, CharStr) else s.fn(i)


def eq(a, b):
    """Equality of two strings, at least one of known length (Bool or bool)."""
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        if a.n is b.n and a.fn is b.fn:
            return True
        i = z3.Int("#e")
        d = z3.simplify(lift(b.off) - lift(a.off))
        return z3.And(lift(a.n) == lift(b.n), z3.ForAll([i], z3.Implies(z3.And(a.off <= i, i < a.off + lift(a.n)), a.base(i) == b.base(z3.simplify(i + d)))))
    if isinstance(a, SymStr):
        a, b = b, a
    n = length(a)
    m = length(b)
    if not is_sym(m) and n != m:
        return False
    cs = [] if not is_sym(m) else [m == n]
    for k in range(n):
        x, y = char(a, k), char(b, k)
        c = z3.simplify(x == y)
        if z3.is_false(c):
            return False
        if not z3.is_true(c):
            cs.append(c)
    return z3.And(*cs) if cs else True


def index(it, s, i):
    n = s.n
    if is_sym(i):
        if not it.ctx.decide(z3.And(i >= -n, i < n)):
            raise PyRaise(IndexError, "string index out of range")
        return CharStr([s.fn(z3.If(i < 0, i + n, i))])
    if not it.ctx.decide(n > i if i >= 0 else n >= -i):
        raise PyRaise(IndexError, "string index out of range")
    return CharStr([s.fn(i if i >= 0 else n + i)])


def slc(it, s, sl):
    ctx, n = it.ctx, s.n
    if sl.step not in (None, 1):
        raise Unsupported("string slice with a step")

    def bound(b, d):
        if b is None:
            return d
        b = lift(b)
        return z3.simplify(z3.If(b < 0, z3.If(b + n < 0, 0, b + n), z3.If(b > n, n, b)))

    lo, hi = bound(sl.start, z3.IntVal(0)), bound(sl.stop, n)
    ln = z3.simplify(z3.If(hi > lo, hi - lo, 0))
    for k in range(9):  # a known length makes a string of known length
        if z3.is_int_value(ln) and ln.as_long() == k or ctx.valid(ln == k):
            return CharStr.make([z3.simplify(s.fn(z3.simplify(lo + j))) for j in range(k)]) if k else ""
    off = z3.simplify(lift(s.off) + lo)
    return SymStr(ln, lambda i: s.fn(z3.simplify(i + lo)), s.base, off.as_long() if z3.is_int_value(off) else off)


def digit_char(c, decimal):
    """str.isdecimal()/str.isdigit() of one character; every decimal is a digit, not the other way round (superscripts)."""
    u = UDECIMAL(c) if decimal else z3.Or(UDECIMAL(c), UDIGIT(c))
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c > 127, u))


def all_digits(ctx, s, decimal=False):
    """Bool: str.isdigit()/isdecimal(), with a witness of a character that is none."""
    key = ("glob", "#decimals" if decimal else "#digits", 0)
    x = z3.Int("#probe")
    for n, t, e in ctx.mem.get(key, ()):
        if lift(s.n).eq(n) and s.fn(x).eq(t):
            return e
    isd = lambda c: digit_char(c, decimal)
    e, w = ctx.fresh("isdigit", z3.BoolSort()), ctx.fint("nondigit")
    ctx.assume(z3.Implies(e, z3.And(lift(s.n) > 0, s.all(isd))))
    ctx.assume(z3.Implies(z3.Not(e), z3.Or(lift(s.n) <= 0, z3.And(w >= s.off, w < s.off + lift(s.n), z3.Not(isd(s.base(w)))))))
    ctx.mem[key] = ctx.mem.get(key, ()) + ((lift(s.n), s.fn(x), e),)
    return e


# --------------------------------------------------------------------------
# re
# --------------------------------------------------------------------------
UDIGIT = z3.Function("UNICODE_DIGIT", z3.IntSort(), z3.BoolSort())
UDECIMAL = z3.Function("UNICODE_DECIMAL", z3.IntSort(), z3.BoolSort())


def cls_cond(c, items, icase):
    out, negate = [], False
    for op, av in items:
        if op is sc.NEGATE:
            negate = True
        elif op is sc.LITERAL:
            out.append(lit(c, av, icase))
        elif op is sc.RANGE:
            lo, hi = av
            out.append(z3.And(c >= lo, c <= hi))
            if icase:
                if not (hi < 128):
                    raise Unsupported("case-insensitive range")
                out.append(z3.And(c >= 65, c <= 90, c + 32 >= lo, c + 32 <= hi))
                out.append(z3.And(c >= 97, c <= 122, c - 32 >= lo, c - 32 <= hi))
        elif op is sc.CATEGORY and av in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
            d = digit_char(c, True)  # \\d matches the decimal digits
            out.append(d if av is sc.CATEGORY_DIGIT else z3.Not(d))
        else:
            raise Unsupported(f"regular expression class {op}")
    r = z3.Or(*out) if out else z3.BoolVal(False)
    return z3.Not(r) if negate else r


def lit(c, av, icase):
    if icase and chr(av).lower() != chr(av).upper():
        if av > 127:
            raise Unsupported("case-insensitive literal")
        return z3.Or(c == ord(chr(av).lower()), c == ord(chr(av).upper()))
    return c == av


class Matcher:
    def __init__(self, pattern, flags, s):
        self.p = sre.parse(pattern, flags)
        self.flags = self.p.state.flags
        if self.flags & ~(_re.UNICODE | _re.IGNORECASE | _re.ASCII):
            raise Unsupported("regular expression flags")
        self.s, self.n = s, lift(length(s))
        self.icase = bool(self.flags & _re.IGNORECASE)

    def at(self, pos, f):
        """condition f holds of the character at pos, which exists"""
        if not isinstance(self.s, SymStr) and pos >= length(self.s):
            return z3.BoolVal(False)
        return z3.And(self.n > pos, f(char(self.s, pos)))

    def run(self, items, states):
        for op, av in items:
            states = self.step(op, av, states)
            if len(states) > 60:
                raise Unsupported("regular expression with too many alternatives")
        return states

    def step(self, op, av, states):
        one = None
        if op is sc.LITERAL:
            one = lambda c: lit(c, av, self.icase)
        elif op is sc.NOT_LITERAL:
            one = lambda c: z3.Not(lit(c, av, self.icase))
        elif op is sc.IN:
            one = lambda c: cls_cond(c, av, self.icase)
        elif op is sc.ANY:
            one = lambda c: c != 10
        if one is not None:
            return [(p + 1, z3.And(k, self.at(p, one)), g) for p, k, g in states]
        if op is sc.AT:
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                return [(p, k, g) for p, k, g in states if p == 0]
            if av is sc.AT_END_STRING:
                return [(p, z3.And(k, self.n == p), g) for p, k, g in states]
            if av is sc.AT_END:
                return [(p, z3.And(k, z3.Or(self.n == p, z3.And(self.n == p + 1, self.at(p, lambda c: c == 10)))), g) for p, k, g in states]
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            if hi is sc.MAXREPEAT or hi > 40:
                raise Unsupported("unbounded repetition in a regular expression")
            out = []
            for k in range(hi + 1):
                if k >= lo:
                    out += states
                if k < hi:
                    states = self.run(sub, states)
            return out
        if op is sc.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise Unsupported("inline regular expression flags")
            out = []
            for p, k, g in states:
                for q, k2, g2 in self.run(sub, [(p, k, g)]):
                    out.append((q, k2, {**g2, gid: (p, q)} if gid is not None else g2))
            return out
        if op is sc.BRANCH:
            out = []
            for b in av[1]:
                out += self.run(b, states)
            return out
        raise Unsupported(f"regular expression operator {op}")


def re_call(it, kind, pattern, s, flags=0):
    if not isinstance(s, (str, CharStr, SymStr)):
        if isinstance(s, (StrExpr, Opaque)):
            raise Unsupported(f"regular expression on {s}")
        raise PyRaise(TypeError, "expected string or bytes-like object")
    if not isinstance(pattern, str) or is_sym(flags):
        raise Unsupported("symbolic regular expression")
    flags = int(flags or 0)
    if isinstance(s, str):
        m = getattr(_re, kind)(pattern, s, flags)
        return None if m is None else match_obj(it, s, {0: m.span(), **{k + 1: m.span(k + 1) for k in range(len(m.groups()))}}, m.re.groups, m.re.groupindex)
    m = Matcher(pattern, flags, s)
    if kind == "search":
        if not (len(m.p) and m.p[0] in ((sc.AT, sc.AT_BEGINNING), (sc.AT, sc.AT_BEGINNING_STRING))):
            raise Unsupported("re.search")
    st = m.run(list(m.p), [(0, z3.BoolVal(True), {})])
    if kind == "fullmatch":
        st = [(p, z3.And(k, m.n == p), g) for p, k, g in st]
    c = z3.simplify(z3.Or(*[k for _, k, _ in st])) if st else z3.BoolVal(False)
    if not it.ctx.decide(c):
        return None
    live = [x for x in st if it.ctx.feasible(x[1])]
    if len(live) != 1:
        return Opaque("re.Match", None, {"truth": True})
    p, _, g = live[0]
    return match_obj(it, s, {**g, 0: (0, p)}, m.p.state.groups - 1, m.p.state.groupdict)


def match_obj(it, s, spans, ngroups, names):
    from .models import nat, getitem

    def group(it, *ks):
        def one(k):
            k = names[k] if isinstance(k, str) else k
            if k not in spans:
                if k > ngroups:
                    raise PyRaise(IndexError, "no such group")
                return None
            a, b = spans[k]
            return None if a < 0 else getitem(it, s, slice(a, b))

        return one(0) if not ks else one(ks[0]) if len(ks) == 1 else tuple(one(k) for k in ks)

    at = {"group": nat("Match.group", group), "groups": nat("Match.groups", lambda it: tuple(group(it, k + 1) for k in range(ngroups))),
          "span": nat("Match.span", lambda it, k=0: spans[k]), "end": nat("Match.end", lambda it, k=0: spans[k][1]),
          "start": nat("Match.start", lambda it, k=0: spans[k][0])}
    return Opaque("re.Match", None, {"truth": True, "attrs": at, "getitem": lambda it, k: group(it, k)})


def re_module():
    from .interp import ModelModule
    from .models import nat

    def compile_(it, pattern, flags=0):
        at = {k: nat("Pattern." + k, lambda it, s, k=k: re_call(it, k, pattern, s, flags)) for k in ("match", "fullmatch", "search")}
        return Opaque("re.Pattern", None, {"truth": True, "attrs": {**at, "pattern": pattern}})

    a = {k: nat("re." + k, lambda it, p, s, flags=0, k=k: p.data["attrs"][k].fn(it, [s], {}) if isinstance(p, Opaque) else re_call(it, k, p, s, flags))
         for k in ("match", "fullmatch", "search")}
    a["compile"] = nat("re.compile", compile_)
    a.update(IGNORECASE=int(_re.IGNORECASE), I=int(_re.I), ASCII=int(_re.A), A=int(_re.A))
    return ModelModule("re", a)
