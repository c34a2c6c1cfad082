"""C22: norfair.drawing.color: hex colors, parse_color, Palette."""
import json
import os

from pyvc.spec import *
from pyvc import ext
from pyvc.strings import SymStr, CharStr
from pyvc.models import HASH

P = Prop("C22", assumptions=["strings of any length over any code points; palettes have at least one color when a color is chosen",
                             "equal hashables have equal hashes (Python's contract for __hash__)"])
MOD = "norfair.drawing.color"
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(ext.__file__)), "colors.json")))
COVER = [MOD + "." + x for x in ("hex_to_bgr", "parse_color", "Palette.set", "Palette.set_default_color", "Palette.choose_color")]


def mod(it):
    return it.load(MOD)


def ishex(c):
    return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def digit(c):
    return z3.If(c <= 57, c - 48, z3.If(c <= 70, c - 55, c - 87))


def wellformed(s):
    """(is a 6-digit color, is a 3-digit color)"""
    n = lift(s.n)
    six = z3.And(n == 7, s.fn(0) == 35, *[ishex(s.fn(k)) for k in range(1, 7)])
    three = z3.And(n == 4, s.fn(0) == 35, *[ishex(s.fn(k)) for k in range(1, 4)])
    return six, three


def hexspec(ctx, s, st, r, what):
    six, three = wellformed(s)
    good = z3.Or(six, three)
    if st == "raise":
        ctx.oblige(f"{what}: only malformed strings are an error", z3.Not(good), r.cls.__name__)
        ctx.oblige(f"{what}: the error is a ValueError", z3.BoolVal(issubclass(r.cls, ValueError)), r.cls.__name__)
        return
    ctx.oblige(f"{what}: malformed strings are an error", good)
    ok = isinstance(r, tuple) and len(r) == 3
    ctx.oblige(f"{what}: a 3-tuple", z3.BoolVal(ok))
    if not ok:
        return
    for k, name in enumerate("BGR"):
        a, b = 5 - 2 * k, 6 - 2 * k
        ctx.oblige(f"{what}: {name} of a 6-digit color", z3.Implies(six, lift(r[k]) == digit(s.fn(a)) * 16 + digit(s.fn(b))))
        ctx.oblige(f"{what}: {name} of a 3-digit color, digit doubled", z3.Implies(three, lift(r[k]) == digit(s.fn(3 - k)) * 17))


@P.unit("hex_to_bgr", covers=[MOD + ".hex_to_bgr"], extra=ext.all_models)
def u_hex(ctx, it):
    f = it.modattr(mod(it), "hex_to_bgr")
    s = SymStr.fresh(ctx, "hex")
    st, r = call_raises(it, f, [s])
    hexspec(ctx, s, st, r, "hex_to_bgr")


@P.unit("parse_color of a string starting with #", covers=[MOD + ".parse_color", MOD + ".hex_to_bgr"], extra=ext.all_models)
def u_parse_hex(ctx, it):
    f = it.modattr(mod(it), "parse_color")
    s = SymStr.fresh(ctx, "c")
    ctx.assume(z3.And(s.n > 0, s.fn(0) == 35))
    st, r = call_raises(it, f, [s])
    hexspec(ctx, s, st, r, "parse_color")


def color_names(it):
    m = mod(it)
    C = it.modattr(m, "Color")
    return C, [k[2] for k in it.ctx.mem if k[0] == "cls" and k[1] == C.qual]


@P.unit("parse_color of every color name", covers=[MOD + ".parse_color"], extra=ext.all_models)
def u_names(ctx, it):
    C, names = color_names(it)
    f = it.modattr(mod(it), "parse_color")
    names = [n for n in names if not n.startswith("__")]
    ctx.oblige("there are named colors", z3.BoolVal(len(names) > 100), str(len(names)))
    bad = []
    for n in names:
        st, r = call_raises(it, f, [n])
        v = it.get_attr(C, n)
        if not (st == "ok" and isinstance(v, tuple) and len(v) == 3 and all(isinstance(x, int) and 0 <= x <= 255 for x in v)
                and isinstance(r, tuple) and r == v):
            bad.append(n)
    # the colors of PIL's, matplotlib's (tab20) and seaborn's (colorblind) tables
    wrong = [n for n, v in TABLE.items() if n not in names or it.get_attr(C, n) != tuple(v)]
    ctx.oblige("the predefined colors are the ones of PIL's, matplotlib's and seaborn's tables", z3.BoolVal(not wrong), ", ".join(wrong))
    ctx.oblige("each name gives the predefined color, a triple of bytes", z3.BoolVal(not bad), ", ".join(bad))


@P.unit("parse_color of any other string", covers=[MOD + ".parse_color"], extra=ext.all_models)
def u_unknown(ctx, it):
    C, names = color_names(it)
    f = it.modattr(mod(it), "parse_color")
    s = SymStr.fresh(ctx, "c")
    ctx.assume(z3.Not(z3.And(s.n > 0, s.fn(0) == 35)))
    for n in names + [k for k in C.methods if isinstance(k, str)]:
        ctx.assume(z3.Not(b_(it.equal(s, n))))
    st, r = call_raises(it, f, [s])
    ctx.oblige("a string that is neither hex nor a color name is an error", z3.BoolVal(st == "raise"))


@P.unit("parse_color of a tuple", covers=[MOD + ".parse_color"], extra=ext.all_models)
def u_tuple(ctx, it):
    f = it.modattr(mod(it), "parse_color")
    kind = ctx.choose(4)
    v = [ctx.fint(f"c{k}") if kind < 2 else ctx.freal(f"c{k}") for k in range(3)]
    src = tuple(v) if kind % 2 == 0 else ctx.new_list(v)
    st, r = call_raises(it, f, [src])
    ctx.oblige("a tuple is accepted", z3.BoolVal(st == "ok" and isinstance(r, tuple) and len(r) == 3), str(r))
    if st != "ok":
        return
    for k in range(3):
        e = v[k] if kind < 2 else z3.If(v[k] >= 0, z3.ToInt(v[k]), -z3.ToInt(-v[k]))
        ctx.oblige(f"component {k} is kept as an integer", z3.And(z3.BoolVal(lift(r[k]).is_int()), lift(r[k]) == e))


# -- Palette ----------------------------------------------------------------
def palette(ctx, it, name):
    """(the class, its current colors as a dense symbolic list)"""
    Pl = it.modattr(mod(it), "Palette")
    n = ctx.fint("n_" + name, 1)
    fs = [ctx.fresh_fn(f"{name}{k}", (I,), I) for k in range(3)]
    at_ = lambda i: tuple(f(lift(i)) for f in fs)
    cur = ctx.new_list(SeqVal([SymPart(Dom.dense(n), at_)]))
    it.set_attr(Pl, "_colors", cur)
    dflt = tuple(ctx.fint(f"d{k}") for k in range(3))
    it.set_attr(Pl, "_default_color", dflt)
    return Pl, cur, n, at_, dflt


def same(ctx, a, b):
    return z3.And(*[lift(x) == lift(y) for x, y in zip(a, b)]) if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3 else z3.BoolVal(False)


def colors_are(ctx, it, what, Pl, n, at_):
    c = it.get_attr(Pl, "_colors")
    ctx.oblige(f"{what}: number of colors", lift(it.seq_len(it.iter_seq(c))) == lift(n))
    if not is_sym(n):
        for k in range(n):
            ctx.oblige(f"{what}: color {k}", same(ctx, it.get_item(c, k), at_(k)))
        return
    i = ctx.fint("i", 0)
    ctx.assume(i < n)
    ctx.oblige(f"{what}: colors", same(ctx, it.get_item(c, i), at_(i)))


@P.unit("choose_color", covers=[MOD + ".Palette.choose_color"], extra=ext.all_models)
def u_choose(ctx, it):
    Pl, cur, n, at_, dflt = palette(ctx, it, "p")
    f = it.get_attr(Pl, "choose_color")
    mk = lambda nm: Opaque("hashable", ctx.fresh(nm, U), {"truth": ctx.fbool("truthy_" + nm)})
    a, b = mk("a"), mk("b")
    st, r = call_raises(it, f, [a])
    ctx.oblige("choosing never fails", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ctx.oblige("a color", z3.BoolVal(isinstance(r, tuple) and len(r) == 3))
    ctx.oblige("the color is a member of the palette", ctx.exists([Dom.dense(n)], lambda w: same(ctx, r, at_(w))))
    st2, r2 = call_raises(it, f, [b])
    ctx.oblige("choosing again never fails", z3.BoolVal(st2 == "ok"), str(r2))
    if st2 != "ok":
        return
    # b == a: equal values have equal hashes
    ctx.oblige("equal hashables get the same color", z3.Implies(HASH(a.term) == HASH(b.term), same(ctx, r, r2)))
    colors_are(ctx, it, "the palette is unchanged", Pl, n, at_)
    ctx.oblige("default color unchanged", same(ctx, it.get_attr(Pl, "_default_color"), dflt))


@P.unit("choose_color of an integer id or of nothing", covers=[MOD + ".Palette.choose_color"], extra=ext.all_models)
def u_choose_id(ctx, it):
    Pl, cur, n, at_, dflt = palette(ctx, it, "p")
    f = it.get_attr(Pl, "choose_color")
    k, none = ctx.fint("id"), ctx.fbool("no_id")
    st, r = call_raises(it, f, [Opt(none, k)])
    st2, r2 = call_raises(it, f, [None])
    ok = st == "ok" and st2 == "ok" and isinstance(r, tuple) and len(r) == 3
    ctx.oblige("choosing never fails", z3.BoolVal(ok), f"{r} {r2}")
    if not ok:
        return
    ctx.oblige("None gets the default color", same(ctx, r2, dflt))
    ctx.oblige("an object without id gets the default color", z3.Implies(none, same(ctx, r, dflt)))
    ctx.oblige("an id gets a member of the palette", z3.Or(none, ctx.exists([Dom.dense(n)], lambda w: same(ctx, r, at_(w)))))


COLOR = [z3.Function(f"PARSED{k}", U, I) for k in range(3)]
BADC = z3.Function("UNPARSABLE", U, z3.BoolSort())


def parse_contract(it, b):
    v = b["color_like"]
    if not (isinstance(v, Opaque) and v.kind == "colorlike"):
        return NotImplemented
    if it.ctx.decide(BADC(v.term)):
        raise PyRaise(ValueError, "not a color")
    return tuple(c(v.term) for c in COLOR)


@P.unit("Palette.set of a list of colors", covers=[MOD + ".Palette.set"], extra=ext.all_models,
        contracts={MOD + ".parse_color": parse_contract})
def u_set(ctx, it):
    Pl, cur, n, at_, dflt = palette(ctx, it, "p")
    m = ctx.fint("m", 0)
    el = ctx.fresh_fn("el", (I,), U)
    seq = SeqVal([SymPart(Dom.dense(m), lambda i: Opaque("colorlike", el(lift(i)), {"isinstance": lambda it, t: False}))])
    src = [lambda: ctx.new_list(seq), lambda: TupleLike(seq), lambda: GenVal(seq)][ctx.choose(3)]()
    st, r = call_raises(it, it.get_attr(Pl, "set"), [src])
    bad = ctx.exists([Dom.dense(m)], lambda w: BADC(el(w)))
    if st == "raise":
        ctx.oblige("setting fails only for a malformed color", bad)
        colors_are(ctx, it, "after a failure the palette is unchanged", Pl, n, at_)
        return
    ctx.oblige("a malformed color is an error", z3.Not(bad))
    colors_are(ctx, it, "exactly the given colors are installed", Pl, m, lambda i: tuple(c(el(lift(i))) for c in COLOR))
    ctx.oblige("default color unchanged", same(ctx, it.get_attr(Pl, "_default_color"), dflt))
    if isinstance(src, ListObj):
        now = it.get_attr(Pl, "_colors")
        ctx.oblige("the palette does not share the caller's list", z3.BoolVal(not (isinstance(now, ListObj) and now == src)))


@P.unit("Palette.set of a name", covers=[MOD + ".Palette.set"], extra=ext.all_models)
def u_set_name(ctx, it):
    m = mod(it)
    pals = it.modattr(m, "PALETTES")
    d = ctx.mem[("dict", pals.did)][0]
    want = ["tab10", "tab20", "colorblind"]
    ctx.oblige("the documented palettes exist", z3.BoolVal(sorted(d) == sorted(want)), str(list(d)))
    Pl, cur, n, at_, dflt = palette(ctx, it, "p")
    s = SymStr.fresh(ctx, "name")
    st, r = call_raises(it, it.get_attr(Pl, "set"), [s])
    known = z3.Or(*[b_(it.equal(s, k)) for k in want])
    if st == "raise":
        ctx.oblige("only an unknown name is an error", z3.Not(known), r.cls.__name__)
        ctx.oblige("the error is a ValueError", z3.BoolVal(issubclass(r.cls, ValueError)), r.cls.__name__)
        colors_are(ctx, it, "an unknown name leaves the palette unchanged", Pl, n, at_)
        return
    ctx.oblige("an unknown name is an error", known)
    for k in want:
        c = [tuple(x) for x in it.iter_seq(d[k]).concrete()]
        got = it.iter_seq(it.get_attr(Pl, "_colors")).concrete()
        ok = got is not None and [tuple(x) for x in got] == c
        ctx.oblige(f"{k} installs its colors", z3.Implies(b_(it.equal(s, k)), z3.BoolVal(ok)))
    for k, ln, pre in (("tab10", 10, None), ("tab20", 20, "tab"), ("colorblind", 10, "cb")):
        ctx.oblige(f"{k} has {ln} colors, triples of bytes", z3.BoolVal(len(it.iter_seq(d[k]).concrete()) == ln and all(
            isinstance(x, tuple) and len(x) == 3 and all(isinstance(y, int) and 0 <= y <= 255 for y in x) for x in it.iter_seq(d[k]).concrete())))


@P.unit("set_default_color", covers=[MOD + ".Palette.set_default_color"], extra=ext.all_models, contracts={MOD + ".parse_color": parse_contract})
def u_default(ctx, it):
    Pl, cur, n, at_, dflt = palette(ctx, it, "p")
    t = ctx.fresh("c", U)
    st, r = call_raises(it, it.get_attr(Pl, "set_default_color"), [Opaque("colorlike", t, {"isinstance": lambda it, t: False})])
    if st == "raise":
        ctx.oblige("fails only for a malformed color", BADC(t))
        ctx.oblige("a failure leaves the default color unchanged", same(ctx, it.get_attr(Pl, "_default_color"), dflt))
    else:
        ctx.oblige("a malformed color is an error", z3.Not(BADC(t)))
        ctx.oblige("the default color is the parsed one", same(ctx, it.get_attr(Pl, "_default_color"), tuple(c(t) for c in COLOR)))
    colors_are(ctx, it, "the palette is unchanged", Pl, n, at_)
