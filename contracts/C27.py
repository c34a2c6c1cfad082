"""C27: norfair.utils.get_cutout."""
from pyvc.spec import *
from pyvc import ext

P = Prop("C27", assumptions=["image of any size with 3 channels or none; at least one point; integer part = truncation toward zero"])


def ext_of(ctx, s, n, c, op, name):
    """the smallest / largest coordinate, by its defining property"""
    v, k = ctx.freal(name), ctx.fint("at_" + name)
    ctx.assume(z3.And(k >= 0, k < n, to_real(s(k, z3.IntVal(c))) == v))
    q = z3.Const("#q", I)
    e = to_real(s(q, z3.IntVal(c)))
    ctx.forall([q], z3.Implies(z3.And(q >= 0, q < n), e >= v if op == "min" else e <= v))
    return v


def trunc(v):
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


@P.unit("get_cutout", covers=["norfair.utils.get_cutout"], extra=ext.all_models)
def cut(ctx, it):
    f = it.modattr(it.load("norfair.utils"), "get_cutout")
    n, H, W = ctx.fint("n", 1), ctx.fint("H", 1), ctx.fint("W", 1)
    p = real_arr(ctx, "p", (n, 2), "i" if ctx.choose(2) else "f")
    s = p.snap(ctx)
    ch = ctx.choose(2)
    img = real_arr(ctx, "img", (H, W, 3) if ch else (H, W), "u8")
    m0 = img.snap(ctx)
    box = []
    for c, size in ((1, H), (0, W)):
        for op in ("min", "max"):
            t = trunc(ext_of(ctx, s, n, c, op, f"{op}{'xy'[c]}"))
            t = z3.If(t < 0, z3.IntVal(0), t)
            box.append(z3.If(t > size, size, t))
    y0, y1, x0, x1 = box
    it.depth = 1
    st, r = call_raises(it, f, [p, img])
    ctx.oblige("cutting out never fails", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ctx.oblige("result is an array of the image's rank", z3.BoolVal(isinstance(r, NDArr) and r.ndim == img.ndim))
    h, w = lift(r.shape[0]), lift(r.shape[1])
    ctx.oblige("rows between the integer parts of the smallest and largest y, clipped", h == z3.If(y1 > y0, y1 - y0, 0))
    ctx.oblige("columns between the integer parts of the smallest and largest x, clipped", w == z3.If(x1 > x0, x1 - x0, 0))
    k = idx(ctx, h, w, *([3] if ch else []))
    ctx.oblige("pixels are those of the image block", at(ctx, r, *k) == m0(y0 + k[0], x0 + k[1], *k[2:]))
    k = idx(ctx, n, 2)
    ctx.oblige("points unchanged", at(ctx, p, *k) == s(*k))
    k = idx(ctx, H, W, *([3] if ch else []))
    ctx.oblige("image unchanged", at(ctx, img, *k) == m0(*k))
