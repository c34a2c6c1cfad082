"""C18: norfair.drawing.fixed_camera.FixedCamera."""
from pyvc.spec import *
from pyvc import ext


class State:
    pass


P = Prop("C18", assumptions=["frames are uint8 images of any size and number of channels >= 1", "scale > 0, 0 <= attenuation <= 1",
                             "rounding is to a nearest integer (ties as numpy does)"])
MOD = "norfair.drawing.fixed_camera"


def setup(ctx, it):
    s = State()
    C = it.modattr(it.load(MOD), "FixedCamera")
    s.scale, s.att = ctx.freal("scale"), ctx.freal("attenuation")
    ctx.assume(z3.And(s.scale > 0, s.att >= 0, s.att <= 1))
    s.o = it.call(C, [], dict(scale=s.scale, attenuation=s.att))
    s.H, s.W, s.C = ctx.fint("H", 1), ctx.fint("W", 1), ctx.fint("C", 1)
    s.frame = real_arr(ctx, "frame", (s.H, s.W, s.C), "u8")
    s.f0 = s.frame.snap(ctx)
    s.mv = real_arr(ctx, "mv", (2,))
    T = it.modattr(it.load("norfair.camera_motion"), "TranslationTransformation")
    s.t = it.call(T, [s.mv], {})
    return s


def pixels(ctx, s, r, ch, cw, old, what):
    """every pixel of the canvas r of ch x cw"""
    if not shape_is(ctx, what + "canvas", r, ch, cw, s.C):
        return
    y, x, c = idx(ctx, ch, cw, s.C)
    m = s.mv.snap(ctx)
    ty = to_int_(to_real(fdiv2(ch) - fdiv2(s.H)) - m(z3.IntVal(1)))
    tx = to_int_(to_real(fdiv2(cw) - fdiv2(s.W)) - m(z3.IntVal(0)))
    inside = z3.And(y - ty >= 0, y - ty < s.H, x - tx >= 0, x - tx < s.W)
    v = at(ctx, r, y, x, c)
    ctx.oblige(what + "the frame appears unscaled at its place", z3.Implies(inside, v == s.f0(y - ty, x - tx, c)))
    ctx.oblige(what + "every other pixel is the attenuated previous canvas", z3.Implies(z3.Not(inside), v == old(y, x, c)))
    k = idx(ctx, s.H, s.W, s.C)
    ctx.oblige(what + "the frame is not modified", at(ctx, s.frame, *k) == s.f0(*k))
    ctx.oblige(what + "the canvas is not the frame", z3.BoolVal(r.sid != s.frame.sid))


def fdiv2(n):
    return n / 2


@P.unit("FixedCamera.adjust_frame: first frame", covers=[MOD + ".FixedCamera.__init__", MOD + ".FixedCamera.adjust_frame"], extra=ext.all_models)
def first(ctx, it):
    s = setup(ctx, it)
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "adjust_frame"), [s.frame, s.t])
    ctx.oblige("rendering never fails", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ch, cw = to_int_(to_real(s.H) * s.scale), to_int_(to_real(s.W) * s.scale)
    pixels(ctx, s, r, ch, cw, lambda y, x, c: z3.IntVal(0), "first frame: ")


@P.unit("FixedCamera.adjust_frame: later frames", covers=[MOD + ".FixedCamera.adjust_frame"], extra=ext.all_models)
def later(ctx, it):
    s = setup(ctx, it)
    ch, cw = ctx.fint("CH", 0), ctx.fint("CW", 0)
    bg = real_arr(ctx, "canvas", (ch, cw, s.C), "u8")
    b0 = bg.snap(ctx)
    ctx.setattr(s.o, "_background", bg)
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "adjust_frame"), [s.frame, s.t])
    ctx.oblige("rendering never fails", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    old = lambda y, x, c: N.trunc(to_real(b0(y, x, c)) * (1 - s.att))
    # lemma: attenuated pixels are pixels
    x, f = ctx.freal("pixel"), ctx.freal("factor")
    ctx.oblige("lemma: an attenuated pixel is a pixel", z3.Implies(z3.And(x >= 0, x <= 255, f >= 0, f <= 1), z3.And(x * f >= 0, x * f <= 255)))
    yv, xv, cv = z3.Ints("#y #x #cc")
    p = to_real(b0(yv, xv, cv)) * (1 - s.att)
    ctx.axiom(z3.ForAll([yv, xv, cv], z3.And(p >= 0, p <= 255), patterns=[b0(yv, xv, cv)]))
    k = idx(ctx, ch, cw, s.C)
    pixels(ctx, s, r, ch, cw, old, "later: ")
    ctx.oblige("canvases returned earlier are not modified", at(ctx, bg, *k) == b0(*k))
    now = ga(it, s.o, "_background")
    if shape_is(ctx, "kept canvas", now, ch, cw, s.C) and shape_is(ctx, "canvas", r, ch, cw, s.C):
        ctx.oblige("the canvas is kept for the next frame", at(ctx, now, *k) == at(ctx, r, *k))


def to_int_(x):
    """the nearest integer"""
    return N.RND(x)
