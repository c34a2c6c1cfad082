"""C23: drawing of points, boxes and texts.
norfair.drawing.{draw_points.draw_points, draw_boxes.draw_boxes,
utils._build_text, drawer.Drawable, drawer.Drawer}."""
from contracts.tracked import *
from pyvc import models as M
from pyvc.interp import BreakSig, ReturnSig, GenVal
from pyvc.loops import changed_keys, same_val
from pyvc.strings import SymStr

D = "norfair.drawing."
TXT = D + "utils._build_text"
DP, DB = D + "draw_points.draw_points", D + "draw_boxes.draw_boxes"
P = Prop("C23", trusted=["cv2.circle, cv2.rectangle, cv2.putText draw on the image they are given and return it; the pixels they set are not verified",
                         "str() of an id or a label is a non-empty text"],
         assumptions=["objects to draw have two-dimensional points (two of them for boxes), Drawables say which of their points are alive",
                      "the iterations of the loop over the objects are verified for a generic object from the state the loop starts in; what they leave behind is checked to be nothing"])
COLOR = ("glob", "#color", 0)


class Elem:
    """one object to draw: what the property says about it in terms of
    points(i, c), live(i), label, id, scores"""


def scores_of(ctx, it, n, how):
    if how == 0:
        return None, None
    if how == 1:
        a = real_arr(ctx, "scores", (n,))
        m = it.call(it.modattr(it.models["numpy"], "mean"), [a], {})
        return a, to_real(lift(N.item(it, m) if isinstance(m, NDArr) else m))
    v = ctx.freal("score")
    return v, v


def label_of(ctx):
    if ctx.choose(2):
        return None
    return Opaque("label", ctx.fresh("label", U), {"strtruth": z3.BoolVal(True)})


def element(ctx, it, kind, n, texts):
    e = Elem()
    e.kind = kind
    e.n = n
    how = ctx.choose(3) if texts and kind != "tracked" else 0
    label = label_of(ctx) if texts else Opaque("label", ctx.fresh("label", U), {"strtruth": z3.BoolVal(True)})
    e.label, e.id = label, None
    if kind == "detection":
        s = detection(ctx, it, 2, n, scores=0)
        sc, e.mean = scores_of(ctx, it, n, how)
        ctx.setattr(s.obj, "scores", sc)
        ctx.setattr(s.obj, "label", label)
        e.obj, e.points, e.live = s.obj, s.psnap, lambda i: z3.BoolVal(True)
    elif kind == "tracked":
        s = arbitrary(ctx, it, 2, n=n)
        ctx.setattr(s.o, "label", label)
        e.obj, e.mean = s.o, None
        f, g = ctx.fresh_fn("estimate", [I, I], R), ctx.fresh_fn("estimate_abs", [I, I], R)
        ctx.mem[("glob", "#estimate", s.o.oid)] = (f, g)
        e.points = f
        e.live = lambda i: s.phc0(i) > 0
        e.id = ga(it, s.o, "id")
    else:
        pts, live = real_arr(ctx, "points", (n, 2), "i" if ctx.choose(2) else "f"), boolarr(ctx, "live", n)
        sc, e.mean = scores_of(ctx, it, n, how)
        e.id = ctx.fint("id") if not texts or ctx.choose(2) else None
        e.obj = it.call(it.modattr(it.load(D + "drawer"), "Drawable"), [], dict(points=pts, id=e.id, label=label, scores=sc, live_points=live))
        e.points, e.live = pts.snap(ctx), live.snap(ctx)
    return e


def unmodified(ctx, it, mem1, ids):
    """what existed of the object when its iteration began is as it was"""
    name = "the drawn objects are not modified"
    for k, v in mem1.items():
        if k[0] not in ("attr", "arr", "list", "field") or not (k[0] == "field" or k[1] in ids):
            continue
        w = ctx.mem.get(k)
        if w is v or same_val(v, w):
            continue
        if k[0] == "arr":
            ix = [ctx.fresh("k", s) for s in v.sorts]
            ctx.oblige(name, lift(v(*ix)) == lift(w(*ix)), "an array")
        elif k[0] == "attr":
            try:
                same = it.equal(v, w)
                if isinstance(v, NDArr):
                    raise Unsupported("arrays")
            except Unsupported:
                same = False
            ctx.oblige(name, b_(same) if w is not None or v is None else z3.BoolVal(False), k[2])
        else:
            ctx.oblige(name, z3.BoolVal(False), str(k[2] if k[0] == "field" else "a list"))


I0, I1 = z3.IntVal(0), z3.IntVal(1)


# -- contracts of callees ---------------------------------------------------
def c_estimate(it, bound):
    """TrackedObject.get_estimate: an array of the object's points (C03, C14)"""
    ctx = it.ctx
    o = bound["self"]
    fs = ctx.mem.get(("glob", "#estimate", getattr(o, "oid", None)))
    if fs is None:
        return NotImplemented
    n = ga(it, o, "num_points")
    absolute = bound.get("absolute", False)
    if not isinstance(absolute, bool):
        return NotImplemented
    return ctx.new_arr((n, 2), "f", fs[1] if absolute else fs[0])


BYID = [z3.Function(f"color_of_id{k}", I, I) for k in range(3)]
BYLABEL = [z3.Function(f"color_of_label{k}", U, I) for k in range(3)]
BYNUMBER = [z3.Function(f"color_of_number{k}", R, I) for k in range(3)]
NOCOLOR = z3.Ints("default_color0 default_color1 default_color2")


def palette_color(v):
    """the palette's color for a hashable (C22: the same for equal values, the default for none)"""
    if v is None:
        return tuple(NOCOLOR)
    if isinstance(v, Opt):
        return tuple(z3.If(b_(v.none), d, x) for d, x in zip(NOCOLOR, palette_color(v.val)))
    if isinstance(v, Opaque) and v.term is not None and v.term.sort() == U:
        return tuple(f(v.term) for f in BYLABEL)
    if is_num(v) and not isinstance(v, bool):
        v = lift(v)
        return tuple(f(v) for f in (BYID if v.is_int() else BYNUMBER))
    raise Unsupported(f"color of {v!r}")


def given_color(c):
    """the color parse_color makes of a name or a tuple (C22)"""
    if isinstance(c, str):
        return tuple(z3.Int(f"color_{c}{k}") for k in range(3))
    if isinstance(c, tuple) and len(c) == 3 and all(is_num(x) and lift(x).is_int() for x in c):
        return tuple(lift(x) for x in c)
    raise Unsupported(f"parsing the color {c!r}")


def c_choose(it, bound):
    return palette_color(bound["hashable"])


def c_parse(it, bound):
    return given_color(bound["color_like"])


def color_is(ctx, name, hyp, got, want):
    """want: a color, or "random" for any color the palette chose for a number"""
    if want == "random":
        ok = all(isinstance(x, z3.ExprRef) and x.decl().eq(f) for x, f in zip(got, BYNUMBER)) and len({x.arg(0).get_id() for x in got}) == 1
        ctx.oblige(name, z3.Implies(hyp, z3.BoolVal(ok)), str(got))
    else:
        ctx.oblige(name, z3.Implies(hyp, conj(*[lift(x) == lift(y) for x, y in zip(got, want)])), str(got))


def color_for(e, kw):
    """the color of an object under these options"""
    c = kw.get("color")
    if c is None or c == "by_id":
        return palette_color(e.id)
    if c == "by_label":
        return palette_color(e.label)
    return "random" if c == "random" else given_color(c)


def text_color_for(e, kw):
    return given_color(kw["text_color"]) if kw.get("text_color") is not None else color_for(e, kw)


def c_warn(it, bound):
    return None


def c_text(it, bound):
    """_build_text: the text of a drawable with the requested parts"""
    ctx = it.ctx
    d = bound["drawable"]
    want = [it.truth_sym(bound[k]) for k in ("draw_labels", "draw_ids", "draw_scores")]
    t = SymStr.fresh(ctx, "text")
    rec = (t, want, it.get_attr(d, "label"), it.get_attr(d, "id"), it.get_attr(d, "scores"))
    ctx.mem[("glob", "#texts", 0)] = ctx.mem.get(("glob", "#texts", 0), ()) + (rec,)
    parts = []
    for w, v in zip(want, rec[2:]):
        here = neg(b_(v.none)) if isinstance(v, Opt) else z3.BoolVal(v is not None)
        parts.append(conj(b_(w), here))
    ctx.assume((lift(t.n) > 0) == disj(*parts))
    return t


CON = {TR + ".TrackedObject.get_estimate": c_estimate, D + "color.Palette.choose_color": c_choose, D + "color.parse_color": c_parse,
       "norfair.utils.warn_once": c_warn, TXT: c_text}


# -- the drawing functions of OpenCV ----------------------------------------
MAXT = 32767


class CvError(Exception):
    pass


def bind(names, a, k, need):
    args = dict(zip(names, a))
    for n, v in k.items():
        if n not in names or n in args:
            raise PyRaise(TypeError, f"argument {n}")
        args[n] = v
    for n in names[:need]:
        if n not in args:
            raise PyRaise(TypeError, f"missing argument {n}")
    return args


def point(it, v):
    c = it.iter_seq(v).concrete() if isinstance(v, (tuple, ListObj, TupleLike)) else None
    if isinstance(v, NDArr):
        c = [it.get_item(v, k) for k in range(2)] if v.ndim == 1 and v.shape[0] == 2 else None
    if c is None or len(c) != 2:
        raise PyRaise(CvError, "Can't parse a point")
    out = []
    for x in c:
        x = it.noopt(x)
        if isinstance(x, NDArr) and x.ndim == 0:
            x = N.item(it, x)
        if isinstance(x, bool) or not (isinstance(x, int) or isinstance(x, z3.ArithRef) and x.is_int()):
            raise PyRaise(CvError, "Can't parse a point: no integer")
        out.append(lift(x))
    return tuple(out)


def thickness(it, t):
    if t is None:
        raise PyRaise(CvError, "thickness None")
    t = lift(it.noopt(t))
    if not (isinstance(t, z3.ArithRef) and t.is_int()):
        raise PyRaise(CvError, "thickness must be an integer")
    if it.ctx.decide(t > MAXT):
        raise PyRaise(CvError, "thickness out of range")
    return t


def image(v):
    """the image drawn on: events name the whole array it is"""
    if not isinstance(v, NDArr):
        raise PyRaise(CvError, "no image")
    if v.fwd is not None or v.frozen is not None:
        raise Unsupported("drawing on a part of an image")
    return v.sid


def ink(it, c):
    """the color of a drawing"""
    v = it.iter_seq(c).concrete() if isinstance(c, (tuple, ListObj, TupleLike)) else None
    if c is None or v is not None and not all(is_num(x) for x in v):
        raise PyRaise(CvError, "color is not numeric")
    if v is None or len(v) != 3:
        raise Unsupported("color of a drawing")
    return tuple(lift(x) for x in v)


def circle(it, a, k):
    g = bind(["img", "center", "radius", "color", "thickness", "lineType", "shift"], a, k, 4)
    r = lift(it.noopt(g["radius"]))
    if not (isinstance(r, z3.ArithRef) and r.is_int()):
        raise PyRaise(CvError, "radius must be an integer")
    if it.ctx.decide(r < 0):
        raise PyRaise(CvError, "radius >= 0")
    thickness(it, g.get("thickness", 1))
    it.event(("circle", image(g["img"]), point(it, g["center"]), ink(it, g["color"])))
    return g["img"]


def rectangle(it, a, k):
    g = bind(["img", "pt1", "pt2", "color", "thickness", "lineType", "shift"], a, k, 4)
    thickness(it, g.get("thickness", 1))
    it.event(("rectangle", image(g["img"]), point(it, g["pt1"]), point(it, g["pt2"]), ink(it, g["color"])))
    return g["img"]


def put_text(it, a, k):
    g = bind(["img", "text", "org", "fontFace", "fontScale", "color", "thickness", "lineType", "bottomLeftOrigin"], a, k, 6)
    if not isinstance(g["text"], (str, StrExpr, SymStr)):
        raise PyRaise(CvError, "text must be a string")
    thickness(it, g.get("thickness", 1))
    point(it, g["org"])
    it.event(("text", image(g["img"]), g["text"], ink(it, g["color"])))
    return g["img"]


def models():
    m = ext.all_models()
    a = m["cv2"].attrs
    for n, f in (("circle", circle), ("rectangle", rectangle), ("putText", put_text)):
        a[n] = Native("cv2." + n, f)
    return m


# -- the loop over the objects -----------------------------------------------
class Run:
    pre = None
    cont = done = False

    def __init__(self, ctx, it, kind, n, texts, check, havoc=None):
        self.havoc = havoc
        self.ctx, self.it, self.kind, self.n, self.texts, self.check = ctx, it, kind, n, texts, check
        self.inside, self.elem, self.looped = False, None, False
        self.count = ctx.fint("objects", 0)
        self.dom = Dom.dense(self.count)
        self.list = ctx.new_list(SeqVal([SymPart(self.dom, self.make)]))
        it.for_rules = [self.rule]

    def make(self, i):
        if not self.inside:
            raise Unsupported("an object to draw outside the loop that draws")
        self.lo = self.ctx.idc
        self.elem = element(self.ctx, self.it, self.kind, self.n, self.texts)
        if self.pre:
            self.pre(self.ctx, self.elem)
        self.mem1, self.hi = dict(self.ctx.mem), self.ctx.idc
        return self.elem.obj

    def rule(self, it, part, body, node):
        ctx = it.ctx
        if self.inside or part.dom is not self.dom:
            return False
        if self.looped:
            raise Unsupported("a second loop over the objects")
        self.looped = True
        carried = self.havoc(node) if self.havoc else lambda k: False
        if ctx.choose(2):
            # after the loop: an iteration leaves nothing but drawings behind
            return True
        g = ctx.instantiate(self.dom)
        ctx.assume_in(self.dom, g)
        tr = ctx.mem.pop(("trace",), None)
        if tr is not None:
            raise Unsupported("drawings before the loop")
        mem0 = dict(ctx.mem)
        self.inside = True
        try:
            body(part.val(g))
        except (BreakSig, ReturnSig):
            ctx.oblige("every object is drawn", z3.BoolVal(False), "the loop over the objects ends early")
            raise Infeasible()
        except PyRaise as e:
            if isinstance(e.cls, type) and issubclass(e.cls, NameError):
                raise Unsupported("a variable of an earlier iteration")
            ctx.oblige("drawing raises no error", z3.BoolVal(False), str(e))
            raise Infeasible()
        finally:
            self.inside = False
        evs = list(ctx.mem.get(("trace",), SeqVal()).parts)
        left = [k for k in changed_keys(self.mem1, ctx.mem, self.hi) if k[0] not in ("trace", "glob", "names")]
        left = [k for k in left if not (k[0] == "loc" and (k not in mem0 or carried(k))) and not (k[0] != "loc" and isinstance(k[1], int) and k[1] > self.lo)]
        if left:
            raise Unsupported(f"an iteration leaves behind {left[0]}")
        unmodified(ctx, it, self.mem1, range(self.lo + 1, self.hi + 1))
        self.check(self.elem, evs)
        if self.cont:
            # what follows the loop when this was the last iteration
            self.done = True
            return True
        raise Infeasible()


def flat(evs):
    """[(domain or None, conditions, event)] of a trace"""
    out = []

    def go(parts, path):
        for p in parts:
            if isinstance(p, Items):
                for x in p.items:
                    out.append((path, x))
            elif isinstance(p, SymPart):
                if path:
                    raise Unsupported("drawings in nested loops")
                out.append((p, None))
            else:
                raise Unsupported("drawings of a loop under construction")

    go(evs, None)
    return out


def check_circles(ctx, it, e, evs, frame, want, hidden, color=None):
    """want(i): a circle is requested at point i"""
    i, = idx(ctx, e.n)
    hits = []
    for part, ev in flat(evs):
        if ev is not None:
            if ev[0] == "circle":
                ctx.oblige("circles are drawn at the requested points only", z3.BoolVal(False), "a circle outside the loop over the points")
            continue
        v = part.val(i)
        if not (part.dom.sort == I and isinstance(v, tuple) and v[0] == "foreach"):
            raise Unsupported("drawings of a loop that is not over the points")
        cs = [x for x in v[1] if x[0] == "circle"]
        if any(x[0] not in ("circle",) for x in v[1]):
            raise Unsupported("other drawings in the loop over the points")
        for x in cs:
            ctx.oblige("circles are drawn on the frame", z3.Implies(part.dom.cond(i), z3.BoolVal(x[1] == frame.sid)))
            hits.append((part.dom.cond(i), x[2]))
            if color is not None:
                color_is(ctx, "points have the object's color", part.dom.cond(i), x[3], color)
    # number of circles drawn for point i
    num = z3.Sum([z3.If(c, 1, 0) for c, _ in hits]) if hits else I0
    # a loop over anything but the points draws outside their range
    j = ctx.fint("j")
    for part, ev in flat(evs):
        if ev is None:
            ctx.oblige("circles are drawn at the requested points only", z3.Implies(part.dom.cond(j), z3.And(j >= 0, j < e.n)))
    ctx.oblige("one circle at each live point of a drawn object, none at the others", num == z3.If(want(i), 1, 0))
    for c, (x, y) in hits:
        ctx.oblige("circles are centred on the points", z3.Implies(c, z3.And(x == N.trunc(e.points(i, I0)), y == N.trunc(e.points(i, I1)))))


def check_text(ctx, it, e, evs, frame, want, shown, what="text", color=None):
    """want: (labels, ids, scores) requested; shown: condition of drawing it"""
    texts = [x for _, x in flat(evs) if x is not None and x[0] == "text"]
    recs = ctx.mem.get(("glob", "#texts", 0), ())
    label, id_ = e.label, e.id
    here = [z3.BoolVal(label is not None), neg(b_(id_.none)) if isinstance(id_, Opt) else z3.BoolVal(id_ is not None), z3.BoolVal(e.mean is not None)]
    any_ = disj(*[conj(b_(w), h) for w, h in zip(want, here)])
    some = []
    if texts and color is not None:
        # a shadow in another color may be drawn before
        x = texts[-1]
        if not (isinstance(x[2], str) and not x[2]):
            color_is(ctx, "texts have the text color, by default the object's", lift(x[2].n) > 0 if isinstance(x[2], SymStr) else z3.BoolVal(True), x[3], color)
    for x in texts:
        ctx.oblige("texts are drawn on the frame", z3.BoolVal(x[1] == frame.sid))
        t = x[2]
        r = [q for q in recs if q[0] is t]
        if isinstance(t, str) and not t:
            continue
        if r:
            _, got, l, d, s = r[0]
            some.append(lift(t.n) > 0)
            for w, g, h, nm in zip(want, got, here, ("label", "id", "score")):
                ctx.oblige(f"the text has the {nm} exactly if requested and present", z3.Implies(h, b_(w) == b_(g)))
            ctx.oblige("the text is about the object", z3.BoolVal(l is label or l == label), "label")
            ctx.oblige("the text is about the object", eqv(it, d, id_), "id")
            ctx.oblige("the text is about the object", z3.BoolVal((s is None) == (e.mean is None)) if not isinstance(s, Opt) else (b_(s.none) == z3.BoolVal(e.mean is None)), "scores")
        else:
            some.append(z3.BoolVal(True))
            text_is(ctx, it, t, label, id_, e.mean, want, "the text")
    yes = disj(*some) if some else z3.BoolVal(False)
    ctx.oblige("the requested text is drawn, and only for drawn objects", yes == conj(b_(shown), any_))


def text_is(ctx, it, t, label, id_, mean, want, what):
    """the text's pieces (the presence of each is decided on this path)"""
    exp = []
    if label is not None and ctx.decide(b_(want[0])):
        exp.append(("label", label))
    if ctx.decide(b_(want[1])):
        if isinstance(id_, Opt):
            if not ctx.decide(b_(id_.none)):
                exp.append(("id", id_.val))
        elif id_ is not None:
            exp.append(("id", id_))
    if mean is not None and ctx.decide(b_(want[2])):
        exp.append(("score", mean))
    parts = list(t.parts) if isinstance(t, StrExpr) else ([t] if t else []) if isinstance(t, str) else None
    if parts is None:
        raise Unsupported("the text drawn")
    ok = len(parts) == max(0, 2 * len(exp) - 1)
    ctx.oblige(f"{what} has the requested parts that are present, joined by dashes", z3.BoolVal(ok), f"{parts} for {exp}")
    if not ok:
        return
    for k, p in enumerate(parts):
        if k % 2:
            ctx.oblige(f"{what} has the requested parts that are present, joined by dashes", z3.BoolVal(p == "-"), str(p))
            continue
        nm, v = exp[k // 2]
        good = isinstance(p, Tok) and not p.fmt
        ctx.oblige(f"{what} has label, id and score in this order", z3.BoolVal(good), str(p))
        if not good:
            continue
        w = p.val.val if isinstance(p.val, Opt) else p.val
        if nm == "label":
            ctx.oblige(f"{what} has the label", z3.BoolVal(w is v or (isinstance(w, Opaque) and w.term is not None and w.term.eq(v.term))))
        elif nm == "id":
            ctx.oblige(f"{what} has the id", lift(w) == lift(v) if is_num(w) else z3.BoolVal(False))
        else:
            if isinstance(w, NDArr) and w.ndim == 0:
                w = N.item(it, w)
            ok = is_num(w)
            ctx.oblige(f"{what} has the mean score", z3.BoolVal(ok))
            if ok:
                x = to_real(lift(w))
                ctx.oblige(f"{what} has the mean score, rounded to four digits", z3.And(x - v <= z3.RealVal("0.00005"), v - x <= z3.RealVal("0.00005")))


# --------------------------------------------------------------------------
@P.unit("_build_text", covers=[TXT], extra=models)
def build_text(ctx, it):
    f = it.modattr(it.load(D + "utils"), "_build_text")
    n = ctx.fint("n", 1)
    C = it.modattr(it.load(D + "drawer"), "Drawable")
    label = label_of(ctx)
    id_ = Opt(ctx.fbool("no_id"), ctx.fint("id"))
    sc, mean = scores_of(ctx, it, n, ctx.choose(3))
    snap = sc.snap(ctx) if isinstance(sc, NDArr) else None
    d = it.call(C, [], dict(points=real_arr(ctx, "points", (n, 2)), id=id_, label=label, scores=sc, live_points=boolarr(ctx, "live", n)))
    want = [ctx.fbool("draw_labels"), ctx.fbool("draw_ids"), ctx.fbool("draw_scores")]
    it.depth = 1
    st, t = call_raises(it, f, [], dict(drawable=d, draw_labels=want[0], draw_ids=want[1], draw_scores=want[2]))
    ctx.oblige("a text can be built", z3.BoolVal(st == "ok"), str(t))
    if st != "ok":
        return
    text_is(ctx, it, t, label, id_, mean, want, "the text")
    if snap is not None:
        i, = idx(ctx, n)
        ctx.oblige("the scores are not modified", at(ctx, sc, i) == snap(i))


@P.unit("Drawable.__init__", covers=[D + "drawer.Drawable.__init__"], extra=models, contracts={TR + ".TrackedObject.get_estimate": c_estimate})
def drawable(ctx, it):
    C = it.modattr(it.load(D + "drawer"), "Drawable")
    n = ctx.fint("n", 1)
    kind = ctx.choose(4)
    it.depth = 1
    if kind == 3:
        bad = [ctx.fint("x"), "text", real_arr(ctx, "points", (n, 2)), ctx.new_obj("Other"), ctx.new_list(SeqVal()), 0][ctx.choose(6)]
        st, r = call_raises(it, C, [bad])
        ctx.oblige("only detections and tracked objects can be drawn", z3.BoolVal(st == "raise"))
        if st == "raise":
            ctx.oblige("other objects are a ValueError", z3.BoolVal(isinstance(r.cls, type) and issubclass(r.cls, ValueError)), str(r))
        return
    lo = ctx.idc
    e = element(ctx, it, ["detection", "tracked", "own"][kind], n, True)
    mem1, hi = dict(ctx.mem), ctx.idc
    if kind == 2:
        d = e.obj
    else:
        st, d = call_raises(it, C, [e.obj])
        ctx.oblige("detections and tracked objects can be drawn", z3.BoolVal(st == "ok"), str(d))
        if st != "ok":
            return
    pts, live = ga(it, d, "points"), ga(it, d, "live_points")
    i, c = idx(ctx, n, 2)
    if shape_is(ctx, "points", pts, n, 2):
        ctx.oblige("the points of the object", at(ctx, pts, i, c) == e.points(i, c))
    if shape_is(ctx, "live points", live, n):
        ctx.oblige("all points of a detection are alive, those of a tracked object as it says", b_(live.snap(ctx)(i)) == b_(e.live(i)))
    ctx.oblige("the label of the object", z3.BoolVal(ga(it, d, "label") is e.label))
    ctx.oblige("the id of the object, detections have none", eqv(it, ga(it, d, "id"), e.id))
    s = ga(it, d, "scores")
    ctx.oblige("the scores of a detection, tracked objects have none", z3.BoolVal((s is None) == (e.mean is None)))
    if s is not None and e.mean is not None:
        m = it.call(it.modattr(it.models["numpy"], "mean"), [s], {})
        ctx.oblige("the scores of the object", eq_real(m if not isinstance(m, NDArr) else N.item(it, m), e.mean))
    unmodified(ctx, it, mem1, range(lo + 1, hi + 1))


KINDS = ["detection", "tracked", "own"]


def frame_of(ctx):
    h, w = ctx.fint("height", 1), ctx.fint("width", 1)
    ctx.assume(z3.And(h <= 10 ** 6, w <= 10 ** 6))
    return ctx.new_arr((h, w, 3), "u8", ctx.fresh_fn("frame", [I, I, I], I))


def color_kw(ctx, kw):
    c = ctx.choose(7)
    if c:
        kw["color"] = [None, "by_label", "random", "red", None, "by_id", (ctx.fint("blue"), ctx.fint("green"), ctx.fint("red"))][c]
    t = ctx.choose(2)
    if t:
        kw["text_color"] = "blue"


def result(ctx, it, run, st, r, frame):
    ctx.oblige("drawing raises no error", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ctx.oblige("the frame is returned", z3.BoolVal(r is frame))
    ctx.oblige("all objects are drawn", z3.BoolVal(run.looped))
    if ctx.mem.get(("trace",)) is not None and ctx.mem[("trace",)].parts:
        raise Unsupported("drawings after the loop over the objects")


def u_points(kind, texts):
    name = {"detection": "detections", "tracked": "tracked objects", "own": "drawables"}[kind] + (", with texts" if texts else "")

    @P.unit("draw_points of " + name, covers=[DP, D + "drawer.Drawer.circle", D + "drawer.Drawer.text", D + "drawer.Drawable.__init__"], extra=models, contracts=CON)
    def points(ctx, it):
        frame = frame_of(ctx)
        kw = {}
        n = ctx.fint("n", 1)
        hide, pts = True, True
        want = [True, True, False]
        if texts:
            for k in range(3):
                want[k] = ctx.fbool("want")
            kw.update(draw_labels=want[0], draw_ids=want[1], draw_scores=want[2])
            pts = ctx.fbool("draw_points")
            kw["draw_points"] = pts
        else:
            color_kw(ctx, kw)
            if ctx.choose(2):
                kw["radius"] = ctx.fint("radius", 0)
                kw["thickness"] = ctx.fint("thickness", -1)
                ctx.assume(kw["thickness"] <= MAXT)
        hide = ctx.fbool("hide")
        kw["hide_dead_points"] = hide

        def check(e, evs):
            q = z3.Int("#l")
            alive = z3.Exists([q], z3.And(q >= 0, q < n, b_(e.live(q))))
            hidden = z3.And(hide, z3.Not(alive))
            if ctx.decide(hidden):
                ctx.oblige("nothing is drawn for an object whose points are all dead and hidden", z3.BoolVal(not evs))
                return
            check_circles(ctx, it, e, evs, frame, lambda i: z3.And(b_(pts), z3.Or(b_(e.live(i)), z3.Not(hide))), hidden, color_for(e, kw))
            check_text(ctx, it, e, evs, frame, want, z3.BoolVal(True), color=text_color_for(e, kw))

        run = Run(ctx, it, kind, n, texts, check)
        f = it.modattr(it.load(D + "draw_points"), "draw_points")
        it.depth = 1
        st, r = call_raises(it, f, [frame, run.list], kw)
        result(ctx, it, run, st, r, frame)


for kind in KINDS:
    for texts in (False, True):
        u_points(kind, texts)


def corners_ok(p, q, e):
    """the rectangle with these corners is the one between the two points"""
    T = lambda i, c: N.trunc(e.points(z3.IntVal(i), z3.IntVal(c)))
    same = lambda a, b, c, d: z3.Or(z3.And(a == c, b == d), z3.And(a == d, b == c))
    return z3.And(*[same(p[c], q[c], T(0, c), T(1, c)) for c in range(2)])


def u_boxes(kind, texts):
    name = {"detection": "detections", "tracked": "tracked objects", "own": "drawables"}[kind] + (", with texts" if texts else "")

    @P.unit("draw_boxes of " + name, covers=[DB, D + "drawer.Drawer.rectangle", D + "drawer.Drawer.text", D + "drawer.Drawable.__init__"], extra=models, contracts=CON)
    def boxes(ctx, it):
        frame = frame_of(ctx)
        kw = {}
        box = True
        want = [False, True, False]
        if texts:
            want = [ctx.fbool("want") for k in range(3)]
            kw.update(draw_labels=want[0], draw_ids=want[1], draw_scores=want[2])
            box = ctx.fbool("draw_box")
            kw["draw_box"] = box
        else:
            color_kw(ctx, kw)
            if ctx.choose(2):
                kw["thickness"] = ctx.fint("thickness", -1)
                ctx.assume(kw["thickness"] <= MAXT)

        def check(e, evs):
            rs = [x for p, x in flat(evs) if x is not None and x[0] == "rectangle"]
            if any(x is None for p, x in flat(evs)):
                raise Unsupported("drawings in a loop")
            ctx.oblige("nothing but rectangles and texts is drawn", z3.BoolVal(all(x[0] in ("rectangle", "text") for _, x in flat(evs))))
            ctx.oblige("one rectangle per object exactly if requested", z3.IntVal(len(rs)) == z3.If(b_(box), 1, 0))
            for x in rs:
                ctx.oblige("rectangles are drawn on the frame", z3.BoolVal(x[1] == frame.sid))
                ctx.oblige("the rectangle is between the two points", corners_ok(x[2], x[3], e))
                color_is(ctx, "boxes have the object's color", z3.BoolVal(True), x[4], color_for(e, kw))
            check_text(ctx, it, e, evs, frame, want, z3.BoolVal(True), color=text_color_for(e, kw))

        run = Run(ctx, it, kind, 2, texts, check)
        f = it.modattr(it.load(D + "draw_boxes"), "draw_boxes")
        it.depth = 1
        st, r = call_raises(it, f, [frame, run.list], kw)
        result(ctx, it, run, st, r, frame)


for kind in KINDS:
    for texts in (False, True):
        u_boxes(kind, texts)


@P.unit("draw_points and draw_boxes without objects, and their deprecated parameters", covers=[DP, DB], extra=models, contracts=CON)
def nothing(ctx, it):
    frame = frame_of(ctx)
    pts = ctx.choose(2)
    mod, fn = ("draw_points", "draw_points") if pts else ("draw_boxes", "draw_boxes")
    f = it.modattr(it.load(D + mod), fn)
    case = ctx.choose(4)
    it.depth = 1
    if case < 3:
        a = [[frame], [frame, None], [frame, ctx.new_list(SeqVal())]][case]
        st, r = call_raises(it, f, a, {})
        ctx.oblige("drawing nothing raises no error", z3.BoolVal(st == "ok"), str(r))
        if st == "ok":
            ctx.oblige("the frame is returned when there is nothing to draw", z3.BoolVal(r is frame))
        ctx.oblige("nothing is drawn when there is nothing to draw", z3.BoolVal(ctx.mem.get(("trace",)) is None))
        return

    def check(e, evs):
        if pts:
            check_circles(ctx, it, e, evs, frame, lambda i: b_(e.live(i)), None, color_for(e, dict(color="by_label")))
        else:
            rs = [x for p, x in flat(evs) if x is not None and x[0] == "rectangle"]
            ctx.oblige("one rectangle per object", z3.BoolVal(len(rs) == 1))
            for x in rs:
                ctx.oblige("the rectangle is between the two points", corners_ok(x[2], x[3], e))

    run = Run(ctx, it, "detection", ctx.fint("n", 1) if pts else 2, False, check)
    kw = dict(detections=run.list, color_by_label=True, label_size=1)
    if not pts:
        kw.update(random_color=True, line_color="red", line_width=1)
    st, r = call_raises(it, f, [frame], kw)
    result(ctx, it, run, st, r, frame)
