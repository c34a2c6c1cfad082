"""C20: reading MOT files.  norfair.metrics.{InformationFile,
DetectionFileParser}."""
from pyvc.spec import *
from pyvc import osmodel as OS
from pyvc import models as M
from pyvc.strings import SymStr
from pyvc import strings as S
from contracts import C19

MOD = "norfair.metrics"
P = Prop("C20", trusted=["numpy.loadtxt(path, delimiter=',', ndmin=2) returns the rows of the file as float32; an empty file gives a matrix of shape (0, 1) (sampled)",
                         "numpy.argsort returns a permutation that sorts (sampled)", "str.splitlines; int() of a string of digits"],
         assumptions=["the text of the files is ASCII; every row of a detection file has at least seven columns", "seqLength is a number",
                      "'the value' is the text of the line after the key and one separator"])


def init_file_models():
    return C19.models()


class Lines:
    """any number of lines of any text"""

    def __init__(s, ctx):
        s.K = ctx.fint("lines", 0)
        s.n = ctx.fresh_fn("line_len", [I], I)
        s.c = ctx.fresh_fn("line_chr", [I, I], I)
        i, j = z3.Ints("#li #lj")
        ctx.axiom(z3.ForAll([i], s.n(i) >= 0, patterns=[s.n(i)]))
        ctx.axiom(z3.ForAll([i, j], z3.And(s.c(i, j) >= 0, s.c(i, j) < 0x110000), patterns=[s.c(i, j)]))

    def line(s, i):
        return SymStr(s.n(i), lambda j: s.c(i, j if is_sym(j) else z3.IntVal(j)))

    def list(s, ctx):
        return ctx.new_list(SeqVal([SymPart(Dom.dense(s.K), s.line)]))


@P.unit("InformationFile", covers=[MOD + ".InformationFile.__init__", MOD + ".InformationFile.search"], extra=init_file_models)
def information(ctx, it):
    ls = Lines(ctx)

    def opener(it, a, k):
        f = OS.open_(it, a, k)
        text = Opaque("text", None, {"truth": True, "attrs": {"splitlines": M.nat("splitlines", lambda it: ls.list(it.ctx))}})
        f.data["content"] = lambda it: text
        return f

    it.models["builtins"].attrs["open"] = Native("open", opener)
    C = it.modattr(it.load(MOD), "InformationFile")
    o = it.call(C, [OS.fresh_str(ctx, "path")], {})
    key = SymStr.fresh(ctx, "key")
    j = z3.Int("#kj")
    ctx.axiom(z3.ForAll([j], z3.And(key.fn(j) >= 0, key.fn(j) < 0x110000), patterns=[key.fn(j)]))
    starts = lambda i: z3.And(ls.n(i) >= key.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < key.n), ls.c(i, j) == key.fn(j))))
    it.depth = 1
    st, r = call_raises(it, it.get_attr(o, "search"), [key])
    i = z3.Int("#si")
    some = z3.Exists([i], z3.And(i >= 0, i < ls.K, starts(i)))
    if st == "raise":
        ctx.oblige("an error means that no line starts with the key", z3.Not(some), str(r))
        return
    ctx.oblige("an unknown key is an error", some)
    # the first line that starts with the key
    w = ctx.fint("first_line", 0)
    if not ctx.prove_quiet(z3.Not(some)):
        ctx.assume(z3.And(w < ls.K, starts(w)))
        ctx.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w), z3.Not(starts(i))), patterns=[ls.n(i)]))
    n = key.n
    vlen = z3.If(ls.n(w) > n + 1, ls.n(w) - n - 1, z3.IntVal(0))
    value = lambda p: z3.And(vlen > 0, z3.ForAll([j], z3.Implies(z3.And(j >= n + 1, j < ls.n(w)), p(ls.c(w, j)))))
    digits = value(lambda c: z3.And(c >= 48, c <= 57))
    decimals = value(lambda c: S.digit_char(c, True))  # Unicode decimals: either is accepted
    if isinstance(r, str) and r == "":
        r = SymStr(z3.IntVal(0), lambda i: z3.IntVal(0))
    isnum = isinstance(r, (int, z3.ArithRef)) and not isinstance(r, bool)
    ctx.oblige("the value is an integer exactly if it is all digits", decimals if isnum else z3.Not(digits))
    text = r
    if isnum:
        rec = [t for v, t in ctx.mem.get(("glob", "#parsed", 0), ()) if is_sym(r) and v.eq(r)]
        if not rec:
            raise Unsupported("a number that is not parsed from the text")
        text = rec[0]
    if not isinstance(text, SymStr):
        raise Unsupported(f"value {text!r}")
    ctx.oblige("the value is the rest of the line: length", lift(text.n) == vlen)
    x = ctx.fint("pos", 0)
    ctx.assume(x < vlen)
    ctx.oblige("the value is the rest of the line", z3.Implies(lift(text.n) == vlen, text.fn(x) == ls.c(w, n + 1 + x)))


# --------------------------------------------------------------------------
LEN = z3.Int("seqLength")


class File:
    pass


def loadtxt(s):
    def f(it, path, dtype=float, delimiter=None, ndmin=0, **kw):
        ctx = it.ctx
        if kw or delimiter != "," or ndmin not in (0, 1, 2):
            raise Unsupported("loadtxt arguments")
        dt = N.dtype_arg(dtype)
        if dt not in ("f", "f32"):
            raise Unsupported("loadtxt type")
        if ctx.decide(s.R == 0):
            return ctx.new_arr((0, 1) if ndmin == 2 else (0,), dt, lambda *ix: z3.RealVal(0))
        if ndmin < 2 and ctx.decide(s.R == 1):
            return ctx.new_arr((s.K,), dt, lambda j: s.m(z3.IntVal(0), j))
        return ctx.new_arr((s.R, s.K), dt, s.m)

    return f


def parser_models():
    m = C19.models()
    m["numpy"] = ModelModule("numpy", dict(N.numpy_module().attrs))
    return m


def length_of(it):
    return LEN


CON = C19.info_contracts(length_of)


def parser(ctx, it, own):
    s = File()
    s.R, s.K = ctx.fint("R", 0), ctx.fint("K", 7)
    s.m = ctx.fresh_fn("file", [I, I], R)
    it.models["numpy"].attrs["loadtxt"] = M.nat("numpy.loadtxt", loadtxt(s))
    ctx.assume(LEN >= 0)
    C = it.modattr(it.load(MOD), "DetectionFileParser")
    kw = dict(input_path=OS.fresh_str(ctx, "input"))
    if own:
        kw["information_file"] = C19.info(ctx, it, LEN)
    st, s.o = call_raises(it, C, [], kw)
    ctx.oblige("reading the file does not fail", z3.BoolVal(st == "ok"), str(s.o))
    if st != "ok":
        raise Infeasible()
    return s


@P.unit("DetectionFileParser", covers=[MOD + ".DetectionFileParser." + x for x in ("__init__", "get_dets_from_frame", "__iter__", "__next__")],
        extra=parser_models, contracts=CON)
def detections(ctx, it):
    s = parser(ctx, it, ctx.choose(2))
    o = s.o
    again = it.call(it.models["builtins"].attrs["iter"], [o], {})
    if not (isinstance(again, Obj) and again == o):
        raise Unsupported("the iterator is another object")
    if ga(it, o, "frame_number") != 1:
        raise Unsupported("representation: frame_number")
    f = ctx.fint("frame", 1)
    ctx.assume(f <= LEN + 1)
    ctx.setattr(o, "frame_number", f)
    it.depth = 1
    st, l = call_raises(it, it.models["builtins"].attrs["next"], [o])
    if st == "raise":
        ctx.oblige("iteration ends after the last frame", f == LEN + 1, str(l))
        ctx.oblige("iteration ends with StopIteration", z3.BoolVal(l.cls is StopIteration), str(l))
    else:
        ctx.oblige("iteration yields every frame up to the last", f <= LEN)
        v = ga(it, o, "frame_number")
        if not (isinstance(v, int) or isinstance(v, z3.ArithRef)):
            raise Unsupported("representation: frame_number")
        ctx.oblige("frames come in order", lift(v) == f + 1)
        frame_dets(ctx, it, s, f, l)
    it.call(it.models["builtins"].attrs["iter"], [o], {})
    ctx.oblige("iterating again starts over", b_(it.equal(ga(it, o, "frame_number"), 1)))


def frame_dets(ctx, it, s, f, l):
    """the detections l are one per row of frame f"""
    if not isinstance(l, (ListObj, FrozenList, TupleLike, tuple)):
        ctx.oblige("a frame is a list of detections", z3.BoolVal(False), str(l))
        return
    fr = z3.ToReal(f)
    seq = it.iter_seq(l)
    parts = [p for p in seq.parts if not (isinstance(p, Items) and not p.items)]
    r = z3.Int("#r")
    mine = lambda i: z3.And(i >= 0, i < s.R, s.m(i, z3.IntVal(0)) == fr)
    if not parts:
        ctx.oblige("no detections means no row of that frame", z3.ForAll([r], z3.Not(mine(r))))
        return
    if len(parts) != 1 or not isinstance(parts[0], SymPart) or parts[0].dom.sort != I:
        raise Unsupported("detections of another structure")
    p = parts[0]
    perms = ctx.mem.get(("glob", "#perms", 0), ())
    if len(perms) > 1:
        raise Unsupported("rows permuted twice")
    row, pos = perms[0] if perms else (lambda i: i, lambda i: i)
    e = z3.Const(ctx.name("el"), I)
    dom = conj(p.dom.cond(e), *p.dom.facts(e))
    # one detection per row: element <-> row is a bijection
    ctx.oblige("every detection belongs to a row of the frame", z3.Implies(dom, mine(row(e))))
    ctx.oblige("different detections belong to different rows", z3.Implies(dom, pos(row(e)) == e))
    q = z3.Const(ctx.name("row"), I)
    ctx.oblige("every row of the frame has a detection", z3.Implies(mine(q), p.dom.cond(pos(q))))
    ctx.oblige("the detection of a row is its own", z3.Implies(mine(q), row(pos(q)) == q))
    ctx.assume_in(p.dom, e)
    d = p.val(e)
    if not isinstance(d, (Obj, FrozenObj)) or clsname(d.cls) != "Detection":
        raise Unsupported(f"detection {d!r}")
    pts, sc = it.get_attr(d, "points"), it.get_attr(d, "scores")
    m = lambda c: s.m(row(e), z3.IntVal(c))
    if shape_is(ctx, "points", pts, 2, 2):
        want = [[m(2), m(3)], [m(2) + m(4), m(3) + m(5)]]
        for a in range(2):
            for b in range(2):
                ctx.oblige(f"corner {a} coordinate {b}", at(ctx, pts, a, b) == want[a][b])
    if shape_is(ctx, "scores", sc, 2):
        for a in range(2):
            ctx.oblige(f"score of corner {a} is the confidence", at(ctx, sc, a) == m(6))
