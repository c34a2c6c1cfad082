"""C19: what the MOT writers put out.  norfair.metrics.{PredictionsTextFile,
Accumulators}."""
from pyvc.spec import *
from pyvc import osmodel as OS
from pyvc import models as M

MOD = "norfair.metrics"
P = Prop("C19", trusted=["file objects: text passed to write reaches the file in order, and is there once the file is closed",
                         "str() of a number is its text", "rich.progress.track yields one item per element of its sequence",
                         "os.path, os.makedirs: uninterpreted; an array of strings is modelled as a list"],
         assumptions=["the sequence has at least one frame, and a writer is updated at most once per frame of the sequence",
                      "predictions are any objects with an integer id and a 2x2 estimate",
                      "seqLength of the information file is an integer (C20)"])


def models():
    m = OS.progress_models()
    m.update(OS.os_models())
    m["motmetrics"] = ModelModule("motmetrics", {"metrics": Opaque("motmetrics.metrics"), "io": Opaque("motmetrics.io"), "utils": Opaque("motmetrics.utils")})
    m["pandas"] = ModelModule("pandas", {})
    return m


def info(ctx, it, length):
    """an information file: search("seqLength") is the length"""
    def search(it, variable_name):
        if variable_name != "seqLength":
            raise Unsupported(f"information {variable_name}")
        return length

    return Opaque("information", None, {"getattr": lambda it, o, n: M.nat("search", search) if n == "search" else M.N._uns(f"information.{n}"), "truth": True})


def info_contracts(length):
    """the information file found in the input folder"""
    def init(it, bound):
        it.ctx.setattr(bound["self"], "path", bound["file_path"])
        return None

    def search(it, bound):
        if bound["variable_name"] != "seqLength":
            raise Unsupported(f"information {bound['variable_name']}")
        return length(it)

    return {MOD + ".InformationFile.__init__": init, MOD + ".InformationFile.search": search}


LEN = z3.Int("seqLength")
CON = info_contracts(lambda it: LEN)


class Preds:
    """any number of objects with an id and an estimate"""

    def __init__(s, ctx, name):
        s.n = ctx.fint(name, 0)
        s.id = ctx.fresh_fn(name + "_id", [I], I)
        s.est = ctx.fresh_fn(name + "_box", [I, I, I], R)
        s.list = ctx.new_list(SeqVal([SymPart(Dom.dense(s.n), lambda i: Opaque("object", i, {"getattr": s.attr, "truth": True}))]))

    def attr(s, it, o, name):
        if name == "id":
            return s.id(o.term)
        if name == "estimate":
            return it.ctx.new_arr((2, 2), "f", lambda r, c: s.est(o.term, r, c))
        raise Unsupported(f"attribute {name} of a predicted object")

    def row(s, frame, i):
        e = lambda r, c: s.est(i, z3.IntVal(r), z3.IntVal(c))
        return [frame, s.id(i), e(0, 0), e(0, 1), e(1, 0) - e(0, 0), e(1, 1) - e(0, 1)]


def the_file(ctx, it, o):
    """the file object kept by the writer"""
    fs = [ctx.mem[("attr", o.oid, n)] for n in ctx.mem.get(("names", o.oid), ()) if ("attr", o.oid, n) in ctx.mem]
    fs = [f for f in fs if isinstance(f, Opaque) and f.kind == "file"]
    if len(fs) != 1:
        raise Unsupported("the writer keeps no file")
    return fs[0]


def counter(ctx, it, o, name, want):
    v = ga(it, o, name)
    if not (isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int()):
        raise Unsupported("representation: " + name)
    ctx.oblige("the frame counter is the number of the next frame", lift(v) == want)


def flat(xs):
    out = []
    for k, x in enumerate(xs):
        out += ([","] if k else []) + [x]
    return out + [",-1,-1,-1,-1\n"]


def written(ctx, it, tag, f, frame, p):
    """exactly the lines of the objects, in order"""
    cs = OS.chunks(ctx, ctx.mem.get(("trace",), SeqVal()), f.data["fid"])
    ones = [c for c in cs if c[0] == "one"]
    if ones:
        ctx.oblige(tag + "nothing but the objects' lines is written", z3.BoolVal(False), str(ones[0][1]))
        return
    if ctx.valid(p.n == 0) and not cs:
        return
    if len(cs) != 1:
        ctx.oblige(tag + "one line per object", z3.BoolVal(False) if not cs else ctx_unsup(), f"{len(cs)} groups")
        return
    part = cs[0][1]
    if part.dom.n is None:
        # a subset of the objects
        i = z3.Const("#l", part.dom.sort)
        if part.dom.sort == I:
            ctx.oblige(tag + "one line per object", z3.ForAll([i], part.dom.cond(i) == z3.And(i >= 0, i < p.n)))
        raise Unsupported("lines over an index set")
    ctx.oblige(tag + "one line per object", lift(part.dom.n) == p.n)
    i, = idx(ctx, p.n)
    OS.same_text(ctx, it, tag + "line", part.val(i), flat(p.row(frame, i)))


def ctx_unsup():
    raise Unsupported("lines written by several loops")


def closed_iff(ctx, tag, f, cond, it):
    ctx.oblige(tag + "closed exactly after the last frame", b_(OS.is_closed(it, f)) == cond)


def construct(ctx, it, own):
    C = it.modattr(it.load(MOD), "PredictionsTextFile")
    length = LEN
    ctx.assume(length >= 1)
    kw = dict(input_path=OS.fresh_str(ctx, "input"), save_path=OS.fresh_str(ctx, "save"))
    if own:
        kw["information_file"] = info(ctx, it, length)
    return it.call(C, [], kw), length


@P.unit("PredictionsTextFile: first frame", covers=[MOD + ".PredictionsTextFile.__init__", MOD + ".PredictionsTextFile.update"], extra=models, contracts=CON)
def pred_first(ctx, it):
    o, length = construct(ctx, it, ctx.choose(2))
    f = the_file(ctx, it, o)
    ctx.oblige("the file starts empty", z3.BoolVal("w" in f.data["mode"] or "x" in f.data["mode"]), f.data["mode"])
    ctx.oblige("nothing is written before the first frame", z3.BoolVal(not OS.chunks(ctx, ctx.mem.get(("trace",), SeqVal()), f.data["fid"])))
    closed_iff(ctx, "construction: ", f, z3.BoolVal(False), it)
    p = Preds(ctx, "n")
    it.depth = 1
    st, r = call_raises(it, it.get_attr(o, "update"), [p.list])
    ctx.oblige("update does not fail", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    written(ctx, it, "first frame: ", f, z3.IntVal(1), p)
    closed_iff(ctx, "first frame: ", f, length == 1, it)


@P.unit("PredictionsTextFile.update", covers=[MOD + ".PredictionsTextFile.update"], extra=models, contracts=CON)
def pred_step(ctx, it):
    o, length = construct(ctx, it, 0)
    f = the_file(ctx, it, o)
    if ga(it, o, "frame_number") != 1:
        raise Unsupported("representation: frame_number")
    k = ctx.fint("k", 1)
    ctx.assume(k <= length)
    ctx.setattr(o, "frame_number", k)
    ctx.mem.pop(("trace",), None)
    p = Preds(ctx, "n")
    given = ctx.fint("given") if ctx.choose(2) else None
    it.depth = 1
    st, r = call_raises(it, it.get_attr(o, "update"), [p.list] if given is None else [p.list, given])
    ctx.oblige("update does not fail", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    tag = "" if given is None else "given frame number: "
    written(ctx, it, tag, f, k if given is None else given, p)
    closed_iff(ctx, tag, f, k == length, it)
    counter(ctx, it, o, "frame_number", k + 1)


# --------------------------------------------------------------------------
def seq_is(ctx, it, name, l, part_n, part_val_ok, extra):
    """the list l is the old part followed by the extra items"""
    seq = it.iter_seq(l)
    items, sym = [], []
    for p in seq.parts:
        if isinstance(p, Items):
            items += p.items
        elif isinstance(p, SymPart):
            if items:
                raise Unsupported("list of another structure")
            sym.append(p)
        else:
            raise Unsupported("list under construction")
    ctx.oblige(name + ": number of entries", lift(it.seq_len(seq)) == lift(part_n) + len(extra))
    if len(items) != len(extra) or len(sym) > 1:
        if not (len(items) == len(extra) and not sym):
            raise Unsupported("list of another structure")
    for p in sym:
        i, = idx(ctx, part_n)
        part_val_ok(p.val(i), i)
    for a, b in zip(items, extra):
        b(a)


def same_str(ctx, it, name, a, b):
    e = it.equal(a, b)
    ctx.oblige(name, b_(e))


def track_of(ctx, it, o):
    ts = [ctx.mem[("attr", o.oid, n)] for n in ctx.mem.get(("names", o.oid), ()) if ("attr", o.oid, n) in ctx.mem]
    ts = [t for t in ts if isinstance(t, Opaque) and t.kind == "track"]
    if len(ts) != 1:
        raise Unsupported("no progress iterator")
    return ts[0]


def acc_state(ctx, it):
    """an accumulator with any number of finished videos, in which
    create_accumulator was called for another one"""
    C = it.modattr(it.load(MOD), "Accumulators")
    o = it.call(C, [], {})
    for n in ("matrixes_predictions", "paths"):
        if not isinstance(ga(it, o, n), ListObj) or ctx.seq(ga(it, o, n)).parts:
            raise Unsupported("representation: " + n)
    s = Preds.__new__(Preds)
    K = s.K = ctx.fint("videos", 0)
    pth = s.pth = ctx.fresh_fn("path", [I], OS.STR)
    s.rows = ctx.fresh_fn("finished_rows", [I], I)
    s.val = ctx.fresh_fn("finished", [I, I, I], R)
    ctx.setattr(o, "matrixes_predictions", ctx.new_list(SeqVal([SymPart(Dom.dense(K), lambda i: Opaque("matrix", i, {"truth": True}))])))
    ctx.setattr(o, "paths", ctx.new_list(SeqVal([SymPart(Dom.dense(K), lambda i: OS.pstr(pth(i)))])))
    s.length = LEN
    ctx.assume(LEN >= 1)
    s.o = o
    return s


def create(ctx, it, s, own, name="input"):
    s.path = OS.fresh_str(ctx, name)
    kw = dict(input_path=s.path)
    if own:
        kw["information_file"] = info(ctx, it, s.length)
    return call_raises(it, it.get_attr(s.o, "create_accumulator"), [], kw)


def old_matrix(ctx, s):
    def f(v, i):
        ctx.oblige("matrices of finished videos are kept", v.term == i if isinstance(v, Opaque) and v.kind == "matrix" else z3.BoolVal(False))

    return f


def rows_are(ctx, it, tag, m, blocks):
    """the matrix holds exactly the rows of the blocks: (count, row(i)) each"""
    total = z3.simplify(sum((lift(n) for n, _ in blocks), z3.IntVal(0)))
    if isinstance(m, ListObj) and ctx.seq(m).parts == ():
        ctx.oblige(tag + "no row is lost", total == 0)
        return
    if isinstance(m, ListObj):
        raise Unsupported("matrix kept as a list")
    if not isinstance(m, NDArr) or m.ndim != 2:
        ctx.oblige(tag + "the predictions are a matrix", z3.BoolVal(False), str(m))
        return
    ctx.oblige(tag + "number of rows", lift(m.shape[0]) == total)
    ctx.oblige(tag + "ten columns", lift(m.shape[1]) == 10)
    if not ctx.valid(lift(m.shape[0]) == total) or not ctx.valid(lift(m.shape[1]) == 10):
        return
    c = m.snap(ctx)
    off = z3.IntVal(0)
    for b, (n, row) in enumerate(blocks):
        i, = idx(ctx, n, base=f"blk{b}")
        for j, x in enumerate(row(i)):
            ctx.oblige(f"{tag}column {j}" + (" of earlier rows" if b < len(blocks) - 1 else ""),
                       z3.Implies(lift(n) > 0, eq_real(c(z3.simplify(off + i), z3.IntVal(j)), x)))
        off = off + lift(n)


def block(p, frame):
    return (p.n, lambda i: p.row(frame, i) + [-1, -1, -1, -1])


@P.unit("Accumulators.create_accumulator", covers=[MOD + ".Accumulators.__init__", MOD + ".Accumulators.create_accumulator"], extra=models, contracts=CON)
def acc_create(ctx, it):
    s = acc_state(ctx, it)
    it.depth = 1
    st, r = create(ctx, it, s, ctx.choose(2))
    ctx.oblige("starting a video does not fail", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    o = s.o
    seq_is(ctx, it, "matrices", ga(it, o, "matrixes_predictions"), s.K, old_matrix(ctx, s), [])
    seq_is(ctx, it, "paths", ga(it, o, "paths"), s.K, lambda v, i: same_str(ctx, it, "earlier paths are kept", v, OS.pstr(s.pth(i))),
           [lambda v: same_str(ctx, it, "the video's path comes after the earlier ones", v, s.path)])


def finish(ctx, it, s, tag, blocks, last):
    """after an update: collected exactly when it was the last frame"""
    o = s.o
    ms = ga(it, o, "matrixes_predictions")
    if ctx.decide(last):
        got = []
        seq_is(ctx, it, tag + "collected", ms, s.K, old_matrix(ctx, s), [got.append])
        if got:
            rows_are(ctx, it, tag + "collected: ", got[0], blocks)
            # starting the next video leaves it alone
            s2 = s
            st, r = create(ctx, it, s2, 0, "input2")
            if st == "ok":
                p2 = Preds(ctx, "nn")
                call_raises(it, it.get_attr(o, "update"), [p2.list])
                rows_are(ctx, it, tag + "after the next video started: ", got[0], blocks)
                m2 = ga(it, o, "matrix_predictions")
                rows_are(ctx, it, tag + "next video: ", m2, [block(p2, z3.IntVal(1))])
    else:
        seq_is(ctx, it, tag + "collected", ms, s.K, old_matrix(ctx, s), [])
        rows_are(ctx, it, tag + "so far: ", ga(it, o, "matrix_predictions"), blocks)
        counter(ctx, it, o, "frame_number", s.k + 1)
        t = track_of(ctx, it, o)
        ctx.oblige(tag + "progress is the number of frames", lift(ctx.mem[t.data["poskey"]]) == s.k)


@P.unit("Accumulators: first frame", covers=[MOD + ".Accumulators.create_accumulator", MOD + ".Accumulators.update"], extra=models, contracts=CON, deep=True)
def acc_first(ctx, it):
    s = acc_state(ctx, it)
    it.depth = 1
    if create(ctx, it, s, 0)[0] != "ok":
        return
    s.k = z3.IntVal(1)
    p = Preds(ctx, "n")
    st, r = call_raises(it, it.get_attr(s.o, "update"), [p.list])
    ctx.oblige("update does not fail", z3.BoolVal(st == "ok"), str(r))
    if st == "ok":
        finish(ctx, it, s, "first frame: ", [block(p, s.k)], s.length == 1)


@P.unit("Accumulators.update", covers=[MOD + ".Accumulators.update"], extra=models, contracts=CON, deep=True)
def acc_step(ctx, it):
    s = acc_state(ctx, it)
    it.depth = 1
    if create(ctx, it, s, 0)[0] != "ok":
        return
    o = s.o
    m = ga(it, o, "matrix_predictions")
    if not (isinstance(m, ListObj) and ctx.seq(m).parts == ()) or ga(it, o, "frame_number") != 1:
        raise Unsupported("representation of the video's rows")
    t = track_of(ctx, it, o)
    k = s.k = ctx.fint("k", 2)
    ctx.assume(k <= s.length)
    blocks = []
    if ctx.choose(2):
        Rn = ctx.fint("R", 1)
        old = real_arr(ctx, "rows", (Rn, 10))
        oc = old.snap(ctx)
        ctx.setattr(o, "matrix_predictions", old)
        blocks.append((Rn, lambda i: [oc(i, z3.IntVal(j)) for j in range(10)]))
    ctx.setattr(o, "frame_number", k)
    ctx.oblige("the progress iterator has one element less than the sequence", lift(t.data["count"]) == s.length - 1)
    ctx.mem[t.data["poskey"]] = k - 1
    p = Preds(ctx, "n")
    st, r = call_raises(it, it.get_attr(o, "update"), [p.list])
    ctx.oblige("update does not fail", z3.BoolVal(st == "ok"), str(r))
    if st == "ok":
        finish(ctx, it, s, "", blocks + [block(p, k)], k == s.length)
