"""C21: video input and output.  norfair.video.{Video, VideoFromFrames}."""
import ast

from pyvc.spec import *
from pyvc import ext
from pyvc import osmodel as OS
from pyvc import models as M
from pyvc.interp import assigned_names
from pyvc.loops import changed_keys
from pyvc.strings import CharStr, SymStr, code
from contracts import C19

MOD = "norfair.video"
V = MOD + ".Video."
P = Prop("C21", trusted=["cv2.VideoCapture: read() delivers the frames of the source in order, then (False, None); get() returns its properties",
                         "cv2.VideoWriter writes the frames given to write() in order; VideoWriter_fourcc, imread, waitKey, destroyAllWindows",
                         "os.path (uninterpreted functions of the path), rich progress bars, time.time() never goes back"],
         assumptions=["paths are ASCII text; the information file has numbers and texts where its keys say so",
                      "between two frames the consumer may call write (nothing else changes the video object)"])

RET = z3.Function("read_ok", I, B)
NONE = z3.Function("read_none", I, B)
PROP = z3.Function("capture_get", I, R)
CONSTS = dict(CAP_PROP_FRAME_COUNT=7, CAP_PROP_FPS=5, CAP_PROP_FRAME_HEIGHT=4, CAP_PROP_FRAME_WIDTH=3, CAP_PROP_POS_FRAMES=1)
POS = ("glob", "#pos", 0)


def failed(p):
    return z3.Or(z3.Not(RET(p)), NONE(p))


def capture(it, a, k):
    ctx = it.ctx
    if len(a) != 1 or k:
        raise Unsupported("arguments of VideoCapture")
    src = a[0]
    it.event(("capture", src))
    ctx.mem[POS] = 0

    def read(it):
        p = lift(it.ctx.mem[POS])
        it.ctx.mem[POS] = z3.simplify(p + 1)
        it.event(("read", p))
        return (RET(p), Opt(NONE(p), frame(p)))

    fs = {"read": read, "get": lambda it, c: PROP(lift(c)), "release": lambda it: it.event(("release",)), "isOpened": lambda it: it.ctx.fbool("opened")}
    return Opaque("capture", None, {"truth": True, "getattr": lambda it, o, n: M.nat("capture." + n, fs[n]) if n in fs else M.N._uns(f"capture.{n}")})


def frame(p):
    return Opaque("frame", p, {"truth": True})


def writer(it, a, k):
    names = ["filename", "fourcc", "fps", "frameSize", "isColor"]
    args = dict(zip(names, a))
    args.update(k)
    it.event(("open", args))
    return the_writer()


def the_writer():
    def write(it, f):
        it.event(("write", f))

    fs = {"write": write, "release": lambda it: it.event(("release_out",)), "isOpened": lambda it: it.ctx.fbool("opened")}
    return Opaque("writer", None, {"truth": True, "getattr": lambda it, o, n: M.nat("writer." + n, fs[n]) if n in fs else M.N._uns(f"writer.{n}")})


def fourcc(it, *cs):
    if len(cs) != 4:
        raise PyRaise(TypeError, "VideoWriter_fourcc takes four characters")
    return tuple(cs)


def models():
    m = C19.models()
    cv = ext.cv2_model()["cv2"]
    cv.attrs.update(CONSTS)
    cv.attrs.update(VideoCapture=Native("VideoCapture", capture), VideoWriter=Native("VideoWriter", writer),
                    VideoWriter_fourcc=M.nat("VideoWriter_fourcc", fourcc), waitKey=M.nat("waitKey", lambda it, d=0: it.ctx.fint("key")),
                    destroyAllWindows=M.nat("destroyAllWindows", lambda it: None), imread=M.nat("imread", imread))
    m["cv2"] = cv
    ign = Native("progress", lambda it, a, k: None)

    def progress(it, a, k):
        o = Opaque("progress", None, {"truth": True, "getattr": lambda it, o, n: M.nat("__enter__", lambda it: o) if n == "__enter__" else ign})
        return o

    thing = Native("rich", lambda it, a, k: Opaque("rich"))
    m["rich.progress"].attrs.update({x: thing for x in ("BarColumn", "ProgressColumn", "TimeRemainingColumn")}, Progress=Native("Progress", progress))

    def now(it):
        ctx = it.ctx
        t = ctx.freal("time")
        key = ("glob", "#time", 0)
        if key in ctx.mem:
            ctx.assume(t >= ctx.mem[key])
        ctx.mem[key] = t
        return t

    m["time"] = ModelModule("time", {"time": M.nat("time.time", now), "perf_counter": M.nat("time.perf_counter", now), "monotonic": M.nat("time.monotonic", now)})
    return m


def imread(it, path, flags=1):
    it.event(("imread", OS.sterm(it, path)))
    return Opaque("image", OS.sterm(it, path), {"truth": True})


B_ = z3.BoolSort()
ISDIR, ISFILE, TILDE = (lambda t: OS.fn("isdir", 1, B_)(t)), (lambda t: OS.fn("isfile", 1, B_)(t)), (lambda t: OS.fn("contains:~", 1, B_)(t))


def c_abbreviate(it, bound):
    return OS.fresh_str(it.ctx, "description")


CON = {V + "abbreviate_description": c_abbreviate}


def video_cls(it):
    return it.modattr(it.load(MOD), "Video")


def events(ctx):
    out = []
    for p in ctx.mem.get(("trace",), SeqVal()).parts:
        if not isinstance(p, Items):
            raise Unsupported("events of a loop")
        out += p.items
    return out


def source_path(it, path):
    """the path as the file system sees it"""
    t = OS.sterm(it, path)
    return z3.If(TILDE(t), OS.fn("expanduser", 1)(t), t)


class Src:
    pass


def build(ctx, it, kind, **kw):
    """a constructed video (precondition: the source can be opened)"""
    s = Src()
    s.kind = kind
    s.out = OS.fresh_str(ctx, "out")
    if kind == "camera":
        s.camera = ctx.fint("camera")
        args = dict(camera=s.camera)
    else:
        s.path = OS.fresh_str(ctx, "path")
        args = dict(input_path=s.path)
        ctx.assume(ISFILE(OS.fn("expanduser", 1)(OS.sterm(it, s.path))))
        ctx.assume(ISFILE(OS.sterm(it, s.path)))
        ctx.assume(PROP(z3.IntVal(CONSTS["CAP_PROP_FRAME_COUNT"])) >= 1)
    args["output_path"] = s.out
    args.update(kw)
    st, s.o = call_raises(it, video_cls(it), [], args)
    ctx.oblige("a video over a readable source can be made", z3.BoolVal(st == "ok"), str(s.o))
    if st != "ok":
        raise Infeasible()
    return s


# --------------------------------------------------------------------------
@P.unit("Video.__init__", covers=[V + "__init__"], extra=models, contracts=CON)
def construct(ctx, it):
    cam = [None, ctx.fint("camera"), True, "0", 1.5][ctx.choose(5)]
    path = OS.fresh_str(ctx, "path") if ctx.choose(2) else None
    fps = [None, ctx.freal("fps")][ctx.choose(2)]
    kw = dict(output_fps=fps, label="label" if ctx.choose(2) else "")
    if cam is not None:
        kw["camera"] = cam
    if path is not None:
        kw["input_path"] = path
    it.depth = 1
    st, r = call_raises(it, video_cls(it), [], kw)
    good = (cam is None) != (path is None)
    isid = cam is None or is_sym(cam)
    if not good or not isid:
        ctx.oblige("neither or both of camera and input path, or a camera id that is no integer, is an error" if not good else "a camera id that is no integer is an error",
                   z3.BoolVal(st == "raise"))
        if st == "raise":
            ctx.oblige("the error is a ValueError", z3.BoolVal(isinstance(r.cls, type) and issubclass(r.cls, ValueError)), str(r))
        ctx.oblige("no source is opened on an error", z3.BoolVal(not events(ctx)))
        return
    ok = True
    if path is not None:
        src = source_path(it, path)
        cnt = PROP(z3.IntVal(CONSTS["CAP_PROP_FRAME_COUNT"]))
        ok = z3.And(ISFILE(src), z3.Not(z3.And(cnt > -1, cnt < 1)))
    if st == "raise":
        ctx.oblige("a readable source is no error", z3.Not(b_(ok)), str(r))
        return
    ctx.oblige("a file that is not there or has no frames is an error", b_(ok))
    caps = [e for e in events(ctx) if e[0] == "capture"]
    ctx.oblige("one source is opened", z3.BoolVal(len(caps) == 1))
    if len(caps) == 1:
        v = caps[0][1]
        if path is None:
            ctx.oblige("the source is the camera", v == cam if is_sym(v) and v.sort() == I else z3.BoolVal(False))
        else:
            ctx.oblige("the source is the file", OS.sterm(it, v) == src)
    ctx.oblige("nothing is read, written or released", z3.BoolVal(len(events(ctx)) == len(caps)))
    ctx.oblige("the output frame rate is the given one or the source's",
               eq_real(ga(it, r, "output_fps"), fps if fps is not None else PROP(z3.IntVal(CONSTS["CAP_PROP_FPS"]))))
    ctx.oblige("no output is open", z3.BoolVal(ga(it, r, "output_video") is None))


# --------------------------------------------------------------------------
def known(t, names):
    """is the path term made of the given pieces only?"""
    todo = [t]
    while todo:
        x = todo.pop()
        n = x.decl().name()
        if n.startswith("str:") and not any(n == "str:" + q for q in names):
            return False
        todo += x.children()
    return True


@P.unit("Video.get_output_file_path", covers=[V + "get_output_file_path"], extra=models, contracts=CON)
def output_path(ctx, it):
    kind = ["camera", "file"][ctx.choose(2)]
    kw = {}
    extn = "mp4"
    if ctx.choose(2):
        extn = kw["output_extension"] = OS.fresh_str(ctx, "extension")
    s = build(ctx, it, kind, **kw)
    n0 = len(events(ctx))
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "get_output_file_path"), [])
    ctx.oblige("asking for the output path does not fail", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    out = OS.sterm(it, s.out)
    got = OS.sterm(it, r)
    if not known(got, ("join", "cat", "piece-1/", "piece0.", "expanduser", "of_int")):
        raise Unsupported(f"a path of another form: {got}")
    if kind == "camera":
        name = ["camera_", Tok(s.camera)]
    else:
        src = source_path(it, s.path)
        name = [Tok(Opaque("str", OS.fn("piece0.", 1)(OS.fn("piece-1/", 1)(src))))]
    full = OS.sterm(it, simp_str(StrExpr(flat_parts(name + ["_out."] + ([extn] if isinstance(extn, str) else list(extn.parts))))))
    full = OS.sterm(it, norm(it, name + ["_out."], extn))
    ctx.oblige("the output path is the given one unless it is a folder, else <name>_out.<extension> inside it",
               same_path(got, z3.If(ISDIR(out), OS.fn("join", 2)(out, full), out)))
    ctx.oblige("nothing is opened", z3.BoolVal(len(events(ctx)) == n0))


def norm(it, parts, extn):
    return simp_str(StrExpr(merge_text(flat_parts(parts + [extn]))))


def merge_text(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def same_path(a, b):
    return a == b


# --------------------------------------------------------------------------
@P.unit("Video.get_codec_fourcc", covers=[V + "get_codec_fourcc", V + "_fail"], extra=models, contracts=CON)
def codec(ctx, it):
    cc = ["avc1", CharStr([ctx.fint("cc", 1) for _ in range(4)]), None][ctx.choose(3)]
    s = build(ctx, it, "camera", output_fourcc=cc)
    f = SymStr.fresh(ctx, "filename")
    j = z3.Int("#fj")
    ctx.axiom(z3.ForAll([j], z3.And(f.fn(j) >= 0, f.fn(j) < 128), patterns=[f.fn(j)]))
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "get_codec_fourcc"), [f])
    if cc is not None:
        ctx.oblige("the requested codec is used", b_(it.equal(r, cc)) if st == "ok" else z3.BoolVal(False), str(r))
        return
    low = lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
    ends = lambda x: z3.And(lift(f.n) >= 3, *[low(f.fn(f.n - 3 + k)) == ord(c) for k, c in enumerate(x)])
    if st == "raise":
        ctx.oblige("an error means that the name ends neither in mp4 nor in avi", z3.Not(z3.Or(ends("avi"), ends("mp4"))), str(r))
        return
    if not isinstance(r, str):
        raise Unsupported(f"codec {r!r}")
    ctx.oblige("a name that ends neither in mp4 nor in avi is an error", z3.Or(ends("avi"), ends("mp4")))
    ctx.oblige("avi is written as XVID", z3.Implies(ends("avi"), z3.BoolVal(r == "XVID")), r)
    ctx.oblige("mp4 is written as mp4v", z3.Implies(ends("mp4"), z3.BoolVal(r == "mp4v")), r)


# --------------------------------------------------------------------------
OUT = z3.Const("output_file", OS.STR)
CC = [z3.Int(f"codec{k}") for k in range(4)]


def c_path(it, bound):
    return OS.pstr(OUT)


def c_codec(it, bound):
    ctx = it.ctx
    ctx.oblige("the codec is chosen for the output path", OS.sterm(it, bound["filename"]) == OUT)
    return CharStr(CC)


IOCON = {**CON, V + "get_output_file_path": c_path, V + "get_codec_fourcc": c_codec}


@P.unit("Video.write", covers=[V + "write"], extra=models, contracts=IOCON)
def write(ctx, it):
    fps = [None, ctx.freal("fps")][ctx.choose(2)]
    s = build(ctx, it, ["camera", "file"][ctx.choose(2)], output_fps=fps)
    n0 = len(events(ctx))
    first = ctx.choose(2)
    if ga(it, s.o, "output_video") is not None:
        raise Unsupported("representation: output_video")
    if not first:
        ctx.setattr(s.o, "output_video", the_writer())
    color = ctx.choose(2)
    H, W = ctx.fint("H", 0), ctx.fint("W", 0)
    fr = real_arr(ctx, "frame", (H, W, 3) if color else (H, W), "u8")
    snap = fr.snap(ctx)
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "write"), [fr])
    ctx.oblige("writing does not fail", z3.BoolVal(st == "ok"), str(r))
    if st != "ok":
        return
    ev = events(ctx)[n0:]
    ctx.oblige("an output is opened exactly at the first write", z3.BoolVal([e[0] for e in ev] == (["open"] if first else []) + ["write"]), str([e[0] for e in ev]))
    if [e[0] for e in ev] != (["open"] if first else []) + ["write"]:
        return
    ctx.oblige("the frame itself is written", z3.BoolVal(ev[-1][1] is fr))
    ix = (z3.Int("#y"), z3.Int("#x")) + ((z3.Int("#c"),) if color else ())
    ctx.oblige("the frame is not modified", fr.snap(ctx)(*ix) == snap(*ix))
    if first:
        a = ev[0][1]
        ctx.oblige("the output is opened at the output path", OS.sterm(it, a["filename"]) == OUT)
        cc = a["fourcc"]
        if not (isinstance(cc, tuple) and len(cc) == 4):
            raise Unsupported("codec code")
        ctx.oblige("the output uses the chosen codec", conj(*[code(c.chars[0] if isinstance(c, CharStr) else c) == w for c, w in zip(cc, CC)]))
        ctx.oblige("the output has the configured or the source's frame rate", eq_real(a["fps"], fps if fps is not None else PROP(z3.IntVal(5))))
        sz = it.iter_seq(a["frameSize"]).concrete()
        ctx.oblige("the output has the frame's size", conj(lift(sz[0]) == W, lift(sz[1]) == H) if sz is not None and len(sz) == 2 else z3.BoolVal(False))
        ctx.oblige("the output takes color frames", z3.BoolVal(a.get("isColor", True) is True))
        w = ga(it, s.o, "output_video")
        ctx.oblige("the output stays open for the next frames", z3.BoolVal(isinstance(w, Opaque) and w.kind == "writer"))


# --------------------------------------------------------------------------
def state_writes(st):
    """attributes assigned in the loop"""
    out = set()
    for b in st.body + st.orelse + ([st.test] if hasattr(st, "test") else []):
        for x in ast.walk(b):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
    return out


@P.unit("Video.__iter__", covers=[V + "__iter__"], extra=models, contracts=IOCON)
def iterate(ctx, it):
    s = build(ctx, it, ["camera", "file"][ctx.choose(2)])
    n0 = len(events(ctx))
    o = s.o
    if ga(it, o, "output_video") is not None:
        raise Unsupported("representation: output_video")
    names = ctx.mem.get(("names", o.oid), ())
    kept = {}
    st0 = {"n": 0, "p": None}

    def fresh_like(v, what):
        if isinstance(v, bool) or is_bool_term(v):
            raise Unsupported(f"a flag changed by the loop: {what}")
        if isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int():
            return ctx.fint(what, 0)
        if isinstance(v, (float, z3.ArithRef)):
            return ctx.freal(what)
        raise Unsupported(f"state changed by the loop: {what}")

    def rule(it2, st, env):
        if st0["n"]:
            raise Unsupported("a second loop")
        st0["n"] = 1
        # initially: nothing read, nothing delivered
        ctx.oblige("nothing is delivered before the first read", z3.BoolVal(not [e for e in events(ctx)[n0:] if e[0] in ("yield", "yields", "release", "release_out", "write")]))
        if ctx.mem[POS] != 0:
            raise Unsupported("reads before the loop")
        # an arbitrary iteration, after p reads of which each delivered a frame
        p = st0["p"] = ctx.fint("p", 0)
        ctx.mem[POS] = p
        for n in assigned_names(st.body, ())[0] if isinstance(assigned_names(st.body, ()), tuple) else assigned_names(st.body, ()):
            k = ("loc", env.fid, n)
            if k in ctx.mem:
                ctx.mem[k] = fresh_like(ctx.mem[k], n)
        attrs = state_writes(st)
        for n in attrs:
            k = ("attr", o.oid, n)
            if k in ctx.mem and n != "output_video":
                ctx.mem[k] = fresh_like(ctx.mem[k], n)
        # the consumer may have written frames
        ctx.setattr(o, "output_video", the_writer() if ctx.choose(2) else None)
        m0, lo = dict(ctx.mem), ctx.idc
        c = it2.truth_sym(it2.eval(st.test, env))
        if c is not True and not ctx.decide(b_(c)):
            it2.exec_block(st.orelse, env)
            return True
        try:
            it2.exec_block(st.body, env)
        except BreakSig:
            return True
        except ContinueSig:
            pass
        for k in changed_keys(m0, ctx.mem, lo):
            if k[0] == "loc" or k == POS or k == ("trace",) or k[0] == "glob" or k[0] == "attr" and k[1] == o.oid and k[2] in attrs:
                continue
            raise Unsupported(f"the iteration changes {k}")
        after(p, False)
        raise Infeasible()

    def after(p, ended):
        ev = [e for e in events(ctx)[n0:]]
        reads = [e for e in ev if e[0] == "read"]
        out = [e for e in ev if e[0] in ("yield", "yields")]
        if any(e[0] == "yields" for e in out):
            raise Unsupported("a sequence delivered at once")
        if ended:
            ctx.oblige("iteration stops at the first failed read", conj(z3.BoolVal(len(reads) >= 1), failed(p + len(reads) - 1)) if reads else z3.BoolVal(False))
        else:
            ctx.oblige("iteration goes on only after a read", z3.BoolVal(len(reads) >= 1))
        good = [p + k for k in range(len(reads))]
        last = good[-1] if good else p
        for q in good[:-1] if ended else good:
            ctx.oblige("iteration does not go past a failed read", z3.Not(failed(q)))
        want = good[:-1] if ended else good
        if len(out) != len(want):
            ctx.oblige("every frame is delivered exactly once" if len(out) < len(want) else "nothing but the frames is delivered", z3.BoolVal(False), f"{len(out)} for {len(want)} reads")
            return
        for e, q in zip(out, want):
            v = e[1]
            if isinstance(v, Opt):
                v = v.val
            if not isinstance(v, Opaque) or v.kind != "frame":
                raise Unsupported(f"delivered value {v!r}")
            ctx.oblige("the frame just read is delivered", v.term == q)
        # order: a frame is delivered before the next is read
        seen = 0
        for e in ev:
            if e[0] == "read":
                seen += 1
        if not ended:
            ctx.oblige("nothing is released while there are frames", z3.BoolVal(not [e for e in ev if e[0] in ("release", "release_out")]))

    it.loop_rules = [rule]
    it.generators = True
    it.depth = 1
    kind, r = call_raises(it, it.get_attr(o, "__iter__"), [])
    if not (kind == "raise") and not (isinstance(r, Opaque) and r.kind == "generator"):
        raise Unsupported("iteration is not a generator")
    ctx.oblige("iterating does not fail", z3.BoolVal(kind == "ok"), str(r))
    if kind != "ok":
        return
    if st0["p"] is None:
        raise Unsupported("no loop over the frames")
    after(st0["p"], True)
    ev = [e[0] for e in events(ctx)[n0:]]
    had = ga(it, o, "output_video")
    ctx.oblige("the source is released", z3.BoolVal("release" in ev))
    rd = [k for k, e in enumerate(ev) if e == "read"]
    ctx.oblige("nothing is read after the release", z3.BoolVal("release" not in ev or not rd or ev.index("release") > rd[-1]))
    ctx.oblige("an open output is released", z3.BoolVal(("release_out" in ev) if isinstance(had, Opaque) else "release_out" not in ev), str(ev))
    ctx.oblige("nothing is written on its own", z3.BoolVal("write" not in ev and "open" not in ev))


# --------------------------------------------------------------------------
LEN, FPS, WID, HEI = z3.Ints("seqLength frameRate imWidth imHeight")
DIR, EXT = z3.Consts("imDir imExt", OS.STR)
VALS = dict(seqLength=lambda: LEN, frameRate=lambda: FPS, imWidth=lambda: WID, imHeight=lambda: HEI, imDir=lambda: OS.pstr(DIR), imExt=lambda: OS.pstr(EXT))


def lookup(n):
    if n not in VALS:
        raise Unsupported(f"information {n}")
    return VALS[n]()


MET = "norfair.metrics"
ICON = {MET + ".InformationFile.__init__": lambda it, bound: it.ctx.setattr(bound["self"], "path", bound["file_path"]),
        MET + ".InformationFile.search": lambda it, bound: lookup(bound["variable_name"])}


def frames(ctx, it):
    s = Src()
    ctx.assume(LEN >= 0)
    s.path, s.save = OS.fresh_str(ctx, "input"), OS.fresh_str(ctx, "save")
    s.make = ctx.choose(2)
    kw = dict(input_path=s.path, save_path=s.save)
    if not s.make:
        kw["make_video"] = False
    if ctx.choose(2):
        kw["information_file"] = Opaque("information", None, {"truth": True, "getattr": lambda it, o, n: M.nat("search", lambda it, variable_name: lookup(variable_name)) if n == "search" else M.N._uns(n)})
    st, s.o = call_raises(it, it.modattr(it.load(MOD), "VideoFromFrames"), [], kw)
    ctx.oblige("a video over a folder can be made", z3.BoolVal(st == "ok"), str(s.o))
    if st != "ok":
        raise Infeasible()
    if ga(it, s.o, "frame_number") != 1:
        raise Unsupported("representation: frame_number")
    return s


@P.unit("VideoFromFrames", covers=[MOD + ".VideoFromFrames." + x for x in ("__init__", "__iter__", "__next__")], extra=models, contracts=ICON)
def from_frames(ctx, it):
    it.depth = 1
    s = frames(ctx, it)
    o = s.o
    ev = [e for e in events(ctx) if e[0] != "makedirs"]
    if s.make:
        ctx.oblige("one output is opened", z3.BoolVal([e[0] for e in ev] == ["open"]), str(ev))
        if [e[0] for e in ev] == ["open"]:
            a = ev[0][1]
            t = lambda *x: OS.sterm(it, x[0] if len(x) == 1 else simp_str(StrExpr(flat_parts(list(x)))))
            got = t(a["filename"])
            if not known(got, ("join", "cat", "piece-1/")):
                raise Unsupported("a path of another form")
            J = OS.fn("join", 2)
            ctx.oblige("the output is <folder name>.mp4 in the folder videos", got == J(J(t(s.save), t("videos")), t(OS.split_at(it, s.path, "/", -1), ".mp4")))
            ctx.oblige("the output has the frame rate and size of the sequence", conj(eq_real(a["fps"], FPS), *[lift(x) == y for x, y in zip(it.iter_seq(a["frameSize"]).concrete(), (WID, HEI))]))
            ctx.oblige("the output is mp4v", z3.BoolVal(a["fourcc"] == tuple("mp4v")))
    else:
        ctx.oblige("no output is opened", z3.BoolVal(not ev), str(ev))
    n0 = len(events(ctx))
    again = it.call(it.models["builtins"].attrs["iter"], [o], {})
    if not (isinstance(again, Obj) and again == o):
        raise Unsupported("the iterator is another object")
    ctx.oblige("iterating starts with the first frame", b_(it.equal(ga(it, o, "frame_number"), 1)))
    f = ctx.fint("frame", 1)
    ctx.assume(f <= LEN + 1)
    ctx.setattr(o, "frame_number", f)
    st, r = call_raises(it, it.models["builtins"].attrs["next"], [o])
    ev = events(ctx)[n0:]
    if st == "raise":
        ctx.oblige("iteration ends after the last frame", f == LEN + 1, str(r))
        ctx.oblige("iteration ends with StopIteration", z3.BoolVal(r.cls is StopIteration), str(r))
        return
    ctx.oblige("iteration yields every frame up to the last", f <= LEN)
    v = ga(it, o, "frame_number")
    if not (isinstance(v, int) or isinstance(v, z3.ArithRef)):
        raise Unsupported("representation: frame_number")
    ctx.oblige("frames come in order", lift(v) == f + 1)
    ctx.oblige("one image is read per frame", z3.BoolVal([e[0] for e in ev] == ["imread"]), str(ev))
    if not (isinstance(r, Opaque) and r.kind == "image"):
        raise Unsupported("frame of another kind")
    if not known(r.term, ("join", "cat", "zfill6", "of_int")):
        raise Unsupported("a path of another form")
    J = OS.fn("join", 2)
    num = OS.fn("zfill6", 1)(OS.OFI(f))
    ctx.oblige("the frame is the image with its six-digit number", r.term == J(J(OS.sterm(it, s.path), DIR), OS.fn("cat", 2)(num, EXT)))
    it.call(it.models["builtins"].attrs["iter"], [o], {})
    ctx.oblige("iterating again starts over", b_(it.equal(ga(it, o, "frame_number"), 1)))


@P.unit("VideoFromFrames.update", covers=[MOD + ".VideoFromFrames.update"], extra=models, contracts=ICON)
def frames_update(ctx, it):
    s = frames(ctx, it)
    if not s.make:
        raise Infeasible()
    f = ctx.fint("frame", 2)
    ctx.assume(f <= LEN + 1)
    ctx.setattr(s.o, "frame_number", f)
    n0 = len(events(ctx))
    fr = frame(ctx.fint("x"))
    it.depth = 1
    st, r = call_raises(it, it.get_attr(s.o, "update"), [fr])
    ctx.oblige("writing does not fail", z3.BoolVal(st == "ok"), str(r))
    ev = events(ctx)[n0:]
    w = [e for e in ev if e[0] == "write"]
    ctx.oblige("the frame is written once", z3.BoolVal(len(w) == 1 and w[0][1] is fr), str(ev))
    rel = [e for e in ev if e[0] == "release_out"]
    ctx.oblige("the output is released exactly after the last frame", z3.BoolVal(bool(rel)) == (f > LEN))
    ctx.oblige("the frame is written before the output is released", z3.BoolVal(not rel or not w or ev.index(w[0]) < ev.index(rel[0])))
