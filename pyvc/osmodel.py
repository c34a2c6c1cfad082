"""Files, paths and progress bars.

Paths are terms of an uninterpreted sort with functions for what os.path
computes (so equal text built the same way is equal, nothing else is assumed);
a file is an object whose writes are events of the trace."""
import z3

from .core import *
from .interp import *
from . import models as M
from .strings import CharStr, SymStr, code

STR = z3.DeclareSort("Str")
FN = {}


def fn(name, n, rng=STR):
    if (name, n) not in FN:
        FN[(name, n)] = z3.Function("str:" + name, *[STR] * n, rng)
    return FN[(name, n)]


OFI, OFR, OFC = z3.Function("str:of_int", z3.IntSort(), STR), z3.Function("str:of_real", z3.RealSort(), STR), z3.Function("str:of_chr", z3.IntSort(), STR)


def sterm(it, v):
    """the term of a string"""
    if isinstance(v, Opt):
        v = it.noopt(v)
    if isinstance(v, str):
        return z3.Const("lit:" + v, STR)
    if isinstance(v, Opaque) and v.term is not None and v.term.sort() == STR:
        return v.term
    if isinstance(v, StrExpr):
        ts = []
        for p in v.parts:
            if isinstance(p, str):
                ts.append(sterm(it, p))
            elif p.fmt:
                raise Unsupported("path made of formatted text")
            elif isinstance(p.val, z3.ArithRef):
                ts.append((OFI if p.val.is_int() else OFR)(p.val))
            else:
                ts.append(sterm(it, p.val))
        r = ts[0]
        for t in ts[1:]:
            r = fn("cat", 2)(r, t)
        return r
    if isinstance(v, CharStr):
        r = None
        for c in v.chars:
            t = OFC(code(c))
            r = t if r is None else fn("cat", 2)(r, t)
        return r
    if isinstance(v, SymStr):
        if not hasattr(v, "sterm"):
            v.sterm = z3.Const(it.ctx.name("text"), STR)
        return v.sterm
    if v is None or isinstance(v, (int, float, bool)) or is_num(v):
        raise PyRaise(TypeError, "expected str, bytes or os.PathLike object")
    raise Unsupported(f"path {v!r}")


def pstr(term):
    return StrExpr([Tok(Opaque("str", term))])


def fresh_str(ctx, base):
    return pstr(z3.Const(ctx.name(base), STR))


def split_at(it, s, sep, k):
    """piece k of s.split(sep), k in {0, -1}"""
    return pstr(fn(f"piece{k}{sep}", 1)(sterm(it, s)))


def str_ops(it, s, name, a, k):
    """methods of a string known only as a term"""
    if name == "split" and len(a) == 1 and isinstance(a[0], str):
        def gi(it, j):
            if j in (0, -1) and not is_sym(j):
                return split_at(it, s, a[0], j)
            raise Unsupported("piece of a split string")

        return Opaque("pieces", None, {"getitem": gi})
    if name in ("partition", "rpartition") and len(a) == 1 and isinstance(a[0], str):
        def gi(it, j):
            if name == "partition" and j == 0:
                return split_at(it, s, a[0], 0)
            if name == "rpartition" and j in (2, -1):
                return split_at(it, s, a[0], -1)
            raise Unsupported("piece of a partitioned string")

        return Opaque("pieces", None, {"getitem": gi})
    if name == "rsplit" and len(a) == 2 and isinstance(a[0], str) and a[1] == 1:
        return Opaque("pieces", None, {"getitem": lambda it, j: split_at(it, s, a[0], -1) if j == -1 else M.N._uns("piece of a split string")})
    if name in ("lower", "upper") and not a:
        return pstr(fn(name, 1)(sterm(it, s)))
    if name == "zfill" and len(a) == 1 and isinstance(a[0], int):
        return pstr(fn(f"zfill{a[0]}", 1)(sterm(it, s)))
    if name in ("startswith", "endswith") and len(a) == 1 and isinstance(a[0], str):
        return fn(name + ":" + a[0], 1, z3.BoolSort())(sterm(it, s))
    return NotImplemented


def os_models(isdir=None, isfile=None):
    """isdir/isfile: predicates over path terms (default: uninterpreted)."""
    nat = M.nat
    B = z3.BoolSort()

    def join(it, a, *bs):
        t = sterm(it, a)
        for b in bs:
            t = fn("join", 2)(t, sterm(it, b))
        return pstr(t)

    tail = lambda it, p: split_at(it, p, "/", -1)
    head = lambda it, p: pstr(fn("head", 1)(sterm(it, p)))
    pred = lambda name: nat("os.path." + name, lambda it, p: fn(name, 1, B)(sterm(it, p)))
    path = ModelModule("os.path", {
        "join": nat("os.path.join", join), "split": nat("os.path.split", lambda it, p: (head(it, p), tail(it, p))),
        "basename": nat("os.path.basename", tail), "dirname": nat("os.path.dirname", head),
        "exists": nat("os.path.exists", lambda it, p: it.ctx.fresh("exists", B)),
        "isdir": pred("isdir"), "isfile": pred("isfile"), "sep": "/",
        "expanduser": nat("os.path.expanduser", lambda it, p: pstr(fn("expanduser", 1)(sterm(it, p)))),
        "splitext": nat("os.path.splitext", lambda it, p: (pstr(fn("stem", 1)(sterm(it, p))), pstr(fn("ext", 1)(sterm(it, p))))),
    })
    osm = ModelModule("os", {"path": path, "sep": "/", "makedirs": nat("os.makedirs", lambda it, p, mode=None, exist_ok=False: it.event(("makedirs", sterm(it, p)))),
                             "environ": Opaque("environ")})
    if not M.BUILTINS:
        M.builtins_module()
    return {"os": osm, "os.path": path, "builtins": ModelModule("builtins", {**M.BUILTINS, "open": Native("open", open_), "print": nat("print", print_)})}


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------
def open_(it, a, k):
    ctx = it.ctx
    args = dict(zip(["file", "mode", "buffering", "encoding"], a))
    args.update(k)
    mode = args.get("mode", "r")
    fid = ctx.newid()
    ctx.eng.used.add("open")
    ctx.mem[("glob", "#closed", fid)] = False
    return Opaque("file", None, {"fid": fid, "mode": mode, "path": sterm(it, args["file"]), "getattr": file_attr, "truth": True})


def is_closed(it, f):
    return it.ctx.mem[("glob", "#closed", f.data["fid"])]


def file_attr(it, f, name):
    ctx = it.ctx
    fid = f.data["fid"]

    def live(it):
        c = is_closed(it, f)
        if c is True or c is not False and it.ctx.decide(b_(c)):
            raise PyRaise(ValueError, "I/O operation on closed file.")

    def writable():
        if not any(x in f.data["mode"] for x in "wax+"):
            raise PyRaise(OSError, "not writable")

    def write(it, s):
        live(it)
        writable()
        if not isinstance(s, (str, StrExpr, CharStr, SymStr)):
            raise PyRaise(TypeError, "write() argument must be str")
        it.event(("write", fid, s))
        return it.ctx.fint("written", 0)

    def writelines(it, v):
        live(it)
        writable()
        seq = it.iter_seq(v)
        for p in seq.parts:
            if isinstance(p, Items):
                for x in p.items:
                    it.event(("write", fid, x))
            else:
                it.event(("writes", fid, SeqVal([p])))

    def close(it, *a):
        it.ctx.mem[("glob", "#closed", fid)] = True

    def read(it):
        live(it)
        return f.data["content"](it)

    fs = {"write": write, "writelines": writelines, "close": close, "__exit__": close, "__enter__": lambda it: f,
          "flush": lambda it: None, "read": read, "fileno": lambda it: 3}
    if name == "closed":
        return is_closed(it, f)
    if name == "name":
        return pstr(f.data["path"])
    if name not in fs:
        raise Unsupported(f"file.{name}")
    return M.nat("file." + name, fs[name])


def print_(it, *a, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        return None
    if sep is None:
        sep = " "
    out = []
    for j, x in enumerate(a):
        if j:
            out.append(sep)
        out.append(M.m_str(it, x))
    out.append("\n" if end is None else end)
    s = simp_str(StrExpr(flat_parts(out)))
    it.call(it.get_attr(file, "write"), [s], {})


def chunks(ctx, trace, fid):
    """What was written to the file: ("one", text) and ("each", part of texts)."""
    out = []

    def ev(e, rep):
        if e[0] == "write" and e[1] == fid:
            return [("one", e[2])]
        if e[0] == "writes" and e[1] == fid:
            return [("each", p) for p in e[2].parts]
        if e[0] in ("write", "writes", "makedirs"):
            return []
        if e[0] == "part":
            return part(e[1])
        raise Unsupported(f"event {e[0]}")

    def part(p):
        if isinstance(p, Items):
            return [c for e in p.items for c in ev(e, None)]
        g = z3.Const(ctx.name("w"), p.dom.sort)
        v = p.val(g)
        assert v[0] == "foreach", v
        cs = [c for e in v[1] for c in ev(e, None)]
        if not cs:
            return []
        if any(c[0] != "one" for c in cs):
            raise Unsupported("nested loops writing to a file")

        def text(i, p=p):
            return simp_str(StrExpr(flat_parts([c[1] for e in p.val(i)[1] for c in ev(e, None)])))

        return [("each", SymPart(p.dom, text))]

    for p in trace.parts:
        if isinstance(p, MarkPart):
            raise Unsupported("trace under construction")
        out += part(p)
    # "".join over a sequence is one text per element
    res = []
    for k, t in out:
        if k == "each":
            res.append((k, t))
            continue
        parts = list(t.parts) if isinstance(t, StrExpr) else [t] if t != "" else []
        j = 0
        while j < len(parts):
            p = parts[j]
            if isinstance(p, Tok) and isinstance(p.val, tuple) and p.val[0] == "join" and not p.fmt:
                _, sep, seq = p.val
                if not isinstance(sep, str) or any(not isinstance(q, SymPart) for q in seq.parts) or len(seq.parts) != 1:
                    raise Unsupported("joined text")
                q = seq.parts[0]
                if sep == "":
                    res.append(("each", q))
                elif j + 1 < len(parts) and isinstance(parts[j + 1], str) and parts[j + 1].startswith(sep):
                    if ctx.decide(lift(ctx.count(q.dom)) > 0):
                        res.append(("each", SymPart(q.dom, lambda i, q=q, sep=sep: simp_str(StrExpr(flat_parts([q.val(i), sep]))))))
                        parts[j + 1] = parts[j + 1][len(sep):]
                elif ctx.decide(lift(ctx.count(q.dom)) > 0):
                    raise Unsupported("joined text")
            elif p != "":
                res.append(("one", p if isinstance(p, str) else StrExpr([p])))
            j += 1
    return res


def same_text(ctx, it, name, got, want):
    """Obligation: the text got is want (list of str and numbers)."""
    parts = list(got.parts) if isinstance(got, StrExpr) else [got] if isinstance(got, str) else None
    if parts is None:
        raise Unsupported(f"text {got!r}")
    w = list(StrExpr([x if isinstance(x, str) else str(x) if z3.is_int_value(x) else Tok(x) for x in want]).parts)
    if any(isinstance(p, Tok) and (p.fmt or not is_sym(p.val)) for p in parts):
        raise Unsupported("formatted text")
    nt = sum(isinstance(p, Tok) for p in parts)
    if nt != sum(isinstance(p, Tok) for p in w):
        raise Unsupported("text of another structure")
    if len(parts) != len(w) or any(isinstance(a, str) != isinstance(b, str) or isinstance(a, str) and a != b for a, b in zip(parts, w)):
        ctx.oblige(name + ": separators", z3.BoolVal(False), f"{got}")
        return
    n = 0
    for a, b in zip(parts, w):
        if isinstance(a, Tok):
            n += 1
            if a.val.sort() != b.val.sort():
                if ctx.prove_quiet(to_real(a.val) != to_real(b.val)):
                    ctx.oblige(f"{name}: field {n}", z3.BoolVal(False), f"{got}")
                raise Unsupported("a number rendered as another type")
            ctx.oblige(f"{name}: field {n}", a.val == b.val)


# --------------------------------------------------------------------------
# rich.progress.track
# --------------------------------------------------------------------------
def track(it, a, k):
    ctx = it.ctx
    seq = it.iter_seq(a[0] if a else k["sequence"])
    tid = ctx.newid()
    key = ("glob", "#track", tid)
    ctx.mem[key] = 0
    n = it.seq_len(seq)

    def nxt(it, o, default=KeyError):
        pos = it.ctx.mem[key]
        more = lift(pos) < lift(n)
        if not it.ctx.decide(more):
            if default is not KeyError:
                return default
            raise PyRaise(StopIteration, "")
        it.ctx.mem[key] = z3.simplify(lift(pos) + 1)
        return lift(pos)

    return Opaque("track", None, {"next": nxt, "poskey": key, "count": n, "truth": True,
                                  "getattr": lambda it, o, name: M.nat("track." + name, lambda it: nxt(it, o)) if name == "__next__" else M.N._uns(f"track.{name}")})


def progress_models():
    m = {}
    from . import ext

    m.update(ext.rich_model())
    m["rich.progress"].attrs["track"] = Native("track", track)
    return m
