"""AST interpreter over the symbolic values of core.py.

The interpreted text is the AST of the functions in /repo, re-read on every
run.  Dropped by the extraction: type annotations, docstrings, decorators
other than property/classmethod/staticmethod (lru_cache and abstractmethod
have no effect on the values computed)."""
import ast
import os
import re as _re

import z3

from .core import *
from . import core, strings
from .strings import CharStr, SymStr

REPO = os.environ.get("VERIF_REPO", "/repo")


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class ModuleVal:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"


class ClassVal:
    def __init__(self, name, module, bases, node):
        self.name, self.module, self.bases, self.node = name, module, bases, node
        self.methods = {}
        self.fields = {}

    @property
    def qual(self):
        return f"{self.module}.{self.name}"

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def native_bases(self):
        out = [b for b in self.bases if not isinstance(b, ClassVal)]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += b.native_bases()
        return out

    def __repr__(self):
        return f"<class {self.qual}>"


class FuncVal:
    def __init__(self, name, module, node, env, cls=None, kind="function", defaults=(), kwdefaults=None):
        self.name, self.module, self.node, self.env, self.cls = name, module, node, env, cls
        self.kind = kind
        self.cached = False
        self.defaults, self.kwdefaults = tuple(defaults), kwdefaults or {}

    @property
    def qual(self):
        return f"{self.module}." + (f"{self.cls.name}." if self.cls else "") + self.name

    def __repr__(self):
        return f"<function {self.qual}>"


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Native:
    """A modelled function: fn(interp, args, kwargs) -> value."""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class ModelModule:
    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class PartialVal:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class SuperVal:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Env:
    """A frame: its locals are ctx.mem[('loc', fid, name)]."""

    def __init__(self, fid, module, parent=None, locals_=None, glob=frozenset(), cls=None):
        self.fid, self.module, self.parent = fid, module, parent
        self.locals, self.glob, self.cls = locals_, glob, cls
        self.nonlocal_ = frozenset()


def assigned_names(body, args=()):
    names, glob, nonl = set(args), set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_ClassDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_ExceptHandler(self, n):
            if n.name:
                names.add(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                names.add(a.asname or a.name)

    v = V()
    for s in body:
        v.visit(s)
    return frozenset(names - glob - nonl), frozenset(glob), frozenset(nonl)


_names_cache = {}
_ast_cache = {}


def module_ast(modname):
    rel = modname.split(".")
    path = os.path.join(REPO, *rel)
    path = os.path.join(path, "__init__.py") if os.path.isdir(path) else path + ".py"
    key = (modname, path)
    if key not in _ast_cache:
        with open(path) as f:
            _ast_cache[key] = ast.parse(f.read(), path)
    return _ast_cache[key], path


BUILTIN_EXC = {n: getattr(__builtins__, n) if hasattr(__builtins__, n) else __builtins__[n]
               for n in ("ValueError TypeError KeyError IndexError AttributeError StopIteration RuntimeError Exception "
                         "ImportError OSError AssertionError ZeroDivisionError NotImplementedError NameError BaseException "
                         "LookupError ArithmeticError UnboundLocalError").split()}


class Interp:
    def __init__(self, ctx, models, contracts=None):
        self.ctx = ctx
        self.models = models  # modname -> ModelModule ; 'builtins' -> dict
        self.contracts = contracts or {}
        self.depth = 0
        self.loading = {}
        self.trace_calls = None
        self.inlined = set()
        self.while_rules = []
        self.loop_rules = []
        self.generators = False  # run the bodies of generators, recording what they yield
        self.for_rules = []

    # -- modules -----------------------------------------------------------
    def load(self, modname):
        if modname in self.loading:
            return self.loading[modname]
        m = ModuleVal(modname)
        self.loading[modname] = m
        tree, path = module_ast(modname)
        env = Env(None, modname)
        self.ctx.mem[("globnames", modname)] = ()
        for st in tree.body:
            try:
                self.exec(st, env)
            except Unsupported as e:
                for n in assigned_names([st])[0]:
                    self.setglob(modname, n, Poison(f"module-level {n}: {e}"))
        return m

    def setglob(self, mod, name, v):
        self.ctx.mem[("glob", mod, name)] = v

    def getmod(self, name, level=0, cur=None):
        if level:
            base = cur.split(".")
            tree, path = module_ast(cur)
            if path.endswith("__init__.py"):
                base = base[: len(base) - level + 1]
            else:
                base = base[: len(base) - level]
            name = ".".join(base + ([name] if name else []))
        if name in self.models:
            return self.models[name]
        top = name.split(".")[0]
        if top == "norfair":
            if name in ("norfair", "norfair.drawing"):
                return ModuleVal(name)  # package: attributes resolved by search
            return self.load(name)
        if top in self.models:
            return self.models[top]
        return ModelModule(name, {})

    PKG = ["norfair.tracker", "norfair.distances", "norfair.filter", "norfair.utils", "norfair.camera_motion",
           "norfair.drawing.color", "norfair.drawing.drawer", "norfair.drawing.draw_points", "norfair.drawing.draw_boxes",
           "norfair.drawing.path", "norfair.drawing.fixed_camera", "norfair.drawing.utils", "norfair.drawing.absolute_grid",
           "norfair.video", "norfair.metrics"]

    def modattr(self, m, name):
        if isinstance(m, ModelModule):
            if name in m.attrs:
                return m.attrs[name]
            sub = self.models.get(m.name + "." + name)
            if sub is not None:
                return sub
            raise Unsupported(f"{m.name}.{name} is not modelled")
        v = self.ctx.mem.get(("glob", m.name, name), KeyError)
        if v is not KeyError:
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if m.name in ("norfair", "norfair.drawing"):
            if m.name == "norfair" and name in ("metrics", "video", "tracker", "utils", "drawing", "distances", "filter", "camera_motion"):
                return self.getmod("norfair." + name)
            for cand in self.PKG:
                try:
                    tree, _ = module_ast(cand)
                except FileNotFoundError:
                    continue
                for st in tree.body:
                    if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == name:
                        return self.modattr(self.load(cand), name)
        raise PyRaise(AttributeError, f"module {m.name} has no attribute {name}")

    # -- names -------------------------------------------------------------
    def lookup(self, name, env):
        e = env
        while e is not None:
            if e.fid is not None and (e.locals is None or name in e.locals):
                v = self.ctx.mem.get(("loc", e.fid, name), KeyError)
                if v is not KeyError:
                    if isinstance(v, Poison):
                        raise CarriedRead(("loc", e.fid, name), v.why)
                    return v
                if e.locals is not None:
                    raise PyRaise(UnboundLocalError, name)
            e = e.parent
        key = ("glob", env.module, name)
        v = self.ctx.mem.get(key, KeyError)
        if v is not KeyError:
            if isinstance(v, Poison):
                raise CarriedRead(key, v.why)
            return v
        b = self.models["builtins"].attrs
        if name in b:
            return b[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if name == "__name__":
            return env.module
        raise PyRaise(NameError, f"{name} (not modelled)") if not hasattr(__builtins__, name) else Unsupported(f"builtin {name}")

    def store(self, name, v, env):
        if env.fid is None or name in env.glob:
            self.setglob(env.module, name, v)
            return
        if env.nonlocal_ and name in env.nonlocal_:
            e = env.parent
            while e is not None:
                if e.fid is not None and e.locals is not None and name in e.locals:
                    self.ctx.mem[("loc", e.fid, name)] = v
                    return
                e = e.parent
        self.ctx.mem[("loc", env.fid, name)] = v

    # -- statements --------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st, env)

    def x_Pass(self, st, env):
        pass

    def x_Global(self, st, env):
        pass

    x_Nonlocal = x_Global

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.eval(st.value, env)
            return
        self.eval(st.value, env)

    def x_Import(self, st, env):
        for a in st.names:
            m = self.getmod(a.name if a.asname else a.name.split(".")[0])
            self.store((a.asname or a.name).split(".")[0], m, env)

    def x_ImportFrom(self, st, env):
        m = self.getmod(st.module or "", st.level, env.module)
        for a in st.names:
            if a.name == "*":
                continue
            try:
                v = self.modattr(m, a.name)
            except PyRaise:
                v = Poison(f"{a.name} from {st.module}")
                if env.fid is not None:
                    raise
            except Unsupported as e:
                v = Poison(str(e))
            self.store(a.asname or a.name, v, env)

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env, st.name)
        v = f
        for d in st.decorator_list:
            nm = ast.unparse(d)
            if nm in ("property", "classmethod", "staticmethod"):
                f.kind = nm
            elif nm.split("(")[0] in ("abstractmethod", "lru_cache", "functools.lru_cache", "abc.abstractmethod", "cache", "functools.cache"):
                f.cached = "cache" in nm
            elif nm.endswith(".setter"):
                f.kind = "setter"
            else:
                raise Unsupported(f"decorator {nm}")
        self.store(st.name, v, env)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncVal(name, env.module, node, env if env.fid is not None else None, env.cls, "function", defaults, kwd)

    def x_ClassDef(self, st, env):
        bases = [self.eval(b, env) for b in st.bases]
        c = ClassVal(st.name, env.module, bases, st)
        fid = self.ctx.newid()
        cenv = Env(fid, env.module, env if env.fid is not None else None, None, frozenset(), c)
        cenv.isclass = True
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                sub = Env(env.fid, env.module, env.parent, env.locals, env.glob, c)
                # defaults are evaluated in the class namespace
                tmp = Env(fid, env.module, env if env.fid is not None else None, None, frozenset(), c)
                f = self.make_func(s, tmp, s.name)
                f.env = env if env.fid is not None else None
                for d in s.decorator_list:
                    nm = ast.unparse(d)
                    if nm in ("property", "classmethod", "staticmethod"):
                        f.kind = nm
                    elif nm.split("(")[0].split(".")[-1] in ("abstractmethod", "lru_cache", "cache"):
                        f.cached = f.cached or "cache" in nm
                    elif nm.endswith(".setter"):
                        f.kind = "setter"
                    else:
                        raise Unsupported(f"decorator {nm}")
                f.cls = c
                if f.kind == "setter":
                    c.methods[("set", s.name)] = f
                else:
                    c.methods[s.name] = f
                self.ctx.mem[("loc", fid, s.name)] = f
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            else:
                self.exec(s, cenv)
        for k in list(self.ctx.mem):
            if k[0] == "loc" and k[1] == fid:
                v = self.ctx.mem.pop(k)
                if not isinstance(v, FuncVal) or v.cls is not c:
                    self.ctx.mem[("cls", c.qual, k[2])] = v
        self.store(st.name, c, env)

    def x_Return(self, st, env):
        raise ReturnSig(None if st.value is None else self.eval(st.value, env))

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.set_item(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                raise Unsupported("starred assignment")
            vals = self.unpack(v, len(t.elts))
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            vals = list(v)
        else:
            seq = self.iter_seq(v)
            c = seq.concrete()
            if c is None:
                ln = self.seq_len(seq)
                if self.truth(self.compare("==", ln, n)):
                    return [self.seq_index(seq, k) for k in range(n)]
                raise PyRaise(ValueError, "unpack")
            vals = list(c)
        if len(vals) != n:
            raise PyRaise(ValueError, f"unpack {len(vals)} into {n}")
        return vals

    def x_AugAssign(self, st, env):
        op = type(st.op).__name__
        t = st.target
        rhs_first = None
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.aug(op, old, self.eval(st.value, env))
            self.store(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.get_attr(o, t.attr)
            new = self.aug(op, old, self.eval(st.value, env))
            self.set_attr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            old = self.get_item(o, ix)
            new = self.aug(op, old, self.eval(st.value, env))
            if isinstance(o, NDArr) and isinstance(new, NDArr) and isinstance(old, NDArr) and new is old and old.sid == o.sid and not old.ro:
                return
            self.set_item(o, ix, new)
        else:
            raise Unsupported("augmented assignment target")

    def aug(self, op, old, rhs):
        if isinstance(old, NDArr):
            return self.np.inplace(self, op, old, rhs)
        if isinstance(old, ListObj) and op == "Add":
            self.list_extend(old, self.iter_seq(rhs))
            return old
        return self.binop(op, old, rhs)

    def x_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(AssertionError, ast.unparse(st.test))

    def x_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(self, "_handling", None)
            if cur:
                raise cur[-1]
            raise PyRaise(RuntimeError, "no active exception")
        v = self.eval(st.exc, env)
        raise self.mkraise(v)

    def mkraise(self, v):
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyRaise(v)
        if isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if isinstance(v, ExcVal):
            return PyRaise(v.cls, str(v.args[:1]), v)
        if isinstance(v, Obj) and isinstance(v.cls, ClassVal):
            nb = [b for b in v.cls.native_bases() if isinstance(b, type) and issubclass(b, BaseException)]
            return PyRaise(nb[0] if nb else Exception, v.cls.name, v)
        raise Unsupported("raise of a non-exception")

    def x_Try(self, st, env):
        def fin():
            self.exec_block(st.finalbody, env)

        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None:
                        match = True
                    else:
                        tv = self.eval(h.type, env)
                        tv = tv if isinstance(tv, tuple) else (tv,)
                        match = any(isinstance(x, type) and issubclass(e.cls, x) for x in tv)
                    if match:
                        if h.name:
                            self.store(h.name, e.value if e.value is not None else ExcVal(e.cls, (e.msg,)), env)
                        hs = self.__dict__.setdefault("_handling", [])
                        hs.append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            hs.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, BreakSig, ContinueSig, ReturnSig):
            fin()
            raise
        fin()

    def x_With(self, st, env):
        exits = []
        for it in st.items:
            m = self.eval(it.context_expr, env)
            v = m
            if isinstance(m, (Obj, Opaque)):
                try:
                    v = self.call(self.get_attr(m, "__enter__"), [], {})
                    exits.append(m)
                except Unsupported:
                    raise
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)

        def done():
            for m in reversed(exits):
                self.call(self.get_attr(m, "__exit__"), [None, None, None], {})

        try:
            self.exec_block(st.body, env)
        except (PyRaise, BreakSig, ContinueSig, ReturnSig):
            done()
            raise
        done()

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.ctx.mem.pop(("loc", env.fid, t.id), None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if not isinstance(o, Obj):
                    raise Unsupported("del attribute")
                self.ctx.mem.pop(("attr", o.oid, t.attr), None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                self.del_item(o, self.eval_index(t.slice, env))
            else:
                raise Unsupported("del")

    def x_While(self, st, env):
        self.while_loop(st, env)

    def while_loop(self, st, env):
        for rule in self.loop_rules:
            if rule(self, st, env):
                return
        n = 0
        while True:
            c = self.eval(st.test, env)
            tv = self.truth_sym(c)
            if isinstance(tv, bool):
                if not tv:
                    break
            else:
                for rule in self.while_rules:
                    if rule(self, st, env, tv):
                        return
                raise Unsupported("while loop with a symbolic condition and no invariant")
            n += 1
            if n > 300:
                raise Unsupported("while loop: concrete unrolling limit")
            try:
                self.exec_block(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(st.orelse, env)

    def x_For(self, st, env):
        it = self.eval(st.iter, env)
        seq = self.iter_seq(it)

        def body(v):
            self.assign(st.target, v, env)
            try:
                self.exec_block(st.body, env)
            except ContinueSig:
                pass

        outer, self.for_env = self.for_env, env
        try:
            self.loop(seq, body, st)
        except BreakSig:
            return
        finally:
            self.for_env = outer
        self.exec_block(st.orelse, env)

    for_env = None

    def loop(self, seq, body, node=None):
        from . import loops

        for part in seq.parts:
            if isinstance(part, Items):
                for v in part.items:
                    body(v)
            elif isinstance(part, SymPart):
                for rule in self.for_rules:
                    if rule(self, part, body, node):
                        break
                else:
                    loops.bulk(self, part, body, node)
            else:
                raise Unsupported("iteration over a list under construction")

    # -- expressions -------------------------------------------------------
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        return self.get_attr(self.eval(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.get_item(o, self.eval_index(e.slice, env))

    def eval_index(self, s, env):
        return self.eval(s, env)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return slice(f(e.lower), f(e.upper), f(e.step))

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.iter_seq(self.eval(x.value, env)).concrete()
                if c is None:
                    raise Unsupported("starred symbolic")
                out.extend(c)
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        parts = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                parts.extend(self.iter_seq(self.eval(x.value, env)).parts)
            else:
                parts.append(Items([self.eval(x, env)]))
        return self.ctx.new_list(SeqVal(parts))

    def e_Set(self, e, env):
        return self.make_set(SeqVal([Items([self.eval(x, env) for x in e.elts])]))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            d[self.eval(k, env)] = self.eval(v, env)
        return self.new_dict(d)

    def new_dict(self, d, default=None):
        o = DictObj(self.ctx.newid())
        self.ctx.mem[("dict", o.did)] = (dict(d), default)
        return o

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.eval(e.left, env), self.eval(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            t = self.truth_sym(v)
            return (not t) if isinstance(t, bool) else neg(t)
        v = self.noopt(v)
        if isinstance(v, NDArr):
            return self.np.unary(self, op, v)
        if op == "USub":
            if isinstance(v, z3.BoolRef):
                v = to_int(v)
            return -v
        if op == "UAdd":
            return v
        if op == "Invert":
            if is_bool_term(v):
                return neg(v)  # numpy bool
            if not is_sym(v):
                return ~v
        raise Unsupported(f"unary {op}")

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        acc = None
        vals = e.values
        # keep pure boolean conjunctions symbolic when later operands are safe
        cur = self.eval(vals[0], env)
        for nxt in vals[1:]:
            t = self.truth_sym(cur)
            if isinstance(t, bool):
                if t != isand:
                    return cur
                cur = self.eval(nxt, env)
                continue
            if is_bool_term(cur) and self.is_pure(nxt):
                r = self.try_pure(nxt, env)
                if r is not None:
                    cur = conj(t, b_(r)) if isand else disj(t, b_(r))
                    continue
            d = self.ctx.decide(t)
            if d != isand:
                return cur if not is_bool_term(cur) else d
            cur = self.eval(nxt, env)
        return cur

    def is_pure(self, n):
        for x in ast.walk(n):
            if isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield, ast.Await, ast.Subscript, ast.ListComp, ast.GeneratorExp,
                              ast.SetComp, ast.DictComp)):
                return False
        return True

    def try_pure(self, n, env):
        """Evaluate a side-effect free operand without forking; None if that
        is not possible (it may raise or is not boolean)."""
        ctx = self.ctx
        snap = (ctx.pos, len(ctx.dec))
        if ctx.pos != len(ctx.dec) and not getattr(self, "_pure_replay", True):
            return None
        npos = ctx.pos
        # probing must not record decisions: disallow them
        old = ctx.decide

        def nodecide(c, why=""):
            if isinstance(c, bool):
                return c
            s = z3.simplify(c)
            if z3.is_true(s):
                return True
            if z3.is_false(s):
                return False
            raise _NoFork()

        ctx.decide = nodecide
        try:
            v = self.eval(n, env)
        except (_NoFork, PyRaise, Unsupported):
            return None
        finally:
            del ctx.decide
        if isinstance(v, bool) or is_bool_term(v):
            return v
        return None

    def e_IfExp(self, e, env):
        t = self.truth_sym(self.eval(e.test, env))
        if not isinstance(t, bool) and self.is_pure(e.body) and self.is_pure(e.orelse):
            try:
                a = self.pure_any(e.body, env)
                b = self.pure_any(e.orelse, env)
                if is_num(a) and is_num(b) or (a is None or b is None) and (is_num(a) or is_num(b)):
                    return merge_value(self.ctx, t, a, b)
            except (_NoFork, PyRaise, Unsupported):
                pass
        d = t if isinstance(t, bool) else self.ctx.decide(t)
        return self.eval(e.body if d else e.orelse, env)

    def pure_any(self, n, env):
        ctx = self.ctx

        def nodecide(c, why=""):
            if isinstance(c, bool):
                return c
            raise _NoFork()

        ctx.decide = nodecide
        try:
            return self.eval(n, env)
        finally:
            del ctx.decide

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(CMP[type(op).__name__], left, right)
            if isinstance(c, NDArr):
                if len(e.ops) > 1:
                    raise Unsupported("chained array comparison")
                return c
            if acc is None:
                acc = c
            else:
                if isinstance(acc, bool):
                    acc = c if acc else False
                elif isinstance(c, bool):
                    acc = acc if c else False
                else:
                    acc = conj(acc, c)
            if acc is False:
                return False
            left = right
        return acc

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            sv = self.lookup_self(env)
            return SuperVal(env_cls(env), sv)
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                c = self.iter_seq(v).concrete()
                if c is None:
                    args.append(StarVal(v))
                else:
                    args.extend(c)
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if isinstance(d, DictObj):
                    dd, _ = self.ctx.mem[("dict", d.did)]
                    kw.update(dd)
                else:
                    raise Unsupported("**kwargs")
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, node=e, env=env)

    def lookup_self(self, env):
        e = env
        while e is not None:
            if getattr(e, "self_name", None):
                return self.ctx.mem[("loc", e.fid, e.self_name)]
            e = e.parent
        raise Unsupported("super() outside a method")

    def e_Lambda(self, e, env):
        return self.make_func(e, env, "<lambda>")

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ""
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                    if not isinstance(spec, str):
                        raise Unsupported("symbolic format spec")
                if v.conversion == 114:
                    spec = "!r" + spec
                parts.append(self.fmt(x, spec))
        out = StrExpr(flat_parts(parts))
        return simp_str(out)

    def fmt(self, x, spec=""):
        if isinstance(x, str) and not spec:
            return x
        if isinstance(x, StrExpr) and not spec:
            return x
        if isinstance(x, (int, float, bool, type(None))) and not is_sym(x):
            try:
                return format(x, spec) if not spec.startswith("!r") else repr(x)
            except Exception as ex:
                raise PyRaise(type(ex), str(ex))
        return StrExpr([Tok(x, spec)])

    def e_FormattedValue(self, e, env):
        raise Unsupported("formatted value")

    def e_ListComp(self, e, env):
        return self.ctx.new_list(self.comp(e, env))

    def e_GeneratorExp(self, e, env):
        return GenVal(self.comp(e, env))

    def e_SetComp(self, e, env):
        return self.make_set(self.comp(e, env))

    def e_DictComp(self, e, env):
        class Pair:
            pass

        pe = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        seq = self.comp(ast.ListComp(elt=pe, generators=e.generators), env)
        c = seq.concrete()
        if c is None:
            raise Unsupported("symbolic dict comprehension")
        return self.new_dict({k: v for k, v in c})

    def comp(self, e, env):
        from . import loops

        names = set()
        for g in e.generators:
            names |= assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])[0]
        cenv = Env(self.ctx.newid(), env.module, env, frozenset(names), env.glob, env.cls)
        return self._comp(e, 0, cenv, env)

    def _comp(self, e, k, cenv, env):
        from . import loops

        g = e.generators[k]
        it = self.eval(g.iter, env if k == 0 else cenv)
        seq = self.iter_seq(it)

        def one(v):
            self.assign(g.target, v, cenv)
            for c in g.ifs:
                if not self.truth(self.eval(c, cenv)):
                    return loops.SKIP
            if k + 1 < len(e.generators):
                return self._comp(e, k + 1, cenv, env)
            return SeqVal([Items([self.eval(e.elt, cenv)])])

        parts = []
        for p in seq.parts:
            if isinstance(p, Items):
                for v in p.items:
                    r = one(v)
                    if r is not loops.SKIP:
                        parts.extend(r.parts)
            elif isinstance(p, SymPart):
                try:
                    parts.extend(loops.comp_bulk(self, p, one, cenv.fid))
                except loops.CompEffects:
                    parts.extend(self.comp_loop(p, one))
            else:
                raise Unsupported("comprehension over a list under construction")
        return SeqVal(parts)

    def comp_loop(self, part, one):
        """[e for x in xs] with effects: acc = []; for x in xs: acc.append(e)"""
        from . import loops

        acc = self.ctx.new_list(SeqVal())

        def body(v):
            r = one(v)
            if r is loops.SKIP:
                return
            c = r.concrete()
            if c is None:
                raise Unsupported("nested symbolic comprehension with side effects")
            for x in c:
                self.call(self.get_attr(acc, "append"), [x], {})

        self.loop(SeqVal([part]), body)
        return self.ctx.seq(acc).parts

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.store(e.target.id, v, env)
        return v

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        self.event(("yield", v))
        return None

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        if isinstance(v, Opaque) and v.kind == "generator":
            return None  # its yields are recorded
        self.event(("yields", self.iter_seq(v)))
        return None

    # -- events ------------------------------------------------------------
    def event(self, ev):
        key = ("trace",)
        s = self.ctx.mem.get(key, SeqVal())
        self.ctx.mem[key] = SeqVal(s.parts + (Items([ev]),))

    # -- calls -------------------------------------------------------------
    def call(self, f, args, kw, node=None, env=None):
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, node, env)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, PartialVal):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, tuple(args))
        if isinstance(f, (Obj, FrozenObj)):
            m = self.find_method(f.cls, "__call__")
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if isinstance(f, Opaque) and "call" in f.data:
            return f.data["call"](self, args, kw)
        raise Unsupported(f"call of {f!r}")

    def bind_args(self, f, args, kw):
        a = f.node.args
        if any(isinstance(x, StarVal) for x in args):
            raise Unsupported("symbolic star argument")
        pos = [x.arg for x in a.posonlyargs + a.args]
        out, kw = {}, dict(kw)
        for n, v in zip(pos, args):
            out[n] = v
        extra = list(args[len(pos):])
        if extra:
            if a.vararg is None:
                raise PyRaise(TypeError, f"{f.name}: too many arguments")
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(extra)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    raise PyRaise(TypeError, f"{f.name}: duplicate argument {n}")
                out[n] = kw.pop(n)
        if kw and a.kwarg is None:
            raise PyRaise(TypeError, f"{f.name}: unexpected arguments {list(kw)}")
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new_dict(kw)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise(TypeError, f"{f.name}: missing argument {n}")
        return out

    def call_func(self, f, args, kw):
        if f.kind == "classmethod" and (not args or not isinstance(args[0], ClassVal)):
            raise Unsupported("classmethod without class")
        con = self.contracts.get(f.qual)
        bound = self.bind_args(f, args, kw)
        if con is not None and self.depth > 0:
            r = con(self, bound)
            if r is not NotImplemented:
                return r
        self.inlined.add(f.qual)
        return self.run_func(f, bound)

    def run_func(self, f, bound):
        if self.depth > 60:
            raise Unsupported("recursion depth")
        a = f.node.args
        key = id(f.node)
        if key not in _names_cache:
            body = f.node.body if isinstance(f.node.body, list) else []
            argn = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            if a.vararg:
                argn.append(a.vararg.arg)
            if a.kwarg:
                argn.append(a.kwarg.arg)
            _names_cache[key] = (assigned_names(body, argn), any(
                isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in body for x in ast.walk(s)), any(
                isinstance(x, (ast.Yield, ast.YieldFrom)) for s in body for x in ast.walk(s)), f.node)
        (locs, glob, nonl), hasfn, isgen, _ = _names_cache[key]
        if isgen and not self.generators:
            raise Unsupported("generator function")
        fid = self.ctx.newid()
        env = Env(fid, f.module, f.env, locs, glob, f.cls)
        env.nonlocal_ = nonl
        env.self_name = (a.posonlyargs + a.args)[0].arg if f.cls and (a.posonlyargs + a.args) else None
        for n, v in bound.items():
            self.ctx.mem[("loc", fid, n)] = v
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, env)
            finally:
                self.depth -= 1
        self.depth += 1
        try:
            self.exec_block(f.node.body, env)
            return Opaque("generator") if isgen else None
        except ReturnSig as r:
            if isgen:
                return Opaque("generator")
            if f.cached and r.value is not None:
                raise Unsupported("value returned by a cached function")
            return r.value
        finally:
            self.depth -= 1
            if not hasfn:
                for n in locs:
                    self.ctx.mem.pop(("loc", fid, n), None)

    def find_method(self, cls, name):
        if not isinstance(cls, ClassVal):
            return None
        for c in cls.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def instantiate(self, cls, args, kw):
        con = self.contracts.get(cls.qual)
        if con is not None and self.depth > 0:
            r = con(self, args, kw)
            if r is not NotImplemented:
                return r
        o = self.ctx.new_obj(cls)
        init = self.find_method(cls, "__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif args or kw:
            nb = cls.native_bases()
            if any(isinstance(b, type) and issubclass(b, BaseException) for b in nb):
                self.ctx.setattr(o, "args", tuple(args))
            else:
                raise PyRaise(TypeError, f"{cls.name}() takes no arguments")
        return o

    # -- attributes --------------------------------------------------------
    def get_attr(self, o, name):
        ctx = self.ctx
        if isinstance(o, (Obj, RefObj, FrozenObj)):
            if isinstance(o.cls, ClassVal):
                m = self.find_method(o.cls, name)
                if m is not None and m.kind == "property":
                    return self.call_func(m, [o], {})
            else:
                m = None
            if isinstance(o, Obj):
                v = ctx.mem.get(("attr", o.oid, name), KeyError)
                if v is not KeyError:
                    if isinstance(v, Poison):
                        raise CarriedRead(("attr", o.oid, name), v.why)
                    return v
            elif isinstance(o, FrozenObj):
                if name in o.names:
                    return o.attr(name)
            else:
                if ("field", clsname(o.cls), name) in ctx.mem:
                    v = ctx.fget(o, name)
                    if isinstance(v, Poison):
                        raise Unsupported(v.why)
                    return v
            if m is not None:
                if m.kind == "classmethod":
                    return Bound(m, o.cls)
                if m.kind == "staticmethod":
                    return m
                return Bound(m, o)
            if isinstance(o.cls, ClassVal):
                v = self.class_attr(o.cls, name)
                if v is not KeyError:
                    return v
            if isinstance(o.cls, ModelClass):
                r = o.cls.getattr(self, o, name)
                if r is not NotImplemented:
                    return r
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if isinstance(o, RefObj):
                raise Unsupported(f"field {name} of a symbolic {clsname(o.cls)}")
            raise PyRaise(AttributeError, f"{o!r} has no attribute {name}")
        if isinstance(o, ClassVal):
            m = self.find_method(o, name)
            if m is not None:
                if m.kind == "classmethod":
                    return Bound(m, o)
                return m
            v = self.class_attr(o, name)
            if v is not KeyError:
                return v
            if name == "__name__":
                return o.name
            raise PyRaise(AttributeError, f"{o} has no attribute {name}")
        if isinstance(o, (ModuleVal, ModelModule)):
            return self.modattr(o, name)
        if isinstance(o, SuperVal):
            mro = o.self_.cls.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.methods:
                    m = c.methods[name]
                    return self.call_func(m, [o.self_], {}) if m.kind == "property" else Bound(m, o.self_)
            if name == "__init__":
                return Native("object.__init__", lambda it, a, k: None)
            raise PyRaise(AttributeError, name)
        if isinstance(o, NDArr):
            return self.np.attr(self, o, name)
        if o is None:
            raise PyRaise(AttributeError, f"None has no attribute {name}")
        if isinstance(o, Opt):
            if ctx.decide(o.none):
                raise PyRaise(AttributeError, f"None has no attribute {name}")
            return self.get_attr(o.val, name)
        return self.models["#attr"](self, o, name)

    def class_attr(self, cls, name):
        for c in cls.mro():
            v = self.ctx.mem.get(("cls", c.qual, name), KeyError)
            if v is not KeyError:
                if isinstance(v, Poison):
                    raise CarriedRead(("cls", c.qual, name), v.why)
                return v
        return KeyError

    def set_attr(self, o, name, v):
        ctx = self.ctx
        if isinstance(o, Opt):
            if ctx.decide(o.none):
                raise PyRaise(AttributeError, "None")
            o = o.val
        if isinstance(o, Obj):
            if isinstance(o.cls, ClassVal):
                for c in o.cls.mro():
                    if ("set", name) in c.methods:
                        self.call_func(c.methods[("set", name)], [o, v], {})
                        return
                m = self.find_method(o.cls, name)
                if m is not None and m.kind == "property":
                    raise PyRaise(AttributeError, f"can't set {name}")
            elif isinstance(o.cls, ModelClass):
                r = o.cls.setattr(self, o, name, v)
                if r is not NotImplemented:
                    return
            ctx.setattr(o, name, v)
        elif isinstance(o, RefObj):
            if ("field", clsname(o.cls), name) not in ctx.mem:
                raise Unsupported(f"write of undeclared field {name} of {clsname(o.cls)}")
            ctx.fset(o, name, v)
        elif isinstance(o, ClassVal):
            ctx.mem[("cls", o.qual, name)] = v
        elif isinstance(o, ModuleVal):
            self.setglob(o.name, name, v)
        elif isinstance(o, NDArr) and name == "shape":
            if not self.np.set_shape(self, o, v):
                raise Unsupported("assignment to array shape")
        elif o is None:
            raise PyRaise(AttributeError, f"None has no attribute {name}")
        elif isinstance(o, Opaque):
            raise Unsupported(f"attribute write on {o}")
        else:
            raise Unsupported(f"attribute write on {type(o).__name__}")

    # -- truth, comparison, arithmetic ------------------------------------
    def truth_sym(self, v):
        """Truth value as bool or z3 Bool (no fork)."""
        if isinstance(v, bool):
            return v
        if is_bool_term(v):
            s = z3.simplify(v)
            return True if z3.is_true(s) else False if z3.is_false(s) else v
        if v is None:
            return False
        if isinstance(v, z3.ArithRef):
            return self.truth_sym(v != 0)
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, Opt):
            t = self.truth_sym(v.val)
            return conj(neg(b_(v.none)), b_(t))
        if isinstance(v, (ListObj, FrozenList, GenVal, TupleLike)):
            n = self.seq_len(self.iter_seq(v))
            return self.truth_sym(n > 0 if is_sym(n) else bool(n))
        if isinstance(v, DictObj):
            n = self.models["#len"](self, v)
            return self.truth_sym(n > 0 if is_sym(n) else bool(n))
        if isinstance(v, StrExpr):
            return self.models["#strtruth"](self, v)
        if isinstance(v, CharStr):
            return bool(v.chars)
        if isinstance(v, SymStr):
            return self.truth_sym(v.n > 0)
        if isinstance(v, NDArr):
            return self.np.truth(self, v)
        if isinstance(v, (Obj, RefObj, FrozenObj)):
            if isinstance(v.cls, ClassVal):
                for mname in ("__bool__", "__len__"):
                    m = self.find_method(v.cls, mname)
                    if m is not None:
                        return self.truth_sym(self.call_func(m, [v], {}))
            return True
        if isinstance(v, (FuncVal, ClassVal, Native, Bound, PartialVal, ModuleVal)):
            return True
        if isinstance(v, Opaque):
            if "truth" in v.data:
                return v.data["truth"]
            raise Unsupported(f"truth value of {v}")
        if isinstance(v, SetVal):
            raise Unsupported("truth of a symbolic set")
        if isinstance(v, (set, frozenset, dict, list)):
            return bool(v)
        if isinstance(v, AbsIdx):
            raise Unsupported("truth value of an abstract index")
        return bool(v)

    def truth(self, v):
        t = self.truth_sym(v)
        return t if isinstance(t, bool) else self.ctx.decide(t)

    def noopt(self, v):
        if isinstance(v, Opt):
            if self.ctx.decide(v.none):
                raise PyRaise(TypeError, "unsupported operand None")
            return v.val
        return v

    def compare(self, op, a, b):
        if op in ("is", "is not"):
            r = self.identical(a, b)
            return r if op == "is" else ((not r) if isinstance(r, bool) else neg(r))
        if op in ("in", "not in"):
            r = self.contains(b, a)
            return r if op == "in" else ((not r) if isinstance(r, bool) else neg(r))
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            if (a is None or b is None) and op in ("==", "!="):
                raise Unsupported("array compared with None")
            return self.np.compare(self, op, a, b)
        if op in ("==", "!="):
            r = self.equal(a, b)
            return r if op == "==" else ((not r) if isinstance(r, bool) else neg(r))
        a, b = self.noopt(a), self.noopt(b)
        if isinstance(a, AbsIdx) or isinstance(b, AbsIdx):
            raise Unsupported("ordering of abstract indices")
        if a is None or b is None:
            raise PyRaise(TypeError, f"'{op}' with None")
        if isinstance(a, (str,)) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (str, StrExpr)) or isinstance(b, (str, StrExpr)):
            if is_num(a) or is_num(b):
                raise PyRaise(TypeError, f"'{op}' between str and number")
            raise Unsupported("string ordering")
        if not is_sym(a) and not is_sym(b) and is_num(a) and is_num(b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported(f"ordering of {a} and {b}")
        x, y = num_pair(a, b)
        r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        return simp_bool(r)

    def identical(self, a, b):
        if a is None or b is None:
            x = a if b is None else b
            if x is None:
                return True
            if isinstance(x, Opt):
                return simp_bool(b_(x.none))
            if isinstance(x, Opaque) and "isnone" in x.data:
                return x.data["isnone"]
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return x is y
            if is_bool_term(y):
                return simp_bool(y if x else neg(y))
            return False
        if isinstance(a, (Obj, ListObj, DictObj)) or isinstance(b, (Obj, ListObj, DictObj)):
            return type(a) is type(b) and a == b
        if isinstance(a, RefObj) and isinstance(b, RefObj):
            return simp_bool(a.ref == b.ref)
        if isinstance(a, NDArr) and isinstance(b, NDArr):
            return a is b
        if isinstance(a, Opt) or isinstance(b, Opt):
            raise Unsupported("identity of optional values")
        if is_sym(a) or is_sym(b):
            raise Unsupported("identity of scalars")
        return a is b or (type(a) is type(b) and a == b and isinstance(a, (int, str, tuple, float)))

    def equal(self, a, b):
        if a is b:
            return True
        if isinstance(a, Opt) or isinstance(b, Opt):
            an = b_(a.none) if isinstance(a, Opt) else z3.BoolVal(a is None)
            bn = b_(b.none) if isinstance(b, Opt) else z3.BoolVal(b is None)
            av = a.val if isinstance(a, Opt) else a
            bv = b.val if isinstance(b, Opt) else b
            if av is None:
                return simp_bool(bn)
            if bv is None:
                return simp_bool(an)
            return simp_bool(disj(conj(an, bn), conj(neg(an), neg(bn), b_(self.equal(av, bv)))))
        if a is None or b is None:
            x = a if b is None else b
            if isinstance(x, Opaque) and "isnone" in x.data:
                return x.data["isnone"]
            return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (TupleLike, SetVal, DictObj, GenVal, FMap, NDArr)) and isinstance(y, (TupleLike, SetVal, DictObj, GenVal, FMap, NDArr, tuple, ListObj, Opaque)):
                raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return simp_bool(conj(*[b_(self.equal(x, y)) for x, y in zip(a, b)]))
        if isinstance(a, (str, StrExpr)) and isinstance(b, (str, StrExpr)):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return self.models["#streq"](self, a, b)
        if isinstance(a, (CharStr, SymStr)) or isinstance(b, (CharStr, SymStr)):
            x, y = (a, b) if isinstance(a, (CharStr, SymStr)) else (b, a)
            if isinstance(y, (str, CharStr, SymStr)):
                r = strings.eq(x, y)
                return r if isinstance(r, bool) else simp_bool(r)
            if isinstance(y, StrExpr) or isinstance(y, Opaque):
                raise Unsupported("equality of symbolic strings")
            return False
        if isinstance(a, AbsIdx) and isinstance(b, AbsIdx):
            if not self.ctx.same_dom(a.dom, b.dom):
                raise Unsupported("positions in different sequences")
            return simp_bool(a.term == b.term)
        na = is_num(a) or isinstance(a, (bool, z3.BoolRef))
        nb_ = is_num(b) or isinstance(b, (bool, z3.BoolRef))
        if na and nb_:
            if not is_sym(a) and not is_sym(b):
                return a == b
            if is_bool_term(a) and is_bool_term(b):
                return simp_bool(a == b)
            if isinstance(a, bool) and is_bool_term(b):
                return simp_bool(b if a else neg(b))
            if isinstance(b, bool) and is_bool_term(a):
                return simp_bool(a if b else neg(a))
            x, y = num_pair(a, b)
            return simp_bool(x == y)
        if isinstance(a, RefObj) and isinstance(b, RefObj):
            if a.cls is not b.cls:
                return False
            return simp_bool(a.ref == b.ref)
        if isinstance(a, Obj) and isinstance(b, Obj):
            m = self.find_method(a.cls, "__eq__") if isinstance(a.cls, ClassVal) else None
            if m is not None:
                return self.truth_sym(self.call_func(m, [a, b], {}))
            return a == b
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            if a.term is not None and b.term is not None and a.term.sort() == b.term.sort():
                return simp_bool(a.term == b.term)
            raise Unsupported(f"equality of {a} and {b}")
        if is_sym(a) and is_sym(b) and a.sort() == b.sort():
            return simp_bool(a == b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            o, x = (a, b) if isinstance(a, Opaque) else (b, a)
            if "eq" in o.data:
                return o.data["eq"](self, x)
            raise Unsupported(f"equality of {o} and {x!r}")
        if isinstance(a, (ListObj, FrozenList)) and isinstance(b, (ListObj, FrozenList)):
            sa, sb = self.iter_seq(a).concrete(), self.iter_seq(b).concrete()
            if sa is None or sb is None:
                raise Unsupported("equality of symbolic lists")
            return self.equal(tuple(sa), tuple(sb))
        if type(a) is not type(b):
            kinds = (str, StrExpr, tuple, ListObj, Obj, RefObj, DictObj, FuncVal, ClassVal)
            if isinstance(a, kinds) or isinstance(b, kinds):
                return False
        return a == b

    def contains(self, c, x):
        return self.models["#contains"](self, c, x)

    def binop(self, op, a, b):
        if isinstance(a, NDArr) or isinstance(b, NDArr):
            return self.np.binop(self, op, a, b)
        a, b = self.noopt(a), self.noopt(b)
        return self.models["#binop"](self, op, a, b)

    # delegated to models
    def iter_seq(self, v):
        return self.models["#iter"](self, v)

    def seq_len(self, s):
        n = 0
        for p in s.parts:
            if isinstance(p, Items):
                k = len(p.items)
            elif isinstance(p, SymPart):
                k = self.ctx.count(p.dom)
            else:
                raise CarriedRead(p.tag, "length of a list under construction")
            n = k if (not is_sym(n) and n == 0) else n + k
        return n

    def seq_index(self, s, i):
        return self.models["#seqindex"](self, s, i)

    def get_item(self, o, ix):
        return self.models["#getitem"](self, o, ix)

    def set_item(self, o, ix, v):
        return self.models["#setitem"](self, o, ix, v)

    def del_item(self, o, ix):
        return self.models["#delitem"](self, o, ix)

    def make_set(self, seq):
        return self.models["#set"](self, seq)

    def list_extend(self, l, seq):
        cur = self.ctx.seq(l)
        self.ctx.mem[("list", l.lid)] = SeqVal(cur.parts + seq.parts)


class _NoFork(Exception):
    pass


class CarriedRead(Unsupported):
    """A location modified by the enclosing loop is read before it is
    written in the iteration."""

    def __init__(self, key, why):
        super().__init__(f"loop-carried read of {key}: {why}")
        self.key = key


class ExcVal:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class GenVal:
    def __init__(self, seq):
        self.seq = seq


class StarVal:
    def __init__(self, v):
        self.v = v


class ModelClass:
    """A class of an external library, given by its contract."""

    name = "?"

    def getattr(self, it, o, name):
        return NotImplemented

    def setattr(self, it, o, name, v):
        return NotImplemented


def env_cls(env):
    e = env
    while e is not None:
        if e.cls is not None:
            return e.cls
        e = e.parent
    raise Unsupported("super() outside a class")


CMP = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not",
       "In": "in", "NotIn": "not in"}


def num_pair(a, b):
    def isint(v):
        return isinstance(v, (int, z3.BoolRef)) or (isinstance(v, z3.ArithRef) and v.is_int())

    if isint(a) and isint(b):
        return to_int(a), to_int(b)
    return to_real(a), to_real(b)


def simp_bool(r):
    if isinstance(r, bool):
        return r
    s = z3.simplify(r)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return r


def flat_parts(parts):
    out = []
    for p in parts:
        if isinstance(p, StrExpr):
            out.extend(p.parts)
        else:
            out.append(p)
    return out


def simp_str(s):
    if isinstance(s, StrExpr):
        if not s.parts:
            return ""
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
    return s
