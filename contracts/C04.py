"""C04: greedy matching.  norfair.tracker.Tracker.match_dets_and_objs, by a
loop invariant.

Invariant, with ghost predicates UR, UC (rows / columns already matched) and
ghost inverses kr, kc (position in the result of a matched row / column):
  the working matrix is +inf where UR or UC holds and the input elsewhere;
  UR(i) <=> i is in the list of candidates, at position kr(i) only; UC alike;
  every chosen pair is below the threshold;
  a pair of a matched row or column is no closer than the chosen pair of that
  row, or than the chosen pair of that column;
  the current minimum is the minimum of the working matrix."""
import ast

from contracts.tracked import *
from pyvc.interp import *
from pyvc.loops import changed_keys, same_val

P = Prop("C04", assumptions=["distances contain no NaN (Tracker rejects those, C05) and no -infinity, the threshold is at most +infinity",
                             "an injective sequence of rows of a finite matrix is finite (termination: every iteration takes a row not taken before)"])


def src(it):
    return it.find_method(cls(it, "Tracker"), "match_dets_and_objs").node


FN = TR + ".Tracker.match_dets_and_objs"
z1 = z3.IntVal(1)


def inv_terms(s, st):
    """st: m (matrix), K, L1, L2 (lists as functions), UR, UC, kr, kc, cur"""
    i, j, k = z3.Int("#i"), z3.Int("#j"), z3.Int("#k")
    rng = z3.And(i >= 0, i < s.n, j >= 0, j < s.m)
    D, thr = s.D, s.thr
    out = {}
    out["matched rows and columns are blanked out, the rest is the input"] = ([i, j], z3.Implies(rng,
        st.m(i, j) == z3.If(z3.Or(st.UR(i), st.UC(j)), INF, D(i, j))))
    out["the results are rows and columns of the matrix, each at one position"] = ([k], z3.Implies(z3.And(k >= 0, k < st.K), z3.And(
        st.L1(k) >= 0, st.L1(k) < s.n, st.L2(k) >= 0, st.L2(k) < s.m, st.UR(st.L1(k)), st.UC(st.L2(k)),
        st.kr(st.L1(k)) == k, st.kc(st.L2(k)) == k)))
    out["chosen pairs are below the threshold"] = ([k], z3.Implies(z3.And(k >= 0, k < st.K), D(st.L1(k), st.L2(k)) < thr))
    out["matched rows are in the result"] = ([i], z3.Implies(z3.And(i >= 0, i < s.n, st.UR(i)), z3.And(st.kr(i) >= 0, st.kr(i) < st.K, st.L1(st.kr(i)) == i)))
    out["matched columns are in the result"] = ([j], z3.Implies(z3.And(j >= 0, j < s.m, st.UC(j)), z3.And(st.kc(j) >= 0, st.kc(j) < st.K, st.L2(st.kc(j)) == j)))
    out["greedy: a pair sharing a row or column with a chosen pair is no closer than that pair"] = ([i, j], z3.Implies(
        z3.And(rng, z3.Or(st.UR(i), st.UC(j))), z3.Or(
            z3.And(st.UR(i), D(i, st.L2(st.kr(i))) <= D(i, j)),
            z3.And(st.UC(j), D(st.L1(st.kc(j)), j) <= D(i, j)))))
    out["the number of pairs is not negative"] = ([], st.K >= 0)
    return out


@P.unit("Tracker.match_dets_and_objs", covers=[FN], extra=ext.all_models)
def match(ctx, it):
    s = State()
    s.n, s.m = ctx.fint("rows", 0), ctx.fint("cols", 0)
    a = real_arr(ctx, "D", (s.n, s.m), "f32" if ctx.choose(2) else "f")
    s.D = a.snap(ctx)
    i, j = z3.Int("#i"), z3.Int("#j")
    ctx.forall([i, j], s.D(i, j) <= INF)
    s.thr = ctx.freal("threshold")
    ctx.assume(s.thr <= INF)
    t = ctx.new_obj(cls(it, "Tracker"))
    snap = a.snap(ctx)
    done = []

    def rule(it2, st, env, tv):
        if done:
            raise Unsupported("a second loop")
        done.append(1)
        loc = {k[2]: v for k, v in ctx.mem.items() if k[0] == "loc" and k[1] == env.fid}
        mats = [(n, v) for n, v in loc.items() if isinstance(v, NDArr) and v.ndim == 2 and v.sid != a.sid]
        lists = [(n, v) for n, v in loc.items() if isinstance(v, ListObj) and ctx.seq(v).concrete() == ()]
        mats = [(n, v) for n, v in mats if v.dtype in ("f", "f32") and ctx.same_dim(v.shape[0], s.n) and ctx.same_dim(v.shape[1], s.m)]
        if len(mats) != 1 or len(lists) != 2:
            raise Unsupported("the loop has another state than a working matrix and two lists")
        M = mats[0][1]
        if M.fwd is not None:
            raise Unsupported("working matrix is a view")
        # which of them is the first result: read off the return statement
        rets = [[e.id for e in n.value.elts] for n in ast.walk(src(it2)) if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple)
                and len(n.value.elts) == 2 and all(isinstance(e, ast.Name) for e in n.value.elts)]
        rets = [x for x in rets if sorted(x) == sorted(n for n, _ in lists)]
        if rets:
            lists.sort(key=lambda nv: rets[-1].index(nv[0]))
        else:
            lists.sort(key=lambda nv: 0 if any(w in nv[0].lower() for w in ("det", "cand", "row")) else 1)
        la, lb = lists[0][1], lists[1][1]
        scal = [n for n, v in loc.items() if is_sym(v) and not z3.is_bool(v) and v.sort() == R and not v.eq(s.thr)]

        def state():
            q = State()
            q.m = lambda i, j: to_real(lift(M.snap(ctx)(i, j)))
            return q

        def oblige(st_, what):
            for name, (vs, body) in inv_terms(s, st_).items():
                # Skolemise here: generic indices, so the goal stays ground
                g = [ctx.fint("sk") for _ in vs]
                ctx.oblige(f"loop invariant {what}: {name}", z3.substitute(body, *zip(vs, g)) if vs else body)

        def cur_inv(what):
            for n in scal:
                v = ctx.mem.get(("loc", env.fid, n))
                if not (is_sym(v) and v.sort() == R):
                    raise Unsupported("the running minimum changes its type")
                gi, gj = ctx.fint("sk", 0), ctx.fint("sk", 0)
                ctx.assume(z3.And(gi < s.n, gj < s.m))
                ctx.oblige(f"loop invariant {what}: {n} is a lower bound of the working matrix", v <= M.snap(ctx)(gi, gj))
                ei, ej = z3.Int("#ei"), z3.Int("#ej")
                wit = [w for mo, w, os in ctx.eng.__dict__.get("ext_wit", []) if mo.eq(v) and len(w) == 2]
                inst = lambda a, b: z3.And(a >= 0, a < s.n, b >= 0, b < s.m, to_real(lift(M.snap(ctx)(a, b))) == v)
                ctx.oblige(f"loop invariant {what}: {n} occurs in the working matrix", inst(*wit[-1]) if wit else z3.Exists([ei, ej], inst(ei, ej)))

        def havoc():
            q = State()
            F = ctx.fresh_fn
            q.m, q.UR, q.UC = F("mat", [I, I], R), F("UR", [I], B), F("UC", [I], B)
            q.L1, q.L2, q.kr, q.kc = F("L1", [I], I), F("L2", [I], I), F("kr", [I], I), F("kc", [I], I)
            q.K = ctx.fint("K", 0)
            ctx.mem[("arr", M.sid)] = Content(q.m, (), (I, I))
            for l, f in ((la, q.L1), (lb, q.L2)):
                ctx.mem[("list", l.lid)] = SeqVal([SymPart(Dom.dense(q.K), lambda i, f=f: f(i))])
            for name, (vs, body) in inv_terms(s, q).items():
                ctx.forall(vs, body) if vs else ctx.assume(body)
            ri, rj = z3.Int("#i"), z3.Int("#j")
            for n in scal:
                v = ctx.freal("cur")
                ctx.mem[("loc", env.fid, n)] = v
                ctx.forall([ri, rj], z3.Implies(z3.And(ri >= 0, ri < s.n, rj >= 0, rj < s.m), v <= q.m(ri, rj)))
                wi, wj = ctx.fint("cur_i", 0), ctx.fint("cur_j", 0)
                ctx.assume(z3.And(wi < s.n, wj < s.m, q.m(wi, wj) == v))
            return q

        def items(l):
            """the list as (length, function)"""
            sq = ctx.seq(l)
            parts = sq.parts
            if not parts:
                return z3.IntVal(0), (lambda i: z3.IntVal(-1))
            fs, off = [], z3.IntVal(0)
            for p in parts:
                if isinstance(p, Items):
                    for x in p.items:
                        fs.append((off, lambda i, x=x: to_int(lift(x))))
                        off = off + 1
                elif isinstance(p, SymPart) and p.dom.n is not None:
                    fs.append((off, lambda i, p=p, o=off: to_int(lift(p.val(i - o)))))
                    off = off + lift(p.dom.n)
                else:
                    raise Unsupported("results in another form")

            def f(i):
                r = fs[-1][1](i)
                for k in range(len(fs) - 2, -1, -1):
                    r = z3.If(i < fs[k + 1][0], fs[k][1](i), r)
                return r

            return z3.simplify(off), f

        # 1. holds initially
        q = state()
        q.K, q.L1, q.L2 = z3.IntVal(0), lambda k: z3.IntVal(0), lambda k: z3.IntVal(0)
        q.UR = q.UC = lambda i: z3.BoolVal(False)
        q.kr = q.kc = lambda i: z3.IntVal(0)
        oblige(q, "holds initially")
        cur_inv("holds initially")

        # 2. kept by an iteration
        def one():
            q = havoc()
            m0, lo = dict(ctx.mem), ctx.idc
            c = it2.truth_sym(it2.eval(st.test, env))
            if not it2.ctx.decide(b_(c)):
                raise Infeasible()
            for x in M.shape:
                ctx.assume(lift(x) > 0)
            it2.exec_block(st.body, env)
            ok = {("arr", M.sid), ("list", la.lid), ("list", lb.lid)}
            for k in changed_keys(m0, ctx.mem, lo):
                if k not in ok and k[0] != "loc":
                    raise Unsupported(f"the iteration changes {k}")
                if k[0] == "loc" and k[2] in loc and k[2] not in scal:
                    raise Unsupported(f"the iteration reassigns {k[2]}")
            (Ka, A), (Kb, Bf) = items(la), items(lb)
            ctx.oblige("an iteration adds one pair", z3.And(Ka == q.K + 1, Kb == q.K + 1))
            r, c = z3.simplify(A(q.K)), z3.simplify(Bf(q.K))
            gk = ctx.fint("sk", 0)
            ctx.assume(gk < q.K)
            ctx.oblige("an iteration keeps the pairs chosen before", z3.And(A(gk) == q.L1(gk), Bf(gk) == q.L2(gk)))
            ctx.oblige("termination: every iteration takes a row not taken before", z3.And(r >= 0, r < s.n, z3.Not(q.UR(r))))
            n = State()
            n.m = lambda i, j: to_real(lift(M.snap(ctx)(i, j)))
            n.K = q.K + 1
            n.L1 = lambda k: z3.If(k == q.K, r, q.L1(k))
            n.L2 = lambda k: z3.If(k == q.K, c, q.L2(k))
            n.UR, n.UC = (lambda i: z3.Or(q.UR(i), i == r)), (lambda j: z3.Or(q.UC(j), j == c))
            n.kr = lambda i: z3.If(i == r, q.K, q.kr(i))
            n.kc = lambda j: z3.If(j == c, q.K, q.kc(j))
            oblige(n, "is kept by an iteration")
            cur_inv("is kept by an iteration")

        for r in ctx.explore(one):
            if r.outcome[0] == "raise":
                raise Unsupported(f"an iteration raises {r.outcome[1]}")
        # 3. at the exit
        for n in assigned_names(st.body)[0]:
            if n not in loc:
                ctx.mem[("loc", env.fid, n)] = Poison("assigned in the loop")
        s.q = havoc()
        c = it2.truth_sym(it2.eval(st.test, env))
        ctx.assume(neg(b_(c)))
        s.la, s.lb = la, lb
        return True

    it.while_rules = [rule]
    it.depth = 1
    r = it.call(it.get_attr(t, "match_dets_and_objs"), [a, s.thr], {})
    if not (isinstance(r, tuple) and len(r) == 2):
        raise Unsupported("result is not a pair of lists")
    gi, gj = ctx.fint("gi", 0), ctx.fint("gj", 0)
    ctx.assume(z3.And(gi < s.n, gj < s.m))
    ctx.oblige("the given matrix is unchanged", at(ctx, a, gi, gj) == snap(gi, gj))
    n1, n2 = (lift(it.seq_len(it.iter_seq(x))) for x in r)
    ctx.oblige("as many candidates as objects", n1 == n2)
    if not hasattr(s, "q") or not done:
        ctx.oblige("no pair only if nothing is below the threshold", z3.Not(s.D(gi, gj) < s.thr))
        ctx.oblige("an empty matrix gives no pairs", n1 == 0)
        return
    ctx.oblige("all pairs found are returned", n1 == s.q.K)
    if not ctx.decide(n1 > 0):
        ctx.oblige("no pair only if nothing is below the threshold", z3.Not(s.D(gi, gj) < s.thr))
        return
    k, l = ctx.fint("k", 0), ctx.fint("l", 0)
    ctx.assume(z3.And(k < n1, l < n1, n1 == s.q.K))
    g = lambda which, kk: to_int(lift(it.get_item(r[which], kk)))
    dk, ok, dl, ol = g(0, k), g(1, k), g(0, l), g(1, l)
    ctx.oblige("candidate indices come first", z3.And(dk >= 0, dk < s.n, ok >= 0, ok < s.m))
    ctx.oblige("each candidate and each object at most once", z3.Implies(k != l, z3.And(dk != dl, ok != ol)))
    ctx.oblige("only pairs strictly below the threshold", s.D(dk, ok) < s.thr)
    # greedy and complete, for an arbitrary pair below the threshold
    kr, kc = s.q.kr(gi), s.q.kc(gj)
    near = lambda kk: z3.And(kk >= 0, kk < n1, s.D(s.q.L1(kk), s.q.L2(kk)) <= s.D(gi, gj))
    ctx.oblige("greedy and complete: a pair below the threshold shares its candidate or object with a chosen pair of no greater distance",
               z3.Implies(s.D(gi, gj) < s.thr, z3.Or(z3.And(near(kr), s.q.L1(kr) == gi), z3.And(near(kc), s.q.L2(kc) == gj))))
    ctx.oblige("the result is the list of chosen pairs", z3.And(dk == s.q.L1(k), ok == s.q.L2(k)))
