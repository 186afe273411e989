"""Folds: values defined by iterating a step over a sequence of symbolic length.

A fold is an uninterpreted function together with its defining step term; two folds are equal when their steps are
(induction), and a bound holds for all iterations when the step preserves it.
"""

import z3

from . import core
from .core import Unsupported
from .values import Gen, SBool, Seq, SInt, as_int, bounds, concrete_value, ctx, imod, isint, mk, term, wrap

KC = z3.Int("k!fold")
AC = z3.Int("a!fold")


class Flat:
    """Concatenation of the sequences row(0), ..., row(count-1)."""

    __slots__ = ("count", "row", "_len")

    note = None

    def __init__(self, count, row):
        self.count, self.row = count, row
        self._len = None

    @property
    def length(self):
        if self._len is None:
            self._len = gen_sum(Gen(self.count, lambda i: self.row(i).length()))
        return self._len

    def at(self, i):
        raise Unsupported("element of a nested sequence")


class Fold:
    """kind 'sum': decl(n) = sum of t[KC] for KC < n;  kind 'loop': decl(x, n), decl(x, k+1) = t[AC=decl(x, k), KC=k]."""

    def __init__(self, kind, t, lo, hi):
        self.kind, self.t, self.lo, self.hi = kind, t, lo, hi
        run = ctx().run
        n = len(run.fold_list)
        self.name = f"{kind}!{n}"
        I = z3.IntSort()
        self.decl = z3.Function(self.name, *([I] * (2 if kind == "sum" else 3)))
        run.fold_list.append(self)
        run.folds[self.name] = self
        run.fold_seen[(kind, t.get_id())] = self
        run.keep.append(t)

    def mentions(self, syms):
        from .loops import is_const

        return not is_const(self.t, syms)

    def axioms(self, *a):
        out = []
        n = a[-1]
        if self.kind == "sum":
            s = self.decl(n)
            out.append(z3.Implies(n <= 0, s == 0))
            if self.lo is not None:
                out.append(z3.Implies(n >= 0, s >= self.lo * n))
            if self.hi is not None:
                out.append(z3.Implies(n >= 0, s <= self.hi * n))
        else:
            x = a[0]
            f = self.decl(x, n)
            out.append(z3.Implies(n <= 0, f == x))
            inr = []
            if self.lo is not None:
                inr.append(x >= self.lo)
            if self.hi is not None:
                inr.append(x <= self.hi)
            if inr:
                res = []
                if self.lo is not None:
                    res.append(f >= self.lo)
                if self.hi is not None:
                    res.append(f <= self.hi)
                out.append(z3.Implies(z3.And(*inr), z3.And(*res)))
        return out


def register(f):
    """Make the axioms of the fold available on this path."""
    c = ctx()
    if f.name not in c.axioms:
        c.axioms[f.name] = f.axioms
    return f


def get_fold(kind, t, lo, hi):
    t = z3.simplify(t)
    run = ctx().run
    f = run.fold_seen.get((kind, t.get_id()))
    if f is None:
        f = Fold(kind, t, lo, hi)
    elif (f.lo, f.hi) != (lo, hi):
        # bounds are facts about the definition: keep the stronger
        if lo is not None and (f.lo is None or lo > f.lo):
            f.lo = lo
        if hi is not None and (f.hi is None or hi < f.hi):
            f.hi = hi
    return register(f)


def rekey(e, subst):
    """Replace folds whose definition mentions substituted symbols."""
    run = ctx().run
    if not run.folds:
        return e
    syms = subst.syms()
    reps = []
    for d in fold_decls(e):
        f = run.folds[d.name()]
        if f.mentions(syms):
            g = get_fold(f.kind, subst.t(f.t), f.lo, f.hi)
            n = g.decl.arity()
            reps.append((f.decl, g.decl(*[z3.Var(k, z3.IntSort()) for k in range(n)])))
        else:
            register(f)
    if reps:
        e = z3.substitute_funs(e, *reps)
    return e


def fold_decls(e):
    out = {}
    seen = set()
    todo = [e]
    folds = ctx().run.folds
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(x):
            if x.num_args():
                if x.decl().name() in folds:
                    out[x.decl().name()] = x.decl()
                todo.extend(x.children())
    return list(out.values())


def element_term(fn, n):
    """(term over KC, lo, hi) of fn(KC) for 0 <= KC < n."""
    c = ctx()
    nf = len(c.fresh)
    k = z3.Int(c.name("ke"))

    def once():
        c.assume(z3.And(k >= 0, k < term(n)))
        npc = len(c.pc)
        v = as_int(fn(SInt(k, 0)))
        if not isint(v):
            raise Unsupported("sum of other than integers")
        return c.pc[npc:], v

    rs = c.sub(once)
    if len(c.fresh) != nf:
        ids = {t.get_id() for t in c.fresh[nf:]}
        from .loops import is_const

        for pc, v in rs:
            if not is_const(term(v), ids) or not all(is_const(x, ids) for x in pc):
                raise Unsupported("fold with hidden choices")
    if not rs:
        return None
    t = term(rs[-1][1])
    for pc, v in rs[:-1][::-1]:
        t = z3.If(z3.And(*pc), term(v), t)
    bs = [bounds(v) for _, v in rs]
    lo = None if any(b[0] is None for b in bs) else min(b[0] for b in bs)
    hi = None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
    return z3.substitute(t, (k, KC)), lo, hi


def gen_sum(g):
    if isinstance(g, Flat):
        r = element_term(lambda i: seq_sum(g.row(i)), g.count)
        n = g.count
    else:
        r = element_term(g.at, g.length)
        n = g.length
    if r is None:
        return 0
    return sum_value(*r, n)


def seq_sum(s):
    acc = 0
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                acc = acc + as_int(x)
        else:
            acc = acc + gen_sum(g)
    return acc


def sum_value(t, lo, hi, n):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return as_int(n) * t.as_long()
    f = get_fold("sum", t, lo, hi)
    return mk(f.decl(term(n)), 0 if lo is not None and lo >= 0 else None)


def loop_form(v0, start, n, me, K, t, lo, hi):
    """Closed form of x' = t(x = me, i = K) from x = v0 at i = start."""
    from .loops import is_const

    t = z3.simplify(t)
    e = z3.simplify(t - me)
    tk = lambda x: z3.simplify(z3.substitute(x, (K, KC + term(start))))  # noqa: E731
    if is_const(e, {me.get_id()}):
        f = get_fold("sum", tk(e), *term_bounds(e, K, start, n))

        def form(i):
            return as_int(v0) + mk(f_app(f, wrap(i) - start), 0 if f.lo is not None and f.lo >= 0 else None)

        return form
    if z3.is_app_of(t, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        # ((x mod m) + e) mod m = (x + e) mod m: a running sum that is reduced in every step
        m = t.arg(1).as_long()
        e = z3.simplify(t.arg(0) - me)
        if is_const(e, {me.get_id()}) and c_in(v0, m):
            f = get_fold("sum", tk(e), *term_bounds(e, K, start, n))

            def form(i):  # noqa: F811
                return imod(as_int(v0) + mk(f_app(f, wrap(i) - start), 0 if f.lo is not None and f.lo >= 0 else None), m)

            return form
    f = get_fold("loop", z3.substitute(tk(t), (me, AC)), lo, hi)

    def form(i):  # noqa: F811
        register(f)
        return mk(f.decl(term(v0), term(wrap(i) - start)), lo, hi)

    return form


def c_in(v, m):
    return ctx().proves(z3.And(term(v) >= 0, term(v) < m))


def f_app(f, n):
    register(f)
    return f.decl(term(n))


def term_bounds(e, K, start, n):
    """Provable small bounds of a term for all indices."""
    c = ctx()
    out = []

    def once():
        c.assume(z3.And(K >= term(start), K < term(n)))
        lo = 0 if c.proves(e >= 0) else None
        hi = next((h for h in (1, 15, 30, 255, 65535, 2**32 - 1) if c.proves(e <= h)), None)
        return lo, hi

    rs = c.sub(once)
    return rs[0] if rs else (None, None)


def loop_fold(acc, g, fn):
    """fold of fn(acc, element) over a Gen (functools.reduce)."""
    from .interp import Env
    from . import loops

    e = Env({}, None, "<reduce>")
    e.vars["acc"] = acc

    def body(i):
        from .interp import NeedsValue, Thunk

        a = e.vars["acc"]
        if a is loops.DEAD:
            raise NeedsValue("acc")
        if isinstance(a, Thunk):
            a = a.fn()
        e.vars["acc"] = fn(a, g.at(i))

    loops.sym_loop(0, g.length, body, e)
    a = e.vars["acc"]
    from .interp import Thunk

    return a.fn() if isinstance(a, Thunk) else a


def apply(name, s, init):
    """Named fold (external function) over a byte sequence."""
    acc = init
    for g in s.segs:
        if isinstance(g, list):
            f = z3.Function(name + "_step", z3.IntSort(), z3.IntSort(), z3.IntSort())
            for x in g:
                acc = SInt(f(term(acc), term(x)), 0, 2**32 - 1)
                ctx().fact(z3.And(acc.t >= 0, acc.t < 2**32))
        else:
            f = z3.Function(name + "_step", z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = element_term(g.at, g.length)
            if r is None:
                continue
            fo = get_fold("loop", f(AC, r[0]), 0, 2**32 - 1)
            acc = SInt(fo.decl(term(acc), term(g.length)), 0, 2**32 - 1)
            ctx().fact(z3.And(acc.t >= 0, acc.t < 2**32))
    return acc


# -- lemmas for the discharge of obligations -------------------------------------------------------------------------------


def apps(fs):
    out = []
    seen = set()
    todo = list(fs)
    folds = ctx().run.folds
    while todo:
        x = todo.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(x):
            if x.num_args() and x.decl().name() in folds:
                out.append(x)
            todo.extend(x.children())
    return out


def equalities(c, goal):
    """Facts F(x, n) == G(y, m) for folds with equivalent steps (induction over the index)."""
    from . import lemmas

    xs = apps([goal])
    run = c.run
    out = congruences(run, xs, apps(c.pc)[:60]) if xs else []
    for i, p in enumerate(xs):
        for q in xs[i + 1 :]:
            f, g = run.folds[p.decl().name()], run.folds[q.decl().name()]
            if f is g or f.kind != g.kind:
                continue
            if f.kind == "sum":
                if same_step(c, f, g, p.arg(0)):
                    out.append(z3.Implies(p.arg(0) == q.arg(0), p == q))
            elif same_step(c, f, g, p.arg(1)):
                out.append(z3.Implies(z3.And(p.arg(0) == q.arg(0), p.arg(1) == q.arg(1)), p == q))
    return out


def congruences(run, xs, ys):
    """F(x, n) == G(y, m) when the steps of F and G are the same up to parameters that are equal."""
    out = []
    done = set()
    for p in xs:
        for q in ys:
            f, g = run.folds[p.decl().name()], run.folds[q.decl().name()]
            if f is g or f.kind != g.kind or (p.get_id(), q.get_id()) in done or (q.get_id(), p.get_id()) in done:
                continue
            done.add((p.get_id(), q.get_id()))
            ps = unify(f.t, g.t)
            if ps is not None:
                out.append(z3.Implies(z3.And([x == y for x, y in ps] + [p.arg(i) == q.arg(i) for i in range(p.num_args())]), p == q))
    return out


def unify(x, y):
    """Pairs of subterms (not of the running index or value) whose equality makes the terms equal, or None."""
    pairs = {}
    todo = [(x, y)]
    n = 0
    while todo:
        a, b = todo.pop()
        n += 1
        if n > 200 or len(pairs) > 4:
            return None
        if a.eq(b):
            continue
        if z3.is_app(a) and z3.is_app(b) and a.num_args() == b.num_args() > 0 and a.decl().eq(b.decl()) and (bound(a) or bound(b)):
            todo += list(zip(a.children(), b.children()))
            continue
        if bound(a) or bound(b) or a.sort() != b.sort():
            return None
        pairs[a.get_id(), b.get_id()] = (a, b)
    return list(pairs.values())


def bound(t):
    seen = set()
    todo = [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(KC) or e.eq(AC):
            return True
        todo += e.children()
    return False


def same_step(c, f, g, n):
    from . import lemmas

    key = ("same", f.name, g.name, n.get_id(), len(c.pc))
    r = c.run.fold_seen.get(key)
    if r is not None:
        return r
    k, a = z3.Int("k!ind"), z3.Int("a!ind")

    def once():
        c.assume(z3.And(k >= 0, k < n))
        if f.kind == "loop":
            lo = max([x for x in (f.lo, g.lo) if x is not None], default=None)
            hi = min([x for x in (f.hi, g.hi) if x is not None], default=None)
            # the induction hypothesis F = G = a: both bounds hold of a
            if lo is not None:
                c.assume(a >= lo)
            if hi is not None:
                c.assume(a <= hi)
        x = z3.substitute(f.t, (KC, k), (AC, a))
        y = z3.substitute(g.t, (KC, k), (AC, a))
        goal = z3.simplify(x == y)
        c.scan(goal)
        if c.proves(goal, 4000):
            return True
        return lemmas.bv_proves(c.pc, goal, 20000)

    rs = c.sub(once)
    r = all(rs)
    c.run.fold_seen[key] = r
    return r


def fold_over(s, init, step, lo, hi):
    """Value of the specification fold acc' = step(acc, element); the step preserves lo <= acc <= hi (checked)."""
    c = ctx()
    acc = init
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                acc = step(acc, x)
            continue
        if isinstance(g, Flat):
            raise Unsupported("fold over nested rows")
        r = element_term(g.at, g.length)
        if r is None:
            continue
        et, elo, ehi = r

        def once():
            c.assume(z3.And(AC >= lo, AC <= hi))
            c.assume(z3.And(KC >= 0, KC < term(g.length)))
            npc = len(c.pc)
            v = as_int(step(SInt(AC, lo, hi), mk(et, elo, ehi)))
            from . import lemmas

            goal = z3.And(term(v) >= lo, term(v) <= hi)
            ok = c.proves(goal) or lemmas.bv_proves(c.pc, goal, 8000)
            return c.pc[npc:], v, ok

        rs = c.sub(once)
        if len(rs) != 1 or not rs[0][2]:
            raise Unsupported("specification fold outside its range")
        f = get_fold("loop", term(rs[0][1]), lo, hi)
        acc = mk(f.decl(term(acc), term(g.length)), lo, hi)
    return acc
