"""Loops over sequences of symbolic length.

One generic iteration (at an arbitrary index K) is executed symbolically.  The state carried from iteration to
iteration is then put into closed form - constant, linear in the index, a function of the previous index only,
an append-only sequence, or a fold defined by its step - which is exact for all iterations by induction on the index.
Values computed in the generic iteration are instantiated at other indices by substitution.
"""

import ast
import os

import z3

from . import core, folds
from .core import Infeasible, PathEnd, Unsupported
from .heap import UNKNOWN, Cell, DictMark, Filled, Over, VBuf, VBytes, VDict, VFile, VIter, VList, VRange, VSet, VSorted, VTuple, set_attr
from .interp import DEAD, Bound, Method, NeedsValue, VFunc, VPartial, ProgExc, Thunk, assign, comp_env, ev, exec_block, truth, is_program_class
from .lemmas import subterms as lemmas_subterms
from .values import POW2, Gen, SBool, Seq, SInt, as_int, boolterm, bounds, concrete_value, ctx, isint, land, mk, mkbool, term, wrap


# --------------------------------------------------------------------------------------------------------------------
# instantiation of values by substitution
# --------------------------------------------------------------------------------------------------------------------


class Summary:
    """Symbols of a generic iteration; at(j) is the substitution that moves it to index j."""

    def __init__(self, K, consts, funs):
        self.K = K
        self.consts = consts
        self.funs = funs
        c = ctx()
        self.sk = []
        for t in consts:
            f = z3.Function(t.decl().name() + "@", z3.IntSort(), t.sort())
            self.sk.append((t, f))
        self.skf = []
        for f in funs:
            n = f.arity()
            g = z3.Function(f.name() + "@", z3.IntSort(), *[f.domain(k) for k in range(n)], f.range())
            self.skf.append((f, g))
            ax = c.axioms.get(f.name())
            if ax is not None:

                def axiom(j, *a, ax=ax):
                    s = Subst(self, j)
                    return [s.t(x) for x in ax(*a)]

                c.axioms[g.name()] = axiom

    def at(self, j):
        return Subst(self, term(j))


class Subst:
    def __init__(self, summ, j, extra=()):
        self.summ = summ
        self.j = j
        self.extra = list(extra)
        self.pairs = [(summ.K, j)] + [(t, f(j)) for t, f in summ.sk] + list(extra)
        self.fpairs = []
        for f, g in summ.skf:
            self.fpairs.append((f, g(j, *[z3.Var(k, f.domain(k)) for k in range(f.arity())])))
        self.memo = {}
        self.keep = []

    def syms(self):
        return {a.get_id() for a, _ in self.pairs} | {f.get_id() for f, _ in self.fpairs}

    def t(self, e):
        r = z3.substitute(e, *self.pairs)
        if self.fpairs:
            r = z3.substitute_funs(r, *self.fpairs)
        return folds.rekey(r, self)

    def v(self, x):
        """Instantiated value."""
        if x is None or isinstance(x, (bool, int, str, bytes, float, type)):
            return x
        if isinstance(x, SInt):
            tag = x.tag
            if tag is not None:
                tag = tuple(self.t(y) if isinstance(y, z3.ExprRef) else self.v(y) if isinstance(y, SInt) else y for y in tag)
            return mk(self.t(x.t), x.lo, x.hi, x.tz, tag)
        if isinstance(x, SBool):
            return mkbool(self.t(x.t))
        if isinstance(x, Seq):
            return self.seq(x)
        if type(x) is tuple:
            return tuple(self.v(y) for y in x)
        k = id(x)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(x)
        r = self.obj(x)
        self.memo[k] = r
        return r

    def seq(self, s):
        out = []
        for g in s.segs:
            if isinstance(g, list):
                out.append([self.v(y) for y in g])
            else:
                out.append(self.gen(g))
        return Seq(out)

    def gen(self, g):
        if isinstance(g, folds.Flat):
            n = self.v(g.count)
            return folds.Flat(n, self.lazy(g.row))
        n = self.v(g.length)
        return Gen(n, self.lazy(g.at))

    def lazy(self, fn):
        """i -> instantiated fn(i); conditions met while computing it are instantiated as well."""
        summ, j, extra = self.summ, self.j, self.extra

        def inst(i):
            c = ctx()
            if isinstance(i, SInt):
                A = z3.Int(c.name("arg"))
                s = Subst(summ, j, extra + [(A, i.t)])
                a = SInt(A, i.lo, i.hi, i.tz)
            else:
                s = Subst(summ, j, extra)
                a = i
            c.maps.append(s)
            try:
                r = fn(a)
            finally:
                c.maps.pop()
            return s.v(r)

        return inst

    def obj(self, x):
        from . import models, text

        if isinstance(x, text.SStr):
            return text.subst(x, self)
        if isinstance(x, text.VEnc):
            return text.VEnc(self.v(x.s))
        if isinstance(x, VBytes):
            return VBytes(self.seq(x.seq))
        if isinstance(x, VTuple):
            return VTuple(self.seq(x.seq))
        if isinstance(x, Cell):
            if x.born < self.summ.clock:
                return x  # existed before the loop
            if isinstance(x, VSorted):
                r = VSorted(self.seq(x.seq), x.key)
            elif isinstance(x, (VList, VBuf)):
                r = type(x)(self.seq(x.seq))
            elif isinstance(x, VDict) and not x.plain():
                raise Unsupported("content of a dictionary that a loop fills")
            elif isinstance(x, VDict):
                r = VDict({k: self.v(y) for k, y in x.d.items()}, x.default)
            else:
                raise Unsupported(f"instance of {type(x).__name__}")
            r.ro = True
            return r
        if isinstance(x, models.VView):
            return models.VView(self.v(x.obj))
        if isinstance(x, models.SFloat):
            return models.SFloat(self.t(x.t), x.width)
        if isinstance(x, VRange):
            return VRange(self.v(x.start), self.v(x.stop), self.v(x.step))
        if isinstance(x, VPartial):
            return VPartial(self.v(x.func), [self.v(y) for y in x.args], {n: self.v(y) for n, y in x.kw.items()})
        if isinstance(x, (Bound, Method)):
            return type(x)(*[self.v(getattr(x, n)) for n in type(x).__slots__])
        if isinstance(x, VFunc) and x.parent is not None and x.born >= self.summ.clock:
            raise Unsupported("function made in a loop")
        cls = type(x)
        if is_program_class(cls):
            c = ctx()
            if c.births.get(id(x), 0) < self.summ.clock:
                return x
            o = models.new_object(cls)
            c.frozen.add(id(o))
            self.memo[id(x)] = o
            for n, y in x.__dict__.items():
                o.__dict__[n] = self.v(y)
            return o
        return x


# --------------------------------------------------------------------------------------------------------------------
# generic iteration
# --------------------------------------------------------------------------------------------------------------------


class Outcome:
    """One path through a generic iteration."""

    __slots__ = ("pc", "signal", "exc", "locals", "cells", "attrs", "consts", "funs", "universals", "obliged", "dead")


class Marker:
    """Unknown prefix of an append-only sequence."""

    def __init__(self):
        self.length = SInt(z3.Int(ctx().name("len")), 0)
        self.gen = Gen(self.length, self.fail)

    def fail(self, i):
        raise Unsupported("element of a sequence that grows in the loop")


def leaves(t):
    """Ids of the constants and function symbols a term mentions (also inside the folds it applies)."""
    run = ctx().run
    memo = run.leaves
    r = memo.get(t.get_id())
    if r is not None:
        return r
    todo = [t]
    while todo:
        e = todo[-1]
        k = e.get_id()
        if k in memo:
            todo.pop()
            continue
        sub = []
        own = ()
        if z3.is_app(e):
            if e.num_args() == 0:
                own = (k,) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else ()
            else:
                sub = e.children()
                d = e.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    own = (d.get_id(),)
                    f = ctx().folds.get(d.name())
                    if f is not None:
                        sub = sub + [f.t]
        elif z3.is_quantifier(e):
            sub = [e.body()]
        new = [x for x in sub if x.get_id() not in memo]
        if new:
            todo.extend(new)
            continue
        sets = {memo[x.get_id()] for x in sub} | {frozenset(own)}
        sets.discard(frozenset())
        memo[k] = frozenset().union(*sets) if len(sets) != 1 else next(iter(sets))
        run.keep.append(e)
        todo.pop()
    return memo[t.get_id()]


def is_const(t, syms):
    """t mentions none of the symbols (ids of consts or decls)."""
    if not z3.is_expr(t):
        return True
    return leaves(t).isdisjoint(syms)


def kind_of(v):
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    return "other"


class Loop:
    def __init__(self, start, n, body, env):
        self.start, self.n, self.body, self.env = start, n, body, env
        c = ctx()
        self.c = c
        self.clock = c.tick_clock()
        self.K = z3.Int(c.name("it"))
        self.k = SInt(self.K, bounds(start)[0])
        self.peeled = False
        self.weak = False
        self.assigned = set()
        self.carried = {}  # location key -> Loc
        self.objs = {}
        self.havocs = {}
        self.upper = {}  # location key -> exponent e (term over K): 0 <= value < 2**e

    # locations: ("local", name) ("cell", id) ("attr", id, name)
    def current(self, key):
        if key[0] == "local":
            return self.env.vars.get(key[1], DEAD)
        if key[0] == "cell":
            return self.objs[key[1]].raw()
        if key[0] == "fpos":
            return self.objs[key[1]].raw()[1]
        o = self.objs[key[1]]
        return o.__dict__.get(key[2], DEAD)

    def store(self, key, v):
        if key[0] == "local":
            self.env.vars[key[1]] = v
        elif key[0] == "cell":
            self.objs[key[1]].set(v)
        elif key[0] == "fpos":
            content, _, closed = self.objs[key[1]].raw()
            self.objs[key[1]].set((content, v, closed))
        else:
            o = self.objs[key[1]]
            if v is DEAD:
                return
            set_attr(o, key[2], v)

    def trial(self, setup):
        """All outcomes of one generic iteration from the state produced by setup()."""
        c = self.c

        def once():
            saved = dict(self.env.vars)
            c.assume(z3.And(self.K >= term(self.start), self.K < term(self.n)))
            if c.universals:
                from . import models

                models.add_index(self.k)
            for nm in self.assigned:
                if ("local", nm) not in self.carried:
                    self.env.vars[nm] = DEAD
            setup()
            before = dict(self.env.vars)
            mark = len(c.undo)
            npc, nf, nu, no = len(c.pc), len(c.fresh), len(c.universals), c.obliged
            o = Outcome()
            o.signal = o.exc = None
            try:
                try:
                    o.signal = self.body(self.k)
                except ProgExc as p:
                    o.exc = p
                except NeedsValue as e:
                    return ("needs", e.what)
                o.pc = c.pc[npc:]
                fr = c.fresh[nf:]
                o.consts = [t for t in fr if not isinstance(t, z3.FuncDeclRef)]
                o.funs = [t for t in fr if isinstance(t, z3.FuncDeclRef)]
                o.universals = c.universals[nu:]
                o.obliged = c.obliged != no
                o.locals = {nm: v for nm, v in self.env.vars.items() if nm not in before or before[nm] is not v}
                o.cells, o.attrs = {}, {}
                for _, tag in c.undo[mark:]:
                    if tag is None:
                        continue
                    kind, obj, nm = tag
                    if kind == "cell":
                        if obj.born < self.clock:
                            self.objs[id(obj)] = obj
                            if isinstance(obj, VFile):
                                old, new = nm, obj.raw()
                                if new[0] is not old[0] or new[2] != old[2]:
                                    raise Unsupported("file written or closed in a loop")
                                o.cells[("fpos", id(obj))] = new[1]
                            else:
                                o.cells[("cell", id(obj))] = obj.raw()
                    else:
                        if c.births.get(id(obj), 0) < self.clock:
                            self.objs[id(obj)] = obj
                            o.attrs[("attr", id(obj), nm)] = obj.__dict__.get(nm, DEAD)
                return ("ok", o)
            finally:
                self.env.vars.clear()
                self.env.vars.update(saved)

        return c.sub(once)

    def run(self):
        c = self.c
        forms = {}  # key -> closed form i -> value
        folded = {}
        names = ("local",)
        for _round in range(40):
            syms = {}
            marks = {}
            dicts = {}
            pre = []

            def setup():
                for x in pre:
                    c.assume(x)
                for key in self.carried:
                    f = forms.get(key)
                    if f is not None:
                        # a form with cases is evaluated when it is read: the case belongs to the path
                        self.store(key, Thunk(lambda f=f: f(self.k)) if getattr(f, "cases", False) and key[0] in ("local", "attr") else f(self.k))
                        continue
                    v = self.carried[key]
                    if key in folded:
                        self.store(key, syms[key])
                    elif key in self.havocs:
                        c.assume(self.havocs[key][0].t >= 0)
                        self.store(key, self.havocs[key][2])
                    elif key in dicts:
                        self.store(key, dicts[key])
                    elif isinstance(v, Seq):
                        self.store(key, Seq([marks[key].gen]))
                    elif kind_of(v) == "int":
                        self.store(key, syms[key])
                    elif kind_of(v) == "bool":
                        self.store(key, syms[key])
                    else:
                        raise NeedsRecent(key)

            for key, v in self.carried.items():
                if key in forms:
                    continue
                if key[0] == "cell" and isinstance(self.objs[key[1]], VDict) and self.objs[key[1]].default is list and all_lists(v):
                    forms[key] = lambda i: UNKNOWN
                    continue
                if key[0] == "cell" and isinstance(self.objs[key[1]], VDict):
                    dicts[key] = DictMark()
                elif isinstance(v, Seq):
                    marks[key] = Marker()
                elif kind_of(v) == "int":
                    lo, hi = folded.get(key) or (None, None)
                    syms[key] = SInt(z3.Int(c.name("st")), lo, hi)
                    if lo is not None:
                        pre.append(syms[key].t >= lo)
                    if hi is not None:
                        pre.append(syms[key].t <= hi)
                    if key in self.upper:
                        pre.append(syms[key].t < self.upper_at(key, self.k))
                elif kind_of(v) == "bool":
                    syms[key] = SBool(z3.Bool(c.name("stb")))
            opaque = [key for key, v in self.carried.items() if key not in forms and key not in syms and key not in marks and key not in dicts and key not in self.havocs]
            if opaque:
                # neither number nor sequence: run with the value unavailable
                base_setup = setup

                def setup(base=base_setup):  # noqa: F811
                    for key in self.carried:
                        if key in opaque:
                            if key[0] == "local":
                                self.env.vars[key[1]] = DEAD
                            elif key[0] == "attr":
                                set_attr(self.objs[key[1]], key[2], Thunk(lambda key=key: need(key)))
                            else:
                                raise Unsupported("loop modifies a container in place")
                    hold = {k: self.carried[k] for k in opaque}
                    for k in opaque:
                        del self.carried[k]
                    try:
                        base()
                    finally:
                        self.carried.update(hold)

            res = self.trial(setup)
            grown = guess = False
            known = set(self.carried)
            for r in res:
                if r[0] == "needs":
                    key = r[1] if isinstance(r[1], tuple) else ("local", r[1])
                    if key in self.carried and key not in known:
                        continue
                    if key in self.havocs and key not in forms:
                        continue
                    if key in self.carried:
                        f = self.guessed(key, [x[1] for x in res if x[0] == "ok"], syms, marks, setup, forms, opaque)
                        if f is not None:
                            forms[key] = f
                            guess = True
                            break
                        if not self.peeled:
                            return ("peel", None)
                        if self.arbitrary(key):
                            grown = True
                            continue
                        raise Unsupported(f"loop-carried value {key[-1]}")
                    v0 = self.env.vars.get(key[1], DEAD)
                    if v0 is DEAD:
                        raise Unsupported(f"unbound loop variable {key[1]}")
                    if isinstance(v0, Thunk):
                        v0 = v0.fn()
                        self.env.vars[key[1]] = v0
                    self.carried[key] = v0
                    grown = True
                    continue
                o = r[1]
                for nm in o.locals:
                    if nm not in self.assigned:
                        self.assigned.add(nm)
                        grown = True
                for key in list(o.cells) + list(o.attrs):
                    if key not in self.carried:
                        self.carried[key] = self.current(key)
                        grown = True
            if grown:
                forms, folded = {}, {}
                continue
            if guess:
                continue
            outs = [r[1] for r in res]
            normal = [o for o in outs if o.exc is None and (o.signal is None or o.signal[0] == "continue")]
            if not normal:
                # every iteration leaves the loop: only the first one happens
                return ("first", outs)
            progress = False
            bad = self.hidden()
            for key in syms:
                bad.add(syms[key].t.get_id())
            for key in marks:
                bad.add(marks[key].length.t.get_id())
            iter_syms = set(bad) | {self.K.get_id()}
            for o in normal:
                iter_syms |= {t.get_id() for t in o.consts} | {f.get_id() for f in o.funs}
            pending = [k for k in self.carried if k not in forms]
            if not pending:
                break
            for key in pending:
                vals = [self.value_after(o, key) for o in normal]
                if all(v is Same for v in vals):
                    v0 = self.current(key)
                    forms[key] = lambda i, v0=v0: v0
                    progress = True
                    continue
                if key in syms:
                    vals = [syms[key] if v is Same else v for v in vals]
                if key in dicts:
                    f = self.put_form(key, dicts[key], vals, normal, bad)
                    if f is not None:
                        forms[key] = f
                        progress = True
                    continue
                if key in marks:
                    f = self.append_form(key, marks[key], vals, normal, bad)
                    if f is not None:
                        forms[key] = f
                        progress = True
                    continue
                if key in syms and kind_of(self.carried[key]) == "int" and all(isint(v) for v in vals):
                    deltas = [z3.simplify(term(v) - syms[key].t) for v in vals]
                    if all(is_const(d, iter_syms) for d in deltas) and all(z3.eq(d, deltas[0]) for d in deltas):
                        forms[key] = self.linear_form(key, deltas[0])
                        progress = True
                        continue
                    m = quotient(vals, syms[key].t)
                    if m is not None:
                        forms[key] = self.quotient_form(key, m)
                        progress = True
                        continue
                f = self.last_form(key, vals, normal, bad)
                if f is not None:
                    if f == "peel":
                        return ("peel", None)
                    forms[key] = f
                    progress = True
                    continue
                if all(free_of(v, bad) for v in vals) and all(all(is_const(x, bad) for x in o.pc) for o in normal):
                    v0 = self.current(key)
                    if self.peeled:
                        forms[key] = self.anchored(v0, self.recent_form(vals, normal))
                    elif kind_of(v0) != "other" and all(kind_of(v) == kind_of(v0) for v in vals):
                        forms[key] = self.recent_or(v0, self.recent_form(vals, normal))
                    else:
                        return ("peel", None)
                    progress = True
                    continue
            if progress:
                continue
            for key in pending:
                f = self.guessed(key, outs, syms, marks, setup, forms, opaque)
                if f is not None:
                    forms[key] = f
                    progress = True
                    break
            if progress:
                continue
            # folds: one at a time, the first whose step depends on no other unresolved location
            done = False
            for key in pending:
                if key not in syms or kind_of(self.carried[key]) != "int":
                    continue
                if key not in folded:
                    folded[key] = self.find_bounds(key, syms, setup)
                    if folded[key] == (0, None):
                        self.find_upper(key, syms, setup, normal, bad)
                    done = True
                    break
                f = self.fold_form(key, syms, normal, bad, folded[key])
                if f is not None:
                    forms[key] = f
                    done = True
                    break
            if not done:
                for key in pending:
                    f = self.unread(key, syms, marks, outs, pending)
                    if f is not None:
                        forms[key] = f
                        done = True
                for key in pending:
                    vals = [self.value_after(o, key) for o in normal]
                    if not done and self.weak and key in syms and kind_of(self.carried[key]) == "int" and all(v is Same or isint(v) for v in vals):
                        forms[key] = self.havoc(key)
                        done = True
            if not done:
                raise Unsupported("loop-carried state without closed form: " + ", ".join(str(k[-1] if k[0] != "cell" else "container") for k in pending))
        else:
            raise Unsupported("loop analysis does not converge")
        self.forms = forms
        return ("done", outs)

    def value_after(self, o, key):
        if key[0] == "local":
            return o.locals.get(key[1], None) if key[1] in o.locals else self.unchanged(key, o)
        if key[0] in ("cell", "fpos"):
            return o.cells[key] if key in o.cells else self.unchanged(key, o)
        return o.attrs[key] if key in o.attrs else self.unchanged(key, o)

    def unchanged(self, key, o):
        return Same

    def linear_form(self, key, d):
        v0 = self.current(key)
        d0 = mk(d)
        start = self.start

        def form(i):
            return as_int(v0) + (wrap(i) - start) * d0

        return form

    def recent_form(self, vals, normal):
        summ = self.summary(normal)
        start = self.start

        def form(i):
            if z3.eq(term(i), term(start)):
                pass
            return pick(self, summ, normal, vals, i - 1)

        return form

    def last_form(self, key, vals, normal, bad):
        """Every path of an iteration leaves the same value, whatever was there before."""
        v = vals[0]
        if not isint(v) or isinstance(v, (bool, SBool)) or not all(isint(x) and not isinstance(x, (bool, SBool)) for x in vals):
            return None
        t = z3.simplify(term(v))
        if not all(z3.eq(t, z3.simplify(term(x))) for x in vals[1:]):
            return None
        hidden = set(bad)
        for o in normal:
            hidden |= {x.get_id() for x in o.consts} | {x.get_id() for x in o.funs}
        if not is_const(t, hidden):
            return None
        summ = self.summary(normal)

        def form(i):
            return summ.at(wrap(i) - 1).v(v)

        v0 = self.current(key)
        if self.peeled:
            return self.anchored(v0, form)
        if kind_of(v0) != "int":
            return "peel"
        return self.recent_or(v0, form)

    def anchored(self, v0, form):
        """Before the first iteration at hand v0, afterwards what the previous iteration leaves."""
        c = self.c
        start = self.start
        if v0 is DEAD:
            return form
        rs = c.sub(lambda: same_value(v0, form(start)))
        if rs and all(rs):
            return form
        if DEBUG:
            print("first value differs", v0, rs)
        if kind_of(v0) != "other":
            both = self.recent_or(v0, form)
        else:
            both = None

        def fork(i):
            if both is not None:
                try:
                    return both(i)
                except (AttributeError, TypeError, z3.Z3Exception):
                    pass
            return v0 if c.branch(term(i) == term(start)) else form(i)

        fork.cases = True
        return fork

    def recent_or(self, v0, form):
        """Before the first iteration v0, afterwards what the previous iteration leaves."""
        from .values import ite

        def both(i):
            first = wrap(i) == self.start
            if first is True:
                return v0
            later = form(i)
            return later if first is False else ite(first, v0, later)

        return both

    def arbitrary(self, key):
        """Run the iterations with arbitrary bytes in this location."""
        from .values import byte_fn

        v0 = self.current(key)
        if not isinstance(v0, (bytes, VBytes, VBuf)) or key[0] not in ("local", "attr") or key in self.havocs:
            return False
        n = SInt(z3.Int(self.c.name("any_n")), 0)
        f = byte_fn(self.c.name("any"))
        self.havocs[key] = (n, f.z3, VBytes(Seq([Gen(n, f)])))
        return True

    def hidden(self):
        """The symbols of arbitrary values."""
        return {x.get_id() for n, f, _ in self.havocs.values() for x in (n.t, f)}

    def guessed(self, key, outs, syms, marks, setup, forms, opaque):
        """Some path leaves a value that depends on the iteration alone; every other path is shown to leave the same value."""
        from .merge import NoMerge, merged

        c = self.c
        normal = [o for o in outs if o.exc is None and (o.signal is None or o.signal[0] == "continue")]
        bad = {s.t.get_id() for s in syms.values()} | {m.length.t.get_id() for m in marks.values()} | self.hidden()
        for o in outs:
            bad |= {t.get_id() for t in o.consts} | {f.get_id() for f in o.funs}
        v0 = self.current(key)
        if key in marks or v0 is DEAD:
            return None
        summ = self.summary([])
        tried = []
        cands = [self.value_after(o, key) for o in normal]
        if key in syms and kind_of(v0) == "bool" and len(normal) > 1:
            # what the iteration leaves when it starts with False
            off = (syms[key].t, z3.BoolVal(False))
            ts = [z3.And(*o.pc, boolterm(syms[key] if v is Same else v)) for o, v in zip(normal, cands)]
            cands.insert(0, mkbool(z3.simplify(z3.substitute(z3.Or(*ts), off))))
        if DEBUG:
            print("candidates for", key[-1], [(u, simple(u), free_of(u, bad)) for u in cands])
        for u in cands:
            if u is Same or not simple(u) or not free_of(u, bad) or any(u is x or isint(u) and isint(x) and z3.eq(z3.simplify(term(u)), z3.simplify(term(x))) for x in tried):
                continue
            if len(tried) >= 3:
                break
            tried.append(u)

            def form(i, u=u, same0=same_bytes(v0, u, summ, self.start)):
                if same0:
                    return summ.at(wrap(i) - 1).v(u)
                first = wrap(i) == self.start
                if first is True:
                    return v0
                later = summ.at(wrap(i) - 1).v(u)
                if first is False:
                    return later
                if form.cases:
                    return v0 if c.branch(boolterm(first)) else later
                return merged([boolterm(first), z3.Not(boolterm(first))], [v0, later])

            form.cases = isinstance(u, (VBytes, VBuf))
            try:
                if not form.cases:
                    form(self.k)
            except NoMerge:
                continue
            body = self.body

            def checked(i, u=u):
                sig = body(i)
                if sig is None or sig[0] == "continue":
                    if not same_value(self.current(key), u):
                        return ("return", "differs")
                return sig

            self.body = checked
            forms[key] = form
            was = key in opaque
            if was:
                opaque.remove(key)
            try:
                res = self.trial(setup)
            except Unsupported as e:
                if DEBUG:
                    print("guess", key[-1], e)
                continue
            finally:
                self.body = body
                del forms[key]
                if was:
                    opaque.append(key)
            if all(r[0] == "ok" and r[1].signal != ("return", "differs") for r in res):
                if DEBUG:
                    print("guessed", key[-1], "for", v0)
                return form
            if DEBUG:
                print("guess", key[-1], [r[1].signal if r[0] == "ok" else r for r in res])
        return None

    def unread(self, key, syms, marks, outs, pending):
        """A location that no iteration reads: its value afterwards is left unknown."""
        if key in marks or key not in syms or key[0] not in ("local", "attr"):
            return None
        bad = {syms[key].t.get_id()}
        for o in outs:
            if not all(is_const(x, bad) for x in o.pc):
                return None
            for k in pending:
                if k != key:
                    v = self.value_after(o, k)
                    if v is not Same and not free_of(v, bad):
                        return None

        if self.weak and isint(self.carried[key]):
            return self.havoc(key)

        def unknown(i):
            def fail():
                raise Unsupported(f"value of {key[-1]} after a loop")

            return Thunk(fail)

        return unknown

    def havoc(self, key):
        """Weakest form: some number, about which nothing is known."""
        c = self.c
        c.run.weakened = True
        f = z3.Function(c.name("any_" + str(key[-1])), z3.IntSort(), z3.IntSort())
        c.fresh.append(f)
        v0 = self.current(key)

        def some(i):
            return v0 if wrap(i) is self.start or isinstance(i, int) and i == self.start else mk(f(term(i)))

        return some

    def append_form(self, key, mark, vals, normal, bad):
        elems = []
        for v in vals:
            if v is Same:
                elems.append([])
                continue
            segs = v.segs
            if not segs or segs[0] is not mark.gen:
                return None
            rest = segs[1:]
            if not rest:
                elems.append([])
            elif len(rest) == 1 and isinstance(rest[0], list):
                elems.append(rest[0])
            else:
                elems.append(Seq(rest))
        base = self.current(key)
        start = self.start
        for e in elems:
            if isinstance(e, Seq):
                return self.flat_form(base, elems, normal, bad)
        m = len(elems[0])
        if any(len(e) != m for e in elems):
            return self.flat_form(base, elems, normal, bad)
        if m == 0:
            return lambda i: base
        if not all(free_of(x, bad) for e in elems for x in e) or not all(is_const(x, bad) for o in normal for x in o.pc):
            return None
        summ = self.summary(normal)
        if m == 1:
            vs = [e[0] for e in elems]

            def fn(j):
                return pick(self, summ, normal, vs, j + start)

            return lambda i: base + Seq([Gen(i - start, fn)])

        def fnm(j):
            from .values import idiv, imod

            q, r = idiv(j, m), imod(j, m)
            cr = concrete_value(r)
            if cr is None:
                for k in range(m - 1):
                    if wrap(r) == k:
                        cr = k
                        break
                else:
                    cr = m - 1
            return pick(self, summ, normal, [e[cr] for e in elems], q + start)

        return lambda i: base + Seq([Gen((i - start) * m, fnm)])

    def put_form(self, key, mark, vals, normal, bad):
        """A dictionary: every iteration puts one value under its own index, or else the content is left unknown."""
        vs = []
        for v in vals:
            own = isinstance(v, Over) and v.base is mark and len(v.log) == 1 and isint(v.log[0][0]) and z3.eq(z3.simplify(term(v.log[0][0])), self.K)
            if not own:
                return lambda i: UNKNOWN
            vs.append(v.log[0][1])
        if not all(free_of(v, bad) for v in vs) or not all(is_const(x, bad) for o in normal for x in o.pc):
            return None
        summ = self.summary(normal)
        base, start = self.current(key), self.start
        return lambda i: Filled(base, start, i, lambda j: pick(self, summ, normal, vs, j))

    def flat_form(self, base, elems, normal, bad):
        elems = [e if isinstance(e, Seq) else Seq([e]) for e in elems]
        if not all(free_of(e, bad) for e in elems) or not all(is_const(x, bad) for o in normal for x in o.pc):
            return None
        summ = self.summary(normal)
        start = self.start

        def fn(j):
            return pick(self, summ, normal, elems, j + start)

        return lambda i: base + Seq([folds.Flat(i - start, fn)])

    def find_bounds(self, key, syms, setup):
        """Range preserved by every iteration."""
        from . import lemmas

        c = self.c
        v0 = as_int(self.current(key))
        old = syms[key]
        for lo, hi in ((0, 1), (0, 255), (0, 65535), (0, 2**32 - 1), (0, 2**64 - 1), (0, None)):
            g0 = z3.And(term(v0) >= lo, term(v0) <= hi) if hi is not None else term(v0) >= lo
            if not c.proves(g0):
                continue
            syms[key] = SInt(old.t, lo, hi)
            body = self.body

            def checked(i, lo=lo, hi=hi):
                c.fact(old.t >= lo)
                if hi is not None:
                    c.fact(old.t <= hi)
                sig = body(i)
                if sig is None or sig[0] == "continue":
                    v = self.current(key)
                    b = bounds(as_int(v)) if isint(v) else (None, None)
                    if b[0] is not None and b[0] >= lo and (hi is None or b[1] is not None and b[1] <= hi):
                        return sig
                    g = z3.And(term(v) >= lo, term(v) <= hi) if hi is not None else term(v) >= lo
                    if not c.proves(g) and not lemmas.bv_proves(c.pc, g, 4000):
                        return ("return", "range")
                return sig

            self.body = checked
            try:
                res = self.trial(setup)
            except Unsupported:
                continue
            finally:
                self.body = body
                syms[key] = old
            if all(r[0] == "ok" and not (r[1].signal is not None and r[1].signal == ("return", "range")) for r in res):
                return lo, hi
        return None, None

    def fold_form(self, key, syms, normal, bad, rng):
        me = syms[key].t
        others = {i for i in bad if i != me.get_id()}
        vals = [self.value_after(o, key) for o in normal]
        vals = [syms[key] if v is Same else v for v in vals]
        if not all(isint(v) for v in vals):
            return None
        t = None
        for o, v in zip(normal, vals):
            if o.consts or o.funs:
                return None
            if not is_const(term(v), others) or not all(is_const(x, others) for x in o.pc):
                return None
        t = term(vals[-1])
        for o, v in list(zip(normal, vals))[:-1][::-1]:
            t = z3.If(z3.And(*o.pc), term(v), t)
        v0 = self.current(key)
        form = folds.loop_form(v0, self.start, self.n, me, self.K, t, *rng)
        if key not in self.upper:
            return form

        def bounded(i):
            r = form(i)
            if isinstance(r, SInt):
                ctx().fact(z3.Implies(term(i) >= term(self.start), z3.And(r.t >= 0, r.t < self.upper_at(key, i))))
                r = SInt(r.t, 0, r.hi, r.tz, r.tag)
            return r

        return bounded

    def upper_at(self, key, i):
        from .values import pow2

        return term(pow2(mk(z3.simplify(z3.substitute(self.upper[key], (self.K, term(i)))), 0)))

    def find_upper(self, key, syms, setup, normal, bad):
        """0 <= value < 2**e(index), for an exponent that occurs in the step."""
        c = self.c
        old = syms[key]
        vals = [self.value_after(o, key) for o in normal]
        exps = {}
        for v in vals:
            for e in lemmas_subterms([term(v)] if isint(v) else []):
                if z3.is_app(e) and e.decl().eq(POW2) and is_const(e.arg(0), bad) and not is_const(e.arg(0), {self.K.get_id()}):
                    exps[e.arg(0).get_id()] = e.arg(0)
        body = self.body
        for e in exps.values():
            self.upper[key] = e
            try:
                if c.proves(term(self.current(key)) < self.upper_at(key, self.start)):
                    syms[key] = SInt(old.t, 0, None)

                    def checked(i):
                        c.fact(old.t >= 0)
                        c.fact(old.t < self.upper_at(key, i))
                        sig = body(i)
                        if sig is None or sig[0] == "continue":
                            v = self.current(key)
                            if not isint(v) or not c.proves(z3.And(term(v) >= 0, term(v) < self.upper_at(key, i + 1)), 4000):
                                return ("return", "range")
                        return sig

                    self.body = checked
                    res = self.trial(setup)
                    if all(r[0] == "ok" and not (r[1].signal is not None and r[1].signal == ("return", "range")) for r in res):
                        return
            except Unsupported:
                pass
            finally:
                self.body = body
                syms[key] = old
            del self.upper[key]

    def quotient_form(self, key, m):
        from .values import idiv, pow2

        v0 = self.current(key)
        start = self.start
        sh = m.bit_length() - 1

        def form(i):
            d = wrap(i) - start
            if isinstance(d, SInt):
                d = SInt(d.t, 0, d.hi, d.tz)
            return idiv(as_int(v0), pow2(d * sh))

        return form

    def summary(self, outs):
        consts, funs = [], []
        for o in outs:
            consts += o.consts
            funs += o.funs
        s = Summary(self.K, consts, funs)
        s.clock = self.clock
        return s


def quotient(vals, st):
    """m when every iteration replaces the value by its quotient by the power of two m."""
    m = None
    for v in vals:
        if not isinstance(v, SInt):
            return None
        t = z3.simplify(v.t)
        if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_IDIV and z3.eq(t.arg(0), st) and z3.is_int_value(t.arg(1))):
            return None
        k = t.arg(1).as_long()
        if k < 2 or k & (k - 1) or m not in (None, k):
            return None
        m = k
    return m


def simple(v):
    return isint(v) or isinstance(v, (VPartial, VBytes, VBuf, bytes))


def same_bytes(v0, u, summ, start):
    """The value before the first iteration fits the form as it is."""
    return isinstance(u, (VBytes, VBuf)) and isinstance(v0, (VBytes, VBuf)) and same_value(v0, summ.at(wrap(start) - 1).v(u))


def same_value(a, b):
    """Equal on the current path."""
    if isint(a) and isint(b) and isinstance(a, (bool, SBool)) == isinstance(b, (bool, SBool)):
        if isinstance(a, (bool, SBool)):
            return ctx().entails(boolterm(a) == boolterm(b))
        return ctx().entails(term(a) == term(b))
    if isinstance(a, VPartial) and isinstance(b, VPartial):
        return a.func == b.func and len(a.args) == len(b.args) and list(a.kw) == list(b.kw) and all(same_value(x, y) for x, y in zip(list(a.args) + list(a.kw.values()), list(b.args) + list(b.kw.values())))
    if isinstance(a, (VBytes, VBuf)) and isinstance(b, (VBytes, VBuf)):
        from .models import seq_eq

        if a is b:
            return True
        rs = ctx().sub(lambda: truth(seq_eq(a.seq, b.seq)))
        return bool(rs) and all(r is True for r in rs)
    if a is b:
        return True
    if isinstance(a, (str, bytes, float, type(None))):
        return type(a) is type(b) and a == b
    from . import text

    if isinstance(a, (str, text.SStr)) and isinstance(b, (str, text.SStr)):
        return truth(text.eq(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if is_program_class(type(a)) and list(a.__dict__) == list(b.__dict__):
        return all(same_value(x, b.__dict__[n]) for n, x in a.__dict__.items())
    return False


def all_lists(d):
    return d is UNKNOWN or type(d) is dict and all(isinstance(x, VList) for x in d.values())


class SameValue:
    pass


Same = SameValue()


class NeedsRecent(core.Control):
    pass


def need(key):
    raise NeedsValue(key)


def free_of(v, bad):
    """v mentions none of the symbols."""
    if v is Same:
        return False
    if isinstance(v, (SInt, SBool)):
        return is_const(v.t, bad)
    if v is None or isinstance(v, (bool, int, str, bytes, float)):
        return True
    if type(v) is tuple:
        return all(free_of(x, bad) for x in v)
    if isinstance(v, Seq):
        for g in v.segs:
            if isinstance(g, list):
                if not all(free_of(x, bad) for x in g):
                    return False
            else:
                if not free_of(g.length, bad):
                    return False
                if isinstance(g, folds.Flat):
                    continue
                k = SInt(z3.Int("k!free"), 0)
                try:
                    if not ctx_sub_free(g, k, bad):
                        return False
                except Unsupported:
                    return False
        return True
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VSorted)):
        return free_of(v.seq, bad)
    from . import models, text

    if isinstance(v, models.VView):
        return free_of(v.obj, bad)

    if isinstance(v, text.SStr):
        return all(free_of(x, bad) for x in text.parts(v))
    if isinstance(v, text.VEnc):
        return free_of(v.s, bad)
    if isinstance(v, VDict):
        return v.raw() is UNKNOWN or v.plain() and all(free_of(x, bad) for x in v.d.values())
    if isinstance(v, VPartial):
        return all(free_of(x, bad) for x in [v.func] + list(v.args) + list(v.kw.values()))
    if isinstance(v, (Bound, Method)):
        return all(free_of(getattr(v, n), bad) for n in type(v).__slots__)
    if is_program_class(type(v)) and not isinstance(v, type) and hasattr(v, "__dict__"):
        return all(free_of(x, bad) for x in v.__dict__.values())
    return True


def ctx_sub_free(g, k, bad):
    rs = ctx().sub(lambda: free_of(g.at(k), bad))
    return all(rs)


def pick(loop, summ, normal, vals, j):
    """Value of the generic iteration at index j (in range on the path)."""
    c = ctx()
    s = summ.at(j)
    rng = z3.And(term(j) >= term(loop.start), term(j) < term(loop.n))
    if len(normal) == 1:
        for x in normal[0].pc:
            c.fact(z3.simplify(z3.Implies(rng, s.t(x))))
        for lo, hi, fn in normal[0].universals:
            key = ("uni", id(fn), s.j.get_id())
            if key not in c.facts_seen and not c.maps:
                c.facts_seen.add(key)
                c.run.keep.append((fn, s.j))
                from . import models

                models.add_universal(s.v(lo), s.v(hi), s.lazy(fn))
        return s.v(vals[0])
    conds = [z3.And(*[s.t(x) for x in o.pc]) for o in normal]
    c.fact(z3.simplify(z3.Implies(rng, z3.Or(*conds))))
    from .merge import groups

    alts = groups(conds, [s.v(v) for v in vals])
    for cd, v in alts[:-1]:
        if c.branch(cd):
            return v
    return alts[-1][1]


def sym_loop(start, n, body, env, peeled=False):
    """Run body(i) for i = start..n-1 (n symbolic); returns the signal that left the loop, or None."""
    c = ctx()
    if not c.branch(term(n) > term(start)):
        return None
    lp = Loop(start, n, body, env)
    lp.peeled = peeled
    lp.weak = True
    what, outs = lp.run()
    if what in ("peel", "first"):
        sig = body(start)
        if sig is not None and sig[0] in ("break", "return"):
            return sig
        return sym_loop(start + 1, n, body, env, True)
    normal = [o for o in outs if o.exc is None and (o.signal is None or o.signal[0] == "continue")]
    exits = [o for o in outs if o not in normal]
    obliged = any(o.obliged for o in outs)
    summ = lp.summary(normal)

    some = disjunction([o.pc for o in normal])

    def normal_cond(j):
        return mkbool(summ.at(j).t(some))

    from . import models

    if (exits or (obliged and not c.quiet)) and c.choose(2) == 1:
        k = SInt(z3.Int(c.name("exit")), bounds(start)[0])
        c.fresh.append(k.t)
        c.assume(z3.And(k.t >= term(start), k.t < term(n)))
        if not z3.eq(z3.simplify(k.t), z3.simplify(term(start))):
            models.add_universal(start, k, normal_cond)
        models.add_index(k)
        for key, f in lp.forms.items():
            lp.store(key, f(k))
        for nm in lp.assigned:
            if ("local", nm) not in lp.carried:
                env.vars[nm] = Thunk(lambda nm=nm, v0=env.vars.get(nm, DEAD): v0 if c.branch(k.t == term(start)) else local_at(lp, summ, normal, nm, k - 1))
        sig = body(k)  # may raise
        if sig is not None and sig[0] in ("break", "return"):
            return sig
        raise PathEnd()
    if exits:
        models.add_universal(start, n, normal_cond)
    for key, f in lp.forms.items():
        lp.store(key, f(n))
    for nm in lp.assigned:
        if ("local", nm) not in lp.carried:
            env.vars[nm] = Thunk(lambda nm=nm: local_at(lp, summ, normal, nm, n - 1))
    if exits and not c.feasible():
        raise Infeasible()
    return None


def disjunction(pcs):
    """Or of the path conditions, what they have in common taken out."""
    if len(pcs) == 1:
        return z3.And(*pcs[0])
    flat = []
    for pc in pcs:
        xs = []
        todo = list(reversed(pc))
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo.extend(reversed(x.children()))
            else:
                xs.append(x)
        flat.append(xs)
    ids = set.intersection(*[{x.get_id() for x in xs} for xs in flat])
    common = list({x.get_id(): x for x in flat[0] if x.get_id() in ids}.values())
    rest = z3.Or(*[z3.And(*[x for x in xs if x.get_id() not in ids]) for xs in flat])
    s = z3.Solver()
    s.set("timeout", 300)
    s.add(*common)
    s.add(z3.Not(rest))
    if s.check() == z3.unsat:
        return z3.And(*common)
    return z3.And(*common, rest)


def local_at(lp, summ, normal, nm, j):
    if any(nm not in o.locals for o in normal):
        raise Unsupported(f"value of {nm} after the loop")
    return pick(lp, summ, normal, [o.locals[nm] for o in normal], j)


# --------------------------------------------------------------------------------------------------------------------
# statements
# --------------------------------------------------------------------------------------------------------------------


def run_over(seq, env, one):
    """one(x) for every element of seq."""
    for g in seq.segs:
        if isinstance(g, list):
            for x in g:
                sig = one(x)
                if sig is not None and sig[0] in ("break", "return"):
                    return sig
        elif isinstance(g, folds.Flat):
            sig = sym_loop(0, g.count, lambda i, g=g: run_over(g.row(i), env, one), env)
            if sig is not None and sig[0] in ("break", "return"):
                return sig
        else:
            sig = sym_loop(0, g.length, lambda i, g=g: one(g.at(i)), env)
            if sig is not None and sig[0] in ("break", "return"):
                return sig
    return None


def exec_for(n, env):
    from . import models

    it = ev(n.iter, env)
    if isinstance(it, VIter):
        # consumed element by element, visible to the body
        s, p = it.raw()
        xs = s.concrete()
        if xs is not None and isinstance(p, int):
            while True:
                s, p = it.raw()
                xs = s.concrete()
                if p >= len(xs):
                    break
                it.set((s, p + 1))
                assign(n.target, xs[p], env)
                sig = exec_block(n.body, env)
                if sig is not None:
                    if sig[0] == "break":
                        return None
                    if sig[0] == "return":
                        return sig
            return exec_block(n.orelse, env)
    if isinstance(it, VFile):
        it = models.file_readlines(it)
    seq = models.to_seq(it)
    if ctx().run.loop_hooks and seq.concrete() is None:
        from . import invariants

        inv = invariants.find(n, env, it)
        if inv is not None:
            return invariants.run_for(n, env, seq, inv)

    def one(x):
        assign(n.target, x, env)
        return exec_block(n.body, env)

    xs = seq.concrete()
    if xs is not None and isinstance(it, VList):
        # the body may modify the list it iterates over
        k = 0
        while True:
            cur = it.seq.concrete()
            if cur is None:
                raise Unsupported("list modified during iteration")
            if k >= len(cur):
                break
            sig = one(cur[k])
            k += 1
            if sig is not None:
                if sig[0] == "break":
                    return None
                if sig[0] == "return":
                    return sig
        return exec_block(n.orelse, env)
    sig = run_over(seq, env, one)
    if sig is not None:
        if sig[0] == "break":
            return None
        return sig
    return exec_block(n.orelse, env)


MAX_UNROLL = 40
DEBUG = bool(os.environ.get("PYVC_DEBUG"))


def exec_while(n, env):
    """Runs the loop while its course is concrete; otherwise analyses a generic iteration (no bound on their number)."""
    c = ctx()
    if c.run.loop_hooks:
        from . import invariants

        inv = invariants.find(n, env, None)
        if inv is not None:
            return invariants.run_while(n, env, inv)

    def iteration(_i):
        if not truth(ev(n.test, env)):
            return ("break", "test")
        return exec_block(n.body, env)

    def rotated(_i):
        sig = exec_block(n.body, env)
        if sig is not None and sig[0] != "continue":
            return sig
        if not truth(ev(n.test, env)):
            return ("break", "test")
        return None

    def generalised():
        if isinstance(n.test, ast.Constant):
            return sym_while(iteration, env)
        # with the test moved behind the body, what the body decides for the test need not be carried around
        if not truth(ev(n.test, env)):
            return ("break", "test")
        try:
            return sym_while(rotated, env)
        except Undecided:
            try:
                return sym_while(iteration, env)
            except Undecided:
                raise Rotated() from None

    k = 0
    generic = True
    while True:
        if generic:
            generic = False
            if not deterministic(iteration, env) and not few(iteration, env):
                try:
                    sig = generalised()
                except Rotated:
                    sig = exec_block(n.body, env)
                    if sig is not None and sig[0] != "continue":
                        return None if sig[0] == "break" else sig
                    k += 1
                    continue
                except Undecided:
                    pass
                else:
                    if sig == ("break", "test"):
                        return exec_block(n.orelse, env)
                    return None if sig[0] == "break" else sig
            else:
                generic = True
        sig = iteration(k)
        if sig is not None:
            if sig == ("break", "test"):
                return exec_block(n.orelse, env)
            if sig[0] == "break":
                return None
            if sig[0] == "return":
                return sig
        k += 1
        if k > MAX_UNROLL and not generic or k > 5000:
            raise Unsupported(f"loop in {env.fname} not bounded by {MAX_UNROLL} iterations")


class Undecided(Exception):
    pass


class Rotated(Exception):
    """Neither form of the loop has a closed form; the test has already been evaluated."""


def deterministic(iteration, env):
    """Does the next iteration take a single path?"""
    c = ctx()
    saved = dict(env.vars)
    count = []

    def once():
        try:
            try:
                iteration(0)
            except ProgExc:
                pass
            count.append(1)
            if len(count) > 1:
                raise Several()
        finally:
            env.vars.clear()
            env.vars.update(saved)

    try:
        c.sub(once)
    except Several:
        return False
    return True


class Several(core.Control):
    pass


FEW = 8


def few(iteration, env):
    """Is every path out of the loop after a few iterations?"""
    c = ctx()
    saved = dict(env.vars)
    count = []

    def once():
        try:
            for k in range(FEW + 1):
                try:
                    sig = iteration(k)
                except ProgExc:
                    break
                if sig is not None and sig[0] != "continue":
                    break
            else:
                raise Several()
            count.append(1)
            if len(count) > 24:
                raise Several()
        finally:
            env.vars.clear()
            env.vars.update(saved)

    try:
        c.sub(once)
    except (Several, Unsupported, NeedsValue):
        return False
    return True


def sym_while(body, env):
    """A loop whose number of iterations is not bounded: some iteration leaves it."""
    from . import models

    c = ctx()
    N = SInt(z3.Int(c.name("fuel")), 1)
    c.assume(N.t >= 1)
    lp = Loop(0, N, body, env)
    lp.peeled = True
    try:
        what, outs = lp.run()
    except Unsupported as e:
        if DEBUG:
            print("while loop:", e)
        raise Undecided() from None
    if what == "first":
        raise Undecided()
    normal = [o for o in outs if o.exc is None and (o.signal is None or o.signal[0] == "continue")]
    exits = [o for o in outs if o not in normal]
    if any(o.obliged for o in outs):
        raise Unsupported("obligation inside an unbounded loop")
    if not exits:
        raise Unsupported("loop without exit")
    summ = lp.summary(normal)

    some = disjunction([o.pc for o in normal])

    def normal_cond(j):
        return mkbool(summ.at(j).t(some))

    if c.choose(2) == 1:
        # no iteration leaves the loop: refuted at some index beyond every size in sight
        terms = [x for x in sizes(lp, env)]
        for x in terms:
            c.assume(N.t > term(x))
        models.add_universal(0, N, normal_cond)
        for x in terms:
            models.add_index(x)
        if c.feasible():
            if DEBUG:
                print(c.solver, c.solver.check())
            raise Unsupported("termination of a loop not proved")
        raise Infeasible()
    k = SInt(z3.Int(c.name("exit")), 0)
    c.fresh.append(k.t)
    c.assume(z3.And(k.t >= 0, k.t < N.t))
    models.add_universal(0, k, normal_cond)
    models.add_index(k)
    models.add_index(k - 1)
    for key, f in lp.forms.items():
        lp.store(key, f(k))
    for nm in lp.assigned:
        if ("local", nm) not in lp.carried:
            env.vars[nm] = Thunk(lambda nm=nm, v0=env.vars.get(nm, DEAD): v0 if c.branch(k.t == 0) else local_at(lp, summ, normal, nm, k - 1))
    sig = body(k)  # may raise
    if sig is not None and sig[0] in ("break", "return"):
        return sig
    raise PathEnd()


def sizes(lp, env):
    """Terms that bound the number of iterations of usual loops."""
    from . import models

    out = [0]
    objs = list(lp.objs.values())
    vals = list(env.vars.values())
    e = env.parent
    while e is not None:
        vals += list(e.vars.values())
        e = e.parent
    for v in vals:
        if isinstance(v, SInt):
            out += [v, v + 1]
            if v.lo is None or v.lo < 0:
                out.append(-v)
        elif is_program_class(type(v)):
            objs += list(getattr(v, "__dict__", {}).values())
        else:
            objs.append(v)
    for o in objs:
        if isinstance(o, VFile):
            content = o.raw()[0]
            out.append(models.m_len(content))
        elif isinstance(o, VIter):
            out.append(models.to_seq(o).length())
        elif hasattr(o, "seq"):
            out.append(o.seq.length())
    return out


def comprehension(n, env):
    """Seq of the elements of a list comprehension or generator expression."""
    from . import models

    out = VList()
    e = comp_env(env)

    branches = any(isinstance(x, (ast.IfExp, ast.BoolOp, ast.Call)) for x in ast.walk(n.elt))

    def level(k):
        if k == len(n.generators):
            out.set(out.seq + Seq([[element()]]))
            return None
        g = n.generators[k]
        it = models.to_seq(ev(g.iter, e if k else env))

        def one(x):
            assign(g.target, x, e)
            for cond in g.ifs:
                if not truth(ev(cond, e)):
                    return None
            return level(k + 1)

        run_over(it, e, one)
        return None

    def element():
        """The element; one value also where its computation branches."""
        if branches and len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name) and isinstance(e.vars.get(n.generators[0].target.id), SInt):
            v = one_value(lambda: ev(n.elt, e))
            if v is not None:
                return v
        return ev(n.elt, e)

    level(0)
    return out.seq


def one_value(fn):
    """The merged value of the paths of fn, when it has several, no effects and makes up no symbols; otherwise None."""
    from .merge import NoMerge, merged

    c = ctx()
    if c.quiet:
        return None
    nf = len(c.fresh)
    clock = c.tick_clock()

    def once():
        npc, mark = len(c.pc), len(c.undo)
        try:
            v = fn()
        except (ProgExc, NeedsValue):
            return None
        for _, tag in c.undo[mark:]:
            if tag is not None:
                born = tag[1].born if isinstance(tag[1], Cell) else c.births.get(id(tag[1]), 0)
                if born < clock:
                    return None
        return z3.And(*c.pc[npc:]), v

    rs = c.sub(once)
    if len(rs) < 2 or any(r is None for r in rs) or len(c.fresh) != nf:
        return None
    try:
        return merged([r[0] for r in rs], [r[1] for r in rs])
    except NoMerge:
        return None


def summarize_map(g, fn):
    """Gen of fn(x) for the elements of a Gen."""
    from .interp import Env

    out = VList()
    e = Env({}, None, "<map>")

    def one(i):
        out.set(out.seq + Seq([[fn(g.at(i))]]))

    sym_loop(0, g.length, one, e)
    segs = out.seq.segs
    if not segs:
        return Gen(0, None)
    if len(segs) == 1 and not isinstance(segs[0], list):
        return segs[0]
    s = out.seq
    return Gen(s.length(), s.get)


def abstract_formula(fn, hint="u"):
    """j -> formula, for a function that may fork but has no effects."""
    c = ctx()
    K = z3.Int(c.name(hint))
    nf = len(c.fresh)
    clock = c.tick_clock()

    def once():
        c.assume(K >= 0)
        npc = len(c.pc)
        try:
            v = fn(SInt(K, 0))
        except ProgExc as p:
            raise Unsupported(f"exception in a quantified condition: {p.exc!r}") from None
        return (c.pc[npc:], v)

    rs = c.sub(once)
    fr = c.fresh[nf:]
    if fr:
        # fresh symbols: only harmless when the formula does not mention them
        ids = {t.get_id() for t in fr}
        for pc, v in rs:
            if not all(is_const(x, ids) for x in pc) or not is_const(boolterm(v), ids):
                raise Unsupported("formula with hidden choices")
    summ = Summary(K, [], [])
    summ.clock = clock
    if not rs:
        return lambda j: False
    if len(rs) == 1:
        t = z3.simplify(z3.Implies(z3.And(*rs[0][0]), boolterm(rs[0][1]))) if rs[0][0] else boolterm(rs[0][1])
    else:
        t = z3.Or(*[z3.And(*pc, boolterm(v)) for pc, v in rs])
    return lambda j: mkbool(summ.at(j).t(t))
