"""Loops with a written invariant.

A hook (run.loop_hooks) may claim a loop and supply an Invariant: a description of the state before iteration i.  The
invariant is established before the first iteration, preserved by an arbitrary iteration, and assumed after the loop.
A failing invariant never refutes the property (it may just be too weak for the code as it is now): it leaves the
contract unproved, and its counter-model is only replayed on the real code.
"""

import ast

from . import core
from .core import PathEnd, Unsupported
from .heap import Cell
from .values import ctx, fresh_int, term, wrap


class Invariant:
    """State description: havoc(i) puts an arbitrary state satisfying it in place, check(i, when) demands it.

    names: locals it describes; cells: mutable objects (existing before the loop) it describes.
    """

    names = ()

    def cells(self):
        return ()

    def havoc(self, i):
        raise NotImplementedError

    def check(self, i, when):
        raise NotImplementedError

    def oblige(self, name, goal):
        from .values import boolterm

        ctx().oblige("loop invariant: " + name, boolterm(goal), soft=True)


def assigned_names(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
    return out


def find(n, env, it):
    for h in ctx().run.loop_hooks:
        inv = h(n, env, it)
        if inv is not None:
            return inv
    return None


def run_for(n, env, seq, inv):
    from .interp import assign, exec_block

    N = seq.length()

    def more(i):
        return wrap(i) < N

    def step(i):
        assign(n.target, seq.get(i), env)
        return exec_block(n.body, env)

    return run(n, env, inv, assigned_names(n.body) | assigned_names([ast.Expr(n.target)]), N, more, step)


def run_while(n, env, inv):
    """inv.count() bounds the number of iterations (the variant)."""
    from .interp import ev, exec_block, truth

    N = inv.count()

    def more(i):
        return truth(ev(n.test, env))

    def step(i):
        inv.oblige("the loop ends", wrap(i) < N)
        return exec_block(n.body, env)

    return run(n, env, inv, assigned_names(n.body), N, more, step)


def run(n, env, inv, names, N, more, step):
    from .interp import DEAD, exec_block, truth

    c = ctx()
    if c.quiet:
        raise Unsupported("loop with an invariant inside a nested exploration")
    inv.check(0, "initially")
    which = c.choose(2)
    for nm in names:
        if nm in env.vars and nm not in inv.names:
            env.vars[nm] = DEAD
    i = fresh_int("inv_i", 0)
    c.assume(term(i) <= term(N))
    from .models import add_index

    add_index(i)
    known = {id(x) for x in inv.cells()}
    inv.havoc(i)
    if truth(more(i)) == (which == 0):
        raise PathEnd()
    if not c.feasible():
        raise PathEnd()
    if which == 0:
        return exec_block(n.orelse, env)
    known |= {id(x) for x in inv.cells()}
    clock = c.tick_clock()
    mark = len(c.undo)
    sig = step(i)
    if sig is not None and sig[0] == "break":
        return None
    if sig is not None and sig[0] == "return":
        return sig
    for _, tag in c.undo[mark:]:
        if tag is None:
            continue
        obj = tag[1]
        if id(obj) in known:
            continue
        born = obj.born if isinstance(obj, Cell) else c.births.get(id(obj), 0)
        if born < clock:
            raise Unsupported("the loop modifies an object that its invariant does not describe")
    inv.check(wrap(i) + 1, "preserved")
    raise PathEnd()
