"""Merging the values of the alternative paths of a generic iteration into one value (if-then-else on the path conditions)."""

import z3

from . import core, folds, text
from .heap import VBuf, VBytes, VList, VTuple
from .interp import VPartial, is_program_class
from .values import Gen, SBool, Seq, SInt, boolterm, bounds, ctx, isint, mk, mkbool, term


class NoMerge(core.Control):
    pass


def merged(conds, ws):
    """One value equal to ws[k] where conds[k] holds (the conditions are exhaustive); NoMerge when the values differ in structure."""
    w = ws[0]
    if all(x is w for x in ws):
        return w
    if all(isint(x) and not isinstance(x, (bool, SBool)) for x in ws):
        return ints(conds, ws)
    if all(isinstance(x, (bool, SBool)) for x in ws):
        t = boolterm(ws[-1])
        for cd, x in list(zip(conds, ws))[:-1][::-1]:
            t = z3.If(cd, boolterm(x), t)
        return mkbool(z3.simplify(t))
    if all(isinstance(x, (str, text.SStr)) for x in ws):
        return texts(conds, ws)
    if all(type(x) is type(w) for x in ws):
        if w is None or isinstance(w, (bytes, float)):
            if all(x == w for x in ws):
                return w
            raise NoMerge()
        if isinstance(w, tuple):
            if any(len(x) != len(w) for x in ws):
                raise NoMerge()
            return tuple(merged(conds, list(xs)) for xs in zip(*ws))
        if isinstance(w, VPartial):
            if any(x.func != w.func or len(x.args) != len(w.args) or list(x.kw) != list(w.kw) for x in ws):
                raise NoMerge()
            return VPartial(w.func, [merged(conds, list(xs)) for xs in zip(*[x.args for x in ws])], {n: merged(conds, [x.kw[n] for x in ws]) for n in w.kw})
        if isinstance(w, Seq):
            return seqs(conds, ws)
        if isinstance(w, (VBytes, VTuple)):
            return type(w)(seqs(conds, [x.seq for x in ws]))
        if isinstance(w, (VBuf, VList)):
            if not all(x.ro for x in ws):
                raise NoMerge()
            r = type(w)(seqs(conds, [x.seq for x in ws]))
            r.ro = True
            return r
        if isinstance(w, text.VEnc):
            return text.VEnc(merged(conds, [x.s for x in ws]))
        from . import models

        c = ctx()
        if type(w) in models.PLAIN and all(x.__dict__ == w.__dict__ for x in ws):
            return w
        if is_program_class(type(w)) and all(id(x) in c.frozen for x in ws):
            if any(list(x.__dict__) != list(w.__dict__) for x in ws):
                raise NoMerge()
            o = models.new_object(type(w))
            c.frozen.add(id(o))
            for n in w.__dict__:
                o.__dict__[n] = merged(conds, [x.__dict__[n] for x in ws])
            return o
    raise NoMerge()


def groups(conds, ws):
    """[(condition, value)]: the alternatives, those of the same structure merged."""
    out = []
    for cd, w in zip(conds, ws):
        for g in out:
            try:
                m = merged(g[0] + [cd], g[1] + [w])
            except NoMerge:
                continue
            g[0].append(cd)
            g[1].append(w)
            g[2] = m
            break
        else:
            out.append([[cd], [w], w])
    return [(z3.Or(*g[0]) if len(g[0]) > 1 else g[0][0], g[2]) for g in out]


def ints(conds, ws):
    ts = [term(x) for x in ws]
    if all(z3.eq(t, ts[0]) for t in ts):
        return ws[0]
    ss = [z3.simplify(t) for t in ts]
    if all(z3.eq(t, ss[0]) for t in ss):
        return ws[0]
    t = ts[-1]
    for cd, x in list(zip(conds, ts))[:-1][::-1]:
        t = z3.If(cd, x, t)
    bs = [bounds(x) for x in ws]
    lo = None if any(b[0] is None for b in bs) else min(b[0] for b in bs)
    hi = None if any(b[1] is None for b in bs) else max(b[1] for b in bs)
    return mk(t, lo, hi)


def character(x):
    """The code of a text of one character."""
    ps = text.pieces(x)
    if len(ps) == 1 and (isinstance(ps[0], str) and len(ps[0]) == 1 or isinstance(ps[0], text.Chars)):
        xs = text.codes(x).concrete()
        return xs[0] if xs is not None and len(xs) == 1 else None
    return None


def texts(conds, ws):
    if all(isinstance(x, str) for x in ws):
        if all(x == ws[0] for x in ws):
            return ws[0]
    cs = [character(x) for x in ws]
    if all(x is not None for x in cs):
        return text.SStr([text.Chars(Seq([[ints(conds, cs)]]))])
    if all(isinstance(x, str) for x in ws):
        raise NoMerge()
    pss = [text.pieces(x) for x in ws]
    if any(len(ps) != len(pss[0]) for ps in pss):
        raise NoMerge()
    out = []
    for ps in zip(*pss):
        p = ps[0]
        if any(type(q) is not type(p) for q in ps):
            raise NoMerge()
        if isinstance(p, str):
            if any(q != p for q in ps):
                raise NoMerge()
            out.append(p)
        elif isinstance(p, text.Hex):
            if any((q.width, q.upper) != (p.width, p.upper) for q in ps):
                raise NoMerge()
            out.append(text.Hex(ints(conds, [q.v for q in ps]), p.width, p.upper))
        elif isinstance(p, text.HexSeq):
            if any((q.sep, q.upper) != (p.sep, p.upper) for q in ps):
                raise NoMerge()
            out.append(text.HexSeq(seqs(conds, [q.seq for q in ps]), p.sep, p.upper))
        elif isinstance(p, text.Chars):
            out.append(text.Chars(seqs(conds, [q.seq for q in ps])))
        else:
            raise NoMerge()
    return text.SStr(out)


def seqs(conds, ws):
    w = ws[0]
    if any(len(x.segs) != len(w.segs) for x in ws):
        raise NoMerge()
    out = []
    for gs in zip(*[x.segs for x in ws]):
        g = gs[0]
        if all(isinstance(h, list) for h in gs):
            if any(len(h) != len(g) for h in gs):
                raise NoMerge()
            out.append([merged(conds, list(xs)) for xs in zip(*gs)])
        elif all(isinstance(h, Gen) for h in gs):
            from .models import same_gen

            if all(same_gen(g, h) for h in gs[1:]):
                out.append(g)
            else:
                n = ints(conds, [h.length for h in gs])
                k = SInt(z3.Int("k!merge"), 0)
                try:
                    es = [h.at(k) for h in gs]
                except core.Unsupported:
                    raise NoMerge() from None
                if not all(isint(e) for e in es):
                    raise NoMerge()
                out.append(Gen(n, lambda i, gs=gs: merged(conds, [h.at(i) for h in gs])))
        else:
            raise NoMerge()
    r = Seq()
    r.segs = out
    return r
