"""Vocabulary of the contracts."""

import z3

from pyvc import core
from pyvc.core import Unsupported
from pyvc.heap import VBuf, VBytes, VFile, VList, VTuple
from pyvc.interp import NeedsValue, ProgExc, call, get_attr, truth  # noqa: F401
from pyvc.models import eq as v_eq, seq_eq, to_seq as _to_seq  # noqa: F401
from pyvc.task import Task  # noqa: F401
from pyvc.values import (  # noqa: F401
    Gen,
    SBool,
    Seq,
    SInt,
    as_int,
    boolterm,
    byte_fn,
    concrete_value,
    ctx,
    fresh_int,
    idiv,
    imod,
    implies,
    input_bytes,
    input_int,
    ite,
    land,
    lnot,
    lor,
    mk,
    mkbool,
    pow2,
    term,
    wrap,
)


def to_seq(v):
    return v if isinstance(v, Seq) else _to_seq(v)


def hx(xs):
    return bytes(xs).hex()


def assume(x):
    ctx().assume(boolterm(x))


def oblige(name, goal, detail=""):
    return ctx().oblige(name, boolterm(goal), detail)


def same(name, a, b):
    """The two sequences have equal length and equal elements."""
    c = ctx()
    a, b = to_seq(a), to_seq(b)
    la, lb = a.length(), b.length()
    oblige(name + ": length", wrap(la) == lb)
    side(lambda: _elem(name, a, b, la))


def _elem(name, a, b, la):
    i = fresh_int("ix", 0)
    assume(i < la)
    from pyvc.models import add_index

    add_index(i)
    oblige(name + ": content", v_eq(a.get(i), b.get(i)))


def side(fn):
    """A separate branch of the proof; its assumptions do not reach what follows."""

    def run():
        try:
            fn()
        except ProgExc as p:
            oblige("no unexpected exception", False, f"{type(p.exc).__name__}: {p.exc}")
        except NeedsValue as e:
            raise Unsupported(f"loop-carried variable {e.what}") from None

    ctx().detour(run)


def at(name, seq, i, value):
    oblige(name, v_eq(to_seq(seq).get(i), value))


def attempt(f, *args, **kw):
    """(True, value) or (False, exception)."""
    try:
        return True, call(f, list(args), kw)
    except ProgExc as p:
        return False, p.exc


def why(r):
    return f"raised {type(r).__name__}: {r}" if isinstance(r, BaseException) else "returned"


STATE = {  # what a section and an image consist of
    "Section": ("start_address", "data"),
    "Image": ("_sections", "_join", "address", "meta", "valid"),
}


def method(o, name, *args, **kw):
    """Contracts of one call say all only of objects that keep nothing else between calls."""
    own = STATE.get(type(o).__name__)
    if own is None:
        return attempt(get_attr(o, name), *args, **kw)
    before = dict(o.__dict__)
    r = attempt(get_attr(o, name), *args, **kw)
    after = o.__dict__
    for k in before.keys() | after.keys():
        if k not in own and not (k in before and k in after and (before[k] is after[k] or (isinstance(before[k], (int, str, type(None))) and before[k] == after[k]))):
            raise core.Unsupported(f"state kept in {type(o).__name__}.{k}")
    return r


def refused(name, ok, exc, kinds):
    if ok:
        return oblige(name, False, "no exception")
    oblige(name, isinstance(exc, kinds), f"raised {type(exc).__name__}: {exc}")


def section(name="s", start=None, length=None):
    """An arbitrary section; returns (object, start address, content)."""
    from objutils.section import Section

    if start is None:
        start = input_int(name + "_start", 0)
    data = input_bytes(name + "_data", length)
    o = call(Section, [start, VBuf(data)])
    return o, start, data


def arbitrary_bytes(name, length=None):
    return input_bytes(name, length)


def state(o):
    """(start address, content) of a section object."""
    return o.__dict__["start_address"], to_seq(o.__dict__["data"])


def unchanged(name, o, start, data):
    s, d = state(o)
    oblige(name + ": start address", wrap(s) == start)
    same(name + ": data", d, data)


def cover(name):
    ctx().run.cover(name)


# -- images ---------------------------------------------------------------------------------------------------------


class Sections:
    """An arbitrary number of arbitrary sections (number n, start address, length and bytes as functions of the index)."""

    def __init__(self, name, n=None, known=True, top=None, minlen=0, maxlen=None):
        from pyvc.values import new_fun

        self.top, self.minlen, self.maxlen = top, minlen, maxlen
        self.n = input_int(name + "_n", 0) if n is None else n
        self.f_start = new_fun(name + "_start", 1, 0, top)
        self.f_len = new_fun(name + "_len", 1, minlen, maxlen)
        self.f_byte = new_fun(name + "_byte", 2, 0, 255)
        ctx().inputs.pop(name + "_n", None)
        if known:
            ctx().inputs[name] = ("sections", self.n, self.f_start, self.f_len, self.f_byte)
        self.template()
        self.gen = Gen(self.n, self.at)

    def template(self):
        """The section at a generic index, built by the real constructor; the others are its instances."""
        import z3

        from objutils.section import Section
        from pyvc.loops import Summary

        c = ctx()
        K = z3.Int(c.name("sec"))
        clock = c.tick_clock()
        k = SInt(K, 0)
        self.obj = call(Section, [self.start(k), VBuf(self.bytes(k))])
        self.summ = Summary(K, [], [])
        self.summ.clock = clock

    def at(self, i):
        return self.summ.at(i).v(self.obj)

    def start(self, i):
        return SInt(self.f_start(term(i)), 0, self.top)

    def length(self, i):
        return SInt(self.f_len(term(i)), self.minlen, self.maxlen)

    def end(self, i):
        return self.start(i) + self.length(i)

    def bytes(self, i):
        f = self.f_byte
        return Seq([Gen(self.length(i), lambda j: SInt(f(term(i), term(j)), 0, 255))])


def disjoint(secs):
    """Concrete sections [[start, bytes]] sorted and without overlap?"""
    return all(a + len(d) <= b for (a, d), (b, _) in zip(secs, secs[1:]))


def every(lo, hi, fn):
    """Assume fn(j) for all lo <= j < hi."""
    from pyvc.models import add_universal

    add_universal(lo, hi, fn)


def image_of(seq, join=True):
    """An image with the given sections, which must be sorted and disjoint (the invariant established by C04)."""
    from objutils.image import Image
    from pyvc.heap import VSorted

    img = call(Image, [VList([])], {"join": join})
    cell = sections_cell(img)
    if isinstance(cell, VSorted):
        cell._v = seq
    else:
        cell.set(seq)
    return img


def sections_cell(img):
    from pyvc.core import Unsupported
    from pyvc.heap import VSorted

    cells = [v for v in img.__dict__.values() if isinstance(v, (VSorted, VList))]
    if len(cells) != 1:
        raise Unsupported("representation of Image unknown")
    return cells[0]
