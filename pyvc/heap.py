"""Symbolic containers and heap writes.

Every write to a mutable object is logged in the context so that nested explorations can be undone, and so that loops
know what their bodies modify.
"""

import z3

from . import core
from .core import Unsupported
from .values import Gen, Seq, SInt, SBool, concrete_value, ctx


class VBytes:
    """bytes"""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq if isinstance(seq, Seq) else Seq.lit(seq)

    def __repr__(self):
        return f"VBytes({self.seq.segs})"


CLOCK = 1


class Cell:
    """Mutable object with one content slot."""

    __slots__ = ("_v", "born", "ro", "__weakref__")

    def __new__(cls, *a, **kw):
        o = object.__new__(cls)
        o.born = CLOCK
        o.ro = False
        return o

    def set(self, v):
        if self.ro:
            raise Unsupported("write to an element of a sequence of symbolic length")
        c = core.CTX
        old = self._v
        if c is not None:
            c.record(lambda: setattr(self, "_v", old), ("cell", self, old))
        self._v = v

    def raw(self):
        return self._v


class VBuf(Cell):
    """bytearray"""

    __slots__ = ()

    def __init__(self, seq=()):
        self._v = seq if isinstance(seq, Seq) else Seq.lit(seq)

    @property
    def seq(self):
        return self._v

    def __repr__(self):
        return f"VBuf({self._v.segs})"


class VList(Cell):
    __slots__ = ()

    def __init__(self, seq=()):
        self._v = seq if isinstance(seq, Seq) else Seq.lit(seq)

    @property
    def seq(self):
        return self._v

    def __repr__(self):
        return f"VList({self._v.segs})"


class VSink(VList):
    """A text file of which only what is printed to it counts: the list of the texts printed."""

    __slots__ = ()


class VSorted(Cell):
    """sortedcontainers.SortedList; content is the sorted sequence."""

    __slots__ = ("key",)

    def __init__(self, seq=(), key=None):
        self._v = seq if isinstance(seq, Seq) else Seq.lit(seq)
        self.key = key

    @property
    def seq(self):
        return self._v


class VTuple:
    """tuple of symbolic length"""

    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq


UNKNOWN = object()


class Absorber:
    """An entry of a defaultdict(list) of unknown content: appending has no effect that can be observed, reading is refused."""


class DictMark:
    """The unknown content of a dictionary at the start of an iteration."""


class Over:
    """Content base with entries put over it (keys may be symbolic), the latest last."""

    def __init__(self, base, log):
        self.base, self.log = base, log


class Filled:
    """Content base with the keys start, ..., stop-1 put over it: at(k) at key k."""

    def __init__(self, base, start, stop, at):
        self.base, self.start, self.stop, self.at = base, start, stop, at


class VDict(Cell):
    """dict with concrete keys (insertion ordered); content is a Python dict that is never mutated in place.

    A dictionary filled under keys that are not concrete has content Over/Filled: good for looking up keys only.
    """

    __slots__ = ("default",)

    def __init__(self, d=None, default=None):
        self._v = dict(d or {})
        self.default = default

    @property
    def d(self):
        if type(self._v) is not dict:
            raise Unsupported("content of a dictionary that a loop fills")
        return self._v

    def plain(self):
        return type(self._v) is dict

    def put(self, k, v):
        if self._v is UNKNOWN:
            return
        if isinstance(self._v, Over):
            self.set(Over(self._v.base, self._v.log + [(k, v)]))
            return
        if type(self._v) is not dict or symbolic(k):
            self.set(Over(self._v, [(k, v)]))
            return
        n = dict(self._v)
        n[k] = v
        self.set(n)

    def drop(self, k):
        n = dict(self.d)
        del n[k]
        self.set(n)


def symbolic(k):
    from . import text

    return isinstance(k, (SInt, SBool, text.SStr))


class VSet(Cell):
    __slots__ = ()

    def __init__(self, s=()):
        self._v = list(s)


class VIter(Cell):
    """iterator: (seq, position)"""

    __slots__ = ()

    def __init__(self, seq, pos=0):
        self._v = (seq, pos)


class VFile(Cell):
    """BytesIO/StringIO: (content, position, closed)"""

    __slots__ = ("text", "name")

    def __init__(self, content, pos=0, text=False, name=None):
        self._v = (content, pos, False)
        self.text = text
        self.name = name


class VRange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class VNone:
    pass


def set_attr(obj, name, value):
    """Instance attribute write on an object whose class is program code."""
    d = obj.__dict__
    c = core.CTX
    missing = name not in d
    old = d.get(name)

    def undo():
        if missing:
            d.pop(name, None)
        else:
            d[name] = old

    if c is not None:
        if id(obj) in c.frozen:
            raise Unsupported("write to an element of a sequence of symbolic length")
        c.record(undo, ("attr", obj, name))
    d[name] = value


def del_attr(obj, name):
    d = obj.__dict__
    old = d[name]
    c = core.CTX
    if c is not None:
        c.record(lambda: d.__setitem__(name, old), ("attr", obj, name))
    del d[name]
