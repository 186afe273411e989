"""Models of the Python built-ins and library functions the program uses (trusted; see selftest.py).

Everything here must over-approximate or be exact: a model either describes what CPython does for every input of the
kind it accepts, or raises Unsupported.
"""

import ast
import builtins
import copy as copy_mod
import functools
import hashlib
import io
import logging
import itertools
import operator
import os
import reprlib
import struct
import types
import xml.etree.ElementTree as ElementTree

import z3

from . import core
from .core import Infeasible, Unsupported
from .heap import UNKNOWN, Absorber, Cell, VBuf, VBytes, VDict, VFile, VIter, VList, VRange, VSet, VSink, VSorted, VTuple, set_attr
from .interp import (
    MODELLED,
    in_repo,
    Bound,
    Method,
    ProgExc,
    StarSeq,
    VFunc,
    VPartial,
    call,
    get_attr,
    is_program_class,
    lookup,
    put_attr,
    raise_,
    truth,
    truth_value,
)
from .values import (
    Gen,
    SBool,
    Seq,
    SInt,
    SRatio,
    as_int,
    boolterm,
    bounds,
    concrete_value,
    ctx,
    fresh_int,
    iand,
    idiv,
    imax,
    imin,
    imod,
    implies,
    ior,
    isint,
    ite,
    ixor,
    land,
    lnot,
    lor,
    mk,
    mkbool,
    new_fun,
    shl,
    shr,
    term,
    wrap,
)
from .text import SStr, VEnc
from . import text
from . import xmltree

BYTESLIKE = (VBytes, VBuf, bytes, bytearray, VEnc)


class SFloat:
    """Opaque float; equality is equality of the identifying term."""

    __slots__ = ("t", "width")

    def __init__(self, t, width):
        self.t, self.width = t, width


def trust(msg):
    ctx().run.trusted.add(msg)


# --------------------------------------------------------------------------------------------------------------------
# quantified facts
# --------------------------------------------------------------------------------------------------------------------


def add_universal(lo, hi, fn):
    """Assume fn(j) for all lo <= j < hi; instantiated at every index term of interest."""
    c = ctx()
    if c.maps:
        raise Unsupported("quantified fact inside a generic element")
    u = (lo, hi, fn)
    c.universals.append(u)
    for t in list(c.indices):
        _instance(u, t)


def _instance(u, t):
    lo, hi, fn = u
    g = land(wrap(t) >= lo, wrap(t) < hi) if isinstance(t, (int, SInt)) else None
    if g is False:
        return
    f = fn(t)
    if f is True:
        return
    ctx().assume(z3.Implies(boolterm(g), boolterm(f)))


def add_index(t):
    c = ctx()
    for x in c.indices:
        if z3.eq(term(x), term(t)):
            return
    c.indices.append(t)
    for u in list(c.universals):
        _instance(u, t)


def witness(hint, lo, hi):
    """Fresh index lo <= w < hi (assumed)."""
    w = fresh_int(hint, lo if isinstance(lo, int) else None)
    if not isinstance(lo, int):
        ctx().assume(term(w) >= term(lo))
    ctx().assume(term(w) < term(hi))
    add_index(w)
    return w


def pure(fn, hint="u"):
    """(j -> formula) from a function that may fork: evaluated once at a canonical index, then substituted."""
    from . import loops

    return loops.abstract_formula(fn, hint)


def forall_gen(g, pred, hint="w"):
    """Does pred hold for all elements of the Gen?  Forks; on the false side at a witness."""
    c = ctx()
    n = g.length
    k = fresh_int(hint + "_k", 0)
    inside = z3.And(term(k) >= 0, term(k) < term(n))
    f = pure_gen(g, pred)
    if c.proves(z3.Implies(inside, boolterm(f(k)))):
        return True
    if c.choose(2) == 0:
        add_universal(0, n, f)
        return True
    w = witness(hint, 0, n)
    c.assume(z3.Not(boolterm(f(w))))
    if not c.feasible():
        raise Infeasible()
    return False


def pure_gen(g, pred):
    return pure(lambda j: pred(g.at(j)))


def forall(seq, pred, hint="w"):
    """Python bool (forking): pred for every element."""
    for s in seq.segs:
        if isinstance(s, list):
            for x in s:
                if not truth(pred(x)):
                    return False
        elif not forall_gen(s, pred, hint):
            return False
    return True


# --------------------------------------------------------------------------------------------------------------------
# conversions
# --------------------------------------------------------------------------------------------------------------------


def is_symbolic(v):
    return isinstance(v, (SInt, SBool, SStr, SRatio, SFloat, VEnc))


def lower(v):
    """Native Python value of a V value; Unsupported when it is symbolic."""
    if isinstance(v, (SInt, SBool)):
        x = concrete_value(as_int(v))
        if x is None:
            raise Unsupported("symbolic value passed to a native function")
        return x
    if isinstance(v, SStr):
        x = text.concrete(v)
        if x is None:
            raise Unsupported("symbolic string passed to a native function")
        return x
    if isinstance(v, VEnc):
        x = text.concrete(v.s)
        if x is None:
            raise Unsupported("symbolic bytes passed to a native function")
        return x.encode("latin1")
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VSorted)):
        xs = v.seq.concrete()
        if xs is None:
            raise Unsupported("symbolic sequence passed to a native function")
        xs = [lower(x) for x in xs]
        if isinstance(v, VBytes):
            return bytes(xs)
        if isinstance(v, VBuf):
            return bytearray(xs)
        if isinstance(v, VTuple):
            return tuple(xs)
        return xs
    if isinstance(v, VDict):
        return {k: lower(x) for k, x in v.d.items()}
    if isinstance(v, VSet):
        return {lower(x) for x in v.raw()}
    if isinstance(v, tuple) and type(v) is tuple:
        return tuple(lower(x) for x in v)
    if isinstance(v, list):
        return [lower(x) for x in v]
    if isinstance(v, (VFunc, Bound, Method, VPartial, VFile, SFloat, SRatio)):
        raise Unsupported(f"{type(v).__name__} passed to a native function")
    if isinstance(v, VIter):
        xs = to_seq(v).concrete()
        if xs is None:
            raise Unsupported("symbolic iterator passed to a native function")
        return iter([lower(x) for x in xs])
    if isinstance(v, VRange):
        return range(lower(v.start), lower(v.stop), lower(v.step))
    return v


def lift(v):
    if isinstance(v, bytearray):
        return VBuf(list(v))
    if type(v) is list:
        return VList([lift(x) for x in v])
    if type(v) is dict:
        return VDict({k: lift(x) for k, x in v.items()})
    if type(v) is set:
        return VSet([lift(x) for x in v])
    if isinstance(v, types.GeneratorType) or (hasattr(v, "__next__") and not isinstance(v, io.IOBase)):
        return VIter(Seq([[lift(x) for x in v]]))
    if type(v) is range:
        return VRange(v.start, v.stop, v.step)
    return v


def native(f, args, kw):
    if isinstance(f, types.BuiltinMethodType) and type(f.__self__) is dict and f.__name__ == "get" and isinstance(as_int(args[0]), SInt):
        return dict_get_native(f.__self__, as_int(args[0]), *(args[1:] or [None]))
    a = [lower(x) for x in args]
    k = {n: lower(x) for n, x in kw.items()}
    if getattr(f, "__module__", None) in ("os", "posix", "shutil", "subprocess"):
        raise Unsupported(f"call of {f!r}")
    try:
        r = f(*a, **k)
    except Exception as e:
        raise ProgExc(e) from None
    return lift(r)


def range_len(r):
    a, b, s = r.start, r.stop, r.step
    if isinstance(a, int) and isinstance(b, int) and isinstance(s, int):
        return len(range(a, b, s))
    if isinstance(s, int):
        if s > 0:
            d = b - a
            n = idiv(wrap(d) + (s - 1), s) if s != 1 else d
            return imax(n, 0)
        d = a - b
        n = idiv(wrap(d) + (-s - 1), -s) if s != -1 else d
        return imax(n, 0)
    if not ctx().proves(term(s) > 0):
        raise Unsupported("range with a step of unknown sign")
    d = b - a
    if ctx().proves(term(d) > 0):
        n = idiv(wrap(d) + (s - 1), s)
        if isinstance(n, SInt):
            n = SInt(n.t, 1, n.hi, n.tz, n.tag)
    else:
        n = imax(idiv(wrap(d) + (s - 1), s), 0)
    if isinstance(n, SInt):
        # defining inequalities of ceiling division, in a linear-friendly form
        c = ctx()
        c.fact(z3.Implies(term(d) > 0, z3.And((term(n) - 1) * term(s) < term(d), term(d) <= term(n) * term(s), term(n) >= 1)))
        c.fact(z3.Implies(term(d) <= 0, term(n) == 0))
    return n


def to_seq(v):
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VSorted)):
        return v.seq
    if isinstance(v, VEnc):
        return v.seq
    if isinstance(v, VArray):
        if v.code == "B":
            return v.seq
        raise Unsupported("elements of an array of machine words")
    if isinstance(v, VView):
        return to_seq(v.obj)
    if isinstance(v, VNd):
        raise Unsupported("elements of a numpy array")
    if isinstance(v, (bytes, bytearray)):
        return Seq([list(v)])
    if isinstance(v, tuple):
        return Seq([list(v)])
    if isinstance(v, list):
        return Seq([[lift(x) for x in v]])
    if isinstance(v, str):
        return Seq([list(v)])
    if isinstance(v, SStr):
        return text.chars(v)
    if isinstance(v, VDict):
        return Seq([list(v.d)])
    if isinstance(v, VSet):
        return Seq([list(v.raw())])
    if isinstance(v, VIter):
        s, p = v.raw()
        v.set((Seq(), 0))
        if isinstance(p, int) and p == 0:
            return s
        return s.slice(p, s.length())
    if isinstance(v, VRange):
        n = range_len(v)
        if isinstance(n, int) and n <= 4096 and all(isinstance(x, int) for x in (v.start, v.step)):
            return Seq([[v.start + k * v.step for k in range(n)]])
        return Seq([Gen(n, lambda i: i * v.step + v.start)])
    if isinstance(v, VFile):
        raise Unsupported("iteration over a file")
    if isinstance(v, (dict, set, frozenset, range, types.MappingProxyType)):
        return Seq([[lift(x) for x in v]])
    cls = type(v)
    if cls is xmltree.Elem:
        return v.children
    if cls in SEQUENCES:
        return SEQUENCES[cls](v)
    if is_program_class(cls):
        f = lookup(cls, "__iter__")
        if f is not None:
            return to_seq(call(f, [v]))
    if hasattr(v, "__iter__"):
        try:
            return Seq([[lift(x) for x in v]])
        except TypeError as e:
            raise ProgExc(e) from None
    raise_(TypeError(f"{cls.__name__!r} object is not iterable"))


def pytype(v):
    """The Python type a value has in the program."""
    if isinstance(v, SInt):
        return int
    if isinstance(v, SBool):
        return bool
    if isinstance(v, SStr):
        return str
    if isinstance(v, (VBytes, VEnc)):
        return bytes
    if isinstance(v, VBuf):
        return bytearray
    if isinstance(v, VList):
        return list
    if isinstance(v, VTuple):
        return tuple
    if isinstance(v, VDict):
        import collections

        return collections.defaultdict if v.default is not None else dict
    if isinstance(v, VSet):
        return set
    if isinstance(v, (SFloat, SRatio)):
        return float
    if isinstance(v, VSorted):
        from sortedcontainers import SortedList

        return SortedList
    if isinstance(v, VFile):
        return io.StringIO if v.text else io.BytesIO
    if isinstance(v, VRange):
        return range
    if isinstance(v, VIter):
        return types.GeneratorType
    if isinstance(v, VArray):
        return array_mod.array
    if isinstance(v, VView):
        return memoryview
    if isinstance(v, VNd):
        import numpy as np

        return np.ndarray
    if isinstance(v, (VFunc,)):
        return types.FunctionType
    if isinstance(v, Bound):
        return types.MethodType
    return type(v)


def m_isinstance(v, k):
    t = pytype(v)
    if isinstance(k, VTuple):
        k = tuple(k.seq.concrete())
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VDict, VSet, VSorted, VFile, SInt, SBool, SStr, VEnc, SFloat, SRatio, VRange, VIter, VFunc, Bound, VArray, VView, VNd)):
        return issubclass(t, k)
    return isinstance(v, k)


def m_len(v):
    if isinstance(v, (VBytes, VBuf, VList, VTuple, VSorted)):
        return v.seq.length()
    if isinstance(v, VEnc):
        return text.length(v.s)
    if isinstance(v, SStr):
        return text.length(v)
    if isinstance(v, VArray):
        return idiv(wrap(v.seq.length()), ITEMSIZE[v.code])
    if isinstance(v, VView):
        return m_len(v.obj)
    if isinstance(v, VNd):
        raise Unsupported("len of a numpy array")
    if isinstance(v, VDict):
        return len(v.d)
    if isinstance(v, VSet):
        return len(v.raw())
    if isinstance(v, VRange):
        return range_len(v)
    cls = type(v)
    if is_program_class(cls):
        f = lookup(cls, "__len__")
        if isinstance(f, types.FunctionType):
            return call(f, [v])
    if isint(v) or v is None or isinstance(v, (VIter, VFile)):
        raise_(TypeError(f"object of type {pytype(v).__name__!r} has no len()"))
    try:
        return len(v)
    except TypeError as e:
        raise ProgExc(e) from None


# --------------------------------------------------------------------------------------------------------------------
# items and slices
# --------------------------------------------------------------------------------------------------------------------


def norm_index(i, n, what="index out of range"):
    """Index in 0..n-1 (Python semantics); IndexError otherwise."""
    i = as_int(i)
    if not isint(i):
        raise_(TypeError("indices must be integers"))
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise_(IndexError(what))
        return i + n if i < 0 else i
    if wrap(i) < 0:
        i = i + n
        if wrap(i) < 0:
            raise_(IndexError(what))
        return i
    if wrap(i) >= n:
        raise_(IndexError(what))
    return i


def clamp(i, n, default):
    if i is None:
        return default
    i = as_int(i)
    if isinstance(i, int) and isinstance(n, int):
        return min(i, n) if i >= 0 else max(i + n, 0)
    lo, _ = bounds(i)
    if lo is None or lo < 0:
        if wrap(i) < 0:
            j = i + n
            return j if bool(wrap(j) >= 0) else 0
    # i >= 0
    return i if bool(wrap(i) <= n) else n


def slice_bounds(lo, hi, n):
    a = clamp(lo, n, 0)
    b = clamp(hi, n, n)
    if isinstance(a, int) and a == 0:
        return a, b
    if bool(wrap(a) > b):
        b = a
    return a, b


def get_item(o, k):
    if isinstance(o, (VBytes, VBuf, VList, VTuple, VSorted)):
        n = o.seq.length()
        i = norm_index(k, n)
        return o.seq.get(i)
    if isinstance(o, VDict):
        if o.raw() is UNKNOWN and o.default is list:
            return Absorber()
        return dict_get(o, k)
    if isinstance(o, dict):
        return dict_get_native(o, k)
    if isinstance(o, (bytes, str, tuple)) or type(o) is list:
        if isinstance(as_int(k), SInt):
            i = norm_index(k, len(o))
            if isinstance(o, str):
                return text.from_code(Seq([[ord(x) for x in o]]).get(i))
            return to_seq(o).get(i)
        try:
            return lift(o[as_int(k)])
        except (IndexError, TypeError) as e:
            raise ProgExc(e) from None
    if isinstance(o, SStr):
        n = text.length(o)
        return text.char_at(o, norm_index(k, n))
    if isinstance(o, VEnc):
        n = m_len(o)
        return o.seq.get(norm_index(k, n))
    if isinstance(o, VRange):
        i = norm_index(k, range_len(o))
        return i * o.step + o.start
    cls = type(o)
    if is_program_class(cls):
        f = lookup(cls, "__getitem__")
        if isinstance(f, types.FunctionType):
            return call(f, [o, k])
    try:
        return lift(o[lower(k)])
    except Exception as e:
        raise ProgExc(e) from None


def get_slice(o, lo, hi, st):
    st = as_int(st) if st is not None else None
    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return o[lo:hi:st]
    if isinstance(o, VView):
        if not isinstance(o.obj, (VBytes, bytes)):
            raise Unsupported("part of a memoryview of a mutable object")
        return VView(get_slice(o.obj, lo, hi, st))
    if isinstance(o, (VBytes, VBuf, VList, VTuple, bytes, bytearray, VEnc, VSorted)) or type(o) in (tuple, list):
        s = to_seq(o)
        n = s.length()
        if st is not None and st != 1:
            if st == -1 and lo is None and hi is None:
                r = s.reversed()
            else:
                xs = s.concrete()
                if xs is None or not all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    raise Unsupported("extended slice")
                r = Seq([xs[lo:hi:st]])
        else:
            a, b = slice_bounds(lo, hi, n)
            if isinstance(o, VEnc):
                if a == 0 and s._is_len(b):
                    return o
                r = text.sub(o.s, a, b)
                return r.encode("latin1") if isinstance(r, str) else VEnc(r)
            r = s.slice(a, b)
        if isinstance(o, (VBytes, bytes, VEnc)):
            return VBytes(r)
        if isinstance(o, (VBuf, bytearray)):
            return VBuf(r)
        if isinstance(o, (VTuple, tuple)):
            xs = r.concrete()
            return tuple(xs) if xs is not None else VTuple(r)
        return VList(r)
    if isinstance(o, (SStr, str)):
        if st is not None:
            raise Unsupported("extended slice of a string")
        return text.get_slice(o, lo, hi)
    cls = type(o)
    if is_program_class(cls):
        f = lookup(cls, "__getitem__")
        if isinstance(f, types.FunctionType):
            return call(f, [o, slice(lo, hi, st)])
    try:
        return lift(o[slice(lower(lo), lower(hi), lower(st))])
    except Exception as e:
        raise ProgExc(e) from None


def byte_value(v):
    v = as_int(v)
    if not isint(v):
        raise_(TypeError("an integer is required"))
    if not truth(land(wrap(v) >= 0, wrap(v) <= 255)):
        raise_(ValueError("byte must be in range(0, 256)"))
    return v if isinstance(v, int) else SInt(v.t, max(v.lo or 0, 0), 255 if v.hi is None else min(v.hi, 255), v.tz, v.tag)


def set_item(o, k, v):
    if isinstance(o, (VBuf, VList)):
        n = o.seq.length()
        i = norm_index(k, n, "assignment index out of range")
        if isinstance(o, VBuf):
            v = byte_value(v)
        s = o.seq
        xs = s.concrete()
        ci = concrete_value(i)
        if xs is not None and ci is not None:
            xs = list(xs)
            xs[ci] = v
            o.set(Seq([xs]))
            return
        o.set(s.slice(0, i) + Seq([[v]]) + s.slice(i + 1, n))
        return
    if isinstance(o, VDict):
        o.put(any_key(k), v)
        return
    cls = type(o)
    if is_program_class(cls):
        f = lookup(cls, "__setitem__")
        if isinstance(f, types.FunctionType):
            call(f, [o, k, v])
            return
    if isinstance(o, (VBytes, bytes, str, tuple, VTuple, SStr)):
        raise_(TypeError(f"{pytype(o).__name__!r} object does not support item assignment"))
    raise Unsupported(f"item assignment on {cls.__name__}")


def any_key(k):
    """The key, concrete if it can be."""
    from .interp import dict_key

    if isinstance(k, (SInt, SBool)):
        v = concrete_value(as_int(k))
        return as_int(k) if v is None else v
    if isinstance(k, SStr):
        v = text.concrete(k)
        return k if v is None else v
    return dict_key(k)


def found(content, k):
    """(True, value) or (False, None) of a key in the content of a dictionary."""
    from .heap import Filled, Over

    while True:
        if isinstance(content, Over):
            for kk, v in reversed(content.log):
                if truth(truth_value(eq(kk, k))):
                    return True, v
            content = content.base
        elif isinstance(content, Filled):
            if isint(k) and truth(land(wrap(as_int(k)) >= content.start, wrap(as_int(k)) < content.stop)):
                return True, content.at(as_int(k))
            content = content.base
        elif type(content) is dict:
            for kk, v in content.items():
                if truth(truth_value(eq(kk, k))):
                    return True, v
            return False, None
        else:
            raise Unsupported("content of a dictionary that a loop fills")


def del_item(o, k):
    if isinstance(o, VDict):
        from .interp import dict_key

        kk = dict_key(k)
        if kk not in o.d:
            raise_(KeyError(kk))
        o.drop(kk)
        return
    if isinstance(o, (VList, VBuf, VSorted)):
        n = o.seq.length()
        i = norm_index(k, n)
        o.set(o.seq.slice(0, i) + o.seq.slice(i + 1, n))
        return
    raise Unsupported("del item")


def bytes_seq(v):
    """Seq of byte values of an iterable of ints / bytes-like."""
    if isinstance(v, (VBytes, VBuf, bytes, bytearray, VEnc, VView)):
        return to_seq(v)
    if isinstance(v, (VArray, VNd)):
        if isinstance(v, VNd) and v.view is not None:
            raise Unsupported("bytes of a rearranged numpy array")
        return v.seq  # buffer protocol
    if isinstance(v, (str, SStr)):
        raise_(TypeError("string argument without an encoding"))
    s = to_seq(v)
    out = []
    for g in s.segs:
        if isinstance(g, list):
            out.append([byte_value(x) for x in g])
        else:
            out.append(byte_gen(g))
    return Seq(out)


def byte_gen(g):
    def isb(x):
        x = as_int(x)
        if not isint(x):
            raise_(TypeError("an integer is required"))
        lo, hi = bounds(x)
        if lo is not None and hi is not None and 0 <= lo and hi <= 255:
            return True
        return land(wrap(x) >= 0, wrap(x) <= 255)

    if not forall_gen(g, isb, "byte"):
        raise_(ValueError("byte must be in range(0, 256)"))

    def fn(i):
        x = as_int(g.at(i))
        if isinstance(x, int):
            return x
        lo, hi = bounds(x)
        if lo is not None and hi is not None and lo >= 0 and hi <= 255:
            return x
        return SInt(x.t, max(lo or 0, 0), 255 if hi is None else min(hi, 255), x.tz)

    return Gen(g.length, fn, None)


def set_slice(o, lo, hi, v):
    if not isinstance(o, (VBuf, VList)):
        raise Unsupported(f"slice assignment on {type(o).__name__}")
    new = bytes_seq(v) if isinstance(o, VBuf) else to_seq(v)
    s = o.seq
    n = s.length()
    a, b = slice_bounds(lo, hi, n)
    o.set(s.slice(0, a) + new + s.slice(b, n))


def dict_get(o, k):
    if not o.plain():
        ok, v = found(o.raw(), any_key(k))
        if ok:
            return v
        if o.default is not None:
            raise Unsupported("default entry of a dictionary that a loop fills")
        raise_(KeyError(k))
    kk = as_int(k)
    if isinstance(kk, SInt) and concrete_value(kk) is None:
        return dict_get_native(o.d, kk)
    from .interp import dict_key

    kk = dict_key(k)
    if kk in o.d:
        return o.d[kk]
    if o.default is not None:
        v = call(o.default, [])
        o.put(kk, v)
        return v
    raise_(KeyError(kk))


def dict_get_native(d, k, default=KeyError):
    k = as_int(k)
    if isinstance(k, SInt) and concrete_value(k) is None:
        keys = [x for x in d if isinstance(x, int)]
        lo, hi = bounds(k)
        present = lor(*[land(wrap(k) >= a, wrap(k) <= b) for a, b in int_runs(sorted(keys))])
        if not truth(present):
            if default is KeyError:
                raise_(KeyError(k))
            return default
        keys = [x for x in keys if (lo is None or x >= lo) and (hi is None or x <= hi)]
        vals = {x: d[x] for x in keys}
        from .values import piecewise

        if all(isinstance(v, int) for v in vals.values()):
            return piecewise(vals, wrap(k))
        if all(isinstance(v, str) and len(v) == 1 for v in vals.values()):
            return text.from_code(piecewise({x: ord(v) for x, v in vals.items()}, wrap(k)))
        for x in keys[:-1]:
            if wrap(k) == x:
                return lift(vals[x])
        return lift(vals[keys[-1]])
    kk = lower(k)
    try:
        if kk in d:
            return lift(d[kk])
    except TypeError as e:
        raise ProgExc(e) from None
    if default is KeyError:
        raise_(KeyError(kk))
    return default


def int_runs(keys):
    out = []
    for k in keys:
        if out and out[-1][1] == k - 1:
            out[-1][1] = k
        else:
            out.append([k, k])
    return out


# --------------------------------------------------------------------------------------------------------------------
# operators
# --------------------------------------------------------------------------------------------------------------------

INT_OPS = {
    ast.Add: operator.add,
    ast.Sub: operator.sub,
    ast.Mult: operator.mul,
    ast.FloorDiv: operator.floordiv,
    ast.Mod: operator.mod,
    ast.Div: operator.truediv,
    ast.Pow: operator.pow,
    ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
    ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_,
    ast.BitXor: operator.xor,
}


OPERATORS = []  # (does it concern an operand?, (op, a, b) -> result)
SEQUENCES = {}


def overloaded(a, b):
    for test, fn in OPERATORS:
        if test(a) or test(b):
            return fn
    return None


def binop(op, a, b):
    fn = overloaded(a, b)
    if fn is not None:
        return fn(op, a, b)
    if isint(a) and isint(b):
        if isinstance(a, SBool) or isinstance(b, SBool):
            if op is ast.BitAnd and all(isinstance(x, (bool, SBool)) for x in (a, b)):
                return land(a, b)
            if op is ast.BitOr and all(isinstance(x, (bool, SBool)) for x in (a, b)):
                return lor(a, b)
            a, b = as_int(a), as_int(b)
        try:
            return INT_OPS[op](a, b)
        except (ZeroDivisionError, ValueError, OverflowError) as e:
            raise ProgExc(e) from None
    if op is ast.Mod and isinstance(a, (str, SStr)):
        return text.percent(a, b)
    if op is ast.Add:
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return text.concat([a, b])
        if isinstance(a, BYTESLIKE) and isinstance(b, BYTESLIKE):
            if isinstance(a, VEnc) or isinstance(b, VEnc):
                sa, sb = text.as_text(a), text.as_text(b)
                if sa is not None and sb is not None:
                    return VEnc(text.concat([sa, sb]))
            r = to_seq(a) + to_seq(b)
            return VBuf(r) if isinstance(a, (VBuf, bytearray)) else VBytes(r)
        if isinstance(a, (VList,)) and isinstance(b, VList):
            return VList(a.seq + b.seq)
        if isinstance(a, (tuple, VTuple)) and isinstance(b, (tuple, VTuple)):
            r = to_seq(a) + to_seq(b)
            xs = r.concrete()
            return tuple(xs) if xs is not None else VTuple(r)
    if op is ast.Mult:
        if isint(a) and not isint(b):
            a, b = b, a
        if isint(b):
            return repeat(a, as_int(b))
    if isinstance(a, (SRatio, SFloat)) or isinstance(b, (SRatio, SFloat)):
        raise Unsupported("float arithmetic")
    if op is ast.BitOr and isinstance(a, VDict) and isinstance(b, VDict):
        return VDict({**a.d, **b.d})
    for x, y, nm in ((a, b, "__{}__"), (b, a, "__r{}__")):
        if is_program_class(type(x)):
            f = lookup(type(x), nm.format({ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Mod: "mod"}.get(op, "?")))
            if f is not None:
                return call(f, [x, y])
    if any(isinstance(x, MODELLED + (SInt, SBool, SStr, VEnc)) for x in (a, b)):
        ta, tb = pytype(a), pytype(b)
        num = (int, bool, float)
        if (ta in num and tb in num) or (ta is float or tb is float):
            raise Unsupported("mixed float arithmetic")
        try:
            la, lb = lower(a), lower(b)
        except Unsupported:
            raise_(TypeError(f"unsupported operand type(s): {ta.__name__!r} and {tb.__name__!r}"))
        a, b = la, lb
    try:
        return lift(INT_OPS[op](a, b))
    except Exception as e:
        raise ProgExc(e) from None


def repeat(a, n):
    if isinstance(a, (str, SStr)):
        if isinstance(n, int):
            return text.concat([a] * max(n, 0))
        return text.repeat(a, n)
    s = to_seq(a)
    m = s.length()
    if isinstance(n, int):
        r = Seq(s.segs * max(n, 0))
    elif isinstance(m, int) and m == 0:
        r = Seq()
    else:
        n = imax(n, 0)
        xs = s.concrete()
        if xs is None:
            raise Unsupported("repetition of a symbolic sequence")
        if len(xs) == 1:
            x = xs[0]
            r = Seq([Gen(n, lambda i: x)])
        else:
            r = Seq([Gen(n * len(xs), lambda i: Seq([xs]).get(imod(i, len(xs))))])
    if isinstance(a, (VBytes, bytes, VEnc)):
        return VBytes(r)
    if isinstance(a, (VBuf, bytearray)):
        return VBuf(r)
    if isinstance(a, (tuple, VTuple)):
        xs = r.concrete()
        return tuple(xs) if xs is not None else VTuple(r)
    return VList(r)


def inplace(op, a, b):
    if isinstance(a, VList) and op is ast.Add:
        a.set(a.seq + to_seq(b))
        return a
    if isinstance(a, VBuf) and op is ast.Add:
        a.set(a.seq + bytes_seq(b))
        return a
    if isinstance(a, VBuf) and op is ast.Mult:
        raise Unsupported("in-place repetition")
    return binop(op, a, b)


def same_gen(a, b):
    """Syntactic equality of two Gens (same canonical element term and length)."""
    if a is b:
        return True
    if not z3.eq(z3.simplify(term(a.length)), z3.simplify(term(b.length))):
        return False
    if a.fn is b.fn:
        return True
    if a.note and b.note and a.note[0] == b.note[0] == "shift" and a.note[1] is b.note[1]:
        return z3.eq(z3.simplify(term(a.note[2])), z3.simplify(term(b.note[2])))
    k = SInt(z3.Int("k!canon"), 0)
    try:
        x, y = a.at(k), b.at(k)
    except core.Control:
        return False
    return isint(x) and isint(y) and z3.eq(z3.simplify(term(x)), z3.simplify(term(y)))


def seq_eq(a, b):
    """bool/SBool: equality of two Seqs (may fork)."""
    xa, xb = a.concrete(), b.concrete()
    if xa is not None and xb is not None:
        if len(xa) != len(xb):
            return False
        return land(*[truth_value(eq(x, y)) for x, y in zip(xa, xb)]) if xa else True
    if len(a.segs) == len(b.segs) and all(
        isinstance(x, Gen) and isinstance(y, Gen) and same_gen(x, y)
        or isinstance(x, list)
        and isinstance(y, list)
        and len(x) == len(y)
        and all(isint(p) and isint(q) and z3.eq(term(p), term(q)) for p, q in zip(x, y))
        for x, y in zip(a.segs, b.segs)
    ):
        return True
    c = ctx()
    la, lb = a.length(), b.length()
    if not truth(wrap(la) == lb):
        return False
    ca, cb = concrete_value(la), concrete_value(lb)
    n = ca if ca is not None else cb
    if n is not None and n <= 64:
        return land(*[truth_value(eq(a.get(k), b.get(k))) for k in range(n)]) if n else True
    f = pure(lambda j: truth_value(eq(a.get(j), b.get(j))))
    k = fresh_int("eq_k", 0)
    if c.proves(z3.Implies(z3.And(term(k) >= 0, term(k) < term(la)), boolterm(f(k)))):
        return True
    if c.choose(2) == 0:
        add_universal(0, la, f)
        return True
    w = witness("ne", 0, la)
    c.assume(z3.Not(boolterm(f(w))))
    if not c.feasible():
        raise Infeasible()
    return False


def eq(a, b):
    if isint(a) and isint(b):
        a, b = as_int(a), as_int(b)
        return a == b if isinstance(a, int) and isinstance(b, int) else wrap(a) == b
    if a is None or b is None:
        return a is b
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return text.eq(a, b)
    if isinstance(a, BYTESLIKE) and isinstance(b, BYTESLIKE):
        if isinstance(a, VEnc) and isinstance(b, VEnc):
            return text.eq(a.s, b.s)
        return seq_eq(to_seq(a), to_seq(b))
    if isinstance(a, (VList, VSorted)) and isinstance(b, (VList, VSorted)) and type(a) is type(b):
        return True if a is b else seq_eq(a.seq, b.seq)
    if type(a) in (tuple, VTuple) and type(b) in (tuple, VTuple):
        return seq_eq(to_seq(a), to_seq(b))
    if isinstance(a, SFloat) and isinstance(b, SFloat) and a.width == b.width:
        return mkbool(a.t == b.t)
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        raise Unsupported("float comparison")
    for x, y in ((a, b), (b, a)):
        cls = type(x)
        if is_program_class(cls) and not isinstance(x, type):
            at = getattr(cls, "__attrs_attrs__", None)
            own = lookup(cls, "__eq__")
            if at is not None and getattr(own, "__module__", None) == cls.__module__ and "attrs generated" in getattr(own, "__code__").co_filename:
                if type(y) is not cls:
                    return False
                return land(*[truth_value(eq(getattr_raw(x, f.name), getattr_raw(y, f.name))) for f in at if f.eq])
            if isinstance(own, types.FunctionType):
                r = call(own, [x, y])
                if r is not NotImplemented:
                    return r
                continue
            if own is object.__eq__ and not isinstance(y, MODELLED):
                return x is y
    if isinstance(a, MODELLED + (SInt, SBool, SStr, VEnc)) or isinstance(b, MODELLED + (SInt, SBool, SStr, VEnc)):
        if isinstance(a, VDict) and isinstance(b, VDict):
            return set(a.d) == set(b.d) and land(*[truth_value(eq(v, b.d[k])) for k, v in a.d.items()])
        ta, tb = pytype(a), pytype(b)
        if ta is not tb and not (issubclass(ta, (int, float)) and issubclass(tb, (int, float))):
            if (ta, tb) in ((list, tuple), (tuple, list)) or ta.__module__ == tb.__module__ == "builtins":
                return False
        raise Unsupported(f"comparison of {ta.__name__} and {tb.__name__}")
    try:
        return bool(a == b)
    except Exception as e:
        raise ProgExc(e) from None


def getattr_raw(o, name):
    return o.__dict__[name]


def compare(op, a, b):
    if op is ast.Is:
        if a is b:
            return True
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return as_bool_eq(a, b)
        return False
    if op is ast.IsNot:
        return lnot(compare(ast.Is, a, b))
    fn = overloaded(a, b)
    if fn is not None:
        return fn(op, a, b)
    if op is ast.Eq:
        return eq(a, b)
    if op is ast.NotEq:
        for x in (a, b):
            f = lookup(type(x), "__ne__") if is_program_class(type(x)) else None
            if isinstance(f, types.FunctionType) and "attrs generated" not in f.__code__.co_filename:
                return call(f, [a, b])
        return lnot(truth_value(eq(a, b)))
    if op is ast.In:
        return contains(b, a)
    if op is ast.NotIn:
        return lnot(truth_value(contains(b, a)))
    if isint(a) and isint(b):
        a, b = as_int(a), as_int(b)
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]
        a = wrap(a)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[op]()
    if any(isinstance(x, MODELLED + (SInt, SBool, SStr, VEnc, SFloat, SRatio)) for x in (a, b)):
        if a is None or b is None or (isint(a) != isint(b) and not any(isinstance(x, (float, SFloat, SRatio)) for x in (a, b))):
            raise_(TypeError("'<' not supported between these types"))
        a, b = lower(a), lower(b)
    try:
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
    except Exception as e:
        raise ProgExc(e) from None


def as_bool_eq(a, b):
    return mkbool(boolterm(a) == boolterm(b))


def contains(o, v):
    if isinstance(o, (str, SStr)):
        return text.contains(o, v)
    if isinstance(o, VDict):
        if not o.plain():
            return found(o.raw(), any_key(v))[0]
        return contains(o.d, v)
    if isinstance(o, (dict, set, frozenset)):
        k = as_int(v)
        if isinstance(k, SInt) and concrete_value(k) is None:
            keys = [x for x in o if isinstance(x, int)]
            return lor(*[land(k >= a, k <= b) for a, b in int_runs(sorted(keys))]) if keys else False
        try:
            return lower(k) in o
        except TypeError as e:
            raise ProgExc(e) from None
    cls = type(o)
    if is_program_class(cls):
        f = lookup(cls, "__contains__")
        if isinstance(f, types.FunctionType):
            return truth_value(call(f, [o, v]))
    if isinstance(o, VRange) and isint(v):
        if o.step == 1:
            return land(wrap(v) >= o.start, wrap(v) < o.stop)
    if isinstance(o, MODELLED) or type(o) in (tuple, list, bytes, bytearray):
        if isinstance(o, BYTESLIKE) and not isint(v):
            raise Unsupported("subsequence test")
        s = to_seq(o)
        xs = s.concrete()
        if xs is not None:
            return lor(*[truth_value(eq(x, v)) for x in xs]) if xs else False
        return any_seq(s.map(lambda x: truth_value(eq(x, v))))
    try:
        return lower(v) in o
    except Exception as e:
        raise ProgExc(e) from None


# --------------------------------------------------------------------------------------------------------------------
# built-in functions
# --------------------------------------------------------------------------------------------------------------------


def any_seq(s):
    """any() over a Seq of truth values; forks at symbolic segments."""
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                if truth(x):
                    return True
        else:
            f = pure(lambda j, g=g: truth_value(g.at(j)))
            if ctx().choose(2) == 0:
                add_universal(0, g.length, lambda j: lnot(f(j)))
                continue
            w = witness("any", 0, g.length)
            ctx().assume(boolterm(f(w)))
            if not ctx().feasible():
                raise Infeasible()
            return True
    return False


def all_seq(s):
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                if not truth(x):
                    return False
        else:
            if not forall_gen(g, truth_value, "all"):
                return False
    return True


def m_any(it):
    return any_seq(to_seq(it))


def m_all(it):
    return all_seq(to_seq(it))


def m_sum(it, start=0):
    from . import folds

    s = to_seq(it)
    acc = start
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                acc = binop(ast.Add, acc, x)
        else:
            acc = binop(ast.Add, acc, folds.gen_sum(g))
    return acc


def m_min(*a, **kw):
    return minmax(a, kw, True)


def m_max(*a, **kw):
    return minmax(a, kw, False)


def minmax(a, kw, mn):
    key = kw.get("key")
    if len(a) == 1:
        s = to_seq(a[0])
        xs = s.concrete()
        if xs is None:
            if sorted_already(s, key):  # the first of equals
                g = s.segs[0]
                if truth(wrap(g.length) >= 1):
                    if mn:
                        return g.at(0)
                    k = fresh_int("srt", 0)

                    def apart():
                        ctx().assume(term(k) + 1 < term(g.length))
                        add_index(k)
                        add_index(k + 1)
                        ks = [call(key, [g.at(j)]) if key else g.at(j) for j in (k, k + 1)]
                        return ctx().proves(term(ks[0]) < term(ks[1]))

                    if key is None or all(ctx().sub(apart)):
                        return g.at(wrap(g.length) - 1)
                elif "default" in kw:
                    return kw["default"]
                else:
                    raise_(ValueError("arg is an empty sequence"))
            raise Unsupported("min/max of a symbolic sequence")
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise_(ValueError("arg is an empty sequence"))
    else:
        xs = list(a)
    r = xs[0]
    for x in xs[1:]:
        kx, kr = (call(key, [x]), call(key, [r])) if key else (x, r)
        if key is None and isint(x) and isint(r):
            r = imin(r, x) if mn else imax(r, x)
        elif truth(compare(ast.Lt if mn else ast.Gt, kx, kr)):
            r = x
    return r


def m_abs(v):
    v = as_int(v)
    return abs(v)


def m_int(v=0, base=None):
    if base is not None:
        if isinstance(v, BYTESLIKE):
            v = text.as_text(v)
        return text.parse_int(v, lower(base))
    if isinstance(v, SRatio):
        return v.trunc()
    if isint(v):
        return as_int(v)
    if isinstance(v, (str, SStr)):
        return text.parse_int(v, 10)
    if isinstance(v, SFloat):
        raise Unsupported("int of a float")
    try:
        return int(lower(v))
    except Exception as e:
        raise ProgExc(e) from None


def m_bool(v=False):
    return truth_value(v)


def m_str(v="", encoding=None, errors=None):
    if isinstance(v, (str, SStr)):
        return v
    if (encoding is not None or errors is not None) and isinstance(v, BYTESLIKE):
        return decode(v, "utf-8" if encoding is None else encoding, errors)
    return text.to_str(v)


def m_range(*a):
    a = [as_int(x) for x in a]
    for x in a:
        if not isint(x):
            raise_(TypeError("range() argument must be an integer"))
    if len(a) == 1:
        return VRange(0, a[0], 1)
    if len(a) == 2:
        return VRange(a[0], a[1], 1)
    if truth(wrap(a[2]) == 0):
        raise_(ValueError("range() arg 3 must not be zero"))
    return VRange(*a)


def numbered(s, f, i):
    out = []
    for k, g in enumerate(s.segs):
        if not isinstance(g, list) or k:
            raise Unsupported("numbering of nested rows")
        out.append([(SInt(f(term(i), term(j)), 0), x) for j, x in enumerate(g)])
    return Seq(out)


def m_enumerate(it, start=0):
    s = to_seq(it)
    out = []
    pos = start
    for g in s.segs:
        if isinstance(g, list):
            out.append([(pos + k, x) for k, x in enumerate(g)])
            pos = pos + len(g)
        elif not isinstance(g, Gen):
            # the number of elements in earlier rows: left open
            f = new_fun("number", 2, 0)
            out.append(type(g)(g.count, lambda i, g=g, f=f: numbered(g.row(i), f, i)))
            pos = fresh_int("number", 0)
        else:
            out.append(Gen(g.length, lambda i, g=g, pos=pos: (i + pos, g.at(i))))
            pos = pos + g.length
    return VIter(Seq(out))


def m_zip(*its, strict=False):
    ss = [to_seq(x) for x in its]
    if not ss:
        return VIter(Seq())
    ns = [s.length() for s in ss]
    n = ns[0]
    for x in ns[1:]:
        if strict and not truth(wrap(x) == n if not (isinstance(x, int) and isinstance(n, int)) else x == n):
            raise_(ValueError("zip() arguments have different lengths"))
        n = imin(n, x)
    if isinstance(n, int):
        return VIter(Seq([[tuple(s.get(k) for s in ss) for k in range(n)]]))
    return VIter(Seq([Gen(n, lambda i: tuple(s.get(i) for s in ss))]))


def m_map(f, *its):
    if len(its) == 1:
        s = to_seq(its[0])
        out = []
        for g in s.segs:
            if isinstance(g, list):
                out.append([call(f, [x]) for x in g])
            else:
                out.append(gen_map(g, lambda x: call(f, [x])))
        return VIter(Seq(out))
    z = to_seq(m_zip(*its))
    xs = z.concrete()
    if xs is None:
        raise Unsupported("map over several symbolic sequences")
    return VIter(Seq([[call(f, list(x)) for x in xs]]))


def gen_map(g, fn):
    from . import loops

    return loops.summarize_map(g, fn)


def m_filter(f, it):
    s = to_seq(it)
    out = []
    for g in s.segs:
        if isinstance(g, list):
            for x in g:
                if truth(x if f is None else call(f, [x])):
                    out.append([x])
        else:
            if not forall_gen(g, lambda x: truth_value(x if f is None else call(f, [x])), "flt"):
                raise Unsupported("filter of a symbolic sequence")
            out.append(g)
    return VIter(Seq(out))


def m_reversed(v):
    return VIter(to_seq(v).reversed())


def m_sorted(it, key=None, reverse=False):
    s = to_seq(it)
    xs = s.concrete()
    if xs is None:
        if isinstance(it, VSorted) and not reverse:
            return VList(s)
        if sorted_already(s, key) and not reverse:
            return VList(s)
        raise Unsupported("sorting a symbolic sequence")
    ks = [call(key, [x]) if key else x for x in xs]
    if all(not is_symbolic(k) for k in ks):
        try:
            order = sorted(range(len(xs)), key=lambda i: lower(ks[i]), reverse=bool(reverse))
        except TypeError as e:
            raise ProgExc(e) from None
        return VList([xs[i] for i in order])
    out = []
    for x, k in zip(xs, ks):  # stable insertion sort, forking
        p = len(out)
        while p > 0 and truth(compare(ast.Lt if not reverse else ast.Gt, k, out[p - 1][1])):
            p -= 1
        out.insert(p, (x, k))
    return VList([x for x, _ in out])


def sorted_already(s, key):
    """Provably ascending by key?"""
    c = ctx()
    if len(s.segs) != 1 or isinstance(s.segs[0], list):
        return False
    g = s.segs[0]
    k = fresh_int("srt", 0)

    def kv(j):
        x = g.at(j)
        return call(key, [x]) if key else x

    def once():
        c.assume(term(k) + 1 < term(g.length))
        add_index(k)
        add_index(k + 1)
        return c.proves(term(kv(k)) <= term(kv(k + 1)))

    rs = c.sub(once)
    return bool(rs) and all(rs)


def m_iter(v):
    if isinstance(v, VIter):
        return v
    return VIter(to_seq(v))


NODEF = object()


def m_next(it, default=NODEF):
    if not isinstance(it, VIter):
        raise Unsupported("next() of a non-iterator")
    s, p = it.raw()
    n = s.length()
    more = (p < n) if isinstance(p, int) and isinstance(n, int) else truth(wrap(p) < n)
    if not more:
        if default is NODEF:
            raise_(StopIteration())
        return default
    it.set((s, p + 1))
    return s.get(p)


def m_hasattr(o, name):
    if isinstance(o, MODELLED + (SInt, SBool, SStr, VEnc)):
        return hasattr(pytype(o), name)
    try:
        get_attr(o, name)
        return True
    except ProgExc as p:
        if isinstance(p.exc, AttributeError):
            return False
        raise


def m_getattr(o, name, *d):
    try:
        return get_attr(o, lower(name))
    except ProgExc as p:
        if d and isinstance(p.exc, AttributeError):
            return d[0]
        raise


def m_setattr(o, name, v):
    put_attr(o, lower(name), v)


def m_chr(v):
    v = as_int(v)
    if isinstance(v, int):
        try:
            return chr(v)
        except ValueError as e:
            raise ProgExc(e) from None
    if not truth(land(v >= 0, v < 0x110000)):
        raise_(ValueError("chr() arg not in range(0x110000)"))
    return text.from_code(v)


def m_ord(v):
    if isinstance(v, BYTESLIKE):
        s = to_seq(v)
        n = s.length()
        if not (n == 1 if isinstance(n, int) else truth(n == 1)):
            raise_(TypeError("ord() expected a character"))
        return s.get(0)
    return text.code_of(v)


def m_dir(*a):
    if not a:
        raise Unsupported("dir() without argument")
    v = a[0]
    return VList(dir(v) if v is None or isinstance(v, (int, str, bytes)) or is_program_class(type(v)) else dir(pytype(v)))


def m_type(v, *a):
    if a:
        raise Unsupported("type() with three arguments")
    return pytype(v)


def m_print(*a, sep=" ", end="\n", file=None, flush=False):
    if file is None:
        return None
    parts = []
    for k, x in enumerate(a):
        if k:
            parts.append(sep)
        parts.append(text.to_str(x))
    parts.append(end)
    s = text.concat(parts)
    if isinstance(file, VSink):
        file.set(file.seq + Seq([[s]]))
        return None
    if isinstance(file, VFile):
        file_write(file, s)
        return None
    if is_program_class(type(file)):
        call(get_attr(file, "write"), [s])
        return None
    if isinstance(file, io.TextIOBase):
        return None
    raise Unsupported("print to an unknown file")


def m_id(v):
    return id(v)


def m_divmod(a, b):
    return (binop(ast.FloorDiv, a, b), binop(ast.Mod, a, b))


def m_hex(v):
    return text.format_value(v, "#x", -1)


def m_repr(v):
    return text.to_repr(v)


def m_callable(v):
    return isinstance(v, (VFunc, Bound, Method, VPartial)) or callable(v)


def m_pow(a, b, m=None):
    r = binop(ast.Pow, a, b)
    return r if m is None else binop(ast.Mod, r, m)


def m_round(v, n=None):
    raise Unsupported("round")


def m_reduce(f, it, *init):
    from . import folds

    s = to_seq(it)
    if init:
        acc = init[0]
        segs = s.segs
    else:
        n = s.length()
        if not (n > 0 if isinstance(n, int) else truth(n > 0)):
            raise_(TypeError("reduce() of empty iterable with no initial value"))
        acc = s.get(0)
        segs = s.slice(1, n).segs
    for g in segs:
        if isinstance(g, list):
            for x in g:
                acc = call(f, [acc, x])
        else:
            acc = folds.loop_fold(acc, g, lambda a, x: call(f, [a, x]))
    return acc


def m_copy(v):
    if isinstance(v, VBuf):
        return VBuf(v.seq)
    if isinstance(v, VList):
        return VList(v.seq)
    if isinstance(v, VDict):
        return VDict(v.d, v.default)
    if isinstance(v, (int, str, bytes, tuple, SInt, SBool, SStr, VBytes, VTuple, type(None))):
        return v
    cls = type(v)
    if is_program_class(cls):
        o = new_object(cls)
        for k, x in v.__dict__.items():
            set_attr(o, k, x)
        return o
    raise Unsupported("copy")


def m_deepcopy(v, memo=None):
    if isinstance(v, (VList,)):
        s = v.seq.concrete()
        if s is None:
            raise Unsupported("deepcopy of a symbolic list")
        return VList([m_deepcopy(x) for x in s])
    if isinstance(v, VDict):
        return VDict({k: m_deepcopy(x) for k, x in v.d.items()}, v.default)
    cls = type(v)
    if is_program_class(cls):
        o = new_object(cls)
        for k, x in v.__dict__.items():
            set_attr(o, k, m_deepcopy(x))
        return o
    return m_copy(v)


def new_object(cls):
    from . import heap

    o = object.__new__(cls)
    c = ctx()
    c.births[id(o)] = heap.CLOCK
    c.run.keep.append(o)
    return o


# -- constructors -----------------------------------------------------------------------------------------------------


def c_bytearray(src=None, encoding=None, errors=None, source=None):
    if errors is not None and not (isinstance(errors, str) and errors == "strict"):
        raise Unsupported("error handler of a codec")
    return VBuf(bytes_source(src if source is None else source, encoding))


def c_bytes(src=None, encoding=None, errors=None, source=None):
    if errors is not None and not (isinstance(errors, str) and errors == "strict"):
        raise Unsupported("error handler of a codec")
    src = src if source is None else source
    if isinstance(src, (VBytes, VEnc, bytes)) and encoding is None:
        return src
    if isinstance(src, (str, SStr)):
        return text.encode(src, encoding)
    return VBytes(bytes_source(src, encoding))


def bytes_source(src, encoding):
    if src is None:
        return Seq()
    if isinstance(src, (str, SStr)):
        if encoding is None:
            raise_(TypeError("string argument without an encoding"))
        r = text.encode(src, encoding)
        if isinstance(r, VEnc) and any(isinstance(p, text.Many) for p in text.pieces(r.s)):
            return text.TextSeq(r.s)
        return to_seq(r)
    if isint(src):
        n = as_int(src)
        if not truth(wrap(n) >= 0):
            raise_(ValueError("negative count"))
        if isinstance(n, int):
            return Seq([[0] * n])
        return Seq([Gen(n, lambda i: 0)])
    if isinstance(src, (float, SFloat, SRatio)):
        raise_(TypeError("cannot convert to bytes"))
    return bytes_seq(src)


def c_list(it=()):
    return VList(to_seq(it))


def c_tuple(it=()):
    s = to_seq(it)
    xs = s.concrete()
    return tuple(xs) if xs is not None else VTuple(s)


def c_dict(*a, **kw):
    d = {}
    if a:
        o = a[0]
        if isinstance(o, VDict):
            d.update(o.d)
        elif isinstance(o, dict):
            d.update(o)
        else:
            xs = to_seq(o).concrete()
            if xs is None:
                raise Unsupported("dict() of a symbolic sequence")
            for x in xs:
                k, v = to_seq(x).concrete()
                d[lower(k)] = v
    d.update(kw)
    return VDict(d)


def c_set(it=()):
    xs = to_seq(it).concrete()
    if xs is None:
        raise Unsupported("set() of a symbolic sequence")
    return VSet([lower(x) for x in xs])


def c_defaultdict(factory=None, *a):
    return VDict({}, factory)


def c_ordereddict(*a, **kw):
    return c_dict(*a, **kw)


def c_sortedlist(it=None, key=None):
    s = Seq() if it is None else to_seq(it)
    xs = s.concrete()
    if xs is None:
        if isinstance(it, VSorted) or sorted_already(s, key):
            return VSorted(s, key)
        raise Unsupported("SortedList of a symbolic sequence")
    return VSorted(m_sorted(VList(s), key=key).seq, key)


def c_bytesio(init=b""):
    if isinstance(init, (str, SStr)):
        raise_(TypeError("a bytes-like object is required, not 'str'"))
    if init is None:
        init = b""
    if isint(init):
        raise_(TypeError("a bytes-like object is required, not 'int'"))
    if isinstance(init, VBuf) and isinstance(init.seq, text.TextSeq):
        init = VEnc(init.seq.text)
    return VFile(init if isinstance(init, VEnc) else VBytes(to_seq(init)))


def c_stringio(init="", newline=None):
    return VFile(init, text=True)


def c_object():
    return object()


def c_partial(f, *a, **kw):
    return VPartial(f, list(a), kw)


def c_slice(*a):
    return slice(*a)


class VView:
    """memoryview; shares storage, hence only good for copying out"""

    def __init__(self, obj):
        self.obj = obj


def c_memoryview(v):
    if not isinstance(v, BYTESLIKE):
        raise_(TypeError("memoryview: a bytes-like object is required"))
    return VView(v)


def view_attr(o, name):
    if name == "tobytes":
        return lambda: VBytes(to_seq(o.obj))
    if name == "nbytes":
        return to_seq(o.obj).length()
    raise Unsupported(f"memoryview.{name}")


ITEMSIZE = {"B": 1, "b": 1, "H": 2, "h": 2, "I": 4, "i": 4, "L": 8, "l": 8, "Q": 8, "q": 8}


def c_array(code, init=()):
    code = lower(code)
    if code == "B":
        return VArray(bytes_seq(init), "B")
    raise Unsupported("array of other than unsigned bytes")


class VArray:
    """array.array: raw content bytes and type code"""

    def __init__(self, seq, code="B"):
        self.seq, self.code = seq, code


def array_attr(o, name):
    if name == "tobytes":
        return lambda: VBytes(o.seq)
    if name == "tolist" and o.code == "B":
        return lambda: VList(o.seq)
    if name == "typecode":
        return o.code
    if name == "itemsize":
        return ITEMSIZE[o.code]
    raise Unsupported(f"array.{name}")


class VNd:
    """numpy.ndarray: its bytes in C order, the element type, and the buffer it shares storage with"""

    def __init__(self, seq, dtype, base=None, view=None):
        self.seq, self.dtype, self.base, self.view = seq, dtype, base, view


def nd_attr(o, name):
    if name == "tobytes":
        if o.view is not None:
            raise Unsupported("bytes of a rearranged numpy array")

        def tobytes(order="C"):
            if order is not None and not (isinstance(order, str) and order == "C"):
                raise Unsupported("memory layout of a numpy array")
            return VBytes(o.seq)

        return tobytes
    if name == "nbytes":
        return o.seq.length()
    if name == "itemsize":
        return o.dtype.itemsize
    if name == "dtype":
        return o.dtype
    if name == "size":
        return idiv(wrap(o.seq.length()), o.dtype.itemsize)
    if name == "reshape":

        def reshape(*shape, order="C"):
            if order is not None and not (isinstance(order, str) and order == "C"):
                raise Unsupported("memory layout of a numpy array")
            return VNd(o.seq, o.dtype, o.base, o.view)

        return reshape
    if name == "T":
        return VNd(o.seq, o.dtype, o.base, "T")
    if name == "copy":
        return lambda order="C": VNd(o.seq, o.dtype, None, o.view)  # the layout does not show in the elements
    raise Unsupported(f"numpy.ndarray.{name}")


def m_frombuffer(buf, dtype=None, count=-1, offset=0):
    import numpy as np

    trust("numpy.frombuffer: the array consists of the bytes of the buffer (library contract assumed)")
    if lower(count) != -1 or lower(offset) != 0 or dtype is None:
        raise Unsupported("numpy.frombuffer with count or offset")
    dt = np.dtype(lower(dtype))
    s = to_seq(buf)
    if truth(compare(ast.NotEq, imod(wrap(s.length()), dt.itemsize), 0)):
        raise_(ValueError("buffer size must be a multiple of element size"))
    return VNd(s, dt, buf)


CONSTRUCTORS = []  # (is it such a class?, (class, args, kw) -> instance)


def instantiate(cls, args, kw):
    h = TYPES.get(cls)
    if h is not None:
        return h(*args, **kw)
    for test, fn in CONSTRUCTORS:
        if test(cls):
            return fn(cls, args, kw)
    if issubclass(cls, BaseException):
        init = lookup(cls, "__init__")
        if is_program_class(cls) and isinstance(init, types.FunctionType) and in_repo(init.__code__):
            raise Unsupported("exception class with a constructor")
        try:
            return cls(*args, **kw)
        except Exception as e:
            raise ProgExc(e) from None
    if issubclass(cls, tuple) and hasattr(cls, "_fields"):
        try:
            return cls(*args, **kw)
        except TypeError as e:
            raise ProgExc(e) from None
    if is_program_class(cls):
        import enum

        if issubclass(cls, enum.Enum):
            return native(cls, args, kw)
        if cls.__name__ == "Logger" and cls.__module__.endswith(".logger"):
            return SILENT
        at = cls.__dict__.get("__attrs_attrs__")
        init = lookup(cls, "__init__")
        new = lookup(cls, "__new__")
        if isinstance(new, staticmethod):
            raise Unsupported("class with __new__")
        o = new_object(cls)
        if at is not None and "attrs generated" in init.__code__.co_filename:
            attrs_init(cls, at, o, list(args), dict(kw))
        elif isinstance(init, types.FunctionType):
            call(init, [o] + list(args), kw)
        elif args or kw:
            raise_(TypeError(f"{cls.__name__}() takes no arguments"))
        return o
    return native(cls, args, kw)


def attrs_init(cls, at, o, args, kw):
    import attr

    names = [f.name for f in at if f.init]
    if len(args) > len(names):
        raise_(TypeError("too many positional arguments"))
    given = dict(zip(names, args))
    for k, v in kw.items():
        if k in given or k not in names:
            raise_(TypeError(f"unexpected argument {k!r}"))
        given[k] = v
    for f in at:
        if f.name in given:
            v = given[f.name]
        elif isinstance(f.default, attr.Factory):
            v = call(f.default.factory, [o] if f.default.takes_self else [])
        elif f.default is attr.NOTHING:
            raise_(TypeError(f"missing argument {f.name!r}"))
        else:
            v = f.default
        if f.converter is not None:
            v = call(f.converter, [v])
        if f.validator is not None:
            raise Unsupported("attrs validator")
        set_attr(o, f.name, v)
    post = lookup(cls, "__attrs_post_init__")
    if post is not None:
        call(post, [o])


class Silent:
    """Stand-in for objutils.logger.Logger: logging has no influence on results."""


SILENT = Silent()


def silent_attr(o, name):
    return Wrapped(lambda *a, **k: None)


def absorber_attr(o, name):
    if name in ("append", "extend"):
        return Wrapped(lambda *a, **k: None)
    raise Unsupported("content of a dictionary that a loop fills")


def native_logger_attr(o, name):
    """Records go to handlers outside the program; a logger yields nothing to it."""
    if name in ("log", "debug", "info", "warn", "warning", "error", "critical", "setLevel", "addHandler"):
        return Wrapped(lambda *a, **k: None)
    raise Unsupported(f"logging.Logger.{name}")


# -- struct ---------------------------------------------------------------------------------------------------------------

CODES = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "Q": (8, False), "q": (8, True), "L": (4, False), "l": (4, True), "f": (4, "f"), "d": (8, "f"), "c": (1, "c")}
FDEC = {}


def parse_format(fmt):
    """(byteorder, [(count, width, kind)]); count may be symbolic."""
    if isinstance(fmt, (bytes, VBytes)):
        fmt = lower(fmt).decode()
    parts = text.pieces(fmt)
    order = "@"
    items = []
    count = None
    first = True
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                if ch in "<>=@!" and first:
                    order = ch
                elif ch.isdigit():
                    count = (count or 0) * 10 + int(ch)
                elif ch in CODES:
                    w, k = CODES[ch]
                    if ch in "Ll" and order == "@":
                        w = struct.calcsize("@L")
                    if k == "c":
                        raise Unsupported("struct code c")
                    items.append((1 if count is None else count, w, k))
                    count = None
                else:
                    if ch == " ":
                        continue
                    raise_(struct.error("bad char in struct format"))
                first = False
        elif isinstance(p, text.Dec):
            if count is not None:
                raise Unsupported("struct format")
            count = p.v
            if not truth(wrap(count) >= 0):
                raise_(struct.error("bad char in struct format"))
            first = False
        else:
            raise Unsupported("symbolic struct format")
    if order in "@=":
        import sys

        if order == "@" and len(items) > 1:
            raise Unsupported("native struct alignment")
        order = "<" if sys.byteorder == "little" else ">"
    if order == "!":
        order = ">"
    return order, items


def m_calcsize(fmt):
    _, items = parse_format(fmt)
    n = 0
    for c, w, _ in items:
        n = n + (c * w)
    return n


def decode_int(bs, order, signed):
    """Integer of a list of byte values."""
    if order == ">":
        bs = list(reversed(bs))
    v = 0
    for k, b in enumerate(bs):
        v = v + as_int(b) * (1 << (8 * k))
    n = 8 * len(bs)
    if signed:
        top = bs[-1]
        if isinstance(v, int):
            return v - (1 << n) if v >= 1 << (n - 1) else v
        neg = wrap(top) >= 128
        r = ite(neg, v - (1 << n), v) if not isinstance(neg, bool) else (v - (1 << n) if neg else v)
        if isinstance(r, SInt):
            r = SInt(r.t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
        return r
    return v


def encode_byte(v, k, width, order):
    """k-th byte (concrete k) of the two's complement encoding of v."""
    pos = k if order == "<" else width - 1 - k
    return imod(idiv(v, 1 << (8 * pos)), 256) if pos else imod(v, 256)


def float_dec(bs, order, width):
    if order == ">":
        bs = list(reversed(bs))
    f = z3.Function(f"float{8 * width}", *([z3.IntSort()] * (width + 1)))
    trust("float32/float64: struct is modelled as an (uninterpreted) bijection between bit patterns and values")
    return SFloat(f(*[term(b) for b in bs]), width)


def float_enc(v, k, width, order):
    pos = k if order == "<" else width - 1 - k
    trust("float32/float64: struct is modelled as an (uninterpreted) bijection between bit patterns and values")
    if isinstance(v, SFloat) and v.width == width:
        f = z3.Function(f"floatbyte{8 * width}_{pos}", z3.IntSort(), z3.IntSort())
        t = f(v.t)
        c = ctx()
        c.fact(z3.And(t >= 0, t <= 255))
        dec = z3.Function(f"float{8 * width}", *([z3.IntSort()] * (width + 1)))
        fs = [z3.Function(f"floatbyte{8 * width}_{p}", z3.IntSort(), z3.IntSort()) for p in range(width)]
        c.fact(dec(*[g(v.t) for g in fs]) == v.t)
        return SInt(t, 0, 255)
    raise Unsupported("float encoding")


def elem_range(v, w, kind):
    if kind == "f":
        if isinstance(v, SFloat):
            return True
        raise Unsupported("float value")
    v = as_int(v)
    if not isint(v):
        raise_(struct.error("required argument is not an integer"))
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if kind else (0, (1 << (8 * w)) - 1)
    if isinstance(v, int):
        return lo <= v <= hi
    return land(v >= lo, v <= hi)


def m_pack(fmt, *args):
    order, items = parse_format(fmt)
    total = 0
    for c, _, _ in items:
        total = total + c
    star = next((k for k, a in enumerate(args) if isinstance(a, StarSeq)), None)
    if star is None:
        seq = Seq([list(args)])
    else:
        seq = Seq()
        for a in args:
            seq = seq + (a.seq if isinstance(a, StarSeq) else Seq([[a]]))
    n = seq.length()
    if not (n == total if isinstance(n, int) and isinstance(total, int) else truth(wrap(n) == total)):
        raise_(struct.error("pack expected a different number of items"))
    if len(items) == 1:
        c, w, kind = items[0]
        out = []
        for g in seq.segs:
            if isinstance(g, list):
                bs = []
                for v in g:
                    if not truth(elem_range(v, w, kind)):
                        raise_(struct.error("argument out of range"))
                    bs += [float_enc(v, k, w, order) if kind == "f" else encode_byte(as_int(v), k, w, order) for k in range(w)]
                out.append(bs)
            else:
                if not forall_gen(g, lambda v: elem_range(v, w, kind), "pk"):
                    raise_(struct.error("argument out of range"))
                out.append(Gen(g.length * w, lambda i, g=g: packed_byte(g, i, w, kind, order)))
        return VBytes(Seq(out))
    xs = seq.concrete()
    if xs is None:
        raise Unsupported("struct.pack")
    bs = []
    p = 0
    for c, w, kind in items:
        if not isinstance(c, int):
            raise Unsupported("struct.pack")
        for _ in range(c):
            v = xs[p]
            p += 1
            if not truth(elem_range(v, w, kind)):
                raise_(struct.error("argument out of range"))
            bs += [float_enc(v, k, w, order) if kind == "f" else encode_byte(as_int(v), k, w, order) for k in range(w)]
    return VBytes(bs)


def packed_byte(g, i, w, kind, order):
    if w == 1:
        v = g.at(i)
        return encode_byte(as_int(v), 0, 1, order)
    v = g.at(idiv(i, w))
    r = imod(i, w)
    alts = [float_enc(v, k, w, order) if kind == "f" else encode_byte(as_int(v), k, w, order) for k in range(w)]
    if isinstance(r, int):
        return alts[r]
    from .values import piecewise

    return piecewise(dict(enumerate(alts)), r)


def m_unpack(fmt, data):
    order, items = parse_format(fmt)
    size = 0
    for c, w, _ in items:
        size = size + c * w
    s = to_seq(data)
    n = s.length()
    if not (n == size if isinstance(n, int) and isinstance(size, int) else truth(wrap(n) == size)):
        raise_(struct.error("unpack requires a buffer of a different size"))
    out = []
    p = 0
    for c, w, kind in items:
        if isinstance(c, int) and c <= 64:
            vs = []
            for _ in range(c):
                bs = [s.get(p + k) for k in range(w)]
                vs.append(float_dec(bs, order, w) if kind == "f" else decode_int(bs, order, kind))
                p = p + w
            out.append(vs)
        else:

            def fn(i, p=p, w=w, kind=kind):
                bs = [s.get(i * w + (p + k)) for k in range(w)]
                return float_dec(bs, order, w) if kind == "f" else decode_int(bs, order, kind)

            out.append(Gen(c, fn))
            p = p + c * w
    r = Seq(out)
    xs = r.concrete()
    return tuple(xs) if xs is not None else VTuple(r)


def m_unpack_from(fmt, data, offset=0):
    n = m_calcsize(fmt)
    s = to_seq(data)
    if not truth(wrap(s.length()) >= wrap(offset) + n):
        raise_(struct.error("unpack_from requires a larger buffer"))
    return m_unpack(fmt, VBytes(s.slice(offset, offset + n)))


# -- files ------------------------------------------------------------------------------------------------------------------


def file_write(f, s):
    content, pos, closed = f.raw()
    if closed:
        raise_(ValueError("I/O operation on closed file."))
    if f.text:
        if not isinstance(s, (str, SStr)):
            raise_(TypeError("string argument expected"))
        n = text.length(content)
        if not (isinstance(pos, int) and isinstance(n, int) and pos == n or z3.eq(z3.simplify(term(n)), z3.simplify(term(pos)))):
            raise Unsupported("write in the middle of a file")
        new = text.concat([content, s])
        f.set((new, text.length(new), False))
        return text.length(s)
    if isinstance(s, (str, SStr)):
        raise_(TypeError("a bytes-like object is required, not 'str'"))
    if isinstance(content, VEnc) or isinstance(s, VEnc):
        n = m_len(content)
        if isinstance(n, int) and n == 0:
            f.set((s, m_len(s), False))
            return m_len(s)
        r = binop(ast.Add, content, s)
        f.set((r, m_len(r), False))
        return m_len(s)
    cs, ss = to_seq(content), to_seq(s)
    n = cs.length()
    m = ss.length()
    if not truth(wrap(pos) == n):
        raise Unsupported("write in the middle of a file")
    f.set((VBytes(cs + ss), n + m, False))
    return m


def file_read(f, size=None):
    content, pos, closed = f.raw()
    if closed:
        raise_(ValueError("I/O operation on closed file."))
    if f.text:
        n = text.length(content)
        if size is not None or not (isinstance(pos, int) and pos == 0):
            raise Unsupported("partial read of a text file")
        f.set((content, n, False))
        return content
    if size is not None:
        size = as_int(size)
        if bool(wrap(size) < 0):
            size = None
    if isinstance(pos, int) and pos == 0 and size is None:
        f.set((content, end_position(content), False))
        return content
    n = m_len(content)
    if isinstance(pos, int) and isinstance(n, int):
        left = max(n - pos, 0)
    else:
        left = (n - pos) if truth(wrap(pos) <= n) else 0
    if size is None:
        k = left
    else:
        k = size if truth(wrap(size) <= left) else left
    a = pos if truth(wrap(pos) <= n) else n
    r = VBytes(to_seq(content).slice(a, a + k))
    f.set((content, a + k if truth(wrap(pos) <= n) else pos, False))
    return r


def file_seek(f, off, whence=0):
    content, pos, closed = f.raw()
    whence = lower(whence)
    if whence == 0:
        if not truth(wrap(off) >= 0):
            raise_(ValueError("negative seek value"))
        new = off
    elif whence == 1:
        new = imax(pos + off, 0)
    else:
        new = imax(m_len(content) + off, 0) if not f.text else imax(text.length(content) + off, 0)
    f.set((content, as_int(new), closed))
    return new


def end_position(content):
    if isinstance(content, VEnc) and any(isinstance(p, text.Many) for p in text.pieces(content.s)):
        return fresh_int("end", 0)  # not worked out
    return m_len(content)


def file_readlines(f):
    content, pos, closed = f.raw()
    if closed:
        raise_(ValueError("I/O operation on closed file."))
    if not (isinstance(pos, int) and pos == 0):
        raise Unsupported("readlines in the middle of a file")
    f.set((content, end_position(content), False))
    if isinstance(content, VEnc):
        return VList(text.lines(content.s, keepends=True).map(VEnc))
    xs = to_seq(content).concrete()
    if xs is None or any(not isinstance(x, int) for x in xs):
        raise Unsupported("readlines of symbolic bytes")
    return VList(io.BytesIO(bytes(xs)).readlines())


def file_close(f):
    content, pos, _ = f.raw()
    f.set((content, pos, True))


def m_open(name, mode="r", *a, **kw):
    vfs = ctx().user.get("vfs")
    if vfs is None:
        raise Unsupported("open()")
    return vfs.open(name, lower(mode))


def enter(m):
    if isinstance(m, VFile):
        return m
    if is_program_class(type(m)):
        return call(get_attr(m, "__enter__"), [])
    raise Unsupported("with statement")


def leave(m):
    if isinstance(m, VFile):
        file_close(m)
        return
    call(get_attr(m, "__exit__"), [None, None, None])


# -- methods ------------------------------------------------------------------------------------------------------------------


def decode(v, encoding="utf-8", errors="strict"):
    return text.decode(v, lower(encoding), errors)


def find_value(s, x, start=0):
    """Index of the first element equal to x at or after start, or -1 (forking)."""
    return find_first(s, lambda y: eq(y, x), start)


def find_first(s, pred, start=0):
    """Index of the first element at or after start that satisfies the predicate, or -1 (forking)."""
    n = s.length()
    if isinstance(start, int) and start == 0:
        t = s
    else:
        t = s.slice(imin(start, n), n)
    base = start
    pos = 0
    for g in t.segs:
        if isinstance(g, list):
            for k, y in enumerate(g):
                if truth(pred(y)):
                    return base + pos + k
            pos = pos + len(g)
        else:
            f = pure(lambda j, g=g: truth_value(pred(g.at(j))))
            if ctx().choose(2) == 0:
                w = witness("find", 0, g.length)
                ctx().assume(boolterm(f(w)))
                add_universal(0, w, lambda j: lnot(f(j)))
                if not ctx().feasible():
                    raise Infeasible()
                return w + pos + base
            add_universal(0, g.length, lambda j: lnot(f(j)))
            ctx().assume(boolterm(implies(wrap(g.length) > 0, lnot(f(0)))))
            pos = pos + g.length
    return -1


def one_byte(x):
    if isint(x):
        return as_int(x)
    s = to_seq(x)
    if s.length() == 1:
        return s.get(0)
    raise Unsupported("search for a byte string")


def int_to_bytes(v, length=1, byteorder="big", *, signed=False):
    n = lower(length)
    v = as_int(v)
    kind = bool(signed)
    if not truth(elem_range(v, n, kind) if n else v == 0):
        raise_(OverflowError("int too big to convert"))
    order = "<" if lower(byteorder) == "little" else ">"
    return VBytes([encode_byte(v, k, n, order) for k in range(n)])


def int_from_bytes(b, byteorder="big", *, signed=False):
    s = to_seq(b)
    n = s.length()
    if not isinstance(n, int):
        raise Unsupported("int.from_bytes of symbolic length")
    order = "<" if lower(byteorder) == "little" else ">"
    return decode_int([s.get(k) for k in range(n)], order, bool(signed)) if n else 0


def special_function(f):
    import sys

    np = sys.modules.get("numpy")
    if np is not None and f is np.frombuffer:
        return m_frombuffer
    return None


def call_method(o, name, args, kw):
    t = pytype(o)
    if isinstance(o, (VList, VBuf)):
        h = SEQ_METHODS.get(name)
        if h is not None:
            return h(o, *args, **kw)
    if isinstance(o, BYTESLIKE):
        h = BYTES_METHODS.get(name)
        if h is not None:
            return h(o, *args, **kw)
    if isinstance(o, (VDict, dict)):
        h = DICT_METHODS.get(name)
        if h is not None:
            return h(o if isinstance(o, VDict) else VDict(o), *args, **kw)
    if isinstance(o, VSorted):
        h = SORTED_METHODS.get(name)
        if h is not None:
            return h(o, *args, **kw)
    if isinstance(o, VFile):
        h = FILE_METHODS.get(name)
        if h is not None:
            return h(o, *args, **kw)
    if isinstance(o, (str, SStr)):
        return text.method(o, name, args, kw)
    if isinstance(o, (SInt, SBool)) or isinstance(o, int):
        if name == "to_bytes":
            return int_to_bytes(o, *args, **kw)
        if name == "bit_length":
            o = as_int(o)
            return o.bit_length()
    if isinstance(o, (tuple, VTuple)) and name in ("index", "count"):
        o = VList(to_seq(o))
        return SEQ_METHODS[name](o, *args)
    if isinstance(o, VSet):
        if name == "add":
            x = lower(args[0])
            if x not in o.raw():
                o.set(o.raw() + [x])
            return None
    if isinstance(o, (VList, VBuf, VBytes, VDict, VSorted, VFile, VTuple, VEnc, VSet)):
        raise Unsupported(f"method {t.__name__}.{name}")
    return native(getattr(o, name), args, kw)


def attr(o, name):
    """Attribute of a modelled value."""
    t = pytype(o)
    if isinstance(o, VRange) and name in ("start", "stop", "step"):
        return getattr(o, name)
    if type(o) in (int, bool, float) or (isinstance(o, (SInt, SBool))):
        if name in ("real", "numerator"):
            return o
    if not hasattr(t, name):
        raise_(AttributeError(f"{t.__name__!r} object has no attribute {name!r}"))
    return Method(o, name)


def list_append(o, x):
    o.set(o.seq + Seq([[byte_value(x) if isinstance(o, VBuf) else x]]))


def list_extend(o, it):
    new = bytes_seq(it) if isinstance(o, VBuf) else to_seq(it)
    o.set(o.seq + new)


def list_pop(o, i=-1):
    n = o.seq.length()
    if not (n > 0 if isinstance(n, int) else truth(n > 0)):
        raise_(IndexError("pop from empty list"))
    i = norm_index(i, n, "pop index out of range")
    s = o.seq
    v = s.get(i)
    o.set(s.slice(0, i) + s.slice(i + 1, n))
    return v


def list_insert(o, i, x):
    n = o.seq.length()
    a = clamp(i, n, 0)
    if isinstance(o, VBuf):
        x = byte_value(x)
    o.set(o.seq.slice(0, a) + Seq([[x]]) + o.seq.slice(a, n))


def list_index(o, x, *a):
    r = find_value(to_seq(o), x)
    if truth(wrap(r) < 0):
        raise_(ValueError("value is not in list"))
    return r


def list_count(o, x):
    from . import folds

    return m_sum(VList(to_seq(o).map(lambda y: as_int(truth_value(eq(y, x))))))


def list_reverse(o):
    o.set(o.seq.reversed())


def list_sort(o, key=None, reverse=False):
    o.set(m_sorted(o, key=key, reverse=reverse).seq)


def bytes_find(o, x, start=0, end=None):
    s = to_seq(o)
    if end is not None:
        s = s.slice(0, clamp(end, s.length(), None))
    return find_value(s, one_byte(x), start)


def bytes_endswith(o, suffix):
    if isinstance(o, VEnc):
        r = text.endswith(o.s, text.as_text(suffix))
        return r
    s, p = to_seq(o), to_seq(suffix)
    n, m = s.length(), p.length()
    if not truth(wrap(n) >= m):
        return False
    return seq_eq(s.slice(n - m, n), p)


def bytes_startswith(o, prefix):
    s, p = to_seq(o), to_seq(prefix)
    n, m = s.length(), p.length()
    if not truth(wrap(n) >= m):
        return False
    return seq_eq(s.slice(0, m), p)


def bytes_splitlines(o, keepends=False):
    if isinstance(o, VEnc):
        return VList(text.lines(o.s, keepends=bool(keepends), universal=True).map(VEnc))
    xs = lower(o)
    return VList(xs.splitlines(bool(keepends)))


def bytes_strip(o, chars=None):
    if isinstance(o, VEnc):
        return VEnc(text.strip(o.s, chars))
    return lower(o).strip(lower(chars))


def bytes_join(o, it):
    raise Unsupported("bytes.join")


def bytes_hex(o, sep=""):
    return text.hex_seq(to_seq(o), lower(sep) if isinstance(sep, (str, SStr)) else lower(sep).decode(), False)


def m_fromhex(s):
    return VBuf(text.fromhex(s))


def sorted_add(o, x):
    """Insert behind the last element whose key is not greater (bisect_right)."""
    p = bisect(o, key_of(o, x), True)
    s = o.seq
    o.set(s.slice(0, p) + Seq([[x]]) + s.slice(p, s.length()))


def key_of(o, x):
    return call(o.key, [x]) if o.key is not None else x


def bisect(o, k, right):
    """Insertion point in the sorted sequence (forks)."""
    s = o.seq
    xs = s.concrete()
    op = (lambda y: compare(ast.LtE, y, k)) if right else (lambda y: compare(ast.Lt, y, k))
    if xs is not None:
        p = 0
        for x in xs:
            if truth(op(key_of(o, x))):
                p += 1
            else:
                break
        return p
    n = s.length()
    f = pure(lambda j: truth_value(op(key_of(o, s.get(j)))))
    p = fresh_int("bisect", 0)
    c = ctx()
    c.assume(term(p) <= term(n))
    add_universal(0, p, f)
    add_universal(p, n, lambda j: lnot(f(j)))
    add_index(p)
    add_index(p - 1)
    trust("SortedList.bisect_right/add/pop: library contract (sortedcontainers) assumed")
    return p


def sorted_pop(o, i=-1):
    return list_pop(o, i)


def dict_get_m(o, k, default=None):
    if not o.plain():
        ok, v = found(o.raw(), any_key(k))
        return v if ok else default
    kk = as_int(k)
    if isinstance(kk, SInt) and concrete_value(kk) is None:
        return dict_get_native(o.d, kk, default)
    from .interp import dict_key

    return o.d.get(dict_key(k), default)


def dict_pop(o, k, *d):
    from .interp import dict_key

    kk = dict_key(k)
    if kk in o.d:
        v = o.d[kk]
        o.drop(kk)
        return v
    if d:
        return d[0]
    raise_(KeyError(kk))


def dict_setdefault(o, k, v=None):
    from .interp import dict_key

    kk = dict_key(k)
    if kk not in o.d:
        o.put(kk, v)
    return o.d[kk]


def dict_update(o, *a, **kw):
    n = dict(o.d)
    n.update(c_dict(*a, **kw).d)
    o.set(n)


def getvalue(f):
    return f.raw()[0]


SEQ_METHODS = {
    "append": list_append,
    "extend": list_extend,
    "pop": list_pop,
    "insert": list_insert,
    "index": list_index,
    "count": list_count,
    "reverse": list_reverse,
    "sort": list_sort,
    "clear": lambda o: o.set(Seq()),
    "copy": lambda o: type(o)(o.seq),
    "__len__": lambda o: o.seq.length(),
    "__iter__": lambda o: VIter(o.seq),
}
BYTES_METHODS = {
    "find": bytes_find,
    "decode": decode,
    "endswith": bytes_endswith,
    "startswith": bytes_startswith,
    "splitlines": bytes_splitlines,
    "strip": bytes_strip,
    "hex": bytes_hex,
    "join": bytes_join,
    "tobytes": lambda o: VBytes(to_seq(o)),
    "count": list_count,
}
DICT_METHODS = {
    "get": dict_get_m,
    "items": lambda o: VList([(k, v) for k, v in o.d.items()]),
    "keys": lambda o: VList(list(o.d)),
    "values": lambda o: VList(list(o.d.values())),
    "pop": dict_pop,
    "setdefault": dict_setdefault,
    "update": dict_update,
    "copy": lambda o: VDict(o.d, o.default),
    "clear": lambda o: o.set({}),
}
SORTED_METHODS = {
    "add": sorted_add,
    "pop": sorted_pop,
    "bisect_right": lambda o, x: bisect(o, key_of(o, x), True),
    "bisect": lambda o, x: bisect(o, key_of(o, x), True),
    "bisect_left": lambda o, x: bisect(o, key_of(o, x), False),
    "clear": lambda o: o.set(Seq()),
    "__iter__": lambda o: VIter(o.seq),
}
FILE_METHODS = {
    "write": file_write,
    "read": file_read,
    "seek": file_seek,
    "tell": lambda f: f.raw()[1],
    "close": file_close,
    "readlines": file_readlines,
    "getvalue": getvalue,
    "getbuffer": getvalue,
    "flush": lambda f: None,
}


def m_itemgetter(*ks):
    def get(o):
        r = [get_item(o, k) for k in ks]
        return r[0] if len(r) == 1 else tuple(r)

    return Wrapped(get)


def m_attrgetter(*names):
    def get(o):
        out = []
        for nm in names:
            v = o
            for part in nm.split("."):
                v = get_attr(v, part)
            out.append(v)
        return out[0] if len(out) == 1 else tuple(out)

    return Wrapped(get)


class Wrapped:
    def __init__(self, fn):
        self.fn = fn


def native_itemgetter(f, args, kw):
    _, ks = f.__reduce__()
    return m_itemgetter(*ks).fn(*args)


def native_attrgetter(f, args, kw):
    _, ks = f.__reduce__()
    return m_attrgetter(*ks).fn(*args)


OPS = {
    operator.add: ast.Add,
    operator.sub: ast.Sub,
    operator.mul: ast.Mult,
    operator.xor: ast.BitXor,
    operator.and_: ast.BitAnd,
    operator.or_: ast.BitOr,
    operator.mod: ast.Mod,
    operator.floordiv: ast.FloorDiv,
    operator.lshift: ast.LShift,
    operator.rshift: ast.RShift,
}
CMPS = {operator.eq: ast.Eq, operator.ne: ast.NotEq, operator.lt: ast.Lt, operator.le: ast.LtE, operator.gt: ast.Gt, operator.ge: ast.GtE, operator.contains: None}


def m_crc32(data, value=0):
    from . import folds

    s = to_seq(data)
    trust("zlib.crc32: library contract (CRC-32 of the given bytes) assumed")
    return folds.apply("CRC32", s, value)


FUNCTIONS = {
    builtins.len: m_len,
    builtins.isinstance: m_isinstance,
    builtins.sum: m_sum,
    builtins.min: m_min,
    builtins.max: m_max,
    builtins.abs: m_abs,
    builtins.any: m_any,
    builtins.all: m_all,
    builtins.sorted: m_sorted,
    builtins.iter: m_iter,
    builtins.next: m_next,
    builtins.hasattr: m_hasattr,
    builtins.dir: m_dir,
    builtins.getattr: m_getattr,
    builtins.setattr: m_setattr,
    builtins.chr: m_chr,
    builtins.ord: m_ord,
    builtins.print: m_print,
    builtins.divmod: m_divmod,
    builtins.hex: m_hex,
    builtins.repr: m_repr,
    builtins.callable: m_callable,
    builtins.pow: m_pow,
    builtins.open: m_open,
    builtins.id: m_id,
    builtins.round: m_round,
    functools.reduce: m_reduce,
    copy_mod.copy: m_copy,
    copy_mod.deepcopy: m_deepcopy,
    struct.pack: m_pack,
    struct.unpack: m_unpack,
    struct.unpack_from: m_unpack_from,
    struct.calcsize: m_calcsize,
    int.from_bytes: int_from_bytes,
    bytearray.fromhex: m_fromhex,
    bytes.fromhex: lambda s: VBytes(text.fromhex(s)),
    operator.neg: lambda v: -as_int(v),
}
for _f, _o in OPS.items():
    FUNCTIONS[_f] = lambda a, b, _o=_o: binop(_o, a, b)
for _f, _o in CMPS.items():
    FUNCTIONS[_f] = (lambda a, b, _o=_o: compare(_o, a, b)) if _o else contains
import zlib  # noqa: E402

FUNCTIONS[zlib.crc32] = m_crc32


class HashObj:
    """hashlib object over a whole message."""

    def __init__(self, algo, width, seq):
        self.algo, self.width, self.seq = algo, width, seq

    def hexdigest(self):
        return SStr([text.Digest(self.algo, self.width, self.seq)])


def m_hash(algo, width):
    def f(data=b"", **kw):
        if not isinstance(data, BYTESLIKE):
            raise_(TypeError("object supporting the buffer API required"))
        seq = to_seq(data)
        xs = seq.concrete()
        if xs is not None and all(isinstance(x, int) for x in xs):
            return getattr(hashlib, algo)(bytes(xs))
        trust(f"hashlib.{algo}: a function of the bytes given")
        return HashObj(algo, width, seq)

    return f


FUNCTIONS[ElementTree.fromstring] = FUNCTIONS[ElementTree.XML] = xmltree.fromstring
for _a, _w in (("sha1", 40), ("md5", 32), ("sha256", 64)):
    FUNCTIONS[getattr(hashlib, _a)] = m_hash(_a, _w)

import array as array_mod  # noqa: E402
import collections  # noqa: E402

from sortedcontainers import SortedKeyList, SortedList  # noqa: E402

TYPES = {
    int: m_int,
    bool: m_bool,
    str: m_str,
    bytes: c_bytes,
    bytearray: c_bytearray,
    list: c_list,
    tuple: c_tuple,
    dict: c_dict,
    set: c_set,
    frozenset: c_set,
    range: m_range,
    enumerate: m_enumerate,
    zip: m_zip,
    map: m_map,
    filter: m_filter,
    reversed: m_reversed,
    type: m_type,
    object: c_object,
    slice: c_slice,
    memoryview: c_memoryview,
    functools.partial: c_partial,
    collections.defaultdict: c_defaultdict,
    collections.OrderedDict: c_ordereddict,
    operator.itemgetter: m_itemgetter,
    operator.attrgetter: m_attrgetter,
    io.BytesIO: c_bytesio,
    io.StringIO: c_stringio,
    SortedList: c_sortedlist,
    SortedKeyList: c_sortedlist,
    array_mod.array: c_array,
}
CALLABLES = {
    operator.itemgetter: native_itemgetter,
    operator.attrgetter: native_attrgetter,
    Wrapped: lambda f, a, k: f.fn(*a, **k),
}
import re as re_mod  # noqa: E402

from . import regex  # noqa: E402

OBJECTS = {re_mod.Pattern: regex.pattern_attr, regex.VMatch: regex.match_attr, Silent: silent_attr, Absorber: absorber_attr, logging.Logger: native_logger_attr, VArray: array_attr, VView: view_attr, VNd: nd_attr}
PLAIN = {reprlib.Repr, Silent}
FUNCTIONS[builtins.format] = lambda v, spec="": text.format_value(v, spec, -1)
