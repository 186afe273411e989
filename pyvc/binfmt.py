"""construct: parsing of binary data.

Struct, Array and the like become Node terms; parse() reads them off a byte sequence.  What each construct reads is the trusted
contract of the library: FormatField as struct.unpack, Struct field by field, Array element by element, Computed by calling its function
on the record read so far.
"""

import ast

import construct

from . import interp, models
from .core import Unsupported
from .heap import VBytes, VList
from .interp import call, raise_, truth
from .models import Wrapped, new_object
from .text import decode
from .values import Gen, Seq, as_int, wrap


class Rec:
    """construct.Container"""

    def __getattr__(self, name):
        if name == "_":
            raise Unsupported("record around a record")
        raise AttributeError(name)


class Row(Rec):
    """An element of an Array: made anew at every access, hence what is added to it does not last."""

    sealed = True

    def __getattr__(self, name):
        raise Unsupported(f"attribute {name} of an element of an Array")


class Node:
    def __init__(self, kind, *args, **kw):
        self.kind, self.args, self.kw = kind, args, kw


def node(x):
    """Node of a construct object."""
    if isinstance(x, Node):
        return x
    t = type(x)
    if t is construct.Renamed:
        return Node("named", x.name, x.subcon)
    if t is construct.Struct:
        return Node("struct", *x.subcons)
    if t is construct.FormatField:
        return Node("format", x.fmtstr, x.length)
    if t is construct.Union and x.parsefrom is None:
        return Node("union", None, *x.subcons)
    if t is construct.Const:
        return Node("const", x.value, x.subcon)
    if t is construct.Bytes:
        return Node("bytes", x.length)
    if t is construct.Array:
        return Node("array", x.count, x.subcon)
    if t is construct.Computed:
        return Node("computed", x.func)
    if t is construct.Padded and type(x.subcon) is type(construct.Pass):
        return Node("skip", x.length)
    raise Unsupported(f"construct {t.__name__}")


def expression(e, rec):
    if callable(e) or isinstance(e, (interp.VFunc, interp.Bound)):
        if isinstance(e, construct.expr.Path):
            return path(e, rec)
        if isinstance(e, construct.expr.ExprMixin):
            raise Unsupported("construct expression")
        return call(e, [rec])
    return e


def path(e, rec):
    """this.name"""
    parent = vars(e)["_Path__parent"]
    if parent is None or vars(parent)["_Path__parent"] is not None:
        raise Unsupported("construct expression")
    try:
        return rec.__dict__[e.__getfield__()]
    except KeyError as x:
        raise_(x)


def size(x):
    """Size in bytes, where it is the same for every content; else None."""
    x = node(x)
    if x.kind == "format":
        return x.args[1]
    if x.kind == "named":
        return size(x.args[1])
    if x.kind == "struct":
        n = [size(s) for s in x.args]
        return None if None in n else sum(n)
    if x.kind == "computed":
        return 0
    if x.kind in ("bytes", "skip") and isinstance(x.args[0], int):
        return x.args[0]
    if x.kind == "const":
        return len(x.args[0]) if isinstance(x.args[0], bytes) else size(x.args[1])
    return None


def room(s, pos, n, what):
    if not truth(wrap(pos) + n <= s.length()):
        raise_(construct.StreamError(f"could not read enough bytes for {what}"))


def parse(x, s, pos, rec):
    """(value, position after it); rec: the record being read."""
    x = node(x)
    k = x.kind
    if k == "named":
        return parse(x.args[1], s, pos, rec)
    if k == "format":
        fmt, n = x.args
        room(s, pos, n, "a number")
        return models.m_unpack(fmt, VBytes(s.slice(pos, wrap(pos) + n)))[0], wrap(pos) + n
    if k == "struct":
        return fields(new_object(Rec), x.args, s, pos, rec)
    if k == "union":
        r = new_object(Rec)
        for sub in x.args[1:]:
            v, _ = parse(sub, s, pos, r)
            name(r, sub, v)
        return r, pos
    if k == "computed":
        return expression(x.args[0], rec), pos
    if k in ("bytes", "skip"):
        n = as_int(expression(x.args[0], rec))
        if not truth(wrap(n) >= 0):
            raise_(construct.StreamError("length must be non-negative"))
        room(s, pos, n, "bytes")
        return VBytes(s.slice(pos, wrap(pos) + n)) if k == "bytes" else None, wrap(pos) + n
    if k == "const":
        v, p = parse(x.args[1] if len(x.args) > 1 and x.args[1] is not None else Node("bytes", len(x.args[0])), s, pos, rec)
        if not truth(interp.truth_value(models.eq(v, x.args[0]))):
            raise_(construct.ConstError("parsing expected another constant"))
        return v, p
    if k == "array":
        n = as_int(expression(x.args[0], rec))
        sub = x.args[1]
        w = size(sub)
        if w is None:
            raise Unsupported("Array of elements of varying size")
        if not truth(wrap(n) >= 0):
            raise_(construct.RangeError("invalid count"))
        room(s, pos, wrap(n) * w, "the elements")
        inner = sub
        while node(inner).kind == "named":
            inner = node(inner).args[1]
        inner = node(inner)

        def at(i):
            if inner.kind == "struct":
                return fields(new_object(Row), inner.args, s, wrap(pos) + wrap(i) * w, rec)[0]
            return parse(inner, s, wrap(pos) + wrap(i) * w, rec)[0]

        return VList(Seq([Gen(n, at)])), wrap(pos) + wrap(n) * w
    if k == "if":
        return parse(x.args[1] if truth(interp.truth_value(expression(x.args[0], rec))) else x.args[2], s, pos, rec)
    if k == "cstring":
        z = models.find_value(s.slice(pos, s.length()), 0)
        if isinstance(z, int) and z == -1:
            raise_(construct.StreamError("no terminator"))
        return decode(VBytes(s.slice(pos, wrap(pos) + z)), x.args[0]), wrap(pos) + z + 1
    raise Unsupported(f"construct {k}")


def name(r, sub, v):
    sub = node(sub)
    if sub.kind == "named":
        r.__dict__[sub.args[0]] = v


def fields(r, subs, s, pos, rec):
    for sub in subs:
        v, pos = parse(sub, s, pos, r)
        name(r, sub, v)
    return r, pos


def parse_all(x, data):
    models.trust("construct: Struct, Array, FormatField, Union, Const, Bytes, CString, Computed read what their documentation says")
    if not isinstance(data, models.BYTESLIKE + (models.VView,)):
        raise Unsupported("parsing of something else than bytes")
    return parse(x, models.to_seq(data), 0, new_object(Rec))[0]


def node_attr(x, nm):
    if nm == "parse":
        return Wrapped(lambda data: parse_all(x, data))
    if nm == "sizeof":

        def sizeof():
            n = size(x)
            if n is None:
                raise_(construct.SizeofError("size depends on the content"))
            return n

        return Wrapped(sizeof)
    raise Unsupported(f"construct .{nm}")


def operator(op, a, b):
    if op is ast.Div and isinstance(a, str):
        return Node("named", a, b)
    if op in (ast.Eq, ast.Is):
        return a is b
    if op is ast.NotEq:
        return a is not b
    raise Unsupported("construct operator")


def cstring(encoding):
    if not isinstance(encoding, str):
        raise Unsupported("encoding of a CString")
    return Node("cstring", encoding)


CLASSES = (construct.Renamed, construct.Struct, construct.FormatField, construct.Union, construct.Const, construct.Bytes, construct.Array, construct.Computed)
for _c in CLASSES + (Node,):
    models.OBJECTS[_c] = node_attr
interp.RECORDS.update((Rec, Row))
models.OPERATORS.append((lambda x: isinstance(x, (Node, construct.Construct)), operator))
models.TYPES[construct.Struct] = lambda *subs, **kw: Node("struct", *subs, *[Node("named", k, v) for k, v in kw.items()])
models.TYPES[construct.Array] = lambda count, sub: Node("array", count, sub)
models.TYPES[construct.Computed] = lambda f: Node("computed", f)
models.TYPES[construct.Bytes] = lambda n: Node("bytes", n)
models.TYPES[construct.Const] = lambda v, sub=None: Node("const", v, sub)
models.TYPES[construct.IfThenElse] = lambda c, a, b: Node("if", c, a, b)
models.FUNCTIONS[construct.Padding] = lambda n: Node("skip", n)
models.FUNCTIONS[construct.CString] = cstring
