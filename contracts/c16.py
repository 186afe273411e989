"""C16: the plain binary reader decodes fixed-width fields and advances exactly past them.

For every content, position and byte order:
  u8..s64, next_byte:  the bytes are there -> value of exactly these bytes (positional, two's complement for s*), pos' == pos + width
                       otherwise           -> raises
  asciiz:              a zero byte at or after pos -> the bytes before the first one as latin-1 text, pos' just past it; otherwise raises
  pos, size, reset:    the stream's true position and size
"""

import sys

from pyvc.models import find_value
from pyvc.text import SStr, codes

from .c02 import dec
from .common import Seq, Task, VBytes, VFile, assume, attempt, call, cover, fresh_int, get_attr, hx, input_bytes, input_int, land, lnot, method, oblige, same, side, truth, v_eq, why, wrap
from pyvc.interp import put_attr

ORDERS = {"<": "le", ">": "be", "@": sys.byteorder[0] + "e", "=": sys.byteorder[0] + "e"}
FIELDS = {"u8": (1, False), "u16": (2, False), "u32": (4, False), "u64": (8, False), "s8": (1, True), "s16": (2, True), "s32": (4, True), "s64": (8, True), "next_byte": (1, False)}


def reader(prefix):
    """(reader, content, position): a reader over any content, at any position inside it."""
    from objutils.readers import PlainBinaryReader

    data = input_bytes("data")
    f = VFile(VBytes(data), input_int("old", 0))
    rd = call(PlainBinaryReader, [f] + ([prefix] if prefix else []))
    n = data.length()
    oblige("a new reader stands at the start", wrap(get_attr(rd, "pos")) == 0)
    oblige("size is the size of the stream", wrap(get_attr(rd, "size")) == n)
    pos = input_int("pos", 0)
    assume(pos <= n)
    put_attr(rd, "pos", pos)
    oblige("setting the position moves the stream", wrap(f.raw()[1]) == pos)
    oblige("pos is the position of the stream", wrap(get_attr(rd, "pos")) == pos)
    return rd, f, data, n, pos


def frame(f, data):
    same("the stream keeps its content", f.raw()[0], data)


def field(name):
    w, signed = FIELDS[name]

    def harness(c):
        prefix = (None, "<", ">", "@", "=")[c.choose(5)]
        rd, f, data, n, pos = reader(prefix)
        ok, r = method(rd, name)
        if ok:
            cover("returned")
            oblige("a read that returns lies inside the stream", pos + w <= n)
            bs = [data.get(pos + k) for k in range(w)]
            oblige("the value is that of the next bytes in the reader's byte order", v_eq(r, dec(bs, ORDERS[prefix or "@"], signed)))
            oblige("the position moves by exactly the width", wrap(f.raw()[1]) == pos + w)
            oblige("pos follows the stream", wrap(get_attr(rd, "pos")) == pos + w)
        else:
            cover("refused")
            oblige("a read inside the stream does not raise", pos + w > n, why(r))
        oblige("size stays the size of the stream", wrap(get_attr(rd, "size")) == n)
        frame(f, data)

    return harness


def asciiz(c):
    rd, f, data, n, pos = reader("<")
    ok, r = method(rd, "asciiz")
    z = find_value(data, 0, pos)
    none = isinstance(z, int) and z == -1
    if ok:
        cover("returned")
        oblige("a string read that returns has a terminator", not none)
        oblige("it returns a text", isinstance(r, (str, SStr)))
        same("the text consists of the bytes before the terminator", codes(r), data.slice(pos, z))
        oblige("the position moves just past the terminator", wrap(f.raw()[1]) == z + 1)
    else:
        cover("refused")
        oblige("a terminated string does not raise", none, why(r))
    frame(f, data)


def reset(c):
    rd, f, data, n, pos = reader("<")
    ok, r = method(rd, "reset")
    oblige("reset does not raise", ok, why(r))
    oblige("reset moves to the start", wrap(f.raw()[1]) == 0)
    oblige("pos is the start", wrap(get_attr(rd, "pos")) == 0)
    oblige("size stays the size of the stream", wrap(get_attr(rd, "size")) == n)
    frame(f, data)


def tasks():
    ts = []
    for nm in FIELDS:
        ts.append(Task(f"PlainBinaryReader.{nm}", field(nm), covers=("returned", "refused"), replay=lambda i, nm=nm: [dict(bo=bo, data=hx(i["data"]), pos=i["pos"], ops=[nm]) for bo in "<>@="]))
    ts.append(Task("PlainBinaryReader.asciiz", asciiz, covers=("returned", "refused"), replay=lambda i: dict(bo="<", data=hx(i["data"]), pos=i["pos"], ops=["asciiz"])))
    ts.append(Task("PlainBinaryReader.reset", reset, replay=lambda i: dict(bo="<", data=hx(i["data"]), pos=i["pos"], ops=["reset"])))
    return ts
