"""C05: access by address reaches exactly the section that holds the address.

For every image (any number of sections of any length, sorted and disjoint, i.e. the invariant of C04) and every address:
  some section S holds it:  addr in image; get_section(addr) is S; op(addr, ...) has the result and the effect of S.op(addr, ...)
                            (S.op run on a twin of S), all other sections and the image's section list stay as they are
  no section holds it:      addr not in image; get_section and every op raise InvalidAddressError, nothing changes
  len(image) == sum of the section lengths
"""

from objutils.exceptions import InvalidAddressError
from objutils.section import Section
from pyvc.models import SFloat, VNd, is_symbolic
from pyvc.text import SStr, from_codes

from .common import (
    Gen,
    Sections,
    Seq,
    SInt,
    Task,
    VBuf,
    VBytes,
    VList,
    VTuple,
    arbitrary_bytes,
    assume,
    attempt,
    call,
    cover,
    disjoint,
    every,
    fresh_int,
    hx,
    image_of,
    input_bytes,
    input_int,
    land,
    lnot,
    method,
    oblige,
    refused,
    same,
    sections_cell,
    state,
    term,
    to_seq,
    unchanged,
    v_eq,
    why,
    wrap,
)

DTYPES = ["byte", "uint16_be", "int32_le", "uint64_le", "float32_be"]


def holding(c):
    """(image, cell, S, data of S, twin of S, address held by S)"""
    a, b = Sections("before"), Sections("after")
    start, data = input_int("s_start", 0), input_bytes("s_data")
    n = data.length()
    s = call(Section, [start, VBuf(data)])
    twin = call(Section, [start, VBuf(data)])
    every(0, a.n, lambda j: a.end(j) <= start)
    every(0, b.n, lambda j: b.start(j) >= start + n)
    addr = input_int("addr", 0)
    assume(land(addr >= start, addr < start + n))
    img = image_of(Seq([a.gen, [s], b.gen]))
    return img, s, start, data, twin, addr


def missing(c):
    a = Sections("any")
    addr = input_int("addr", 0)
    every(0, a.n, lambda j: lnot(land(addr >= a.start(j), addr < a.end(j))))
    return image_of(Seq([a.gen])), addr


def value_same(name, a, b):
    if isinstance(a, VNd) and isinstance(b, VNd):
        oblige(name + ": element type", a.dtype == b.dtype)
        same(name, a.seq, b.seq)
    elif isinstance(a, (VBuf, VBytes, VList, VTuple, bytes, bytearray, tuple, list)):
        oblige(name + ": type", type(a) is type(b))
        same(name, a, b)
    elif a is None:
        oblige(name, b is None)
    else:
        oblige(name, v_eq(a, b))


def frame(name, img, cell, seq):
    oblige(name + ": the image keeps its sections", sections_cell(img) is cell and cell.seq is seq)


def np_dtype(name):
    import numpy as np

    return np.dtype(name)


# op -> (context -> arguments after the address, keywords)
def strings(c):
    k = input_int("chars", 0)
    from pyvc.values import new_fun

    f = new_fun("ch", 1, 0, 0x10FFFF)
    return from_codes(Seq([Gen(k, lambda i: SInt(f(term(i)), 0, 0x10FFFF))]))


def floats(c):
    return SFloat(term(fresh_int("v")), 4)


def number(dt):
    return floats(None) if dt.startswith("float") else input_int("v")


def numbers(dt):
    from pyvc.values import new_fun

    k, f = input_int("count", 0), new_fun("elem", 1)
    if dt.startswith("float"):
        return VList(Seq([Gen(k, lambda i: SFloat(f(term(i)), 4))]))
    return VList(Seq([Gen(k, lambda i: SInt(f(term(i))))]))


def dtype(c):
    return DTYPES[c.choose(len(DTYPES))]


def op_read_ndarray(c):
    order = (None, "C")[c.choose(2)]
    return [input_int("n", 0), ("uint16_le", "int8_be")[c.choose(2)]], {"shape": -1, "order": order}


def op_write_numeric(c):
    dt = dtype(c)
    return [number(dt), dt], {}


def op_write_array(c):
    dt = dtype(c)
    return [numbers(dt), dt], {}


OPS = {
    "read": lambda c: ([input_int("n", 0)], {}),
    "write": lambda c: ([VBytes(arbitrary_bytes("val"))], {}),
    "read_numeric": lambda c: ([dtype(c)], {}),
    "read_numeric masked": lambda c: (["uint16_le"], {"bit_mask": input_int("mask", 0)}),
    "write_numeric": op_write_numeric,
    "read_numeric_array": lambda c: ([input_int("n", 0), dtype(c)], {}),
    "write_numeric_array": op_write_array,
    "read_string": lambda c: ([], {}),
    "read_string by length": lambda c: ([], {"length": input_int("n", 0), "encoding": ("latin1", "utf-8")[c.choose(2)]}),
    "read_string terminated": lambda c: ([("ascii", "utf-16-le")[c.choose(2)]], {}),
    "write_string": lambda c: ([strings(c)], {"encoding": ("latin1", "ascii")[c.choose(2)]}),
    "write_string default": lambda c: ([strings(c)], {}),
    "read_ndarray": op_read_ndarray,
    "write_ndarray": lambda c: ([VNd(arbitrary_bytes("val"), np_dtype("uint8"))], {}),
}


def dispatch(op):
    name = op.split()[0]

    def harness(c):
        img, s, start, data, twin, addr = holding(c)
        cell = sections_cell(img)
        seq = cell.seq
        args, kw = OPS[op](c)
        ok2, want = method(twin, name, addr, *args, **kw)
        ok, r = method(img, name, addr, *args, **kw)
        oblige("access by address raises exactly when the section's access does", ok == ok2, f"image: {why(r)}, section: {why(want)}")
        if ok:
            cover("returned")
            if name.startswith("read"):
                value_same("access by address has the section's result", r, want)
        else:
            cover("raised")
            oblige("access by address raises what the section's access raises", type(r) is type(want))
        st, d2 = state(twin)
        unchanged("access by address has the section's effect", s, st, d2)
        frame("access by address", img, cell, seq)

    return harness


def dispatch_missing(op):
    name = op.split()[0]

    def harness(c):
        img, addr = missing(c)
        cell = sections_cell(img)
        seq = cell.seq
        args, kw = OPS[op](c)
        ok, r = method(img, name, addr, *args, **kw)
        cover("raised")
        refused("an address held by no section raises InvalidAddressError", ok, r, InvalidAddressError)
        frame("a refused access", img, cell, seq)

    return harness


def lookup(c):
    img, s, start, data, twin, addr = holding(c)
    cell = sections_cell(img)
    seq = cell.seq
    if c.choose(2) == 0:
        ok, r = method(img, "__contains__", addr)
        oblige("an address held by a section is contained", ok and r)
        cover("contained")
    else:
        ok, r = method(img, "get_section", addr)
        oblige("the section that holds the address is found", ok, why(r))
        oblige("the section found is the one that holds the address", r is s)
        cover("found")
    unchanged("lookup changes nothing", s, start, data)
    frame("lookup", img, cell, seq)


def lookup_missing(c):
    img, addr = missing(c)
    cell = sections_cell(img)
    seq = cell.seq
    if c.choose(2) == 0:
        ok, r = method(img, "__contains__", addr)
        oblige("an address held by no section is not contained", ok and lnot(r))
        cover("not contained")
    else:
        ok, r = method(img, "get_section", addr)
        refused("looking up an address held by no section raises InvalidAddressError", ok, r, InvalidAddressError)
        cover("not found")
    frame("lookup", img, cell, seq)


def size(c):
    a = Sections("any")
    img = image_of(Seq([a.gen]))
    ok, r = method(img, "__len__")
    oblige("the size is defined", ok)
    from pyvc.models import m_sum

    oblige("the size is the number of bytes in the sections", v_eq(r, m_sum(VList(Seq([Gen(a.n, a.length)])))))
    cover("size")


def replay(op, held):
    name = op.split()[0]

    def case(i):
        secs = i.get("before", []) + ([[i["s_start"], i["s_data"]]] if held else []) + i.get("after", []) + i.get("any", [])
        if not disjoint(secs) or held != any(a <= i["addr"] < a + len(d) for a, d in secs):
            return None
        secs = [[a, hx(d)] for a, d in secs]
        args = {
            "read": lambda: [i["n"]],
            "write": lambda: [{"b": hx(i["val"])}],
            "read_numeric": lambda: ["uint16_be"],
            "write_numeric": lambda: [i.get("v", 1), "int32_le"],
            "read_numeric_array": lambda: [i["n"], "uint16_be"],
            "write_numeric_array": lambda: [[1] * i.get("count", 1), "uint16_be"],
            "read_string": lambda: ["latin1", i.get("n", -1)],
            "write_string": lambda: ["a" * i.get("chars", 1), "latin1"],
            "read_ndarray": lambda: [i["n"], "uint16_le", {"t": [-1]}],
            "write_ndarray": lambda: [{"nd": hx(i["val"])}],
        }[name]()
        return dict(secs=secs, addr=i["addr"], op=name, args=args, join=False)

    return case


def tasks():
    ts = [
        Task("Image.__contains__, get_section: held", lookup, covers=("contained", "found"), replay=lambda i: replay("read", True)(dict(i, n=0))),
        Task("Image.__contains__, get_section: not held", lookup_missing, covers=("not contained", "not found"), replay=lambda i: replay("read", False)(dict(i, n=0))),
        Task("Image.__len__", size, covers=("size",), replay=lambda i: replay("read", False)(dict(i, n=0, addr=10**9))),
    ]
    for op in OPS:
        ts.append(Task(f"Image.{op}: held", dispatch(op), covers=("returned",) if op == "read_string by length" else ("returned", "raised"), replay=replay(op, True)))
        ts.append(Task(f"Image.{op}: not held", dispatch_missing(op), covers=("raised",), replay=replay(op, False)))
    return ts
