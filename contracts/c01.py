"""C01: raw section access is bounded and touches only the addressed bytes.

Contracts (for every section, address, length and data):
  read(a, n), n >= 0:  a in [start, start+len-n]  ->  result == data[a-start : a-start+n], section unchanged
                       otherwise                  ->  InvalidAddressError, section unchanged
  write(a, d):         d fits                     ->  data' == data with [a-start, a-start+len(d)) replaced by d
                       otherwise                  ->  InvalidAddressError, section unchanged
"""

from objutils.exceptions import InvalidAddressError
from objutils.section import Section

from .common import *  # noqa: F403
from .common import Task, VBuf, VBytes, VList, VTuple, arbitrary_bytes, assume, call, cover, hx, imod, input_int, land, lnot, method, oblige, refused, same, section, state, truth, unchanged, wrap
from pyvc.models import VArray, VNd, VView


def read(c):
    s, start, data = section()
    n = data.length()
    addr = input_int("addr")
    k = input_int("n", 0)
    ok, r = method(s, "read", addr, k)
    inside = land(addr >= start, addr + k <= start + n)
    if ok:
        cover("returned")
        oblige("a read that returns addresses bytes of the section only", inside)
        same("read returns the addressed bytes", r, data.slice(addr - start, addr - start + k))
    else:
        cover("refused")
        oblige("a read inside the section is not refused", lnot(inside))
        refused("an access outside raises InvalidAddressError", ok, r, InvalidAddressError)
    unchanged("read changes nothing", s, start, data)


def sources(kind, d):
    if kind == "bytes":
        return VBytes(d)
    if kind == "bytearray":
        return VBuf(d)
    if kind == "list":
        return VList(d)
    if kind == "tuple":
        return VTuple(d)
    if kind == "array('B')":
        return VArray(d, "B")
    if kind == "array('H')":
        assume(imod(wrap(d.length()), 2) == 0)
        return VArray(d, "H")
    if kind == "memoryview":
        return VView(VBytes(d))
    if kind == "str":
        from pyvc.text import from_codes
        from pyvc.models import forall

        assume(forall(d, lambda x: wrap(x) < 128))
        return from_codes(d)
    raise AssertionError(kind)


def write(kind):
    def harness(c):
        s, start, data = section()
        n = data.length()
        addr = input_int("addr")
        d = arbitrary_bytes("val")
        k = d.length()
        if kind == "section":
            src = call(Section, [0, VBuf(d)])
        else:
            src = sources(kind, d)
        ok, r = method(s, "write", addr, src)
        inside = land(addr >= start, addr + k <= start + n)
        off = addr - start
        if ok:
            cover("written")
            oblige("a write that returns addresses bytes of the section only", inside)
            want = data.slice(0, off) + d + data.slice(off + k, n)
            s1, d1 = state(s)
            oblige("write keeps the start address", wrap(s1) == start)
            same("write replaces exactly the addressed bytes", d1, want)
            ok, r = method(s, "read", addr, k)
            oblige("the written bytes can be read", ok)
            same("a read after the write returns what was written", r, d)
            if kind == "section":
                same("the source is not modified", src.__dict__["data"], d)
            elif kind in ("bytearray", "list"):
                same("the source is not modified", src, d)
            oblige("the section does not share storage with the source", s.__dict__["data"] is not (src.__dict__["data"] if kind == "section" else src))
        else:
            cover("refused")
            oblige("a write inside the section is not refused", lnot(inside))
            refused("an access outside raises InvalidAddressError", ok, r, InvalidAddressError)
            unchanged("a refused write changes nothing", s, start, data)

    return harness


DTYPES = [u + "int" + w + e for u in ("u", "") for w in ("8", "16", "32", "64") for e in ("_le", "_be")] + ["float32_le", "float64_be", "byte"]


def ndread(c):
    s, start, data = section()
    n = data.length()
    addr = input_int("addr")
    k = input_int("n", 0)
    dtype = DTYPES[c.choose(len(DTYPES))]
    import numpy as np

    dt = np.dtype("uint8" if dtype == "byte" else dtype[:-3])
    dt = dt.newbyteorder("<" if dtype == "byte" or dtype.endswith("le") else ">")
    ok, r = method(s, "read_ndarray", addr, k, dtype, shape=-1)
    inside = land(addr >= start, addr + k <= start + n)
    if ok:
        cover("returned")
        oblige("an array read that returns addresses bytes of the section only", inside)
        oblige("the result is an array", isinstance(r, VNd))
        oblige("the array has the element type asked for", r.dtype == dt)
        same("the array consists of the addressed bytes", r.seq, data.slice(addr - start, addr - start + k))
        oblige("the array does not share storage with the section", r.base is not s.__dict__["data"])
    elif truth(inside):
        cover("misfit")
        oblige("an array read inside the section is refused only when its length is no multiple of the element size", land(imod(k, dt.itemsize) != 0, isinstance(r, ValueError)))
    else:
        cover("refused")
        refused("an access outside raises InvalidAddressError", ok, r, InvalidAddressError)
    unchanged("an array read changes nothing", s, start, data)


def ndwrite(c):
    import numpy as np

    s, start, data = section()
    n = data.length()
    addr = input_int("addr")
    d = arbitrary_bytes("val")
    k = d.length()
    ok, r = method(s, "write_ndarray", addr, VNd(d, np.dtype("uint8")))
    inside = land(addr >= start, addr + k <= start + n)
    off = addr - start
    if ok:
        cover("written")
        oblige("an array write that returns addresses bytes of the section only", inside)
        s1, d1 = state(s)
        oblige("an array write keeps the start address", wrap(s1) == start)
        same("an array write replaces exactly the addressed bytes", d1, data.slice(0, off) + d + data.slice(off + k, n))
    else:
        cover("refused")
        oblige("an array write inside the section is not refused", lnot(inside))
        refused("an access outside raises InvalidAddressError", ok, r, InvalidAddressError)
        unchanged("a refused array write changes nothing", s, start, data)


def replay_read(i):
    return dict(op="read", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], n=i["n"])


def replay_write(kind):
    return lambda i: dict(op="write", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], val=hx(i["val"]), kind=KINDS.get(kind, kind))


KINDS = {"array('B')": "arrayB", "array('H')": "arrayH"}


def ndarrays():
    return [
        Task("Section.read_ndarray", ndread, covers=("returned", "refused", "misfit"), replay=lambda i: dict(op="ndread", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], n=i["n"], dtype="uint8_le")),
        Task("Section.write_ndarray", ndwrite, covers=("written", "refused"), replay=lambda i: dict(op="ndwrite", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], val=hx(i["val"]), dtype="uint8")),
    ]


def tasks():
    ts = [Task("Section.read", read, covers=("returned", "refused"), replay=replay_read)]
    for kind in ("bytes", "bytearray", "list", "tuple", "section", "str", "array('B')", "array('H')", "memoryview"):
        ts.append(Task(f"Section.write ({kind})", write(kind), covers=("written", "refused"), replay=replay_write(kind)))
    return ts + ndarrays()
