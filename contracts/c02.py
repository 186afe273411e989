"""C02: typed numeric access encodes, decodes and bounds values exactly.

Contracts, for every section, address, value, element count and each of the 20 type/byte-order names (and spellings):
  read_numeric(a, T)         fits: == dec_T(data[a-start:][:w]), unchanged; else raises, unchanged
  read_numeric(a, T, bit_mask=m)   == dec_T(bytes of (unsigned value & m))
  write_numeric(a, v, T)     fits and v in range(T): data' == data with enc_T(v) at a, and a read returns v; else raises, unchanged
  read/write_numeric_array   the same for every element, of any number of elements
dec_T/enc_T are written below as arithmetic (positional value, two's complement), independent of struct.
"""

from objutils.section import Section  # noqa: F401
from pyvc.models import SFloat, add_index
from pyvc.values import iand

from .c01 import ndarrays
from .common import (
    Gen,
    Seq,
    SInt,
    Task,
    VList,
    VTuple,
    as_int,
    assume,
    cover,
    fresh_int,
    hx,
    idiv,
    imod,
    input_int,
    ite,
    land,
    lnot,
    method,
    oblige,
    same,
    section,
    side,
    state,
    term,
    to_seq,
    truth,
    unchanged,
    v_eq,
    wrap,
)

INTS = [(u + "int" + str(8 * w), w, u == "") for u in ("u", "") for w in (1, 2, 4, 8)]
FLOATS = [("float32", 4, "f"), ("float64", 8, "f")]


def dec(bs, order, signed):
    """Value of the bytes bs (little endian when order == 'le')."""
    w = len(bs)
    v = 0
    for k in range(w):
        v = v + bs[k if order == "le" else w - 1 - k] * 256**k
    if signed:
        v = ite(wrap(v) >= 2 ** (8 * w - 1), v - 2 ** (8 * w), v)
    return v


def enc(v, w, order, k):
    """k-th stored byte of v."""
    pos = k if order == "le" else w - 1 - k
    return imod(idiv(wrap(v), 256**pos), 256)


def limits(w, signed):
    return (-(2 ** (8 * w - 1)), 2 ** (8 * w - 1) - 1) if signed else (0, 2 ** (8 * w) - 1)


def spell(t, order, style):
    n = f"{t}_{order}"
    return {"": n, "upper": n.upper(), "pad": f" {n} "}[style]


def floatval(hint, w):
    return SFloat(term(fresh_int(hint)), w)


def veq(a, b):
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        if not (isinstance(a, SFloat) and isinstance(b, SFloat)):
            return False
        return wrap(SInt(a.t)) == SInt(b.t)
    return v_eq(a, b)


def decode(bs, order, kind):
    if kind == "f":
        from pyvc.models import float_dec

        return float_dec(bs, "<" if order == "le" else ">", len(bs))
    return dec(bs, order, kind)


def fits(data, start, addr, size):
    return land(addr >= start, addr + size <= start + data.length())


def bytes_at(data, off, w):
    return [data.get(off + k) for k in range(w)]


def read(t, w, kind, masked):
    def harness(c):
        s, start, data = section()
        addr = input_int("addr")
        order = ("le", "be")[c.choose(2)]
        style = ("", "upper", "pad")[c.choose(3)]
        c.user["order"] = order
        kw = {}
        if masked:
            m = input_int("mask")
            kw["bit_mask"] = m
        ok, r = method(s, "read_numeric", addr, spell(t, order, style), **kw)
        inside = fits(data, start, addr, w)
        if ok:
            cover("returned")
            oblige("a read that returns lies inside the section", inside)
            bs = bytes_at(data, addr - start, w)
            if masked:
                u = iand(dec(bs, order, False), m)
                want = ite(wrap(u) >= 2 ** (8 * w - 1), u - 2 ** (8 * w), u) if kind else u
            else:
                want = decode(bs, order, kind)
            oblige("the value is the decoding of the addressed bytes" + (" under the mask" if masked else ""), veq(r, want))
        else:
            cover("refused")
            oblige("a read inside the section does not raise", lnot(inside), f"raised {r!r}")
        unchanged("reading changes nothing", s, start, data)

    return harness


def write(t, w, kind):
    def harness(c):
        s, start, data = section()
        addr = input_int("addr")
        order = ("le", "be")[c.choose(2)]
        style = ("", "upper", "pad")[c.choose(3)]
        if kind == "f":
            v = floatval("v", w)
            inrange = True
        else:
            v = input_int("v")
            lo, hi = limits(w, kind)
            inrange = land(v >= lo, v <= hi)
        ok, r = method(s, "write_numeric", addr, v, spell(t, order, style))
        inside = fits(data, start, addr, w)
        if ok:
            cover("written")
            oblige("a write that returns lies inside the section", inside)
            oblige("a write that returns has a value in range", inrange)
            off = addr - start
            s1, d1 = state(s)
            if kind == "f":
                mid = d1.slice(off, off + w)
                ok, back = method(s, "read_numeric", addr, spell(t, order, ""))
            else:
                mid = Seq([[enc(v, w, order, k) for k in range(w)]])
                ok, back = method(s, "read_numeric", addr, spell(t, order, style))
            oblige("writing keeps the start address", wrap(s1) == start)
            same("exactly the encoding of the value is stored, nothing else changes", d1, data.slice(0, off) + mid + data.slice(off + w, data.length()))
            oblige("the value can be read back", ok)
            oblige("a read after the write returns the value", veq(back, v))
        else:
            cover("refused")
            oblige("a valid write does not raise", lnot(land(inside, inrange)), f"raised {r!r}")
            unchanged("a refused write changes nothing", s, start, data)

    return harness


def read_array(t, w, kind):
    def harness(c):
        s, start, data = section()
        addr = input_int("addr")
        k = input_int("n", 0)
        order = ("le", "be")[c.choose(2)]
        ok, r = method(s, "read_numeric_array", addr, k, spell(t, order, ""))
        inside = fits(data, start, addr, k * w)
        if ok:
            cover("returned")
            oblige("an array read that returns lies inside the section", inside)
            xs = to_seq(r)
            oblige("the array has the length asked for", wrap(xs.length()) == k)

            def element():
                i = fresh_int("ix", 0)
                assume(i < k)
                bs = bytes_at(data, addr - start + i * w, w)
                oblige("every element is the decoding of its bytes", veq(xs.get(i), decode(bs, order, kind)))

            side(element)
        else:
            cover("refused")
            oblige("an array read inside the section does not raise", lnot(inside), f"raised {r!r}")
        unchanged("reading changes nothing", s, start, data)

    return harness


def write_array(t, w, kind):
    def harness(c):
        from pyvc.models import forall
        from pyvc.values import new_fun

        s, start, data = section()
        addr = input_int("addr")
        k = input_int("n", 0)
        order = ("le", "be")[c.choose(2)]
        f = new_fun("elem", 1)
        if kind == "f":
            vals = Seq([Gen(k, lambda i: SFloat(f(term(i)), w))])
            inrange = True
        else:
            vals = Seq([Gen(k, lambda i: SInt(f(term(i))))])
            lo, hi = limits(w, kind)
            inrange = forall(vals, lambda v: land(v >= lo, v <= hi), "rng")
        arr = (VList, VTuple)[c.choose(2)](vals)
        ok, r = method(s, "write_numeric_array", addr, arr, spell(t, order, ""))
        inside = fits(data, start, addr, k * w)
        if ok:
            cover("written")
            oblige("an array write that returns lies inside the section", inside)
            oblige("an array write that returns has values in range", inrange)
            off = addr - start
            s1, d1 = state(s)
            oblige("writing keeps the start address", wrap(s1) == start)
            oblige("writing keeps the length", wrap(d1.length()) == data.length())

            def outside():
                i = fresh_int("ix", 0)
                assume(land(i < data.length(), lnot(land(i >= off, i < off + k * w))))
                oblige("no byte outside the array changes", v_eq(d1.get(i), data.get(i)))

            side(outside)

            def element():
                i = fresh_int("el", 0)
                assume(i < k)
                add_index(i)
                if kind != "f":
                    for j in range(w):
                        oblige("every element is stored in its encoding", v_eq(d1.get(off + i * w + j), enc(vals.get(i), w, order, j)))
                ok, back = method(s, "read_numeric_array", addr, k, spell(t, order, ""))
                oblige("the array can be read back", ok)
                oblige("a read after the write returns the values", veq(to_seq(back).get(i), vals.get(i)))

            side(element)
        else:
            cover("refused")
            oblige("a valid array write does not raise", lnot(land(inside, inrange)), f"raised {r!r}")
            unchanged("a refused write changes nothing", s, start, data)

    return harness


def both(mk):
    return lambda i: [mk(i, "le"), mk(i, "be")]


def tasks():
    ts = []
    for t, w, kind in INTS + FLOATS:
        base = lambda i, bo, t=t: dict(t=t, bo=bo, data=hx(i["s_data"]), start=i["s_start"], addr=i["addr"])  # noqa: E731
        ts.append(Task(f"Section.read_numeric {t}", read(t, w, kind, False), covers=("returned", "refused"), replay=both(lambda i, bo, b=base: dict(b(i, bo), op="r", mask=None))))
        ts.append(Task(f"Section.write_numeric {t}", write(t, w, kind), covers=("written", "refused"), replay=both(lambda i, bo, b=base: dict(b(i, bo), op="w", v=i["v"])) if kind != "f" else None))
        if kind != "f":
            ts.append(Task(f"Section.read_numeric {t} with bit_mask", read(t, w, kind, True), covers=("returned", "refused"), replay=both(lambda i, bo, b=base: dict(b(i, bo), op="r", mask=i["mask"]))))
        ts.append(Task(f"Section.read_numeric_array {t}", read_array(t, w, kind), covers=("returned", "refused"), replay=both(lambda i, bo, b=base: dict(b(i, bo), op="ra", n=i["n"]))))
        ts.append(Task(f"Section.write_numeric_array {t}", write_array(t, w, kind), covers=("written", "refused")))
    return ts + ndarrays()
