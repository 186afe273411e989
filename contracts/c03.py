"""C03: string access stays inside the section and round-trips.

For every section, address, text and encoding (latin-1 and ASCII exactly; any other codec as an abstract codec of which
only "decoding what encode() returned gives the text back" is assumed):
  write_string(a, t): t encodable and a+len(enc)+1 inside -> data' == data with enc(t) + b"\\0" at a; otherwise raises, unchanged
  read_string(a): the decoding of the bytes up to the first zero byte; raises when there is none or a is outside
  read_string(a, length=n): the decoding of n bytes; raises when they are not inside
  read_string after write_string returns t (zero-terminated when enc(t) has no zero byte, and by length)
"""

from objutils.exceptions import InvalidAddressError
from pyvc.models import add_index, forall
from pyvc.text import Coded, SStr, from_codes

from .common import (
    Gen,
    Seq,
    SInt,
    Task,
    arbitrary_bytes,
    assume,
    cover,
    ctx,
    fresh_int,
    hx,
    input_int,
    land,
    lnot,
    method,
    oblige,
    refused,
    same,
    section,
    side,
    state,
    term,
    to_seq,
    truth,
    unchanged,
    v_eq,
    wrap,
)

CODECS = ["latin1", "ascii", "utf-8", "utf-16-le", "cp1252"]


def any_text(enc, c):
    """(text, its encoding when it is encodable, is it encodable?)"""
    if enc in ("latin1", "ascii"):
        from pyvc.values import new_fun

        lim = 256 if enc == "latin1" else 128
        k = input_int("chars", 0)
        f = new_fun("ch", 1, 0, 0x10FFFF)
        ctx().inputs["text"] = ("codes", f, k)
        seq = Seq([Gen(k, lambda i: SInt(f(term(i)), 0, 0x10FFFF))])
        good = forall(seq, lambda x: x < lim, "txt")
        return from_codes(seq), seq, good
    b = arbitrary_bytes("val")
    assume(b.length() >= 1)
    return SStr([Coded(enc, b)]), b, None


def write(enc, explicit):
    def harness(c):
        s, start, data = section()
        n = data.length()
        addr = input_int("addr")
        text, b, good = any_text(enc, c)
        kw = {"encoding": enc} if explicit else {}
        ok, r = method(s, "write_string", addr, text, **kw)
        k = b.length()
        off = addr - start
        inside = land(addr >= start, addr + k + 1 <= start + n)
        if ok:
            cover("written")
            oblige("a string write that returns lies inside the section, terminator included", inside)
            if good is not None:
                oblige("a string write that returns had an encodable text", good)
            s1, d1 = state(s)
            oblige("writing a string keeps the start address", wrap(s1) == start)
            same("exactly the encoded text and one zero byte are stored, nothing else changes", d1, data.slice(0, off) + b + Seq([[0]]) + data.slice(off + k + 1, n))

            def by_length():
                ok, back = method(s, "read_string", addr, length=k, **kw)
                oblige("the string can be read back by its length", ok, str(back))
                oblige("reading by length returns the string", v_eq(back, text))

            side(by_length)

            def terminated():
                assume(forall(b, lambda x: x != 0, "nz"))
                cover("terminated")
                ok, back = method(s, "read_string", addr, **kw)
                oblige("the string can be read back up to its terminator", ok, str(back))
                if isinstance(back, (str, SStr)):
                    oblige("reading up to the terminator returns the string", v_eq(back, text))

            side(terminated)
        else:
            cover("refused")
            if good is True:
                oblige("a string that fits and can be encoded is not refused", lnot(inside))
            elif good is None and isinstance(r, UnicodeEncodeError):
                pass  # the codec refused the text
            elif good is None:
                oblige("a string that fits and can be encoded is not refused", lnot(inside))
            unchanged("a refused string write changes nothing", s, start, data)

    return harness


def read_terminated(enc):
    def harness(c):
        s, start, data = section()
        n = data.length()
        addr = input_int("addr")
        ok, r = method(s, "read_string", addr, encoding=enc)
        off = addr - start
        if ok:
            cover("returned")
            oblige("a string read that returns starts inside the section", land(addr >= start, addr < start + n))
            # the terminator: first zero byte at or after the address
            z = terminator(data, off, n)
            if z is None:
                oblige("reading an unterminated string raises", False)
            else:
                check_text("the text is the decoding of the bytes up to the terminator", r, data.slice(off, z), enc)
        else:
            cover("refused")
            if truth(land(addr >= start, addr < start + n)):
                z = terminator(data, off, n)
                if z is not None:
                    oblige("a terminated string inside the section is readable", isinstance(r, UnicodeDecodeError), f"raised {r!r}")
        unchanged("reading a string changes nothing", s, start, data)

    return harness


def terminator(data, off, n):
    from pyvc.models import find_value

    z = find_value(data, 0, off)
    if isinstance(z, int) and z == -1:
        return None
    return z


def check_text(name, r, b, enc):
    oblige(name + ": it is a text", isinstance(r, (str, SStr)))
    if enc in ("latin1", "ascii"):
        from pyvc.text import codes

        same(name, codes(r), b)
        return
    ps = r.ps if isinstance(r, SStr) else None
    oblige(name + ": codec", ps is not None and len(ps) == 1 and isinstance(ps[0], Coded) and ps[0].enc == enc)
    same(name, ps[0].seq, b)


def read_length(enc):
    def harness(c):
        s, start, data = section()
        n = data.length()
        addr = input_int("addr")
        k = input_int("length", 0)
        ok, r = method(s, "read_string", addr, encoding=enc, length=k)
        off = addr - start
        inside = land(addr >= start, addr + k <= start + n)
        if ok:
            cover("returned")
            oblige("a string read by length lies inside the section", inside)
            if isinstance(r, str) and not r:
                oblige("the text is empty only for no bytes", wrap(k) == 0)
            else:
                check_text("the text is the decoding of the bytes", r, data.slice(off, off + k), enc)
        else:
            cover("refused")
            oblige("a string read by length inside the section is not refused", lnot(inside) if not isinstance(r, UnicodeDecodeError) else enc != "latin1", f"raised {r!r}")
        unchanged("reading a string changes nothing", s, start, data)

    return harness


def to_read(enc):
    return lambda i: dict(op="r", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], n=i.get("length", -1), enc=enc)


def to_write(enc):
    def replay(i):
        if "text" in i:
            t = "".join(map(chr, i["text"]))
        elif enc == "utf-16-le":
            t = "a" * (len(i["val"]) // 2)
        else:
            t = "a" * len(i["val"])
        return dict(op="w", start=i["s_start"], data=hx(i["s_data"]), addr=i["addr"], text=t, enc=enc)

    return replay


def tasks():
    ts = []
    for enc in CODECS:
        for explicit in (True, False) if enc == "latin1" else (True,):
            ts.append(Task(f"Section.write_string {enc}{'' if explicit else ' (default)'}", write(enc, explicit), covers=("written", "refused", "terminated"), replay=to_write(enc)))
        ts.append(Task(f"Section.read_string {enc}", read_terminated(enc), covers=("returned", "refused"), replay=to_read(enc)))
        ts.append(Task(f"Section.read_string {enc} by length", read_length(enc), covers=("returned", "refused"), replay=to_read(enc)))
    return ts
