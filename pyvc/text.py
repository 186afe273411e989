"""Strings as ropes.

A str value is a Python str or an SStr: a sequence of pieces whose characters are functions of symbolic values.

  str                     literal
  Hex(v, width, upper)    exactly `width` hexadecimal digits of v (0 <= v < 16**width holds on the path)
  Dec(v)                  decimal representation of v
  HexSeq(seq, sep, upper) two hexadecimal digits per byte, separated by the literal sep
  Chars(seq)              one character per code point
  Coded(enc, seq)         the text that seq encodes in the codec enc (abstract codecs)
  Opaque(...)             text whose content is not modelled (messages only)
  Many(sep, gen, last)    sep-joined elements of a generator of strings (gen: Gen of str/SStr)
"""

import re

import z3

from . import core
from .core import Unsupported
from .values import (
    Gen,
    SBool,
    Seq,
    SInt,
    as_int,
    boolterm,
    bounds,
    concrete_value,
    ctx,
    idiv,
    imod,
    isint,
    ite,
    land,
    lnot,
    lor,
    mk,
    mkbool,
    piecewise,
    raise_prog,
    term,
    wrap,
)


def _truth(x):
    return x if isinstance(x, bool) else bool(x)


class SStr:
    __slots__ = ("ps",)

    def __init__(self, ps):
        self.ps = ps

    def __repr__(self):
        return f"SStr({self.ps})"


class TextSeq(Seq):
    """The codes of a text of which not every position is at hand."""

    __slots__ = ("text",)

    def __init__(self, t):
        self.text = t

    @property
    def segs(self):
        return codes(self.text).segs


class VEnc:
    """bytes that are the ASCII/latin-1 encoding of a rope."""

    __slots__ = ("s", "_seq")

    def __init__(self, s):
        self.s = s
        self._seq = None

    @property
    def seq(self):
        if self._seq is None:
            self._seq = codes(self.s)
        return self._seq

    def __repr__(self):
        return f"VEnc({self.s})"


DIGITS_U = "0123456789ABCDEF"
DIGITS_L = "0123456789abcdef"


def digit_code(d, upper):
    if isinstance(d, int):
        return ord((DIGITS_U if upper else DIGITS_L)[d])
    return ite(wrap(d) < 10, d + 48, d + (55 if upper else 87))


class Piece:
    __slots__ = ()
    known = True


class Hex(Piece):
    __slots__ = ("v", "width", "upper")

    def __init__(self, v, width, upper):
        self.v, self.width, self.upper = v, width, upper

    def __repr__(self):
        return f"Hex({self.v},{self.width})"

    def length(self):
        return self.width

    def code(self, i):
        i = concrete_value(i) if not isinstance(i, int) else i
        if i is None:
            raise Unsupported("symbolic position in a hexadecimal field")
        return digit_code(imod(idiv(self.v, 16 ** (self.width - 1 - i)), 16), self.upper)

    def cut(self, a, b):
        ca, cb = concrete_value(a), concrete_value(b)
        if ca is None or cb is None:
            raise Unsupported("symbolic slice of a hexadecimal field")
        v = imod(idiv(wrap(self.v), 16 ** (self.width - cb)), 16 ** (cb - ca))
        if isinstance(v, int):
            return f"{v:0{cb - ca}{'X' if self.upper else 'x'}}"
        return Hex(v, cb - ca, self.upper)

    def parts(self):
        return [self.v]

    def subst(self, S):
        v = S.v(self.v)
        return fmt_hex(v, self.width, self.upper)


class Dec(Piece):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Dec({self.v})"

    def length(self):
        f = z3.Function("declen", z3.IntSort(), z3.IntSort())
        t = f(term(self.v))
        c = ctx()
        c.fact(t >= 1)
        for k in range(1, 20):
            c.fact(z3.Implies(term(self.v) >= 0, (term(self.v) < 10**k) == (t <= k)))
        return SInt(t, 1, None)

    def code(self, i):
        raise Unsupported("character of a decimal number")

    def cut(self, a, b):
        raise Unsupported("slice of a decimal number")

    def parts(self):
        return [self.v]

    def subst(self, S):
        v = S.v(self.v)
        return str(v) if isinstance(v, int) else Dec(v)


class HexSeq(Piece):
    __slots__ = ("seq", "sep", "upper")

    def __init__(self, seq, sep, upper):
        self.seq, self.sep, self.upper = seq, sep, upper

    def __repr__(self):
        return f"HexSeq({self.seq.segs},{self.sep!r})"

    def length(self):
        n = self.seq.length()
        k = len(self.sep)
        if k == 0:
            return n * 2
        # at least one byte (guaranteed by the constructor function)
        return n * (2 + k) - k

    def code(self, i):
        k = 2 + len(self.sep)
        j = idiv(wrap(i), k)
        r = imod(wrap(i), k)
        if isinstance(i, SInt):
            # i = k*j + const normal form
            pass
        cr = concrete_value(r)
        if cr is None:
            for x in range(k - 1):
                if _truth(wrap(r) == x):
                    cr = x
                    break
            else:
                cr = k - 1
        if cr >= 2:
            return ord(self.sep[cr - 2])
        b = self.seq.get(j)
        d = idiv(wrap(b), 16) if cr == 0 else imod(wrap(b), 16)
        return digit_code(d, self.upper)

    def cut(self, a, b):
        k = 2 + len(self.sep)
        out = []
        n = self.length()
        ja, ra = split(a, k)
        jb, rb = split(b, k)
        # leading incomplete group
        if ra:
            if not _truth(land(wrap(b) >= (ja + 1) * k)):
                # all inside one group
                g = self.group(ja)
                return sub(g, ra, b - ja * k)
            if ra < 2 or True:
                g = concat([self.group(ja), self.sep])
                out.append(sub(g, ra, k))
            ja = ja + 1
        if self.sep and rb == 2 and len(self.sep) >= 1 and _truth(wrap(b) == n):
            # complete last group
            out.append(hexrun(self.seq.slice(ja, jb + 1), self.sep, self.upper))
            return concat(out)
        mid = self.seq.slice(ja, jb)
        out.append(hexrun(mid, self.sep, self.upper))
        if self.sep and _truth(wrap(jb) > ja):
            out.append(self.sep)
        if rb:
            g = concat([self.group(jb), self.sep])
            out.append(sub(g, 0, rb))
        return concat(out)

    def group(self, j):
        return fmt_hex(self.seq.get(j), 2, self.upper)

    def parts(self):
        return [self.seq]

    def subst(self, S):
        return hexrun(S.v(self.seq), self.sep, self.upper)


def split(a, k):
    """a = k*j + r with concrete r (0 <= r < k); forks when r is not known."""
    if isinstance(a, int):
        return divmod(a, k)
    from .values import split_const

    rest, c = split_const(a.t)
    r = imod(SInt(a.t, a.lo, a.hi, a.tz), k)
    cr = concrete_value(r)
    if cr is None:
        for x in range(k):
            if ctx().proves(term(a) % k == x):
                cr = x
                break
    if cr is None:
        for x in range(k - 1):
            if _truth(wrap(r) == x):
                cr = x
                break
        else:
            cr = k - 1
    j = idiv(a - cr, k)
    return j, cr


class Chars(Piece):
    __slots__ = ("seq",)

    def __init__(self, seq):
        self.seq = seq

    def __repr__(self):
        return f"Chars({self.seq.segs})"

    def length(self):
        return self.seq.length()

    def code(self, i):
        return self.seq.get(i)

    def cut(self, a, b):
        return from_codes(self.seq.slice(a, b))

    def parts(self):
        return [self.seq]

    def subst(self, S):
        return from_codes(S.v(self.seq))


class Digest(Piece):
    """A message digest in lower-case hexadecimal digits, known only as a function of the message."""

    __slots__ = ("algo", "width", "seq")

    def __init__(self, algo, width, seq):
        self.algo, self.width, self.seq = algo, width, seq

    def length(self):
        return self.width

    code = cut = lambda self, *a: _unsupported("character of a message digest")

    def parts(self):
        return [self.seq]

    def subst(self, S):
        return SStr([Digest(self.algo, self.width, S.v(self.seq))])


class Coding:
    """A code of numbers as blocks of a fixed number of characters (a contract of the code verified states it)."""

    def __init__(self, name, width, lo, hi, code):
        self.name, self.width, self.lo, self.hi, self.code = name, width, lo, hi, code


class Blocks(Piece):
    """The values of seq in a coding."""

    __slots__ = ("coding", "seq")

    def __init__(self, coding, seq):
        self.coding, self.seq = coding, seq

    def __repr__(self):
        return f"Blocks({self.coding.name},{self.seq.segs})"

    def length(self):
        return self.seq.length() * self.coding.width

    def code(self, i):
        j, r = split(i, self.coding.width)
        return self.coding.code(self.seq.get(j), r)

    def cut(self, a, b):
        k = self.coding.width
        ja, ra = split(a, k)
        jb, rb = split(b, k)
        if ra or rb:
            raise Unsupported("part of a coded number")
        return blocks(self.coding, self.seq.slice(ja, jb))

    def parts(self):
        return [self.seq]

    def subst(self, S):
        return blocks(self.coding, S.v(self.seq))


def blocks(coding, seq):
    if seq.concrete() == []:
        return ""
    return SStr([Blocks(coding, seq)])


class Coded(Piece):
    __slots__ = ("enc", "seq")

    def __init__(self, enc, seq):
        self.enc, self.seq = enc, seq

    def length(self):
        raise Unsupported("length of a text in an abstract encoding")

    def code(self, i):
        raise Unsupported("character of a text in an abstract encoding")

    def cut(self, a, b):
        raise Unsupported("slice of a text in an abstract encoding")

    def parts(self):
        return [self.seq]

    def subst(self, S):
        return Coded(self.enc, S.v(self.seq))


class Opaque(Piece):
    """f"{v:spec}" of anything; only good for messages."""

    __slots__ = ("v", "spec")

    def __init__(self, v, spec=""):
        self.v, self.spec = v, spec

    def length(self):
        raise Unsupported("length of formatted text")

    def code(self, i):
        raise Unsupported("character of formatted text")

    def cut(self, a, b):
        raise Unsupported("slice of formatted text")

    def parts(self):
        return []

    def subst(self, S):
        return Opaque(S.v(self.v), self.spec) if isinstance(self.v, SInt) else Opaque(None, None)


class Many(Piece):
    """Elements of gen (texts), joined by sep; first=False: every element is preceded by sep."""

    __slots__ = ("sep", "gen")

    def __init__(self, sep, gen):
        self.sep, self.gen = sep, gen

    def __repr__(self):
        return f"Many({self.sep!r},{self.gen.length})"

    def length(self):
        raise Unsupported("length of a text of symbolically many parts")

    code = cut = lambda self, *a: _unsupported("position in a text of symbolically many parts")

    def parts(self):
        return [Seq([self.gen])]

    def subst(self, S):
        g = S.v(Seq([self.gen]))
        return concat([join_seq(self.sep, g)])


def _unsupported(m):
    raise Unsupported(m)


# --------------------------------------------------------------------------------------------------------------------


def pieces(s):
    return s.ps if isinstance(s, SStr) else ([s] if s else [])


def make(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        elif isinstance(p, HexSeq) and out and isinstance(out[-1], HexSeq) and not p.sep and not out[-1].sep and p.upper == out[-1].upper:
            out[-1] = HexSeq(out[-1].seq + p.seq, "", p.upper)
            continue
        elif isinstance(p, Chars) and out and isinstance(out[-1], Chars):
            out[-1] = Chars(out[-1].seq + p.seq)
            continue
        elif isinstance(p, Blocks) and out and isinstance(out[-1], Blocks) and out[-1].coding is p.coding:
            out[-1] = Blocks(p.coding, out[-1].seq + p.seq)
            continue
        out.append(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def concat(xs):
    ps = []
    for x in xs:
        if isinstance(x, Piece):
            ps.append(x)
        elif isinstance(x, (str, SStr)):
            ps.extend(pieces(x))
        else:
            raise_prog(TypeError("can only concatenate str"))
    return make(ps)


def parts(s):
    out = []
    for p in pieces(s):
        if not isinstance(p, str):
            out.extend(p.parts())
    return out


def subst(s, S):
    return concat([p if isinstance(p, str) else p.subst(S) for p in pieces(s)])


def concrete(s):
    if isinstance(s, str):
        return s
    out = []
    for p in s.ps:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, Hex) and concrete_value(p.v) is not None:
            out.append(f"{concrete_value(p.v):0{p.width}{'X' if p.upper else 'x'}}")
        elif isinstance(p, Opaque):
            # messages: a placeholder is good enough for native callees that only pass it on
            return None
        else:
            return None
    return "".join(out)


def plen(p):
    return len(p) if isinstance(p, str) else p.length()


def length(s):
    n = 0
    for p in pieces(s):
        n = n + plen(p)
    return n


def pcode(p, i):
    if isinstance(p, str):
        ci = concrete_value(i)
        if ci is not None:
            return ord(p[ci])
        return piecewise({k: ord(ch) for k, ch in enumerate(p)}, wrap(i))
    return p.code(i)


def code_at(s, i):
    """Code point at position i (0 <= i < length on the path)."""
    ps = pieces(s)
    base = 0
    ci = concrete_value(i)
    for k, p in enumerate(ps):
        if k == len(ps) - 1:
            return pcode(p, i - base)
        n = plen(p)
        inside = wrap(i) < base + n
        if isinstance(inside, bool):
            if inside:
                return pcode(p, i - base)
        elif bool(inside):
            return pcode(p, i - base)
        base = base + n
    raise core.Infeasible()


def codes(s):
    """Seq of code points."""
    segs = []
    for p in pieces(s):
        if isinstance(p, str):
            segs.append([ord(ch) for ch in p])
        elif isinstance(p, Chars):
            segs.extend(p.seq.segs)
        elif isinstance(p, Hex):
            segs.append([p.code(k) for k in range(p.width)])
        else:
            n = p.length()
            if isinstance(n, int):
                segs.append([p.code(k) for k in range(n)])
            else:
                segs.append(Gen(n, lambda i, p=p: p.code(i)))
    return Seq(segs)


def from_code(c):
    c = as_int(c)
    if isinstance(c, int):
        return chr(c)
    return SStr([Chars(Seq([[c]]))])


def from_codes(seq):
    xs = seq.concrete()
    if xs is not None and all(isinstance(x, int) for x in xs):
        return "".join(map(chr, xs))
    if xs == []:
        return ""
    return SStr([Chars(seq)])


def code_of(s):
    n = length(s)
    if not _truth(wrap(n) == 1):
        raise_prog(TypeError("ord() expected a character"))
    return code_at(s, 0)


def chars(s):
    return codes(s).map(from_code)


def char_at(s, i):
    return from_code(code_at(s, i))


def pcut(p, a, b):
    """characters a..b-1 of a piece."""
    if isinstance(p, str):
        ca, cb = concrete_value(a), concrete_value(b)
        if ca is not None and cb is not None:
            return p[ca:cb]
        return from_codes(Seq([[ord(x) for x in p]]).slice(a, b))
    if isinstance(a, int) and a == 0 and same(b, plen(p)):
        return p
    return p.cut(a, b)


def same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = wrap(a) == b
    if isinstance(r, bool):
        return r
    return ctx().proves(boolterm(r))


def sub(s, a, b):
    """characters a..b-1 (0 <= a <= b <= length on the path)"""
    out = []
    base = 0
    ps = pieces(s)
    if isinstance(a, SInt):
        # a position among the leading pieces of known lengths: case by case
        fixed = 0
        for p in ps:
            n = plen(p)
            if not isinstance(n, int):
                break
            fixed += n
        if 0 < fixed <= 64 and _truth(wrap(a) < fixed):
            for v in range(0, fixed, 1 << min(a.tz or 0, 6)):
                if _truth(wrap(a) == v):
                    d = b - a
                    a, b = v, v + d
                    break
    for k, p in enumerate(ps):
        n = plen(p)
        lo = a - base
        hi = b - base
        # overlap with [0, n)
        if not _truth(wrap(hi) > 0):
            break
        if _truth(wrap(lo) < n):
            lo = lo if not _truth(wrap(lo) < 0) else 0
            hi2 = n if _truth(wrap(hi) >= n) else hi
            out.append(pcut(p, lo, hi2))
        base = base + n
    return concat(out)


def get_slice(s, lo, hi):
    from .models import slice_bounds

    if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
        return s[lo:hi]
    n = length(s)
    a, b = slice_bounds(lo, hi, n)
    return sub(s, a, b)


# -- formatting ------------------------------------------------------------------------------------------------------


def fmt_hex(v, width, upper):
    v = as_int(v)
    if isinstance(v, int):
        return f"{v:0{width}{'X' if upper else 'x'}}"
    return SStr([Hex(v, width, upper)])


def hexrun(seq, sep, upper):
    """HexSeq piece (the empty sequence is the empty text)."""
    xs = seq.concrete() if not any(isinstance(g, Gen) and isinstance(g.length, int) and g.length > 8 for g in seq.segs) else None
    if xs is not None:
        out = []
        for k, x in enumerate(xs):
            if k and sep:
                out.append(sep)
            out.append(fmt_hex(x, 2, upper))
        return concat(out)
    n = seq.length()
    if sep and not _truth(wrap(n) >= 1):
        return ""
    return SStr([HexSeq(seq, sep, upper)])


def hex_seq(seq, sep, upper):
    return hexrun(seq, sep, upper)


def to_str(v):
    from . import models

    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, SBool):
        return "True" if v else "False"
    if isinstance(v, SInt):
        c = concrete_value(v)
        return str(c) if c is not None else SStr([Dec(v)])
    if v is None or type(v) in (int, bool, float, bytes) or isinstance(v, type):
        return str(v)
    if isinstance(v, BaseException):
        return SStr([Opaque(v)])
    return SStr([Opaque(v)])


def to_repr(v):
    if v is None or type(v) in (int, bool, float, bytes, str):
        return repr(v)
    if isinstance(v, SInt):
        return to_str(v)
    return SStr([Opaque(v, "!r")])


SPEC = __import__("re").compile(r"(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$", 16)


def format_value(x, spec="", conv=-1):
    if conv == ord("s"):
        x = to_str(x)
    elif conv in (ord("r"), ord("a")):
        x = to_repr(x)
    sp = concrete(spec) if isinstance(spec, (str, SStr)) else spec
    if sp is None:
        return SStr([Opaque(x)])
    if type(x) in (int, bool, float, str, bytes) or x is None:
        try:
            return format(x, sp)
        except (ValueError, TypeError) as e:
            raise_prog(e)
    m = SPEC.match(sp)
    if m is None:
        if isinstance(x, (SInt, SBool, SStr)):
            raise_prog(ValueError("Invalid format specifier"))
        return SStr([Opaque(x, sp)])
    fill, align, sign, _z, alt, zero, width, comma, prec, typ = m.groups()
    width = int(width or 0)
    if isinstance(x, SBool):
        x = as_int(x)
    if isinstance(x, SInt):
        c = concrete_value(x)
        if c is not None:
            return format(c, sp)
        if typ in ("s",):
            raise_prog(ValueError("Unknown format code 's' for object of type 'int'"))
        if align or sign or comma or prec or alt:
            return SStr([Opaque(x, sp)])
        if typ in ("X", "x") and (zero or width <= 1):
            return hex_field(x, width, typ == "X", sp)
        if typ in (None, "d") and not width:
            return SStr([Dec(x)])
        if typ == "c" and not width:
            return from_code(x)
        return SStr([Opaque(x, sp)])
    if isinstance(x, SStr):
        if typ not in (None, "s"):
            raise_prog(ValueError("Unknown format code for object of type 'str'"))
        if prec is not None:
            return SStr([Opaque(x, sp)])
        if not width:
            return x
        return pad(x, width, fill or " ", align or "<")
    return SStr([Opaque(x, sp)])


def pad(x, width, fill, align):
    n = length(x)
    if _truth(wrap(n) >= width):
        return x
    k = width - n
    if isinstance(k, int):
        if align == "<":
            return concat([x, fill * k])
        if align == ">":
            return concat([fill * k, x])
        return concat([fill * (k // 2), x, fill * (k - k // 2)])
    p = SStr([Chars(Seq([Gen(k, lambda i: ord(fill))]))])
    if align == "<":
        return concat([x, p])
    if align == ">":
        return concat([p, x])
    raise Unsupported("centred text of symbolic width")


def hex_field(x, width, upper, sp):
    c = ctx()
    lo, hi = bounds(x)
    w = max(width, 1)
    if width >= 2 or (hi is not None and hi < 16 and lo is not None and lo >= 0):
        if (lo is not None and hi is not None and lo >= 0 and hi < 16**w) or c.proves(z3.And(term(x) >= 0, term(x) < 16**w)):
            return SStr([Hex(x, w, upper)])
    # the number of digits depends on the value
    if hi is None:
        return SStr([Opaque(x, sp)])
    if lo is not None and lo >= 0 or c.proves(term(x) >= 0):
        for k in range(w, 17):
            if _truth(wrap(x) < 16**k):
                return SStr([Hex(x, k, upper)])
    return SStr([Opaque(x, sp)])


def percent(fmt, args):
    f = concrete(fmt)
    if f is None:
        raise Unsupported("symbolic % format")
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    rx = __import__("re").compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")
    pos = 0
    k = 0
    for m in rx.finditer(f):
        out.append(f[pos : m.start()])
        pos = m.end()
        name, flags, width, prec, typ = m.groups()
        if typ == "%":
            out.append("%")
            continue
        if name is not None:
            raise Unsupported("% format with names")
        if k >= len(args):
            raise_prog(TypeError("not enough arguments for format string"))
        v = args[k]
        k += 1
        if typ == "c" and not width:
            if isinstance(v, (str, SStr)):
                if not _truth(wrap(length(v)) == 1):
                    raise_prog(TypeError("%c requires int or char"))
                out.append(v)
            elif isint(v):
                out.append(from_code(v))
            else:
                raise_prog(TypeError("%c requires int or char"))
        elif typ in "sra":
            v = to_str(v) if typ == "s" else to_repr(v)
            if prec is not None:
                raise Unsupported("% format with precision")
            out.append(format_value(v, ("<" if "-" in flags else ">") + width if width else "", -1))
        elif typ in "diuxX":
            if not isint(v):
                raise_prog(TypeError(f"%{typ} format: a real number is required"))
            typ = "d" if typ in "diu" else typ
            if any(x in flags for x in "-# +"):
                out.append(SStr([Opaque(v)]))
            else:
                out.append(format_value(as_int(v), ("0" if "0" in flags else "") + (width or "") + typ, -1))
        else:
            out.append(SStr([Opaque(v)]))
    out.append(f[pos:])
    if k < len(args):
        raise_prog(TypeError("not all arguments converted during string formatting"))
    return concat(out)


def repeat(a, n):
    if isinstance(a, str) and len(a) == 1:
        from .values import imax

        n = imax(n, 0)
        return from_codes(Seq([Gen(n, lambda i: ord(a))]))
    raise Unsupported("repetition of a text")


# -- comparison ------------------------------------------------------------------------------------------------------


def eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    pa, pb = list(pieces(a)), list(pieces(b))
    # strip identical ends
    while pa and pb and piece_same(pa[0], pb[0]):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and piece_same(pa[-1], pb[-1]):
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return True
    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Coded) and isinstance(pb[0], Coded):
        from .models import seq_eq

        if pa[0].enc != pb[0].enc:
            raise Unsupported("comparison of texts in different encodings")
        return seq_eq(pa[0].seq, pb[0].seq)
    if any(isinstance(p, Digest) for p in pa + pb):
        return digest_eq(pa, pb)
    if any(isinstance(p, (Opaque, Coded, Many)) for p in pa + pb):
        raise Unsupported("comparison of unmodelled texts")
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, Dec) and isinstance(y, Dec):
            return wrap(x.v) == y.v
        if isinstance(x, Hex) and isinstance(y, Hex) and x.width == y.width and x.upper == y.upper:
            return wrap(x.v) == y.v
    if any(isinstance(p, Dec) for p in pa + pb):
        raise Unsupported("comparison with a decimal number")
    from .models import seq_eq

    return seq_eq(codes(make(pa)), codes(make(pb)))


def digest_eq(pa, pb):
    """Equal messages have equal digests; nothing is known about others."""
    from .models import seq_eq
    from .values import fresh_bool

    if len(pa) == 1 and len(pb) == 1 and isinstance(pa[0], Digest) and isinstance(pb[0], Digest) and pa[0].algo == pb[0].algo:
        if _truth(seq_eq(pa[0].seq, pb[0].seq)):
            return True
    hook = ctx().user.get("digest_eq")
    if hook is not None:
        return hook(pa, pb)
    return fresh_bool("digest")


def piece_same(p, q):
    if isinstance(p, str) or isinstance(q, str):
        return isinstance(p, str) and isinstance(q, str) and p == q
    if p is q:
        return True
    if type(p) is not type(q):
        return False
    if isinstance(p, Hex):
        return p.width == q.width and p.upper == q.upper and z3.eq(term(p.v), term(q.v))
    if isinstance(p, Dec):
        return z3.eq(term(p.v), term(q.v))
    return False


def contains(s, x):
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(s, str) and isinstance(x, SStr):
        # one character in a literal
        n = length(x)
        if not same(n, 1):
            raise Unsupported("substring test")
        c = code_at(x, 0)
        return lor(*[wrap(c) == ord(ch) for ch in sorted(set(s))]) if s else False
    if isinstance(x, str) and len(x) == 1:
        from .models import contains as cont
        from .heap import VList

        o = ord(x)
        res = []
        for p in pieces(s):
            if isinstance(p, str):
                if x in p:
                    return True
            elif isinstance(p, (Hex, Dec)):
                if x in "0123456789abcdefABCDEF-":
                    raise Unsupported("digit in a symbolic number")
            elif isinstance(p, HexSeq):
                if x in "0123456789abcdefABCDEF" or x in p.sep:
                    raise Unsupported("digit in a symbolic number")
            elif isinstance(p, Chars):
                res.append(cont(VList(p.seq), o))
            else:
                raise Unsupported("membership in unmodelled text")
        return lor(*res) if res else False
    raise Unsupported("substring test")


def endswith(s, suffix):
    if isinstance(s, str) and isinstance(suffix, str):
        return s.endswith(suffix)
    if not isinstance(suffix, str):
        raise Unsupported("endswith of a symbolic suffix")
    if not suffix:
        return True
    last = pieces(s)[-1] if pieces(s) else ""
    if isinstance(last, str):
        if len(last) >= len(suffix):
            return last.endswith(suffix)
        if not suffix.endswith(last):
            return False
        return endswith(make(pieces(s)[:-1]), suffix[: -len(last)])
    if not possible(last, ord(suffix[-1])) and not (isinstance(last, (Opaque, Coded))):
        if isinstance(last, (HexSeq, Chars)) and not _truth(wrap(last.length()) > 0):
            return endswith(make(pieces(s)[:-1]), suffix)
        return False
    if isinstance(last, Many):
        n = last.gen.length
        if not _truth(wrap(n) > 0):
            return endswith(make(pieces(s)[:-1]), suffix)
        e = last.gen.at(n - 1)
        r = endswith(e, suffix)
        return r
    if isinstance(last, (Opaque, Coded)):
        raise Unsupported("endswith of unmodelled text")
    n = length(s)
    if not _truth(wrap(n) >= len(suffix)):
        return False
    return eq(sub(s, n - len(suffix), n), suffix)


def startswith(s, prefix):
    if isinstance(s, str) and isinstance(prefix, str):
        return s.startswith(prefix)
    if not isinstance(prefix, str):
        raise Unsupported("startswith of a symbolic prefix")
    if not prefix:
        return True
    first = pieces(s)[0] if pieces(s) else ""
    if isinstance(first, str) and len(first) >= len(prefix):
        return first.startswith(prefix)
    n = length(s)
    if not _truth(wrap(n) >= len(prefix)):
        return False
    return eq(sub(s, 0, len(prefix)), prefix)


HEXU = frozenset(map(ord, "0123456789ABCDEF"))
HEXL = frozenset(map(ord, "0123456789abcdef"))


def possible(p, code):
    """May the piece contain the character?"""
    if isinstance(p, str):
        return chr(code) in p
    if isinstance(p, Hex):
        return code in (HEXU if p.upper else HEXL)
    if isinstance(p, Dec):
        return chr(code) in "0123456789-"
    if isinstance(p, HexSeq):
        return code in (HEXU if p.upper else HEXL) or chr(code) in p.sep
    if isinstance(p, Many):
        return True
    if isinstance(p, Digest):
        return code in HEXL
    if isinstance(p, Blocks):
        return p.coding.lo <= code <= p.coding.hi
    if isinstance(p, Chars):
        for g in p.seq.segs:
            xs = g if isinstance(g, list) else None
            if xs is None:
                from .models import forall

                return not forall(Seq([g]), lambda x: wrap(x) != code)
            for x in xs:
                lo, hi = bounds(as_int(x))
                if isinstance(x, int):
                    if x == code:
                        return True
                elif not ctx().proves(term(x) != code):
                    return True
        return False
    return True


# -- numbers -----------------------------------------------------------------------------------------------------------


DECIMAL = re.compile(r"[ <>=]?[-+ ]?0?\d*d?")  # numbers in decimal, padded


def parse_int(s, base):
    if isinstance(s, str):
        try:
            return int(s, base)
        except ValueError as e:
            raise_prog(e)
    v = 0
    if base == 16:
        first = True
        neg = False
        ps = pieces(s)
        if any(isinstance(p, HexSeq) for p in ps):
            ps = [q for p in ps for q in (pieces(hexrun(Seq([p.seq.concrete()]), p.sep, p.upper)) if isinstance(p, HexSeq) and p.seq.concrete() is not None else [p])]
        for p in ps:
            if isinstance(p, str):
                t = p.strip() if len(ps) == 1 else (p.lstrip() if p is ps[0] else (p.rstrip() if p is ps[-1] else p))
                if any(ch not in "0123456789abcdefABCDEF" for ch in t):
                    raise Unsupported(f"number syntax {ps}")
                if t:
                    v = v * 16 ** len(t) + int(t, 16)
            elif isinstance(p, Hex):
                v = v * 16**p.width + p.v
            elif isinstance(p, Chars) and p.seq.concrete() is not None:
                for c in p.seq.concrete():
                    v = v * 16 + hexdigit(c)
            elif isinstance(p, HexSeq) and not p.sep and any(same(p.seq.length(), m) for m in (1, 2, 3, 4)):
                n = next(m for m in (1, 2, 3, 4) if same(p.seq.length(), m))
                for k in range(n):
                    v = v * 256 + wrap(p.seq.get(k))
            else:
                raise Unsupported(f"number syntax {ps}")
        return v
    if base == 10:
        ps = [p for p in pieces(s) if not (isinstance(p, str) and not p.strip())]
        if len(ps) == 1 and isinstance(ps[0], Dec):
            return ps[0].v
        if len(ps) == 1 and isinstance(ps[0], Opaque) and isinstance(ps[0].v, SInt) and DECIMAL.fullmatch(ps[0].spec or "x"):
            return ps[0].v
    raise Unsupported("conversion of a text to a number")


def hexdigit(c):
    """Value of the hexadecimal digit with code c, ValueError when it is none."""
    if isinstance(c, int):
        if chr(c) in "0123456789abcdefABCDEF":
            return int(chr(c), 16)
        raise_prog(ValueError("invalid literal for int() with base 16"))
    if _truth(land(wrap(c) >= 48, wrap(c) <= 57)):
        return c - 48
    if _truth(land(wrap(c) >= 65, wrap(c) <= 70)):
        return c - 55
    if _truth(land(wrap(c) >= 97, wrap(c) <= 102)):
        return c - 87
    raise_prog(ValueError("invalid literal for int() with base 16"))


def fromhex(s):
    """bytes.fromhex: Seq of byte values."""
    if isinstance(s, str):
        try:
            return Seq([list(bytes.fromhex(s))])
        except ValueError as e:
            raise_prog(e)
    if not isinstance(s, SStr):
        raise_prog(TypeError("fromhex() argument must be str"))
    segs = []
    pend = None  # value of an unfinished first digit
    for p in s.ps:
        if isinstance(p, str):
            for ch in p:
                if ch in " \t\n\r\f\v":
                    if pend is not None:
                        raise_prog(ValueError("non-hexadecimal number found in fromhex() arg"))
                    continue
                if ch not in "0123456789abcdefABCDEF":
                    raise_prog(ValueError("non-hexadecimal number found in fromhex() arg"))
                d = int(ch, 16)
                if pend is None:
                    pend = d
                else:
                    segs.append([pend * 16 + d])
                    pend = None
        elif isinstance(p, Hex):
            if pend is None and p.width % 2 == 0:
                n = p.width // 2
                segs.append([imod(idiv(wrap(p.v), 256 ** (n - 1 - k)), 256) for k in range(n)])
                continue
            ds = [imod(idiv(wrap(p.v), 16 ** (p.width - 1 - k)), 16) for k in range(p.width)]
            for d in ds:
                if pend is None:
                    pend = d
                else:
                    segs.append([pend * 16 + d])
                    pend = None
        elif isinstance(p, HexSeq):
            if p.sep.strip(" \t\n\r\f\v"):
                raise_prog(ValueError("non-hexadecimal number found in fromhex() arg"))
            if pend is not None:
                xs = p.seq.concrete()
                if xs is None or p.sep:
                    raise Unsupported("misaligned hexadecimal text")
                for b in xs:
                    segs.append([pend * 16 + idiv(wrap(b), 16)])
                    pend = imod(wrap(b), 16)
                continue
            segs.extend(p.seq.segs)
        elif isinstance(p, Chars) and p.seq.concrete() is not None:
            for c in p.seq.concrete():
                if pend is None:
                    if _truth(lor(*[wrap(c) == x for x in b" \t\n\r\f\v"])):
                        continue
                    pend = hexdigit(c)
                else:
                    segs.append([pend * 16 + hexdigit(c)])
                    pend = None
        else:
            raise Unsupported(f"fromhex of unmodelled text {pieces(s)}")
    if pend is not None:
        raise_prog(ValueError("non-hexadecimal number found in fromhex() arg"))
    return Seq([[as_int(x) for x in g] if isinstance(g, list) else g for g in segs])


# -- encodings -------------------------------------------------------------------------------------------------------------


LATIN = ("latin1", "latin-1", "iso-8859-1", "iso8859-1", "l1", "latin_1")
ASCII = ("ascii", "us-ascii")
UTF8 = ("utf-8", "utf8", "utf_8")


def coding_error(e, errors):
    """What an error handler makes of e."""
    if isinstance(e, LookupError) or errors is None or concrete(errors) == "strict":
        raise_prog(e)
    raise Unsupported("error handler of a codec")


def encode(s, encoding="utf-8", errors="strict"):
    """bytes value."""
    from .heap import VBytes
    from .models import forall, trust

    enc = encoding if isinstance(encoding, str) else concrete(encoding)
    if enc is None:
        raise Unsupported("symbolic encoding")
    if isinstance(s, str):
        try:
            return s.encode(enc)
        except (UnicodeError, LookupError) as e:
            coding_error(e, errors)
    low = enc.lower()
    lim = 256 if low in LATIN else 128
    if low in LATIN + ASCII + UTF8:
        for p in s.ps:
            if isinstance(p, str):
                if any(ord(ch) >= lim for ch in p):
                    if low in UTF8:
                        raise Unsupported("non-ASCII text")
                    coding_error(UnicodeEncodeError(low, p, 0, 1, "ordinal not in range"), errors)
            elif isinstance(p, Chars):
                if not forall(p.seq, lambda x: land(wrap(x) >= 0, wrap(x) < lim), "enc"):
                    if low in UTF8:
                        raise Unsupported("non-ASCII text")
                    coding_error(UnicodeEncodeError(low, "?", 0, 1, "ordinal not in range"), errors)
            elif isinstance(p, Coded):
                return abstract_encode(s, low, errors)
        ps = s.ps
        if len(ps) == 1 and isinstance(ps[0], Chars):
            from .models import bytes_seq
            from .heap import VList

            return VBytes(bytes_seq(VList(ps[0].seq)))
        return VEnc(s)
    return abstract_encode(s, low, errors)


def abstract_encode(s, enc, errors):
    from .heap import VBytes
    from .models import trust

    ps = pieces(s)
    if len(ps) != 1 or not isinstance(ps[0], Coded):
        raise Unsupported(f"encoding {enc}")
    p = ps[0]
    if p.enc != enc:
        raise Unsupported(f"encoding {enc} of a text in {p.enc}")
    trust("codec: encoding a text either raises UnicodeEncodeError or yields bytes that decode to the same text")
    if ctx().choose(2) == 1:
        coding_error(UnicodeEncodeError(enc, "?", 0, 1, "character cannot be encoded"), errors)
    if len(ctx().frames) == 1:
        ctx().user.setdefault("encoded", []).append((enc, p.seq, s))
    return VBytes(p.seq)


def decode(v, encoding="utf-8", errors="strict"):
    from . import models

    if isinstance(v, VEnc):
        low = encoding.lower()
        if low in LATIN + ASCII + UTF8:
            return v.s
        raise Unsupported(f"decoding {encoding}")
    if isinstance(v, (bytes, bytearray)):
        try:
            return bytes(v).decode(encoding)
        except (UnicodeError, LookupError) as e:
            coding_error(e, errors)
    seq = models.to_seq(v)
    xs = seq.concrete()
    if xs is not None and all(isinstance(x, int) for x in xs):
        try:
            return bytes(xs).decode(encoding)
        except (UnicodeError, LookupError) as e:
            coding_error(e, errors)
    low = encoding.lower()
    if low in LATIN:
        return from_codes(seq)
    if low in ASCII:
        if not models.forall(seq, lambda x: wrap(x) < 128, "dec"):
            coding_error(UnicodeDecodeError(low, b"?", 0, 1, "ordinal not in range(128)"), errors)
        return from_codes(seq)
    for enc, sq, s in ctx().user.get("encoded", ()):
        if enc == low:
            r = models.seq_eq(seq, sq)
            if _truth(r):
                models.trust("codec: encoding a text either raises UnicodeEncodeError or yields bytes that decode to the same text")
                return s
    models.trust("codec: decoding is a function of the bytes that raises UnicodeDecodeError or yields a text")
    c = ctx()
    good = None
    for enc, sq, g in c.user.get("decoded", ()):
        if enc == low and _truth(models.seq_eq(seq, sq)):
            good = g
            break
    if good is None:
        good = c.choose(2) == 0
        if len(c.frames) == 1:
            c.user.setdefault("decoded", []).append((low, seq, good))
    if not good:
        coding_error(UnicodeDecodeError(low, b"?", 0, 1, "invalid data"), errors)
    return SStr([Coded(low, seq)])


def as_text(v):
    """Rope of a bytes value (latin-1 view)."""
    from . import models

    if isinstance(v, VEnc):
        return v.s
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).decode("latin1")
    s = models.to_seq(v)
    xs = s.concrete()
    if xs is not None and all(isinstance(x, int) for x in xs):
        return bytes(xs).decode("latin1")
    if s.length() == 0:
        return ""
    return SStr([Chars(s)])


# -- joining, splitting ------------------------------------------------------------------------------------------------------


def join(sep, it):
    from . import models

    s = models.to_seq(it)
    return join_seq(sep, s)


def hex_pair(g):
    """g: Gen of texts, each two hexadecimal digits of a byte? -> (Gen of bytes, upper)"""
    from .models import pure_gen  # noqa: F401

    i = probe_index(g)
    if i is None:
        return None
    x = g.at(i)
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Hex) and x.ps[0].width == 2:
        upper = x.ps[0].upper

        def fn(j):
            y = g.at(j)
            if isinstance(y, str):
                return int(y, 16)
            p = y.ps[0]
            if not isinstance(p, Hex) or p.width != 2:
                raise Unsupported("varying text in a sequence")
            return p.v

        return Gen(g.length, fn), upper
    return None


def char_elem(g):
    """g: Gen of one-character texts -> Gen of code points."""
    i = probe_index(g)
    if i is None:
        return None
    x = g.at(i)
    if not isinstance(x, (str, SStr)):
        raise_prog(TypeError("sequence item: expected str instance"))
    if isinstance(x, str) and len(x) == 1 or isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Chars) and same(length(x), 1):
        return Gen(g.length, lambda j: code_at(g.at(j), 0))
    return None


def probe_index(g):
    """A generic index of a Gen, or None when it may be empty only."""
    from .values import fresh_int

    n = g.length
    i = fresh_int("pi", 0)
    if isinstance(n, int):
        if n == 0:
            return None
        return SInt(term(i), 0, n - 1)
    return i


def join_seq(sep, s):
    out = []
    segs = s.segs
    first = True
    csep = concrete(sep)
    if csep is None:
        raise Unsupported("join with a symbolic separator")
    for g in segs:
        if isinstance(g, list):
            for x in g:
                if not isinstance(x, (str, SStr)):
                    raise_prog(TypeError("sequence item: expected str instance"))
                if not first:
                    out.append(sep)
                out.append(x)
                first = False
            continue
        if not isinstance(g, Gen):
            if (not first or len(segs) > 1) and csep:
                if not _truth(wrap(g.length) >= 1):
                    continue
                if not first:
                    out.append(sep)
            out.append(SStr([Many(csep, g)]))
            first = False
            continue
        # elements under the assumption 0 <= i < n, explored without effect on the path
        kind = elem_kind(g, csep)
        if kind[0] == "hex":
            sq, upper = kind[1]
            if upper is None:  # digits only
                before = [p for x in out for p in pieces(x) if isinstance(p, (Hex, HexSeq))]
                upper = before[-1].upper if before else True
            n = sq.length()
            if csep:
                if _truth(wrap(n) >= 1):
                    if not first:
                        out.append(sep)
                    out.append(SStr([HexSeq(sq, csep, upper)]))
                    first = False
            else:
                out.append(hexrun(sq, csep, upper))
                first = False
        elif kind[0] == "char" and not csep:
            out.append(from_codes(Seq([kind[1]])))
        elif kind[0] == "block" and not csep:
            out.append(blocks(kind[2], Seq([kind[1]])))
        else:
            if not first and csep:
                if not _truth(wrap(g.length) >= 1):
                    continue
                out.append(sep)
            elif first and len(segs) > 1 and csep:
                if not _truth(wrap(g.length) >= 1):
                    continue
            out.append(SStr([Many(csep, g)]))
            first = False
    return concat(out)


def elem_kind(g, sep):
    r = ctx().sub(lambda: _elem_kind(g))
    if r and len(r) > 1 and all(x[0] in ("run", "rows") and x[1] == r[0][1] for x in r) and any(x != r[0] for x in r):
        r = [("rows", r[0][1])]
    if r and all(x == r[0] for x in r):
        if r[0] in (("hex", True), ("hex", False), ("hex", None)):

            def fn(j):
                y = g.at(j)
                if isinstance(y, str):
                    return int(y, 16)
                return y.ps[0].v

            return "hex", (Seq([Gen(g.length, fn)]), r[0][1])
        if r[0] == ("char",):
            return "char", Gen(g.length, lambda j: code_at(g.at(j), 0))
        if r[0][0] == "wide" and not sep:
            _, upper, width = r[0]
            k = width // 2

            def byte(j):
                j, x = split(j, k)
                y = g.at(j)
                if isinstance(y, str):
                    return int(y[2 * x : 2 * x + 2], 16)
                return imod(idiv(wrap(y.ps[0].v), 256 ** (k - 1 - x)), 256)

            m = 0
            while m < 4 and ctx().proves(boolterm(wrap(g.length) > m + 1)):
                m += 1
            head = [[byte(j) for j in range(m * k)]] if m else []  # the first numbers one by one: fields of a record
            return "hex", (Seq(head + [Gen((g.length - m) * k, lambda j: byte(j + m * k))]), upper)
        if r[0][0] == "run" and not sep:
            _, upper, m = r[0]

            def at(j):
                y = g.at(idiv(wrap(j), m))
                if isinstance(y, SStr) and len(y.ps) == m and all(isinstance(p, Hex) and p.width == 2 for p in y.ps):
                    return Seq([[p.v for p in y.ps]]).get(imod(wrap(j), m))
                if not isinstance(y, SStr) or len(y.ps) != 1 or not isinstance(y.ps[0], HexSeq):
                    raise Unsupported("varying text in a sequence")
                return y.ps[0].seq.get(imod(wrap(j), m))

            return "hex", (Seq([Gen(g.length * m, at)]), upper)
        if r[0][0] == "rows" and not sep:
            m = row_length(g)
            if m is not None:
                n = wrap(g.length)

                def cell(j):
                    y = row_bytes(g.at(idiv(wrap(j), m)))
                    if y is None:
                        raise Unsupported("varying text in a sequence")
                    return y.get(imod(wrap(j), m))

                if not _truth(n >= 1):
                    return "hex", (Seq(), r[0][1])
                return "hex", (Seq([Gen((n - 1) * m + row_bytes(g.at(n - 1)).length(), cell)]), r[0][1])
        if r[0][0] == "block":

            def value(j):
                y = g.at(j)
                if isinstance(y, str):
                    raise Unsupported("varying text in a sequence")
                return y.ps[0].seq.get(0)

            return "block", Gen(g.length, value), r[0][1]
    return ("other",)


def row_bytes(y):
    """The bytes of an unseparated hexadecimal text."""
    if y == "":
        return Seq()
    if not isinstance(y, SStr):
        return None
    segs = []
    for p in y.ps:
        if isinstance(p, Hex) and p.width == 2:
            segs.append([p.v])
        elif isinstance(p, HexSeq) and not p.sep:
            segs.extend(p.seq.segs)
        else:
            return None
    return Seq(segs)


def row_length(g):
    """m if all rows but the last have m bytes, and the last one at most that."""
    from .values import fresh_int

    c = ctx()
    i = fresh_int("rl", 0)

    def size(j):
        y = row_bytes(g.at(j))
        return None if y is None else term(y.length())

    for m in (16, 32, 8, 24, 64, 4):

        def inner(m=m):
            c.assume(z3.And(term(i) >= 0, term(i) + 1 < term(g.length)))
            z = size(i)
            return z is not None and c.proves(z == m)

        def last(m=m):
            c.assume(term(g.length) >= 1)
            z = size(wrap(g.length) - 1)
            return z is not None and c.proves(z3.And(z >= 0, z <= m))

        if all(c.sub(inner)) and all(c.sub(last)):
            return m
    return None


def _elem_kind(g):
    from .values import fresh_int

    i = fresh_int("ek", 0)
    ctx().assume(z3.And(term(i) >= 0, term(i) < term(g.length)))
    x = g.at(i)
    if not isinstance(x, (str, SStr)):
        raise_prog(TypeError("sequence item: expected str instance"))
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Hex) and x.ps[0].width == 2:
        return ("hex", x.ps[0].upper)
    if isinstance(x, str) and len(x) == 2 and all(ch in "0123456789" for ch in x):
        return ("hex", None)
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Hex) and x.ps[0].width % 2 == 0:
        return ("wide", x.ps[0].upper, x.ps[0].width)
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], HexSeq) and not x.ps[0].sep and concrete_value(x.ps[0].seq.length()):
        return ("run", x.ps[0].upper, concrete_value(x.ps[0].seq.length()))
    if isinstance(x, SStr) and len(x.ps) > 1 and all(isinstance(p, Hex) and p.width == 2 and p.upper == x.ps[0].upper for p in x.ps):
        return ("run", x.ps[0].upper, len(x.ps))
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], HexSeq) and not x.ps[0].sep:
        return ("rows", x.ps[0].upper)
    if isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Blocks) and same(x.ps[0].seq.length(), 1):
        return ("block", x.ps[0].coding)
    if isinstance(x, str) and len(x) == 1 or isinstance(x, SStr) and len(x.ps) == 1 and isinstance(x.ps[0], Chars) and same(length(x), 1):
        return ("char",)
    return ("other",)


NL = "\n"


def newline_chars(universal, isbytes):
    if not universal:
        return "\n"
    return "\n\r" if isbytes else "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def lines(s, keepends=True, universal=False, isbytes=True):
    """Seq of lines (texts)."""
    if isinstance(s, str):
        if universal:
            xs = s.encode("latin1").splitlines(keepends) if isbytes else None
            if isbytes:
                return Seq([[x.decode("latin1") for x in xs]])
            return Seq([s.splitlines(keepends)])
        xs = s.split("\n")
        last = xs.pop()
        out = [x + "\n" if keepends else x for x in xs]
        if last:
            out.append(last)
        return Seq([out])
    nls = newline_chars(universal, isbytes)
    out = []
    cur = []
    segs = []

    def flush():
        if out:
            segs.append(list(out))
            out.clear()

    ps = list(pieces(s))
    for k in range(len(ps)):
        p = ps[k]
        if isinstance(p, str):
            if universal:
                xs = p.encode("latin1").splitlines(True) if isbytes else p.splitlines(True)
                xs = [x.decode("latin1") if isinstance(x, bytes) else x for x in xs]
            else:
                xs = p.splitlines(True) if all(ch not in p for ch in "\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029") else [x + "\n" for x in p.split("\n")[:-1]] + ([p.split("\n")[-1]] if p.split("\n")[-1] else [])
            for x in xs:
                body = x.rstrip(nls) if x and x[-1] in nls else x
                if x and x[-1] in nls:
                    cur.append(x if keepends else body)
                    out.append(concat(cur))
                    cur = []
                else:
                    cur.append(x)
            continue
        if isinstance(p, Many):
            # rows lo..hi-1 are lines of their own; the first and the last may share a line with their neighbours
            if p.sep != NL:
                raise Unsupported("lines of a text of symbolically many parts")
            g = p.gen
            n = g.length
            if not _truth(wrap(n) >= 1):
                continue
            lo, hi, last = 0, n, None
            nxt = ps[k + 1] if k + 1 < len(ps) else ""
            if cur:
                flush()
                segs.extend(lines(concat([*cur, g.at(0), NL]), keepends, universal, isbytes).segs)
                cur = []
                lo = 1
            own = isinstance(nxt, str) and nxt.startswith(NL)
            if not own:
                if not _truth(wrap(n) > lo):
                    raise Unsupported("lines of a text of symbolically many parts")
                hi = n - 1
                last = g.at(n - 1)
            flush()
            segs.append(line_rows(g, lo, hi, keepends, universal, isbytes))
            if own:
                ps[k + 1] = nxt[1:]
            else:
                cur = [last]
                if any(possible_in(last, ch) for ch in nls):
                    raise Unsupported("lines of a text of symbolically many parts")
            continue
        if any(possible(p, ord(ch)) for ch in nls):
            if isinstance(p, Chars) and p.seq.concrete() is not None:
                for c in p.seq.concrete():
                    cur.append(from_code(c))
                    if _truth(lor(*[wrap(c) == ord(ch) for ch in nls])):
                        if not keepends:
                            cur.pop()
                        out.append(concat(cur))
                        cur = []
                continue
            raise Unsupported("line breaks in a symbolic text")
        cur.append(p)
    if cur:
        out.append(concat(cur))
    flush()
    return Seq(segs)


def possible_in(s, ch):
    return any(ch in p if isinstance(p, str) else possible(p, ord(ch)) for p in pieces(s))


def line_rows(g, lo, hi, keepends, universal, isbytes):
    """The lines of the rows lo..hi-1 of a Gen of texts, each of which ends its line."""
    from .folds import Flat

    def row(i):
        return lines(concat([g.at(i + lo if lo else i), NL]), keepends, universal, isbytes)

    n = hi - lo if lo else hi

    def one():
        from .values import fresh_int

        i = fresh_int("lr", 0)
        ctx().assume(z3.And(term(i) >= 0, term(i) < term(n)))
        xs = row(i).concrete()
        return xs is not None and len(xs) == 1

    if all(ctx().sub(one)):
        return Gen(n, lambda i: row(i).concrete()[0])
    return Flat(n, row)


SPACE = " \t\n\r\x0b\x0c"


def strip(s, chars=None, left=True, right=True):
    if isinstance(s, str):
        return s.strip(chars) if left and right else (s.lstrip(chars) if left else s.rstrip(chars))
    cs = SPACE if chars is None else concrete(chars if isinstance(chars, (str, SStr)) else as_text(chars))
    if cs is None:
        raise Unsupported("strip of symbolic characters")
    ps = list(s.ps)
    for end in (0, -1):
        if end == 0 and not left or end == -1 and not right:
            continue
        while ps:
            p = ps[end]
            if isinstance(p, str):
                q = p.lstrip(cs) if end == 0 else p.rstrip(cs)
                if q:
                    ps[end] = q
                    break
                ps.pop(end)
                continue
            if isinstance(p, (Opaque, Many, Coded)):
                raise Unsupported("strip of unmodelled text")
            if any(possible(p, ord(ch)) for ch in cs):
                if isinstance(p, Chars) and p.seq.concrete() is not None:
                    xs = p.seq.concrete()
                    c = xs[end]
                    if _truth(lor(*[wrap(c) == ord(ch) for ch in cs])):
                        rest = xs[1:] if end == 0 else xs[:-1]
                        if rest:
                            ps[end] = Chars(Seq([rest]))
                        else:
                            ps.pop(end)
                        continue
                    break
                raise Unsupported("strip of a symbolic text")
            n = plen(p)
            if not isinstance(n, int) and not _truth(wrap(n) > 0):
                ps.pop(end)
                continue
            break
    return make(ps)


def split_text(s, sep):
    """str.split(sep) with a literal separator."""
    out = []
    cur = []
    for p in pieces(s):
        if isinstance(p, str):
            xs = p.split(sep)
            for k, x in enumerate(xs):
                if k:
                    out.append(concat(cur))
                    cur = []
                cur.append(x)
        else:
            if any(possible(p, ord(ch)) for ch in sep):
                raise Unsupported("split of a symbolic text")
            cur.append(p)
    out.append(concat(cur))
    return out


def words(s):
    """str.split() at whitespace."""
    out, cur = [], []
    for p in pieces(s):
        if isinstance(p, str):
            for k, x in enumerate(re.split(r"(\s+)", p)):
                if k % 2:
                    out.append(concat(cur))
                    cur = []
                elif x:
                    cur.append(x)
        elif isinstance(p, HexSeq) and p.sep:
            xs = p.seq.concrete()
            if xs is None or p.sep.strip():
                raise Unsupported("words of a symbolic text")
            for k, x in enumerate(xs):
                if k:
                    out.append(concat(cur))
                    cur = []
                cur.append(fmt_hex(x, 2, p.upper))
        elif isinstance(p, (Hex, Dec, HexSeq, Digest, Opaque)):
            cur.append(p if isinstance(p, str) else SStr([p]))
        else:
            raise Unsupported("words of a symbolic text")
    out.append(concat(cur))
    return [x for x in out if not (isinstance(x, str) and not x)]


def method(o, name, args, kw):
    from . import models
    from .heap import VList

    if name == "join":
        return join(o, args[0])
    if name == "format":
        return str_format(o, args, kw)
    if name == "encode":
        a = list(args) + ([kw["encoding"]] if "encoding" in kw else [])
        return encode(o, *a)
    syms = [o] + list(args) + list(kw.values())
    if all(not isinstance(x, SStr) for x in syms) and isinstance(o, str):
        try:
            return models.native(getattr(o, name), args, kw)
        except Unsupported:
            pass
    if name == "strip":
        return strip(o, *args)
    if name == "lstrip":
        return strip(o, *args, right=False)
    if name == "rstrip":
        return strip(o, *args, left=False)
    if name == "startswith":
        return startswith(o, args[0])
    if name == "endswith":
        return endswith(o, args[0])
    if name == "splitlines":
        return VList(lines(o, keepends=bool(args and args[0]) or bool(kw.get("keepends")), universal=True, isbytes=False))
    if name in ("upper", "lower"):
        return recase(o, name == "upper")
    if name == "split" and args and isinstance(args[0], str):
        return VList([*split_text(o, args[0])])
    if name == "split" and not args and not kw:
        return VList(words(o))
    if name in ("ljust", "rjust"):
        w = models.lower(args[0])
        return pad(o, w, args[1] if len(args) > 1 else " ", "<" if name == "ljust" else ">")
    if name == "replace":
        raise Unsupported("str.replace on a symbolic text")
    raise Unsupported(f"str.{name} on a symbolic text")


def recase(s, upper):
    out = []
    for p in pieces(s):
        if isinstance(p, str):
            out.append(p.upper() if upper else p.lower())
        elif isinstance(p, Hex):
            out.append(Hex(p.v, p.width, upper))
        elif isinstance(p, HexSeq):
            out.append(HexSeq(p.seq, p.sep.upper() if upper else p.sep.lower(), upper))
        elif isinstance(p, Dec):
            out.append(p)
        else:
            raise Unsupported("case conversion of a symbolic text")
    return concat(out)


def str_format(o, args, kw):
    import string

    from .interp import get_attr
    from . import models

    f = concrete(o)
    if f is None:
        raise Unsupported("symbolic format string")
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(f):
        out.append(lit)
        if field is None:
            continue
        first, rest = __import__("_string").formatter_field_name_split(field)
        if first == "":
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                raise_prog(IndexError("Replacement index out of range"))
            v = args[first]
        else:
            if first not in kw:
                raise_prog(KeyError(first))
            v = kw[first]
        for isattr, nm in rest:
            v = get_attr(v, nm) if isattr else models.get_item(v, nm)
        if spec and "{" in spec:
            spec = str_format(spec, args[auto:], kw)
        out.append(format_value(v, spec or "", ord(conv) if conv else -1))
    return concat(out)
