"""C15: LEB128 numbers decode and encode exactly.

Meaning of an encoding (DWARF v4, 7.6) b_0 .. b_k, b_j >= 128 for j < k, b_k < 128:
  U(b) = sum over j <= k of (b_j mod 128) * 2^(7j);   S(b) = U(b) - 2^(7(k+1)) if bit 6 of b_k is set, else U(b).
Decoders (DWARF constructs and plain reader), for every content and position: let k be the distance to the first byte below 128
  exists -> the value is U (S) of these bytes, position just past them;   otherwise -> raises
Encoders, for every integer (non-negative for ULEB, else it raises): the bytes b written are one encoding (continuation bits),
  U(b) (S(b)) is the number, and b is minimal; nothing else is written.
The encoder's sum is solved with the lemma  sum over j < n of ((v div 2^(7j)) mod 128) * 2^(7j) == v - (v div 2^(7n)) * 2^(7n),
proved by induction here.
"""

from pyvc.folds import gen_sum
from pyvc.models import add_index, find_first
from pyvc.values import pow2

from .c16 import reader
from .common import Gen, Task, VBytes, VFile, assume, cover, ctx, fresh_int, idiv, imod, input_bytes, input_int, ite, land, lnot, lor, method, oblige, same, side, to_seq, truth, why, wrap


def p7(n):
    return pow2(wrap(n) * 7) if not isinstance(n, int) else 1 << (7 * n)


def usum(data, pos, k):
    """U of the k bytes at pos (continuation bytes), without a last byte."""
    return gen_sum(Gen(k, lambda j: imod(data.get(pos + j), 128) * p7(j)))


def value_of(data, pos, k, signed):
    last = data.get(pos + k)
    u = usum(data, pos, k) + imod(last, 128) * p7(k)
    if signed:
        return u - ite(imod(last, 128) >= 64, p7(k + 1), 0)
    return u


def decoded(data, n, pos, ok, r, end, signed):
    z = find_first(data, lambda b: b < 128, pos)
    none = isinstance(z, int) and z == -1
    if ok:
        cover("returned")
        oblige("a decoder that returns has seen a last byte", not none)
        k = z - pos
        oblige("the position moves just past the last byte", wrap(end) == z + 1)
        oblige("the value is that of the encoding", wrap(r) == value_of(data, pos, k, signed))
    else:
        cover("refused")
        oblige("a complete number does not raise", none, why(r))


def plain(name, signed):
    def harness(c):
        rd, f, data, n, pos = reader("<")
        ok, r = method(rd, name)
        decoded(data, n, pos, ok, r, f.raw()[1], signed)
        same("the stream keeps its content", f.raw()[0], data)

    return harness


def construct(name, signed):
    def harness(c):
        import objutils.dwarf.encoding as enc

        data = input_bytes("data")
        pos = input_int("pos", 0)
        assume(pos <= data.length())
        f = VFile(VBytes(data), pos)
        ok, r = method(getattr(enc, name), "_parse", f, None, None)
        decoded(data, data.length(), pos, ok, r, f.raw()[1], signed)
        same("the stream keeps its content", f.raw()[0], data)

    return harness


def lemma(v):
    """n -> the sum lemma's right side; proved here for all n by induction."""

    def elem(j):
        return imod(idiv(v, p7(j)), 128) * p7(j)

    def closed(n):
        return v - idiv(v, p7(n)) * p7(n)

    def induction():
        n = fresh_int("n", 0)
        q = idiv(v, p7(n))
        oblige("sum lemma: start", wrap(closed(0)) == 0)
        oblige("sum lemma: split", q == idiv(q, 128) * 128 + imod(q, 128))
        oblige("sum lemma: next quotient", idiv(q, 128) == idiv(v, p7(n + 1)))
        oblige("sum lemma: next power", p7(n + 1) == p7(n) * 128)
        P = fresh_int("P", 1)
        a, b, d, w = (fresh_int(x) for x in "abdw")
        oblige("sum lemma: step", (lor(lnot(a == b * 128 + d), (w - a * P) + d * P == w - b * (P * 128))))

    side(induction)
    return elem, closed


def encoder(name, signed):
    def harness(c):
        import objutils.dwarf.encoding as enc

        v = input_int("v")
        data = input_bytes("before")
        f = VFile(VBytes(data), data.length())
        ok, r = method(getattr(enc, name), "_build", v, f, None, None)
        content, pos, _ = f.raw()
        content = to_seq(content)
        if not ok:
            cover("refused")
            oblige("only a negative number is refused, and only by the unsigned encoder", False if signed else v < 0, why(r))
            same("a refused encoding writes nothing", content, data)
            return
        cover("returned")
        if not signed:
            oblige("a negative number is refused", v >= 0)
        n0 = data.length()
        same("what the stream held before stays", content.slice(0, n0), data)
        m = content.length() - n0
        oblige("at least one byte is written", m >= 1)
        oblige("the position is behind the written bytes", wrap(pos) == n0 + m)
        k = m - 1
        last = content.get(n0 + k)

        def continuation():
            j = fresh_int("j", 0)
            assume(j < k)
            add_index(j)
            b = content.get(n0 + j)
            oblige("bytes before the last carry the continuation bit", land(b >= 128, b <= 255))

        side(continuation)
        oblige("the last byte carries no continuation bit", land(last >= 0, last < 128))
        if truth(k > 0):
            prev = content.get(n0 + k - 1)
            if signed:
                oblige("minimal: no redundant zero byte", lnot(land(last == 0, imod(prev, 128) < 64)))
                oblige("minimal: no redundant sign byte", lnot(land(last == 127, imod(prev, 128) >= 64)))
            else:
                oblige("minimal: no redundant zero byte", last != 0)
        elem, closed = lemma(v)
        solved = wrap(gen_sum(Gen(k, elem))) == closed(k)
        if not isinstance(solved, bool):
            ctx().fact(solved.t)
        wrap(idiv(v, p7(k + 1)))
        oblige("the written bytes encode the number", wrap(value_of(content, n0, k, signed)) == v)

    return harness


def raw_case(i):
    raw = bytes(i["data"][i["pos"]:])
    k = next((j for j, b in enumerate(raw) if b < 128), None)
    return dict(op="trunc", raw=raw.hex()) if k is None else dict(op="raw", raw=raw[: k + 1].hex())


def value_case(kind):
    return lambda i: dict(op="neg" if kind == "u" and i["v"] < 0 else kind, v=i["v"])


def tasks():
    both = ("returned", "refused")
    return [
        Task("PlainBinaryReader.uleb", plain("uleb", False), covers=both, replay=raw_case),
        Task("PlainBinaryReader.sleb", plain("sleb", True), covers=both, replay=raw_case),
        Task("ULEB._parse", construct("ULEB", False), covers=both, replay=raw_case),
        Task("SLEB._parse", construct("SLEB", True), covers=both, replay=raw_case),
        Task("ULEB._build", encoder("ULEB", False), covers=both, replay=value_case("u")),
        Task("SLEB._build", encoder("SLEB", True), covers=("returned",), replay=value_case("s")),
    ]
