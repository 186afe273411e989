"""C15: LEB128."""

import io

from .lib import attempt, uh


def uenc(v):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        out.append(b | (0x80 if v else 0))
        if not v:
            return bytes(out)


def senc(v):
    out = bytearray()
    while True:
        b = v & 0x7F
        v >>= 7
        done = (v == 0 and not b & 0x40) or (v == -1 and b & 0x40)
        out.append(b if done else b | 0x80)
        if done:
            return bytes(out)


def udec(bs):
    return sum((b & 0x7F) << (7 * i) for i, b in enumerate(bs))


def sdec(bs):
    v = udec(bs)
    return v - (1 << (7 * len(bs))) if bs[-1] & 0x40 else v


def gen(rng, n):
    vals = set()
    for k in list(range(0, 72)) + [126, 127, 128, 200]:
        for d in (-2, -1, 0, 1, 2):
            vals.add((1 << k) + d)
            vals.add(-(1 << k) + d)
    for v in sorted(vals):
        yield dict(op="s", v=v)
        if v >= 0:
            yield dict(op="u", v=v)
    yield dict(op="neg", v=-1)
    for v in (0, 1, -1, 63, 64, -64, -65, 127, 128, 300, -300, 2**40, -(2**40)):
        for pad in (1, 2, 5):
            yield dict(op="spad", v=v, pad=pad)
            if v >= 0:
                yield dict(op="upad", v=v, pad=pad)
    for raw in ("80", "8080", "ff", ""):
        yield dict(op="trunc", raw=raw)
    for _ in range(n):
        v = rng.getrandbits(rng.randint(1, 90)) * rng.choice([1, -1])
        yield dict(op="s", v=v)
        yield dict(op="u", v=abs(v))
        yield dict(op="raw", raw=(bytes(0x80 | rng.getrandbits(7) for _ in range(rng.randint(0, 9))) + bytes([rng.getrandbits(7)])).hex())


def check(c):
    from objutils.dwarf.encoding import SLEB, ULEB
    from objutils.readers import PlainBinaryReader

    def decode(kind, raw):
        s = io.BytesIO(raw + b"\x81\x02")
        r1, e1 = attempt(lambda: (ULEB if kind == "u" else SLEB).parse_stream(s))
        p1 = s.tell()
        rd = PlainBinaryReader(io.BytesIO(raw + b"\x81\x02"))
        r2, e2 = attempt(lambda: rd.uleb() if kind == "u" else rd.sleb())
        return (r1, e1, p1), (r2, e2, rd.pos)

    op = c["op"]
    if op == "trunc":
        raw = uh(c["raw"])
        for k in (ULEB, SLEB):
            if attempt(lambda: k.parse(raw))[1] is None:
                return f"truncated number {c['raw']} decoded"
        for m in ("uleb", "sleb"):
            if attempt(lambda: getattr(PlainBinaryReader(io.BytesIO(raw)), m)())[1] is None:
                return f"truncated number {c['raw']} decoded"
        return None
    if op == "neg":
        r, e = attempt(lambda: ULEB.build(c["v"]))
        return None if e is not None else f"negative number encoded as {r!r}"
    if op in ("s", "u"):
        v = c["v"]
        r, e = attempt(lambda: (ULEB if op == "u" else SLEB).build(v))
        if e is not None:
            return f"encoding {v} raised {e!r}"
        want = (uenc if op == "u" else senc)(v)
        if r != want:
            return f"{v} encoded as {r.hex()}, minimal encoding is {want.hex()}"
        raws = [(op, want, v)]
    elif op in ("spad", "upad"):
        v = c["v"]
        raw = bytearray((uenc if op == "upad" else senc)(v))
        neg = op == "spad" and v < 0
        raw[-1] |= 0x80
        raw += bytes([0xFF if neg else 0x80] * (c["pad"] - 1)) + bytes([0x7F if neg else 0])
        raws = [(op[0], bytes(raw), v)]
    else:
        raw = uh(c["raw"])
        raws = [("u", raw, udec(raw)), ("s", raw, sdec(raw))]
    for k, raw, v in raws:
        for who, (r, e, p) in zip(("DWARF construct", "PlainBinaryReader"), decode(k, raw)):
            if e is not None:
                return f"{who}: decoding {raw.hex()} raised {e!r}"
            if r != v or p != len(raw):
                return f"{who}: {k}leb {raw.hex()} decoded as {r} consuming {p} bytes; expected {v} / {len(raw)}"
    return None
