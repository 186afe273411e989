"""C14: checksum definitions."""

import zlib

from .lib import attempt, hx, rb, uh


def refl(v, n):
    return int(format(v, f"0{n}b")[::-1], 2)


def crc_bits(data, width, poly, init, refin, refout, xorout):
    """Bit-serial polynomial division."""
    reg = init
    for b in data:
        if refin:
            b = refl(b, 8)
        for i in range(7, -1, -1):
            bit = ((reg >> (width - 1)) & 1) ^ ((b >> i) & 1)
            reg = ((reg << 1) & ((1 << width) - 1)) ^ (poly if bit else 0)
    if refout:
        reg = refl(reg, width)
    return reg ^ xorout


def ref(fn, d, p):
    if fn == "lrc":
        w, comp = p
        s = sum(d) % (1 << w)
        return s if comp == 0 else (1 << w) - 1 - s if comp == 1 else -s % (1 << w)
    if fn == "xor":
        r = 0xFF if p[0] else 0
        for x in d:
            r ^= x
        return r
    if fn in ("rotl", "rotr"):
        r = 0
        for x in d:
            r ^= x
            r = ((r << 1) | (r >> 7)) & 0xFF if fn == "rotl" else ((r >> 1) | (r << 7)) & 0xFF
        return r % (1 << p[0])
    if fn == "nibble_sum":
        return sum((x >> 4) + (x & 15) for x in d) % 256
    if fn in ("CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14"):
        return sum(d) % {"1": 1 << 8, "2": 1 << 16, "4": 1 << 32}[fn[-1]]
    if fn in ("CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44"):
        k = int(fn[-2])
        return sum(int.from_bytes(d[i : i + k], "little") for i in range(0, len(d), k)) % {"2": 1 << 16, "4": 1 << 32}[fn[-1]]
    if fn == "CHK_CRC_16":
        return crc_bits(d, 16, 0x8005, 0, True, True, 0)
    if fn == "CHK_CRC_16_CCITT":
        return crc_bits(d, 16, 0x1021, 0xFFFF, False, False, 0)
    if fn == "CHK_CRC_32":
        return crc_bits(d, 32, 0x04C11DB7, 0xFFFFFFFF, True, True, 0xFFFFFFFF)
    raise ValueError(fn)


FNS = [("lrc", [w, c]) for w in (8, 16) for c in (0, 1, 2)] + [("xor", [True]), ("xor", [False]), ("rotl", [8]), ("rotr", [8]), ("rotl", [4]), ("nibble_sum", [])]
FNS += [(k, []) for k in ("CHK_ADD_11", "CHK_ADD_12", "CHK_ADD_14", "CHK_ADD_22", "CHK_ADD_24", "CHK_ADD_44", "CHK_CRC_16", "CHK_CRC_16_CCITT", "CHK_CRC_32")]


def gen(rng, n):
    frames = [b"", b"\0", b"\xff", b"123456789", bytes(range(256)), b"\xff" * 257, b"\x80" * 3, b"\x01\x00\x00\x00", b"\xff" * 1024, bytes(300)]
    frames += [bytes([i]) for i in range(256)]
    for f in frames:
        for fn, p in FNS:
            yield dict(fn=fn, p=p, data=hx(f))
    for v in list(range(256)) + [256, 0x1FF, 0xABCD]:
        yield dict(fn="rol", v=v)
    for nb in (1, 4, 8, 16, 32):
        for v in (0, 1, (1 << nb) - 1, 1 << (nb - 1), 0x35 % (1 << nb), rng.getrandbits(nb), rng.getrandbits(nb)):
            yield dict(fn="reflect", v=v, n=nb)
    yield dict(fn="tables")
    yield dict(fn="bad")
    for _ in range(n):
        fn, p = rng.choice(FNS)
        if fn == "lrc":
            p = [rng.choice([1, 4, 8, 16, 24, 32, 64]), rng.choice([0, 1, 2])]
        yield dict(fn=fn, p=p, data=hx(rb(rng, rng.choice([1, 2, 4, 8, 9, 12, 33, 200]))))


def check(c):
    import objutils.checksums as cs

    fn = c["fn"]
    if fn == "rol":
        v = c["v"]
        b = v & 0xFF
        wl, wr = ((b << 1) | (b >> 7)) & 0xFF, ((b >> 1) | (b << 7)) & 0xFF
        if cs.rolb(v) != wl or cs.rorb(v) != wr:
            return f"rolb({v}) = {cs.rolb(v)}, rorb({v}) = {cs.rorb(v)}; expected {wl}, {wr}"
        if cs.rorb(cs.rolb(v)) != b or cs.rolb(cs.rorb(v)) != b:
            return "rotations are not inverse"
        return None
    if fn == "reflect":
        v, n = c["v"], c["n"]
        got = cs.reflect(v, n)
        if got != refl(v, n) or cs.reflect(got, n) != v:
            return f"reflect({v:#x}, {n}) = {got:#x}, expected {refl(v, n):#x}"
        return None
    if fn == "tables":
        for obj, poly in ((cs.CRC16, 0x8005), (cs.CRC16_CCITT, 0x1021)):
            t = list(obj.table)
            if len(t) != 256:
                return "table size"
            for i, x in enumerate(t):
                w = crc_bits(bytes([i]), 16, poly, 0, False, False, 0)
                if x != w:
                    return f"table entry {i} of polynomial {poly:#x} is {x:#06x}, expected {w:#06x}"
        return None
    if fn == "bad":
        for a in ("CHK_USER_DEFINED", "nonsense"):
            if attempt(lambda: cs.check(b"\1", a))[1] is None:
                return f"algorithm {a} did not raise"
        return None
    d = uh(c["data"])
    p = c["p"]
    for frame in (d, list(d), bytearray(d)):
        if fn == "lrc":
            f = lambda: cs.lrc(frame, p[0], {0: cs.COMPLEMENT_NONE, 1: cs.COMPLEMENT_ONES, 2: cs.COMPLEMENT_TWOS}[p[1]])  # noqa: E731
        elif fn == "xor":
            f = lambda: cs.xor(frame, p[0])  # noqa: E731
        elif fn in ("rotl", "rotr"):
            f = lambda: cs.rotatedXOR(frame, p[0], cs.ROTATE_LEFT if fn == "rotl" else cs.ROTATE_RIGHT)  # noqa: E731
        elif fn == "nibble_sum":
            f = lambda: cs.nibble_sum(frame)  # noqa: E731
        else:
            k = int(fn[-2]) if fn.startswith("CHK_ADD") else 1
            if len(d) % k:
                return None
            if k > 1 and isinstance(frame, list):
                continue
            f = lambda: cs.check(frame, fn)  # noqa: E731
        r, e = attempt(f)
        if e is not None:
            return f"{fn}{p} raised {e!r}"
        w = ref(fn, d, p)
        if r != w:
            return f"{fn}{p} of {d.hex()[:80]} is {r:#x}, expected {w:#x}"
    return None
