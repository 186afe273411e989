"""C16: plain binary reader."""

import io

from .lib import attempt, hx, rb, uh

W = dict(u8=1, u16=2, u32=4, u64=8, s8=1, s16=2, s32=4, s64=8)


def gen(rng, n):
    for bo in ("<", ">", "@", "="):
        for m, w in W.items():
            for raw in (b"\x80" + bytes(w - 1), b"\xff" * w, bytes(range(1, w + 1)), bytes(w - 1) + b"\x80", b"\x7f" + b"\xff" * (w - 1), bytes(w)):
                for pre in (0, 1, 3):
                    for post in (0, 2):
                        yield dict(bo=bo, data=hx(b"\x11" * pre + raw + b"\x22" * post), pos=pre, ops=[m])
            for size in range(w):
                yield dict(bo=bo, data="aa" * size, pos=0, ops=[m])
    for s in ("", "a", "abc", "\xe4\xff", "x" * 300):
        for tail in (b"", b"\0", b"zz"):
            yield dict(bo="<", data=hx(s.encode("latin1") + b"\0" + tail), pos=0, ops=["asciiz", "u8"])
        yield dict(bo="<", data=hx(s.encode("latin1")), pos=0, ops=["asciiz"])
    for _ in range(n):
        data = bytes(rng.choice([0, 0xFF, 0x80, rng.getrandbits(8)]) for _ in range(rng.randint(0, 24)))
        ops = [rng.choice(list(W) + ["asciiz", "next_byte", "reset", "size"]) for _ in range(rng.randint(1, 6))]
        yield dict(bo=rng.choice("<>"), data=hx(data), pos=rng.randint(0, len(data)), ops=ops, explicit=rng.random() < 0.5)


def check(c):
    import sys

    from objutils.readers import PlainBinaryReader

    data = uh(c["data"])
    order = {"<": "little", ">": "big", "@": sys.byteorder, "=": sys.byteorder}[c["bo"]]
    bo = c["bo"]
    if c.get("explicit"):
        bo = PlainBinaryReader.LITTLE_ENDIAN if bo == "<" else PlainBinaryReader.BIG_ENDIAN
    f = io.BytesIO(data)
    f.read(1)
    rd = PlainBinaryReader(f, bo)
    if rd.pos != 0 or rd.size != len(data):
        return f"new reader: pos {rd.pos}, size {rd.size}; expected 0, {len(data)}"
    rd.pos = c["pos"]
    if rd.pos != c["pos"] or f.tell() != c["pos"]:
        return "setting pos has no effect"
    at = c["pos"]
    for op in c["ops"]:
        if op == "reset":
            rd.reset()
            at = 0
            if rd.pos != 0:
                return "reset() does not rewind"
            continue
        if op == "size":
            if rd.size != len(data):
                return "size"
            continue
        r, e = attempt(lambda: getattr(rd, op)())
        if op == "asciiz":
            z = data.find(b"\0", at)
            if z < 0:
                return None if e is not None else f"asciiz() without terminator returned {r!r}"
            want, nxt = data[at:z].decode("latin1"), z + 1
        else:
            w = W.get(op, 1)
            if at + w > len(data):
                return None if e is not None else f"{op}() past the end returned {r!r}"
            want, nxt = int.from_bytes(data[at : at + w], order, signed=op.startswith("s")), at + w
        if e is not None:
            return f"{op}() at {at} raised {e!r}"
        if r != want:
            return f"{op}() at {at} of {data.hex()} ({c['bo']}) is {r!r}, expected {want!r}"
        if rd.pos != nxt:
            return f"{op}() moved to {rd.pos}, expected {nxt}"
        at = nxt
    return None
