"""C02: typed numeric access."""

import math
import struct

from . import c01
from .lib import attempt, hx, rb, uh

INTS = {f"{u}int{w}": (u == "", w) for u in ("", "u") for w in (8, 16, 32, 64)}
FLT = {"float32": ("f", 4), "float64": ("d", 8)}


def width(t):
    return INTS[t][1] // 8 if t in INTS else FLT[t][1]


def bounds(t):
    s, w = INTS[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


def enc(t, bo, v):
    """Bytes of value v, or None when v is not encodable."""
    if t in INTS:
        lo, hi = bounds(t)
        if not lo <= v <= hi:
            return None
        return (v % (1 << INTS[t][1])).to_bytes(width(t), "little" if bo == "le" else "big")
    try:
        return struct.pack(("<" if bo == "le" else ">") + FLT[t][0], v)
    except OverflowError:
        return None


def dec(t, bo, b):
    if t in INTS:
        s, w = INTS[t]
        v = int.from_bytes(b, "little" if bo == "le" else "big")
        if s and v >= 1 << (w - 1):
            v -= 1 << w
        return v
    return struct.unpack(("<" if bo == "le" else ">") + FLT[t][0], b)[0]


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (math.isnan(a) and math.isnan(b))
    return a == b and type(a) is type(b)


def values(rng, t):
    if t in INTS:
        lo, hi = bounds(t)
        return [lo, hi, 0, 1, lo + 1, hi - 1, lo - 1, hi + 1, hi // 3, rng.randint(lo, hi), rng.randint(lo, hi)]
    big = 3.4028234663852886e38 if t == "float32" else 1.7976931348623157e308
    return [0.0, -0.0, 1.5, -2.25, 0.1, big, -big, 1e39, 5e-324, 1.4e-45, float("inf"), float("nan"), rng.uniform(-1e6, 1e6)]


def jv(v):
    return {"f": struct.pack(">d", v).hex()} if isinstance(v, float) else v


def uv(v):
    return struct.unpack(">d", bytes.fromhex(v["f"]))[0] if isinstance(v, dict) else v


def gen(rng, n):
    types = list(INTS) + list(FLT)
    for t in types:
        for bo in ("le", "be"):
            w = width(t)
            for size in (w, w + 3):
                d = hx(rb(rng, size))
                for off in (-1, 0, 1, 3, size - w, size - w + 1, size):
                    for v in values(rng, t):
                        yield dict(op="w", t=t, bo=bo, data=d, start=0x100, addr=0x100 + off, v=jv(v))
                    for m in (None, 0, 1, 0x80, 0xFF, (1 << (8 * w)) - 1, 1 << (8 * w - 1), 0x0F0F, -2):
                        yield dict(op="r", t=t, bo=bo, data=d, start=0x100, addr=0x100 + off, mask=m)
            for size in (0, w, 2 * w, 3 * w + 1):
                d = hx(rb(rng, size))
                for off in (-1, 0, 1, size):
                    for k in (0, 1, 2, 3):
                        yield dict(op="ra", t=t, bo=bo, data=d, start=7, addr=7 + off, n=k)
                        vs = [v for v in values(rng, t)][:k] if rng.random() < 0.8 else [rng.choice(values(rng, t)) for _ in range(k)]
                        yield dict(op="wa", t=t, bo=bo, data=d, start=7, addr=7 + off, vs=[jv(v) for v in vs])
    for _ in range(n):
        t = rng.choice(types)
        w = width(t)
        size = rng.choice([w, w + 1, 2 * w, 40])
        op = rng.choice(["w", "r", "ra", "wa"])
        start = rng.choice([0, 0x8000, 0xFFFFFFF0])
        c = dict(op=op, t=t, bo=rng.choice(["le", "be"]), data=hx(rb(rng, size)), start=start, addr=start + rng.randint(-1, size + 1))
        c["style"] = rng.choice(["", "upper", "pad"])
        if op == "w":
            c["v"] = jv(rng.choice(values(rng, t)))
        elif op == "r":
            c["mask"] = rng.choice([None, rng.getrandbits(8 * w), rng.getrandbits(8 * w + 5)])
        elif op == "ra":
            c["n"] = rng.randint(0, 5)
        else:
            c["vs"] = [jv(rng.choice(values(rng, t))) for _ in range(rng.randint(0, 5))]
            c["cont"] = rng.choice(["list", "tuple", "array"])
        yield c
    for c in c01.gen(rng, n):
        if c["op"].startswith("nd"):
            yield c


def check(c):
    if c["op"].startswith("nd"):  # numpy arrays of numbers
        return c01.check(c)
    from objutils.section import Section

    t, bo = c["t"], c["bo"]
    data = uh(c["data"])
    start, addr = c["start"], c["addr"]
    s = Section(start, bytearray(data))
    dt = f"{t}_{bo}"
    if c.get("style") == "upper":
        dt = dt.upper()
    elif c.get("style") == "pad":
        dt = f" {dt} "
    off, w = addr - start, width(t)
    op = c["op"]
    cnt = 1
    if op == "ra":
        cnt = c["n"]
    elif op == "wa":
        cnt = len(c["vs"])
    inside = off >= 0 and off + cnt * w <= len(data)
    val = None
    if op == "r":
        kws = {} if c["mask"] is None else {"bit_mask": c["mask"]}
        r, e = attempt(lambda: s.read_numeric(addr, dt, **kws))
    elif op == "ra":
        r, e = attempt(lambda: s.read_numeric_array(addr, cnt, dt))
    elif op == "w":
        val = enc(t, bo, uv(c["v"]))
        r, e = attempt(lambda: s.write_numeric(addr, uv(c["v"]), dt))
    else:
        vs = [uv(v) for v in c["vs"]]
        parts = [enc(t, bo, v) for v in vs]
        val = None if any(p is None for p in parts) else b"".join(parts)
        arg = tuple(vs) if c.get("cont") == "tuple" else list(vs)
        r, e = attempt(lambda: s.write_numeric_array(addr, arg, dt))
    after = bytes(s.data)
    if s.start_address != start:
        return "start address changed"
    if not inside or (op in ("w", "wa") and val is None):
        if e is None:
            return f"{'out-of-bounds access' if not inside else 'value out of range'} did not raise (section {data.hex()} -> {after.hex()}, result {r!r})"
        if after != data:
            return f"refused access changed the section: {data.hex()} -> {after.hex()}"
        return None
    if e is not None:
        return f"valid access raised {e!r}"
    if op in ("r", "ra"):
        if after != data:
            return "read changed the section"
        if op == "r":
            b = data[off : off + w]
            if c["mask"] is not None:
                order = "little" if bo == "le" else "big"
                b = (int.from_bytes(b, order) & c["mask"]).to_bytes(w, order)
            want = dec(t, bo, b)
            if not same(r, want):
                return f"read {r!r} instead of {want!r}"
        else:
            want = [dec(t, bo, data[off + i * w : off + (i + 1) * w]) for i in range(cnt)]
            if len(r) != cnt or not all(same(x, y) for x, y in zip(r, want)):
                return f"read {r!r} instead of {want!r}"
        return None
    want = data[:off] + val + data[off + len(val) :]
    if after != want:
        return f"section holds {after.hex()} instead of {want.hex()}"
    if op == "w":
        r2, e2 = attempt(lambda: s.read_numeric(addr, dt))
        if e2 is not None or not same(r2, dec(t, bo, val)):
            return f"read after write returned {r2!r} / {e2!r}"
    else:
        r2, e2 = attempt(lambda: s.read_numeric_array(addr, cnt, dt))
        if e2 is not None or [*map(repr, r2)] != [repr(dec(t, bo, val[i * w : (i + 1) * w])) for i in range(cnt)]:
            return f"read after write returned {r2!r} / {e2!r}"
    return None
