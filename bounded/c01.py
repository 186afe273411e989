"""C01: raw section access."""

from array import array

from .lib import attempt, hx, rb, uh


def gen(rng, n):
    starts = [0, 1, 0x1000, 0xFFFF, 0x10000, 0xFFFFFFF0, 1 << 40]
    for start in (0, 0x1000):
        for size in (0, 1, 2, 7):
            d = hx(bytes(range(1, size + 1)))
            for off in range(-2, size + 3):
                for ln in range(0, size + 3):
                    yield dict(op="read", start=start, data=d, addr=start + off, n=ln)
                    yield dict(op="write", start=start, data=d, addr=start + off, val=hx(b"\xa0" * ln), kind="bytes")
                    if ln:
                        yield dict(op="ndread", start=start, data=d, addr=start + off, n=ln, dtype="uint8_le")
                        yield dict(op="ndwrite", start=start, data=d, addr=start + off, val=hx(b"\xb1" * ln), dtype="uint8")
    kinds = ["bytes", "bytearray", "list", "tuple", "str", "arrayB", "arrayH", "arrayI", "memoryview", "section", "memoryview16"]
    for _ in range(n):
        size = rng.choice([0, 1, 2, 3, 16, 40])
        start = rng.choice(starts)
        data = rb(rng, size)
        off = rng.randint(-3, size + 3)
        op = rng.choice(["read", "write", "write", "ndread", "ndwrite"])
        ln = rng.choice([0, 1, size - off, size - off + 1, rng.randint(0, size + 2)])
        ln = max(0, ln)
        c = dict(op=op, start=start, data=hx(data), addr=start + off)
        if op == "read":
            c["n"] = ln
        elif op == "write":
            c["kind"] = rng.choice(kinds)
            if c["kind"] == "str":
                c["val"] = hx(bytes(rng.randint(0, 127) for _ in range(ln)))
            else:
                if c["kind"] in ("arrayH", "memoryview16"):
                    ln = ln // 2 * 2
                if c["kind"] == "arrayI":
                    ln = ln // 4 * 4
                c["val"] = hx(rb(rng, ln))
        elif op == "ndread":
            dt, w = rng.choice([("uint8_le", 1), ("uint16_le", 2), ("uint16_be", 2), ("int32_be", 4), ("uint64_le", 8), ("int8_be", 1)])
            c.update(dtype=dt, n=ln // w * w)
        else:
            dt, w = rng.choice([("uint8", 1), ("<u2", 2), (">u2", 2), ("<i4", 4), (">u8", 8)])
            c.update(dtype=dt, val=hx(rb(rng, ln // w * w)))
            c["shape2"] = rng.random() < 0.6
            c["fortran"] = rng.random() < 0.5
        if op in ("write", "read") and rng.random() < 0.15:  # longer data, with ends that are all alike
            size = rng.choice([64, 200, 300, 1000])
            ln = rng.choice([size - 4, size // 2, 17])
            c.update(data=hx(rb(rng, size)), addr=start + rng.randint(0, size - ln))
            if op == "read":
                c["n"] = ln
            else:
                k = rng.randint(1, 5)
                edge = bytes([rng.choice([0, 255, 32, 10])]) * k
                c.update(kind=rng.choice(["bytes", "bytearray", "list", "memoryview", "section"]), val=hx(edge + rb(rng, ln - 2 * k) + edge))
        yield c


def mk(kind, b, Section):
    if kind == "bytes":
        return bytes(b)
    if kind == "bytearray":
        return bytearray(b)
    if kind == "list":
        return list(b)
    if kind == "tuple":
        return tuple(b)
    if kind == "str":
        return b.decode("ascii")
    if kind == "arrayB":
        return array("B", b)
    if kind == "arrayH":
        return array("H", b)
    if kind == "arrayI":
        return array("I", b)
    if kind == "memoryview":
        return memoryview(bytes(b))
    if kind == "memoryview16":
        return memoryview(bytes(b)).cast("H")
    if kind == "section":
        return Section(0x99, bytearray(b))
    raise ValueError(kind)


def check(c):
    import numpy as np
    from objutils.exceptions import InvalidAddressError
    from objutils.section import Section

    data = uh(c["data"])
    start, addr = c["start"], c["addr"]
    s = Section(start, bytearray(data))
    off = addr - start
    op = c["op"]
    ln = c["n"] if "n" in c else len(uh(c["val"]))
    inside = off >= 0 and off + ln <= len(data)
    if op == "read":
        r, e = attempt(lambda: s.read(addr, ln))
        want = data[off : off + ln]
    elif op == "ndread":
        r, e = attempt(lambda: s.read_ndarray(addr, ln, c["dtype"], shape=-1))
        want = data[off : off + ln]
    elif op == "write":
        val = uh(c["val"])
        obj = mk(c["kind"], val, Section)
        if c["kind"] == "memoryview16":
            # bytearray(memoryview) copies the raw bytes
            pass
        keep = obj.data[:] if c["kind"] == "section" else None
        r, e = attempt(lambda: s.write(addr, obj))
        if keep is not None and obj.data != keep:
            return "write() modified the Section passed as data"
    else:
        val = uh(c["val"])
        arr = np.frombuffer(val, dtype=np.dtype(c["dtype"]))
        if c.get("shape2") and len(arr) and len(arr) % 2 == 0:
            arr = arr.reshape((2, len(arr) // 2))
            if c.get("fortran"):
                arr = np.asfortranarray(arr)
        r, e = attempt(lambda: s.write_ndarray(addr, arr))
    if s.start_address != start:
        return f"start address changed to {s.start_address:#x}"
    after = bytes(s.data)
    if not inside:
        if not isinstance(e, InvalidAddressError):
            return f"access outside the section: expected InvalidAddressError, got {e!r} (result {r!r})"
        if after != data:
            return f"refused access changed the section: {data.hex()} -> {after.hex()}"
        return None
    if e is not None:
        return f"access inside the section raised {e!r}"
    if op in ("read", "ndread"):
        if after != data:
            return "read changed the section"
        if op == "read":
            got = bytes(r)
        else:
            t, bo = c["dtype"].split("_")
            w = int(t.lstrip("uint")) // 8
            vals = [int(x) for x in r]
            sg = not t.startswith("u")
            got = b"".join(v.to_bytes(w, "little" if bo == "le" else "big", signed=sg) for v in vals)
        if got != want:
            return f"read {got.hex()} instead of {want.hex()}"
        if op == "read" and isinstance(r, bytearray) and len(r):
            r[0] ^= 0xFF
            if bytes(s.data) != data:
                return "read() returned storage shared with the section"
        return None
    want = data[:off] + val + data[off + ln :]
    if after != want:
        return f"section holds {after.hex()} instead of {want.hex()}"
    if len(s) != len(data) or s.length != len(data):
        return "length changed"
    r2, e2 = attempt(lambda: s.read(addr, ln))
    if e2 is not None or bytes(r2) != val:
        return f"read after write returned {r2!r} / {e2!r}"
    return None
