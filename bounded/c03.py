"""C03: string access."""

from .lib import attempt, hx, rb, uh

ENC = ["latin1", "ascii", "utf-8", "utf-16-le", "cp1252"]
TEXTS = ["", "a", "ab", "hello", "\xe4\xf6", "\u20ac", "x\u20acy", "\U0001f600", "a" * 5, "nul\0in", "\xff", "\x7f"]


def gen(rng, n):
    for enc in ENC:
        for t in TEXTS:
            for size in (0, 1, 2, 5, 6, 7, 11, 12):
                for off in (-1, 0, 1, size - 1, size):
                    yield dict(op="w", start=0x20, data=hx(b"\xaa" * size), addr=0x20 + off, text=t, enc=enc)
    for size in (0, 1, 4):
        for d in (b"ab\0c"[:size], b"abcd"[:size], b"\0\0\0\0"[:size], b"a\xffb\0"[:size]):
            for off in range(-2, size + 2):
                for ln in (-1, 0, 1, 2, 3, 4, 5):
                    yield dict(op="r", start=0x20, data=hx(d), addr=0x20 + off, n=ln, enc="latin1")
    for _ in range(n):
        size = rng.choice([1, 2, 3, 8, 20])
        start = rng.choice([0, 0x1000, 0xFFFF])
        if rng.random() < 0.5:
            d = bytes(rng.choice([0, 65, 66, 200]) for _ in range(size))
            yield dict(op="r", start=start, data=hx(d), addr=start + rng.randint(-1, size + 1), n=rng.choice([-1, -1, 0, 1, rng.randint(0, size + 2)]), enc=rng.choice(["latin1", "cp1252"]))
        else:
            t = "".join(rng.choice("ab\xe9\u20ac ") for _ in range(rng.randint(0, size)))
            yield dict(op="w", start=start, data=hx(rb(rng, size)), addr=start + rng.randint(-1, size), text=t, enc=rng.choice(ENC))


def check(c):
    from objutils.section import Section

    data = uh(c["data"])
    start, addr = c["start"], c["addr"]
    s = Section(start, bytearray(data))
    off = addr - start
    enc = c["enc"]
    if c["op"] == "r":
        n = c["n"]
        kws = dict(encoding=enc)
        if n != -1:
            kws["length"] = n
        r, e = attempt(lambda: s.read_string(addr, **kws))
        if bytes(s.data) != data or s.start_address != start:
            return "read_string() changed the section"
        want = None
        if off >= 0:
            if n == -1:
                p = data.find(b"\0", off) if off <= len(data) else -1
                if p >= 0:
                    want = data[off:p]
            elif off + n <= len(data):
                want = data[off : off + n]
        if want is not None:
            try:
                want = want.decode(enc)
            except UnicodeDecodeError:
                want = None
        if want is None:
            return None if e is not None else f"read that does not fit returned {r!r}"
        if e is not None:
            return f"valid read raised {e!r}"
        return None if r == want else f"read {r!r} instead of {want!r}"
    t = c["text"]
    try:
        raw = t.encode(enc)
    except UnicodeEncodeError:
        raw = None
    r, e = attempt(lambda: s.write_string(addr, t, encoding=enc))
    after = bytes(s.data)
    if s.start_address != start:
        return "start address changed"
    if raw is None or off < 0 or off + len(raw) + 1 > len(data):
        if e is None:
            return f"string that does not fit (or is not encodable) was written: {data.hex()} -> {after.hex()}"
        if after != data:
            return f"refused write changed the section: {data.hex()} -> {after.hex()}"
        return None
    if e is not None:
        return f"valid write raised {e!r}"
    want = data[:off] + raw + b"\0" + data[off + len(raw) + 1 :]
    if after != want:
        return f"section holds {after.hex()} instead of {want.hex()}"
    r2, e2 = attempt(lambda: s.read_string(addr, encoding=enc, length=len(raw)))
    if e2 is not None or r2 != t:
        return f"reading {len(raw)} bytes back returned {r2!r} / {e2!r}"
    if b"\0" not in raw:
        r2, e2 = attempt(lambda: s.read_string(addr, encoding=enc))
        if e2 is not None or r2 != t:
            return f"reading the string back returned {r2!r} / {e2!r}"
    return None
