"""Round-trip checker shared by C07-C10."""

from .formats import BITS, MAXROW, Bad, decode_ihex, decode_srec
from .lib import attempt, content, first_diff, jsecs, merged, pairs, rand_sections, usecs


def gen(codecs, rng, n):
    for codec in codecs:
        top = 1 << BITS[codec]
        fixed = [
            [(0, b"\x00")],
            [(0, bytes(range(16)))],
            [(0, bytes(range(17)))],
            [(0x100, bytes(range(100, 133)))],
            [(0x10, b"\xff" * 16), (0x30, b"\x01\x02")],
            [(0x10, b"\x0a" * 5), (0x16, b"\x20" * 20), (0x40, b"\x00" * 3)],
            [(top - 1, b"\x7f")],
            [(top - 16, bytes(16))],
            [(top - 40, bytes(range(40)))],
            [(0, b"\xaa"), (top - 1, b"\x55")],
            [(top // 2, bytes(range(64)))],
            [(0x1000, bytes(range(256)))],
            [(0x20, bytes(range(40))), (0x48 + 16, bytes(range(8)))],
        ]
        if top > 1 << 16:
            fixed += [
                [(0xFFF0, bytes(range(48)))],
                [(0xFFFF, b"\x01\x02")],
                [(0x10000, b"\x01" * 20)],
                [(0xFFF8, bytes(range(8))), (0x10000, bytes(range(8))), (0x1FFF0, bytes(range(32)))],
                [(0x10, b"\x01" * 16), (0x10020, b"\x02" * 16)],
                [(0x10, b"\x01" * 16), (0x20020, b"\x02" * 16), (0x30030, b"\x03" * 16)],
                [(0x7FFF0, bytes(range(32)))],
            ]
        if top > 1 << 20:
            fixed += [
                [(0xFFFF0, bytes(range(32)))],
                [(0x100000, b"\x09" * 33)],
                [(0x0FFFFFF, b"\x01\x02\x03")],
                [(0x1000000, b"\x04")],
                [(0x00F00010, b"\x01" * 16), (0x10F00020, b"\x02" * 16)],
                [(0x10, b"\x01" * 16), (0x12340020, b"\x02" * 16), (0x12350030, b"\x03" * 16), (0xFFFFFFE0, b"\x04" * 32)],
            ]
        for secs in fixed:
            for row in (16, 1, 7, 32, MAXROW[codec] if MAXROW[codec] < 1000 else 64):
                yield dict(codec=codec, secs=jsecs(secs), row=row)
        for row in sorted({2, 3, 4, 5, 8, 15, 17, 31, 64, 100, 120, 122, 250, 251, 255}):
            if row <= MAXROW[codec]:
                yield dict(codec=codec, secs=jsecs([(0x123, bytes((i * 7) & 0xFF for i in range(300)))]), row=row)
        for _ in range(n):
            secs = rand_sections(rng, BITS[codec], maxn=4)
            yield dict(codec=codec, secs=jsecs(secs), row=rng.choice([16, 16, 16, 1, 4, 8, 13, 32]), join=rng.random() < 0.7, reuse=rng.random() < 0.3)


def check(c):
    import objutils
    from objutils import Image, Section

    codec, secs, row = c["codec"], usecs(c["secs"]), c["row"]
    img = Image([Section(a, bytearray(d)) for a, d in secs], join=c.get("join", True))
    meta = c.get("header")
    if meta:
        from objutils.hexfile import MetaRecord

        from objutils.srec import S0

        img.meta = {S0: [MetaRecord(S0, 0, bytearray(meta.encode("latin1")))]}
    want = content(secs)
    out, e = attempt(lambda: objutils.dumps(codec, img, row_length=row))
    if e is not None:
        return f"dumps({codec!r}) raised {e!r}"
    text = bytes(out).decode("ascii")
    if codec in ("srec", "ihex"):
        try:
            if codec == "srec":
                got, hdr = decode_srec(text)
                if meta and hdr != [meta.encode("latin1")]:
                    return f"header record text {hdr!r} instead of {meta!r}"
            else:
                got = decode_ihex(text)
        except Bad as b:
            return f"emitted {codec} file violates the format: {b}"
        if got != want:
            return f"emitted file holds other bytes: {first_diff(want, got)}"
    res, e = attempt(lambda: objutils.loads(codec, bytes(out)))
    if e is not None:
        return f"loads({codec!r}) of the dumped file raised {e!r}"
    got = content(pairs(res))
    if got is None:
        return "loaded image has overlapping sections"
    if got != want:
        return f"loaded image differs: {first_diff(want, got)}"
    if merged(pairs(res)) != pairs(res):
        return "loaded image has unmerged neighbours"
    if meta:
        from objutils.srec import S0

        recs = res.meta.get(S0, [])
        if [bytes(m.chunk) for m in recs] != [meta.encode("latin1")]:
            return f"header text lost: {recs!r}"
    res2, e = attempt(lambda: objutils.loads(codec, text))
    if e is not None or content(pairs(res2)) != want:
        return f"loading the file as str differs: {e!r}"
    return None
