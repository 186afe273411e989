"""C07: round trip of srec."""

from . import codecs

CODECS = "srec".split(",")


def gen(rng, n):
    yield from codecs.gen(CODECS, rng, n)
    yield from extra(rng, n)


def extra(rng, n):
    for text in ("A", "HDR", "hello world.srec", "x" * 40, "\x00\x01\xff"):
        for a in (0, 0x10000, 0x1000000):
            yield dict(codec="srec", secs=[[a, "0102030405"]], row=16, header=text)
            yield dict(op="file", header=text, secs=[[a, "0102030405"]])
    for typ, a in ((1, 0), (2, 0x10000), (3, 0x1000000)):
        for s5 in (False, True):
            for sa in (None, 0, 0x1234):
                yield dict(op="options", s5=s5, start=sa, secs=[[a, "00" * 40]], typ=typ)


def check(c):
    import objutils
    from objutils import Image, Section, srec

    from .formats import Bad, decode_srec
    from .formats import srec as rec
    from .lib import attempt, content, pairs, usecs

    if c.get("op") == "file":
        secs = usecs(c["secs"])
        raw = c["header"].encode("latin1")
        top = max(a + len(d) for a, d in secs) - 1
        typ = 1 if top < 1 << 16 else 2 if top < 1 << 24 else 3
        text = rec(0, raw, 0) + "\n" + "\n".join(rec(a, d, typ) for a, d in secs) + "\n"
        img, e = attempt(lambda: objutils.loads("srec", text))
        if e is not None or content(pairs(img)) != content(secs):
            return f"loading a file with a header record failed: {e!r}"
        out, e = attempt(lambda: objutils.dumps("srec", img))
        if e is not None:
            return f"dumping an image with a header record raised {e!r}"
        try:
            got, hdr = decode_srec(bytes(out).decode("ascii"))
        except Bad as b:
            return f"emitted file violates the format: {b}"
        if hdr != [raw] or got != content(secs):
            return f"header text {hdr!r} instead of {raw!r}"
        return None
    if c.get("op") == "options":
        secs = usecs(c["secs"])
        w = srec.Writer()
        w.s5record = c["s5"]
        w.start_address = c["start"]
        out, e = attempt(lambda: w.dumps(Image([Section(a, bytearray(d)) for a, d in secs])))
        if e is not None:
            return f"dumps raised {e!r}"
        text = bytes(out).decode("ascii")
        try:
            got, _ = decode_srec(text)
        except Bad as b:
            return f"emitted file violates the format: {b}"
        if got != content(secs):
            return "emitted file holds other bytes"
        kinds = [ln[:2] for ln in text.split("\n") if ln]
        if c["s5"] and kinds.count("S5") != 1:
            return "no S5 record"
        if c["start"] is not None and kinds[-1] != {1: "S9", 2: "S8", 3: "S7"}[c["typ"]]:
            return f"last record is {kinds[-1]}"
        if {k for k in kinds if k in ("S1", "S2", "S3")} != {f"S{c['typ']}"}:
            return f"data records are {kinds}"
        return None
    return codecs.check(c)
