"""C20: reader/writer objects are independent of earlier use; dumping does not modify the image."""

from . import formats as F
from .lib import attempt, hx, jsecs, pairs, rand_sections, rb, usecs

CODECS = list(F.BITS) + ["shf", "bin"]
RAW = {
    "srec": ["S9030000FC\n", "S1050000010200\n", "S0040000FFFC\nS1040010AA41\n", "S30500000001F9\n", "garbage\n"],
    "ihex": [":020000041234B4\n:0100000041BE\n:00000001FF\n", ":020000021000EC\n:0100000041BE\n", ":020000041234B4\n:01000000FFFF\n", ":0100000041BE\n:00000001FF\n", ":020000040001F9\n", "x\n"],
    "tek": ["/00000000\n", "/010001020102\n"],
    "etek": ["%0E6490001000102\n", "%0E6\n"],
    "mostec": [";00\n", ";0100104150\n", ";01001041005F\n"],
    "sig": [":00\n", ":0010010041\n"],
    "emon52": ["01 0010:41 0041\n", "02 0010:41 0041\n"],
    "fpc": ["$%%%%%\n", "$!!\n", "$0\n"],
    "ash": ["\x02 \n$A1000,\n41 42\n\x03$$0083,\n", "41 42\n", "$A2000,\n", "ZZ\n", "$A1000,\n41 42\n4142 43\n"],
    "titxt": ["@1000\n41 42\nq\n", "41 42\n", "@2000\n", "GG HH\n", "@3000\n", "@1000\n41 42\n4142 43\n"],
    "rca": ["0010 4142;\n", "\n"],
    "cosmac": ["!M0010 4142\n", "4142\n", "43\n", "!M2000 4142\n43\n", "ZZZ\n"],
    "shf": ["<dump></dump>", "x"],
    "bin": ["abc", ""],
}


EDITS = ["0", "F", "G", " ", "\n", "\nq\n", "4142 ", "@1000\n", ":00000001FF\n", "\n4142 43\n", ";00\n", "S9030000FC\n"]


def gen(rng, n):
    for codec in CODECS:
        for i, a in enumerate(RAW[codec]):
            for b in RAW[codec]:
                yield dict(op="read", codec=codec, first=[a], second=b)
        for secs1, secs2 in (
            ([(0x10, b"\1\2")], [(0x12, b"\3\4\5")]),
            ([(0x10, b"\1\2")], [(0x10, b"\1\2")]),
            ([(0x0, bytes(40))], [(0x28, bytes(20))]),
            ([(0xFFF0, bytes(16))], [(0x0, bytes(4))]),
        ):
            yield dict(op="write", codec=codec, first=jsecs(secs1), second=jsecs(secs2))
        if codec in F.BITS and F.BITS[codec] == 32:
            yield dict(op="write", codec=codec, first=[[0x12340010, "0102"]], second=[[0x12, "0304"]])
            yield dict(op="write", codec=codec, first=[[0x12340010, "0102"]], second=[[0x12340012, "0304"]])
            yield dict(op="write", codec=codec, first=[[0x10, "0102"]], second=[[0x10012, "0304"]])
            yield dict(op="write", codec=codec, first=[[0x1000010, "0102"]], second=[[0x10, "0304"]])
        yield dict(op="write", codec=codec, first=[[1 << 40, "0102"]], second=[[0x12, "0304"]])
        yield dict(op="mixed", codec=codec, first=jsecs([(0x10, bytes(20))]), second=jsecs([(0x200, bytes(3))]))
    for _ in range(n):
        codec = rng.choice(CODECS)
        bits = F.BITS.get(codec, 32) if codec != "bin" else 10
        if rng.random() < 0.5:
            yield dict(op="write", codec=codec, first=jsecs(rand_sections(rng, bits)), second=jsecs(rand_sections(rng, bits)))
        elif rng.random() < 0.5:
            yield dict(op="mixed", edits=[[rng.random(), rng.choice(EDITS)] for _ in range(rng.choice([0, 1, 1, 2]))], codec=codec, first=jsecs(rand_sections(rng, bits)), second=jsecs(rand_sections(rng, bits)))
        else:
            yield dict(op="read", codec=codec, first=[rng.choice(RAW[codec]) for _ in range(rng.randint(1, 3))], second=rng.choice(RAW[codec]))


def outcome_read(rd, data):
    r, e = attempt(lambda: rd.loads(data))
    if e is not None:
        return ("raised", type(e).__name__)
    meta = {k: [(m.format_type, m.address, None if m.chunk is None else bytes(m.chunk) if not isinstance(m.chunk, str) else m.chunk) for m in v] for k, v in dict(r.meta).items()}
    return (pairs(r), meta, r.valid)


def outcome_write(wr, image):
    r, e = attempt(lambda: wr.dumps(image))
    return ("raised", type(e).__name__) if e is not None else bytes(r)


def check(c):
    from objutils import Image, Section
    from objutils.registry import registry

    codec = registry.get(c["codec"])
    mk = lambda js: Image([Section(a, bytearray(d)) for a, d in usecs(js)])  # noqa: E731
    if c["op"] == "read":
        rd = codec.Reader()
        for f in c["first"]:
            outcome_read(rd, f)
        got = outcome_read(rd, c["second"])
        want = outcome_read(codec.Reader(), c["second"])
        if got != want:
            return f"after loading {c['first']!r} the same reader gives {got} for {c['second']!r}; a new reader gives {want}"
        return None
    if c["op"] == "write":
        i1, i2 = mk(c["first"]), mk(c["second"])
        wr = codec.Writer()
        for _ in range(2):
            outcome_write(wr, i1)
        got = outcome_write(wr, i2)
        if pairs(i1) != pairs(mk(c["first"])) or pairs(i2) != pairs(mk(c["second"])) or dict(i1.meta) != {}:
            return "dumping modified the image"
        want = outcome_write(codec.Writer(), mk(c["second"]))
        if got != want:
            return f"after another dump the same writer emits {got!r}; a new writer {want!r}"
        return None
    f1, f2 = outcome_write(codec.Writer(), mk(c["first"])), outcome_write(codec.Writer(), mk(c["second"]))
    if isinstance(f1, tuple) or isinstance(f2, tuple):
        return None
    rd = codec.Reader()
    outcome_read(rd, f1)
    outcome_read(rd, f1[: len(f1) // 2] + b"\n")
    for at, text in c.get("edits", ()):
        k = int(at * len(f1))
        f1 = f1[:k] + text.encode() + f1[k + (len(text) == 1) :]
        outcome_read(rd, f1)
    got = outcome_read(rd, f2)
    want = outcome_read(codec.Reader(), f2)
    if got != want:
        return f"after loading another file the same reader gives {got}; a new reader {want}"
    return None
