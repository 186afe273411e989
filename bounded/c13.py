"""C13: address range of the writers, refused dumps."""

import os
import tempfile

from .formats import BITS, HARD
from .lib import attempt, content, first_diff, jsecs, pairs, rand_sections, rb, usecs


def gen(rng, n):
    for codec in BITS:
        for b in sorted({16, 20, 24, 32, BITS[codec]}):
            top = 1 << b
            for secs in (
                [(top - 1, b"\x01")],
                [(top, b"\x02")],
                [(top - 1, b"\x01\x02")],
                [(top - 17, bytes(17))],
                [(top - 16, bytes(17))],
                [(top + 5, bytes(20))],
                [(0, b"\x05"), (top - 4, bytes(4))],
                [(0, b"\x05"), (top - 4, bytes(5))],
                [(0, b"\x05"), (top, b"\x05")],
            ):
                yield dict(codec=codec, secs=jsecs(secs), kind="image")
        yield dict(codec=codec, secs=jsecs([(0, b"\x01")]), kind="image")
        yield dict(codec=codec, secs=jsecs([(1 << 33, b"\x01")]), kind="image")
        yield dict(codec=codec, secs=jsecs([((1 << BITS[codec]) - 1, b"\x01")]), kind="section")
        yield dict(codec=codec, secs=jsecs([((1 << BITS[codec]) - 1, b"\x01\x01")]), kind="section")
    for _ in range(n):
        codec = rng.choice(list(BITS))
        yield dict(codec=codec, secs=jsecs(rand_sections(rng, rng.choice([16, 17, 20, 21, 24, 25, 32, 33]), maxn=3)), kind="image", join=rng.random() < 0.5)
    yield dict(codec="bin", secs=[[0, "01"], [5, "02"]], kind="badfiller")


def check(c):
    import objutils
    from objutils import Image, Section
    from objutils.hexfile import AddressRangeToLargeError

    codec, secs = c["codec"], usecs(c["secs"])
    objs = [Section(a, bytearray(d)) for a, d in secs]
    img = objs[0] if c["kind"] == "section" else Image(objs, join=c.get("join", True))
    high = max(a + len(d) - 1 for a, d in secs)
    if codec == "bin":
        must_refuse, may_refuse = True, True
        dump = lambda fp: objutils.dump("bin", fp, img, filler=b"xx")  # noqa: E731
    else:
        must_refuse = high >= 1 << HARD[codec]
        may_refuse = high >= 1 << BITS[codec]
        dump = lambda fp: objutils.dump(codec, fp, img)  # noqa: E731
        out, e = attempt(lambda: objutils.dumps(codec, img))
        if e is not None and not may_refuse:
            return f"{codec}: image up to {high:#x} refused: {e!r}"
        if e is None and must_refuse:
            return f"{codec}: image up to {high:#x} was not refused (highest expressible address {(1 << HARD[codec]) - 1:#x})"
        if e is not None and not isinstance(e, AddressRangeToLargeError):
            return f"{codec}: refused with {e!r}"
        if e is None:
            r, e2 = attempt(lambda: objutils.loads(codec, bytes(out)))
            if e2 is not None or content(pairs(r)) != content(secs):
                return f"{codec}: address truncated: {e2!r} {first_diff(content(secs), (content(pairs(r)) or {}) if r is not None else {})}"
        refused = e is not None
        must_refuse = refused
    with tempfile.TemporaryDirectory(prefix="vc13") as td:
        fn = os.path.join(td, "f")
        for old in (b"old content", None):
            if old is not None:
                with open(fn, "wb") as f:
                    f.write(old)
            elif os.path.exists(fn):
                os.unlink(fn)
            _, e3 = attempt(lambda: dump(fn))
            if must_refuse:
                if e3 is None:
                    return f"{codec}: dumps refuses, dump does not"
                if old is None:
                    if os.path.exists(fn):
                        return f"{codec}: refused dump created the file"
                elif open(fn, "rb").read() != old:
                    return f"{codec}: refused dump changed the existing file"
            elif e3 is not None:
                return f"{codec}: dump raised {e3!r}"
            elif open(fn, "rb").read() != bytes(out):
                return f"{codec}: dump wrote something else than dumps returns"
    return None
