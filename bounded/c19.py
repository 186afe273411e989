"""C19: image of an ELF file."""

import contextlib
import io
import os
import struct
import tempfile

from .lib import attempt, content, first_diff, hx, pairs, rb, uh

ALLOC = 2


def build(c):
    """ELF file with the given section headers: (name, type, flags, addr, data|size)."""
    b64, be = c["b64"], c["be"]
    o = ">" if be else "<"
    secs = [dict(name="", type=0, flags=0, addr=0, data="")] + c["secs"] + [dict(name=".shstrtab", type=3, flags=0, addr=0, data=None)]
    strtab = b"\0"
    for s in secs:
        s = dict(s)
    names = []
    strndx = 0 if c.get("nostr") else len(secs) - 1
    for s in secs:
        if s["name"]:
            names.append(len(strtab))
            strtab += s["name"].encode() + b"\0"
        else:
            names.append(0)
    ehsize = 64 if b64 else 52
    shent = 64 if b64 else 40
    blob = b""
    pos = ehsize + c.get("gap", 0)
    blob += b"\xEE" * c.get("gap", 0)
    recs = []
    for s, nm in zip(secs, names):
        data = strtab if s["data"] is None else uh(s["data"])
        size = s.get("size", len(data))
        off = pos
        if s["type"] in (0, 8):
            data = b""
        if s["type"] == 0:
            off = 0
        recs.append((nm, s["type"], s["flags"], s["addr"], off, size, s.get("align", 1)))
        blob += data
        pos += len(data)
    shoff = pos
    for nm, t, fl, ad, off, size, al in recs:
        if b64:
            blob += struct.pack(o + "IIQQQQIIQQ", nm, t, fl, ad, off, size, 0, 0, al, 0)
        else:
            blob += struct.pack(o + "IIIIIIIIII", nm, t, fl, ad, off, size, 0, 0, al, 0)
    ident = b"\x7fELF" + bytes([2 if b64 else 1, 2 if be else 1, 1, 0, 0]) + bytes(7)
    if b64:
        hdr = ident + struct.pack(o + "HHIQQQIHHHHHH", 2, 62, 1, 0, 0, shoff, 0, ehsize, 56, 0, shent, len(secs), strndx)
    else:
        hdr = ident + struct.pack(o + "HHIIIIIHHHHHH", 2, 40, 1, 0, 0, shoff, 0, ehsize, 32, 0, shent, len(secs), strndx)
    return hdr + blob


def sec(name, typ, flags, addr, data, **k):
    return dict(name=name, type=typ, flags=flags, addr=addr, data=hx(data), **k)


def gen(rng, n):
    for b64 in (False, True):
        for be in (False, True):
            yield dict(
                b64=b64,
                be=be,
                secs=[
                    sec(".text", 1, 6, 0x8000, rb(rng, 20)),
                    sec(".data", 1, 3, 0x8100, rb(rng, 7)),
                    sec(".adj", 1, 2, 0x8107, rb(rng, 5)),
                    sec(".bss", 8, 3, 0x9000, b"", size=64),
                    sec(".debug_info", 1, 0, 0, rb(rng, 11)),
                    sec(".zero", 1, 2, 0xA000, b""),
                    sec(".ro", 1, 0x12, 0x7000, rb(rng, 4)),
                ],
            )
            yield dict(b64=b64, be=be, secs=[sec(".big", 1, 2, 0x10000, rb(rng, 0x10001)), sec(".tls", 1, 0x400, 0x2000, rb(rng, 4)), sec(".al", 1, 2, 0x8000, rb(rng, 2), align=4096)])
            for extra in (
                [sec(".symtab", 2, 0, 0, b"")],
                [sec(".dynsym", 11, 2, 0x100, b"")],
                [sec(".symtab", 2, 0, 0, bytes(48))],
                [sec(".symtab", 2, 2, 0x300, bytes(13))],
                [sec(".comment", 1, 0, 0, b"")],
                [sec(".comment", 1, 0, 0, b"abc\0def\0")],
                [sec(".comment", 1, 0, 0, b"abc\0def")],
                [sec(".comment", 1, 0, 0, b"\xa9 abc\0")],
                [sec(".comment", 1, 0, 0, b"\xa9 abc")],
                [sec(".note", 7, 2, 0x200, b"")],
                [sec(".note", 7, 2, 0x200, struct.pack((">" if be else "<") + "III", 4, 4, 1) + b"GNU\0abcd")],
                [sec(".note", 7, 2, 0x200, struct.pack((">" if be else "<") + "III", 0, 4, 1) + b"abcd")],
                [sec(".note", 7, 2, 0x200, struct.pack((">" if be else "<") + "III", 3, 4, 1) + b"GNU\0abcd")],
                [sec(".note", 7, 2, 0x200, struct.pack((">" if be else "<") + "III", 400, 4, 1) + b"GNU\0abcd")],
                [sec(".note", 7, 2, 0x200, b"\1\2\3")],
                [sec("", 1, 2, 0x300, b"unnamed")],
            ):
                yield dict(b64=b64, be=be, secs=[sec(".text", 1, 6, 0x8000, b"abc"), *extra, sec(".data", 1, 3, 0x9000, b"de")])
                if be == b64:
                    yield dict(b64=b64, be=be, secs=[sec(".text", 1, 6, 0x8000, b"abc"), *extra], nostr=True)
            yield dict(b64=b64, be=be, secs=[sec(".text", 1, 6, 0x8000, b"abc")], changed=True)
            for gap in (5000, 70000, 1100000):  # what changes lies far back in the file
                yield dict(b64=b64, be=be, secs=[sec(".text", 1, 6, 0x8000, b"abc")], changed=True, gap=gap)
    pats = [("", ""), (".text", ""), ("^.d", ""), ("", ".data"), ("", "^.t"), ("(a|b)", ""), ("", "x$")]
    for k in range(n):
        secs = []
        addr = rng.choice([0, 0x400, 0x10000])
        for i in range(rng.randint(1, 6)):
            t = rng.choice([1, 1, 1, 8, 14, 15, 0x70000001])
            fl = rng.choice([0, 1, 2, 2, 3, 6, 7, 0x10, 0x12, 0x32, 0x400, 0x401, 0x402])
            d = rb(rng, rng.choice([0, 1, 5, 16, 40])) if rng.random() > 0.02 else rb(rng, 0x10003)
            addr += rng.choice([0, 0, 1, 0x100])
            s = sec(rng.choice([".text", ".data", ".rodata", ".init", ".abc", ".xyz"]) + str(i), t, fl, addr, d if t != 8 else b"")
            if t == 8:
                s["size"] = rng.choice([0, 8, 100])
            s["align"] = rng.choice([0, 1, 4, 16, 64, 4096])
            secs.append(s)
            addr += len(d)
        order = list(secs)
        rng.shuffle(order)
        inc, exc = rng.choice(pats) if rng.random() < 0.5 else ("", "")
        yield dict(b64=rng.random() < 0.5, be=rng.random() < 0.5, secs=order, inc=inc, exc=exc, join=rng.random() < 0.7, gap=rng.choice([0, 3]), again=rng.random() < 0.3, changed=rng.random() < 0.2)


def wanted(c):
    import re

    want = []
    for s in c["secs"]:
        if s["type"] in (0, 8) or not s["flags"] & ALLOC or not s["data"]:
            continue
        if c.get("inc") and not re.match(c["inc"], s["name"]):
            continue
        if c.get("exc") and re.match(c["exc"], s["name"]):
            continue
        want.append((s["addr"], uh(s["data"])))
    return want


def check(c):
    from objutils.elf import ElfParser

    with tempfile.TemporaryDirectory(prefix="vc19") as td, contextlib.redirect_stdout(io.StringIO()):
        fn = os.path.join(td, "t.elf")
        with open(fn, "wb") as f:
            f.write(build(c))
        kw = {}
        if c.get("inc"):
            kw["include_pattern"] = c["inc"]
        if c.get("exc"):
            kw["exclude_pattern"] = c["exc"]
        want = wanted(c)
        for turn in range(3 if c.get("changed") else 2 if c.get("again") else 1):
            if turn and c.get("changed"):  # the file changes: what was kept of it must not be used
                c = dict(c, secs=[dict(s, data=hx(bytes(x ^ 0x5A for x in uh(s["data"])))) if s["type"] in (1, 14, 15) else s for s in c["secs"]])
                want = wanted(c)
                with open(fn, "wb") as f:
                    f.write(build(c))
            p, e = attempt(lambda: ElfParser(fn))
            if e is not None:
                return f"parsing raised {e!r}"
            img, e = attempt(lambda: p.create_image(join=c.get("join", True), **kw))
            try:
                if e is not None:
                    return f"create_image raised {e!r}"
                got = pairs(img)
                if [(a, d) for a, d in got if not d]:
                    return "empty section in the image"
                m = content(got)
                if m != content(want):
                    return f"turn {turn}: image differs: {first_diff(content(want), m or {})}"
            finally:
                try:
                    p.session.close()
                    p.db.close()
                except Exception:  # noqa: BLE001
                    pass
    return None
