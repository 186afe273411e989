"""C11: S-Hexdump and raw binary."""

import hashlib
import xml.etree.ElementTree as ET

from .lib import attempt, content, first_diff, hx, jsecs, merged, pairs, rand_sections, rb, uh, usecs


def gen(rng, n):
    sizes = [1, 2, 15, 16, 17, 31, 32, 33, 48, 255, 256]
    for k in sizes:
        yield dict(op="shf", secs=[[0x100, hx(rb(rng, k))]])
        yield dict(op="shf", secs=[[0, hx(rb(rng, k))], [0x1000, hx(rb(rng, k))], [0xFFFF0000, hx(rb(rng, 3))]])
    fills = [None, {"b": "ff"}, {"b": "00"}, {"b": "5a"}, 0, 1, 255, 0x5A]
    for f in fills:
        for gap in (0, 1, 2, 7, 300):
            for join in (True, False):
                yield dict(op="bin", secs=[[0x10, "0102"], [0x12 + gap, "0304"], [0x14 + 2 * gap + 1, "05"]], filler=f, join=join)
    for f in (256, 1000, -1, {"b": ""}, {"b": "0102"}):
        yield dict(op="badfill", secs=[[0x10, "0102"], [0x20, "03"]], filler=f)
    for d in ("", "00", "ff" * 300, hx(bytes(range(256)))):
        for a in (0, 1, 0x8000, 0xFFFFFFFF):
            yield dict(op="load", data=d, addr=a)
    for _ in range(n):
        if rng.random() < 0.5:
            yield dict(op="shf", secs=jsecs(rand_sections(rng, 32)), join=rng.random() < 0.5)
        elif rng.random() < 0.6:
            base = rng.choice([0, 0x1234, 0xFFFF0000])
            secs = rand_sections(rng, rng.choice([6, 9, 12]), maxn=6)
            yield dict(op="bin", secs=jsecs([(a + base, d) for a, d in secs]), filler=rng.choice(fills), join=rng.random() < 0.5)
        else:
            yield dict(op="load", data=hx(rb(rng, rng.randint(0, 80))), addr=rng.getrandbits(32))


def check(c):
    import objutils
    from objutils import Image, Section

    op = c["op"]
    if op == "load":
        d = uh(c["data"])
        for arg in (d, bytearray(d)):
            img, e = attempt(lambda: objutils.loads("bin", arg, c["addr"]))
            if e is not None:
                return f"loading raw data raised {e!r}"
            if content(pairs(img)) != content([(c["addr"], d)]):
                return f"raw data at {c['addr']:#x} loaded as {pairs(img)}"
        img, e = attempt(lambda: objutils.loads("bin", d))
        if e is not None or content(pairs(img)) != content([(0, d)]):
            return f"raw data at the default address loaded as {img!r} / {e!r}"
        return None
    secs = usecs(c["secs"])
    img = Image([Section(a, bytearray(d)) for a, d in secs], join=c.get("join", True))
    if op == "shf":
        out, e = attempt(lambda: objutils.dumps("shf", img))
        if e is not None:
            return f"dumps raised {e!r}"
        try:
            root = ET.fromstring(bytes(out))
        except ET.ParseError as x:
            return f"not well-formed: {x}"
        blocks = []
        for b in root:
            data = bytes.fromhex("".join((b.text or "").split()))
            at = b.attrib
            if not all(k in at for k in ("name", "address", "word_size", "length", "checksum")):
                return f"block attributes {at}"
            if int(at["length"], 16) * int(at["word_size"], 16) != len(data):
                return f"length attribute {at['length']} for {len(data)} bytes"
            if at["checksum"].lower() != hashlib.sha1(data).hexdigest():
                return "checksum attribute is not the SHA-1 of the data"
            blocks.append((int(at["address"], 16), data))
        if blocks != pairs(img):
            return f"blocks {[(hex(a), len(d)) for a, d in blocks]} differ from the sections"
        r, e = attempt(lambda: objutils.loads("shf", bytes(out)))
        if e is not None:
            return f"loads raised {e!r}"
        if content(pairs(r)) != content(secs):
            return f"loaded image differs: {first_diff(content(secs), content(pairs(r)) or {})}"
        if pairs(r) != merged(secs):
            return "loaded sections differ"
        return None
    f = c["filler"]
    kw = {} if f is None else {"filler": uh(f["b"]) if isinstance(f, dict) else f}
    out, e = attempt(lambda: objutils.dumps("bin", img, **kw))
    if op == "badfill":
        return None if e is not None else f"filler {f!r} accepted: {bytes(out).hex()}"
    if e is not None:
        return f"dumps raised {e!r}"
    fb = 0xFF if f is None else (uh(f["b"])[0] if isinstance(f, dict) else f)
    m = content(secs)
    lo, hi = min(m), max(m)
    want = bytes(m.get(a, fb) for a in range(lo, hi + 1))
    if bytes(out) != want:
        return f"binary dump is {bytes(out).hex()[:200]}, expected {want.hex()[:200]}"
    r, e = attempt(lambda: objutils.loads("bin", bytes(out), lo))
    if e is not None or content(pairs(r)) != {lo + i: x for i, x in enumerate(want)}:
        return "loading the dump does not give the data back"
    return None
