"""C04: insertion sequences into an image."""

from .lib import attempt, content, hx, rb, uh


def gen(rng, n):
    # Every relation of one section to one or two present ones.
    base = [[0x10, "a1a2a3a4", True]]
    for a in range(0x0B, 0x18):
        for ln in range(1, 8):
            for j in (True, False):
                yield dict(ops=base + [[a, "bb" * ln, j], [None, "cc", True]])
    two = [[0x10, "a1a2a3a4", False], [0x18, "b1b2b3b4", False]]
    for a in range(0x0E, 0x1E):
        for ln in range(1, 13):
            yield dict(ops=two + [[a, "cc" * ln, True], [None, "dd", False]])
    for _ in range(n):
        ops = []
        span = rng.choice([24, 60, 200])
        orig = rng.choice([0, 0x100, 0xFFF0, 0xFFFFFFF0])
        for _ in range(rng.randint(1, 9)):
            a = None if rng.random() < 0.2 else orig + rng.randint(0, span)
            ops.append([a, hx(rb(rng, rng.choice([1, 1, 2, 4, 8, 16, 30]))), rng.random() < 0.5])
        yield dict(ops=ops, kind=rng.choice(["bytes", "bytearray", "list", "str"]), init=rng.random() < 0.3)


def check(c):
    from objutils.exceptions import InvalidAddressError
    from objutils.image import Image
    from objutils.section import Section

    ops = list(c["ops"])
    model = {}
    nxt = None
    if c.get("init") and ops[0][0] is not None:
        a, d, j = ops.pop(0)
        img = Image([Section(a, bytearray(uh(d)))], join=j)
        model = content([(a, uh(d))])
    else:
        img = Image()
        nxt = 0
    for no, (a, d, j) in enumerate(ops):
        d = uh(d)
        kind = c.get("kind", "bytes")
        arg = {"bytes": bytes, "bytearray": bytearray, "list": list, "str": lambda b: b.decode("latin1")}[kind](d)
        if a is None and nxt is None:
            continue
        at = nxt if a is None else a
        before = [(s.start_address, bytes(s.data)) for s in img.sections]
        r, e = attempt(lambda: img.insert_section(arg, **({} if a is None else {"start_address": a}), join=j))
        clash = any(at + i in model for i in range(len(d)))
        after = [(s.start_address, bytes(s.data)) for s in img.sections]
        if clash:
            if not isinstance(e, InvalidAddressError):
                return f"op {no}: overlapping insertion at {at:#x} (+{len(d)}) not rejected with InvalidAddressError: {e!r}"
            if after != before:
                return f"op {no}: rejected insertion changed the image: {before} -> {after}"
        else:
            if e is not None:
                return f"op {no}: insertion at {at:#x} (+{len(d)}) into free space raised {e!r}"
            for i, x in enumerate(d):
                model[at + i] = x
            nxt = at + len(d)
        if [x for x, _ in after] != sorted(x for x, _ in after):
            return f"op {no}: sections not in ascending order: {[hex(x) for x, _ in after]}"
        m = content(after)
        if m is None:
            return f"op {no}: sections overlap: {[(hex(x), len(y)) for x, y in after]}"
        if m != model:
            return f"op {no}: image content differs from the inserted bytes"
        if not clash and j and any(x + len(y) == after[i + 1][0] for i, (x, y) in enumerate(after[:-1])):
            return f"op {no}: adjacent sections not merged"
    return None
