"""C17: binary diff."""

import itertools

from .lib import attempt, hx, rb, uh


def gen(rng, n):
    for la in range(0, 4):
        for lb in range(0, 4):
            for a in itertools.product((0, 1), repeat=la):
                for b in itertools.product((0, 1), repeat=lb):
                    yield dict(a=hx(bytes(a)), b=hx(bytes(b)), t="bytes")
    for m in range(64):
        a = bytes(6)
        b = bytes((m >> i) & 1 for i in range(6))
        yield dict(a=hx(a), b=hx(b), t="bytearray")
    for _ in range(n):
        k = rng.randint(0, 40)
        a = bytearray(rb(rng, k))
        b = bytearray(a)
        for _ in range(rng.randint(0, 4)):
            if b:
                i = rng.randrange(len(b))
                for j in range(i, min(len(b), i + rng.randint(1, 5))):
                    b[j] ^= rng.choice([0, 1, 0x80, 0xFF])
        r = rng.random()
        if r < 0.3:
            b += rb(rng, rng.randint(1, 5))
        elif r < 0.6:
            del b[len(b) - rng.randint(0, len(b)) :]
        if rng.random() < 0.5:
            a, b = b, a
        yield dict(a=hx(a), b=hx(b), t=rng.choice(["bytes", "bytearray"]))


def check(c):
    from objutils.utils.diff import diff_bin

    t = bytes if c["t"] == "bytes" else bytearray
    a, b = t(uh(c["a"])), t(uh(c["b"]))
    r, e = attempt(lambda: diff_bin(a, b))
    if e is not None:
        return f"raised {e!r}"
    if bytes(a) != uh(c["a"]) or bytes(b) != uh(c["b"]):
        return "arguments modified"
    n = min(len(a), len(b))
    want = []
    i = 0
    while i < n:
        if a[i] != b[i]:
            j = i
            while j < n and a[j] != b[j]:
                j += 1
            want.append(("M", i, bytes(a[i:j]), bytes(b[i:j])))
            i = j
        else:
            i += 1
    if len(b) > len(a):
        want.append(("A", len(a), None, bytes(b[len(a) :])))
    elif len(a) > len(b):
        want.append(("D", len(b), bytes(a[len(b) :]), None))
    got = [(d.type, d.offset, None if d.a is None else bytes(d.a), None if d.b is None else bytes(d.b)) for d in r]
    if got != want:
        return f"diff of {c['a']} and {c['b']} is {got}, expected {want}"
    return None
