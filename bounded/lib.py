"""Shared helpers of the concrete checkers (independent of the code under test)."""

import io
import contextlib
import random


def rb(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def hx(b):
    return bytes(b).hex()


def uh(s):
    return bytes.fromhex(s)


def content(sections):
    """address -> byte of (start, data) pairs; None when two overlap."""
    m = {}
    for a, d in sections:
        for i, x in enumerate(d):
            if a + i in m:
                return None
            m[a + i] = x
    return m


def pairs(image):
    return [(s.start_address, bytes(s.data)) for s in image]


class quiet:
    """Silences stdout and logging of the code under test."""

    def __enter__(self):
        import logging

        logging.disable(logging.CRITICAL)
        self.cm = contextlib.redirect_stdout(io.StringIO())
        self.cm2 = contextlib.redirect_stderr(io.StringIO())
        self.cm.__enter__()
        self.cm2.__enter__()
        return self

    def __exit__(self, *a):
        self.cm2.__exit__(*a)
        return self.cm.__exit__(*a)


def attempt(fn):
    """(result, None) or (None, exception)."""
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def rand_sections(rng, bits, maxn=4, lens=(1, 2, 3, 15, 16, 17, 31, 32, 33, 48), seg=None, adjacent=0.2):
    """Disjoint ascending (start, data) pairs below 2**bits."""
    top = 1 << bits
    pts = []
    interesting = [0, 1, 0xFF, 0x100, 0xFFF0, 0xFFFF, 0x10000, 0x1FFFF, 0xFFFFF, 0x100000, 0xFFFFFF, 0x1000000, top - 1, top - 2, top - 16, top // 2]
    for _ in range(rng.randint(1, maxn)):
        k = rng.random()
        n = rng.choice(lens) if rng.random() < 0.7 else rng.randint(1, 70)
        if k < 0.35:
            a = rng.choice([x for x in interesting if x < top])
            if rng.random() < 0.5:
                a = max(0, a - rng.randint(0, n))
        elif k < 0.35 + adjacent and pts:
            a = pts[-1][0] + pts[-1][1] + rng.choice([0, 1, 2, 0x10000, 0xFFFF])
        else:
            a = rng.getrandbits(rng.randint(1, bits))
        if a + n > top:
            if rng.random() < 0.5:
                a = top - n
            else:
                n = top - a
        if a < 0 or n <= 0:
            continue
        pts.append((a, n))
    pts.sort()
    out = []
    end = -1
    for a, n in pts:
        if a >= end:
            d = rb(rng, n) if rng.random() < 0.7 else bytes([rng.choice([0, 0xFF, 0x20, 0x0A])]) * n
            out.append((a, d))
            end = a + n
    return out or [(0, b"\x55")]


def jsecs(secs):
    return [[a, hx(d)] for a, d in secs]


def usecs(js):
    return [(a, uh(d)) for a, d in js]


def merged(secs):
    """Directly adjacent neighbours merged."""
    out = []
    for a, d in secs:
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1] = (out[-1][0], out[-1][1] + d)
        else:
            out.append((a, d))
    return out


def first_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return f"address {k:#x}: expected {a.get(k)!r}, got {b.get(k)!r}"
    return "equal"
