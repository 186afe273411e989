"""C18: hexdump."""

import io
import re

from .lib import attempt, hx, jsecs, rand_sections, rb, uh, usecs

ROW = re.compile(r"^([0-9a-f]{8,16})\s+((?:[0-9a-f]{2} )*) *\|(.{16})\|$", re.DOTALL)


def gen(rng, n):
    for size in (1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 80, 256):
        for pat in ("zero", "inc", "rep", "two"):
            d = {"zero": bytes(size), "inc": bytes(i & 0xFF for i in range(size)), "rep": bytes((i % 16) for i in range(size)), "two": bytes((i // 16) // 2 & 0xFF for i in range(size))}[pat]
            for a in (0, 0x1000, 0x1234, 0xFFFFFFE0):
                yield dict(secs=[[a, hx(d)]], image=False)
    yield dict(secs=[[0, "00" * 64], [0x100, "00" * 64], [0x200, "00" * 5]], image=True)
    for _ in range(n):
        rows = [rng.choice([bytes(16), b"A" * 16, rb(rng, 16), bytes(15) + b"\1"]) for _ in range(rng.randint(1, 7))]
        d = b"".join(rows)
        d = d[: rng.choice([len(d), max(1, len(d) - rng.randint(0, 15))])]
        if rng.random() < 0.2:
            yield dict(secs=jsecs(rand_sections(rng, 32, maxn=3)), image=True)
        else:
            yield dict(secs=[[rng.choice([0, 0x10, 0x8001, 0xFFFF0]), hx(d)]], image=False)


def parse(lines, start, data):
    """Check one section's dump (list of lines without the footer)."""
    pos = 0
    prev_star = False
    need = [i for i in range(0, len(data), 16)]
    shown = {}
    last = -1
    for ln in lines:
        if ln.strip() == "*":
            if prev_star or not shown:
                return "misplaced '*'"
            prev_star = True
            continue
        m = ROW.match(ln)
        if not m:
            return f"cannot read row {ln!r}"
        raw = bytes.fromhex(m.group(2))
        off = int(m.group(1), 16) - start
        if start + len(data) > 1 << 32:
            off %= 1 << 32
        if off not in need or off <= last:
            return f"row address {m.group(1)} (section starts at {start:#x})"
        if raw != data[off : off + 16]:
            return f"row {m.group(1)} shows {raw.hex()} instead of {data[off:off+16].hex()}"
        text = m.group(3)
        for i, b in enumerate(raw):
            ok = [chr(b)] if 0x20 <= b < 0x7F else [".", "\x7f"] if b == 0x7F else ["."]
            if text[i] not in ok:
                return f"row {m.group(1)} shows character {text[i]!r} for byte {b:#x}"
        gap = [k for k in need if last < k < off]
        if gap and not prev_star:
            return f"rows at {gap} missing without '*'"
        prev_star = False
        shown[off] = 1
        last = off
    if prev_star and not any(k > last for k in need):
        return "'*' without elided rows"
    for k in need:
        if k not in shown:
            if k == 0 or data[k : k + 16] != data[k - 16 : k]:
                return f"row at offset {k:#x} elided although it differs from the row before"
            if k > last:
                if not prev_star:
                    return f"row at offset {k:#x} missing"
    return None


def check(c):
    from objutils import Image, Section

    secs = usecs(c["secs"])
    out = io.StringIO()
    objs = [Section(a, bytearray(d)) for a, d in secs]
    target = Image(objs, join=False) if c["image"] else objs[0]
    _, e = attempt(lambda: target.hexdump(out))
    if e is not None:
        return f"hexdump raised {e!r}"
    if [(s.start_address, bytes(s.data)) for s in objs] != secs:
        return "hexdump modified the section"
    lines = out.getvalue().split("\n")
    blocks, cur = [], []
    for ln in lines:
        m = re.match(r"^\s*(\d+) bytes$", ln)
        if m:
            blocks.append((cur, int(m.group(1))))
            cur = []
        elif ln.strip("-") == "" or ln.startswith("Section #"):
            continue
        else:
            cur.append(ln)
    if cur or len(blocks) != len(secs):
        return f"{len(blocks)} dumps for {len(secs)} sections; rest {cur}"
    for (rows, count), (a, d) in zip(blocks, secs):
        if count != len(d):
            return f"byte count {count} instead of {len(d)}"
        m = parse(rows, a, d)
        if m:
            return m
    return None
